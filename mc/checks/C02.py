"""Kutta-Joukowski panel loads of the real solution against the reference kernels, in every explored configuration."""
import numpy as np
import cases, ref, rigs
from engine import digest
from checks import C01


def verify(c, panels, v, r, wind=None):
    ns, nc = c["mesh"]
    L = ref.lattice(panels, ns, nc, c["go"])
    V = ref.app_wind(c, np.abs(L["cp"][:, 2]))
    W, edge = ref.influence(L["cp"], L, V, c["go"])
    if edge:
        r.skip = "a panel edge lies on the border of the vortex core"
        return
    g = np.asarray(v.gamma_magnitude)
    Vind = np.einsum("ijk,j->ik", W, g)
    K = ref.kutta(L, g, V, Vind, c["rho"], ns)
    s = max(np.abs(V).max(), np.abs(Vind).max())
    r.same("wind-at-cp", v.inlet_conditions.V_app_infs, V, 1e-10)
    r.same("cp", v.cp, L["cp"], 1e-10)
    r.same("induced-at-cp", v.V_induced_at_cp, Vind, 1e-9, scale=s)
    r.same("total-at-cp", v.V_app_fs_at_cp, V + Vind, 1e-9, scale=s)
    F = max(np.abs(K["force"]).max(), np.abs(K["lift"]).max(), np.abs(K["drag"]).max())
    r.same("force", v.force, K["force"], 1e-9, scale=F)
    r.same("lift", v.lift, K["lift"], 1e-9, scale=F)
    r.same("drag", v.drag, K["drag"], 1e-9, scale=F)
    r.same("lift+drag", v.lift + v.drag, v.force, 1e-9, scale=F)
    r.same("normals", v.normals, L["normals"], 1e-10)
    # the area of a warped quadrilateral is a convention (see C23): between those of its triangles, give or take
    q = np.asarray(panels)
    T = {t: np.linalg.norm(np.cross(q[:, t[1]] - q[:, t[0]], q[:, t[2]] - q[:, t[0]]), axis=1) / 2 for t in ((0, 1, 2), (1, 2, 3), (2, 3, 0), (3, 0, 1))}
    T = [ref.quad_area(q), T[0, 1, 2] + T[2, 3, 0], T[1, 2, 3] + T[3, 0, 1], T[0, 1, 2] + T[1, 2, 3], T[2, 3, 0] + T[3, 0, 1]]
    lo, hi = .85 * np.min(T, 0), 1.15 * np.max(T, 0)
    A = np.asarray(v.areas)
    r.true("areas", A.shape == lo.shape and bool(((A >= lo) & (A <= hi)).all()), f"panel areas {A} outside {lo} .. {hi}")
    p = np.einsum("ij,ij->i", K["force"], L["normals"]) / np.asarray(v.areas)
    r.same("pressure", v.pressure, p, 1e-8)
    q = .5 * c["rho"] * np.einsum("ij,ij->i", V, V)
    r.same("pressure-coefficient", v.p_coeffs, p / q, 1e-8)
    r.outcome = digest(v.force)
    r.sample = dict(panels=len(panels), total_force=np.sum(v.force[:len(panels) // 2], axis=0))


def check(state, r):
    c = cases.config(state)
    why, g = cases.in_domain(c)
    if why:
        r.skip = why
        return
    ss, csys, v = cases.solve(c)
    verify(c, np.asarray(ss.panels), v, r)


def check_light(state, r):
    c = cases.config(state)
    why, g = cases.in_domain(c, need_wind=False)
    if why:
        r.skip = why
        return
    ss, csys, v = cases.solve(c)
    verify(c, np.asarray(ss.panels), v, r)


def check_composed(it, r):
    order, state = it
    c = cases.config(state)
    for o in order:
        why, g = cases.in_domain(rigs.variant(c, o))
        if why:
            r.skip = why
            return
    ss, csys = rigs.compose(c, order)
    verify(c, np.asarray(ss.panels), C01.make_vlm(c, ss), r)


def check_far(it, r):
    c, pan, v = C01.far_grids(it)
    verify(c, pan, v, r)


def run(ctx):
    import pySailingVLM.solver.vlm, pySailingVLM.runner.sail  # noqa: F401,E401
    st, tr = C01.space(ctx, ["mesh", "sails", "leeway", "heel", "alpha", "profile", "rho", "go", "m_camber", "m_twist", "SOG"])
    ctx.map("configurations", check, st, tr)
    ctx.map("large meshes", check, C01.BIG, chunk=1)
    ctx.map("light airs", check_light, C01.LIGHT)
    ctx.map("composed sail sets", check_composed, C01.composed(ctx))
    ctx.map("small and large grids", check_far, C01.FAR)
    ctx.assumptions += ["alphabet and deviation bounds as listed in mc/cases.py",
                        "panel areas enter as reported (within 15% of the flat quadrilateral's); their values are C23's"]
