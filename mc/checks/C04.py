"""The under-water half of every result is the mirror image of the upper half; no flow through the water plane."""
import numpy as np
import cases, ref, rigs
from engine import digest
from checks import C01

P = np.array([[x, y, 0.0] for x in (-9.0, -4.3, -1.1, 0.37, 1.9, 5.2, 11.0) for y in (-6.0, -1.3, 0.21, 2.4, 7.7)])


def verify(c, ss, v, res, r):
    ns, nc = c["mesh"]
    pan = np.asarray(ss.panels)
    K = len(pan)
    h = K // 2
    m = ref.mirror_index(K, ns, nc)[:h]
    M = ref.MIRROR
    r.same("panels", pan[m][:, [3, 2, 1, 0]], pan[:h] * M, 1e-10, scale=10)
    z = np.asarray(ss.zero_mesh)
    r.same("unrotated-panels", z[m][:, [3, 2, 1, 0]], z[:h] * M, 1e-10, scale=10)
    r.same("ring-corners", v.rings[m][:, [3, 2, 1, 0]], v.rings[:h] * M, 1e-10, scale=10)
    tol = 1e-8
    ic = v.inlet_conditions
    V, q = np.linalg.norm(ic.V_app_infs, axis=1).max(), np.asarray(v.areas).max()       # sails along the wind carry only noise
    floor = {"circulation": V * q ** .5, "pressure": v.rho * V * V, "pressure-coefficient": 1.0, **{k: V for k in ("induced-at-control", "induced-at-cp", "result-induced")},
             **{k: v.rho * V * V * q for k in ("force", "lift", "drag", "result-force")}}
    for nm, a in (("areas", v.areas), ("circulation", v.gamma_magnitude), ("pressure", v.pressure),
                  ("pressure-coefficient", v.p_coeffs)):
        a = np.asarray(a)
        r.same(nm, a[m], a[:h], tol, scale=np.abs(a).max() + 1e-6 * floor.get(nm, 0))
    fields = [("control-points", v.ctr_p), ("cp", v.cp), ("leading-mid", v.leading_mid_points), ("trailing-mid", v.trailing_mid_points),
              ("true-wind", ic.tws_at_cp), ("apparent-wind", ic.V_app_infs), ("induced-at-control", v.V_induced_at_ctrl),
              ("total-at-control", v.V_app_fs_at_ctrl_p), ("induced-at-cp", v.V_induced_at_cp),
              ("total-at-cp", v.V_app_fs_at_cp), ("force", v.force), ("lift", v.lift), ("drag", v.drag)]
    if res is not None:
        fields += [("result-force", res.F_xyz), ("result-induced", res.V_induced_at_cp), ("result-total", res.V_app_fs_at_cp)]
        r.same("result-circulation", np.asarray(res.gamma_magnitude)[m], np.asarray(res.gamma_magnitude)[:h], tol, scale=np.abs(v.gamma_magnitude).max() + 1e-6 * floor["circulation"])
    for nm, a in fields:
        a = np.asarray(a)
        r.same(nm, a[m], a[:h] * M, tol, scale=np.abs(a).max() + 1e-6 * floor.get(nm, 0))
    # velocity induced on the water plane, by independent kernels, from the code's rings, winds and circulations
    L = dict(A=v.rings[:, 0], B=v.rings[:, 1], C=v.rings[:, 2], D=v.rings[:, 3], te=np.asarray(ss.trailing_edge_info))
    W, edge = ref.influence(P, L, ic.V_app_infs, v.gamma_orientation)
    w = np.einsum("ijk,j->ik", W, v.gamma_magnitude)
    s = np.abs(np.einsum("ijk,j->ijk", W, np.abs(v.gamma_magnitude))).sum(1).max()
    r.same("water-plane", w[:, 2], 0 * w[:, 2], 1e-9, scale=s + 1e-6 * V)
    r.true("flow-over-water", np.abs(w[:, :2]).max() > 0 or np.abs(v.gamma_magnitude).max() < 1e-12, "no induced flow at all")
    r.outcome = digest(v.force)
    r.sample = dict(panels=K, max_vertical=float(np.abs(w[:, 2]).max()), max_horizontal=float(np.abs(w[:, :2]).max()))


def check(state, r):
    c = cases.config(state)
    why, g = cases.in_domain(c)
    if why:
        r.skip = why
        return
    ss, csys, v, res, hull = cases.results(c, keel=False)
    verify(c, ss, v, res, r)


def check_composed(it, r):
    order, state = it
    c = cases.config(state)
    for o in order:
        why, g = cases.in_domain(rigs.variant(c, o))
        if why:
            r.skip = why
            return
    ss, csys = rigs.compose(c, order)
    verify(c, ss, C01.make_vlm(c, ss), None, r)


def check_geometry(state, r):
    """Mirrored panels only (no solve): deeper in the geometry variables."""
    c = cases.config(state)
    why, g = cases.in_domain(c, need_wind=False)
    if why:
        r.skip = why
        return
    ss, csys = cases.build_geometry(c)
    pan, z = np.asarray(ss.panels), np.asarray(ss.zero_mesh)
    h = len(pan) // 2
    m = ref.mirror_index(len(pan), *c["mesh"])[:h]
    r.same("panels", pan[m][:, [3, 2, 1, 0]], pan[:h] * ref.MIRROR, 1e-10, scale=10)
    r.same("unrotated-panels", z[m][:, [3, 2, 1, 0]], z[:h] * ref.MIRROR, 1e-10, scale=10)
    r.true("above", pan[:h, :, 2].min() > 0 and pan[h:, :, 2].max() < 0, "halves are not on their own side of the water")
    r.outcome = digest(pan)


def run(ctx):
    import pySailingVLM.solver.vlm, pySailingVLM.runner.sail, pySailingVLM.results.inviscid_flow, pySailingVLM.yacht_geometry.hull_geometry  # noqa: F401,E401
    st, tr = C01.space(ctx, ["mesh", "interp", "sails", "leeway", "heel", "alpha", "profile", "m_camdist", "m_camber", "m_twist", "tmode"])
    ctx.map("configurations", check, st, tr)
    ctx.map("large meshes", check, C01.BIG, chunk=1)
    ctx.map("composed sail sets", check_composed, C01.composed(ctx))
    st, tr = cases.explore(["cruiser", "skiff"] if not ctx.thorough else list(cases.ROOTS), cases.GEOMETRY, 2)
    ctx.map("geometry", check_geometry, st, tr)
