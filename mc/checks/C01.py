"""Flow tangency: the real solution against an independent vortex-lattice solution in every explored configuration."""
import numpy as np
import cases, ref, rigs
from engine import digest


def verify(c, panels, v, r, wind=None):
    ns, nc = c["mesh"]
    V = wind or (lambda z: ref.app_wind(c, np.abs(z)))
    R = ref.vlm(panels, ns, nc, V, c["rho"], c["go"])
    if R["edge"]:
        r.skip = "a panel edge lies on the border of the vortex core"
        return
    r.same("control-points", v.ctr_p, R["ctr"], 1e-10)
    sV = np.abs(R["V"]).max()
    tol = 1e-9 + 1e-13 * R["cond"]
    # no flow through any panel, by the reference kernels and the solved circulations
    Vind = np.einsum("ijk,j->ik", R["W"], v.gamma_magnitude)
    flux = np.einsum("ij,ij->i", R["V"] + Vind, R["normals"])
    r.same("tangency", flux, 0 * flux, tol, scale=sV)
    r.same("reported-flux", np.einsum("ij,ij->i", v.V_app_fs_at_ctrl_p, R["normals"]), 0 * flux, tol, scale=sV)
    r.same("circulation", v.gamma_magnitude, R["gamma"], tol)
    sc = max(sV, np.abs(R["Vind_ctr"]).max())
    r.same("induced", v.V_induced_at_ctrl, R["Vind_ctr"], tol, scale=sc)
    r.same("total", v.V_app_fs_at_ctrl_p, R["V_ctr"], tol, scale=sc)
    r.same("rings", v.rings, np.stack([R[k] for k in "ABCD"], 1), 1e-10)
    r.outcome = digest(v.gamma_magnitude)
    r.sample = dict(panels=len(panels), max_flux=float(np.abs(flux).max()), gamma_first=float(v.gamma_magnitude[0]))


def check(state, r):
    c = cases.config(state)
    why, g = cases.in_domain(c)
    if why:
        r.skip = why
        return
    ss, csys, v = cases.solve(c)
    verify(c, np.asarray(ss.panels), v, r)


def make_vlm(c, ss):
    from pySailingVLM.solver.vlm import Vlm
    return Vlm(ss.panels, c["mesh"][1], c["mesh"][0], c["rho"], cases.build_wind(c), ss.trailing_edge_info,
               ss.leading_edge_info, c["go"])


def check_light(state, r):
    c = cases.config(state)
    why, g = cases.in_domain(c, need_wind=False)
    if why:
        r.skip = why
        return
    ss, csys, v = cases.solve(c)
    verify(c, np.asarray(ss.panels), v, r)


def check_composed(it, r):
    order, state = it
    c = cases.config(state)
    for o in order:
        why, g = cases.in_domain(rigs.variant(c, o))
        if why:
            r.skip = why
            return
    ss, csys = rigs.compose(c, order)
    verify(c, np.asarray(ss.panels), make_vlm(c, ss), r)


def plate(nc, ns, chord, span, origin, sweep, dihedral, aoa, taper):
    """A flat (possibly swept, tapered, twisted) plate grid standing above the water."""
    e = np.arange(ns + 1) / ns
    x = np.arange(nc + 1) / nc
    G = np.zeros((nc + 1, ns + 1, 3))
    for j, s in enumerate(e):
        ch = chord * (1 - taper * s)
        a = np.radians(aoa * (1 + .3 * s))
        G[:, j, 0] = origin[0] + sweep * span * s + ch * x * np.cos(a)
        G[:, j, 1] = origin[1] + dihedral * span * s + ch * x * np.sin(a)
        G[:, j, 2] = origin[2] + span * s
    return G


def check_raw(it, r):
    """Vlm used directly on panel grids (no sail classes): one to three grids, no mirror image."""
    from pySailingVLM.solver.vlm import Vlm
    nc, ns, n, sweep, dihedral, aoa, taper, go, rho = it
    Gs = [plate(nc, ns, 1.3 + .2 * k, 4.0 - .7 * k, (2.1 * k, .4 * k, .9 + .3 * k), sweep, dihedral, aoa + 3 * k, taper)
          for k in range(n)]
    pan = np.concatenate([ref.grid_panels(G) for G in Gs])
    _, row, _ = ref.layout(len(pan), ns, nc)
    c = cases.config(("cruiser", (("rho", rho), ("go", go), ("mesh", (ns, nc)))))
    v = Vlm(pan.copy(), nc, ns, rho, cases.build_wind(c), row == nc - 1, (row == 0) & (nc > 1), go)
    verify(c, pan, v, r)


def far_grids(it):
    """Grids small (or large) against the distances between them and to each other's mirror images."""
    from pySailingVLM.solver.vlm import Vlm
    nc, ns, size, away, high, go = it
    Gs = [plate(nc, ns, size * (1 + .2 * k), size * 3, (away * k, .2 * away * k, high * (1 + .3 * k)), .1, .2, 7 - 15 * k, .3) for k in (0, 1)]
    up = np.concatenate([ref.grid_panels(G) for G in Gs])
    dn = np.concatenate([ref.grid_panels(G[:, ::-1] * ref.MIRROR) for G in Gs])
    pan = np.concatenate([up, dn])
    _, row, _ = ref.layout(len(pan), ns, nc)
    c = cases.config(("cruiser", (("go", go), ("mesh", (ns, nc)))))
    return c, pan, Vlm(pan.copy(), nc, ns, c["rho"], cases.build_wind(c), row == nc - 1, (row == 0) & (nc > 1), go)


def check_far(it, r):
    c, pan, v = far_grids(it)
    verify(c, pan, v, r)


FAR = [(nc, ns, sz, aw, hi, go) for nc, ns in ((1, 1), (2, 3), (1, 6), (4, 2)) for sz in (.03, .1, .6)
       for aw in (3., 20., 150., 2000.) for hi in (.2, 9., 70., 500.) for go in (-1., 1.)] + \
      [(nc, ns, 14., 40., hi, go) for nc, ns in ((1, 1), (2, 3), (3, 2)) for hi in (1., 30.) for go in (-1., 1.)]
SOLVE_VARS = cases.GEOMETRY + cases.WIND + ["rho", "go"]
PAIRS = ["mesh", "sails", "leeway", "heel", "alpha", "profile", "tmode", "interp", "go", "m_camber", "m_twist", "SOG"]
BIG = [("cruiser", (("mesh", (9, 4)),)), ("skiff", (("mesh", (14, 3)),)), ("plank", (("mesh", (5, 9)),)),
       ("cat", (("mesh", (2, 12)),)), ("plank", (("mesh", (24, 1)),)), ("cruiser", (("mesh", (6, 6)), ("go", 1.0)))]


def space(ctx, quick_pairs=PAIRS, pair_roots=("cruiser", "skiff")):
    """States used by the checks that solve the flow: bound 1 over everything, bound 2 over the structural variables."""
    roots = list(cases.ROOTS)
    st1, tr1 = cases.explore(roots, SOLVE_VARS, 1)
    if ctx.thorough:
        st2, tr2 = cases.explore(roots, SOLVE_VARS, 2)
        st3, tr3 = cases.explore(["cruiser"], ["mesh", "sails", "heel", "alpha", "profile", "m_camber", "leeway"], 3)
        tr2 += tr3
        st2 += st3
    else:
        st2, tr2 = cases.explore(list(pair_roots), quick_pairs, 2)
    return list(dict.fromkeys(st1 + st2)), tr1 + tr2


# hardly any wind and boat speed, together
LIGHT = [(root, (("SOG", s), ("tws", t), ("alpha", a), *d)) for root in cases.ROOTS for s, t in ((0.0, .02), (0.0, 3e-4), (1e-3, 2e-3), (2e-6, 1e-6), (0.0, 1e-9), (5e-8, 1e-6))
         for a, d in ((40.0, ()), (-100.0, ()), (40.0, (("profile", "flat"),)), (170.0, (("profile", "logarithmic"),)))]

ORDERS = ["j", "m", "jm", "mj", "jmk", "kjm", "mkj", "k"]


def composed(ctx):
    sts = [("cruiser", d) for d in ((), (("mesh", (2, 3)),), (("mesh", (1, 1)),), (("mesh", (4, 1)),), (("heel", -12.0),),
                                    (("alpha", -40.0),), (("tmode", "average_const"),), (("profile", "flat"),))]
    if ctx.thorough:
        sts += [("cruiser", (("mesh", m), d)) for m in cases.ALPHABET["mesh"][1:] for d in
                (("heel", 0.0), ("alpha", 95.0), ("profile", "logarithmic"), ("go", 1.0))]
    return [(o, s) for o in ORDERS for s in sts]


def run(ctx):
    import pySailingVLM.solver.vlm, pySailingVLM.runner.sail  # noqa: F401,E401
    st, tr = space(ctx)
    ctx.map("configurations", check, st, tr)
    ctx.map("large meshes", check, BIG + ([("cruiser", (("mesh", m),)) for m in ((15, 8), (30, 2), (3, 25))] if ctx.thorough else []), chunk=1)
    ctx.map("light airs", check_light, LIGHT)
    ctx.map("composed sail sets", check_composed, composed(ctx))
    raw = [(nc, ns, n, sw, di, a, t, go, rho) for nc, ns in ((1, 1), (1, 5), (4, 1), (2, 3), (3, 2)) for n in (1, 2, 3)
           for sw, di, a, t in ((0, 0, 6, 0), (.3, .2, -9, .4), (-.2, .5, 14, .1)) for go, rho in ((-1., 1.2), (1., 1000.))]
    ctx.map("raw panel grids", check_raw, raw)
    ctx.map("grids far apart", check_far, FAR)
    ctx.assumptions += ["alphabet and deviation bounds as listed in mc/cases.py", "sails clear of the water by 2 cm",
                        "panels whose edges sit within 1e-6 of the vortex-core border are skipped"]
