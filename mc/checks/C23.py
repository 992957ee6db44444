"""Segments, meshes, panels and panel metrics on a grid of shapes and sizes."""
import itertools
import numpy as np
import cases, ref
from engine import digest

PTS = [(0., 0., 0.), (1., 0, 0), (-3., 7., .5), (1e3, -2., .01), (.1, .2, .3), (0, 0, -8.)]
NN = [1, 2, 3, 4, 7, 10, 33]


def check_segment(it, r):
    from pySailingVLM.solver.mesher import discrete_segment
    a, b, n = it
    p, q = np.array(a, float), np.array(b, float)
    s = np.asarray(discrete_segment(p, q, n))
    r.true("inputs-kept", tuple(p) == tuple(map(float, a)) and tuple(q) == tuple(map(float, b)), "end points modified")
    r.true("count", s.shape == (n + 1, 3), f"{s.shape} for {n} steps")
    r.true("exact-ends", (s[0] == p).all() and (s[-1] == q).all(), f"ends {s[0]}, {s[-1]}")
    sc = max(np.abs(p).max(), np.abs(q).max(), 1)
    r.same("even", s, p + np.arange(n + 1)[:, None] / n * (q - p), 1e-12, scale=sc)
    r.rel("reversed", np.asarray(discrete_segment(q, p, n))[::-1], s, 1e-12, scale=sc)
    r.rel("refined", np.asarray(discrete_segment(p, q, 2 * n))[::2], s, 1e-12, scale=sc)
    r.outcome = digest(s)


def surf(kind, nr, nl):
    """A mesh [row, line, 3]: rows chordwise from luff to leech, lines spanwise."""
    i, j = np.meshgrid(np.arange(nr + 1) / nr, np.arange(nl + 1) / nl, indexing="ij")
    if kind == "rect":
        P = [3 * i, 0 * i, 5 * j]
    elif kind == "taper":                      # chord lines parallel
        P = [.4 * j + (3 - 2 * j) * i, 0 * i, 1 + 5 * j]
    elif kind == "sweep":
        P = [2 * j + 1.5 * i, .7 * j, 6 * j]
    elif kind == "camber":
        P = [2 * i, .4 * i * (1 - i), 4 * j]
    elif kind == "tilt":
        Q = np.stack([2 * i, 0 * i, 1 + 4 * j - .5 * i * 0], -1)
        return ref.attitude(Q, 20., 15.)
    else:                                       # warped
        P = [2 * i + .3 * j, .5 * i * j + .2 * i ** 2, 4 * j + .2 * i]
    return np.stack(P, -1).astype(float)


KINDS = ["rect", "taper", "sweep", "camber", "tilt", "warp"]


def flags(nr, nl):
    row = np.arange(nr * nl) // nl
    return row == nr - 1, (row == 0) & (nr > 1)


def check_mesh(it, r):
    from pySailingVLM.solver.panels import make_panels_from_mesh_spanwise, get_panels_area
    kind, nr, nl = it
    G = surf(kind, nr, nl)
    G0 = G.copy()
    pan, te, le = make_panels_from_mesh_spanwise(G)
    pan = np.asarray(pan)
    r.true("mesh-kept", (G == G0).all(), "mesh modified")
    r.true("number", pan.shape == (nr * nl, 4, 3), f"{pan.shape}")
    r.same("corners", pan, ref.grid_panels(G), 1e-14, scale=10)
    wt, wl = flags(nr, nl)
    r.true("trailing", np.asarray(te).dtype == bool and (np.asarray(te) == wt).all(), f"trailing flags {te}")
    r.true("leading", np.asarray(le).dtype == bool and (np.asarray(le) == wl).all(), f"leading flags {le}")
    # every cell exactly once
    cells = {tuple(np.round(p.mean(0), 9)) for p in pan}
    r.true("each-cell-once", len(cells) == nr * nl, f"{len(cells)} distinct cells of {nr * nl}")
    P0 = pan.copy()
    A = np.asarray(get_panels_area(pan))
    r.true("panels-kept", (pan == P0).all(), "panels modified")
    if kind != "warp":
        r.same("areas", A, ref.quad_area(pan), 1e-11)
    else:
        r.same("areas-about", A / ref.quad_area(pan), np.ones(len(A)), .2)
    total = {"rect": 15.0, "taper": 10.0, "tilt": 8.0, "sweep": 1.5 * np.hypot(.7, 6)}.get(kind)
    if total:
        r.same("total-area", A.sum(), total, 1e-11)
    # moving and scaling the surface
    mv = ref.rodrigues(pan, [.3, 1, -2], .8) + np.array([3., -4, 100.])
    r.rel("area-moved", get_panels_area(mv), A, 1e-9)
    for k in (.25, 1e-2, 1e-3, 1e-4, 1e-6, 40., 1e4):
        r.rel("area-scaled", get_panels_area(k * pan) / (A * k * k), np.ones(len(A)), 1e-8)
    r.outcome = digest(pan)


def check_metric(it, r):
    from pySailingVLM.solver import coefs
    kind, nr, nl, grids, go = it
    Gs = [surf(kind, nr, nl) * np.array([1, 1, s]) + np.array([4. * k, .3 * k, 1.]) for k, s in zip(range(grids), (1, .8, 1.3, 1, .6, 1.1))]
    pan = np.concatenate([ref.grid_panels(G) for G in Gs])
    te = np.concatenate([flags(nr, nl)[0]] * grids)
    P0, t0 = pan.copy(), te.copy()
    L = ref.lattice(pan, nl, nr, go)
    names = ("normals", "ctr", "cp", "rings", "span", "lem", "tem")
    L["rings"] = np.stack([L[k] for k in "ABCD"], 1)
    got = coefs.calculate_vlm_variables(pan, te, go, nr, nl)
    for nm, g in zip(names, got):
        r.same("vlm-" + nm, g, L[nm], 1e-11, scale=10, what=nm)
    one = coefs.calculate_normals_collocations_cps_rings_spans_leading_trailing_mid_points(pan, go)
    SE, SW, NW, NE = (pan[:, i] for i in range(4))
    own = np.stack([SE + (SE - SW) / 4, L["B"], L["C"], NE + (NE - NW) / 4], 1)
    for nm, g in zip(names, one):
        r.same("panel-" + nm, g, own if nm == "rings" else L[nm], 1e-11, scale=10, what=nm)
    r.true("inputs-kept", (pan == P0).all() and (te == t0).all(), "inputs modified")
    n = np.asarray(got[0])
    r.same("unit", np.linalg.norm(n, axis=1), np.ones(len(n)), 1e-12)
    r.same("perpendicular", np.einsum("ij,ij->i", n, NW - SE), np.zeros(len(n)), 1e-11, scale=10)
    r.same("perpendicular", np.einsum("ij,ij->i", n, NE - SW), np.zeros(len(n)), 1e-11, scale=10)
    vol = np.einsum("ij,ij->i", np.cross((SE + NE - SW - NW) / 2, (NW + NE - SW - SE) / 2), n)
    r.true("handed", (vol < 0).all() or (vol > 0).all(), "normals on different sides of the surface")
    if kind != "warp":
        r.same("perpendicular-edges", np.einsum("ij,ij->i", n, SE - SW), np.zeros(len(n)), 1e-11, scale=10)
    sh = np.array([2., -1., 40.])
    mv = coefs.calculate_vlm_variables(pan + sh, te, go, nr, nl)
    for nm, a, b in zip(names, mv, got):
        r.rel("shifted-" + nm, a, np.asarray(b) + (0 if nm in ("normals", "span") else sh), 1e-10, scale=50)
    r.rel("orientation", coefs.calculate_vlm_variables(pan, te, -go, nr, nl)[4], -np.asarray(got[4]), 1e-12, scale=10)
    r.outcome = digest(*got)


def check_le_te(it, r):
    from pySailingVLM.solver.panels import make_panels_from_le_te_points, get_panels_area
    from pySailingVLM.solver.mesher import discrete_segment, make_point_mesh
    quad, nc, ns = it
    SW, SE, NW, NE = (np.array(x, float) for x in quad)
    pan, te, le = make_panels_from_le_te_points([SW, SE, NW, NE], [nc, ns])
    i = (np.arange(nc + 1) / nc)[:, None, None]
    j = (np.arange(ns + 1) / ns)[None, :, None]
    G = (SW + i * (SE - SW)) * (1 - j) + (NW + i * (NE - NW)) * j
    r.same("bilinear", pan, ref.grid_panels(G), 1e-12, scale=10)
    wt, wl = flags(nc, ns)
    r.true("flags", (np.asarray(te) == wt).all() and (np.asarray(le) == wl).all(), "row flags")
    m = np.asarray(make_point_mesh(discrete_segment(SW, SE, nc), discrete_segment(NW, NE, nc), ns))
    r.same("mesh", m, G, 1e-12, scale=10)
    if np.linalg.norm(np.cross(SE - SW, NE - NW)) < 1e-12:      # parallel chords: areas are exact
        A = np.asarray(get_panels_area(np.asarray(pan)))
        r.same("areas-tile", A.sum(), ref.quad_area(np.array([SE, SW, NW, NE])), 1e-11)
    r.outcome = digest(pan)


QUADS = [[(0, 0, 0), (1, 0, 0), (0, 0, 4), (1, 0, 4)], [(0, 0, 0), (2, 0, 0), (.5, 1, 4), (1.5, 1, 4)],
         [(1, 2, 3), (4, 2, 3), (2, 3, 9), (2.5, 3, 9)], [(0, 0, 0), (2, .3, 0), (0, .2, 5), (1, -.3, 5.5)],
         [(-5, 0, -9), (-4, .5, -9), (-5, 0, -2), (-4, .5, -2)]]


def check_sail_metric(state, r):
    """The same metric data on the panels of real sail sets."""
    from pySailingVLM.solver import coefs
    from pySailingVLM.solver.panels import get_panels_area
    c = cases.config(state)
    why, g = cases.in_domain(c, need_wind=False)
    if why:
        r.skip = why
        return
    ss, csys = cases.build_geometry(c)
    ns, nc = c["mesh"]
    L = ref.lattice(np.asarray(ss.panels), ns, nc, c["go"])
    L["rings"] = np.stack([L[k] for k in "ABCD"], 1)
    got = coefs.calculate_vlm_variables(ss.panels, ss.trailing_edge_info, c["go"], nc, ns)
    for nm, a in zip(("normals", "ctr", "cp", "rings", "span", "lem", "tem"), got):
        r.same("sail-" + nm, a, L[nm], 1e-11, scale=10, what=nm)
    A = np.asarray(get_panels_area(np.asarray(ss.zero_mesh)))
    if all((c["tables"][s]["camber"] == 0).all() for s in "mj"):
        r.same("sail-plan-area", A, ref.quad_area(np.asarray(ss.zero_mesh)), 1e-10)
    r.outcome = digest(got[0])


def run(ctx):
    import pySailingVLM.solver.coefs, pySailingVLM.runner.sail  # noqa: F401,E401
    nn = NN + ([5, 6, 8, 15, 50, 101] if ctx.thorough else [])
    ctx.map("segments", check_segment, list(itertools.product(PTS, PTS, nn)))
    ctx.map("every number of steps", check_segment, [(PTS[i], PTS[j], n) for n in range(1, ctx.q(300, 1500)) for i, j in ((0, 1), (2, 4), (3, 5))])
    sz = [1, 2, 3, 4, 5, 8] + ([6, 7, 13] if ctx.thorough else [])
    ctx.map("meshes", check_mesh, list(itertools.product(KINDS, sz, sz)) + [("rect", 20, 30), ("warp", 31, 3), ("taper", 2, 40), ("tilt", 1, 600), ("warp", 600, 1), ("sweep", 2, 300), ("camber", 30, 35)]
            + [(k, *m) for k in ("tilt", "warp") for n in range(6, ctx.q(61, 140)) for m in ((n, 1), (2, n), (n, 3))])
    ctx.map("panel metrics", check_metric, list(itertools.product(KINDS, (1, 2, 3, 5), (1, 2, 3, 6), (1, 2, 3, 4, 6), (1., -1.))))
    ctx.map("wings from four points", check_le_te, list(itertools.product(QUADS, (1, 2, 3, 7), (1, 2, 4, 11)))
            + [(q, *m) for q in QUADS[2:4] for n in range(5, ctx.q(61, 140)) for m in ((n, 1), (2, n))])
    st, tr = cases.explore(["cruiser", "plank"] if not ctx.thorough else list(cases.ROOTS),
                           ["mesh", "sails", "heel", "leeway", "m_camber", "m_twist", "m_chords", "j_camber", "rake", "tmode"], 2)
    ctx.map("sails", check_sail_metric, st, tr)
