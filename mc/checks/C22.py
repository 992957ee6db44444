"""Plots: every artist of the 3D view, the pressure plot and the section plots against the computed results."""
import itertools, os, types
import numpy as np
import boot, cases, clirun, ref
from engine import digest

SHUFFLE = np.array([[0, 0, 1, 0], [1, 0, 0, 0], [0, 1, 0, 0], [0, 0, 0, 1.0]])


def match(r, key, got, want, tol, what):
    """The same rows, in any order."""
    from scipy.optimize import linear_sum_assignment
    got, want = np.asarray(got, float), np.asarray(want, float)
    got, want = got.reshape(len(got), -1), want.reshape(len(want), -1)
    if got.shape != want.shape:
        return r.bad(key, f"{what}: {got.shape} drawn, expected {want.shape}")
    if not len(want):
        return
    s = np.abs(want).max() + 1e-300
    d = np.abs(got[:, None] - want[None]).max(2)
    d[~np.isfinite(d)] = 1e300
    i, j = linear_sum_assignment(np.minimum(d / s, 1e6))
    e = d[i, j]
    k = int(np.argmax(e))
    if not e[k] <= tol * s:
        r.bad(key, f"{what}: nothing drawn for {want[j[k]]}; nearest {got[i[k]]} (differs by {e[k]:.3e}, allowed {tol * s:.3e})")


def arrows(ax):
    """(colour, start, end) of every arrow, read back from its projections."""
    import matplotlib.patches as mp, matplotlib.colors as mc
    out, M = [], getattr(ax, "M", None)
    for a in ax.get_children():
        if isinstance(a, mp.FancyArrowPatch):
            ends = np.zeros((2, 3))
            for m, (i, j) in ((np.eye(4), (0, 1)), (SHUFFLE, (2, 0))):
                ax.M = m
                a.do_3d_projection()
                p, q = a._posA_posB
                ends[:, i], ends[:, j] = (p[0], q[0]), (p[1], q[1])
            out.append((mc.to_hex(a.get_edgecolor()), ends))
    ax.M = M
    return out


def faces(ax):
    """(corners, colour) of every filled face."""
    from mpl_toolkits.mplot3d import art3d
    F, C = [], []
    for col in ax.collections:
        if not isinstance(col, art3d.Poly3DCollection):
            continue
        gone = np.broadcast_to(np.asarray(col._invalid_vertices), col._faces.shape[:2]) if np.ndim(col._invalid_vertices) else np.zeros(col._faces.shape[:2], bool)
        f = [np.asarray(x, float)[~g] for x, g in zip(col._faces, gone)]          # faces of unequal size are padded
        c = np.asarray(col._facecolor3d, float)
        c = np.broadcast_to(c, (len(f), 4)) if len(c) in (1, len(f)) else np.resize(c, (len(f), 4))
        F += list(f)
        C += list(c)
    return F, C


def view(v, R, hull, induced, mode):
    from pySailingVLM.solver import panels_plotter as pp
    with clirun.stubs() as cap:
        pp.display_panels_xyz_and_winds(v, R, v.inlet_conditions, hull, show_plot=True, show_induced_wind=induced, is_sailopt_mode=mode)
        ax = cap.axes3d[0]
        lines = [np.stack([np.asarray(x, float) for x in ln.get_data_3d()], 1) for ln in ax.lines if hasattr(ln, "get_data_3d")]
        from mpl_toolkits.mplot3d import art3d
        dots = [np.stack([np.asarray(x, float) for x in c._offsets3d], 1) for c in ax.collections if isinstance(c, art3d.Path3DCollection)]
        return faces(ax), arrows(ax), lines, np.concatenate(dots) if dots else np.zeros((0, 3)), cap


def check_view(it, r):
    state, induced, *mode = it
    mode = bool(mode and mode[0])
    c = cases.config(state)
    why, g = cases.in_domain(c)
    if why:
        r.skip = why
        return
    ss, csys, v, R, hull = cases.results(c)
    (F, C), A, lines, dots, cap = view(v, R, hull, induced, mode)
    judge_view(r, c, ss, v, R, hull, F, C, A, lines, dots, induced, mode)


def check_parts(state, r):
    """The parts of the 3D view on their own: panels by each quantity, panels or rings without colours."""
    from pySailingVLM.solver import panels_plotter as pp
    c = cases.config(state)
    why, g = cases.in_domain(c)
    if why:
        r.skip = why
        return
    ss, csys, v = cases.solve(c)
    P = np.asarray(v.panels)
    for by, p in (("p_coeffs", v.p_coeffs), ("gamma_magnitude", v.gamma_magnitude)):
        p = np.asarray(p, float)
        with clirun.stubs():
            ax, water = pp.display_panels_xyz(v, by)
            judge_colours(r, P, p, *faces(ax))
            for a in ax.figure.axes:
                bar = getattr(a, "_colorbar", None)
                if bar is not None:
                    r.same("colour-bar", [bar.norm.vmin, bar.norm.vmax], [p.min(), p.max()], 1e-9, np.abs(p).max(), f"range of the colour bar of {by}")
        r.edges += 1
    for things, X in (("panels", P), ("rings", np.asarray(v.rings))):
        with clirun.stubs():
            ax, water2 = pp.display_panels_or_rings(X, v.pressure, v.leading_mid_points, v.trailing_mid_points)
            judge_colours(r, X, None, *faces(ax), things)
            r.true("same-water", water2 == water, f"water of size {water2} with {things}, {water} with coloured panels")
        r.edges += 1
    r.evals = 4
    r.outcome = digest(P)


def check_mesh_lines(it, r):
    """The lines of mesh plots, in space and in each pair of directions."""
    import matplotlib.pyplot as plt
    from matplotlib.colors import to_hex
    from pySailingVLM.solver.additional_functions import plot_mesh
    shape, two, dims = it
    i, j, k = np.meshgrid(*[np.arange(n) for n in (*shape, 3)], indexing="ij")
    M = np.sin(1.3 * i + 2.1 * j) + i * (k == 0) + 2 * j * (k == 1) + 5. * k
    N = M[: max(1, shape[0])] * [1, -1, 1] + .3
    with clirun.stubs():
        plot_mesh(M.copy(), N.copy() if two else None, False, list(dims), "green", "blue")
        fig = plt.gcf()
        got = []
        for ax in fig.axes:
            for ln in ax.lines:
                X = ln.get_data_3d() if hasattr(ln, "get_data_3d") else ln.get_data()
                got.append((to_hex(ln.get_color()), np.stack([np.asarray(x, float) for x in X], 1)))
    for colour, G in (("#008000", M), ("#0000ff", N))[:2 if two else 1]:
        L = [x for q, x in got if q == colour]
        W = G[:, :, list(dims)] if len(dims) == 2 else G
        if L and all(x.shape == W[0].shape for x in L):
            match(r, "mesh-lines", L, W, 1e-12, f"{colour} mesh lines")
        else:
            r.bad("mesh-lines", f"{colour} lines of {[x.shape for x in L]}, expected {W.shape}")
    r.true("mesh-lines", len(got) == len(M) * (2 if two else 1), f"{len(got)} lines")
    r.outcome = digest(M)


def check_airfoil_line(it, r):
    import matplotlib.pyplot as plt
    from pySailingVLM.thin_airfoil.vlm_airfoil import VlmAirfoil
    m, p, t, n = it
    f = VlmAirfoil(m, p, t, n)
    with clirun.stubs():
        f.plot()
        L = [np.stack(ln.get_data(), 1) for ax in plt.gcf().axes for ln in ax.lines]
    r.true("airfoil-line", len(L) == 1, f"{len(L)} lines")
    for x in L:
        r.same("airfoil-line", x, np.stack([np.asarray(f.xc), np.asarray(f.yc)], 1), 1e-12, 1, "camber line")
    r.outcome = digest([m, p, n])


def judge_colours(r, P, p, F, C, things="panels"):
    """Every panel once, in the colour of its own value on the hot scale from the lowest to the highest."""
    import matplotlib
    size = np.abs(P).max()
    flat = [i for i, f in enumerate(F) if np.abs(f[:, 2]).max() < 1e-12]
    up = [i for i in range(len(F)) if i not in flat]
    r.true("panels-drawn", len(up) == len(P), f"{len(up)} {things} drawn, {len(P)} computed")
    if len(up) != len(P):
        return
    match(r, "panels", [F[i] for i in up], P, 1e-9, things[:-1] + " corners")
    if p is None:
        return
    span = p.max() - p.min()
    scaled = (p - p.min()) / span if span else 0 * p
    col = matplotlib.colormaps["hot"](scaled)
    step = 12 if span > 1e-9 * max(1, np.abs(p).max()) else 1e9          # a value may fall on the edge of a colour
    match(r, "panel-colours", [np.concatenate([F[i].ravel() / size, np.asarray(C[i][:3]) / step]) for i in up],
          np.concatenate([P.reshape(len(P), -1) / size, col[:, :3] / step], 1), 2e-3, "panels with their colours")


def judge_view(r, c, ss, v, R, hull, F, C, A, lines, dots, induced, sailopt=False):
    ns, nc = c["mesh"]
    k = len(ss.sails)
    P = np.asarray(v.panels)
    p = np.asarray(v.p_coeffs, float)
    size = np.abs(P).max()
    judge_colours(r, P, np.asarray(v.p_coeffs if not sailopt else v.gamma_magnitude, float), F, C)
    # winds
    first = np.concatenate([np.arange(ns) + s * ns * nc for s in range(2 * k)])
    cp = np.asarray(v.cp)[first]
    want = {"#008000": ref.true_wind(c, np.abs(cp[:, 2])), "#0000ff": ref.app_wind(c, np.abs(cp[:, 2]))}
    by = {}
    for colour, e in A:
        by.setdefault(colour if colour in ("#000000", *want) else "induced", []).append(e)
    vs = max(np.abs(w).max() for w in want.values()) + size
    for colour, w in want.items():
        got = by.get(colour, [])
        match(r, "wind-arrows", [np.concatenate([e[1] - e[0], e[0][2:]]) for e in got], np.concatenate([w, cp[:, 2:]], 1), 1e-9 * vs / max(np.abs(w).max(), np.abs(cp[:, 2]).max()),
              {"#008000": "true", "#0000ff": "apparent"}[colour] + " wind arrows (vector, height)")
    got = by.get("induced", [])
    if induced:
        w = np.asarray(v.V_induced_at_cp)[first]
        match(r, "induced-arrows", [np.concatenate([e[1] - e[0], e[0]]) for e in got], np.concatenate([w, cp], 1), 1e-9, "induced wind arrows (vector, origin)")
    else:
        r.true("induced-arrows", not got, f"{len(got)} induced wind arrows drawn unasked")
    # hull
    H = [np.asarray(getattr(hull, n)) for n in ("deck_centerline", "deck_port_line", "deck_starboard_line", "deck_port_line_underwater", "deck_starboard_line_underwater")]
    match(r, "hull", lines, H, 1e-9, "hull lines") if all(x.shape == H[0].shape for x in lines) else r.bad("hull", "hull lines of other lengths")
    # forces
    Ft = np.asarray(v.force)[:len(P) // 2].sum(0)
    black = by.get("#000000", [])
    r.true("force-arrows", len(black) == 2, f"{len(black)} force arrows")
    if len(black) == 2 and np.linalg.norm(Ft) > 1e-6 * np.abs(v.force).sum():
        f = Ft / np.linalg.norm(Ft)
        ce, clr = np.asarray(R.above_water_centre_of_effort_estimate_xyz, float), ref.attitude(np.array(c["clr"], float), c["heel"], c["leeway"])
        if np.abs(black[0][0] - ce).max() > np.abs(black[1][0] - ce).max():
            black = black[::-1]
        s = np.abs([ce, clr]).max() + 10
        r.same("force-origin", [black[0][0], black[1][0]], [ce, clr], 1e-9, s, "origins of the force arrows")
        a, b = black[0][1] - black[0][0], black[1][1] - black[1][0]
        L = np.linalg.norm(a)
        r.true("force-length", np.isfinite(L) and L > 1e-3, f"force arrow of length {L}")
        r.same("force-direction", a, f * L, 1e-9, s + L, "direction of the sail force")
        r.same("force-opposite", b, -a, 1e-9, s + L, "the keel's arrow")
        match(r, "force-dots", dots, [ce, clr], 1e-9, "dots at the centres")
    r.evals = 1
    r.outcome = digest(P, [induced])


# ---- pressure plot
def polygons(obj):
    d = obj.split(datatype="dictionary")
    return [np.stack([np.asarray(x["x"], float), np.asarray(x["y"], float)], 1) for x in d], [float(x["p_coeffs"]) for x in d]


def check_cp(it, r):
    state, render = it
    c = cases.config(state)
    why, g = cases.in_domain(c)
    if why:
        r.skip = why
        return
    from pySailingVLM.solver.panels_plotter import plot_cp
    ss, csys, v = cases.solve(c)
    want = g["zero"][..., [0, 2]]
    want = np.concatenate([want, want[:, :1]], 1)
    p = np.asarray(v.p_coeffs)
    with clirun.stubs() as cap:
        plot_cp(ss.zero_mesh, v.p_coeffs, boot.SCRATCH)
    r.true("pressure-plot", len(cap.polygons) == 1, f"{len(cap.polygons)} pressure plots")
    for path, obj in cap.polygons:
        r.true("pressure-file", os.path.abspath(path) == os.path.join(boot.SCRATCH, "cp_plot.html"), f"pressure plot saved as {path}")
        compare(r, *polygons(obj), want, p, "pressure plot")
        if render:
            import holoviews as hv
            rendered(r, hv.render(obj, backend="bokeh"), want, p)
    r.outcome = digest(p)


def rendered(r, f, want, p):
    n = 0
    for x in f.renderers:
        d = x.data_source.data
        if "xs" not in d:
            continue
        n += 1
        P = [np.stack([np.asarray(a[0][0] if isinstance(a[0], (list, np.ndarray)) else a, float), np.asarray(b[0][0] if isinstance(b[0], (list, np.ndarray)) else b, float)], 1)
             for a, b in zip(d["xs"], d["ys"])]
        key = x.glyph.fill_color.field if hasattr(x.glyph.fill_color, "field") else None
        r.true("pressure-colour", key in d, f"polygons are not coloured by data: {x.glyph.fill_color}")
        if key in d:
            compare(r, P, np.asarray(d[key], float), want, p, "rendered pressure plot (colour)")
        if "p_coeffs" in d:
            compare(r, P, np.asarray(d["p_coeffs"], float), want, p, "rendered pressure plot (hover)")
        m = getattr(x.glyph.fill_color, "transform", None)
        if m is not None and p.max() - p.min() > 1e-6:
            r.same("pressure-range", [m.low, m.high], [p.min(), p.max()], 1e-6, np.abs(p).max(), "colour range")
    r.true("rendered", n == 1, f"{n} sets of polygons rendered")


def check_notebook(state, r):
    """In a notebook the pressure plot is shown instead of saved, and the section plots are shown as well: the same data in every case."""
    import builtins, bokeh.io
    from pySailingVLM.solver import panels_plotter
    from pySailingVLM.solver.coefs import get_data_for_coeff_plot
    c = cases.config(state)
    why, g = cases.in_domain(c)
    if why:
        r.skip = why
        return
    ss, csys, v = cases.solve(c)
    ns, nc = c["mesh"]
    names = ref.sail_names(c)
    want = g["zero"][..., [0, 2]]
    want = np.concatenate([want, want[:, :1]], 1)
    p = np.asarray(v.p_coeffs)
    shown, real, had, old = [], {}, hasattr(builtins, "__IPYTHON__"), os.getcwd()
    swaps = {(m, n): f for m in (bokeh.io, bokeh.plotting, panels_plotter)
             for n, f in (("show", lambda f, *a, **k: shown.append(f)), ("output_notebook", lambda *a, **k: None)) if hasattr(m, n)}
    d = os.path.join(boot.SCRATCH, f"notebook{os.getpid()}")
    os.makedirs(d, exist_ok=True)
    h, l, _ = get_data_for_coeff_plot(v, types.SimpleNamespace(n_spanwise=ns, n_chordwise=nc))
    with clirun.stubs() as cap:
        try:
            for (m, n), f in swaps.items():
                real[m, n] = getattr(m, n)
                setattr(m, n, f)
            builtins.__IPYTHON__ = True
            os.chdir(d)
            panels_plotter.plot_cp(ss.zero_mesh, v.p_coeffs, d)
            panels_plotter.plot_section_coeff(l, h, d, "lift", ["blue", "green"], names)
        finally:
            os.chdir(old)
            if not had:
                del builtins.__IPYTHON__
            for (m, n), f in real.items():
                setattr(m, n, f)
    r.true("notebook", len(shown) + len(cap.polygons) >= 1, "the pressure plot is neither shown nor saved")
    for f in shown:
        rendered(r, f, want, p)
    for _, obj in cap.polygons:
        compare(r, *polygons(obj), want, p, "pressure plot")
    r.true("notebook", len(cap.sections) >= 1, "the section plot is not made")
    for got in cap.sections.values():
        judge_section(r, got, names, l, h, "lift")
    r.evals = 2
    r.outcome = digest(p)


def compare(r, P, val, want, p, what):
    if len(P) != len(want) or any(x.shape != want[0].shape for x in P):
        return r.bad("polygons", f"{what}: {len(P)} outlines of {sorted({x.shape for x in P})}, expected {len(want)} of {want[0].shape}")
    s, t = np.abs(want).max(), np.abs(p).max() + 1e-300
    # an outline may start at any corner and run either way: compare the sorted corners
    def row(q, a):
        q = np.asarray(q)[:-1] / s
        q = q[np.lexsort((np.round(q[:, 1], 7), np.round(q[:, 0], 7)))]
        return np.concatenate([q.ravel(), [a / t]])
    r.true("closed", all(np.array_equal(x[0], x[-1]) for x in P), f"{what}: outline not closed")
    match(r, "polygons", [row(q, a) for q, a in zip(P, val)], [row(q, a) for q, a in zip(want, p)], 1e-8, what + " (outline, pressure coefficient)")


# ---- section plots
def check_section(it, r):
    coeff, names, n, seed, lists = it
    from pySailingVLM.solver.panels_plotter import plot_section_coeff
    k = len(names)
    t = np.arange(1, n + 1, dtype=float)
    x = [np.sin(t * (s + 1) + seed) + (s + 1) / 3 for s in range(k)]
    z = [t ** 1.5 * (1 + s / 7) + s + seed for s in range(k)]
    d = os.path.join(boot.SCRATCH, "plots")
    with clirun.stubs() as cap:
        os.makedirs(d, exist_ok=True)
        plot_section_coeff([a.tolist() for a in x] if lists else np.array(x) if lists is None else x, [a.tolist() for a in z] if lists else np.array(z) if lists is None else z,
                           d, coeff, ["blue", "green"], list(names))
    f = os.path.join(d, {"lift": "section_cl.png", "drag": "section_cd.png"}[coeff])
    r.true("section-file", list(cap.sections) == [f], f"{coeff} plot saved as {list(cap.sections)}")
    for got in cap.sections.values():
        judge_section(r, got, names, x, z, coeff)
    r.outcome = digest(x, z)


def judge_section(r, got, names, x, z, coeff):
    pts = dict(got["points"])
    r.true("section-names", sorted(n for n, _ in got["points"]) == sorted(names), f"curves {[n for n, _ in got['points']]} for {names}")
    for s, n in enumerate(names):
        if n in pts:
            w = np.stack([np.asarray(x[s], float), np.asarray(z[s], float)], 1)
            match(r, "section-points", pts[n], w, 1e-9, f"{coeff} of {n}")
    leg = got["legend"][0]
    r.true("section-legend", leg is None or sorted(leg) == sorted(names), f"legend {leg}")
    tag = {"lift": "l", "drag": "d"}[coeff]
    r.true("section-axis", "c_" + tag in got["xlabel"][0] and "c_" + {"l": "d", "d": "l"}[tag] not in got["xlabel"][0] and "eight" in got["ylabel"][0], f"axes {got['xlabel']} {got['ylabel']}")


def check_section_name(it, r):
    from pySailingVLM.solver.panels_plotter import plot_section_coeff
    with clirun.stubs() as cap:
        try:
            plot_section_coeff([[1.0]], [[2.0]], boot.SCRATCH, it, ["blue"], ["jib"])
            r.bad("unknown-coefficient", f"{it!r} accepted")
        except SystemExit as e:
            r.true("unknown-coefficient", e.code not in (None, 0), f"{it!r} refused with exit status 0")
        except ValueError:
            pass
    r.true("unknown-coefficient", not cap.sections, f"{it!r}: a plot was saved")
    r.outcome = digest([str(it)])


def check_solved_section(it, r):
    from pySailingVLM.solver.panels_plotter import plot_section_coeff
    from pySailingVLM.solver.coefs import get_data_for_coeff_plot
    from checks import C17
    c = cases.config(it)
    why, g = cases.in_domain(c)
    if why:
        r.skip = why
        return
    ss, csys, v = cases.solve(c)
    ns, nc = c["mesh"]
    names = ref.sail_names(c)
    k, half = len(names), len(v.force) // 2
    h, l, d = get_data_for_coeff_plot(v, types.SimpleNamespace(n_spanwise=ns, n_chordwise=nc, **{}))
    z = np.asarray(v.cp)[:half, 2].reshape(k, nc, ns).mean(1)
    for coeff, data, F in (("lift", l, v.lift), ("drag", d, v.drag)):
        w, A = C17.sections(np.asarray(F)[:half], np.asarray(v.inlet_conditions.V_app_infs)[:half], np.asarray(v.areas)[:half], c["rho"], k, ns, nc)
        if np.abs(np.asarray(F)[:half]).max() <= 1e-9 * np.abs(v.force).max() + 1e-12:
            continue
        w = w / ((w * A).sum(1) / A.sum(1))[:, None]
        with clirun.stubs() as cap:
            plot_section_coeff(data, h, boot.SCRATCH, coeff, ["blue", "green"], names)
        for got in cap.sections.values():
            judge_section(r, got, names, w, z, coeff)
        r.edges += 1
    r.evals = 2
    r.outcome = digest(z)


def run(ctx):
    import matplotlib.pyplot as plt, pySailingVLM.solver.panels_plotter  # noqa: F401,E401
    import bokeh.plotting, holoviews  # noqa: F401,E401
    cases.results(cases.config(("cruiser", (("mesh", (1, 1)),))))
    vs = ["mesh", "sails", "leeway", "heel", "alpha", "SOG", "profile", "wref", "rake", "ref", "clr", "sheer", "fore_b", "tmode", "go", "m_camber", "m_twist"]
    st, tr = cases.explore(["cruiser"], vs, 1)
    st4, tr4 = cases.explore(["skiff", "cat", "plank"], vs, 1, None if ctx.thorough else cases.ODD)
    st, tr = st + st4, tr + tr4
    st3, tr3 = cases.explore(["toy", "ship"], vs if ctx.thorough else ["mesh", "sails", "ref", "wref", "go"], 1)
    st, tr = st + st3, tr + tr3
    st2, tr2 = cases.explore(ctx.q(["cruiser"], ["cruiser", "skiff", "cat"]), ["mesh", "sails", "leeway", "heel", "alpha", "ref"][:ctx.q(4, 6)], 2)
    big = [(r, (("mesh", m),)) for r, m in (("cruiser", (10, 5)), ("skiff", (24, 4)), ("toy", (9, 9)), ("cruiser", (3, 31)), ("plank", (130, 1)))]
    st = list(dict.fromkeys(st + st2 + big))
    ctx.map("3D view", check_view, [(s, i) for n, s in enumerate(st) for i in (True, False) if i or ctx.thorough or n % 4 == 0], tr + tr2)
    ctx.map("3D view by circulation", check_view, [(s, False, True) for s in st[::ctx.q(6, 1)]])
    ctx.map("parts of the view", check_parts, st[::ctx.q(3, 1)])
    dims = [(0, 1, 2)] + list(itertools.permutations(range(3), 2))
    ctx.map("mesh lines", check_mesh_lines, [((a, b), two, d) for a in (1, 2, 5) for b in (2, 3, 9) for two in (False, True) for d in dims])
    ctx.map("airfoil lines", check_airfoil_line, [(m, p, t, n) for m in (0., .05, .12) for p in (.3, .5, .8) for t in (0., .1) for n in (2, 7, 50)])
    cp = st if ctx.thorough else st[::1]
    ctx.map("pressure plot", check_cp, [(s, ctx.thorough or n % 5 == 0) for n, s in enumerate(cp)])
    ctx.map("plots in a notebook", check_notebook, st[::ctx.q(9, 2)])
    names = [("jib", "main"), ("jib",), ("main",), ("main", "jib"), ("genoa", "mizzen")]
    ctx.map("section plots", check_section, [(c, n, k, s, li) for c in ("lift", "drag") for n in names for k in (1, 2, 3, 7, 20, 90) for s in (0, 5) for li in (True, False, None)])
    ctx.map("unknown coefficient", check_section_name, ["Lift", "", "cl", "drag ", "moment", None, 0])
    ctx.map("section plots of solutions", check_solved_section, st if ctx.thorough else st[::2])
    ctx.assumptions += ["at most two sails (the 3D view refuses more)", "colours are read at the resolution of the colour map",
                        "matplotlib and bokeh render what their artists hold"]
