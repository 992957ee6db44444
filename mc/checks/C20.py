"""Airfoil sections: every camber x position x thickness x number of points against the four-digit definition."""
import itertools
import numpy as np
import ref
from engine import digest

M = [0.0, 1e-6, .01, .02, .05, .09, .13, .2, .299, .3]
P = [0.0, .01, .1, .25, .3, 1 / 3, .4, .5, .63, .75, .8, .9]
T = [0.0, 1e-4, .01, .12, .15, .28, .4]
N = [2, 3, 4, 5, 11, 51, 100, 101, 402, 2001]


def slope(x, m, p):
    x = np.asarray(x, float)
    with np.errstate(all="ignore"):
        fore = 2 * m * (p - x) / p ** 2
    return np.where(x < p, fore, 2 * m * (p - x) / (1 - p) ** 2)


def foil(*a):
    from pySailingVLM.thin_airfoil.vlm_airfoil import VlmAirfoil
    return VlmAirfoil(*a)


def get(f):
    return {k: np.asarray(getattr(f, k), float) for k in ("xc", "yc", "yt", "xu", "yu", "xl", "yl")}


def check(it, r):
    m, p, t, n = it
    g = get(foil(m, p, t, n))
    x = g["xc"]
    r.same("stations", x, np.arange(n) / (n - 1), 1e-13, scale=1)
    near = np.abs(x - p) < 1e-12                        # either side of the joint is right there (continuity)
    yc = ref.camber_line(np.where(near, p, x), m, p)
    r.same("camber-line", g["yc"], yc, 1e-12, scale=1)
    # half thickness: four-digit polynomial; the closing coefficient applies at the trailing edge only
    yt = ref.half_thickness(x, t)
    r.same("half-thickness", g["yt"], yt, 1e-12, scale=1)
    s = np.arctan(slope(np.where(near, p, x), m, p))
    for nm, sign in (("u", 1), ("l", -1)):
        r.same("surface-x", g["x" + nm], x - sign * yt * np.sin(s), 1e-12, scale=1, what="x" + nm)
        r.same("surface-y", g["y" + nm], yc + sign * yt * np.cos(s), 1e-12, scale=1, what="y" + nm)
    ends = (0 if p > 0 else m, 0)
    r.same("on-the-chord", g["yc"][[0, -1]], ends, 1e-12, scale=1)
    r.true("maximum", g["yc"].max() <= m + 1e-12 and g["yc"].min() >= -1e-12, f"camber outside 0..{m}")
    # distance of the surfaces from the camber line, across it
    for nm in "ul":
        d = np.hypot(g["x" + nm] - x, g["y" + nm] - g["yc"])
        r.rel("distance", d, np.abs(yt), 1e-12, scale=1)
        across = (g["x" + nm] - x) * np.cos(s) + (g["y" + nm] - g["yc"]) * np.sin(s)
        r.rel("across", across, 0 * x, 1e-12, scale=1)
    r.rel("midway", (g["xu"] + g["xl"]) / 2, x, 1e-12, scale=1)
    r.rel("midway", (g["yu"] + g["yl"]) / 2, g["yc"], 1e-12, scale=1)
    if t == 0:
        r.same("thin", np.stack([g["xu"], g["xl"], g["yu"], g["yl"]]), np.stack([x, x, g["yc"], g["yc"]]), 1e-13, scale=1)
    if m == 0:
        r.same("symmetric", np.stack([g["xl"], g["yl"]]), np.stack([g["xu"], -g["yu"]]), 1e-13, scale=1)
    if 2 * m <= .3:
        r.rel("double-camber", get(foil(2 * m, p, t, n))["yc"], 2 * g["yc"], 1e-12, scale=1)
    if 2 * t <= .4:
        r.rel("double-thickness", get(foil(m, p, 2 * t, n))["yt"], 2 * g["yt"], 1e-12, scale=1)
    # refinement keeps the line
    h = get(foil(m, p, t, 2 * n - 1))
    r.rel("nested", h["yc"][::2], g["yc"], 1e-11, scale=1)
    r.evals = 4
    r.outcome = digest(g["xu"], g["yu"])


def check_peak(it, r):
    """With the camber position on a station: maximum exactly there, flat there, parabolic on either side."""
    m, k, n, t = it
    p = k / (n - 1)
    g = get(foil(m, p, t, n))
    r.same("peak", g["yc"][k], m, 1e-12, scale=1)
    r.true("peak-position", g["yc"].argmax() == k or abs(g["yc"].max() - m) < 1e-13, f"maximum at station {g['yc'].argmax()}, not {k}")
    for part in (slice(0, k + 1), slice(k, n)):
        y = g["yc"][part]
        if len(y) > 3:
            r.same("parabola", np.diff(y, 3), np.zeros(len(y) - 3), 1e-12, scale=1)
    # zero slope: the surfaces stand straight above the station
    r.same("flat", [g["xu"][k], g["xl"][k]], [g["xc"][k]] * 2, 1e-10, scale=1)
    r.outcome = digest(g["yc"])


def check_default_n(it, r):
    m, p, t = it
    a, b = get(foil(m, p, t)), get(foil(m, p, t, 100))
    for k in a:
        r.same("default-points", a[k], b[k], 0)


def check_sail_section(it, r):
    from pySailingVLM.solver.mesher import make_airfoil_mesh
    m, p, nc, ns, chord = it
    sw, nw = np.array([.5, 0, 2.]), np.array([1.1, 0, 9.])
    ch = np.array([[chord * (1 - .5 * k / ns), 0, 0] for k in range(ns + 1)])
    mesh = np.asarray(make_airfoil_mesh([sw, nw], [nc, ns], ch.copy(), np.full(ns + 1, p), np.linspace(m, m / 2, ns + 1)))
    r.true("shape", mesh.shape == (ns + 1, nc + 1, 3), f"mesh shape {mesh.shape}")
    x = np.arange(nc + 1) / nc
    for k in range(ns + 1):
        le = sw + (nw - sw) * k / ns
        r.same("section-x", mesh[k][:, 0], le[0] + ch[k, 0] * x, 1e-12, scale=10)
        near = np.abs(x - p) < 1e-12
        r.same("section-y", mesh[k][:, 1], ch[k, 0] * ref.camber_line(np.where(near, p, x), m - (m / 2) * k / ns, p), 1e-12, scale=10)
        r.same("section-z", mesh[k][:, 2], np.full(nc + 1, le[2]), 1e-12, scale=10)
    r.outcome = digest(mesh)


def run(ctx):
    import pySailingVLM.solver.mesher  # noqa: F401
    n = N + ([6, 7, 8, 9, 10, 21, 33, 64, 99, 150, 401] if ctx.thorough else [])
    ctx.map("sections", check, list(itertools.product(M, P, T, n)))
    ctx.map("every number of points", check, [(*f, k) for k in range(2, ctx.q(300, 1500)) for f in ((.1, .4, .12), (.3, 1 / 3, .28))])
    ctx.map("peak on a station", check_peak, [(m, k, nn, t) for m in M[1:] for nn in (5, 11, 21, 41) for k in range(1, nn)
                                              if k / (nn - 1) <= .9 for t in (0., .12)])
    ctx.map("default number of points", check_default_n, list(itertools.product(M[::2], P[::3], T[::2])))
    ctx.map("sail sections", check_sail_section, list(itertools.product(M, P[1:], (1, 2, 5, 10), (1, 3), (.7, 4.))))
    ctx.assumptions.append("the trailing-edge (closed) thickness coefficient applies to the last station only")
