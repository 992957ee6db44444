"""Girth interpolation: every table of the alphabet x every number of sections x both kinds."""
import itertools
import numpy as np
import ref
from engine import digest

GT = [[0, .125, .25, .5, .75, .875, 1], [0, .25, .5, .75, 1], [0, .3, .6, 1.], [0, .05, .1, .9, .95, 1.], [0, 1 / 3, 2 / 3, .8, 1],
      [0, .1, .2, .3, .4, .5, .6, .7, .8, .9, 1.],
      (np.arange(13) / 12).tolist(), (np.linspace(0, 1, 26) ** 1.6).tolist(), np.sin(np.linspace(0, np.pi / 2, 61)).tolist(),
      [0, .5, .51, 1.], [0, .02, .04, 1.], [0, 1.], [0, .35, 1.]]
PART = [[0, .25, .5, .9], [.1, .3, .6, .8, 1.], [.05, .2, .5, .7, .95], [0, .4, .5, .6], [0, .3, .6, .9, 1.2], [-.1, .2, .5, .7, 1.]]
LAWS = {"const": lambda g: 3.2 + 0 * g, "lin": lambda g: 5 - 7 * g, "quad": lambda g: 1 + 2 * g - 3.5 * g ** 2,
        "cubic": lambda g: -2 + g + 4 * g ** 2 - 5 * g ** 3, "kink": lambda g: np.abs(g - .4), "exp": lambda g: np.exp(2 * g),
        "big": lambda g: 1e6 * (1 + g ** 2), "tiny": lambda g: 1e-7 * np.cos(5 * g), "osc": lambda g: np.sin(9 * g), "zero": lambda g: 0 * g}
NS = [2, 3, 4, 5, 6, 8, 9, 11, 12, 17, 26, 41, 101]


def check_table(it, r):
    from pySailingVLM.solver.interpolator import Interpolator
    kind, gi, law, n = it
    g = np.array(GT[gi], float)
    if len(g) < 4 and kind == "spline":
        r.skip = "too few girths for a cubic"
        return
    y = LAWS[law](g) if isinstance(law, str) else np.eye(len(g))[law] if law < len(g) else None
    if y is None:
        r.skip = "no such table entry"
        return
    I = Interpolator(kind)
    g0, y0 = g.copy(), y.copy()
    a = np.asarray(I.interpolate_girths(g, y, n))
    r.true("inputs-kept", (g == g0).all() and (y == y0).all(), "table modified")
    r.true("number", a.shape == (n,), f"{a.shape} sections, expected {n}")
    want = ref.sections(kind, g, y, n - 1)
    s = np.abs(y).max() + 1e-300
    r.same("sections", a, want, 1e-9, scale=s)
    st = np.arange(n) / (n - 1)
    for k, x in enumerate(g):                     # sections on tabulated girths carry the tabulated values
        i = np.flatnonzero(np.abs(st - x) < 1e-12)
        if len(i):
            r.same("tabulated", a[i[0]], y[k], 1e-10, scale=s)
    r.same("ends", a[[0, -1]], y[[0, -1]], 1e-11, scale=s)
    if law in ("const", "lin", "zero") or kind == "spline" and law in ("quad", "cubic", "big"):
        r.same("exact-law", a, LAWS[law](st), 1e-9, scale=s)
    if kind == "linear":
        r.true("within", a.max() <= y.max() + 1e-12 * s and a.min() >= y.min() - 1e-12 * s, "linear value outside the table")
    # linearity in the table (transitions: another table, scaled and added)
    for other in ("osc", "lin", "exp"):
        z = LAWS[other](g)
        r.rel("linear", I.interpolate_girths(g, 2 * y - 3 * z, n), 2 * a - 3 * np.asarray(I.interpolate_girths(g, z, n)), 1e-9,
              scale=2 * s + 3 * np.abs(z).max())
    # refinement: every section of n is a section of 2n-1
    r.rel("nested", np.asarray(I.interpolate_girths(g, y, 2 * n - 1))[::2], a, 1e-10, scale=s)
    # mirrored: reversed then repeated
    r.rel("mirrored", I.interpolate_and_mirror_girths(g, y, n), np.concatenate([a[::-1], a]), 1e-13, scale=s)
    r.rel("lists", I.interpolate_girths(list(g), list(y), n), a, 1e-13, scale=s)
    W = np.round(y / s * 37).astype(int)         # whole-number tables, in every form a table can be given
    want = ref.sections(kind, g, W.astype(float), n - 1)
    for nm, w in (("integers", W), ("integer list", W.tolist()), ("small integers", W.astype(np.int16)), ("single precision", W.astype(np.float32)),
                  ("strided", np.repeat(W, 2)[::2]), ("booleans", W > 5)):
        r.same("whole-" + nm, I.interpolate_girths(g, w, n), ref.sections(kind, g, (W > 5).astype(float), n - 1) if nm == "booleans" else want, 1e-6, scale=37)
    r.same("whole-mirrored", I.interpolate_and_mirror_girths(g, W, n), np.concatenate([want[::-1], want]), 1e-6, scale=37)
    r.rel("repeat", I.interpolate_girths(g, y, n), a, 0)
    r.evals = 15
    r.outcome = digest(a / s)


def check_part(it, r):
    """A table that covers more or less than the luff: the sections it does cover are those of an even division of the whole luff."""
    from pySailingVLM.solver.interpolator import Interpolator
    kind, gi, law, n = it
    g = np.array(PART[gi])
    y = LAWS[law](g)
    st = np.arange(n) / (n - 1)
    inside = (st >= g[0]) & (st <= g[-1])
    if not inside.any():
        r.skip = "no section within the table"
        return
    a = np.asarray(Interpolator(kind).interpolate_girths(g, y, n))
    r.true("number", a.shape == (n,), f"{a.shape} sections, expected {n}")
    s = np.abs(y).max() + 1e-300
    r.same("covered-sections", a[inside], ref.at_girths(kind, g, y, st[inside]), 1e-9, scale=s)
    if law in ("const", "lin", "zero") or kind == "spline" and law in ("quad", "cubic", "big"):
        r.same("covered-law", a[inside], LAWS[law](st[inside]), 1e-9, scale=s)
    r.outcome = digest(a[inside] / s)


def check_sets(it, r):
    from pySailingVLM.solver.interpolator import Interpolator
    kind, gm, gj, n, ks = it
    if kind == "spline" and min(len(GT[gm]), len(GT[gj])) < 4:
        r.skip = "too few girths for a cubic"
        return
    I = Interpolator(kind)
    m, j = np.array(GT[gm], float), np.array(GT[gj], float)
    dm = [LAWS[k](m) for k in ks]
    dj = [LAWS[k](j) * 1.7 + .1 for k in ks]
    out = I.interpolate_data_for_sections(dm, dj, m, j, n)
    r.true("rows", len(out) == len(ks), f"{len(out)} quantities, expected {len(ks)}")
    for o, a, b in zip(out, dj, dm):
        A, B = ref.sections(kind, j, a, n - 1), ref.sections(kind, m, b, n - 1)
        r.same("jib-then-main", o, np.concatenate([A[::-1], A, B[::-1], B]), 1e-9, scale=max(np.abs(a).max(), np.abs(b).max()))
    wm, wj = [np.round(3 * np.asarray(d)).astype(int) for d in dm], [np.round(3 * np.asarray(d)).astype(int) for d in dj]
    for o, a, b in zip(I.interpolate_data_for_sections(wm, wj, m, j, n), wj, wm):
        A, B = ref.sections(kind, j, a.astype(float), n - 1), ref.sections(kind, m, b.astype(float), n - 1)
        r.same("whole-numbers", o, np.concatenate([A[::-1], A, B[::-1], B]), 1e-6, scale=max(np.abs(a).max(), np.abs(b).max(), 1))
    # the jib half does not depend on the main and the other way round
    o2 = I.interpolate_data_for_sections([LAWS["osc"](m) for k in ks], dj, m, j, n)
    o3 = I.interpolate_data_for_sections(dm, [LAWS["osc"](j) for k in ks], m, j, n)
    for a, b, d in zip(out, o2, o3):
        r.rel("independent", np.asarray(b)[:2 * n], np.asarray(a)[:2 * n], 0)
        r.rel("independent", np.asarray(d)[2 * n:], np.asarray(a)[2 * n:], 0)
    r.outcome = digest(*out)


def check_sail(it, r):
    """The sections the sail builder uses are those of its own table, at girths counted from the foot of the luff."""
    import cases
    kind, ns, gm, gj, vary = it
    c = cases.config(("cruiser", (("interp", kind), ("mesh", (ns, 2)), ("m_girths", gm), ("j_girths", gj))))
    t = c["tables"]
    for s in "mj":
        g = t[s]["girths"]
        t[s]["chords"] = np.array([3.0 + np.sin(7 * g + (s == "m")), 2 + g, 2.5 - g ** 2][vary % 3]) if vary else t[s]["chords"]
        t[s]["twist"] = 0 * g
        t[s]["camber"] = 0 * g
    c["heel"] = c["leeway"] = 0.0
    ss, _ = cases.build_geometry(c)
    for sail in ss.sails:
        p = np.asarray(sail.panels_above)
        s = "j" if sail.name == "jib" else "m"
        lo = p[ns:, 0, 0] - p[:ns, 1, 0]
        hi = p[-1, 3, 0] - p[ns - 1, 2, 0]
        want = ref.sections(kind, t[s]["girths"], t[s]["chords"], ns)
        r.same("sail-chords", np.append(lo, hi), want, 1e-9)
        z = np.append(p[:ns, 1, 2], p[ns - 1, 2, 2])
        r.same("even-luff", (z - z[0]) / (z[-1] - z[0]), np.arange(ns + 1) / ns, 1e-9, scale=1)
    r.outcome = digest(ss.panels)


def run(ctx):
    import pySailingVLM.runner.sail  # noqa: F401
    ns = NS + (list(range(2, 130)) if ctx.thorough else [])
    ns = sorted(set(ns))
    ctx.map("tables", check_table, list(itertools.product(("linear", "spline"), range(len(GT)), list(LAWS) + list(range(11)), ns)))
    ctx.map("tables of a part of the luff", check_part, list(itertools.product(("linear", "spline"), range(len(PART)), list(LAWS), ns)))
    ctx.map("sail sets", check_sets, list(itertools.product(("linear", "spline"), range(len(GT)), range(len(GT)), (2, 5, 9, 24),
                                                            (("lin",), ("cubic", "kink"), ("exp", "osc", "const")))))
    ctx.map("built sails", check_sail, list(itertools.product(("linear", "spline"), (1, 2, 3, 4, 8, 10, 16), ("m7", "g4", "j5"),
                                                              ("j5", "m7"), (0, 1, 2, 3))))
