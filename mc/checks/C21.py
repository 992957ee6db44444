"""Hull lines and keel point over a grid of hull settings and attitudes."""
import itertools
import numpy as np
import cases, ref
from engine import digest

SHEER = [1.2, .3, 2.7, 5.0, .9]
BASE = [3.9, 1.0, .4, 7.5]
HEEL = [0.0, 10.0, -14.0, 33.0, -45.0, 1.0]
LEE = [0.0, 5.0, -9.0, 60.0, 200.0]
CLR = [(0, 0, -1.0), (0, 0, 0), (1.2, .4, -2.3), (-2.0, -.7, .6), (3.0, 1.0, 4.0), (.1, 0, -.01)]
LINES = ["deck_centerline", "deck_port_line", "deck_starboard_line", "deck_port_line_underwater", "deck_starboard_line_underwater"]


def hull(s, b, he, le, clr=None, ref_=None):
    from pySailingVLM.rotations.csys_transformations import CSYS_transformations
    from pySailingVLM.yacht_geometry.hull_geometry import HullGeometry
    t = CSYS_transformations(he, le) if ref_ is None else CSYS_transformations(he, le, np.array(ref_))
    return HullGeometry(s, b, t) if clr is None else HullGeometry(s, b, t, np.array(clr))


def outline(b):
    """Upright deck outline over the base: from the airfoil 1028 of chord 3 b starting 1.1 b ahead of the mast."""
    x = np.arange(51) / 50
    yc = ref.camber_line(x, .01, 0.0)
    yt = ref.half_thickness(x, .28)
    s = np.arctan(2 * .01 * (0 - x))
    up = np.stack([x - yt * np.sin(s), yc + yt * np.cos(s)], 1)
    lo = np.stack([x + yt * np.sin(s), yc - yt * np.cos(s)], 1)
    return x, up, lo


def keel_only(H, clr, he, le, r):
    r.same("keel", H.center_of_lateral_resistance, ref.attitude(np.array(clr, float), he, le), 1e-11, scale=5)


def check(it, r):
    s, b, he, le = it
    x, up, lo = outline(b)
    want = {"deck_centerline": np.stack([-1.1 * b + 3 * b * x, 0 * x, s + 0 * x], 1)}
    for nm, o in (("port", up), ("starboard", lo)):
        # outline is drawn stern first in breadth: the full breadth sits aft
        L = np.stack([-1.1 * b + 3 * b * o[:, 0], 3 * b * o[::-1, 1], s + 0 * x], 1)
        want[f"deck_{nm}_line"] = L
    H = hull(s, b, he, le, (0, 0, -1.))
    for nm, L in want.items():
        r.same(nm, getattr(H, nm), ref.attitude(L, he, le), 1e-10, scale=10)
    for nm in ("port", "starboard"):
        L = want[f"deck_{nm}_line"] * ref.MIRROR
        r.same(nm + "-mirrored", getattr(H, f"deck_{nm}_line_underwater"), ref.attitude(L, he, le, True), 1e-10, scale=10)
        above, under = getattr(H, f"deck_{nm}_line"), getattr(H, f"deck_{nm}_line_underwater")
        r.rel("reflection", under, np.asarray(above) * ref.MIRROR, 1e-10, scale=10)
    # proportional to the base, rigid with attitude
    U = hull(s, b, 0.0, 0.0)
    c = np.asarray(U.deck_centerline)
    r.same("bow-to-stern", [c[:, 0].min(), c[:, 0].max()], [-1.1 * b, 1.9 * b], 1e-11, scale=b)
    r.same("deck-height", np.concatenate([np.asarray(getattr(U, n))[:, 2] for n in LINES[:3]]), np.full(153, s), 1e-12)
    r.same("deck-height-mirrored", np.concatenate([np.asarray(getattr(U, n))[:, 2] for n in LINES[3:]]), np.full(102, -s), 1e-12)
    D = hull(s, 2 * b, 0.0, 0.0)
    for n in LINES:
        r.rel("proportional", np.asarray(getattr(D, n))[:, :2], 2 * np.asarray(getattr(U, n))[:, :2], 1e-11, scale=10)
    P, Q = (np.concatenate([np.asarray(getattr(h, n)) for n in LINES[:3]]) for h in (U, H))
    d = lambda X: np.linalg.norm(X[::7, None] - X[None], axis=-1)
    r.rel("rigid", d(Q), d(P), 1e-10, scale=10)
    r.outcome = digest(Q)


def check_keel(it, r):
    clr, he, le, ref_ = it
    for s, b in ((1.2, 3.9), (3.0, .8)):
        H = hull(s, b, he, le, clr, ref_)
        keel_only(H, clr, he, le, r)
        r.evals += 1
    if tuple(clr) == (0, 0, 0):
        r.same("keel-default", hull(1.2, 3.9, he, le).center_of_lateral_resistance, [0, 0, 0], 1e-12, scale=1)
    r.outcome = digest(H.center_of_lateral_resistance)


def check_with_sails(state, r):
    """The mast line seen by the hull and by the sails is one rigid body: distances from deck to luff do not change."""
    c = cases.config(state)
    why, g = cases.in_domain(c, need_wind=False)
    if why:
        r.skip = why
        return
    from pySailingVLM.yacht_geometry.hull_geometry import HullGeometry
    ss, csys = cases.build_geometry(c)
    H = HullGeometry(c["sheer"], c["fore_b"], csys, np.array(c["clr"]))
    u = cases.finish(dict(c, heel=0.0, leeway=0.0))
    ss0, csys0 = cases.build_geometry(u)
    H0 = HullGeometry(c["sheer"], c["fore_b"], csys0, np.array(c["clr"]))
    n = len(ss.panels) // 2
    pts = lambda s, h: np.concatenate([np.asarray(s.panels)[:n].reshape(-1, 3), h.deck_centerline[::10], h.deck_port_line[::10],
                                       h.deck_starboard_line[::10], [h.center_of_lateral_resistance]])
    A, B = pts(ss, H), pts(ss0, H0)
    d = lambda X: np.linalg.norm(X[:, None] - X[None], axis=-1)
    r.rel("one-body", d(A), d(B), 1e-9, scale=20)
    r.outcome = digest(A)


def run(ctx):
    import pySailingVLM.yacht_geometry.hull_geometry, pySailingVLM.runner.sail  # noqa: F401,E401
    ls = LEE + ([15.0, -80.0, 120.0, 300.0] if ctx.thorough else [])
    hs = HEEL + ([20.0, 60.0, -5.0] if ctx.thorough else [])
    ctx.map("hull lines", check, list(itertools.product(SHEER, BASE, hs, ls)))
    ctx.map("keel point", check_keel, list(itertools.product(CLR, hs + [80.0], ls, (None, (1., 2., 3.)))))
    st, tr = cases.explore(list(cases.ROOTS), ["heel", "leeway", "sheer", "fore_b", "sails", "rake", "mesh", "clr"], ctx.q(2, 3))
    ctx.map("hull with sails", check_with_sails, st, tr)
