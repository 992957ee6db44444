"""Vortex kernels on an exhaustive grid of relative placements: Biot-Savart values, core, and algebraic laws."""
import itertools
import numpy as np
import ref
from engine import digest

ORIG = [(0., 0., 0.), (1.3, -.4, 2.1), (-250., 40., 3.)]
DIRS = [(1., 0, 0), (0, 1., 0), (0, 0, -1.), (1., 2., -.7), (-.3, .1, 4.)]
LENS = [0.01, 0.5, 1.0, 7.0, 60.0]
TS = [-20., -2., -.5, -1e-3, 0., .25, .5, .999, 1., 1.001, 1.7, 30.]
DS = [0., 1e-9, 1e-7, 2e-5, 1e-3, .1, 1., 25.]
GAM = [1.0, -1.0, 2.5, -340.7, 1e-5, 0.0]
FR = 4 * np.pi


def arr(x):
    return np.ascontiguousarray(np.asarray(x, float))


def frame(d):
    d = arr(d) / np.linalg.norm(d)
    e = np.cross(d, [.3, -.5, .8])
    e /= np.linalg.norm(e)
    return d, e, np.cross(d, e)


def tol_seg(P, A, B, v, g):
    u = (B - A) / np.linalg.norm(B - A)
    h = np.linalg.norm(np.cross(P - A, u), axis=-1)
    sc = 1 + np.abs(P).max() + np.abs(A).max()
    with np.errstate(all="ignore"):
        cond = sc / np.minimum(h, 1.0)                       # relative error of the offsets themselves
        return 1e-9 * np.linalg.norm(v, axis=-1) + abs(g) * (1e-13 + 1e-15 * cond) * (1 + cond) / h


def close(r, key, got, want, tol, what):
    got, want = np.asarray(got), np.asarray(want)
    if not np.all(np.isfinite(got)):
        return r.bad(key, f"{what}: not finite {got}")
    d = np.abs(got - want).max(-1)
    if not np.all(d <= tol):
        i = np.unravel_index(np.argmax(d - tol), d.shape) if d.shape else ()
        r.bad(key, f"{what}: got {got[i]}, expected {want[i]} (difference {d[i]:.2e}, allowed {np.asarray(tol)[i]:.2e})")


def check_segment(it, r):
    from pySailingVLM.solver.velocity import vortex_line
    o, d, L, g = it
    A = arr(o)
    u, e, f = frame(d)
    B = A + L * u
    pts = [A + t * L * u + h * (np.cos(a) * e + np.sin(a) * f) for t in TS for h in DS for a in ((0.,) if h < 1e-8 else (0., 2.1))]
    P = arr(pts)
    want, core, edge = ref.segment(P, A, B, g)
    got = np.array([vortex_line(p, A, B, g) for p in P])
    ok = ~edge
    r.evals = len(P)
    r.true("finite", np.isfinite(got).all(), "non-finite velocity")
    c = core & ok
    r.true("core", (got[c] == 0).all(), f"non-zero velocity on the core: {got[c][(got[c] != 0).any(1)][:1]}")
    o_ = ~core & ok
    close(r, "segment", got[o_], want[o_], tol_seg(P[o_], A, B, want[o_], g), f"segment of {it}")
    far = o_ & (np.linalg.norm(np.cross(P - A, u), axis=1) > .05)
    if g:
        r.true("nonzero", (np.linalg.norm(got[far], axis=1) > 0).all() or L < .1, "zero velocity off the core")
    Q = P[far]
    if len(Q) and L > .05:
        sc = np.abs(want[far]).max() + 1e-300
        rev = np.array([vortex_line(p, B, A, g) for p in Q])
        r.rel("reversal", rev, -got[far], 1e-9, scale=sc)
        neg = np.array([vortex_line(p, A, B, -g) for p in Q])
        r.rel("sign", neg, -got[far], 1e-13, scale=sc)
        dbl = np.array([vortex_line(p, A, B, 3 * g) for p in Q])
        r.rel("linear", dbl, 3 * got[far], 1e-13, scale=3 * sc)
        for s in (.13, .5, .9):
            M = A + s * (B - A)
            two = np.array([vortex_line(p, A, M, g) + vortex_line(p, M, B, g) for p in Q])
            _, c1, e1 = ref.segment(Q, A, M)
            _, c2, e2 = ref.segment(Q, M, B)
            k = ~(c1 | c2 | e1 | e2)
            r.rel("splitting", two[k], got[far][k], 1e-7, scale=sc)
        ax, an, sh = arr([.3, -1, .5]), 1.234, arr([5., -7., 3.])
        mv = lambda x: np.ascontiguousarray(ref.rodrigues(x, ax, an) + sh)
        mov = np.array([vortex_line(mv(p), mv(A), mv(B), g) for p in Q])
        r.rel("rigid-motion", mov, ref.rodrigues(got[far], ax, an), 1e-7, scale=sc)
    r.outcome = digest(got)


def check_ray(it, r):
    from pySailingVLM.solver.velocity import vortex_infinite_line
    o, d, mag, g = it
    A = arr(o)
    u, e, f = frame(d)
    P = arr([A + t * u + h * (np.cos(a) * e + np.sin(a) * f) for t in (-40., -3., -.2, 0., .2, 1., 30.)
             for h in (.02, .5, 1., 9.) for a in (0., 1.2, 4.)])
    want = ref.ray(P, A, u, g)
    got = np.array([vortex_infinite_line(p, A, arr(mag * u), g) for p in P])
    r.evals = len(P)
    n, h = np.linalg.norm(P - A, axis=1), np.linalg.norm(np.cross(P - A, u), axis=1)
    sc = 1 + np.abs(P).max()
    close(r, "ray", got, want, 1e-9 * np.linalg.norm(want, axis=1) + abs(g) * 1e-15 * (n / h) ** 2 * (sc / h) / h + 1e-300, f"ray {it}")
    other = np.array([vortex_infinite_line(p, A, arr(7.7 * mag * u), -2 * g) for p in P])
    r.rel("ray-direction-only", other, -2 * got, 1e-8)
    # a ray is the limit of long segments
    if g:
        lim, core, edge = ref.segment(P, A, A + 1e7 * u, g)
        k = ~core & ~edge
        r.rel("ray-limit", got[k], lim[k], 1e-5)
    # two opposite rays make the infinite line: |v| = g/(2 pi h)
    both = got + np.array([vortex_infinite_line(p, A, arr(-u), -g) for p in P])
    line = (g / (2 * np.pi * h))[:, None] * np.cross(u, P - A) / h[:, None]
    r.rel("two-rays", both, line, 1e-6)
    r.outcome = digest(got)


QUADS = [
    [(1, 0, 0), (0, 0, 0), (0, 0, 1), (1, 0, 1)], [(2, .4, 1), (0, 0, 1.2), (-.3, .1, 3), (1.4, .7, 2.8)],
    [(.2, 0, 0), (0, 0, 0), (0, 5, 0), (.2, 5, 0)], [(1, 0, -3), (0, .2, -3), (.1, 0, -5), (.9, -.3, -5)],
    [(30, 0, 2), (28, 1, 2), (28, 3, 6), (31, 2, 7)],
    [(.08, 0, 0), (0, 0, 0), (0, 0, .06), (.07, .01, .06)], [(1, 0, 0), (0, 0, 0), (0, 0, 1), (0, 0, 1)],
    [(5e-4, 0, 0), (0, 0, 0), (0, 0, 1), (4e-4, 0, 1)], [(.7, 0, 0), (0, 0, 0), (0, 1e-4, 3e-4), (.7, 0, 3e-4)],
    [(400, 10, 0), (0, 0, 0), (0, 20, 700), (380, 0, 650)],
]
WINDS = [(1, 0, 0), (6., 2.5, 0), (-.3, 1., 0), (0, -12., 0), (2., .1, .7)]
PTS = [(3., 1., 2.), (.5, .3, .5), (-4., 2., 1.), (.5, 0, .5), (0, 0, .5), (0, 0, 0), (1, 0, 0), (.4, -6., 9.), (28, 0.9, 2.2),
       (.04, .001, .03), (-2, -2, -4.), (180., -70., 45.), (-900., 1200., 300.), (.0002, .05, .4)]


def safe(p, Q, V=None):
    """Not on the axis of a wake, and not on a core border."""
    if V is not None:
        u = arr(V) / np.linalg.norm(V)
        for q in Q:
            s = np.dot(p - q, u)
            if s > -.5 and np.linalg.norm(np.cross(p - q, u)) < .01 * (1 + abs(s)):
                return False
    return True


def check_composite(it, r):
    from pySailingVLM.solver import velocity as ve
    q, w, g = it
    A, B, C, D = (arr(x) for x in QUADS[q])
    V = arr(WINDS[w])
    n = 0
    out = []
    for p in PTS:
        p = arr(p)
        want, e = ref.ring(p, A, B, C, D, g)
        if e:
            continue
        got = ve.vortex_ring(p, A, B, C, D, g)
        parts = sum(ve.vortex_line(p, a, b, g) for a, b in ((A, B), (B, C), (C, D), (D, A)))
        sc = max(np.abs(ve.vortex_line(p, a, b, g)).max() for a, b in ((A, B), (B, C), (C, D), (D, A))) + 1e-300
        r.same("ring", got, want, 1e-9, scale=sc, what=f"ring at {p}")
        r.rel("ring-sum", got, parts, 1e-12, scale=sc)
        r.rel("ring-cyclic", ve.vortex_ring(p, C, D, A, B, g), got, 1e-11, scale=sc)
        r.rel("ring-reversed", ve.vortex_ring(p, D, C, B, A, g), -got, 1e-11, scale=sc)
        out.append(got)
        n += 1
        if safe(p, (B, C), V):
            want, e = ref.horseshoe(p, B, C, V, g)
            got = ve.vortex_horseshoe(p, B, C, V, g)
            s2 = max(sc, np.abs(ref.ray(p, C, V, g)).max(), np.abs(ref.ray(p, B, V, g)).max())
            r.same("horseshoe", got, want, 1e-8, scale=s2, what=f"horseshoe at {p}")
            parts = ve.vortex_line(p, B, C, g) + ve.vortex_infinite_line(p, C, V, g) - ve.vortex_infinite_line(p, B, V, g)
            r.rel("horseshoe-sum", got, parts, 1e-12, scale=s2)
            r.rel("horseshoe-linear", ve.vortex_horseshoe(p, B, C, V, -2 * g), -2 * got, 1e-12, scale=2 * s2)
            r.rel("horseshoe-reversed", ve.vortex_horseshoe(p, C, B, V, g), -got, 1e-11, scale=s2)
            out.append(got)
        if safe(p, (A, D), V):
            want, e = ref.horseshoe5(p, A, B, C, D, V, g)
            got = ve.vortex_horseshoe_v2(p, A, B, C, D, V, g)
            s2 = max(sc, np.abs(ref.ray(p, A, V, g)).max(), np.abs(ref.ray(p, D, V, g)).max())
            r.same("horseshoe-legs", got, want, 1e-8, scale=s2, what=f"horseshoe with legs at {p}")
            ring = ve.vortex_ring(p, A, B, C, D, g) - ve.vortex_line(p, D, A, g) \
                + ve.vortex_infinite_line(p, D, V, g) - ve.vortex_infinite_line(p, A, V, g)
            r.rel("horseshoe-legs-sum", got, ring, 1e-11, scale=s2)
            r.rel("horseshoe-legs-linear", ve.vortex_horseshoe_v2(p, A, B, C, D, V, -3 * g), -3 * got, 1e-12, scale=3 * s2)
            out.append(got)
        # rigid motion of the whole picture
        if safe(p, (A, B, C, D), V):
            ax, an, sh = arr([-.7, .2, 1.]), 2.0, arr([1., 2., -3.])
            mv = lambda x: np.ascontiguousarray(ref.rodrigues(x, ax, an) + sh)
            a = ve.vortex_horseshoe_v2(mv(p), mv(A), mv(B), mv(C), mv(D), np.ascontiguousarray(ref.rodrigues(V, ax, an)), g)
            b = ref.rodrigues(ve.vortex_horseshoe_v2(p, A, B, C, D, V, g), ax, an)
            _, e = ref.ring(mv(p), mv(A), mv(B), mv(C), mv(D), g)
            _, c1, _ = ref.segment(p, A, B)
            if not e:
                r.rel("rigid-motion-legs", a, b, 1e-7, scale=max(sc, np.abs(b).max()))
    r.evals = n
    r.outcome = digest(*out)


def check_coefs(it, r):
    """The influence matrix for every pattern of trailing panels."""
    from pySailingVLM.solver.coefs import calc_velocity_coefs
    pat, go, shift, rot, wmode, order = it
    quads = [arr(QUADS[k]) + arr([0, 0, .01 * k]) for k in order]
    rings = arr([ref.rodrigues(q, [.1, .2, 1], rot) + arr(shift) for q in quads])
    n = len(rings)
    te = np.array([(pat >> k) & 1 for k in range(n)], bool)
    pts = arr([rings[k].mean(0) + arr([.21, .33, .17]) * (1 if k % 2 else -1) for k in range(n)])
    V = arr([arr(WINDS[(k if wmode else 1) % len(WINDS)]) for k in range(n)])
    nn = np.cross(rings[:, 2] - rings[:, 0], rings[:, 3] - rings[:, 1])
    nn = arr(nn / np.linalg.norm(nn, axis=1)[:, None])
    L = dict(A=rings[:, 0], B=rings[:, 1], C=rings[:, 2], D=rings[:, 3], te=te)
    W, e = ref.influence(pts, L, V, go)
    if e:
        r.skip = "core border"
        return
    co, vi = calc_velocity_coefs(V, pts, rings, nn, te, go)
    s = np.abs(W).max()
    r.same("influence-velocity", vi, W, 1e-8, scale=s)
    r.same("influence-normal", co, np.einsum("ijk,ik->ij", W, nn), 1e-8, scale=s)
    r.outcome = digest(vi)


def check_far(it, r):
    """Small rings seen from far away: every single influence, not only those that matter next to the others."""
    from pySailingVLM.solver.coefs import calc_velocity_coefs
    k, size, dist, go, w, last = it
    u = arr([(1, .2, .3), (-.4, 1, .1), (.1, -.5, -1), (-1, -1, 1), (0, 0, 1.)])
    u /= np.linalg.norm(u, axis=1)[:, None]
    ring = arr(QUADS[k]) - arr(QUADS[k]).mean(0)
    ring = arr(ring * (size / np.abs(ring).max()))
    pts = arr(u * size * dist)
    n = len(pts)
    rings = arr([ring] * n)
    V = arr([WINDS[w]] * n)
    te = np.full(n, last)
    L = dict(A=rings[:, 0], B=rings[:, 1], C=rings[:, 2], D=rings[:, 3], te=te)
    W, e = ref.influence(pts, L, V, go)
    if e:
        r.skip = "core border"
        return
    nn = arr(u[::-1])
    co, vi = calc_velocity_coefs(V, pts, rings, nn, te, go)
    for i in range(n):
        s = np.abs(W[i, 0]).max()
        r.same("far-velocity", vi[i], W[i], 1e-6, scale=s, what=f"influence at {dist} times its size")
        r.same("far-normal", co[i], W[i] @ nn[i], 1e-6, scale=s)
    r.outcome = digest(vi / np.abs(W).max())


def run(ctx):
    import pySailingVLM.solver.coefs  # noqa: F401
    ctx.map("segments", check_segment, list(itertools.product(ORIG, DIRS, LENS, GAM)))
    ctx.map("rays", check_ray, list(itertools.product(ORIG, DIRS, (1e-3, 1.0, 40.0), GAM)))
    ctx.map("rings and horseshoes", check_composite, list(itertools.product(range(len(QUADS)), range(len(WINDS)), GAM)))
    orders = [(0, 1, 3), (1, 2, 3, 5), (5, 4, 0, 1)] + ([(0, 1, 2, 3, 4, 5)] if ctx.thorough else [])
    ctx.map("influence matrix", check_coefs,
            [(p, go, sh, ro, wm, o) for o in orders for p in range(2 ** len(o)) for go in (-1., 1., 2.5) for sh in ((0, 0, 0), (3, -2, 9.))
             for ro in (0., 1.1) for wm in (0, 1)])
    ctx.map("far away", check_far, list(itertools.product((0, 1, 2, 3, 4, 5), (.02, 1., 60.), (3., 15., 50., 120., 400.), (-1., 1.), range(len(WINDS)), (False, True))))
    ctx.extra["transition_meaning"] = "reversal, sign, scaling, splitting, part-sum and rigid motion of every placement"
    ctx.assumptions += ["points on the axis of a semi-infinite wake (where the velocity is infinite) are outside the property"]
