"""Rotations: every axis x angle x point of the grids against Rodrigues' formula, and the group laws between them."""
import itertools
import numpy as np
import cases, ref
from engine import digest

AXES = [(1, 0, 0), (0, 1, 0), (0, 0, 1), (-1, 0, 0), (0, 0, -2.5), (1, 1, 0), (.2, -3, .7), (4, 4, 1), (1e-3, 1e-3, -2e-3),
        (-20., 5., 300.), (0, 3, -4),
        (1, .1, -.05), (-30, .4, .3), (5, 0, 1e-3), (1, -1e-4, 0), (-2, 1e-5, 3e-6)]   # close to the x axis
ANGLES = [0.0, 1e-7, .3, -.3, 1.0, np.pi / 2, -np.pi / 2, 2.2, np.pi, -np.pi, 3.9, 6.0, 2 * np.pi, -9.0, 40.0]
PTS = np.array([[1., 0, 0], [0, 1., 0], [0, 0, 1.], [3., -2., 7.], [-.4, .3, -11.], [100., 20., -3.], [0, 0, 0]])


def check_matrix(it, r):
    from pySailingVLM.rotations.geometry_calc import rotation_matrix, rotate_points_around_origin_axis
    ax, an = it
    M = np.asarray(rotation_matrix(list(ax), an))
    want = ref.rodrigues(np.eye(3), ax, an).T
    r.same("matrix", M, want, 1e-12, scale=1)
    r.rel("proper", np.linalg.det(M), 1.0, 1e-12)
    r.rel("orthogonal", M @ M.T, np.eye(3), 1e-12, scale=1)
    u = np.array(ax, float) / np.linalg.norm(ax)
    r.rel("axis-fixed", M @ u, u, 1e-12, scale=1)
    for b in ANGLES:
        r.rel("additive", np.asarray(rotation_matrix(list(ax), b)) @ M, rotation_matrix(list(ax), an + b), 1e-11, scale=1)
    r.rel("inverse", np.asarray(rotation_matrix(list(ax), -an)) @ M, np.eye(3), 1e-12, scale=1)
    r.rel("axis-length", rotation_matrix([7.5 * a for a in ax], an), M, 1e-12, scale=1)
    r.rel("axis-reversed", rotation_matrix([-a for a in ax], -an), M, 1e-12, scale=1)
    P = rotate_points_around_origin_axis(PTS, np.array(ax, float), an)
    r.same("origin-axis", P, ref.rodrigues(PTS, ax, an), 1e-11, scale=100)
    r.rel("agree", P, PTS @ M.T, 1e-11, scale=100)
    one = rotate_points_around_origin_axis(PTS[3:4], np.array(ax, float), an)
    r.rel("agree-single", one, PTS[3:4] @ M.T, 1e-11, scale=10)
    r.evals = 4 + len(ANGLES)
    r.outcome = digest(M)


P1 = [(0., 0, 0), (1.5, -2., 4.), (-30., 7., -1.), (0, 0, 9.)]


def check_line(it, r):
    from pySailingVLM.rotations.geometry_calc import rotate_points_around_arbitrary_axis as rot, rotation_matrix
    p1, ax, an, ln = it
    p1 = np.array(p1, float)
    u = np.array(ax, float) / np.linalg.norm(ax)
    p2 = p1 + ln * u
    keep = PTS.copy()
    got = rot(PTS, p1, p2, an)
    r.true("input-kept", (PTS == keep).all(), "input points modified")
    k = 1 / np.hypot(u[1], u[2])
    S = 100 * k * (1 + 30 / min(ln, 30) * 1e-0)
    r.same("line", got, ref.rot_about_line(PTS, p1, p2, an), 1e-11, scale=S)
    D = lambda X: np.linalg.norm(X[:, None] - X[None], axis=-1)
    r.rel("distances", D(got), D(PTS), 1e-11, scale=S)
    fix = np.array([p1, p2, p1 + .37 * (p2 - p1), p1 - 4 * u])
    r.rel("line-fixed", rot(fix, p1, p2, an), fix, 1e-11, scale=S)
    r.rel("undo", rot(got, p1, p2, -an), PTS, 1e-10, scale=S)
    for b in (.4, -2.0, np.pi):
        r.rel("additive", rot(got, p1, p2, b), rot(PTS, p1, p2, an + b), 1e-10, scale=S)
    r.rel("any-points-of-the-line", rot(PTS, p1 + 2.5 * u, p1 + 4.1 * u, an), got, 1e-10, scale=S)
    r.rel("reversed", rot(PTS, p2, p1, -an), got, 1e-10, scale=S)
    if not p1.any():
        r.rel("agree", got, PTS @ np.asarray(rotation_matrix(list(u), an)).T, 1e-11, scale=S)
    r.rel("single", rot(PTS[4:5], p1, p2, an), got[4:5], 1e-12, scale=S)
    r.evals = 10
    r.outcome = digest(got)


HEEL = [0.0, 1e-4, 10.0, -10.0, 26.0, -45.0, 60.0, 85.0, 17.5, 101.0, 150.0, -135.0]
LEE = [0.0, 5.0, -7.0, 33.0, 90.0, -120.0, 180.0, 270.0, -0.3]
BODY = [(x, y, z) for x in (-6.0, 0.0, 3.1) for y in (-1.7, 0.0, .4) for z in (.02, .9, 7.0, 25.0)] + [(50., 3., 4.), (0., 8., 2.)]


def check_attitude(it, r):
    from pySailingVLM.rotations.csys_transformations import CSYS_transformations as C
    he, le = it
    t = C(he, le)
    r.true("kept", (t.heel_deg, t.leeway_deg) == (he, le), "heel/leeway not kept")
    n = 0
    for p in BODY:
        p = np.array(p)
        up = np.asarray(t.rotate_point_with_mirror(p.copy()))
        r.same("upper", up, ref.attitude(p, he, le), 1e-12, scale=60)
        r.same("without-mirror", t.rotate_point_without_mirror(p.copy()), ref.attitude(p, he, le), 1e-12, scale=60)
        q = p * ref.MIRROR
        lo = np.asarray(t.rotate_point_with_mirror(q.copy()))
        r.same("lower", lo, ref.attitude(q, he, le, True), 1e-12, scale=60)
        r.rel("mirror-image", lo, up * ref.MIRROR, 1e-12, scale=60)
        r.same("real-point-below", t.rotate_point_without_mirror(q.copy()), ref.attitude(q, he, le), 1e-12, scale=60)
        if up[2] > 1e-9:
            n += 1
            r.rel("undo-upper", t.reverse_rotations_with_mirror(up), p, 1e-12, scale=60)
            r.rel("undo-lower", t.reverse_rotations_with_mirror(lo), q, 1e-12, scale=60)
    # heel tips a point straight above to leeward (+y), before leeway turns it
    top = np.asarray(C(he, 0.0).rotate_point_with_mirror(np.array([0., 0., 10.])))
    if he:
        r.true("to-leeward", np.sign(top[1]) == np.sign(np.sin(np.radians(he))), f"heel {he} moves the masthead to y={top[1]}")
    r.evals = 5 * len(BODY) + 2 * n
    r.outcome = digest(up, lo)


def forms(P):
    """The same points in the forms callers use; only forms with the exact same values."""
    P = np.asarray(P, float)
    yield "list", P.tolist()
    yield "integers", P.astype(int)
    yield "integer list", P.astype(int).tolist()
    yield "small integers", P.astype(np.int32)
    f = P.copy()
    f.flags.writeable = False
    yield "read-only", f
    yield "strided", np.repeat(P, 2, axis=-1)[..., ::2]
    yield "reversed view", P[..., ::-1].copy()[..., ::-1]


WHOLE = np.array([[1., 0, 0], [3., -2., 7.], [-4., 3., 11.], [100., 20., 3.], [0, 0, 0]])


def check_forms(it, r):
    """Whole-number, read-only and strided points give what the same points as plain arrays give."""
    from pySailingVLM.rotations import geometry_calc as G
    from pySailingVLM.rotations.csys_transformations import CSYS_transformations as C
    an, he, le = it
    p1, p2 = np.array([1., -2, 4]), np.array([2., 1, 5])
    ax = np.array([1., -3, 2])
    n = 0
    t = C(he, le)
    for nm, Q in forms(WHOLE):
        if "list" in nm:
            r.same("line-" + nm, G.rotate_points_around_arbitrary_axis(np.array(Q), p1, p2, an), ref.rot_about_line(WHOLE, p1, p2, an), 1e-11, scale=300)
        else:
            r.same("line-" + nm, G.rotate_points_around_arbitrary_axis(Q, p1, p2, an), ref.rot_about_line(WHOLE, p1, p2, an), 1e-11, scale=300)
            r.same("origin-" + nm, G.rotate_points_around_origin_axis(Q, ax, an), ref.rodrigues(WHOLE, ax, an), 1e-11, scale=300)
        n += 2
    for nm, A in forms(ax):
        r.same("axis-" + nm, G.rotation_matrix(A, an), ref.rodrigues(np.eye(3), ax, an).T, 1e-12, scale=1)
    for (na, A), (nb, B) in itertools.product(list(forms(p1)), list(forms(p2))):
        if "list" not in na and "list" not in nb:
            r.same(f"ends-{na}-{nb}", G.rotate_points_around_arbitrary_axis(WHOLE, A, B, an), ref.rot_about_line(WHOLE, p1, p2, an), 1e-11, scale=300)
            n += 1
    for p in WHOLE:
        for z in (1, -1):
            b = p * np.array([1, 1, z])
            for nm, Q in forms(b):
                Q = np.array(Q) if "list" in nm else Q
                if not b[2]:                      # on the water itself both halves are right
                    continue
                r.same("mirror-" + nm, t.rotate_point_with_mirror(Q), ref.attitude(b, he, le, b[2] < 0), 1e-12, scale=200)
                r.same("no-mirror-" + nm, t.rotate_point_without_mirror(Q), ref.attitude(b, he, le), 1e-12, scale=200)
                und = np.asarray(t.reverse_rotations_with_mirror(Q), float)
                r.same("undone-" + nm, ref.attitude(und, he, le, b[2] < 0), b, 1e-12, scale=200)
                n += 3
    r.evals = n
    r.outcome = digest(n)


def check_default(it, r):
    from pySailingVLM.rotations.csys_transformations import CSYS_transformations as C
    t = C()
    for p in BODY:
        r.same("default", t.rotate_point_with_mirror(np.array(p)), np.array(p), 1e-14, scale=60)
        r.same("default-undo", t.reverse_rotations_with_mirror(np.array(p)), np.array(p), 1e-14, scale=60)
    r.same("default-origin", t.v_from_original_xyz_2_reference_csys_xyz, np.zeros(3), 1e-15, scale=1)
    t = C(4, 5, v_from_original_xyz_2_reference_csys_xyz=np.array([1., 2, 3]))
    r.same("origin", t.v_from_original_xyz_2_reference_csys_xyz, np.array([1., 2, 3]), 1e-15, scale=1)
    r.same("integers", t.rotate_point_with_mirror(np.array([1, 2, 3])), ref.attitude([1, 2, 3], 4, 5), 1e-13, scale=1)


def run(ctx):
    import pySailingVLM.rotations.csys_transformations  # noqa: F401
    ang = ANGLES + ([x * .25 for x in range(-30, 30)] if ctx.thorough else [])
    ctx.map("axes through the origin", check_matrix, list(itertools.product(AXES, ang)))
    lines = [a for a in AXES if abs(a[1]) + abs(a[2]) > 0]
    ctx.map("axes through two points", check_line, list(itertools.product(P1, lines, ang, (1.0, 1e-2, 40.0))))
    hs = HEEL + ([x * 7.3 for x in range(-11, 12)] if ctx.thorough else [])
    ls = LEE + ([x * 13.7 for x in range(-26, 26)] if ctx.thorough else [])
    ctx.map("attitudes", check_attitude, list(itertools.product(hs, ls)))
    ctx.map("defaults", check_default, [0])
    ctx.map("forms of the points", check_forms, [(a, h, l) for a in ANGLES for h in (0, 10, -26., 60, 150) for l in (0, 5, -33.)])
