"""Centreline components: every converted vector against the vector seen from axes turned with the yacht."""
import itertools
import numpy as np
import cases, ref, rigs
from engine import digest
from checks import C01

PLUS = "centreline-turned-the-wrong-way"


def turn(v, deg):
    return ref.rodrigues(np.asarray(v, float), [0, 0, 1], ref.rad(deg))


class Convention:
    """Which of the two directions of turning all vectors of one state agree with."""
    def __init__(self, leeway, r):
        self.lw, self.r, self.plus, self.minus, self.n = leeway, r, True, True, 0

    def see(self, key, got, xyz, tol=1e-11):
        got, xyz = np.asarray(got, float), np.asarray(xyz, float)
        if got.shape != xyz.shape:
            return self.r.bad(key, f"{key}: shape {got.shape} expected {xyz.shape}")
        s = np.abs(xyz).max() + 1e-300
        m = np.abs(got - turn(xyz, -self.lw)).max() <= tol * s
        p = np.abs(got - turn(xyz, self.lw)).max() <= tol * s
        self.n += 1
        self.r.true(key, m or p, f"{key}: leeway {self.lw}: {xyz.reshape(-1, 3)[0]} became {got.reshape(-1, 3)[0]}, "
                                 f"expected {turn(xyz, -self.lw).reshape(-1, 3)[0]}")
        if m or p:
            self.minus &= m
            self.plus &= p

    def done(self):
        if not self.minus and not self.plus:
            self.r.bad("mixed-conventions", "some vectors are turned by the leeway, others against it")
        elif not self.minus:
            self.r.bad(PLUS, f"leeway {self.lw}: components along the course turned by the leeway the wrong way")


LEE = [0.0, 5.0, -7.0, 33.0, 90.0, -120.0, 180.0, 1e-3]
HEEL = [0.0, 10.0, -25.0, 80.0]


def check_vectors(it, r):
    from pySailingVLM.rotations.csys_transformations import CSYS_transformations
    lw, he, at = it
    t = CSYS_transformations(he, lw, np.array(at))
    V = np.array(list(itertools.product((-3.0, 0.0, 1.7), (-1.1, 0.0, 2.3), (-5.0, 0.0, .4))))
    C = Convention(lw, r)
    got = np.asarray(t.from_xyz_to_centerline_csys(V))
    C.see("vectors", got, V)
    r.same("magnitude", np.linalg.norm(got, axis=1), np.linalg.norm(V, axis=1), 1e-12)
    r.same("vertical", got[:, 2], V[:, 2], 1e-13, scale=5)
    for k in range(len(V)):                                   # one vector alone converts as in the list
        r.rel("each", t.from_xyz_to_centerline_csys([V[k]])[0], got[k], 1e-13, scale=5)
    aft = ref.rodrigues(np.array([2.0, 0, 0]), [0, 0, 1], ref.rad(lw))
    C.see("aft", t.from_xyz_to_centerline_csys([aft])[0], aft)
    P = np.concatenate([V, V * ref.MIRROR])
    M, tot = t.calc_centerline_moments(P)
    C.see("moments", M, P)
    r.rel("moments-total", tot, np.asarray(M)[:len(V)].sum(axis=0), 1e-12, scale=100)
    C.done()
    r.true("angles", t.leeway_deg == lw and t.heel_deg == he, "attitude angles reported")
    r.outcome = digest(got)


def check(state, r):
    c = cases.config(state)
    why, g = cases.in_domain(c)
    if why:
        r.skip = why
        return
    verify(c, *cases.results(c), r)


def verify(c, ss, csys, v, R, hull, r):
    half = len(v.force) // 2
    C = Convention(c["leeway"], r)
    C.see("forces", R.F_centerline, v.force)
    C.see("panel-moments", R.M_centerline_csys, R.M_xyz)
    sF, sM = np.abs(v.force).sum(), np.abs(R.M_xyz).sum()
    r.same("force-total", R.F_centerline_total, np.asarray(R.F_centerline)[:half].sum(axis=0), 1e-11, scale=sF)
    r.same("moment-total", R.M_total_above_water_in_centerline_csys, np.asarray(R.M_centerline_csys)[:half].sum(axis=0), 1e-11, scale=sM)
    C.see("total-force", R.F_centerline_total, R.F_xyz_total, 1e-9)
    C.see("total-moment", R.M_total_above_water_in_centerline_csys, R.M_total_above_water_in_xyz_csys, 1e-9)
    C.see("keel-moment", R.M_centerline_csys_underwater_estimate_total, R.M_xyz_underwater_estimate_total, 1e-10)
    df = R.to_df_full()
    cog = np.stack([df[f"F_sails_COG.{k}"] for k in "xyz"], 1)
    C.see("reported-forces", np.stack([df[f"F_sails_COW.{k}"] for k in "xyz"], 1), cog)
    di = dict(zip(*[R.to_df_integral()[k] for k in ("Quantity", "Value")]))
    C.see("reported-total", [di[f"F_sails_total_COW.{k}"] for k in "xyz"], [di[f"F_sails_total_COG.{k}"] for k in "xyz"], 1e-9)
    ax = ("x (heel)", "y (pitch)", "z (yaw)")
    for q in ("M_sails_total", "M_keel_total", "M_total"):
        s = [di[f"{q}_COG.{k}"] for k in "xyz"]
        tol = 1e-9 if np.linalg.norm(s) > 1e-6 * sM else 1e-3
        C.see("reported-" + q, [di[f"{q}_COW.{k}"] for k in ax], s, tol)
        r.same("reported-yaw-sign", di[f"{q}_COW.z (yaw - JG sign)"], -di[f"{q}_COW.z (yaw)"], 1e-13)
    # angles: relative to the yacht's centreline they are smaller by the leeway
    r.same("angle-finite", df["AWA_fs_COW_deg"], df["AWA_fs_COG_deg"] - c["leeway"], 1e-11, scale=180)
    inlet = v.inlet_conditions.to_df_full(csys)
    r.same("angle-infinite", inlet["AWA_infs_COW_deg"], inlet["AWA_infs_COG_deg"] - c["leeway"], 1e-11, scale=180)
    C.done()
    r.outcome = digest(R.F_centerline)


def run(ctx):
    import pySailingVLM.solver.vlm, pySailingVLM.runner.sail, pySailingVLM.yacht_geometry.hull_geometry, pySailingVLM.results.inviscid_flow  # noqa: F401,E401
    lee = LEE + (list(range(-170, 180, 13)) if ctx.thorough else [])
    ctx.map("vectors", check_vectors, list(itertools.product(lee, HEEL, [(0, 0, 0), (1.0, -2.0, 3.0)])))
    st, tr = C01.space(ctx, ["leeway", "heel", "sails", "alpha"])
    st2, tr2 = cases.explore(list(cases.ROOTS), ["leeway", "heel", "ref", "clr", "sails"], 2)
    ctx.map("configurations", check, list(dict.fromkeys(st + st2)), tr + tr2)
