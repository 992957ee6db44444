"""Statics: totals, per-sail totals, moments about every reference point of the alphabet, centre of effort, keel."""
import numpy as np
import cases, ref, rigs
from engine import digest
from checks import C01

REFS = [(0, 0, 0), (2.1, 0, 0), (0, 1.3, 0), (0, 0, 2.9), (-1.4, .6, 1.7), (-30.0, 12.0, 25.0), (.3, -.2, -1.5), (400.0, -900.0, 60.0)]


def arms(cp, at):
    """Moment arms: from the reference point for above-water panels, from its mirror image for mirrored ones."""
    at = np.asarray(at, float)
    return cp - np.where((cp[:, 2] > 0)[:, None], at, at * ref.MIRROR)


def verify(c, ss, csys, v, r, names=True):
    from pySailingVLM.results.inviscid_flow import InviscidFlowResults
    from pySailingVLM.rotations.csys_transformations import CSYS_transformations
    from pySailingVLM.yacht_geometry.hull_geometry import HullGeometry
    F, cp = np.asarray(v.force), np.asarray(v.cp)
    half = len(F) // 2
    n = c["mesh"][0] * c["mesh"][1]
    sF = np.abs(F).sum(axis=0).max()
    clr = ref.attitude(np.array(c["clr"], float), c["heel"], c["leeway"])
    Ft = F[:half].sum(axis=0)
    ces, sums = [], []
    for at in [c["ref"]] + [a for a in REFS if tuple(a) != tuple(c["ref"])]:
        t = CSYS_transformations(c["heel"], c["leeway"], v_from_original_xyz_2_reference_csys_xyz=np.array(at))
        R = InviscidFlowResults(ss, t, v)
        hull = HullGeometry(c["sheer"], c["fore_b"], t, np.array(c["clr"]))
        for q in ((0.4, -0.1, -1.9), clr, (-2.0, 0.7, -0.3)):                # keels compared on the same results
            q = np.array(q, float)
            R.estimate_heeling_moment_from_keel(q.copy())
            r.same("keel-again", R.M_xyz_underwater_estimate_total, np.cross(q - np.array(at, float), -Ft), 1e-10,
                   scale=1e-300 + sF * (np.linalg.norm(q - np.array(at, float)) + 1), what="a further keel on the same results")
        R.estimate_heeling_moment_from_keel(hull.center_of_lateral_resistance)
        arm = arms(cp, at)
        M = np.cross(arm, F)
        sM = (np.linalg.norm(arm, axis=1) * np.linalg.norm(F, axis=1)).sum() + 1e-300
        r.same("panel-forces", R.F_xyz, F, 0)
        r.same("total-force", R.F_xyz_total, Ft, 1e-11, scale=sF)
        r.same("above-forces", R.F_xyz_above_water, F[:half], 0)
        r.same("panel-moments", R.M_xyz, M, 1e-11, scale=sM)
        Mt = M[:half].sum(axis=0)
        r.same("total-moment", R.M_total_above_water_in_xyz_csys, Mt, 1e-11, scale=sM)
        # per sail, by name
        if names:
            want = {}
            for i, s in enumerate(ss.sails):
                for q, vec in (("F", F[i * n:(i + 1) * n].sum(axis=0)), ("M", M[i * n:(i + 1) * n].sum(axis=0))):
                    for k, ax in enumerate("xyz"):
                        want[f"{q}_{s.name}_total_COG.{ax}"] = vec[k]
            r.true("sail-names", set(R.dyn_dict) == set(want), f"per-sail totals {sorted(R.dyn_dict)} expected {sorted(want)}")
            for k in want:
                r.same("sail-totals", R.dyn_dict.get(k, np.nan), want[k], 1e-11, scale=sF if k[0] == "F" else sM, what=k)
        # keel
        K = R.M_xyz_underwater_estimate_total
        r.same("keel", K, np.cross(clr - np.array(at, float), -Ft), 1e-10, scale=sM + np.linalg.norm(Ft) * 30)
        # the reported list carries these vectors, whatever their size
        if names:
            tab = R.to_df_integral()
            r.true("report-once", tab["Quantity"].is_unique, "a quantity is reported twice")
            tab = dict(zip(tab["Quantity"], tab["Value"]))
            sK = sM + np.linalg.norm(Ft) * 30
            for q, vec, s in (("F_sails_total", Ft, sF), ("M_sails_total", Mt, sM), ("M_keel_total", K, sK), ("M_total", Mt + np.asarray(K), sK)):
                for k, ax in enumerate("xyz"):
                    r.same("reported", tab.get(f"{q}_COG.{ax}", np.nan), vec[k], 1e-10, scale=s, what=q)
            for k in want:
                r.same("reported-per-sail", tab.get(k, np.nan), want[k], 1e-11, scale=sF if k[0] == "F" else sM, what=k)
        sums.append((np.asarray(R.M_total_above_water_in_xyz_csys) + np.asarray(K), sM + np.linalg.norm(Ft) * 30))
        # centre of effort
        if np.linalg.norm(Ft) > 1e-6 * sF:
            ce = np.asarray(R.above_water_centre_of_effort_estimate_xyz, float)
            f = Ft / np.linalg.norm(Ft)
            r.same("centre-moment", np.cross(ce - np.array(at, float), Ft), Mt - f * np.dot(f, Mt), 1e-10, scale=sM)
            r.same("centre-along", np.dot(ce - np.array(at, float), Ft), np.einsum("ij,ij", arm[:half], F[:half]), 1e-10, scale=sM)
            ces.append((ce, sM / np.linalg.norm(Ft)))
    for (a, s), (b, s2) in zip(sums, sums[1:]):
        r.rel("sum-invariant", b, a, 1e-10, scale=max(s, s2))
    for (a, s), (b, s2) in zip(ces, ces[1:]):
        r.rel("centre-invariant", b, a, 1e-10, scale=max(s, s2))
    r.evals = len(REFS)
    r.outcome = digest(Ft / (sF + 1e-300), Mt / sM)
    r.sample = dict(force=Ft, moment=Mt)


def check(state, r):
    c = cases.config(state)
    why, g = cases.in_domain(c)
    if why:
        r.skip = why
        return
    ss, csys, v = cases.solve(c)
    verify(c, ss, csys, v, r)


def check_composed(it, r):
    order, state = it
    c = cases.config(state)
    for o in order:
        why, g = cases.in_domain(rigs.variant(c, o))
        if why:
            r.skip = why
            return
    ss, csys = rigs.compose(c, order)
    verify(c, ss, csys, C01.make_vlm(c, ss), r, names=len({s.name for s in ss.sails}) == len(order))


def check_vector(it, r):
    """The vector with a given dot and cross product."""
    from pySailingVLM.solver.forces import determine_vector_from_its_dot_and_cross_product as solve
    a, F, k = (np.array(x, float) if not np.isscalar(x) else x for x in it)
    F = F * k
    got = np.asarray(solve(F, np.dot(a, F), np.cross(a, F)))
    r.same("recovered", got, a, 1e-10, scale=np.linalg.norm(a) + 1e-12)
    r.outcome = digest(got)


def run(ctx):
    import itertools
    import pySailingVLM.solver.vlm, pySailingVLM.runner.sail, pySailingVLM.yacht_geometry.hull_geometry, pySailingVLM.results.inviscid_flow  # noqa: F401,E401
    st, tr = C01.space(ctx, ["mesh", "sails", "heel", "leeway", "alpha", "profile"])
    more, tr2 = cases.explore(list(cases.ROOTS), ["ref", "clr", "sails", "heel", "leeway"], ctx.q(2, 3))
    ctx.map("configurations", check, list(dict.fromkeys(st + more)), tr + tr2)
    ctx.map("composed sail sets", check_composed, C01.composed(ctx))
    L = [-2.0, 0.0, .7]
    vs = [v for v in itertools.product(L, L, L)]
    ctx.map("vector from products", check_vector, [(a, F, k) for a in vs for F in vs if any(F) for k in (1.0, 1e-3, 250.0)])
    ctx.assumptions += ["centre of effort only where the total force is not negligible", "per-sail totals where the sails' names differ"]
