"""Wind laws on a grid of settings and heights; winds at the panels over the configuration graph."""
import itertools
import numpy as np
import cases, ref
from engine import digest
from checks import C01

HEIGHTS = [.03, .4, 1.0, 2.5, 7.7, 10.0, 25.0, 60.0, 150.0, 450.0, 1200.0]
ALPHAS = [0.0, 12.0, 50.0, 90.0, 95.0, 163.0, 180.0, -40.0, -128.0, -90.0, 245.0, 359.0, 400.0]


def ang(a):
    """Angle folded to (-180, 180]."""
    return -((-np.asarray(a, float) + 180.0) % 360.0 - 180.0)


def same_angle(r, key, got, V, shift=0.0):
    """got is the direction of V (from +x towards +y) minus shift, exactly in (-180,180] before the shift."""
    want = np.degrees(np.arctan2(V[:, 1], V[:, 0]))
    got = np.asarray(got, float) + shift
    d = np.abs(got - want)
    d = np.where(np.abs(np.abs(want) - 180) < 1e-6, np.minimum(d, np.abs(d - 360)), d)   # +180 and -180 are the same there
    r.true(key, np.isfinite(got).all() and (d < 1e-7).all(), f"angle {got[np.argmax(d)]}, direction {want[np.argmax(d)]}")


def classes(c):
    from pySailingVLM.inlet.winds import ExpWindProfile, FlatWindProfile, LogWindProfile
    if c["profile"] == "flat":
        return FlatWindProfile(c["alpha"], c["tws"], c["SOG"])
    if c["profile"] == "logarithmic":
        return LogWindProfile(c["alpha"], c["tws"], c["SOG"], roughness=c["rough"], reference_measurment_height=c["href"])
    return ExpWindProfile(c["alpha"], c["tws"], c["SOG"], exp_coeff=c["expc"], reference_measurment_height=c["href"],
                          reference_water_level_for_wind_profile=c["wref"])


def check_law(it, r):
    alpha, tws, sog, (profile, expc, wref, href, rough) = it
    c = dict(alpha=alpha, tws=tws, SOG=sog, profile=profile, expc=expc, wref=wref, href=href, rough=rough)
    full = cases.finish(dict(cases.ROOTS["cruiser"], **c))
    for w, how in ((classes(c), "class"), (cases.build_wind(full), "settings")):
        out = []
        for h in HEIGHTS:
            if profile == "exponential" and h <= wref or profile == "logarithmic" and h <= rough:
                continue
            t = np.asarray(w.get_true_wind_speed_at_h(h))
            want = ref.true_wind(c, h)
            r.same("true-wind", t, want, 1e-11, scale=np.linalg.norm(want) + 1e-12, what=f"{how} {c} at {h}")
            a = np.asarray(w.get_app_infs_at_h(t))
            r.same("apparent-wind", a, want + [sog, 0, 0], 1e-11, scale=np.linalg.norm(want) + sog + 1e-12)
            if np.linalg.norm(a) > 1e-6:
                got = np.degrees(w.get_app_alfa_infs_at_h(t))
                d = abs(ang(got - np.degrees(np.arctan2(a[1], a[0]))))
                r.true("apparent-angle", d < 1e-5, f"apparent angle {got} for {a}")
            out += [t, a]
            r.evals += 1
        if profile != "exponential" or wref == 0:
            r.same("reference-height", np.linalg.norm(w.get_true_wind_speed_at_h(href)), tws, 1e-11)
        elif href + wref > 0:
            r.same("reference-height", np.linalg.norm(w.get_true_wind_speed_at_h(href + wref)), tws, 1e-11)
        for k in (2.0, .25):       # transitions: the law is proportional to the reference speed
            w2 = classes(dict(c, tws=k * tws))
            h = HEIGHTS[4]
            r.rel("proportional", w2.get_true_wind_speed_at_h(h), k * np.asarray(w.get_true_wind_speed_at_h(h)), 1e-11)
        r.outcome = digest(*out)


def check_default_parameters(it, r):
    from pySailingVLM.inlet.winds import ExpWindProfile, LogWindProfile
    alpha, tws, sog = it
    for w, c in ((ExpWindProfile(alpha, tws, sog), dict(profile="exponential", expc=.1428, wref=0., href=10.)),
                 (LogWindProfile(alpha, tws, sog), dict(profile="logarithmic", rough=.05, href=10.))):
        for h in HEIGHTS[1:]:
            r.same("default", w.get_true_wind_speed_at_h(h), ref.true_wind(dict(c, alpha=alpha, tws=tws), h), 1e-11)


def inlet(c, ic, cp, r, leeway_csys):
    h = np.abs(cp[:, 2])
    T, V = ref.true_wind(c, h), ref.app_wind(c, h)
    s = np.abs(T).max()
    r.same("panel-true-wind", ic.tws_at_cp, T, 1e-9, scale=s)
    r.same("panel-apparent-wind", ic.V_app_infs, V, 1e-9, scale=np.abs(V).max())
    r.same("true-length", ic.tws_length_at_ctr_points, np.linalg.norm(T, axis=1), 1e-9)
    r.same("apparent-length", ic.V_app_infs_length, np.linalg.norm(V, axis=1), 1e-9)
    same_angle(r, "panel-angle", ic.AWA_infs_deg, np.asarray(ic.V_app_infs))
    r.same("panel-points", ic.cp_points, cp, 1e-12, scale=10)
    df = ic.to_df_full(leeway_csys)
    cols = {"cp_points_COG": cp, "TWS_COG": T, "V_app_infs_COG": V}
    for nm, A in cols.items():
        for k, x in enumerate("xyz"):
            r.same("table", df[f"{nm}.{x}"].values, A[:, k], 1e-9, scale=np.abs(A).max(), what=f"{nm}.{x}")
    r.same("table", df["TWS_length"].values, np.linalg.norm(T, axis=1), 1e-9)
    r.same("table", df["V_app_infs_length"].values, np.linalg.norm(V, axis=1), 1e-9)
    same_angle(r, "table-angle", df["AWA_infs_COG_deg"].values, V)
    same_angle(r, "table-angle-centreline", df["AWA_infs_COW_deg"].values, V, c["leeway"])
    r.outcome = digest(V)


def check_panels(state, r):
    from pySailingVLM.inlet.inlet_conditions import InletConditions
    c = cases.config(state)
    why, g = cases.in_domain(c)
    if why:
        r.skip = why
        return
    from pySailingVLM.rotations.csys_transformations import CSYS_transformations
    cp = ref.lattice(g["panels"], *c["mesh"], 1.0)["cp"]
    inlet(c, InletConditions(cases.build_wind(c), c["rho"], cp.copy()), cp, r, CSYS_transformations(c["heel"], c["leeway"]))


def check_solved(state, r):
    """Winds used and reported by a solved case, including the finite-sail apparent angle and the reference height."""
    c = cases.config(state)
    why, g = cases.in_domain(c)
    if why:
        r.skip = why
        return
    ss, csys, v, res, hull = cases.results(c)
    inlet(c, v.inlet_conditions, np.asarray(v.cp), r, csys)
    same_angle(r, "finite-angle", np.degrees(res.AWA_app_fs), np.asarray(v.V_app_fs_at_cp))
    df = res.to_df_full()
    same_angle(r, "finite-angle-table", df["AWA_fs_COG_deg"].values, np.asarray(v.V_app_fs_at_cp))
    same_angle(r, "finite-angle-centreline", df["AWA_fs_COW_deg"].values, np.asarray(v.V_app_fs_at_cp), c["leeway"])
    r.same("lengths", res.V_app_fs_length, np.linalg.norm(v.V_app_fs_at_cp, axis=1), 1e-10)
    r.same("induced-lengths", res.V_induced_length, np.linalg.norm(v.V_induced_at_cp, axis=1), 1e-10)
    if c["profile"] == "exponential" and c["href"] > c["wref"]:
        t = dict(v.inlet_conditions.winds.to_df_integral(csys).values.tolist())
        T, V = ref.true_wind(c, c["href"]), ref.app_wind(c, c["href"])
        for k, x in enumerate("xyz"):
            r.same("reference-true", t[f"TWS_at_reference_height_COG.{x}"], T[k], 1e-9, scale=np.linalg.norm(T))
            r.same("reference-apparent", t[f"V_app_infs_at_reference_height_COG.{x}"], V[k], 1e-9, scale=np.linalg.norm(V))
        r.same("reference-lengths", [t["TWS_length_at_reference_height"], t["V_app_infs_length_at_reference_height_COG"]],
               [np.linalg.norm(T), np.linalg.norm(V)], 1e-9)
        same_angle(r, "reference-angle", [t["AWA_infs_at_reference_height_COG_deg"]], V[None])
        same_angle(r, "reference-angle-centreline", [t["AWA_infs_at_reference_height_COW_deg"]], V[None], c["leeway"])
        r.same("reference-height", [t["Reference_measurement_height"], t["Reference_water_level_for_wind_profile"]],
               [c["href"], c["wref"]], 1e-12, scale=10)


def run(ctx):
    import pySailingVLM.solver.vlm, pySailingVLM.runner.sail, pySailingVLM.results.inviscid_flow, pySailingVLM.yacht_geometry.hull_geometry  # noqa: F401,E401
    par = [("flat", 0., 0., 10., .05), ("flat", .3, -1., 4., .01)] + \
        [("logarithmic", 0, 0, hr, ro) for hr in (10., 2.5, 25.) for ro in (.05, .0002, .3)] + \
        [("exponential", e, w, hr, .05) for e in (.1428, 0., .35, 1.0) for w in (0., -.9, .25, -2.5) for hr in (10., 2.5, 1.0)]
    ctx.map("laws", check_law, list(itertools.product(ALPHAS, (4.63, .7, 16., .01), (0.0, 4.63, 9.5), par)))
    ctx.map("default parameters", check_default_parameters, list(itertools.product(ALPHAS, (4.63, .7), (0., 5.))))
    var = cases.WIND + ["mesh", "sails", "leeway", "heel", "rake", "sheer", "mluff"]
    st, tr = cases.explore(list(cases.ROOTS), var, 2)
    if ctx.thorough:
        s3, t3 = cases.explore(["cruiser"], cases.WIND + ["leeway", "heel"], 3)
        st, tr = list(dict.fromkeys(st + s3)), tr + t3
    ctx.map("panels", check_panels, st, tr)
    st, tr = cases.explore(["cruiser", "skiff"] if not ctx.thorough else list(cases.ROOTS), cases.WIND + ["leeway", "heel", "sails", "mesh"], ctx.q(1, 2))
    s2, t2 = cases.explore(["cruiser"], ["profile", "alpha", "leeway", "SOG", "tws"], 2)
    ctx.map("solved cases", check_solved, list(dict.fromkeys(st + s2)), tr + t2)
