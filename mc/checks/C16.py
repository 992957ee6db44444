"""Refusals and acceptances: every single and paired omission or substitution of settings, for every wind profile and sail
set, through the library and through the command line."""
import copy, itertools, os, shutil, tempfile
import numpy as np
import boot, cases, clirun, ref
from engine import digest, retuple

NAN = float("nan")
COND = ["leeway_deg", "heel_deg", "SOG_yacht", "tws_ref", "alpha_true_wind_deg", "rho"]
NEEDED_PROFILE = {"exponential": ["wind_exp_coeff", "wind_reference_measurment_height", "reference_water_level_for_wind_profile"],
                  "logarithmic": ["roughness", "wind_reference_measurment_height"], "flat": []}
ALL_PROFILE = ["wind_exp_coeff", "wind_reference_measurment_height", "reference_water_level_for_wind_profile", "roughness"]
AGNOSTIC = {"flat": ["wind_exp_coeff", "wind_reference_measurment_height"], "exponential": [], "logarithmic": []}
RIG = ["sheer_above_waterline", "rake_deg"]
RIG_OF = {"jib": ["jib_luff", "foretriangle_height", "foretriangle_base", "mast_LOA"], "main": ["main_sail_luff", "boom_above_sheer"]}
TABLES = ["girths", "chords", "centerline_twist_deg", "camber", "camber_distance_from_luff"]
PARTS = {"jib": ["jib"], "main": ["main"], "jib_and_main": ["jib", "main"]}
ARGS = {"jib": "jib_sail_args", "main": "main_sail_args"}


def base(profile, sails, interp="linear", mesh=(2, 1)):
    c = cases.config(("cruiser", (("mesh", mesh), ("profile", profile), ("sails", sails), ("interp", interp), ("j_camber", "var"), ("m_camber", "var"))))
    return c, clirun.settings(c, "out")


def execute(s, twist=None):
    """Settings -> solution, through the library, in the order of the command line."""
    from pySailingVLM.runner import container as k
    from pySailingVLM.runner.sail import Wind, Sail
    from pySailingVLM.rotations.csys_transformations import CSYS_transformations
    from pySailingVLM.solver.vlm import Vlm
    from pySailingVLM.results.inviscid_flow import InviscidFlowResults
    co, so = k.Conditions(**s["conditions_args"]), k.Solver(**s["solver_args"])
    if twist:
        so.LLT_twist = twist[0]
    m = k.MainSail(**s["main_sail_args"]) if s["main_sail_args"] is not None else None
    j = k.JibSail(**s["jib_sail_args"]) if s["jib_sail_args"] is not None else None
    rig, cs = k.Rig(**s["rig_args"]), k.Csys(**s["csys_args"])
    T = CSYS_transformations(co.heel_deg, co.leeway_deg, v_from_original_xyz_2_reference_csys_xyz=cs.reference_level_for_moments)
    w = Wind(co)
    ss = Sail(so, rig, m, j, T).sail_set
    v = Vlm(ss.panels, so.n_chordwise, so.n_spanwise, co.rho, w.profile, ss.trailing_edge_info, ss.leading_edge_info)
    R = InviscidFlowResults(ss, T, v)
    return ss, v, R


def attempt(s, twist=None):
    """(result or None, why refused)"""
    try:
        return execute(s, twist), None
    except SystemExit as e:
        return None, "exit" if e.code not in (None, 0) else "exit-zero"
    except KeyboardInterrupt:
        raise
    except Exception as e:
        return None, type(e).__name__


def healthy(out):
    ss, v, R = out
    return bool(np.isfinite(v.force).all() and np.isfinite(v.gamma_magnitude).all() and np.isfinite(R.F_xyz_total).all())


def expect_refusal(r, s, what, twist=None, key="accepted"):
    out, why = attempt(s, twist)
    r.edges += 1
    if out is not None:
        r.bad(key, f"{what}: accepted, with {len(out[0].sails)} sail(s) {[x.name for x in out[0].sails]}, total force {np.asarray(out[2].F_xyz_total)}")
    r.true("exit-zero", why != "exit-zero", f"{what}: refused with exit status 0")
    r.outcome = digest([what, str(why)])


def expect_result(r, s, c, what, twist=None):
    out, why = attempt(s, twist)
    r.edges += 1
    if out is None:
        return r.bad("refused-valid", f"{what}: refused ({why})")
    ss, v, R = out
    g = ref.sail_set(c)
    r.true("sails-used", [x.name for x in ss.sails] == ref.sail_names(c), f"{what}: sails {[x.name for x in ss.sails]}")
    r.same("geometry-used", np.asarray(ss.panels), g["panels"], 1e-9, None, f"{what}: panels")
    V = ref.app_wind(c, np.abs(np.asarray(v.cp)[:, 2]))
    r.same("wind-used", np.asarray(v.inlet_conditions.V_app_infs), V, 1e-9, None, f"{what}: apparent wind")
    want = ref.vlm(g["panels"], *c["mesh"], lambda z: ref.app_wind(c, np.abs(z)), c["rho"], -1.0)
    if not want["edge"]:
        r.same("result", np.asarray(v.force), want["force"], 1e-8 + 1e-13 * want["cond"], np.abs(want["force"]).sum() + 1e-9, f"{what}: forces")
    r.outcome = digest(v.force)


def drop(s, name):
    s = copy.deepcopy(s)
    for part, key in name:
        if key is None:
            s[part] = None
        else:
            s[part][key] = None
    return s


def slots():
    return [("conditions_args", k) for k in COND + ALL_PROFILE] + [("rig_args", k) for k in RIG + RIG_OF["jib"] + RIG_OF["main"]] + \
        [(ARGS[p], k) for p in ("jib", "main") for k in TABLES] + [("csys_args", "reference_level_for_moments")] + \
        [("solver_args", k) for k in ("n_spanwise", "n_chordwise", "interpolation_type")] + [("rig_args", "sails_def"), ("conditions_args", "wind_profile")]


def need(slot, profile, sails):
    """True needed, False not needed, None not decided by the property."""
    part, k = slot
    if part == "conditions_args" and k in ALL_PROFILE:
        return None if k in AGNOSTIC[profile] else k in NEEDED_PROFILE[profile]
    for p in ("jib", "main"):
        if part == ARGS[p]:
            if k == "girths" and p not in PARTS[sails]:
                return None                          # stations of a default twist table
            if k == "centerline_twist_deg":
                return None if p in PARTS[sails] else False       # there is a documented default
            return p in PARTS[sails]
        if part == "rig_args" and k in RIG_OF[p]:
            return p in PARTS[sails]
    return True


def check_omission(it, r):
    profile, sails, interp, names = it
    c, s = base(profile, sails, interp, (2, 1))
    needs = [need(n, profile, sails) for n in names]
    what = f"{profile}, {sails}, {interp} without {names}"
    if any(n is True for n in needs):
        expect_refusal(r, drop(s, names), what)
    elif all(n is False for n in needs):
        expect_result(r, drop(s, names), c, what)
    else:
        out, why = attempt(drop(s, names))           # either; but never another wind or sail set
        if out is not None and not any(n[1] == "centerline_twist_deg" for n in names):      # the documented default twist applies
            expect_result(r, drop(s, names), c, what)
        elif out is not None:
            r.true("sails-used", [x.name for x in out[0].sails] == ref.sail_names(c), f"{what}: sails {[x.name for x in out[0].sails]}")


UNKNOWN = {
    "wind_profile": ("conditions_args", ["Exponential", "exp", "", None, "log", "flat ", "FLAT", 0, True, "exponential,flat", ["flat"], "uniform"]),
    "sails_def": ("rig_args", ["Jib", "main_and_jib", "", None, "genoa", "jib_main", "main sail", "jib_and_main ", 1, "MAIN", "jib,main", "both", "main_sail", "jibs"]),
    "interpolation_type": ("solver_args", ["cubic", "Linear", "", None, "splines", "spline ", 3, "quadratic", "nearest"]),
    "LLT_twist": (None, ["real", "", "average", "Real_twist", "sheeting_angle", 0, "const", "real_twist ", "sheeting_angle_const,average_const"]),
}


def check_unknown(it, r):
    profile, sails, interp, key, n = it
    c, s = base(profile, sails, interp, (2, 2))
    part, vals = UNKNOWN[key]
    if part is None:
        return expect_refusal(r, s, f"twist mode {vals[n]!r}", [vals[n]], "unknown-accepted")
    s[part][key] = vals[n]
    expect_refusal(r, s, f"{key} {vals[n]!r} ({profile}, {sails}, {interp})", None, "unknown-accepted")


def resize(t, how):
    t = np.asarray(t)
    if how == "one less":
        return t[:-1]
    if how == "first left out":
        return t[1:]
    if how == "one more":
        return np.append(t, t[-1])
    if how == "single":
        return t[:1]
    if how == "number":
        return float(t[0])
    if how == "empty":
        return t[:0]
    if how == "two rows":
        return np.stack([t, t])
    return np.repeat(t, 2)


SIZES = ["one less", "first left out", "one more", "single", "number", "empty", "two rows", "doubled"]


def check_unequal(it, r):
    sails, interp, mesh, changes = it
    c, s = base("exponential", sails, interp, mesh)
    for part, key, how in changes:
        s[ARGS[part]][key] = resize(s[ARGS[part]][key], how)
    what = f"{sails}, {interp}: {changes}"
    if any(p in PARTS[sails] for p, _, _ in changes):
        expect_refusal(r, s, what, None, "unequal-accepted")
    else:
        expect_result(r, s, c, what)


def tables(s, part, key, val, where):
    t = np.array(s[ARGS[part]][key], float)
    t[{"everywhere": slice(None), "foot": 0, "head": -1, "middle": len(t) // 2}[where]] = val
    s[ARGS[part]][key] = t
    return t


CAMBER = [(0.0, True), (0.3, True), (0.2999, True), (1e-6, True), (0.3001, False), (0.5, False), (-0.0001, False), (-0.1, False), (5.0, False), (NAN, False)]
PLACE = [(0.9, True), (0.0001, None), (0.05, True), (0.8999, True), (0.9001, False), (0.95, False), (1.0, False), (-0.0001, False), (-0.5, False), (50.0, False), (NAN, False)]


def check_airfoil_tables(it, r):
    """Camber and position at stations that are sections of the mesh."""
    sails, interp, mesh, part, key, n, where = it
    val, ok = (CAMBER if key == "camber" else PLACE)[n]
    c, s = base("exponential", sails, interp, mesh)
    if key != "camber":                              # only a cambered section has a position
        for p in ("jib", "main"):
            s[ARGS[p]]["camber"] = np.full(len(s[ARGS[p]]["camber"]), .05)
            c["tables"][p[0]]["camber"] = np.full(len(s[ARGS[p]]["camber"]), .05)
    t = tables(s, part, key, val, where)
    what = f"{sails}, {interp}, {part} {key} {val} {where}"
    if part not in PARTS[sails]:
        return expect_result(r, s, c, what)
    if ok is None:
        return
    if ok:
        c["tables"][part[0]][{"camber": "camber"}.get(key, "camdist")] = t
        d = ref.sections(c["interp"], c["tables"][part[0]]["girths"], t, c["mesh"][0])
        if d.min() < -1e-12 and d.min() > -1e-3 or d.max() > (.3 if key == "camber" else .9) + 1e-10 or d.min() < -1e-12:
            r.skip = "the interpolating curve leaves the range between stations"
            return
        return expect_result(r, s, c, what)
    expect_refusal(r, s, what, None, "out-of-range-accepted")


def check_airfoil(it, r):
    from pySailingVLM.thin_airfoil.vlm_airfoil import VlmAirfoil
    m, p, t, ok = it
    try:
        a = VlmAirfoil(m, p, t, 25)
        r.true("out-of-range-accepted", ok is not False, f"airfoil {it[:3]} accepted")
        if ok:
            r.true("finite", np.isfinite(np.concatenate([a.yc, a.yu, a.yl])).all(), f"airfoil {it[:3]} not finite")
            r.same("camber-used", np.asarray(a.yc), ref.camber_line(np.linspace(0, 1, 25), m, p), 1e-9, .3, f"airfoil {it[:3]}")
    except SystemExit as e:
        r.true("refused-valid", not ok, f"airfoil {it[:3]} refused")
        r.true("exit-zero", e.code not in (None, 0), "refused with exit status 0")
    except (ValueError, ZeroDivisionError):
        r.true("refused-valid", not ok, f"airfoil {it[:3]} refused")
    r.edges += 1
    r.outcome = digest(it)


def airfoils():
    M = [(0.0, 1), (1e-9, 1), (.07, 1), (.3, 1), (.30001, 0), (.31, 0), (-1e-5, 0), (-.3, 0), (3.0, 0), (NAN, 0), (float("inf"), 0)]
    P = [(.0, 1), (1e-4, 1), (.4, 1), (.9, 1), (.90001, 0), (1.0, 0), (-1e-5, 0), (4.0, 0), (NAN, 0)]
    T = [(0.0, 1), (1e-9, 1), (.12, 1), (.4, 1), (.40001, 0), (.5, 0), (-1e-5, 0), (12.0, 0), (NAN, 0)]
    return [(m, p, t, bool(a and b and c)) for m, a in M for p, b in P for t, c in T]


VALID = [("tws_ref", [.5, 25.0]), ("SOG_yacht", [0.0, 12.0]), ("alpha_true_wind_deg", [0.0, -60.0, 175.0, 400.0]), ("heel_deg", [0.0, -25.0, 45.0]),
         ("leeway_deg", [0.0, -9.0]), ("rho", [.01, 1025.0]), ("wind_exp_coeff", [0.0, 1.0]), ("wind_reference_measurment_height", [.5, 50.0]),
         ("reference_water_level_for_wind_profile", [-0.0, -3.0]), ("roughness", [1e-5, .4])]
ALIAS = dict(tws_ref="tws", SOG_yacht="SOG", alpha_true_wind_deg="alpha", heel_deg="heel", leeway_deg="leeway", rho="rho", wind_exp_coeff="expc",
             wind_reference_measurment_height="href", reference_water_level_for_wind_profile="wref", roughness="rough")


def check_valid(it, r):
    """Complete settings are used as given, whatever their kind of number."""
    profile, sails, interp, changes, kind = it
    c, s = base(profile, sails, interp, (3, 2))
    for k, v in changes:
        c[ALIAS[k]] = v
        s["conditions_args"][k] = int(v) if kind == "int" and float(v).is_integer() else np.float64(v) if kind == "numpy" else v
    why, g = cases.in_domain(c)
    if why:
        r.skip = why
        return
    if kind == "int":
        for part in ("jib", "main"):
            for key, name in (("chords", "chords"), ("centerline_twist_deg", "twist")):
                t = np.round(np.asarray(s[ARGS[part]][key])) + (1 if key == "chords" else 0)
                s[ARGS[part]][key] = t.astype(int)
                c["tables"][part[0]][name] = t
        for k in ("sheer_above_waterline", "boom_above_sheer", "rake_deg"):
            s["rig_args"][k] = int(round(s["rig_args"][k]))
        c["sheer"], c["boom"], c["rake"] = (float(s["rig_args"][k]) for k in ("sheer_above_waterline", "boom_above_sheer", "rake_deg"))
    if kind == "list":
        for part in ("jib", "main"):
            for key in TABLES:
                s[ARGS[part]][key] = np.array(list(s[ARGS[part]][key]))
    expect_result(r, s, c, f"{it}")


def check_left_out(it, r):
    """Settings of an absent sail left out altogether (None instead of the sail)."""
    sails, what = it
    c, s = base("exponential", sails)
    absent = "jib" if sails == "main" else "main"
    s[ARGS[absent]] = None
    if what == "rig too":
        for k in RIG_OF[absent]:
            s["rig_args"][k] = None
    expect_result(r, s, c, f"{sails} without {absent} ({what})")


def check_needed_sail(it, r):
    sails, missing = it
    c, s = base("exponential", sails)
    s[ARGS[missing]] = None
    expect_refusal(r, s, f"{sails} without any {missing} settings")


def check_cli(it, r):
    """The same through the command line: nonzero exit status and no result files."""
    profile, sails, kind, arg = it
    c, s = base(profile, sails, "linear", (2, 1))
    d = tempfile.mkdtemp(dir=boot.SCRATCH)
    try:
        s["output_args"]["name"] = os.path.join(d, "out")
        if kind == "omit":
            s = drop(s, arg)
        elif kind == "unknown":
            s[UNKNOWN[arg[0]][0]][arg[0]] = UNKNOWN[arg[0]][1][arg[1]]
        elif kind == "size":
            s[ARGS[arg[0]]][arg[1]] = resize(s[ARGS[arg[0]]][arg[1]], arg[2])
        elif kind == "range":
            tables(s, arg[0], arg[1], arg[2], arg[3])
        clirun.write(os.path.join(d, "case"), s)
        o = clirun.run(["-dv", os.path.join(d, "case")], d)
        if kind == "fine":
            r.true("refused-valid", o.status == 0 and os.path.isfile(os.path.join(d, "out", "results.xlsx")), f"valid case refused: {o.error} {o.out[-200:]}")
        else:
            left = [f for _, _, fs in os.walk(os.path.join(d, "out")) for f in fs] if os.path.isdir(os.path.join(d, "out")) else []
            r.true("accepted", o.status != 0, f"{it}: exit status 0")
            r.true("results-before-refusal", not left, f"{it}: files {left} were written")
        r.edges += 1
        r.outcome = digest([str(it), o.status])
    finally:
        shutil.rmtree(d, ignore_errors=True)


def run(ctx):
    import pySailingVLM.runner.cli  # noqa: F401
    S = slots()
    om = []
    for p in NEEDED_PROFILE:
        for s in PARTS:
            om += [(p, s, i, (n,)) for n in S for i in ("linear", "spline")]
            pairs = itertools.combinations(S, 2)
            om += [(p, s, "linear", x) for x in pairs if ctx.thorough or sum(need(n, p, s) is True for n in x) == 0 or
                   all(n[1] in ALL_PROFILE or n[1] in RIG_OF["jib"] + RIG_OF["main"] + TABLES for n in x) and (p, s) in (("exponential", "jib_and_main"), ("logarithmic", "main"))]
    ctx.map("omissions", check_omission, om, sum(len(x[3]) for x in om))
    un = [(p, s, i, k, n) for p in NEEDED_PROFILE for s in PARTS for i in ("linear", "spline") for k in UNKNOWN for n in range(len(UNKNOWN[k][1]))
          if not (k == "sails_def" and s != "jib_and_main") and not (k == "wind_profile" and p != "flat") and not (k == "interpolation_type" and i != "linear")]
    ctx.map("unknown names", check_unknown, un)
    ue = [(s, i, m, ((p, k, h),)) for s in PARTS for i in ("linear", "spline") for m in ((2, 1), (4, 2)) for p in ("jib", "main") for k in TABLES for h in SIZES]
    if ctx.thorough:
        ue += [("jib_and_main", "linear", (2, 1), ((p, k, h), (p2, k2, h2))) for p in ("jib", "main") for p2 in ("jib", "main") for k in TABLES for k2 in TABLES
               for h in SIZES[:4] for h2 in SIZES[:4] if (p, k) != (p2, k2)]
    ctx.map("unequal tables", check_unequal, ue)
    af = [(s, i, m, p, k, n, w) for s in PARTS for i in ("linear", "spline") for m in ((2, 2), (4, 1)) for p in ("jib", "main") for k in ("camber", "camber_distance_from_luff")
          for n in range(len(CAMBER if k == "camber" else PLACE)) for w in ("everywhere", "foot", "head", "middle") if i == "linear" or w in ("everywhere", "foot")]
    ctx.map("airfoil ranges in tables", check_airfoil_tables, af)
    ctx.map("airfoil ranges", check_airfoil, airfoils())
    va = [(p, s, i, ch, k) for p in NEEDED_PROFILE for s in PARTS for i in ("linear", "spline") for k in ("float", "int", "numpy", "list")
          for ch in [()] + [((n, v),) for n, vs in VALID for v in vs] if k == "float" or not ch or ch[0][0] in ("tws_ref", "heel_deg")]
    if ctx.thorough:
        va += [(p, s, "linear", ((a, x), (b, y)), "float") for p in NEEDED_PROFILE for s in PARTS for (a, vs), (b, ws) in itertools.combinations(VALID, 2) for x in vs for y in ws]
    ctx.map("complete settings", check_valid, va)
    ctx.map("absent sail left out", check_left_out, [(s, w) for s in ("jib", "main") for w in ("sail", "rig too")])
    ctx.map("needed sail left out", check_needed_sail, [("jib", "jib"), ("main", "main"), ("jib_and_main", "jib"), ("jib_and_main", "main")])
    cl = [(p, s, "fine", None) for p in NEEDED_PROFILE for s in PARTS]
    for p, s in [("exponential", "jib_and_main"), ("logarithmic", "main"), ("flat", "jib")] if not ctx.thorough else itertools.product(NEEDED_PROFILE, PARTS):
        cl += [(p, s, "omit", (n,)) for n in S if need(n, p, s) is True]
    cl += [("flat", "jib_and_main", "unknown", (k, n)) for k in ("wind_profile", "sails_def", "interpolation_type") for n in range(len(UNKNOWN[k][1]))]
    cl += [("exponential", "jib_and_main", "size", (p, k, h)) for p in ("jib", "main") for k in TABLES for h in (SIZES if ctx.thorough else SIZES[:2])]
    cl += [("exponential", s, "range", (s, k, v, "foot")) for s in ("jib", "main") for k, v in (("camber", .3001), ("camber", -.01), ("camber_distance_from_luff", .9001), ("camber_distance_from_luff", -.01))]
    ctx.map("command line", check_cli, cl)
    ctx.assumptions += ["a missing value is None (a key left out of a settings dictionary takes the container's documented default)",
                        "whether flat wind needs an exponent or a height is left open", "tables have at least four stations (needed by the spline)"]
