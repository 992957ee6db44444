"""Reports: every cell of the component, integral and inlet tables and of the workbook, against the computed results."""
import itertools, os, shutil, tempfile
import numpy as np
import boot, cases, ref, rigs
from engine import digest
from checks import C01

AX = "xyz"


def angle(V):
    return np.degrees(np.arctan2(V[:, 1], V[:, 0]))


def upright(p, heel, leeway):
    """Sailing attitude -> upright, for points above the water."""
    p = ref.rodrigues(p, [0, 0, 1], -ref.rad(leeway))
    return ref.rodrigues(p, [1, 0, 0], ref.rad(heel))


def expected_components(c, ss, csys, v, R):
    """Column -> values over the above-water panels, in panel order."""
    half = len(v.force) // 2
    n = c["mesh"][0] * c["mesh"][1]
    h = lambda a: np.asarray(a)[:half]
    cp = h(v.cp)
    inlet = v.inlet_conditions
    d = {"Circulation_magnitude": h(v.gamma_magnitude), "Pressure": h(v.pressure)}

    def vec(name, a):
        for k, x in enumerate(AX):
            d[f"{name}.{x}"] = h(a)[:, k]
    vec("V_induced_COG", v.V_induced_at_cp)
    d["V_induced_length"] = np.linalg.norm(h(v.V_induced_at_cp), axis=1)
    vec("V_app_fs_COG", v.V_app_fs_at_cp)
    d["V_app_fs_length"] = np.linalg.norm(h(v.V_app_fs_at_cp), axis=1)
    d["AWA_fs_COG_deg"] = angle(h(v.V_app_fs_at_cp))
    d["AWA_fs_COW_deg"] = d["AWA_fs_COG_deg"] - c["leeway"]
    vec("F_sails_COG", v.force)
    vec("M_sails_COG", np.cross(np.asarray(v.cp) - np.array(c["ref"]), v.force))
    vec("F_sails_COW", csys.from_xyz_to_centerline_csys(v.force))
    vec("cp_points_COG", v.cp)
    T = ref.true_wind(c, np.abs(np.asarray(v.cp)[:, 2]))
    vec("TWS_COG", T)
    d["TWS_length"] = np.linalg.norm(h(T), axis=1)
    V = T + [c["SOG"], 0, 0]
    vec("V_app_infs_COG", V)
    d["V_app_infs_length"] = np.linalg.norm(h(V), axis=1)
    d["AWA_infs_COG_deg"] = angle(h(V))
    d["AWA_infs_COW_deg"] = d["AWA_infs_COG_deg"] - c["leeway"]
    up = upright(cp, c["heel"], c["leeway"])[:, 2]
    d["cp_points_upright.z"] = up
    g = np.zeros(half)
    for i, s in enumerate(ss.sails):
        z = up[i * n:(i + 1) * n]
        t = s.tack_mounting[2]
        g[i * n:(i + 1) * n] = (z - t) / (z.max() - t)
    d["girths"] = g
    d["sail_name"] = np.array([s.name for s in ss.sails for _ in range(n)], dtype=object)
    return d


def expected_integrals(c, ss, csys, v, R, keel):
    half = len(v.force) // 2
    n = c["mesh"][0] * c["mesh"][1]
    F = np.asarray(v.force)[:half]
    M = np.cross(np.asarray(v.cp)[:half] - np.array(c["ref"]), F)
    cl = lambda x: np.asarray(csys.from_xyz_to_centerline_csys(np.array([x])))[0]
    clr = ref.attitude(np.array(c["clr"], float), c["heel"], c["leeway"])
    d = {}

    def put(name, a, moment):
        for k, x in enumerate(AX):
            d[f"{name}_COG.{x}"] = a[k]
        b = cl(a)
        for k, x in enumerate(("x (heel)", "y (pitch)", "z (yaw)") if moment else AX):
            d[f"{name}_COW.{x}"] = b[k]
        if moment:
            d[f"{name}_COW.z (yaw - JG sign)"] = -b[2]
    put("F_sails_total", F.sum(0), False)
    put("M_sails_total", M.sum(0), True)
    if keel:
        K = np.cross(clr - np.array(c["ref"]), -F.sum(0))
        put("M_keel_total", K, True)
        put("M_total", M.sum(0) + K, True)
    for i, s in enumerate(ss.sails):
        for q, X in (("F", F), ("M", M)):
            for k, x in enumerate(AX):
                d[f"{q}_{s.name}_total_COG.{x}"] = X[i * n:(i + 1) * n].sum(0)[k]
    return d, np.abs(F).sum() * 1.0, (np.linalg.norm(np.asarray(v.cp)[:half] - np.array(c["ref"]), axis=1) * np.linalg.norm(F, axis=1)).sum() + np.abs(F).sum() * 3


def expected_inlet(c):
    if c["profile"] != "exponential":
        return None
    T = ref.true_wind(c, np.array([float(c["href"])]))
    V = T + [c["SOG"], 0, 0]
    d = {"Reference_measurement_height": c["href"], "Reference_water_level_for_wind_profile": c["wref"],
         "TWS_length_at_reference_height": np.linalg.norm(T), "V_app_infs_length_at_reference_height_COG": np.linalg.norm(V),
         "AWA_infs_at_reference_height_COG_deg": angle(V)[0], "AWA_infs_at_reference_height_COW_deg": angle(V)[0] - c["leeway"]}
    for k, x in enumerate(AX):
        d[f"TWS_at_reference_height_COG.{x}"] = T[0, k]
        d[f"V_app_infs_at_reference_height_COG.{x}"] = V[0, k]
    return d


def scale_of(col, d, v):
    if col.startswith(("V_", "TWS")):
        return max(np.abs(v.inlet_conditions.V_app_infs).max(), np.abs(v.V_induced_at_cp).max())
    if "deg" in col:
        return 180.0
    if col.startswith("M_"):
        return max(np.abs(d[f"M_sails_COG.{x}"]).max() for x in AX) + 1e-12
    if col.startswith("F_"):
        return np.abs(v.force).max() + 1e-12
    if col.startswith(("cp_points", "girths")):
        return 20.0
    return None


def check_tables(c, ss, csys, v, R, keel, r):
    import pandas as pd
    half = len(v.force) // 2
    want = expected_components(c, ss, csys, v, R)
    tabs = [R.to_df_full(), v.inlet_conditions.to_df_full(csys)]
    for t in tabs:
        r.true("panel-rows", len(t) == 2 * half, f"{len(t)} rows for {2 * half} panels")
        for col in t.columns:
            if col in want:
                compare_col(r, "panel-table", t[col].to_numpy()[:half], want[col], col, want, v)
    cols = {x for t in tabs for x in t.columns}
    need = set(want) - {"cp_points_upright.z", "girths", "sail_name"}
    r.true("panel-columns", cols == need, f"columns missing {sorted(need - cols)}, unexpected {sorted(cols - need)}")
    wi, sF, sM = expected_integrals(c, ss, csys, v, R, keel)
    di = R.to_df_integral()
    check_integrals(r, "integral", di, wi, sF, sM)
    we = expected_inlet(c)
    dw = v.inlet_conditions.winds.to_df_integral(csys)
    if we is not None:
        check_integrals(r, "inlet", dw, we, 30.0, 30.0)
    return want, wi, we, sF, sM, di, dw


def check_integrals(r, key, df, want, sF, sM, tol=1e-10, absolute=0.0):
    r.true(key + "-columns", list(df.columns) == ["Quantity", "Value"], f"columns {list(df.columns)}")
    got = dict(zip(df["Quantity"], df["Value"]))
    r.true(key + "-rows", len(got) == len(df) and set(got) == set(want), f"{key}: missing {sorted(set(want) - set(got))}, unexpected {sorted(set(got) - set(want))}")
    for k in want:
        if k in got:
            s = sF if k[0] == "F" else sM
            d = abs(float(got[k]) - float(want[k]))
            if k.startswith("AWA") or "deg" in k:
                s = 180.0
            r.true(key + "-value", d <= tol * s + absolute, f"{key} {k}: {got[k]} expected {want[k]}")


def compare_col(r, key, got, want, col, d, v, absolute=0.0):
    if want.dtype == object:
        r.true(key + "-names", [str(x) for x in got] == [str(x) for x in want], f"{col}: {list(got)} expected {list(want)}")
        return
    s = scale_of(col, d, v)
    s = np.abs(want).max() + 1e-12 if s is None else s
    got = np.asarray(got, float)
    dd = np.abs(got - want)
    if col.startswith("AWA") and "COG" in col or col.startswith("AWA"):
        dd = np.minimum(dd, np.abs(dd - 360.0) + 1e-12) if (np.abs(np.abs(want) % 360 - 180) < 1e-6).any() else dd
    r.true(key, got.shape == want.shape and np.isfinite(got).all() and (dd <= 1e-9 * s + absolute).all(),
           f"{key} column {col}: {got[np.argmax(dd)] if got.shape == want.shape else got.shape} expected {want[np.argmax(dd)] if got.shape == want.shape else want.shape}")


def read_workbook(path):
    import openpyxl
    wb = openpyxl.load_workbook(path)
    return {n: [[x.value for x in row] for row in wb[n].iter_rows()] for n in wb.sheetnames}


def check_book(r, path, want, wi, we, sF, sM, dw, v):
    r.true("workbook-exists", os.path.isfile(path), f"no workbook at {path}: {os.listdir(os.path.dirname(path)) if os.path.isdir(os.path.dirname(path)) else 'no folder'}")
    if not os.path.isfile(path):
        return
    b = read_workbook(path)
    r.true("sheets", sorted(b) == ["Components", "IC_at_reference_height", "Integrals"], f"sheets {list(b)}")
    t = b.get("Components", [[]])
    r.true("sheet-columns", sorted(map(str, t[0])) == sorted(want), f"columns {sorted(set(map(str, t[0])) ^ set(want))}")
    nrow = len(next(iter(want.values())))
    r.true("sheet-rows", len(t) == nrow + 1, f"{len(t) - 1} rows, expected {nrow}")
    for k, col in enumerate(t[0]):
        if col in want and len(t) == nrow + 1:
            compare_col(r, "sheet", [row[k] for row in t[1:]], want[col], col, want, v, absolute=0.51e-8)
    import pandas as pd
    for sheet, w, key in (("Integrals", wi, "integral-sheet"), ("IC_at_reference_height", we, "inlet-sheet")):
        t = b.get(sheet, [[]])
        if w is None:                                 # another profile: the sheet repeats the inlet table
            w = dict(zip(dw["Quantity"], dw["Value"]))
        df = pd.DataFrame([list(x) for x in t[1:]], columns=t[0])
        check_integrals(r, key, df, w, sF, sM, absolute=0.0051)


def solved(c, order=None, keel=True):
    if order is None:
        return cases.results(c, keel=keel)[:4]
    from pySailingVLM.results.inviscid_flow import InviscidFlowResults
    from pySailingVLM.yacht_geometry.hull_geometry import HullGeometry
    ss, csys = rigs.compose(c, order)
    v = C01.make_vlm(c, ss)
    R = InviscidFlowResults(ss, csys, v)
    if keel:
        R.estimate_heeling_moment_from_keel(HullGeometry(c["sheer"], c["fore_b"], csys, np.array(c["clr"])).center_of_lateral_resistance)
    return ss, csys, v, R


def save_and_check(c, r, folder, name, order=None, keel=True, **kw):
    from pySailingVLM.results.save_utils import save_results_to_file
    ss, csys, v, R = solved(c, order, keel)
    want, wi, we, sF, sM, di, dw = check_tables(c, ss, csys, v, R, keel, r)
    a, b, d = save_results_to_file(v, csys, R, ss, folder, name, **kw)
    r.true("returned-columns", sorted(map(str, a.columns)) == sorted(want), f"{sorted(set(a.columns) ^ set(want))}")
    for col in want:
        if col in a.columns:
            compare_col(r, "returned", a[col].to_numpy(), want[col], col, want, v)
    check_integrals(r, "returned-integral", b, wi, sF, sM)
    if we is not None:
        check_integrals(r, "returned-inlet", d, we, 30.0, 30.0)
    check_book(r, os.path.join(folder, name + ".xlsx"), want, wi, we, sF, sM, dw, v)
    r.outcome = digest(a["Pressure"].to_numpy())
    r.sample = dict(columns=len(want), rows=len(a))


def skipped(c, r):
    why, g = cases.in_domain(c)
    r.skip = why
    return why


def check_state(state, r):
    """Tables in memory for every explored state."""
    c = cases.config(state)
    if skipped(c, r):
        return
    from pySailingVLM.results.inviscid_flow import InviscidFlowResults
    from pySailingVLM.yacht_geometry.hull_geometry import HullGeometry
    ss, csys, v, R = solved(c)
    for keel in (True, False):
        if not keel:
            R = InviscidFlowResults(ss, csys, v)
        check_tables(c, ss, csys, v, R, keel, r)
        r.evals += 1
    for q in ((-1.5, 0.0, -2.2), c["clr"]):                 # reports of the same results before and after one keel and another
        c2 = dict(c, clr=q)
        R.estimate_heeling_moment_from_keel(HullGeometry(c["sheer"], c["fore_b"], csys, np.array(q, float)).center_of_lateral_resistance)
        check_tables(c2, ss, csys, v, R, True, r)
        r.evals += 1
    r.outcome = digest(v.pressure)


def check_saved(it, r):
    """Workbook on disk."""
    state, order, keel = it
    c = cases.config(state)
    if order:
        for o in order:
            if skipped(rigs.variant(c, o), r):
                return
    elif skipped(c, r):
        return
    d = tempfile.mkdtemp(dir=boot.SCRATCH)
    try:
        save_and_check(c, r, os.path.join(d, "out"), "results", order, keel)
    finally:
        shutil.rmtree(d, ignore_errors=True)


FOLDERS = ["out", "a/b/c/deep", "with space", "ünï.cødé", "trailing/", "./dotted/../dotted", "out.xlsx", "2024-01-01_10h00m00s"]
NAMES = ["results", "my fancy results", "v1.2", "naïve", "R"]
BEFORE = ["missing", "empty", "older", "older-garbage", "unrelated", "older-bigger", "readonly-other"]


def check_folder(it, r):
    folder, name, before, how = it
    c = cases.config(("plank", (("mesh", (2, 1)), ("profile", "exponential"))))
    d = tempfile.mkdtemp(dir=boot.SCRATCH)
    cwd = os.getcwd()
    try:
        os.chdir(d)
        path = folder if how == "relative" else os.path.join(d, folder)
        full = os.path.normpath(os.path.join(d, folder))
        other = {}
        if before != "missing":
            os.makedirs(full, exist_ok=True)
        if before == "older-garbage":
            open(os.path.join(full, name + ".xlsx"), "wb").write(b"not a workbook" * 10)
        elif before == "older-bigger":
            open(os.path.join(full, name + ".xlsx"), "wb").write(b"x" * 300000)
        elif before == "older":
            from pySailingVLM.results.save_utils import save_results_to_file
            c2 = cases.config(("cruiser", (("mesh", (2, 2)),)))
            ss, csys, v, R = solved(c2)
            save_results_to_file(v, csys, R, ss, path, name)
        elif before in ("unrelated", "readonly-other"):
            for f in ("notes.txt", name + ".csv", name, "Results.xlsx.bak"):
                open(os.path.join(full, f), "w").write("keep " + f)
                other[f] = "keep " + f
        save_and_check(c, r, path, name)
        left = sorted(os.listdir(full))
        r.true("only-workbook", left == sorted([name + ".xlsx", *other]), f"files {left}, expected only {name}.xlsx and {sorted(other)}")
        for f, t in other.items():
            r.true("others-kept", open(os.path.join(full, f)).read() == t, f"{f} changed")
        r.outcome = digest([folder, name, before])
    finally:
        os.chdir(cwd)
        shutil.rmtree(d, ignore_errors=True)


def check_history(it, r):
    """Sequences of saves into the same and other folders: the last one written is what each file holds."""
    from pySailingVLM.results.save_utils import save_results_to_file
    cs = {"a": cases.config(("cruiser", (("mesh", (1, 2)),))), "b": cases.config(("skiff", (("mesh", (2, 1)), ("alpha", 50.0)))),
          "c": cases.config(("cat", (("mesh", (1, 1)), ("profile", "exponential"))))}
    d = tempfile.mkdtemp(dir=boot.SCRATCH)
    done = {k: solved(x) for k, x in cs.items()}
    last = {}
    try:
        for case, place in it:
            if case in "-~":                        # the folder disappears
                x = os.path.join(d, {"0": "x", "2": "x/y"}[place])
                if os.path.isdir(x):
                    shutil.rmtree(x) if case == "-" else os.rename(x, os.path.join(d, "away%d" % len(os.listdir(d))))
                last = {f: k for f, k in last.items() if os.path.exists(os.path.join(d, f + ".xlsx"))}
                continue
            ss, csys, v, R = done[case]
            folder, name = {"0": ("x", "r"), "1": ("x", "s"), "2": ("x/y", "r")}[place]
            save_results_to_file(v, csys, R, ss, os.path.join(d, folder), name)
            last[folder + "/" + name] = case
            for f, k in last.items():
                ss, csys, v, R = done[k]
                want = expected_components(cs[k], ss, csys, v, R)
                wi, sF, sM = expected_integrals(cs[k], ss, csys, v, R, True)
                check_book(r, os.path.join(d, f + ".xlsx"), want, wi, expected_inlet(cs[k]), sF, sM, v.inlet_conditions.winds.to_df_integral(csys), v)
                r.edges += 1
        r.evals = len(it)
        r.outcome = digest(it)
    finally:
        shutil.rmtree(d, ignore_errors=True)


def run(ctx):
    import pySailingVLM.solver.vlm, pySailingVLM.runner.sail, pySailingVLM.yacht_geometry.hull_geometry, pySailingVLM.results.save_utils  # noqa: F401,E401
    import openpyxl  # noqa: F401
    st, tr = C01.space(ctx, ["mesh", "sails", "alpha"])
    st0, tr0 = cases.explore(list(cases.ROOTS), ["ref", "clr", "leeway", "sails"], 2)
    ctx.map("tables", check_state, list(dict.fromkeys(st + st0)), tr + tr0)
    big = [(c, (("mesh", m), ("sails", s))) for c in ("cruiser", "cat") for m in ((7, 5), (13, 8), (30, 2), (3, 24)) for s in ("jib_and_main", "main")]
    ctx.map("long tables", check_state, big, chunk=1)
    sv, _ = cases.explore(["cruiser"] if not ctx.thorough else list(cases.ROOTS), ["mesh", "sails", "profile", "alpha", "leeway", "heel", "ref", "clr", "SOG", "wref"], 1, None if ctx.thorough else cases.ALPHABET)
    sv2, _ = cases.explore(["skiff", "cat", "plank"], ["mesh", "sails"], 1, cases.ALPHABET)
    items = [(s, None, True) for s in dict.fromkeys(sv + sv2)] + [(s, None, False) for s in sv[:4]] + \
            [(("cruiser", (("mesh", m),)), o, True) for o in ("mj", "m", "jmk", "kjm") for m in ((3, 2), (1, 1))] + [(s, None, True) for s in big[:3]]
    ctx.map("saved workbooks", check_saved, items)
    fold = [(f, n, b, h) for f in FOLDERS for n in NAMES for b in BEFORE for h in ("absolute", "relative")]
    if not ctx.thorough:       # at most two of the four choices off their first value
        first = (FOLDERS[0], NAMES[0], BEFORE[0], "absolute")
        fold = [x for x in fold if sum(a != b for a, b in zip(x, first)) <= 1] + [x for x in fold if x[0] in FOLDERS[1:3] and x[2] in ("older", "unrelated") and x[1] == NAMES[0]]
    ctx.map("output folders", check_folder, fold)
    steps = list(itertools.product("abc", "012"))
    hist = [(a, b) for a in steps for b in steps if ctx.thorough or a[1] == b[1] and a[0] != b[0] or a[1] != b[1] and a[0] == "a" and b[0] == "b"]
    gone = [("-", "0"), ("~", "0"), ("-", "2")]
    hist += [(("a", p), g, (c, q)) for p in "02" for g in gone for c in "ab" for q in "012" if ctx.thorough or c == "b" and q in "02"]
    ctx.map("save histories", check_history, hist)
    ctx.assumptions += ["the inlet sheet of flat and logarithmic winds is only compared with the table handed out",
                        "moments of above-water panels only"]
