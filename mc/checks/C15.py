"""Command line: every placement of case files, every output folder state, every kind of broken case, sequences of runs, in
this process and in fresh ones; outputs compared with the case's own solution."""
import copy, itertools, os, shutil, tempfile
import numpy as np
import boot, cases, clirun, ref
from engine import digest
from checks import C12, C17

SMALL = {"one": ("cruiser", (("mesh", (2, 1)),)), "two": ("skiff", (("mesh", (1, 2)),)),
         "three": ("cat", (("mesh", (2, 2)), ("sails", "jib"), ("profile", "exponential"), ("tmode", "real_twist")))}
_sol = {}


def solution(state):
    if state not in _sol:
        c = cases.config(state)
        _sol[state] = (c, C12.solved(c))
    return _sol[state]


def found(root):
    """Result files anywhere below."""
    out = []
    for d, _, fs in os.walk(root):
        out += [os.path.relpath(os.path.join(d, f), root) for f in fs if f.endswith((".xlsx", ".html", ".png"))]
    return sorted(out)


def check_outputs(r, state, folder, o, case_file, file_name="results"):
    """The output folder holds the results of this case."""
    c, (ss, csys, v, R) = solution(state)
    r.true("status", o.status == 0, f"exit status {o.status} {getattr(o, 'error', '')} {o.err[-300:]} {o.out[-300:]}")
    if o.status != 0:
        return
    want = C12.expected_components(c, ss, csys, v, R)
    wi, sF, sM = C12.expected_integrals(c, ss, csys, v, R, True)
    dw = v.inlet_conditions.winds.to_df_integral(csys)
    C12.check_book(r, os.path.join(folder, file_name + ".xlsx"), want, wi, C12.expected_inlet(c), sF, sM, dw, v)
    cp = os.path.join(folder, os.path.basename(case_file))
    r.true("case-copy", os.path.isfile(cp) and open(cp).read() == open(case_file).read(), f"{cp} is not a copy of the case file")
    for f in ("cp_plot.html", "section_cl.png", "section_cd.png"):
        p = os.path.join(folder, f)
        r.true("plots", os.path.isfile(p) and os.path.getsize(p) > 0, f"{f} missing")
    if not hasattr(o, "cap"):
        return
    ns, nc = c["mesh"]
    k = len(ref.sail_names(c))
    half = k * ns * nc
    S, V = np.asarray(v.areas)[:half], np.asarray(v.inlet_conditions.V_app_infs)[:half]
    for f, F in (("section_cl.png", v.lift), ("section_cd.png", v.drag)):
        d = o.cap.sections.get(os.path.join(os.path.abspath(folder), f)) or o.cap.sections.get(os.path.join(os.path.realpath(folder), f))
        r.true("section-saved", d is not None, f"{f} not drawn; drawn: {list(o.cap.sections)}")
        if d is None:
            continue
        w, A = C17.sections(np.asarray(F)[:half], V, S, c["rho"], k, ns, nc)
        with np.errstate(all="ignore"):
            w = w / ((w * A).sum(1) / A.sum(1))[:, None]
        z = np.asarray(v.cp)[:half, 2].reshape(k, nc, ns).mean(1)
        got = {n: p for n, p in d["points"]}
        r.true("section-names", sorted(n for n, _ in d["points"]) == sorted(ref.sail_names(c)), f"{f}: curves {[n for n, _ in d['points']]} for {ref.sail_names(c)}")
        for s, n in enumerate(ref.sail_names(c)):
            if n in got and np.isfinite(w[s]).all():
                r.same("section-data", got[n], np.stack([w[s], z[s]], 1), 1e-8, 1 + np.abs(z).max() + np.abs(w[s]).max(), f"{f} {n}")
    r.true("polygons", len(o.cap.polygons) == 1, f"{len(o.cap.polygons)} pressure plots")
    for path, obj in o.cap.polygons:
        got = np.asarray(obj.data["p_coeffs"], float)
        r.same("polygon-data", got, np.asarray(v.p_coeffs), 1e-8, None, "pressure plot")
    r.outcome = digest(v.pressure, [folder.replace(boot.SCRATCH, "")[20:]])


def scratch():
    return tempfile.mkdtemp(dir=boot.SCRATCH)


def check_case(state, r):
    """Every explored configuration through the command line."""
    c = cases.config(state)
    why, g = cases.in_domain(c)
    if why or c["tmode"] != "real_twist" or c["go"] != -1.0:
        r.skip = why or "not settable from a case file"
        return
    d = scratch()
    try:
        c["go"] = -1.0
        out = os.path.join(d, "res", "x")
        clirun.write(os.path.join(d, "case"), clirun.settings(c, out))
        o = clirun.run(["-dv", os.path.join(d, "case")], d)
        check_outputs(r, state, out, o, os.path.join(d, "case", "variables.py"))
    finally:
        shutil.rmtree(d, ignore_errors=True)


# ---- where the case files lie
FORMS = ["absolute", "relative", "trailing", "dot", "parent", "symlink", "spaces", "default", "equals", "short", "nested",
         "dotted", "python name", "two dots", "leading dot", "keyword"]
DECOY_CWD = ["none", "valid", "broken", "raising"]
DECOY_PATH = ["none", "module", "package", "broken"]
OUT = ["absolute", "relative"]


def arrange(d, form, cwd_decoy, path_decoy, out):
    """Build the scene; returns (args, cwd, import path, case folder, output folder)."""
    case = os.path.join(d, {"spaces": "my case ü", "nested": "a/b/c", "parent": "side/case", "dotted": "season.d", "python name": "case.py",
                             "two dots": "rc44.v2.1", "leading dot": ".case", "keyword": "import"}.get(form, "case"))
    cwd = os.path.join(d, {"parent": "side/here"}.get(form, "here"))
    os.makedirs(cwd)
    o = os.path.join(d, "results", "r1") if out == "absolute" else os.path.join("results", "r1")
    clirun.write(case, clirun.settings(cases.config(SMALL["one"]), o))
    args = ["-dv", case]
    if form == "relative":
        args = ["-dv", os.path.relpath(case, cwd)]
    elif form == "trailing":
        args = ["-dv", case + "/"]
    elif form == "dot":
        cwd, args = d, ["-dv", "./case"]
    elif form == "parent":
        args = ["-dv", "../case"]
    elif form == "symlink":
        os.symlink(case, os.path.join(d, "link"))
        args = ["-dv", os.path.join(d, "link")]
    elif form == "default":
        cwd, args = case, []
    elif form == "equals":
        args = ["--dvars=" + case]
    elif form == "short":
        args = ["--dvars", case]
    if form != "default" and cwd_decoy != "none":
        decoy(cwd, cwd_decoy, d)
    path = []
    if path_decoy != "none":
        p = os.path.join(d, "lib")
        os.makedirs(p)
        if path_decoy == "package":
            decoy(os.path.join(p, "variables"), "valid", d, "__init__.py")
        else:
            decoy(p, {"module": "valid", "broken": "broken"}[path_decoy], d)
        path = [p]
    return args, cwd, path, case, os.path.join(cwd, o)


def decoy(folder, kind, d, name="variables.py"):
    if kind == "valid":
        clirun.write(folder, clirun.settings(cases.config(SMALL["two"]), os.path.join(d, "decoy-results")), name)
    else:
        os.makedirs(folder, exist_ok=True)
        with open(os.path.join(folder, name), "w") as f:
            f.write("output_args = {{{\n" if kind == "broken" else "raise RuntimeError('wrong file')\n")


def check_place(it, r):
    fresh, form, cd, pd, out = it
    d = scratch()
    try:
        args, cwd, path, case, o_dir = arrange(d, form, cd, pd, out)
        before = {f: open(os.path.join(case, f)).read() for f in os.listdir(case)}
        o = clirun.spawn(args, cwd, path) if fresh else clirun.run(args, cwd, path)
        check_outputs(r, SMALL["one"], o_dir, o, os.path.join(case, "variables.py"))
        r.true("decoy-used", not os.path.exists(os.path.join(d, "decoy-results")), "results of another case file were written")
        r.true("case-kept", all(open(os.path.join(case, f)).read() == t for f, t in before.items()), "the case file was changed")
        extra = [f for f in found(d) if not os.path.join(d, f).startswith(os.path.normpath(o_dir) + os.sep)]
        r.true("elsewhere", not extra, f"results written elsewhere: {extra}")
        r.outcome = digest(it)
    finally:
        shutil.rmtree(d, ignore_errors=True)


def check_helper(it, r):
    """A case whose settings come from a module of its own directory, with modules of that name lying elsewhere."""
    fresh, form, where, kind, out = it
    d = scratch()
    try:
        args, cwd, path, case, o_dir = arrange(d, form, "none", "none", out)
        name = "rigdata_" + digest([repr(it)])[:12]              # a name of its own: nothing of another run is in memory under it
        text = open(os.path.join(case, "variables.py")).read()
        with open(os.path.join(case, name + ".py"), "w") as f:
            f.write(text)
        with open(os.path.join(case, "variables.py"), "w") as f:
            f.write({"star": f"from {name} import *\n", "names": "".join(f"from {name} import {k}\n" for k in clirun.settings(cases.config(SMALL["one"]), "")),
                     "module": f"import {name} as m\nglobals().update({{k: x for k, x in vars(m).items() if k.endswith('_args')}})\n"}[kind])
        for w in where:
            if w == "behind":                                    # the case's directory is on the import path already, at the end
                path = path + [os.path.realpath(case)]
                continue
            p = {"cwd": cwd, "path": os.path.join(d, "lib")}[w]
            if os.path.realpath(p) != os.path.realpath(case):
                decoy(p, "valid", d, name + ".py")
            path = path + [p] if not fresh or w == "path" else path
        o = clirun.spawn(args, cwd, path) if fresh else clirun.run(args, cwd, path)
        check_outputs(r, SMALL["one"], o_dir, o, os.path.join(case, "variables.py"))
        r.true("decoy-used", not os.path.exists(os.path.join(d, "decoy-results")), "results of another directory's settings were written")
        r.outcome = digest([repr(it)])
    finally:
        shutil.rmtree(d, ignore_errors=True)


# ---- output folders
STATES = ["fresh", "existing", "older results", "unrelated", "case folder", "deep", "twice"]


def check_folder(it, r):
    state, name, file_name, case_name = it
    d = scratch()
    try:
        case = os.path.join(d, "case")
        out = {"case folder": case, "deep": os.path.join(d, "a", "b b", "c.d")}.get(state, os.path.join(d, "out"))
        o_set = os.path.relpath(out, d) if name == "relative" else out + ("/" if name == "trailing" else "")
        clirun.write(case, clirun.settings(cases.config(SMALL["three"]), o_set, file_name))
        keep = {}
        if state in ("existing", "older results", "unrelated"):
            os.makedirs(out)
        if state == "older results":
            for f in (file_name + ".xlsx", "section_cl.png", "section_cd.png", "cp_plot.html", "variables.py"):
                open(os.path.join(out, f), "w").write("old " * 5000)
        if state == "unrelated":
            for f in ("notes.txt", "other.xlsx", "variables_old.py"):
                open(os.path.join(out, f), "w").write("keep")
                keep[f] = "keep"
        text = open(os.path.join(case, "variables.py")).read()
        for n in range(2 if state == "twice" else 1):
            o = clirun.run(["-dv", case], d)
            check_outputs(r, SMALL["three"], out, o, os.path.join(case, "variables.py"), file_name)
        for f, t in keep.items():
            r.true("others-kept", os.path.isfile(os.path.join(out, f)) and open(os.path.join(out, f)).read() == t, f"{f} changed")
        r.true("case-kept", open(os.path.join(case, "variables.py")).read() == text, "the case file was changed")
        r.outcome = digest(it)
    finally:
        shutil.rmtree(d, ignore_errors=True)


# ---- broken cases
def broken():
    B = {"no directory": None, "empty directory": None, "a directory called variables.py": None, "a file instead of a directory": None,
         "dangling link": None}
    for t in ("output_args = {{{", "import no_such_module_xyz", "raise ValueError('x')", "import sys\nsys.exit(3)", "1/0", "\x00", "undefined_name"):
        B["text " + t] = t
    for k in ("output_args", "solver_args", "conditions_args", "main_sail_args", "jib_sail_args", "csys_args", "keel_args", "rig_args"):
        B["without " + k] = ("drop", k)
        B["misspelt key in " + k] = ("add", k)
        B["not a dictionary: " + k] = ("number", k)
    for n, (k, key, val) in {
            "unknown wind profile": ("conditions_args", "wind_profile", "exponentail"), "unknown sails": ("rig_args", "sails_def", "spinnaker"),
            "unknown interpolation": ("solver_args", "interpolation_type", "cubic"), "camber too large": ("main_sail_args", "camber", np.full(7, .31)),
            "camber position too large": ("jib_sail_args", "camber_distance_from_luff", np.full(5, .95)),
            "unequal tables": ("main_sail_args", "camber", np.full(6, .05)), "no roughness": ("conditions_args", "roughness", None),
            "no luff": ("rig_args", "main_sail_luff", None), "no exponent": ("conditions_args", "wind_exp_coeff", None),
            "no rows": ("solver_args", "n_chordwise", 0), "text for a number": ("conditions_args", "rho", "air"),
            "no keel point": ("keel_args", "center_of_lateral_resistance_upright", None), "no reference point": ("csys_args", "reference_level_for_moments", None),
            "chords of no length": ("main_sail_args", "chords", np.zeros(7)), "chords not numbers": ("main_sail_args", "chords", np.full(7, np.nan)),
            "one chord not a number": ("jib_sail_args", "chords", np.array([3, 2, np.nan, 1, .5])), "twist not a number": ("jib_sail_args", "centerline_twist_deg", np.full(5, np.nan)),
            "wind not a number": ("conditions_args", "tws_ref", np.nan), "heel not a number": ("conditions_args", "heel_deg", np.nan),
            "wind measured at no height": ("conditions_args", "wind_reference_measurment_height", 0.0), "luff of no length": ("rig_args", "main_sail_luff", 0.0),
            "water level above the sails": ("conditions_args", "reference_water_level_for_wind_profile", 50.0),
            "no water level": ("conditions_args", "reference_water_level_for_wind_profile", None), "negative sections": ("solver_args", "n_spanwise", -2),
            "two and a half sections": ("solver_args", "n_spanwise", 2.5), "sections as text": ("solver_args", "n_chordwise", "2"),
            "no foretriangle height": ("rig_args", "foretriangle_height", None), "short table": ("main_sail_args", "chords", np.array([1., 2.])),
            "flat keel point": ("keel_args", "center_of_lateral_resistance_upright", np.array([0, 0.])),
            "flat reference point": ("csys_args", "reference_level_for_moments", np.array([0, 0.]))}.items():
        B["settings: " + n] = ("set", k, key, val)
    return B


def check_broken(it, r):
    name, cwd_decoy, fresh, before = it
    spec = broken()[name]
    d = scratch()
    try:
        case, cwd = os.path.join(d, "case"), os.path.join(d, "here")
        os.makedirs(cwd)
        if cwd_decoy:
            decoy(cwd, "valid", d)
        c = cases.config(("cruiser", (("mesh", (2, 1)), ("interp", "linear"))))
        out = os.path.join(d, "results")
        s = clirun.settings(c, out)
        tail = ""
        if name == "a directory called variables.py":
            os.makedirs(os.path.join(case, "variables.py"))
        elif name == "empty directory":
            os.makedirs(case)
        elif name == "a file instead of a directory":
            open(case, "w").write(clirun.text(s))
        elif name == "dangling link":
            os.makedirs(case)
            os.symlink(os.path.join(d, "nowhere"), os.path.join(case, "variables.py"))
        elif spec is not None:
            if isinstance(spec, str):
                tail = spec + "\n"
            elif spec[0] == "drop":
                s[spec[1]] = None
            elif spec[0] == "add":
                s[spec[1]]["no_such_setting"] = 1.0
            elif spec[0] == "set":
                if spec[2] == "roughness":
                    s["conditions_args"]["wind_profile"] = "logarithmic"
                s[spec[1]][spec[2]] = spec[3]
            clirun.write(case, s, tail=tail + (f"{spec[1]} = 5\n" if spec[0] == "number" else ""))
        if before:                              # a good run earlier in the same process
            good = os.path.join(d, "good")
            clirun.write(good, clirun.settings(cases.config(SMALL["two"]), os.path.join(d, "good-results")))
            o = clirun.run(["-dv", good], cwd)
            r.true("status", o.status == 0, f"good case refused: {o.error} {o.out[-200:]}")
            shutil.rmtree(os.path.join(d, "good-results"), ignore_errors=True)
        o = clirun.spawn(["-dv", case], cwd) if fresh else clirun.run(["-dv", case], cwd)
        r.true("broken-accepted", o.status != 0, f"{name}: exit status 0")
        r.true("broken-results", not found(d), f"{name}: results written: {found(d)}")
        r.edges += 1
        r.outcome = digest([name, o.status])
    finally:
        shutil.rmtree(d, ignore_errors=True)


def check_sequence(it, r):
    """Runs one after another in one process: each writes its own case's results and leaves the others' alone."""
    d = scratch()
    try:
        for k in SMALL:
            clirun.write(os.path.join(d, k), clirun.settings(cases.config(SMALL[k]), os.path.join(d, "out-" + k)))
        os.makedirs(os.path.join(d, "none"))
        done = []
        for k in it:
            o = clirun.run(["-dv", os.path.join(d, k)], os.path.join(d, "two"))
            if k == "none":
                r.true("broken-accepted", o.status != 0, "missing case file after good runs: exit status 0")
            else:
                check_outputs(r, SMALL[k], os.path.join(d, "out-" + k), o, os.path.join(d, k, "variables.py"))
                done.append(k)
            outs = sorted(x for x in os.listdir(d) if x.startswith("out-"))
            r.true("only-own", outs == sorted({"out-" + x for x in done}), f"after {it}: {outs}")
            r.edges += 1
        r.evals = len(it)
        r.outcome = digest(it)
    finally:
        shutil.rmtree(d, ignore_errors=True)


def run(ctx):
    import pySailingVLM.runner.cli  # noqa: F401
    import openpyxl  # noqa: F401
    import bokeh.plotting, holoviews  # noqa: F401,E401
    for s in SMALL.values():
        solution(s)
    t = ctx.q(1, 2)
    vs = ["mesh", "sails", "profile", "alpha", "leeway", "heel", "interp", "SOG", "wref", "href", "rough", "rho", "ref", "clr"]
    geo = ["mluff", "jluff", "fore_h", "fore_b", "sheer", "boom", "rake", "mast_LOA", "m_girths", "m_chords", "j_chords", "m_twist", "j_twist",
           "m_camber", "j_camber", "m_camdist", "j_camdist", "expc"]
    if ctx.thorough:
        st, tr = cases.explore(["cruiser", "skiff"], vs + geo, 1)
        st2, tr2 = cases.explore(["cruiser"], ["mesh", "sails", "profile", "leeway", "heel"], 2)
        st, tr = list(dict.fromkeys(st + st2)), tr + tr2
    else:
        two = {k: cases.ALPHABET[k][:3] for k in vs + geo}
        two["mesh"], two["profile"] = cases.ALPHABET["mesh"][:6], cases.ALPHABET["profile"]
        st, tr = cases.explore(["cruiser"], vs + geo, 1, two)
    ctx.map("configurations", check_case, st, tr, chunk=1)
    first = (FORMS[0], "none", "none", "absolute")
    pl = [x for x in itertools.product(FORMS, DECOY_CWD, DECOY_PATH, OUT) if ctx.thorough or sum(a != b for a, b in zip(x, first)) <= 1
          or x[1] == "valid" and x[2] == "module" and x[3] == "absolute" or x[0] == "default" and x[2] != "none"]
    ctx.map("placements", check_place, [(False, *x) for x in pl if x[0] != "default" or x[1] == "none"], len(pl))
    fl = [(s, n, f, c) for s in STATES for n in ("absolute", "relative", "trailing") for f in ("results", "my fancy results", "v1.2") for c in ("variables.py",)]
    ctx.map("output folders", check_folder, [x for x in fl if ctx.thorough or x[1:3] == ("absolute", "results") or x[0] == "fresh" or x[0] == "case folder" and x[2] == "results"])
    B = list(broken())
    ctx.map("broken cases", check_broken, [(b, x, False, y) for b in B for x in (False, True) for y in (False, True) if ctx.thorough or (x, y) in ((True, False),) or b in B[:6] + ["without keel_args", "without conditions_args"]])
    seqs = [s for n in range(1, ctx.q(2, 4) + 1) for s in itertools.product([*SMALL, "none"], repeat=n)]
    ctx.map("sequences of runs", check_sequence, seqs)
    fresh = [(True, "absolute", "valid", "module", "absolute"), (True, "relative", "valid", "package", "relative"), (True, "default", "none", "module", "relative"),
             (True, "symlink", "raising", "none", "absolute")]
    if ctx.thorough:
        fresh += [(True, f, "valid", "module", "relative") for f in FORMS]
    hp = [(f, w, k, o) for f in FORMS for w in ((), ("cwd",), ("path",), ("cwd", "path"), ("path", "behind")) for k in ("star", "names", "module") for o in OUT
          if ctx.thorough or (k, o) == ("star", "absolute") and (f in FORMS[:5] or w in (("cwd", "path"), ("path", "behind"))) or f == "absolute" and o == "absolute"]
    ctx.map("settings in a module beside the case", check_helper, [(False, *x) for x in hp])
    ctx.map("settings in a module beside the case, fresh processes", check_helper,
            [(True, f, w, "star", "absolute") for f, w in (("absolute", ("cwd",)), ("relative", ("path",)), ("default", ("path",)), ("parent", ("cwd", "path")), ("absolute", ("path", "behind")), ("relative", ("cwd", "path", "behind")))], chunk=1)
    ctx.map("fresh processes", check_place, fresh, chunk=1)
    fb = ["no directory", "settings: unknown wind profile", "text output_args = {{{", "settings: no luff"] + ([b for b in B] if ctx.thorough else [])
    ctx.map("fresh processes, broken cases", check_broken, [(b, True, True, False) for b in fb], chunk=1)
    ctx.assumptions += ["the LaTeX-based plot style is left out (no LaTeX here)", "section plots and the HTML plot are intercepted when saved; their data are compared"]
