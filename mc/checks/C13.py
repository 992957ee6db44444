"""Histories: all interleavings of two cases' operations, all short operation sequences on one case, all short orders of
whole runs. After every history each case's results equal those of a fresh process and nothing given or handed out
earlier has changed."""
import copy, itertools, multiprocessing as mp, os, shutil, tempfile
import numpy as np
import boot, cases
from engine import digest

TOL = 1e-12
CASES = {
    "A": ("cruiser", (("mesh", (2, 2)),)),
    "B": ("cruiser", (("mesh", (1, 3)), ("sails", "main"), ("alpha", -40.0), ("interp", "linear"), ("heel", -12.0))),
    "C": ("skiff", (("mesh", (2, 1)), ("sails", "jib_and_main"))),
    "D": ("cat", (("mesh", (1, 1)), ("sails", "jib"), ("tmode", "sheeting_angle_const"))),
    "E": ("cruiser", (("mesh", (2, 2)), ("tmode", "average_const"), ("profile", "logarithmic"), ("rho", 1000.0), ("ref", (1.0, .5, 2.0)))),
}
SS = ("panels", "zero_mesh", "trailing_edge_info", "leading_edge_info")
SAIL = ("panels", "panels_above", "panels_under", "trailing_edge_info", "tack_mounting", "head_mounting")
DEFAULT = "Z"                       # everything left at its default
VLM = ("panels", "areas", "normals", "ctr_p", "cp", "rings", "span_vectors", "gamma_magnitude", "V_induced_at_ctrl", "V_app_fs_at_ctrl_p",
       "force", "lift", "drag", "pressure", "p_coeffs", "V_app_fs_at_cp", "V_induced_at_cp")
INLET = ("tws_at_cp", "V_app_infs", "V_app_infs_length", "AWA_infs_deg", "cp_points")
RES = ("F_xyz", "F_xyz_total", "M_xyz", "M_total_above_water_in_xyz_csys", "F_centerline", "F_centerline_total", "M_centerline_csys",
       "M_total_above_water_in_centerline_csys", "above_water_centre_of_effort_estimate_xyz", "V_app_fs_length", "AWA_app_fs")
KEEL = ("M_xyz_underwater_estimate_total", "M_centerline_csys_underwater_estimate_total")
HULL = ("deck_centerline", "deck_port_line", "deck_starboard_line", "deck_port_line_underwater", "deck_starboard_line_underwater",
        "center_of_lateral_resistance")
CSYS = ("heeling_rotation_matrix", "leeway_rotation_matrix", "reverse_heeling_rotation_matrix", "reverse_leeway_rotation_matrix",
        "v_from_original_xyz_2_reference_csys_xyz")


def frame(df):
    return {str(k): df[k].to_numpy() for k in df.columns}


def take(pre, obj, names):
    return {pre + n: getattr(obj, n) for n in names if hasattr(obj, n)}


def defaults():
    from pySailingVLM.runner import container as k
    return k.Solver(), k.Conditions(), k.Rig(), k.MainSail(), k.JibSail(), k.Csys(), k.Keel()


class Run:
    """One case being worked on. Every value given to or obtained from the code is kept with a copy."""
    def __init__(self, name, given=None):
        self.name, self.c = name, cases.config(CASES.get(name, ("cruiser", ())))
        self.given = given if given is not None else defaults() if name == DEFAULT else cases.containers(self.c)
        self.kept = []              # (label, live value, copy)
        self.out = {}
        for i, g in enumerate(self.given):
            for k, x in vars(g).items():
                self.keep(f"given.{type(g).__name__}.{k}", x)
        self.folder = None

    def keep(self, label, live):
        self.kept.append((label, live, copy.deepcopy(live)))

    def got(self, d):
        for k, x in d.items():
            self.keep(k, x)
            self.out[k] = copy.deepcopy(x)

    # --- operations
    def build(self):
        from pySailingVLM.runner.sail import Sail
        from pySailingVLM.rotations.csys_transformations import CSYS_transformations
        from pySailingVLM.yacht_geometry.hull_geometry import HullGeometry
        so, co, rig, m, j, cs, ke = self.given
        ref = {} if self.name == DEFAULT else dict(v_from_original_xyz_2_reference_csys_xyz=cs.reference_level_for_moments)
        self.csys = CSYS_transformations(co.heel_deg, co.leeway_deg, **ref)
        self.ss = Sail(so, rig, m, j, self.csys).sail_set
        self.hull = HullGeometry(rig.sheer_above_waterline, rig.foretriangle_base, self.csys, ke.center_of_lateral_resistance_upright)
        self.got(take("ss.", self.ss, SS))
        for i, s in enumerate(self.ss.sails):
            self.got(take(f"sail{i}.", s, SAIL))
        self.got(take("hull.", self.hull, HULL))
        self.got(take("csys.", self.csys, CSYS))

    def solve(self):
        from pySailingVLM.runner.sail import Wind
        from pySailingVLM.solver.vlm import Vlm
        so, co = self.given[:2]
        self.v = Vlm(self.ss.panels, so.n_chordwise, so.n_spanwise, co.rho, Wind(co).profile, self.ss.trailing_edge_info,
                     self.ss.leading_edge_info, self.c["go"])
        self.got(take("vlm.", self.v, VLM))
        self.got(take("inlet.", self.v.inlet_conditions, INLET))

    def results(self):
        from pySailingVLM.results.inviscid_flow import InviscidFlowResults
        self.R = InviscidFlowResults(self.ss, self.csys, self.v)
        self.got(take("res.", self.R, RES))
        self.got({"res.per_sail." + k: x for k, x in self.R.dyn_dict.items()})
        self.R.estimate_heeling_moment_from_keel(self.hull.center_of_lateral_resistance)
        self.got(take("res.", self.R, KEEL))

    def tables(self):
        from pySailingVLM.solver.coefs import get_data_for_coeff_plot
        for n, df in (("full", self.R.to_df_full()), ("integral", self.R.to_df_integral()), ("inlet", self.v.inlet_conditions.to_df_full(self.csys)),
                      ("wind", self.v.inlet_conditions.winds.to_df_integral(self.csys))):
            self.got({f"table.{n}.{k}": x for k, x in frame(df).items()})
        h, l, d = get_data_for_coeff_plot(self.v, self.given[0])
        self.got({"sec.h": h, "sec.l": np.array(l), "sec.d": np.array(d)})

    def save(self):
        from pySailingVLM.results.save_utils import save_results_to_file
        self.folder = self.folder or tempfile.mkdtemp(dir=boot.SCRATCH)
        a, b, d = save_results_to_file(self.v, self.csys, self.R, self.ss, os.path.join(self.folder, "o"), "r")
        for n, df in (("components", a), ("integrals", b), ("ic", d)):
            self.got({f"saved.{n}.{k}": x for k, x in frame(df).items()})
        import openpyxl
        wb = openpyxl.load_workbook(os.path.join(self.folder, "o", "r.xlsx"))
        self.got({"book." + n: np.array([[x.value for x in r] for r in wb[n].iter_rows()], dtype=object) for n in wb.sheetnames})

    def plot(self):
        import matplotlib.pyplot as plt
        from pySailingVLM.solver import panels_plotter as pp
        pp.display_panels_xyz_and_winds(self.v, self.R, self.v.inlet_conditions, self.hull, show_plot=False, show_induced_wind=True)
        self.folder = self.folder or tempfile.mkdtemp(dir=boot.SCRATCH)
        plt.close("all")

    def close(self):
        if self.folder:
            shutil.rmtree(self.folder, ignore_errors=True)


def same(a, b, tol):
    if a is None or b is None or isinstance(a, str) or isinstance(b, str):
        return type(a) is type(b) and a == b
    a, b = np.asarray(a), np.asarray(b)
    if a.shape != b.shape:
        return False
    if a.dtype == object or b.dtype == object:
        if a.ndim == 0:
            return vars(a.item()) == vars(b.item()) if hasattr(a.item(), "__dict__") else a.item() == b.item()
        return all(same(x, y, tol) if not isinstance(x, (int, float)) or isinstance(x, bool) else
                   isinstance(y, (int, float)) and abs(x - y) <= tol * max(1, abs(x)) for x, y in zip(a.ravel(), b.ravel()))
    if a.dtype.kind in "bUS" or b.dtype.kind in "bUS":
        return bool((a == b).all())
    if a.size == 0 or np.array_equal(a, b, equal_nan=True):
        return True
    if tol == 0:
        return False
    s = np.abs(b[np.isfinite(b)]).max() if np.isfinite(b).any() else 1.0
    return bool((np.isfinite(a) == np.isfinite(b)).all() and (np.abs(a - b)[np.isfinite(b)] <= tol * s).all())


def judge(run, r, hist):
    want = FRESH[run.name]
    for k, x in run.out.items():
        s = max(1.0, 0)
        tol = TOL
        r.true("result", same(x, want[k], tol) or close(x, want[k], k, want), f"after {hist}: case {run.name}: {k} differs from a fresh run's")
    for label, live, cp in run.kept:
        r.true("changed", same(live, cp, 0), f"after {hist}: case {run.name}: {label} was changed")
    r.edges += len(hist)


def close(x, w, k, want):
    """Small components of vectors are compared on the size of the whole quantity."""
    if k.startswith(("table.", "saved.", "book.")):
        try:
            return np.allclose(np.asarray(x, float), np.asarray(w, float), rtol=0, atol=1e-10 * (1 + np.abs(np.asarray(want["vlm.force"])).sum() * 20))
        except (TypeError, ValueError):
            return False
    return False


CHAIN = ("build", "solve", "results", "tables")
LONG = ("build", "solve", "results", "save", "plot")
FRESH = {}


def _fresh(name, q):
    r = Run(name)
    for o in ("build", "solve", "results", "tables", "save", "plot"):
        getattr(r, o)()
    r.close()
    q.put(r.out)


def fresh():
    ctx = mp.get_context("fork")
    jobs = []
    for n in [*CASES, DEFAULT]:
        q = ctx.SimpleQueue()
        p = ctx.Process(target=_fresh, args=(n, q))
        p.start()
        jobs.append((n, q, p))
    for n, q, p in jobs:
        while not q._reader.poll(.2):
            if not p.is_alive() and not q._reader.poll(.2):
                break
        else:
            FRESH[n] = q.get()
        p.join()


def share(name, other):
    """Settings of case `name` where everything equal in both cases is the other case's own object (arrays included)."""
    mine = cases.containers(cases.config(CASES[name]))
    for a, b in zip(mine, other):
        for k in vars(a):
            x, y = getattr(a, k), getattr(b, k)
            if isinstance(x, np.ndarray) and isinstance(y, np.ndarray) and x.shape == y.shape and (x == y).all():
                setattr(a, k, y)
    return tuple(b if same_settings(a, b) else a for a, b in zip(mine, other))


def same_settings(a, b):
    return type(a) is type(b) and vars(a).keys() == vars(b).keys() and all(same(getattr(a, k), getattr(b, k), 0) for k in vars(a))


def check_interleaving(it, r):
    x, y, shared, chain, order = it
    first = Run(x)
    second = Run(y, share(y, first.given) if shared else None)
    runs = {"0": first, "1": second}
    pos = {"0": 0, "1": 0}
    ops = LONG if chain == "long" else CHAIN
    try:
        for o in order:
            getattr(runs[o], ops[pos[o]])()
            pos[o] += 1
        for k in runs.values():
            judge(k, r, order)
        r.evals = 2
        r.outcome = digest(first.out["vlm.force"], second.out["vlm.force"])
    finally:
        for k in runs.values():
            k.close()


def check_sequence(it, r):
    name, ops = it
    k = Run(name)
    try:
        for o in ("build", "solve", "results") + tuple(ops):
            getattr(k, o)()
            judge(k, r, o)                          # after every operation
        r.evals = len(ops)
        r.outcome = digest([name, *ops])
    finally:
        k.close()


def spoil(run):
    """The owner of a run puts other numbers into every array it gave or was handed."""
    n, seen = 0, set()
    for _, x, _ in run.kept:
        if isinstance(x, np.ndarray) and x.flags.writeable and x.size and id(x) not in seen:
            seen.add(id(x))
            if x.dtype.kind == "f":
                x *= 1.37
                x += .11
            elif x.dtype.kind in "iu":
                x += 1
            elif x.dtype.kind == "b":
                np.logical_not(x, out=x)
            n += 1
    return n


def check_spoilt(it, r):
    """After a run whose arrays are then overwritten by their owner, a run with settings of its own."""
    x, last, y = it
    first, second = Run(x), Run(y)                       # the second case's settings are made before and, below, after
    try:
        for o in ("build", "solve", "results", "tables", "save", "plot")[:last]:
            getattr(first, o)()
        r.edges += spoil(first)
        for k in (second, Run(y)):
            for o in CHAIN:
                getattr(k, o)()
            judge(k, r, f"{x} up to operation {last}, its arrays overwritten, {y}")
        r.evals = 3
        r.outcome = digest(second.out["vlm.force"])
    finally:
        first.close()


def at(x, i, v):
    x = np.array(x, float)
    x[i] = v
    return x


def wreck(k, how):
    """Spoil the settings of run k so that something refuses it; returns the operations to attempt."""
    so, co, rig, m, j, cs, ke = k.given
    what, _, where = how.partition(" ")
    i = {"first": 0, "middle": 3, "last": -1, "": 0}.get(where, 0)
    sail = j if what.startswith("jib") else m
    what = what.removeprefix("jib-")
    if what == "camber":
        sail.camber = at(sail.camber, i, .5)
    elif what == "camdist":
        sail.camber_distance_from_luff = at(sail.camber_distance_from_luff, i, .97)
    elif what == "wind":
        co.wind_profile = "stormy"
    elif what == "table":
        sail.chords = np.asarray(sail.chords)[:-1]
    elif what == "nonetable":
        sail.chords = None
    elif what == "chords":
        sail.chords = at(sail.chords, i, np.nan)
    elif what == "interpolation":
        so.interpolation_type = "cubic?"
    elif what == "sails":
        rig.main_sail_luff = "long"
    elif what == "mesh":
        so.n_spanwise = "many"
    elif what == "noref":
        cs.reference_level_for_moments = np.array([1.0, 2.0])
    return ("build", "solve", "results", "tables")


WRECKS = [f"{s}{w} {p}" for s in ("", "jib-") for w in ("camber", "camdist", "chords") for p in ("first", "middle", "last")] + \
         ["wind", "table", "nonetable", "jib-table", "jib-nonetable", "interpolation", "sails", "mesh", "noref", "save"]


def check_refused(it, r):
    """A case that is refused somewhere along the way, then others (and, before it, the same others): as in a fresh process."""
    import contextlib, io
    before, x, hows, y = it
    runs = []

    def whole(n):
        k = Run(n)
        runs.append(k)
        for o in CHAIN:
            getattr(k, o)()
    try:
        if before:
            whole(y)
        refused = 0
        for how in hows:
            k = Run(x)
            bad = None
            try:
                with contextlib.redirect_stdout(io.StringIO()), contextlib.redirect_stderr(io.StringIO()):
                    if how == "save":
                        for o in ("build", "solve", "results"):
                            getattr(k, o)()
                        from pySailingVLM.results.save_utils import save_results_to_file
                        f = tempfile.NamedTemporaryFile(dir=boot.SCRATCH)
                        with f:
                            save_results_to_file(k.v, k.csys, k.R, k.ss, f.name, "r")        # a file where the folder should be
                    else:
                        for o in wreck(k, how):
                            getattr(k, o)()
            except (Exception, SystemExit) as e:
                refused, bad = refused + 1, e
            del bad
        whole(y)
        for k in runs:
            judge(k, r, f"{y if before else ''} {x} refused for {hows}, {y}")
        r.evals = len(runs) + len(hows)
        r.outcome = digest([x, *hows, y, refused])
    finally:
        for k in runs:
            k.close()


def set_to(given, want):
    """The settings objects of one case set, in place wherever an array allows it, to those of another."""
    for a, b in zip(given, want):
        for k in set(vars(a)) - set(vars(b)):
            delattr(a, k)
        for k, y in vars(b).items():
            x = getattr(a, k, None)
            if isinstance(x, np.ndarray) and isinstance(y, np.ndarray) and x.shape == y.shape and x.dtype == y.dtype:
                x[...] = y
            else:
                setattr(a, k, copy.deepcopy(y))


def check_adjusted(it, r):
    """A case, then the same settings objects changed to those of other cases one after the other (a sweep)."""
    state = it[1] if it[0] == "neighbour" else None
    if state and (FRESH.get(state) is None or FRESH.get((state[0], state[1][:-1])) is None):
        r.skip = "not a valid case"
        return
    names = ((state[0], state[1][:-1]), state, (state[0], state[1][:-1])) if state else it
    given = None
    for n in names:
        if not isinstance(n, str):
            CASES.setdefault(n, n)
        want = cases.containers(cases.config(CASES[n])) if n != DEFAULT else defaults()
        if given is None:
            given = want
        else:
            set_to(given, want)
        k = Run(n, given)
        try:
            for o in CHAIN:
                getattr(k, o)()
        except ValueError as e:
            if not state:
                raise
            r.bad("result", f"{n}: refused after the settings were changed from another case's, accepted in a fresh process ({e})")
            return
        judge(k, r, f"the same settings objects set to {names} in turn")
    r.evals = len(names)
    r.outcome = digest(k.out["vlm.force"], list(map(str, names)))


def airplane(r):
    from pySailingVLM.runner.aircraft import Aircraft
    V = np.array([5.0, 0, 0])
    a = Aircraft(1.0, 2.0, 7.0, 2, 2, V)
    r.true("wing-input", V.tolist() == [5.0, 0, 0], "free stream changed")
    return np.concatenate([a.force.ravel(), [a.CL, a.CD]])


def neighbour_run(state):
    """Everything one run hands out, from settings to report tables; None if the configuration is not a valid one."""
    if cases.in_domain(cases.config(state))[0]:
        return None
    CASES[state] = state
    k = Run(state)
    try:
        for o in CHAIN:
            getattr(k, o)()
    except ValueError:                    # ill-conditioned: refused by the solver's own accuracy check
        return None
    return k


def _neighbour(state):
    k = neighbour_run(state)
    return state, k.out if k else None


def check_neighbour(state, r):
    """Base case, a case differing in one setting only, base case again: nothing of one run reaches the other."""
    base = (state[0], state[1][:-1])
    if FRESH.get(state) is None or FRESH.get(base) is None:
        r.skip = "not a valid case"
        return
    runs = [neighbour_run(s) for s in (base, state, base)]
    if None in runs:
        r.bad("result", f"{state}: refused after another run, accepted in a fresh process")
        return
    for k in runs:
        judge(k, r, f"{base}, then only {state[1][-1]} changed, then back")
    r.evals = 3
    r.outcome = digest(runs[1].out["vlm.force"], list(map(str, state)))


WING = dict(chord_length=1.0, half_wing_span=2.0, AoA_deg=7.0, n_spanwise=2, n_chordwise=2, V=(5.0, 0, 0), rho=1.225, gamma_orientation=1.0)
WING_TO = dict(chord_length=1.3, half_wing_span=2.6, AoA_deg=-3.0, n_spanwise=4, n_chordwise=1, V=(8.0, 0, 0), rho=1000.0, gamma_orientation=-1.0)


def wing_values(d):
    from pySailingVLM.runner.aircraft import Aircraft
    a = Aircraft(**{k: np.array(x) if k == "V" else x for k, x in d.items()})
    return np.concatenate([a.force.ravel(), a.pressure, a.Cxyz, [a.CL, a.CD, a.CL_theoretical, a.CD_theoretical, a.AR]])


def _wing(var):
    return var, wing_values(dict(WING, **({var: WING_TO[var]} if var else {})))


def check_wing_neighbour(var, r):
    for v in ("", var, ""):
        r.true("wing", same(_wing(v)[1], FRESH["wing:" + v], TOL), f"isolated wing with {v or 'nothing'} changed differs from a fresh run's (history: base, {var}, base)")
    r.evals = 3


def neighbours(thorough):
    out = []
    for root, mesh in (("cruiser", (2, 2)), ("skiff", (2, 1)), ("cat", (1, 2)))[:3 if thorough else 2]:
        b = (("mesh", mesh),)
        alphabet = cases.WIDE if thorough else cases.ALPHABET
        out += [(root, b)] + [(root, b + ((v, a),)) for v in alphabet for a in alphabet[v]
                              if a != (mesh if v == "mesh" else cases.ROOTS[root][v])]
    return out


def fresh_neighbours(states):
    """Each result from a process of its own, forked before this one has computed anything."""
    with mp.get_context("fork").Pool(8, maxtasksperchild=1) as pool:
        for s, o in pool.imap_unordered(_neighbour, states, chunksize=1):
            FRESH[s] = o
        for v, o in pool.imap_unordered(_wing, ["", *WING_TO], chunksize=1):
            FRESH["wing:" + v] = o


def check_runs(names, r):
    done, wing = [], []
    shared = {}
    try:
        for n in names:
            if n == "W":
                wing.append(airplane(r))
                continue
            k = Run(n, shared.get(n))
            shared[n] = k.given                    # a case repeated uses the very same settings objects
            done.append(k)
            for o in CHAIN:
                getattr(k, o)()
        for k in done:
            judge(k, r, names)
        for w in wing[1:]:
            r.true("wing", same(w, wing[0], TOL), "the isolated wing differs on repetition")
        r.evals = len(names)
        r.outcome = digest(list(names))
    finally:
        for k in done:
            k.close()


def run(ctx):
    import matplotlib.pyplot, openpyxl  # noqa: F401,E401
    import pySailingVLM.solver.vlm, pySailingVLM.runner.sail, pySailingVLM.results.save_utils, pySailingVLM.solver.panels_plotter, pySailingVLM.runner.aircraft  # noqa: F401,E401
    fresh()
    if len(FRESH) != len(CASES) + 1:
        ctx.map("fresh run", lambda it, r: r.bad("fresh", f"cases {sorted({*CASES, DEFAULT} - set(FRESH))} do not run on their own"), ["fresh"], parallel=False)
        return

    near = neighbours(ctx.thorough)
    fresh_neighbours(near)

    def orders(n):
        return ["".join("0" if i in z else "1" for i in range(2 * n)) for z in itertools.combinations(range(2 * n), n)]
    pairs = [("A", "B"), ("A", "E"), ("C", "D"), ("A", "A")] if not ctx.thorough else list(itertools.combinations_with_replacement("ABCDE", 2))
    ctx.map("interleavings", check_interleaving, [(x, y, s, "short", o) for x, y in pairs for s in (True, False) for o in orders(len(CHAIN))])
    lp = [("A", "E", True), ("C", "D", False)] if not ctx.thorough else [(x, y, s) for x, y in pairs for s in (True, False)]
    lo = orders(len(LONG))
    if not ctx.thorough:      # at most two switches between the cases after the first
        lo = [o for o in lo if sum(a != b for a, b in zip(o, o[1:])) <= 3]
    ctx.map("interleavings with saving and plotting", check_interleaving, [(x, y, s, "long", o) for x, y, s in lp for o in lo])
    ops = ("build", "solve", "results", "tables", "save", "plot")
    seqs = [(n, z) for n in ("A", "D") for d in (1, 2) for z in itertools.product(ops, repeat=d)]
    seqs += [("A", z) for z in itertools.product(ops[:4], repeat=3)]
    if ctx.thorough:
        seqs += [(n, z) for n in "ABC" for z in itertools.product(ops, repeat=3)] + [("D", z) for z in itertools.product(ops[:5], repeat=4)]
    ctx.map("cases one setting apart", check_neighbour, [s for s in near if len(s[1]) > 1])
    ctx.map("wings one setting apart", check_wing_neighbour, list(WING_TO))
    ctx.map("operation sequences", check_sequence, list(dict.fromkeys(seqs)))
    ctx.map("runs after arrays were overwritten", check_spoilt,
            [(x, n, y) for x in [*"ABCDE", DEFAULT] for y in [*"ABCDE", DEFAULT] for n in ctx.q((1, 4), (1, 2, 3, 4, 5, 6))])
    ctx.map("settings changed in place, one at a time", check_adjusted, [("neighbour", s) for s in near if len(s[1]) > 1])
    ctx.map("settings changed in place from case to case", check_adjusted,
            list(itertools.product([*"ABCDE", DEFAULT], repeat=ctx.q(2, 3))))
    ref = [(b, x, (h,), y) for h in WRECKS for b in (False, True) for x in "AC" for y in ctx.q("AD" if x == "A" else "C", "ABCDE")]
    ctx.map("runs after one that was refused", check_refused, ref)
    ctx.map("runs after two that were refused", check_refused, [(False, "A", (g, h), "A") for g in WRECKS[::ctx.q(3, 1)] for h in WRECKS])
    ctx.map("orders of whole runs", check_runs, ["".join(z) for z in itertools.product("ABCDEW", repeat=ctx.q(3, 5))])
    ctx.extra["interleaving_bound"] = "all interleavings of two cases (4 operations each); with saving and plotting 5 operations each, " + \
        ("all" if ctx.thorough else "at most 3 switches")
