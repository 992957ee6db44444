"""Compiled against interpreted: the same inputs are evaluated by this process (compiled) and by a second one with
compilation disabled; every value handed out must agree to rounding and every refusal must be shared."""
import itertools, os, pickle, subprocess, sys
if __name__ == "__main__":
    sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
import boot  # noqa: E402
import numpy as np
import cases, ref
from engine import digest
from checks import C01, C03

FIELDS = ("panels", "areas", "normals", "ctr_p", "cp", "rings", "span_vectors", "gamma_magnitude", "V_induced_at_ctrl",
          "V_app_fs_at_ctrl_p", "V_induced_at_cp", "V_app_fs_at_cp", "force", "lift", "drag", "pressure", "p_coeffs")
arr = C03.arr


def points(o, d, L):
    """(points, points whose verdict or value hangs on the last bit) around the segment o..o+L d, core included."""
    A = arr(o)
    u, e, f = C03.frame(d)
    P = arr([A + t * L * u + h * (np.cos(a) * e + np.sin(a) * f) for t in C03.TS for h in C03.DS for a in ((0.,) if h < 1e-8 else (0., 2.1))])
    return P, A, A + L * u


def kernels(it):
    """One kernel on a lattice of points."""
    from pySailingVLM.solver import velocity as k
    name, o, d, L, g = it
    P, A, B = points(o, d, L)
    u, e, f = C03.frame(d)
    C, D = B + L * (.7 * e + .1 * f), A + L * (.8 * e - .2 * f)
    V = arr(e * 3 + f * .2 - u * .1)
    args = dict(vortex_line=(A, B), vortex_infinite_line=(A, V), vortex_horseshoe=(A, B, V), vortex_horseshoe_v2=(D, A, B, C, V),
                vortex_ring=(A, B, C, D))[name]
    fn = getattr(k, name)
    args = [np.ascontiguousarray(x) for x in args]

    def at(p):
        try:
            return fn(np.ascontiguousarray(p), *args, g)
        except (ZeroDivisionError, FloatingPointError):    # at a singular point: numbers or a refusal, both are no answer
            return np.full(3, np.nan)
    return {name: np.array([at(p) for p in P])}


SEG = dict(vortex_line="01", vortex_infinite_line="", vortex_horseshoe="01", vortex_horseshoe_v2="01 12 30", vortex_ring="01 12 23 30")


def clear_points(it):
    """Points whose value does not hang on the last bit: off the border of every core and away from every line (core points
    themselves stay), with a conditioning number."""
    name, o, d, L, g = it
    P, A, B = points(o, d, L)
    u, e, f = C03.frame(d)
    Q = [A, B, B + L * (.7 * e + .1 * f), A + L * (.8 * e - .2 * f)]
    ok, near = np.ones(len(P), bool), np.full(len(P), np.inf)
    for s in SEG[name].split():
        a, b = Q[int(s[0])], Q[int(s[1])]
        _, core, edge = ref.segment(P, a, b)
        w = (b - a) / np.linalg.norm(b - a)
        h = np.linalg.norm(np.cross(P - a, w), axis=1)
        n = np.minimum(np.linalg.norm(P - a, axis=1), np.linalg.norm(P - b, axis=1))
        ok &= ~edge
        near = np.minimum(near, np.where(core, np.inf, h))
    V = e * 3 + f * .2 - u * .1
    V = V / np.linalg.norm(V)
    for j in dict(vortex_line=(), vortex_infinite_line=(0,), vortex_horseshoe=(0, 1), vortex_horseshoe_v2=(3, 2), vortex_ring=())[name]:
        r = P - Q[j]
        h = np.linalg.norm(np.cross(r, V), axis=1)
        n = np.linalg.norm(r, axis=1)
        with np.errstate(all="ignore"):
            near = np.minimum(near, np.where(r @ V > 0, h * h / np.maximum(n, 1e-300), np.maximum(n, h)))
    return ok & (near > 1e-8), near, np.abs(P).max() + np.abs(Q).max() + 1


def induced(it):
    """The sums and the influence matrix on arbitrary numbers."""
    from pySailingVLM.solver.velocity import calc_induced_velocity, calculate_app_fs
    from pySailingVLM.solver.coefs import calc_velocity_coefs
    m, go, te = it
    n = np.arange(m)
    W = np.sin(1.0 + np.arange(m * m * 3)).reshape(m, m, 3) * 5
    g = np.cos(2.0 + n) * 40
    V = np.stack([3 + np.cos(n), np.sin(n) - 2, .2 * np.cos(3 * n)], 1)
    out = dict(sum=calc_induced_velocity(W, g))
    out["vi"], out["va"] = calculate_app_fs(V, W, g)
    base = np.array([(1., 0, 0), (0, 0, 0), (.1, 0, 1.), (1.2, .1, 1.)])
    rings = np.ascontiguousarray(np.stack([base * (1 + .1 * k) + [1.7 * k, .3 * k, 1.1 * k] for k in n]))
    N = np.stack([np.cos(n), np.sin(n), .3 * np.cos(n)], 1)
    pts = np.ascontiguousarray(rings.mean(1) + [.05, .4, .1])
    info = np.array([(te >> (k % 3)) & 1 for k in n], dtype=bool)
    out["M"], out["W"] = calc_velocity_coefs(np.ascontiguousarray(V), pts, rings, np.ascontiguousarray(N), info, go)
    return out


def take(v):
    d = {k: np.array(getattr(v, k)) for k in FIELDS}
    d["V_app_infs"] = np.array(v.inlet_conditions.V_app_infs)
    return d


def solves(state):
    c = cases.config(state)
    ss, csys, v, R, hull = cases.results(c)
    d = take(v)
    d.update(F=np.array(R.F_xyz_total), M=np.array(R.M_total_above_water_in_xyz_csys), CE=np.array(R.above_water_centre_of_effort_estimate_xyz),
             MK=np.array(R.M_xyz_underwater_estimate_total), te=np.array(ss.trailing_edge_info), le=np.array(ss.leading_edge_info))
    return d


def raw(it):
    from pySailingVLM.solver.vlm import Vlm
    nc, ns, n, sweep, dihedral, aoa, taper, go, rho = it
    Gs = [C01.plate(nc, ns, 1.3 + .2 * k, 4.0 - .7 * k, (2.1 * k, .4 * k, .9 + .3 * k), sweep, dihedral, aoa + 3 * k, taper) for k in range(n)]
    pan = np.concatenate([ref.grid_panels(G) for G in Gs])
    _, row, _ = ref.layout(len(pan), ns, nc)
    c = cases.config(("cruiser", (("mesh", (ns, nc)),)))
    return take(Vlm(pan, nc, ns, rho, cases.build_wind(c), row == nc - 1, (row == 0) & (nc > 1), go))


def wings(it):
    from pySailingVLM.runner.aircraft import Aircraft
    chord, half, aoa, ns, nc, V, rho, go = it
    a = Aircraft(chord, half, aoa, ns, nc, np.array(V), rho, go)
    return dict(force=np.array(a.force), p=np.array(a.pressure), C=np.array([a.CL, a.CD, *a.Cxyz, a.Cp]), th=np.array([a.CL_theoretical, a.CD_theoretical]))


ODD = {
    "no wind at all": lambda: raw_plate(lambda P: P, V0=True),
    "collapsed panel": lambda: raw_plate(lambda P: np.concatenate([P[:1] * 0 + [1., 2., 3.], P[1:]])),
    "coincident sails": lambda: raw_plate(lambda P: np.concatenate([P, P])),
    "not a number": lambda: raw_plate(lambda P: np.where(np.arange(P.size).reshape(P.shape) == 7, np.nan, P)),
    "infinite": lambda: raw_plate(lambda P: np.where(np.arange(P.size).reshape(P.shape) == 7, np.inf, P)),
    "wrong number of panels": lambda: raw_plate(lambda P: P[:-1]),
    "flags missing": lambda: raw_plate(lambda P: P, flags=2),
    "no trailing edge": lambda: raw_plate(lambda P: P, none=True),
    "spline beyond the camber range": lambda: solves(("cruiser", (("m_camber", "max"), ("m_camdist", "p05"), ("m_girths", "g4")))),
    "empty": lambda: raw_plate(lambda P: P[:0]),
    "whole-number panels": lambda: raw_plate(lambda P: np.round(P * 100).astype(int)),
    "single precision": lambda: raw_plate(lambda P: P.astype(np.float32)),
    "column-major": lambda: raw_plate(np.asfortranarray),
    "strided": lambda: raw_plate(lambda P: np.repeat(P, 2, 0)[::2]),
}


def raw_plate(change, V0=False, flags=None, none=False):
    from pySailingVLM.solver.vlm import Vlm
    pan = change(ref.grid_panels(C01.plate(2, 3, 1.3, 4.0, (0, 0, 1.), 0, 0, 7, 0)))
    _, row, _ = ref.layout(6, 3, 2)
    te, le = row == 1, row == 0
    if len(pan) == 12:
        te, le = np.tile(te, 2), np.tile(le, 2)
    if none:
        te = te & False
    c = cases.config(("cruiser", (("tws", 0.0), ("SOG", 0.0)) if V0 else ()))
    return take(Vlm(pan, 2, 3, 1.2, cases.build_wind(c), te[:flags], le[:flags], -1.0))


def odd(name):
    return ODD[name]()


KINDS = dict(kernels=kernels, induced=induced, solves=solves, raw=raw, wings=wings, odd=odd)


def evaluate(job):
    kind, it = job
    so, sys.stdout = sys.stdout, open(os.devnull, "w")
    try:
        return KINDS[kind](it)
    except BaseException as e:
        if isinstance(e, KeyboardInterrupt):
            raise
        return dict(refused=type(e).__name__, why=str(e)[:200])
    finally:
        sys.stdout = so


INTERP = {}


def interpreted(jobs):
    """Evaluate the jobs in a process without compilation."""
    a, b = os.path.join(boot.SCRATCH, "jobs.pkl"), os.path.join(boot.SCRATCH, "interpreted.pkl")
    pickle.dump(jobs, open(a, "wb"))
    env = dict(os.environ, VERIF_INTERPRETED="1")
    p = subprocess.Popen([sys.executable, os.path.abspath(__file__), a, b], env=env, stderr=subprocess.PIPE, text=True)

    def wait():
        _, err = p.communicate()
        if p.returncode:
            raise RuntimeError("interpreted process failed: " + err[-2000:])
        INTERP.update(zip(jobs, pickle.load(open(b, "rb"))))
    return wait


THREADS, ROUNDS = (2, 5, 8), 3
THREADED = {}


def threaded(jobs):
    """Evaluate the jobs compiled in processes given several threads each, ROUNDS times over (as users' machines run them)."""
    a, ps = os.path.join(boot.SCRATCH, "threaded.pkl"), []
    pickle.dump(jobs, open(a, "wb"))
    for n in THREADS:
        env = dict(os.environ, VERIF_THREADS=str(n))
        env.pop("VERIF_INTERPRETED", None)
        ps.append(subprocess.Popen([sys.executable, os.path.abspath(__file__), a, a + str(n), str(n)], env=env, stderr=subprocess.PIPE, text=True))

    def wait():
        for n, p in zip(THREADS, ps):
            _, err = p.communicate()
            if p.returncode:
                THREADED[n] = "the process with %d threads failed: %s" % (n, err[-1000:])
            else:
                THREADED[n] = dict(zip(jobs, pickle.load(open(a + str(n), "rb"))))
    return wait


def compare_threads(it, r):
    n, job = it
    if isinstance(THREADED[n], str):
        return r.bad("died", THREADED[n])
    for a in THREADED[n][job]:
        compare(job[0], job[1], r, a)
        r.evals += 1
        if r.viol:
            return


def compare(kind, it, r, a=None):
    a, b = a or evaluate((kind, it)), INTERP[(kind, it)]
    r.edges += 1
    r.evals = 2
    ra, rb = a.get("refused"), b.get("refused")
    if ra or rb:
        if bool(ra) != bool(rb):
            x = b if ra else a
            if "normals" in x and (cond(x) > 1e3 or np.abs(np.einsum("ij,ij->i", x["V_app_fs_at_ctrl_p"], x["normals"])).max() > 1e-13) and kind != "odd":
                r.skip = "residual flux at the limit"
                return
            return r.bad("refusal", f"{'compiled' if ra else 'interpreted'} refuses ({ra or rb}: {a.get('why') or b.get('why')}), the other does not")
        r.outcome = digest([ra, rb])
        return
    if kind == "odd" and not all(np.isfinite(v).all() for v in a.values() if v.dtype.kind == "f"):
        for k in a:
            r.true("finite-same", np.array_equal(np.isfinite(a[k]), np.isfinite(b[k])), f"{k}: finite in one mode only")
        return
    if kind == "kernels":
        ok, near, sc = clear_points(it)
        got, want = a[it[0]][ok], b[it[0]][ok]
        r.evals = 2 * len(ok)
        if it[0] == "vortex_line":
            core = ref.segment(*points(*it[1:4]))[1][ok]
            r.true("core", np.array_equal(got[core], want[core]), f"{it}: different on the core")
        with np.errstate(all="ignore"):
            con = sc / np.minimum(near[ok], 1.0)
            tol = np.where(np.isfinite(con), 1e-12 + 4e-15 * con + 1e-16 * con ** 2, 1e-12)
            big = abs(it[4]) * np.where(np.isfinite(near[ok]), 1 / near[ok], 1.0)
            d = np.abs(got - want).max(1) if len(got) else np.zeros(0)
            lim = tol * (np.abs(want).max(1) + big)
            bad = np.where(np.isfinite(want).all(1), ~(d <= lim), np.isfinite(got).all(1))
        if bad.any():
            i = int(np.argmax(bad))
            r.bad("kernel", f"{it[0]} compiled {got[i]} interpreted {want[i]}, difference {d[i]:.2e} allowed {lim[i]:.2e}")
        r.outcome = digest(got)
        return
    tol = 1e-11 + (1e-14 * min(cond(b), 1e9) if "normals" in b else 0)
    sV = max([np.abs(b[k]).max() for k in ("V_app_infs", "V_induced_at_ctrl", "V_induced_at_cp") if k in b] or [0])
    scale = dict(V_induced_at_ctrl=sV, V_induced_at_cp=sV, V_app_fs_at_ctrl_p=sV, V_app_fs_at_cp=sV)
    if "force" in b:
        F = np.abs(b["force"]).max() + 1e-12
        scale.update({k: F * len(b["force"]) for k in ("force", "lift", "drag", "F")})
        scale.update({k: F * len(b["force"]) * 30 for k in ("M", "MK")})
        if "areas" in b:
            scale["pressure"] = F / b["areas"].min()
            scale["p_coeffs"] = np.abs(b["p_coeffs"]).max() + 1e-9
        if "CE" in b:
            scale["CE"] = 30 * F * len(b["force"]) / (np.linalg.norm(b["F"]) + 1e-12)
        if "C" in b:
            scale["C"] = np.abs(b["C"]).max() + 1e-3
    for k in b:
        if a[k].dtype.kind == "b":
            r.true("flags", np.array_equal(a[k], b[k]), f"{k} differs")
        else:
            r.same("value", a[k], b[k], tol, scale.get(k, np.abs(b[k]).max() + 1e-12), f"{k} compiled against interpreted")
    if "gamma_magnitude" in b:
        r.outcome = digest(b["gamma_magnitude"])
    else:
        r.outcome = digest(*[b[k] for k in sorted(b)])


def cond(b):
    """Condition of the reference influence matrix for these panels (cheap upper view: spread of circulation response)."""
    P = b["panels"]
    if not np.isfinite(P).all() or len(P) > 200:
        return 1e3
    n = len(P)
    L = dict(A=b["rings"][:, 0], B=b["rings"][:, 1], C=b["rings"][:, 2], D=b["rings"][:, 3], te=np.zeros(n, bool))
    W, _ = ref.influence(b["ctr_p"], L, b["V_app_infs"], 1.0)
    M = np.einsum("ijk,ik->ij", W, b["normals"])
    M[np.arange(n), np.arange(n)] += 0
    s = np.linalg.svd(M, compute_uv=False)
    return min(s[0] / max(s[-1], 1e-300), 1e7)


def jobs_of(ctx):
    J = {}
    gam = [1.0, -1.0, -340.7, 1 / 3, 0.0] + (C03.GAM[2:5] if ctx.thorough else [])
    J["kernels"] = [(n, o, d, L, g) for n in SEG for o in C03.ORIG for d in C03.DIRS for L in C03.LENS for g in gam
                    if ctx.thorough or (C03.ORIG.index(o) + C03.DIRS.index(d) + C03.LENS.index(L)) % 2 == 0 and (g in (1.0, -1.0) or L == 1.0)]
    J["induced"] = [(m, go, te) for m in (1, 2, 3, 7, 8, 9, 16, 17, 33, 40) for go in (1.0, -1.0) for te in (0, 1, 5, 7)
                    if m < 33 or te == 5 or ctx.thorough]
    vs = ["mesh", "sails", "leeway", "heel", "SOG", "alpha", "profile", "rho", "go", "tmode", "interp", "m_camber", "m_twist", "ref"]
    st, tr = cases.explore(["cruiser", "skiff"], vs, 1, cases.ALPHABET)
    st2, tr2 = cases.explore(["cat", "plank"], ["mesh", "sails", "alpha", "go"], 1, cases.ALPHABET)
    st = [s for s in st + st2 if cases.in_domain(cases.config(s))[0] is None]
    if ctx.thorough:
        st3, tr3 = cases.explore(list(cases.ROOTS), C01.SOLVE_VARS, 1)
        st4, tr4 = cases.explore(["cruiser", "skiff"], ["mesh", "sails", "heel", "alpha", "go", "profile"], 2)
        st, tr = list(dict.fromkeys(st + [s for s in st3 + st4 if cases.in_domain(cases.config(s))[0] is None])), tr + tr3 + tr4
    st += [("skiff", (("mesh", (14, 3)),)), ("plank", (("mesh", (5, 9)),)), ("plank", (("mesh", (34, 1)),))]
    J["solves"] = st
    J["raw"] = [(nc, ns, n, sw, di, a, t, go, rho) for nc, ns in ((1, 1), (1, 5), (4, 1), (2, 3), (3, 2)) for n in (1, 2, 3)
                for sw, di, a, t in ((0, 0, 6, 0), (.3, .2, -9, .4)) for go, rho in ((-1., 1.2), (1., 1000.))]
    J["wings"] = [(ch, h, a, ns, nc, V, rho, go) for ch, h in ((1., 4.), (.3, 5.)) for a in (5., -12., 0.) for ns, nc in ((4, 2), (3, 1), (2, 4))
                  for V in ((10., 0., 0.), (3, 0, 0), (8., 1., .5)) for rho, go in ((1.225, 1.0), (1000., -1.0)) if ns == 4 or V[0] == 10.]
    J["odd"] = list(ODD)
    return J, tr + tr2


def run(ctx):
    J, tr = jobs_of(ctx)
    import engine
    if ctx.replay is not None:
        J = {k: [engine.retuple(ctx.replay["item"])] if k == ctx.replay["part"] else [] for k in (*J, "threads")}
    T = [("induced", (m, go, 5)) for m in (7, 16, 33, 40) for go in (1.0, -1.0)] + [("solves", ("skiff", (("mesh", (14, 3)),))), ("solves", ("cruiser", ()))]
    T += [("raw", (4, 1, 2, 0, 0, 6, 0, -1., 1.2)), ("wings", (1., 4., 5., 4, 2, (10., 0., 0.), 1.225, 1.0))]
    if ctx.replay is not None:
        T = [J["threads"][0][1]] if J.get("threads") else []
    J.pop("threads", None)
    wait = interpreted([(k, it) for k, items in J.items() for it in items] + T)
    wait2 = threaded(T) if T else (lambda: None)
    import pySailingVLM.solver.vlm, pySailingVLM.runner.sail, pySailingVLM.runner.aircraft, pySailingVLM.results.inviscid_flow  # noqa: F401,E401
    import pySailingVLM.yacht_geometry.hull_geometry  # noqa: F401
    wait()
    wait2()
    for k, items in J.items():
        ctx.map(k, lambda it, r, k=k: compare(k, it, r), items, tr if k == "solves" else 0)
    ctx.map("threads", compare_threads, [(n, job) for n in THREADS for job in T])
    ctx.assumptions += ["several threads: the schedules the runtime takes in each of %d rounds for 2, 5 and 8 threads, not all of them" % ROUNDS,
                        "kernel points whose verdict or value hangs on the last bit (border of a core, the line of a wake) are not compared",
                        "inputs are floating-point (or whole-number) arrays and the strength is given"]


if __name__ == "__main__":
    import concurrent.futures as cf, multiprocessing as mp
    jobs = pickle.load(open(sys.argv[1], "rb"))
    import pySailingVLM.solver.vlm, pySailingVLM.runner.sail, pySailingVLM.runner.aircraft, pySailingVLM.results.inviscid_flow  # noqa: F401,E401
    if len(sys.argv) > 3:
        import numba
        numba.set_num_threads(int(sys.argv[3]))
        out = [[evaluate(j) for _ in range(ROUNDS)] for j in jobs]
        pickle.dump(out, open(sys.argv[2], "wb"))
        sys.exit(0)
    heavy = sorted(range(len(jobs)), key=lambda i: jobs[i][0] != "solves")
    out = [None] * len(jobs)
    with cf.ProcessPoolExecutor(min(8, os.cpu_count() or 1), mp_context=mp.get_context("fork")) as ex:
        for i, o in zip(heavy, ex.map(evaluate, [jobs[i] for i in heavy], chunksize=4)):
            out[i] = o
    pickle.dump(out, open(sys.argv[2], "wb"))
