"""Degenerate panels, winds and settings, and disturbed linear solutions: the solver either refuses or gives a valid solution."""
import itertools, json, os, subprocess, sys
import numpy as np
import boot, cases, ref
from engine import digest

NAN, INF = float("nan"), float("inf")
BAD = {
    "mesh": [(0, 2), (2, 0), (-1, 2)],
    "leeway": [NAN, INF, 1e9], "heel": [NAN, INF, 90., 100., 180., -90., 270.],
    "SOG": [NAN, INF, 0., -4.63, 1e300], "tws": [NAN, INF, 0., -5, 1e300, 1e-300], "alpha": [NAN, INF, 180.],
    "expc": [NAN, INF, -1, 50, 1000.], "wref": [NAN, INF, 3., 50., -1e300, 5.], "href": [NAN, 0., -10., INF, 1e-300],
    "rough": [NAN, 0., -1, 10., 2., INF],
    "mluff": [NAN, INF, 0., -5., 1e-9, 1e300], "jluff": [NAN, INF, 0., -5., 1e-9], "fore_h": [NAN, 0., -3., INF],
    "fore_b": [NAN, 0., -2, INF], "sheer": [NAN, 0., -3., -1.2, INF], "boom": [NAN, -1.2, -2., INF],
    "rake": [NAN, 0., 180., -90., 270., 360.], "mast_LOA": [NAN, INF, -1],
    "m_chords": [("poly", 0., 0, 0), ("poly", -2., 0, 0), ("at", -1, 2., 0.), ("at", 0, 2., 0.), ("poly", NAN, 0, 0),
                 ("at", 2, 2., NAN), ("poly", INF, 0, 0), ("poly", 1e-9, 0, 0), ("poly", 2, -2, 0), ("poly", 2, -4, 0)],
    "m_twist": [("poly", NAN, 0, 0), ("at", 1, 5., NAN), ("poly", INF, 0, 0), ("poly", 180., 0, 0), ("poly", 90, 0, 0)],
    "m_camber": [("poly", NAN, 0, 0), ("at", 1, .05, NAN)],
    "m_camdist": [("poly", NAN, 0, 0), ("poly", .9, 0, 0)],
    "j_chords": [("poly", 0., 0, 0), ("at", -1, 2., 0.), ("at", 0, 2., NAN)],
    "j_twist": [("poly", NAN, 0, 0), ("at", -1, 5., NAN)],
}
FIELDS = ("areas", "normals", "ctr_p", "cp", "rings", "span_vectors", "gamma_magnitude", "V_app_fs_at_ctrl_p", "V_induced_at_ctrl",
          "V_app_fs_at_cp", "V_induced_at_cp", "force", "lift", "drag", "pressure")


def broken(panels, v):
    """Why the handed-out solution is none, or None."""
    for k in FIELDS:
        a = np.asarray(getattr(v, k), float)
        if not np.isfinite(a).all():
            return f"{k} is not finite: {a[~np.isfinite(a)][:3]}"
    q = np.asarray(panels, float)
    if np.asarray(v.areas).shape != (len(q),):
        return f"{len(q)} panels but areas of shape {np.asarray(v.areas).shape}"
    if (np.asarray(v.areas) < 1e-14).any():
        return f"panel area {np.min(v.areas)!r}"
    n = np.cross(q[:, 2] - q[:, 0], q[:, 3] - q[:, 1])
    n = n / np.linalg.norm(n, axis=1)[:, None]
    V = np.asarray(v.V_app_fs_at_ctrl_p)
    f = np.abs(np.einsum("ij,ij->i", V, n))
    lim = 1e-12 + 1e-14 * np.abs(V).max() + 1e-15 * np.abs(v.V_induced_at_ctrl).max()
    if not (f <= lim).all():
        return f"flux {f.max():.3e} through panel {int(np.argmax(f))} of {len(q)} (allowed {lim:.1e})"


def hopeless(panels, V=None):
    """The panels (or winds) cannot carry a solution at all."""
    q = np.asarray(panels, float)
    if not np.isfinite(q).all():
        return "a corner that is not a number"
    if len(q) == 0:
        return "no panel"
    tri = lambda a, b, c: np.linalg.norm(np.cross(q[:, b] - q[:, a], q[:, c] - q[:, a]), axis=1)
    if (np.max([tri(0, 1, 2), tri(1, 2, 3), tri(2, 3, 0), tri(3, 0, 1)], axis=0) < 1e-16).any():
        return "a panel of no area"
    if V is not None and not np.isfinite(V).all():
        return "a wind that is not a number"


def verdict(r, panels, make, must=None, tag=""):
    """make() builds the solver object; it must raise, or give a solution (never, when must says why it cannot)."""
    try:
        v = make()
    except (Exception, SystemExit) as e:
        r.outcome = "refused " + type(e).__name__
        return None
    r.outcome = digest(np.round(np.asarray(v.gamma_magnitude), 5))
    if must:
        r.bad("accepted", f"{tag}{must}: solved without an error")
        return None
    why = broken(panels, v)
    if why:
        r.bad("not-a-solution", f"{tag}reported as solved although {why}")
    return v


# ------------------------------------------------------------------ settings
def check_settings(state, r):
    from pySailingVLM.solver.vlm import Vlm
    c = cases.config(state)
    try:
        ss, csys = cases.build_geometry(c)
        wind = cases.build_wind(c)
    except (Exception, SystemExit) as e:
        r.outcome = "geometry refused " + type(e).__name__
        return
    q = np.asarray(ss.panels)
    must = hopeless(q)
    if not must:
        try:
            must = hopeless(q, ref.app_wind(c, np.abs(ref.lattice(q, *c["mesh"], c["go"])["cp"][:, 2])))
        except Exception:
            pass
    verdict(r, q, lambda: Vlm(ss.panels, c["mesh"][1], c["mesh"][0], c["rho"], wind, ss.trailing_edge_info, ss.leading_edge_info, c["go"]), must)


def settings(ctx):
    out = []
    for root in ctx.q(("cruiser", "skiff", "plank"), ("cruiser", "skiff", "plank", "cat", "toy", "raft", "ship")):
        vs = list(BAD)
        for k in vs:
            out += [(root, ((k, x),)) for x in BAD[k]]
        pairs = [p for p in itertools.combinations(vs, 2)] if ctx.thorough else []
        for a, b in pairs:
            out += [(root, ((a, x), (b, y))) for x in BAD[a][:4] for y in BAD[b][:4]]
        for prof in ("exponential", "logarithmic", "flat"):
            if prof != cases.ROOTS[root]["profile"]:
                for k in ("SOG", "tws", "alpha", "expc", "wref", "href", "rough"):
                    out += [(root, (("profile", prof), (k, x))) for x in BAD[k]]
    return out


# ------------------------------------------------------------------ raw grids
def steady(spoil=None):
    """A user's own wind law: the same wind everywhere, but for one height at which one component is spoilt."""
    from pySailingVLM.inlet.winds import WindBase

    class Steady(WindBase):
        def get_true_wind_speed_at_h(self, height):
            V = np.array([5.0, 2.5, 0.1])
            if spoil:
                at = np.isclose(height, spoil[0], rtol=1e-9, atol=0)
                V[spoil[1]] = spoil[2] if at else V[spoil[1]]
            return V
    return Steady(25.0, 5.6, 2.0)


GRIDS = [(1, 1, 1), (2, 2, 1), (3, 2, 1), (4, 3, 1), (5, 1, 1), (1, 5, 1), (3, 2, 2), (13, 3, 1), (3, 11, 1)]


def grid(ns, nc, k, size=1.0):
    """Panels (one or two sails and their images) of a slightly warped surface."""
    out = []
    for m in range(k):
        one = np.zeros((nc, ns, 4, 3))
        P = lambda i, j: size * np.array([i / nc * (2. - .1 * j) - 3. * m + .2 * j, .05 * (i / nc) ** 2 + .02 * j + .1 * i / nc, 1. + j * .7 - .02 * i])
        for i in range(nc):
            for j in range(ns):
                one[i, j] = [P(i + 1, j), P(i, j), P(i, j + 1), P(i + 1, j + 1)]
        out.append(one.reshape(-1, 4, 3))
    up = np.concatenate(out)
    dn = np.concatenate([(o.reshape(nc, ns, 4, 3) * [1, 1, -1])[:, ::-1][:, :, [3, 2, 1, 0]].reshape(-1, 4, 3) for o in out])
    te = np.zeros((nc, ns), bool)
    te[-1] = True
    le = np.zeros((nc, ns), bool)
    le[0] = nc > 1
    return np.ascontiguousarray(np.concatenate([up, dn])), np.tile(te.ravel(), 2 * k), np.tile(le.ravel(), 2 * k)


SPOILS = ["point", "flat chord", "flat span", "line", "nan0", "nan2", "inf1", "zero"]


def spoil(q, k, how):
    q = q.copy()
    if how == "point":
        q[k] = q[k][0]
    elif how == "zero":
        q[k] = 0.0
    elif how == "flat chord":
        q[k][0], q[k][3] = q[k][1], q[k][2]
    elif how == "flat span":
        q[k][2], q[k][3] = q[k][1], q[k][0]
    elif how == "line":
        a, b = np.array([1., 0, 2.]), np.array([1., 0, 3.])
        q[k] = [a, a + (b - a) * .25, b, a + (b - a) * .5]
    elif how[:3] == "nan":
        q[k][int(how[3]), k % 3] = NAN
    elif how[:3] == "inf":
        q[k][int(how[3]), (k + 1) % 3] = INF
    return q


def solve_raw(q, te, le, g, wind, rho=1.225):
    from pySailingVLM.solver.vlm import Vlm
    return Vlm(q, g[1], g[0], rho, wind, te, le, -1.0)


def check_panels(it, r):
    g, size, ks = it
    q0, te, le = grid(*g, size)
    n = len(q0)
    v = verdict(r, q0, lambda: solve_raw(q0, te, le, g, REAL()))
    r.true("refused-valid", v is not None, f"a regular grid {g} was refused")
    seen = []
    for k in ks:
        for how in SPOILS if n < 30 else ("flat chord", "nan2"):
            q = spoil(q0, k, how)
            verdict(r, q, lambda: solve_raw(q, te, le, g, REAL()), hopeless(q), f"grid {g}, panel {k} {how}: ")
            seen.append(r.outcome)
            r.evals += 1
            r.edges += 1
    for a, b in itertools.combinations(range(min(n, 8)) if 0 in ks else (), 2):        # a panel twice: singular or nearly so
        q = q0.copy()
        q[b] = q[a]
        verdict(r, q, lambda: solve_raw(q, te, le, g, REAL()), None, f"grid {g}, panel {b} on top of {a}: ")
        seen.append(r.outcome)
        r.evals += 1
    r.outcome = "|".join(sorted(set(seen)))[:200]


def check_twice(it, r):
    """The very same sail two or three times over: only the sum of the copies' circulations matters, so there is no solution to report.
    Rounding may leave the equations a hair away from singular; then chance decides and copies come out unlike each other, which is
    left alone. Copies alike mean that one of infinitely many answers was picked and handed out."""
    ns, nc, m, turn = it
    q, te, le = grid(ns, nc, 1)
    n = len(q) // 2
    c, s = np.cos(turn), np.sin(turn)
    Q = np.ascontiguousarray(np.concatenate([q[:n]] * m + [q[n:]] * m) @ np.array([[c, s, 0], [-s, c, 0], [0, 0, 1.]]))
    try:
        v = solve_raw(Q, np.tile(te, m), np.tile(le, m), (ns, nc, m), REAL())
    except Exception as e:
        r.outcome = f"refused {type(e).__name__}"
        return
    g = np.asarray(v.gamma_magnitude, float).reshape(2, m, n)
    alike = np.abs(g - g[:, :1]).max() <= 1e-6 * np.abs(g).max()
    r.true("undetermined", not alike, f"{m} copies of one sail with {ns} x {nc} panels in the same place: solved without an error, circulations {g[0, :, 0]}")
    r.outcome = "copies unlike" if not alike else "copies alike"


def REAL():
    c = cases.finish(dict(cases.ROOTS["plank"], SOG=5.0, tws=6.0, alpha=40.0))
    return cases.build_wind(c)


WINDS = [(j, x) for j in range(3) for x in (NAN, INF, -INF)]


def check_winds(g, r):
    q, te, le = grid(*g)
    n, seen = len(q), []
    v = verdict(r, q, lambda: solve_raw(q, te, le, g, steady()))
    if v is None or not np.allclose(v.inlet_conditions.V_app_infs, [7., 2.5, .1]):
        r.skip = "the stand-in wind is not what this solver asks"
        return
    for k in range(n // 2):
        for j, x in WINDS:
            w = steady((abs(v.cp[k, 2]), j, x))
            verdict(r, q, lambda: solve_raw(q, te, le, g, w), f"wind component {j} is {x} at panel {k} of {n}")
            seen.append(r.outcome)
            r.evals += 1
            r.edges += 1
    r.outcome = "|".join(sorted(set(seen)))[:200]


# ------------------------------------------------------------------ disturbed linear solution
DISTURB = [NAN, INF, -INF, 1e-2, -1e-2, 1e-4, -1e-6, 3e-8]


def check_disturbed(it, r):
    """The linear solver hands back a solution with one entry off: the flux through its panel must be noticed."""
    g, ks = it
    q, te, le = grid(*g)
    n, seen, used = len(q), [], [0]
    real = np.linalg.solve
    where, by = [None], [0.0]

    def off(a, b):
        x = real(a, b)
        used[0] += 1
        if where[0] is not None:
            x = np.array(x)
            x[where[0]] += by[0]
        return x
    np.linalg.solve = off
    try:
        v = verdict(r, q, lambda: solve_raw(q, te, le, g, REAL()))
        r.true("refused-valid", v is not None, f"a regular grid {g} was refused")
        if not used[0]:
            r.skip = "numpy's solver is not what solves the equations"
            return
        for k in ks:
            for d in DISTURB if n < 30 else (NAN, -1e-6):
                where[0], by[0] = k, d
                verdict(r, q, lambda: solve_raw(q, te, le, g, REAL()), f"circulation {k} of {n} is off by {d}")
                seen.append(r.outcome)
                r.evals += 1
                r.edges += 1
    finally:
        np.linalg.solve = real
    r.outcome = "|".join(sorted(set(seen)))[:200]


# ------------------------------------------------------------------ the guard itself
FLUX = [0., .9e-12, -.9e-12, 1.2e-12, -1.2e-12, 1e-6, 1., -1., 1e6, NAN, INF, -INF]
AREA = [1., 2e-14, .5e-14, 1e-20, 0., -1., NAN]


def check_guard(it, r):
    """Every position x every flux x every area: acceptance exactly when the flux is within 1e-12 and the area is not below 1e-14."""
    from pySailingVLM.solver import forces
    guard = getattr(forces, "is_no_flux_BC_satisfied", None)
    if guard is None:
        r.skip = "no separate guard"
        return
    n, quiet = it
    q, _, _ = grid(1, 1, 1)
    for k in range(n):
        for f in FLUX:
            for a in AREA:
                N = np.tile([0., 1., 0.], (n, 1))
                V = np.tile([quiet, 0., .3 * quiet], (n, 1))
                A = np.full(n, 2.0)
                V[k, 1], A[k] = f, a
                want = bool(abs(f) <= 1e-12 and a >= 1e-14)
                try:
                    got = bool(guard(V, np.tile(q[:1], (n, 1, 1)), A, N))
                except Exception:
                    got = False
                r.true("guard", got == want, f"panel {k} of {n} with flux {f} and area {a} (speed {quiet}): {'accepted' if got else 'refused'}")
                r.evals += 1
    r.edges += r.evals
    r.outcome = digest(np.array(it))


# ------------------------------------------------------------------ the isolated wing
WING = dict(chord=[1.0, 0., -1., NAN, INF, 1e-9], half=[5.0, 0., -2., NAN, INF, 1e-9], aoa=[4.0, 0., 90., NAN, INF],
            V=[(10., 0., 0.), (0., 0., 0.), (NAN, 0., 0.), (10., NAN, 0.), (INF, 0., 0.), (-3., 1., 0.)], mesh=[(4, 2), (1, 1), (0, 2), (3, 0)])


def check_wing(it, r):
    from pySailingVLM.runner.aircraft import Aircraft
    ch, ha, ao, V, (ns, nc) = it
    try:
        w = Aircraft(ch, ha, ao, ns, nc, np.array(V, float), 1.225)
        got = np.append(np.asarray(w.Cxyz, float), [w.CL, w.CD]) if hasattr(w, "CL") else np.asarray(w.Cxyz, float)
    except (Exception, SystemExit) as e:
        r.outcome = "refused " + type(e).__name__
        return
    r.outcome = digest(np.round(got, 6))
    if not all(map(np.isfinite, (ch, ha, ao) + tuple(V))) or ch == 0 or ha == 0 or ns < 1 or nc < 1:
        r.bad("accepted", f"wing {it} solved without an error: {got}")
    elif np.linalg.norm(V) > 0 and not np.isfinite(got).all():
        r.bad("not-a-solution", f"wing {it}: coefficients {got}")


def check_disturbed_wing(it, r):
    """As above for the isolated wing: every circulation off by enough to let flow through its panel must be refused."""
    from pySailingVLM.runner.aircraft import Aircraft
    ns, nc, go = it
    real, where, by, used = np.linalg.solve, [None], [0.0], [0]

    def off(a, b):
        x = np.array(real(a, b))
        used[0] += 1
        if where[0] is not None:
            x[where[0]] += by[0]
        return x
    np.linalg.solve = off
    try:
        Aircraft(1.0, 3.0, 5.0, ns, nc, np.array([10., 0., 0.]), 1.2, go)
        if not used[0]:
            r.skip = "numpy's solver is not what solves the equations"
            return
        for k in range(ns * nc):
            for d in (NAN, INF, 1e-1, -1e-3, 1e-6):
                where[0], by[0] = k, d
                r.evals += 1
                r.edges += 1
                try:
                    Aircraft(1.0, 3.0, 5.0, ns, nc, np.array([10., 0., 0.]), 1.2, go)
                except Exception:
                    continue
                r.bad("not-a-solution", f"wing with {ns} x {nc} panels: circulation {k} is off by {d}, accepted")
    finally:
        np.linalg.solve = real
    r.outcome = digest(np.array(it))


def wings(ctx):
    base = [WING[k][0] for k in WING]
    out = [tuple(base)]
    for k in ctx.q((1, 2), (1, 2, 3)):
        for ix in itertools.combinations(range(len(base)), k):
            for vals in itertools.product(*[list(WING.values())[i][1:] for i in ix]):
                b = list(base)
                for i, v in zip(ix, vals):
                    b[i] = v
                out.append(tuple(b))
    return out


# ------------------------------------------------------------------ with assertions off
def modes_items():
    """A selection run in a fresh interpreter with assertions switched off: (kind, arguments)."""
    out = [("panel", ((1, 1, 1), k, how)) for k in range(2) for how in SPOILS] + [("panel", ((2, 1, 1), k, how)) for k in range(4) for how in ("flat chord", "nan2")]
    out += [("disturbed", ((1, 1, 1), k, d)) for k in range(2) for d in DISTURB] + [("disturbed", ((1, 2, 1), k, d)) for k in range(4) for d in (NAN, 3e-8)]
    out += [("settings", s) for s in (("plank", (("tws", NAN),)), ("plank", (("mluff", 0.),)), ("skiff", (("m_chords", ("poly", 0., 0, 0)),)))]
    out += [("wing", (1.0, 5.0, 4.0, (NAN, 0., 0.), (2, 1))), ("wing", (1.0, 0.0, 4.0, (10., 0., 0.), (2, 1))), ("wing", (1.0, 5.0, 4.0, (10., 0., 0.), (2, 1)))]
    return out


def one(kind, a, r):
    if kind == "panel":
        g, k, how = a
        q, te, le = grid(*g)
        q = spoil(q, k, how)
        verdict(r, q, lambda: solve_raw(q, te, le, g, REAL()), hopeless(q), f"grid {g}, panel {k} {how}: ")
    elif kind == "disturbed":
        g, k, d = a
        q, te, le = grid(*g)
        real, by, used = np.linalg.solve, [0.], [0]

        def off(A, b):
            x = np.array(real(A, b))
            used[0] += 1
            x[k] += by[0]
            return x
        np.linalg.solve = off
        try:
            solve_raw(q, te, le, g, REAL())
            if not used[0]:
                r.outcome = "other solver"
                return
            by[0] = d
            verdict(r, q, lambda: solve_raw(q, te, le, g, REAL()), f"circulation {k} is off by {d}")
        finally:
            np.linalg.solve = real
    elif kind == "settings":
        check_settings(a, r)
    else:
        check_wing(a, r)


def child():
    import engine
    out = []
    for kind, a in modes_items():
        r = engine.Result()
        try:
            one(kind, a, r)
        except Exception as e:
            r.bad("raised", f"{type(e).__name__}: {e}")
        out.append((r.viol, r.outcome))
    sys.stderr.write("RESULT" + json.dumps(out) + "\n")


def check_optimised(flag, r):
    env = dict(os.environ, VERIF_INTERPRETED="1", VERIF_REPO=boot.REPO, PYTHONOPTIMIZE="")
    code = f"import sys; sys.path.insert(0, {os.path.join(boot.VERIF, 'mc')!r}); import boot; from checks import C24; C24.child()"
    p = subprocess.run([sys.executable] + ([flag] if flag else []) + ["-c", code], env=env, capture_output=True, text=True, timeout=100,
                       cwd=boot.SCRATCH)
    lines = [l for l in p.stderr.splitlines() if l.startswith("RESULT")]
    if not lines:
        r.bad("no-answer", f"python {flag}: {p.stderr[-300:]}")
        return
    out = json.loads(lines[0][6:])
    r.evals = len(out)
    for (kind, a), (viol, o) in zip(modes_items(), out):
        for k, m in viol:
            r.bad(k, f"python {flag}: {kind} {a}: {m}")
    r.outcome = "|".join(sorted({str(o) for _, o in out}))[:200]


def slices(g, m=6):
    n = 2 * g[0] * g[1] * g[2]
    return [tuple(range(a, min(n, a + m))) for a in range(0, n, m)]


def run(ctx):
    import pySailingVLM.solver.vlm, pySailingVLM.runner.sail, pySailingVLM.runner.aircraft  # noqa: F401,E401
    sizes = ctx.q((1.0,), (1.0, .05, 40.0))
    ctx.map("the guard", check_guard, [(n, s) for n in (1, 2, 3, 7, 16) for s in (0., 9., 400.)], chunk=1)
    ctx.map("settings", check_settings, settings(ctx))
    ctx.map("collapsed panels", check_panels, [(g, s, ks) for g in GRIDS for s in sizes for ks in slices(g)], chunk=1)
    ctx.map("the same sail twice", check_twice, [(ns, nc, m, t) for ns in range(1, ctx.q(6, 9)) for nc in range(1, ctx.q(4, 6)) for m in (2, 3) for t in (0., 1., 2.5)])
    ctx.map("winds", check_winds, GRIDS[:-2] if not ctx.thorough else GRIDS, chunk=1)
    ctx.map("disturbed solutions", check_disturbed, [(g, ks) for g in GRIDS for ks in slices(g)], chunk=1)
    ctx.map("wings", check_wing, wings(ctx))
    ctx.map("disturbed wings", check_disturbed_wing, [(ns, nc, go) for ns, nc in ((1, 1), (4, 2), (2, 3), (5, 1)) for go in (1.0, -1.0)], chunk=1)
    ctx.map("assertions off", check_optimised, ["", "-O"], chunk=1)
    ctx.assumptions += ["density is an ordinary number; an all-zero wind may be solved (all zeros) or refused",
                        "a wrong linear solution is made by disturbing what numpy.linalg.solve returns"]
