"""Similarity and symmetry: the explored graph's transitions are transformations of a whole case; both ends are run."""
import copy
import numpy as np
import cases, ref, rigs
from engine import digest
from checks import C01

DEEP = 1          # scale factors tried per law


def outputs(ss_panels, v):
    return dict(panels=np.asarray(v.panels), gamma=v.gamma_magnitude, V=v.inlet_conditions.V_app_infs, Vind=v.V_induced_at_cp,
                Vcp=v.V_app_fs_at_cp, Vctr=v.V_app_fs_at_ctrl_p, force=v.force, lift=v.lift, drag=v.drag, p=v.pressure,
                cp=v.p_coeffs, area=v.areas, q0=.5 * v.rho * np.max(np.einsum("ij,ij->i", v.inlet_conditions.V_app_infs, v.inlet_conditions.V_app_infs)))


def run_case(c):
    ss, csys, v, R, hull = cases.results(c)
    o = outputs(ss.panels, v)
    o.update(F=R.F_xyz_total, M=R.M_total_above_water_in_xyz_csys, keel=R.M_xyz_underwater_estimate_total,
             Mi=R.M_xyz, **section(v, c))
    return o


def section(v, c):
    from pySailingVLM.solver.coefs import get_data_for_coeff_plot
    from types import SimpleNamespace
    h, l, d = get_data_for_coeff_plot(v, SimpleNamespace(n_spanwise=c["mesh"][0], n_chordwise=c["mesh"][1]))
    return dict(sec_l=np.array(l))


VEC = ("V", "Vind", "Vcp", "Vctr", "force", "lift", "drag", "F", "M", "keel", "Mi", "panels")
TOTALS = {"F": "force", "M": "Mi", "keel": "Mi"}


def compare(r, key, a, b, power, fn=None, tol=2e-9):
    """b == transformed a; power[q] multiplies q, fn(name, array) transforms it first. Differences are measured against
    the quantity's own size, but at least against the size it has at a pressure coefficient of order one."""
    V = np.abs(b["V"]).max()
    A = np.abs(b["area"]).max()
    q0 = b["q0"]
    floor = dict(gamma=V * np.sqrt(A), Vind=V, Vcp=V, Vctr=V, p=q0, cp=1.0, force=q0 * A, lift=q0 * A, drag=q0 * A, F=q0 * A,
                 M=q0 * A * 3, Mi=q0 * A * 3, keel=q0 * A * 3)
    for q in a:
        if q == "q0" or q == "sec_l" and np.abs(a["lift"]).max() < 1e-5 * a["q0"] * np.abs(a["area"]).min():
            continue
        want = np.asarray(a[q], float) * power.get(q, 1.0)
        if fn:
            want = fn(q, want)
        s = np.abs(want).max()
        if q in TOTALS:
            s = np.abs(a[TOTALS[q]]).sum() * power.get(q, 1.0)
        s = max(s, floor.get(q, 0.0))
        r.same(f"{key}:{q}", b[q], want, tol, scale=s)
    r.evals += 1
    r.edges += 1


def lengths(c, k):
    d = copy.deepcopy(c)
    for x in ("mluff", "jluff", "fore_h", "fore_b", "sheer", "boom", "mast_LOA", "wref", "href", "rough"):
        d[x] = c[x] * k
    d["ref"], d["clr"] = tuple(k * np.array(c["ref"])), tuple(k * np.array(c["clr"]))
    for s in "mj":
        d["tables"][s]["chords"] = c["tables"][s]["chords"] * k
    return d


def flatten(c):
    d = copy.deepcopy(c)
    for s in "mj":
        d["tables"][s]["camber"] = 0 * d["tables"][s]["camber"]
    return d


def other_tack(c):
    d = copy.deepcopy(c)
    for s in "mj":
        d["tables"][s]["twist"] = -d["tables"][s]["twist"]
    for k in ("heel", "leeway", "alpha"):
        d[k] = -c[k]
    for k in ("ref", "clr"):
        d[k] = (c[k][0], -c[k][1], c[k][2])
    return d


PORT = np.array([1.0, -1.0, 1.0])


def port(q, x):
    """Port-starboard reflection of a quantity: vectors by reflection, moments as axial vectors, circulation and
    pressures (defined with the panel's own corner order) change sign."""
    if q in ("M", "keel", "Mi"):
        return x * -PORT
    if q in VEC:
        return x * PORT
    if q in ("gamma", "p", "cp"):
        return -x
    return x


def turned(q, x, deg):
    if q in VEC:
        sh = x.shape
        return ref.rodrigues(x.reshape(-1, 3), [0, 0, 1], ref.rad(deg)).reshape(sh)
    return x


def ok(c):
    why, g = cases.in_domain(c)
    if why:
        return False
    R = ref.lattice(g["panels"], *c["mesh"], c["go"])
    return True


def core_changes(c, g, k):
    """The vortex core is an absolute length: does scaling move any point into or out of the core of a segment?"""
    L = ref.lattice(g["panels"], *c["mesh"], c["go"])
    for P in (L["ctr"], L["cp"]):
        for a, b in ("AB", "BC", "CD", "DA"):
            cr = np.cross(P[:, None] - L[a][None], P[:, None] - L[b][None])
            cc = np.einsum("ijk,ijk->ij", cr, cr)
            if ((cc < ref.CORE) != (cc * k ** 4 < ref.CORE)).any():
                return True
    return False


def check(state, r):
    c = cases.config(state)
    why, g = cases.in_domain(c)
    if why:
        r.skip = why
        return
    V = ref.app_wind(c, np.abs(ref.lattice(g["panels"], *c["mesh"], 1.0)["cp"][:, 2]))
    tol = 2e-9
    a = run_case(c)
    few = len(state[1]) < 2 and state[0] != "cruiser" or not state[1]
    for k in ((2.0, .4) if np.abs(V).max() < 14 else (.4,))[:DEEP] + (.004,) * few:
        d = copy.deepcopy(c)
        d["SOG"], d["tws"] = c["SOG"] * k, c["tws"] * k
        P = {q: k for q in ("gamma", "V", "Vind", "Vcp", "Vctr")}
        P.update({q: k * k for q in ("force", "lift", "drag", "p", "F", "M", "keel", "Mi")})
        compare(r, "speed", a, run_case(d), P, tol=tol)
    for k in (830.0,) + (1e-4,) * few:
        d = copy.deepcopy(c)
        d["rho"] = c["rho"] * k
        compare(r, "density", a, run_case(d), {q: k for q in ("force", "lift", "drag", "p", "F", "M", "keel", "Mi")}, tol=tol)
    for k in (1.7, .5)[:DEEP] + (.06, 25.0) * few:
        if core_changes(c, g, k):
            continue
        d = lengths(c, k)
        P = dict(gamma=k, panels=k, area=k * k)
        P.update({q: k * k for q in ("force", "lift", "drag", "F")})
        P.update({q: k ** 3 for q in ("M", "keel", "Mi")})
        compare(r, "length", a, run_case(d), P, tol=tol)
    d = other_tack(flatten(c))
    # the smallest-angle twist mode picks another section when the twists change sign
    if c["tmode"] != "sheeting_angle_const" and ok(d) and ok(flatten(c)):
        compare(r, "tack", run_case(flatten(c)), run_case(d), {}, port, tol)
    if c["SOG"] == 0:
        for t in (20.0, -110.0)[:DEEP]:
            d = copy.deepcopy(c)
            d["leeway"], d["alpha"] = c["leeway"] + t, c["alpha"] + t
            for k in ("ref",):
                d[k] = tuple(ref.rodrigues(np.array(c[k], float), [0, 0, 1], ref.rad(t)))
            compare(r, "turn", a, run_case(d), {}, lambda q, x: turned(q, x, t), tol)
    r.outcome = digest(a["cp"])


def check_raw(state, r):
    """On the built panels themselves: sideways reflection with camber, horizontal shift, turning without boat speed."""
    from pySailingVLM.solver.vlm import Vlm
    c = cases.config(state)
    why, g = cases.in_domain(c)
    if why:
        r.skip = why
        return
    ss, csys = cases.build_geometry(c)
    ns, nc = c["mesh"]

    def solve(panels, conf):
        v = Vlm(np.ascontiguousarray(panels), nc, ns, conf["rho"], cases.build_wind(conf), np.array(ss.trailing_edge_info),
                np.array(ss.leading_edge_info), conf["go"])
        return dict(outputs(panels, v), **section(v, c))
    P = np.asarray(ss.panels)
    a = solve(P, c)
    d = dict(c, alpha=-c["alpha"])
    compare(r, "tack", a, solve(P * PORT, d), {}, port)
    for sh in ((3.5, 0, 0), (-20.0, 11.0, 0), (64.0, -47.0, 0)):
        b = solve(P + np.array(sh), c)
        compare(r, "shift", a, b, {}, lambda q, x: x + np.array(sh) if q == "panels" else x, tol=1e-8)
    z = dict(c, SOG=0.0)
    if cases.in_domain(z)[0] is None:
        a0 = solve(P, z)
        for t in (37.0, 180.0):
            Q = ref.rodrigues(P.reshape(-1, 3), [0, 0, 1], ref.rad(t)).reshape(P.shape)
            compare(r, "turn", a0, solve(Q, dict(z, alpha=z["alpha"] + t)), {}, lambda q, x: turned(q, x, t))
    # the other orientation of circulation describes the same flow
    compare(r, "orientation", a, solve(P, dict(c, go=-c["go"])), {"gamma": -1.0})
    r.outcome = digest(a["cp"])


def check_order(state, r):
    c = cases.config(state)
    for o in "jmk":
        why, g = cases.in_domain(rigs.variant(c, o))
        if why:
            r.skip = why
            return
    n = c["mesh"][0] * c["mesh"][1]
    if ref.vlm(rigs.reference_set(c, "jmk")["panels"], *c["mesh"], lambda z: ref.app_wind(c, np.abs(z)), 1.0, c["go"])["cond"] > 3e3:
        r.skip = "ill-conditioned"
        return
    base = None
    for order in ("jmk", "mjk", "kmj", "mkj"):
        ss, csys = rigs.compose(c, order)
        v = C01.make_vlm(c, ss)
        o = dict(outputs(ss.panels, v), **section(v, c))
        # back to the order j, m, k
        idx = np.concatenate([np.arange(n) + (order.index(x) + h) * n for h in (0, 3) for x in "jmk"])
        o = {q: (x if q == "q0" else np.asarray(x)[idx] if q != "sec_l" else np.asarray(x)[[order.index(y) for y in "jmk"]]) for q, x in o.items()}
        if base is None:
            base = o
        else:
            compare(r, "order", base, o, {})
    r.outcome = digest(base["cp"])


def run(ctx):
    import pySailingVLM.solver.vlm, pySailingVLM.runner.sail, pySailingVLM.yacht_geometry.hull_geometry, pySailingVLM.results.inviscid_flow  # noqa: F401,E401
    global DEEP
    DEEP = ctx.q(1, 2)
    roots = list(cases.ROOTS)
    var = C01.SOLVE_VARS + ["ref", "clr"]
    st, tr = cases.explore(["cruiser"], var, 1)
    alph = cases.WIDE if ctx.thorough else cases.ALPHABET
    st1, tr1 = cases.explore(roots, var, 1, alph)
    pairs = ["mesh", "sails", "heel", "alpha", "profile"]
    st2, tr2 = cases.explore(roots if ctx.thorough else ["skiff"], pairs + (["SOG", "leeway", "tmode", "interp", "m_camber", "go", "wref"] if ctx.thorough else []), 2)
    tr += tr1 + tr2
    st += st1
    all_ = list(dict.fromkeys(st + st2))
    ctx.map("scaled, reflected and turned cases", check, all_, tr)
    raw, _ = cases.explore(roots, ["mesh", "sails", "heel", "leeway", "alpha", "profile", "go", "m_camber", "m_twist"], 2 if ctx.thorough else 1, alph)
    ctx.map("reflected, shifted and turned panels", check_raw, raw)
    od, _ = cases.explore(["cruiser", "cat"], ["mesh", "heel", "leeway", "alpha", "profile", "go", "tmode", "m_camber"], 2 if ctx.thorough else 1, alph)
    ctx.map("sail order", check_order, od)
    ctx.assumptions += ["speeds and lengths scaled by fixed factors", "port-starboard reflection of whole cases with uncambered sails "
                        "(camber has no negative setting); with camber on the panels themselves"]
