"""Section coefficients: every strip of every sail against its own panels, in every explored configuration, plus made-up
force, area and wind fields of every shape."""
import copy, types
import numpy as np
import cases, ref, rigs
from engine import digest
from checks import C01


def sections(F, V, S, rho, k, ns, nc):
    """k sails x ns strips from above-water fields in panel order."""
    n = ns * nc
    c = np.linalg.norm(F, axis=1) / (.5 * rho * (V ** 2).sum(1) * S)
    out, area = np.zeros((k, ns)), np.zeros((k, ns))
    for s in range(k):
        for j in range(ns):
            i = s * n + j + ns * np.arange(nc)
            out[s, j] = (c[i] * S[i]).sum() / S[i].sum()
            area[s, j] = S[i].sum()
    return out, area


def judge(r, v, solver, k, ns, nc, rho, S, V):
    from pySailingVLM.solver.coefs import get_C, get_data_for_coeff_plot
    half = k * ns * nc
    want = {}
    for what, F in (("lift", v.lift), ("drag", v.drag)):
        w, A = sections(np.asarray(F)[:half], V[:half], S[:half], rho, k, ns, nc)
        got = get_C(v.panels, v.areas, F, v.inlet_conditions.V_app_infs, ns, nc, rho)
        r.same("section-" + what, got, w, 1e-10, np.abs(w).max() + 1e-12, "section " + what)
        want[what] = w / ((w * A).sum(1) / A.sum(1))[:, None]
        want[what + "-ok"] = np.abs(np.asarray(F)[:half]).max() > 1e-9 * rho * (V ** 2).sum(1).max()
    h, l, d = get_data_for_coeff_plot(v, solver)
    z = np.asarray(v.cp)[:half, 2].reshape(k, nc, ns).mean(1)
    r.same("heights", np.asarray(h), z, 1e-10, np.abs(z).max(), "heights of the strips")
    r.true("sails", len(l) == k and len(d) == k, f"{len(l)} lift and {len(d)} drag curves for {k} sails")
    for what, x in (("lift", l), ("drag", d)):
        if not want[what + "-ok"]:
            continue
        for s in range(k):
            r.same("normalised-" + what, np.asarray(x[s]), want[what][s], 1e-9, np.abs(want[what][s]).max(), f"normalised {what} of sail {s}")
            A = S[:half].reshape(k, nc, ns)[s].sum(0)
            r.rel("mean-one", (np.asarray(x[s]) * A).sum() / A.sum(), 1.0, 1e-9, 1.0, f"area-weighted mean {what} of sail {s}")
    r.evals = 3
    r.outcome = digest(want["lift"])
    return h, l, d


def check(state, r, order=None):
    c = cases.config(state)
    for o in order or [None]:
        why, g = cases.in_domain(rigs.variant(c, o) if o else c)
        if why:
            r.skip = why
            return
    if order:
        ss, csys = rigs.compose(c, order)
        v = C01.make_vlm(c, ss)
    else:
        ss, csys, v = cases.solve(c)
    k = len(order) if order else len(ref.sail_names(c))
    ns, nc = c["mesh"]
    S = np.asarray(v.areas)                     # areas themselves: C04 and C23
    V = ref.app_wind(c, np.abs(np.asarray(v.cp)[:, 2]))
    judge(r, v, cases.containers(c)[0], k, ns, nc, c["rho"], S, V)


def check_composed(it, r):
    check(it[1], r, it[0])


class Fields(types.SimpleNamespace):
    """Made-up fields; whatever else is asked for comes from a real solution of that shape."""
    def __getattr__(self, name):
        if name.startswith("__"):
            raise AttributeError(name)
        k, ns, nc = self.shape
        c = cases.config(("cruiser", (("mesh", (ns, nc)), ("rho", self.rho))))
        return getattr(C01.make_vlm(c, rigs.compose(c, "jmk"[:k])[0]), name)


def fake(shape, kind, seed):
    """A solved sail set with made-up fields, so that every panel matters and differs."""
    k, ns, nc = shape
    K = 2 * k * ns * nc
    i = np.arange(K) + 1.0
    F = np.stack([np.sin(i * 1.3 + seed), np.cos(i * .7), .3 * np.sin(2.1 * i)], 1) * (3 + np.cos(i))[:, None]
    D = np.stack([np.cos(i * 2.3 + seed), .2 * np.cos(i * .9), np.sin(1.1 * i)], 1) * (2 + np.sin(i))[:, None]
    V = np.stack([4 + np.cos(i), 2 * np.sin(i * .4) + 3, 0 * i], 1)
    S = 1 + .9 * np.sin(i * 1.9)
    cp = np.stack([0 * i, 0 * i, np.concatenate([i[:K // 2], -i[:K // 2]])], 1) * .3
    if kind == "even-area":
        S = 0 * S + .7
    if kind == "tiny-areas":
        S = S * 10.0 ** (-3 * (i % 3))
    if kind == "uniform-wind":
        V = V * 0 + [5., -2., 0.]
    ic = types.SimpleNamespace(V_app_infs=V)
    return Fields(shape=shape, panels=np.zeros((K, 4, 3)), areas=S, lift=F, drag=D, cp=cp, inlet_conditions=ic, n_spanwise=ns, n_chordwise=nc, rho=1.3)


def check_fields(it, r):
    shape, kind, seed = it
    k, ns, nc = shape
    v = fake(shape, kind, seed)
    so = types.SimpleNamespace(n_spanwise=ns, n_chordwise=nc)
    h, l, d = judge(r, v, so, k, ns, nc, 1.3, v.areas, v.inlet_conditions.V_app_infs)
    # other sails and mirrored panels have no say, its own panels do
    from pySailingVLM.solver.coefs import get_C, get_data_for_coeff_plot
    n = ns * nc
    base = get_C(v.panels, v.areas, v.lift, v.inlet_conditions.V_app_infs, ns, nc, 1.3)
    for s in list(range(k)) + ["mirror"]:
        w = copy.deepcopy(v)
        sl = slice(k * n, None) if s == "mirror" else slice(s * n, (s + 1) * n)
        w.lift[sl] *= 7
        w.areas[sl] *= 1.7
        w.inlet_conditions.V_app_infs[sl] *= .6
        got = get_C(w.panels, w.areas, w.lift, w.inlet_conditions.V_app_infs, ns, nc, 1.3)
        _, l2, _ = get_data_for_coeff_plot(w, so)
        for t in range(k):
            f = 7 / (1.7 * .36) if t == s else 1.0
            r.rel("own-panels-only", got[t], base[t] * f, 1e-10, None, f"sail {t} after changing {s}")
            r.rel("own-curve-only", np.asarray(l2[t]), np.asarray(l[t]), 1e-10, None, f"curve of sail {t} after changing {s}")
    w = copy.deepcopy(v)          # one strip of the last sail, every row in turn
    for row in range(nc):
        w = copy.deepcopy(v)
        i = (k - 1) * n + row * ns + ns - 1
        w.lift[i] *= 5
        got = get_C(w.panels, w.areas, w.lift, w.inlet_conditions.V_app_infs, ns, nc, 1.3)
        ch = np.abs(got - base) > 1e-9 * np.abs(base)
        ex = np.zeros_like(ch)
        ex[k - 1, ns - 1] = True
        r.edges += 1
        r.true("one-strip", np.array_equal(ch, ex), f"changing panel {i} changed strips {np.argwhere(ch).tolist()}")


def run(ctx):
    import pySailingVLM.solver.vlm, pySailingVLM.runner.sail, pySailingVLM.solver.coefs  # noqa: F401,E401
    st, tr = C01.space(ctx, ["mesh", "sails", "alpha", "profile"])
    ctx.map("configurations", check, st, tr)
    ctx.map("composed sail sets", check_composed, C01.composed(ctx))
    shapes = [(k, ns, nc) for k in (1, 2, 3) for ns in range(1, 6 if not ctx.thorough else 10) for nc in range(1, 6 if not ctx.thorough else 10)]
    shapes += [(1, 12, 9), (2, 40, 3), (3, 7, 11), (1, 3, 40), (2, 25, 1)]
    ctx.map("made-up fields", check_fields, [(s, kind, q) for s in shapes for kind in ("all", "even-area", "tiny-areas", "uniform-wind") for q in (0., 1.1)])
    ctx.assumptions += ["curves whose force is zero to rounding (no load at all) have no normalised values"]
