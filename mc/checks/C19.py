"""Isolated wing: reference solution, normalisation, scaling, symmetry, theory and agreement with an upright sail."""
import contextlib, io, itertools, re
import numpy as np
import cases, ref
from engine import digest
from checks import C01

AOA = [0.0, 5.0, -5.0, 0.01, 13.0, -31.0, 62.0]
MESH = [(4, 2), (1, 1), (2, 1), (3, 3), (6, 1), (5, 4), (1, 4), (9, 2)]
CHORD = [1.0, 0.3, 2.7]
HALF = [4.0, 0.5, 11.0]
V = [10.0, 0.6, 55.0]
RHO = [1.225, 1000.0, 0.2]
GO = [1.0, -1.0]


def make(chord, half, aoa, mesh, v, rho, go):
    from pySailingVLM.runner.aircraft import Aircraft
    return Aircraft(chord, half, aoa, mesh[0], mesh[1], np.array([v, 0.0, 0.0]), rho=rho, gamma_orientation=go)


def grid(chord, half, aoa, mesh):
    ns, nc = mesh
    a = ref.rad(aoa)
    x, s = np.arange(nc + 1) / nc * chord, np.arange(ns + 1) / ns * 2 * half - half
    X, S = np.meshgrid(x, s, indexing="ij")
    return np.stack([X * np.cos(a), -X * np.sin(a), S], -1)


def reference(it):
    chord, half, aoa, mesh, v, rho, go = it
    P = ref.grid_panels(grid(chord, half, aoa, mesh))
    R = ref.vlm(P, *mesh, lambda z: np.tile([v, 0.0, 0.0], (len(z), 1)), rho, go)
    R["area"] = ref.quad_area(P)
    return R


def told_info(a):
    """The labelled numbers get_info prints."""
    out = io.StringIO()
    with contextlib.redirect_stdout(out):
        a.get_info()
    told = {}
    for k, x in re.findall(r"(Aspect Ratio|C[LD]\w*)[\s:=]+([-+.\deE]+)", out.getvalue()):
        told.setdefault(k, []).append(float(x))
    return told


def check(it, r):
    chord, half, aoa, mesh, v, rho, go = it
    R = reference(it)
    if R["edge"]:
        r.skip = "a panel edge lies on the border of the vortex core"
        return
    a = make(*it)
    S, q = 2 * half * chord, .5 * rho * v * v
    tol = 1e-9 + 1e-13 * R["cond"]
    F = np.asarray(a.force)
    sF = np.abs(R["force"]).sum() + q * S * 1e-9
    r.same("force", F, R["force"], tol, sF, "panel forces")
    C = R["force"].sum(0) / (q * S)
    sC = np.abs(C).max() + 1e-9
    r.same("coefficients", np.asarray(a.Cxyz), C, tol, sC, "force coefficients")
    r.same("coefficients-of-own-force", np.asarray(a.Cxyz), F.sum(0) / (q * S), 1e-12, sF / (q * S), "force coefficients of the forces handed out")
    r.same("lift", a.CL, C[1], tol, sC, "CL (force across the stream)")
    r.same("drag", a.CD, C[0], tol, sC, "CD (force along the stream)")
    r.same("pressure", np.asarray(a.pressure), np.einsum("ij,ij->i", R["force"], R["normals"]) / R["area"], tol, sF / R["area"].min(), "pressures")
    r.same("pressure-coefficient", a.Cp, np.einsum("ij,ij", R["force"], R["normals"]) / (q * S), tol, sF / (q * S), "mean pressure coefficient")
    from pySailingVLM.solver import coefs
    if hasattr(coefs, "get_vlm_CL_CD_free_wing"):  # the helper for wings spanning y, whose lift is along z
        turned = F[:, [0, 2, 1]]
        r.same("free-wing-helper", coefs.get_vlm_CL_CD_free_wing(turned, np.array([v, 0., 0.]), rho, S), [F[:, 1].sum() / (q * S), F[:, 0].sum() / (q * S)], 1e-12, sF / (q * S),
               "coefficients of a wing spanning y")
    AR = 2 * half / chord
    r.same("aspect-ratio", a.AR, AR, 1e-12)
    k = 2 * np.pi / (1 + 2 * np.pi / (np.pi * AR * .8))
    CLt = k * ref.rad(aoa)
    r.same("theory-lift", a.CL_theoretical, CLt, 1e-12, abs(CLt) + 1e-15, "theoretical CL")
    r.same("theory-drag", a.CD_theoretical, CLt ** 2 / (np.pi * AR * .8), 1e-12, CLt ** 2 + 1e-18, "theoretical CD")
    told = told_info(a)
    for k, x in (("Aspect Ratio", AR), ("CL_expected", CLt), ("CD_ind_expected", CLt ** 2 / (np.pi * AR * .8)), ("CL_vlm", a.CL), ("CD_vlm", a.CD)):
        for y in told.get(k, []):
            r.same("printed", y, x, 6e-7, 1.0 + abs(x), f"{k} printed")
    for k, n in (("CL_vlm", 1), ("CD_vlm", 1)):
        r.true("printed-once", len(told.get(k, [])) == n, f"{k} printed {len(told.get(k, []))} times")
    # symmetry of the span load, no net span-wise force
    G = F.reshape(mesh[1], mesh[0], 3)
    r.rel("span-symmetry", G[:, ::-1] * [1, 1, -1], G, tol, sF, "span load mirrored")
    r.rel("no-spanwise", F.sum(0)[2], 0.0, tol, sF, "net span-wise force")
    if aoa == 0:
        r.same("zero-incidence", F, 0 * F, 1e-12, q * S, "load at zero incidence")
    r.true("sign", aoa == 0 or abs(aoa) > 45 or a.CL * aoa > 0 and a.CD > 0, f"CL {a.CL} CD {a.CD} at {aoa} degrees")
    # other runs: opposite incidence, speed, density, size, orientation
    own = np.array([a.CL, a.CD, *np.asarray(a.Cxyz)])
    b = make(chord, half, -aoa, mesh, v, rho, go)
    r.rel("opposite", [b.CL, b.CD], [-a.CL, a.CD], tol, sC, "opposite incidence")
    for what, kw in (("speed", dict(v=v * 1.7)), ("density", dict(rho=rho * 3.1)), ("size", dict(chord=chord * 2.3, half=half * 2.3)), ("orientation", dict(go=-go))):
        d = dict(chord=chord, half=half, aoa=aoa, mesh=mesh, v=v, rho=rho, go=go)
        d.update(kw)
        if d["v"] > 60 or what == "size" and min(chord / mesh[1], 2 * half / mesh[0]) < .05:
            continue
        b = make(**d)
        r.rel("independent-of-" + what, [b.CL, b.CD, *np.asarray(b.Cxyz)], own, tol, sC, what)
        r.evals += 1
    r.evals += 2
    r.outcome = digest(own, [aoa])
    r.sample = dict(CL=float(a.CL), CD=float(a.CD))


def check_sail(it, r):
    """Upright main sail on the water line in a uniform wind: the upper half of the wing."""
    chord, half, aoa, mesh, v, rho, go, how = it
    c = cases.config(("plank", (("mesh", mesh), ("mluff", half), ("sheer", 0.0), ("boom", 0.0), ("rho", rho), ("go", go))))
    c["SOG"], c["tws"], c["alpha"] = dict(wind=(0.0, v, 0.0), boat=(v, 0.0, 30.0), both=(.4 * v, .6 * v, 0.0))[how]
    t = c["tables"]["m"]
    n = len(t["girths"])
    t["chords"], t["twist"] = np.full(n, chord), np.full(n, -aoa)
    ss, csys, s = cases.solve(c)
    w = make(chord, half, aoa, (2 * mesh[0], mesh[1]), v, rho, go)
    F = np.asarray(w.force).reshape(mesh[1], 2 * mesh[0], 3)[:, mesh[0]:].reshape(-1, 3)
    p = np.asarray(w.pressure).reshape(mesh[1], 2 * mesh[0])[:, mesh[0]:].ravel()
    k = mesh[0] * mesh[1]
    sF = np.abs(F).sum() + 1e-9 * rho * v * v * chord * half
    r.rel("sail-force", np.asarray(s.force)[:k], F, 1e-8, sF, "sail against wing forces")
    r.rel("sail-pressure", np.asarray(s.pressure)[:k], p, 1e-8, sF / (chord * half) * k, "sail against wing pressures")
    r.evals = 2
    r.outcome = digest(F / (rho * v * v))


def run(ctx):
    import pySailingVLM.solver.vlm, pySailingVLM.runner.sail, pySailingVLM.runner.aircraft  # noqa: F401,E401
    axes = [CHORD, HALF, AOA, MESH, V, RHO, GO]
    k = ctx.q(3, 7)
    space = [it for it in itertools.product(*axes) if sum(a != ax[0] for a, ax in zip(it, axes)) <= k]
    if not ctx.thorough:
        space = [it for it in space if sum(a != ax[0] for a, ax in zip(it, axes)) <= 2 or it[2] not in (-5.0, .01) and it[3] in MESH[:5] and it[1] != .5]
    tr = sum(sum(a != ax[0] for a, ax in zip(it, axes)) for it in space)
    ctx.map("wings", check, space, tr)
    ctx.map("large wings", check, [(1., 6., 7., m, 10., 1.2, 1.0) for m in ((20, 3), (8, 8), (40, 1), (3, 16), (64, 1), (71, 1), (100, 1), (1, 60), (12, 12))], chunk=1)
    ctx.map("proportions", check, [(ch, h, a, m, v, 1.2, 1.0) for ch in (.05, .2, 1., 5., 12.) for h in (.04, .1, .3, 1., 30.) for a in (3., -8.)
                                   for m in ((4, 2), (1, 1)) for v in (9., .01)])
    ax2 = [CHORD, HALF, AOA[1:6] + AOA[:1], MESH, V[:2], RHO, GO, ["wind", "boat", "both"]]
    sails = [it for it in itertools.product(*ax2) if sum(a != ax[0] for a, ax in zip(it, ax2)) <= ctx.q(2, 4)]
    ctx.map("upright sail", check_sail, sails, len(sails))
    ctx.assumptions += ["free stream along +x", "lift is positive for positive incidence (force along +y)"]
