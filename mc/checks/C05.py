"""Sail geometry: every reachable configuration of the rig description, point by point against the surface map."""
import numpy as np
import cases, ref
from engine import digest


def check(state, r):
    c = cases.config(state)
    why, g = cases.in_domain(c, need_wind=False)
    if why:
        r.skip = why
        return
    import pySailingVLM.runner.sail  # noqa: F401
    ss, csys = cases.build_geometry(c)
    compare(c, g, ss, r)


def compare(c, g, ss, r):
    r.same("panels", ss.panels, g["panels"], 1e-9)
    r.same("zero-mesh", ss.zero_mesh, g["zero"], 1e-9)
    for nm, got, want in (("trailing", ss.trailing_edge_info, g["te"]), ("leading", ss.leading_edge_info, g["le"])):
        got = np.asarray(got)
        r.true(nm, got.dtype == bool and got.shape == want.shape and (got == want).all(),
               f"{nm} row flags {got.tolist()} expected {want.tolist()}")
    names = ref.sail_names(c)
    r.true("names", [s.name for s in ss.sails] == names, f"sail order {[s.name for s in ss.sails]} expected {names}")
    ns, nc = c["mesh"]
    n = ns * nc
    k = len(names)
    for i, s in enumerate(ss.sails):
        tack, head = ref.mounting(c, names[i])
        r.same("tack", s.tack_mounting, tack, 1e-12, scale=10)
        r.same("head", s.head_mounting, head, 1e-12, scale=10)
        r.same("per-sail-above", s.panels_above, g["panels"][i * n:(i + 1) * n], 1e-9)
        r.same("per-sail-under", s.panels_under, g["panels"][(k + i) * n:(k + i + 1) * n], 1e-9)
        r.same("per-sail-all", s.panels, np.concatenate([s.panels_above, s.panels_under]), 0)
        r.true("mesh-size", (s.n_spanwise, s.n_chordwise) == (ns, nc), "mesh size of the sail")
        for nm, got, want in (("trailing", s.trailing_edge_info, g["te"][:n]), ("leading", s.leading_edge_info, g["le"][:n])):
            r.true("sail-" + nm, (np.asarray(got) == want).all(), f"{nm} flags of {s.name}")
    r.outcome = digest(ss.panels)
    r.sample = dict(panels=len(ss.panels), first_corner=ss.panels[0][0])


# variants that a user reaches only through the sail factory
FACTORY = [dict(twist=t, mode=m, mesh=me, heel=h, rake=rk, leeway=lw)
           for t in (None, "lin", "neg") for m in (None, "real_twist", "average_const", "sheeting_angle_const")
           for me in ((1, 1), (3, 2), (2, 4)) for h in (0.0, 18.0, -9.0) for rk in (90.0, 95.0) for lw in (0.0, -12.0)]


def check_factory(it, r):
    from pySailingVLM.yacht_geometry.sail_factory import SailFactory
    from pySailingVLM.yacht_geometry.sail_geometry import SailSet
    from pySailingVLM.rotations.csys_transformations import CSYS_transformations
    it = dict(it)
    c = cases.config(("cruiser", (("interp", "linear"), ("m_camber", "var"), ("m_camdist", "var"))))
    c.update(mesh=tuple(it["mesh"]), heel=it["heel"], rake=it["rake"], leeway=it["leeway"], sails="main",
             tmode=it["mode"])
    t = c["tables"]["m"]
    ns, nc = c["mesh"]
    twisted = it["twist"] is not None and it["mode"] is not None
    t["twist"] = np.asarray(cases.SHAPES["twist"][it["twist"] if twisted else "zero"](t["girths"]), float)
    why, g = cases.in_domain(c, need_wind=False)
    if why:
        r.skip = why
        return
    csys = CSYS_transformations(c["heel"], c["leeway"])
    f = SailFactory(csys, n_spanwise=ns, n_chordwise=nc, rake_deg=c["rake"], sheer_above_waterline=c["sheer"])
    sec = {k: ref.sections("linear", t["girths"], t[k], ns) for k in ("chords", "twist", "camber", "camdist")}
    tw = None
    if it["twist"] is not None:
        tw = ref.sections("linear", t["girths"], np.asarray(cases.SHAPES["twist"][it["twist"]](t["girths"]), float), ns)
    s = f.make_main_sail(c["mluff"], c["boom"], main_sail_chords=sec["chords"], sail_twist_deg=tw, LLT_twist=it["mode"],
                         interpolated_camber=sec["camber"], interpolated_distance_from_luff=sec["camdist"])
    compare(c, g, SailSet([s]), r)


BIG = [(r, (("mesh", m),)) for r in ("cruiser", "skiff", "cat", "plank")
       for m in ((12, 7), (25, 3), (3, 16), (40, 1), (1, 20))]


def run(ctx):
    import pySailingVLM.runner.sail  # noqa: F401
    import pySailingVLM.yacht_geometry.sail_factory  # noqa: F401
    roots = list(cases.ROOTS)
    st, tr = cases.explore(roots if not ctx.thorough else roots, cases.GEOMETRY, ctx.q(2, 2))
    if ctx.thorough:
        st3, tr3 = cases.explore(["cruiser", "cat"], cases.GEOMETRY, 3)
        st, tr = list(dict.fromkeys(st + st3)), tr3
    ctx.map("configurations", check, st, tr)
    ctx.map("large meshes", check, BIG)
    ctx.map("sail factory", check_factory, [tuple(sorted(d.items())) for d in FACTORY])
