"""The configuration alphabet and the bridge from a configuration to the real objects."""
import copy, itertools
import numpy as np
import boot  # noqa: F401
import ref

MG = [0.0, 0.125, 0.25, 0.5, 0.75, 0.875, 1.0]
JG = [0.0, 0.25, 0.5, 0.75, 1.0]
G4 = [0.0, 0.3, 0.6, 1.0]

# named span-wise tables; each is a function of the girth
SHAPES = {
    "chords": {
        "m_std": lambda g: 4.0 - 1.55 * g - 0.45 * g ** 2, "rect": lambda g: 2.0 + 0 * g,
        "tri": lambda g: 3.2 - 2.9 * g, "roach": lambda g: 3.0 + 1.2 * g - 2.9 * g ** 2,
        "j_std": lambda g: 3.6 - 3.1 * g, "narrow": lambda g: 0.8 - 0.3 * g,
        "slight": lambda g: 2.4 - 0.02 * g, "toy": lambda g: .34 - .21 * g ** 2, "toy2": lambda g: .28 - .2 * g,
        "ship": lambda g: 24 - 17 * g, "ship2": lambda g: 21 - 18 * g},
    "twist": {
        "slight": lambda g: 8 + 0.4 * g, "hair": lambda g: 6 + 0.003 * g ** 2, "one": lambda g: np.where(g > .99, 9.0, 8.0),
        "zero": lambda g: 0 * g, "const6": lambda g: 6.0 + 0 * g, "lin": lambda g: 5 + 12 * g,
        "curve": lambda g: 7 + 15 * g - 9 * g ** 2, "neg": lambda g: -4 - 6 * g, "big": lambda g: 18 + 14 * g,
        "bag": lambda g: 5 + 30 * g * (1 - g) * (1.4 - g), "cross": lambda g: -8 + 19 * g, "wide": lambda g: 55 - 70 * g, "less": lambda g: 21 - 13 * g},
    "camber": {
        "zero": lambda g: 0 * g, "c05": lambda g: 0.05 + 0 * g, "var": lambda g: 0.03 + 0.10 * g - 0.06 * g ** 2,
        "deep": lambda g: 0.22 - 0.1 * g, "max": lambda g: 0.29 + 0 * g, "tiny": lambda g: 1e-4 + 0 * g,
        "rise": lambda g: 0.01 + 0.12 * g, "slight": lambda g: 0.06 + 0.002 * g},
    "camdist": {
        "slight": lambda g: 0.45 + 0.004 * g,
        "half": lambda g: 0.5 + 0 * g, "var": lambda g: 0.35 + 0.2 * g, "aft": lambda g: 0.85 - 0.1 * g,
        "fore": lambda g: 0.12 + 0.05 * g, "p9": lambda g: 0.9 + 0 * g, "p05": lambda g: 0.05 + 0 * g,
        "fall": lambda g: 0.7 - 0.4 * g},
}
G15 = [0.0, .04, .1, .17, .25, .31, .4, .47, .55, .63, .7, .78, .86, .95, 1.0]
GIRTHS = {"m7": MG, "j5": JG, "g4": G4, "g15": G15}

ALPHABET = {   # variable -> values; a root's own value is simply one of them (or a further one)
    "mesh": [(3, 2), (1, 1), (1, 3), (2, 1), (4, 3), (2, 5), (5, 2), (3, 4), (6, 1), (2, 2)],
    "interp": ["linear", "spline"],
    "sails": ["jib_and_main", "jib", "main"],
    "leeway": [5.0, 0.0, -7.0, 33.0],
    "heel": [10.0, 0.0, -12.0, 26.0],
    "SOG": [4.63, 0.0, 9.5],
    "tws": [4.63, 0.7, 16.0],
    "alpha": [50.0, 12.0, -40.0, 95.0, 163.0, -128.0],
    "profile": ["exponential", "flat", "logarithmic"],
    "expc": [0.1428, 0.0, 0.35],
    "wref": [0.0, -0.9, 0.25],
    "href": [10.0, 2.5],
    "rough": [0.05, 0.0002],
    "rho": [1.225, 1000.0, 0.3],
    "mluff": [12.4, 6.5],
    "jluff": [10.0, 5.5],
    "fore_h": [11.5, 7.0],
    "fore_b": [3.9, 2.2],
    "sheer": [1.2, 0.9, 3.0],
    "boom": [1.3, 0.35],
    "rake": [92.0, 90.0, 85.0, 104.0],
    "mast_LOA": [0.15, 0.0, 1.1],
    "m_girths": ["m7", "g4"], "j_girths": ["j5", "m7"],
    "m_chords": ["m_std", "rect", "tri", "roach"], "j_chords": ["j_std", "rect", "narrow"],
    "m_twist": ["lin", "zero", "const6", "curve", "neg", "big"], "j_twist": ["lin", "zero", "curve", "neg"],
    "m_camber": ["c05", "zero", "var", "deep"], "j_camber": ["c05", "zero", "var"],
    "m_camdist": ["half", "var", "aft"], "j_camdist": ["half", "var", "fore"],
    "tmode": ["real_twist", "average_const", "sheeting_angle_const"],
    "ref": [(0, 0, 0), (2.1, 0, 0), (0, 1.3, 0), (0, 0, 2.9), (-1.4, 0.6, 1.7)],
    "clr": [(0, 0, -1.0), (1.2, 0.4, -2.3)],
    "go": [-1.0, 1.0],
}

EXTRA = {      # further, less usual values, visited as single deviations only
    "mesh": [(7, 1), (1, 8), (8, 2), (2, 8), (5, 5), (11, 1), (1, 2), (2, 4)],
    "leeway": [90.0, -55.0, 0.01], "heel": [45.0, -33.0, 0.02], "SOG": [17.0, 0.001],
    "tws": [24.0, 0.05], "alpha": [0.0, 90.0, 180.0, 245.0, 310.0, -90.0, -179.0],
    "expc": [1.0, 0.7], "wref": [-2.5], "href": [25.0, 1.0], "rough": [0.3, 0.01], "rho": [0.001, 1025.0],
    "mluff": [21.0], "jluff": [3.0], "fore_h": [16.0, 4.0], "fore_b": [6.5, 0.6], "sheer": [0.4, 5.0],
    "boom": [2.8], "rake": [98.0, 75.0, 91.0], "mast_LOA": [2.5],
    "m_girths": ["j5", "g15"], "j_girths": ["g4", "g15"], "m_chords": ["narrow", "slight"], "j_chords": ["tri", "roach", "slight"],
    "m_twist": ["bag", "cross", "wide", "less", "slight", "hair", "one"], "j_twist": ["bag", "cross", "wide", "less", "big", "const6", "slight", "hair", "one"],
    "m_camber": ["max", "tiny", "rise", "slight"], "j_camber": ["deep", "max", "tiny", "rise", "slight"],
    "m_camdist": ["fore", "p9", "p05", "fall", "slight"], "j_camdist": ["aft", "p9", "p05", "fall", "slight"],
    "ref": [(0.01, 0, 0), (-30.0, 12.0, 25.0), (0, 0, -3.0)], "clr": [(0, 0, 0.5), (-3.0, -1.0, -6.0)],
}


def _log(lo, hi, n):
    return [float(f"{x:.4g}") for x in np.geomspace(lo, hi, n)]


SWEEP = {      # every variable over its whole range, single deviations only (whole numbers stay whole numbers)
    "mesh": [(n, m) for n in range(1, 9) for m in range(1, 9) if n * m <= 24] + [(n, 1) for n in (9, 10, 13, 24, 37)] + [(1, n) for n in (9, 10, 13, 24)] + [(13, 3), (3, 13), (12, 5)],
    "leeway": [*range(-180, 181, 15), 1, -2, 7.3, 89, 1e-4, -1e-7, 179.5], "heel": [*range(-48, 49, 6), 1, -1, 3.7, 61, 1e-4, -1e-7],
    "SOG": _log(1e-4, 30, 9) + [1, 5], "tws": _log(1e-3, 40, 12) + [1, 5], "alpha": [*range(-180, 361, 12), 1, -1, 89.9, 1e-5, 179.99],
    "expc": _log(1e-3, 3, 8) + [1, -.1], "wref": [-20.0, -5, -1, -.1, -1e-6, .01, .1, .5], "href": _log(.3, 300, 8) + [1, 10, 12],
    "rough": _log(1e-7, .9, 8), "rho": _log(1e-5, 1e5, 9) + [1, 2],
    "mluff": _log(.5, 90, 10) + [10, 11.5], "jluff": _log(.5, 90, 10) + [12.4, 11.5], "fore_h": _log(1, 90, 8) + [10, 3.9], "fore_b": _log(.1, 40, 8) + [11.5, 1],
    "sheer": _log(.06, 30, 8) + [1, 1.3], "boom": _log(.01, 20, 7) + [1, 1.2], "rake": [*range(68, 113, 4), 90.01, 89.999, 91.5, 95.1], "mast_LOA": _log(.001, 5, 6) + [1],
    "ref": [(x, 0, 0) for x in (-50, -3, 1e-3, 7)] + [(0, x, 0) for x in (-9, .01, 4)] + [(0, 0, x) for x in (-6, 1e-3, .5, 12.4, 60)] + [(1, 2, 3), (-2, 5, -1)],
    "clr": [(x, 0, -1) for x in (-8, .5, 4)] + [(0, y, -1.5) for y in (-2, .3)] + [(0, 0, z) for z in (-20, -.1, -1e-3, 0, .2, 3)],
    "m_twist": [("poly", a, b, 0) for a in (-90, -30, -3, .01, 2, 11, 45, 89, 120) for b in (0, 6)] + [("at", i, 9., 12.) for i in (0, 1, 2, 3, -1)] + [("poly", 8, 0, 1e-6), ("whole", 5, 9)],
    "j_twist": [("poly", a, b, 0) for a in (-90, -30, -3, .01, 2, 11, 45, 89) for b in (0, 6)] + [("at", i, 9., 12.) for i in (0, 1, 2, -1)] + [("poly", 8, 0, 1e-6), ("whole", 7, -5)],
    "m_chords": [("poly", a, -.3 * a, 0) for a in _log(.02, 30, 8)] + [("at", i, 2., 2.4) for i in (0, 1, 2, 3, -1)] + [("poly", 1, 1, 1), ("poly", 2, -1.99, 0), ("whole", 4, -3), ("poly", 2, -2, 0), ("at", -1, 2., 0.), ("at", 0, 2., 0.)],
    "j_chords": [("poly", a, -.3 * a, 0) for a in _log(.02, 30, 8)] + [("at", i, 2., 2.4) for i in (0, 1, 2, -1)] + [("poly", 1, 1, 1), "m_std", ("whole", 3, -2), ("poly", 2, -2, 0), ("at", -1, 2., 0.)],
    "m_camber": [("poly", a, 0, 0) for a in _log(1e-6, .3, 9)] + [("at", i, .05, .08) for i in (0, 1, 2, 3, -1)] + [("at", i, 0., .04) for i in (0, 2, -1)] + [("whole", 0, 0)],
    "j_camber": [("poly", a, 0, 0) for a in _log(1e-6, .3, 9)] + [("at", i, .05, .08) for i in (0, 1, 2, -1)] + [("at", i, 0., .04) for i in (0, 2, -1)],
    "m_camdist": [("poly", a, 0, 0) for a in (.02, .1, .2, .25, .3, 1 / 3, .4, .6, 2 / 3, .75, .8, .9)] + [("at", i, .5, .4) for i in (0, 1, 2, 3, -1)],
    "j_camdist": [("poly", a, 0, 0) for a in (.02, .1, .2, .25, .3, 1 / 3, .4, .6, 2 / 3, .75, .8, .9)] + [("at", i, .5, .4) for i in (0, 1, 2, -1)],
}


def _merge(*lists):
    out = []
    for x in itertools.chain(*lists):
        if x not in out:
            out.append(x)
    return out


ODD = {k: v + EXTRA.get(k, []) for k, v in ALPHABET.items()}
WIDE = {k: _merge(v, EXTRA.get(k, []), SWEEP.get(k, [])) for k, v in ALPHABET.items()}


def shape(kind, name, g):
    """A table by name, or ("poly", a, b, c) for a + b g + c g^2, ("at", i, v, w): v everywhere but w at entry i,
    or ("whole", a, b): a + b g rounded to integers."""
    if isinstance(name, str):
        return SHAPES[kind][name](g)
    if name[0] == "poly":
        return name[1] + name[2] * g + name[3] * g * g
    if name[0] == "whole":                        # a table of whole numbers, kept as such
        return np.round(name[1] + name[2] * g).astype(int)
    out = np.full(len(g), float(name[2]))
    out[name[1]] = name[3]
    return out


GEOMETRY = ["mesh", "interp", "sails", "leeway", "heel", "mluff", "jluff", "fore_h", "fore_b", "sheer", "boom", "rake",
            "mast_LOA", "m_girths", "j_girths", "m_chords", "j_chords", "m_twist", "j_twist", "m_camber", "j_camber",
            "m_camdist", "j_camdist", "tmode"]
WIND = ["SOG", "tws", "alpha", "profile", "expc", "wref", "href", "rough"]

ROOTS = {
    "cruiser": dict(mesh=(3, 2), interp="spline", sails="jib_and_main", leeway=5.0, heel=10.0, SOG=4.63, tws=4.63,
                    alpha=50.0, profile="exponential", expc=.1428, wref=0.0, href=10.0, rough=.05, rho=1.225,
                    mluff=12.4, jluff=10.0, fore_h=11.5, fore_b=3.9, sheer=1.2, boom=1.3, rake=92.0, mast_LOA=.15,
                    m_girths="m7", j_girths="j5", m_chords="m_std", j_chords="j_std", m_twist="lin", j_twist="lin",
                    m_camber="c05", j_camber="c05", m_camdist="half", j_camdist="half", tmode="real_twist",
                    ref=(0, 0, 0), clr=(0, 0, -1.0), go=-1.0),
    "skiff": dict(mesh=(2, 3), interp="linear", sails="main", leeway=-6.0, heel=-8.0, SOG=2.0, tws=7.0,
                  alpha=-70.0, profile="logarithmic", expc=.1, wref=0.0, href=5.0, rough=.001, rho=1.29,
                  mluff=7.0, jluff=5.0, fore_h=6.0, fore_b=2.0, sheer=1.6, boom=.8, rake=97.0, mast_LOA=.05,
                  m_girths="g4", j_girths="g4", m_chords="roach", j_chords="narrow", m_twist="neg", j_twist="neg",
                  m_camber="var", j_camber="var", m_camdist="var", j_camdist="var", tmode="real_twist",
                  ref=(1.1, -.4, .8), clr=(.7, 0, -1.4), go=-1.0),
    "cat": dict(mesh=(3, 3), interp="spline", sails="jib_and_main", leeway=2.0, heel=14.0, SOG=6.0, tws=6.0,
                alpha=105.0, profile="flat", expc=.2, wref=-.5, href=8.0, rough=.01, rho=1.18,
                mluff=9.0, jluff=7.5, fore_h=8.0, fore_b=2.6, sheer=1.9, boom=.5, rake=88.0, mast_LOA=.3,
                m_girths="m7", j_girths="m7", m_chords="tri", j_chords="rect", m_twist="curve", j_twist="curve",
                m_camber="var", j_camber="zero", m_camdist="aft", j_camdist="fore", tmode="average_const",
                ref=(0, 0, 1.5), clr=(.3, .1, -.9), go=-1.0),
    "plank": dict(mesh=(4, 1), interp="linear", sails="main", leeway=0.0, heel=0.0, SOG=0.0, tws=1.0,
                  alpha=8.0, profile="flat", expc=0.0, wref=0.0, href=10.0, rough=.05, rho=1.0,
                  mluff=5.0, jluff=4.0, fore_h=6.0, fore_b=2.0, sheer=1.0, boom=.0, rake=90.0, mast_LOA=0.0,
                  m_girths="m7", j_girths="j5", m_chords="rect", j_chords="rect", m_twist="zero", j_twist="zero",
                  m_camber="zero", j_camber="zero", m_camdist="half", j_camdist="half", tmode="real_twist",
                  ref=(0, 0, 0), clr=(0, 0, -1.0), go=-1.0),
    "toy": dict(mesh=(3, 2), interp="linear", sails="jib_and_main", leeway=3.0, heel=6.0, SOG=.02, tws=.05,
                alpha=60.0, profile="exponential", expc=.12, wref=0.0, href=.5, rough=.0005, rho=.02,
                mluff=1.15, jluff=.92, fore_h=1.05, fore_b=.34, sheer=.14, boom=.09, rake=93.0, mast_LOA=.01,
                m_girths="m7", j_girths="g4", m_chords="toy", j_chords="toy2", m_twist="lin", j_twist="curve",
                m_camber="c05", j_camber="var", m_camdist="half", j_camdist="half", tmode="real_twist",
                ref=(.1, 0, 0), clr=(0.02, 0, -.11), go=-1.0),
    "ship": dict(mesh=(3, 2), interp="spline", sails="jib_and_main", leeway=4.0, heel=4.0, SOG=9.0, tws=16.0,
                 alpha=75.0, profile="logarithmic", expc=.1, wref=0.0, href=10.0, rough=.01, rho=1.225,
                 mluff=74.0, jluff=61.0, fore_h=66.0, fore_b=21.0, sheer=6.0, boom=3.5, rake=91.0, mast_LOA=.8,
                 m_girths="m7", j_girths="j5", m_chords="ship", j_chords="ship2", m_twist="lin", j_twist="lin",
                 m_camber="c05", j_camber="c05", m_camdist="half", j_camdist="half", tmode="real_twist",
                 ref=(0, 0, 12.0), clr=(2., 0, -4.0), go=-1.0),
    "raft": dict(mesh=(2, 3), interp="linear", sails="jib_and_main", leeway=-2.0, heel=-1.0, SOG=1.5, tws=5.0,
                 alpha=80.0, profile="exponential", expc=.4, wref=-.3, href=4.0, rough=.0003, rho=1.225,
                 mluff=4.2, jluff=3.4, fore_h=4.0, fore_b=1.6, sheer=.04, boom=.01, rake=94.0, mast_LOA=.02,
                 m_girths="g4", j_girths="g4", m_chords="rect", j_chords="narrow", m_twist="const6", j_twist="lin",
                 m_camber="c05", j_camber="var", m_camdist="var", j_camdist="half", tmode="real_twist",
                 ref=(0, .2, .5), clr=(.2, 0, -.3), go=-1.0),
}


def explore(roots, variables, bound, alphabet=None):
    """All states reachable from the roots by changing at most `bound` of `variables` (deviation-bounded exhaustive
    exploration). Returns (states in order of deviations, transitions): states are (root, ((var, value), ...))."""
    states, seen, transitions = [], set(), 0
    for k in range(bound + 1):
        for r in roots:
            base = ROOTS[r]
            for vs in itertools.combinations(variables, k):
                alph = alphabet or (WIDE if k == 1 else ALPHABET)
                alts = [[a for a in alph[v] if a != base[v]] for v in vs]
                for vals in itertools.product(*alts):
                    dev = tuple(zip(vs, vals))
                    key = (r, dev)
                    if key in seen:
                        continue
                    seen.add(key)
                    transitions += k          # edges from each predecessor with one deviation less
                    states.append((r, dev))
    return states, transitions


def config(state):
    """Full configuration of a state, with its span-wise tables."""
    r, dev = state
    c = copy.deepcopy(ROOTS[r])
    for k, v in dev:
        c[k] = v
    return finish(c)


def finish(c):
    c = dict(c)
    c["mesh"] = tuple(c["mesh"])
    c["ref"], c["clr"] = tuple(c["ref"]), tuple(c["clr"])
    tables = {}
    for s in "mj":
        g = np.array(GIRTHS[c[s + "_girths"]])
        tables[s] = {"girths": g}
        for k in ("chords", "twist", "camber", "camdist"):
            t = np.asarray(shape(k, c[f"{s}_{k}"], g))
            tables[s][k] = t if c[f"{s}_{k}"][0] == "whole" else t.astype(float)
    c["tables"] = tables
    return c


def clearance(c, g=None):
    """Lowest point of the above-water half in the reference geometry."""
    g = g or ref.sail_set(c)
    return min(G[..., 2].min() for G in g["grids"]), g


def in_domain(c, need_wind=True):
    """None if the configuration is a valid one, else the reason why it is outside the documented domain."""
    for s in ("jm" if c["sails"] == "jib_and_main" else c["sails"][0]):
        t = c["tables"][s]
        cam = ref.sections(c["interp"], t["girths"], t["camber"], c["mesh"][0])
        if c["interp"] == "spline" and np.ptp(t["camber"]) and (cam.min() < 0 or cam.max() > .3):
            return "the spline leaves the range of camber", None
    z, g = clearance(c)
    if z < 0.02:
        return "sail touches the water", g
    if need_wind:
        half = len(g["panels"]) // 2
        q = ref.lattice(g["panels"], *c["mesh"], 1.0)["cp"][:half, 2]
        if c["profile"] == "exponential" and q.min() - c["wref"] < 0.05:
            return "panel below the wind profile's water level", g
        if c["profile"] == "logarithmic" and q.min() < 2 * c["rough"]:
            return "panel below the roughness height", g
        V = ref.app_wind(c, np.abs(ref.lattice(g["panels"], *c["mesh"], 1.0)["cp"][:, 2]))
        if np.linalg.norm(V, axis=1).min() < 0.004:
            return "no apparent wind", g
    return None, g


# ---------------------------------------------------------------- real objects
def containers(c):
    from pySailingVLM.runner import container as k
    t = c["tables"]
    so = k.Solver(n_spanwise=c["mesh"][0], n_chordwise=c["mesh"][1], interpolation_type=c["interp"])
    so.LLT_twist = c["tmode"]
    co = k.Conditions(leeway_deg=c["leeway"], heel_deg=c["heel"], SOG_yacht=c["SOG"], tws_ref=c["tws"],
                      alpha_true_wind_deg=c["alpha"], reference_water_level_for_wind_profile=c["wref"],
                      wind_exp_coeff=c["expc"], wind_reference_measurment_height=c["href"], rho=c["rho"],
                      wind_profile=c["profile"], roughness=c["rough"])
    rig = k.Rig(main_sail_luff=c["mluff"], jib_luff=c["jluff"], foretriangle_height=c["fore_h"],
                foretriangle_base=c["fore_b"], sheer_above_waterline=c["sheer"], boom_above_sheer=c["boom"],
                rake_deg=c["rake"], mast_LOA=c["mast_LOA"], sails_def=c["sails"])

    def sail(cls, s):
        return cls(girths=t[s]["girths"].copy(), chords=t[s]["chords"].copy(),
                   centerline_twist_deg=t[s]["twist"].copy(), camber=t[s]["camber"].copy(),
                   camber_distance_from_luff=t[s]["camdist"].copy())
    return so, co, rig, sail(k.MainSail, "m"), sail(k.JibSail, "j"), k.Csys(np.array(c["ref"])), k.Keel(np.array(c["clr"]))


def build_geometry(c):
    from pySailingVLM.runner.sail import Sail
    from pySailingVLM.rotations.csys_transformations import CSYS_transformations
    so, co, rig, m, j, cs, ke = containers(c)
    csys = CSYS_transformations(co.heel_deg, co.leeway_deg,
                                v_from_original_xyz_2_reference_csys_xyz=cs.reference_level_for_moments)
    return Sail(so, rig, m, j, csys).sail_set, csys


def build_wind(c):
    from pySailingVLM.runner.sail import Wind
    return Wind(containers(c)[1]).profile


def solve(c):
    from pySailingVLM.solver.vlm import Vlm
    ss, csys = build_geometry(c)
    v = Vlm(ss.panels, c["mesh"][1], c["mesh"][0], c["rho"], build_wind(c), ss.trailing_edge_info,
            ss.leading_edge_info, c["go"])
    return ss, csys, v


def results(c, keel=True):
    from pySailingVLM.results.inviscid_flow import InviscidFlowResults
    from pySailingVLM.yacht_geometry.hull_geometry import HullGeometry
    ss, csys, v = solve(c)
    r = InviscidFlowResults(ss, csys, v)
    hull = HullGeometry(c["sheer"], c["fore_b"], csys, np.array(c["clr"]))
    if keel:
        r.estimate_heeling_moment_from_keel(hull.center_of_lateral_resistance)
    return ss, csys, v, r, hull
