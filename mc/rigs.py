"""Sail sets a user composes directly from sail objects (any number of sails, any order), and raw panel grids."""
import copy
import numpy as np
import cases, ref


def compose(c, order, hshift=None):
    """Real sail set listing the sails of `order` (letters: j jib, m main, k a second, smaller jib further forward)."""
    from pySailingVLM.yacht_geometry.sail_geometry import SailSet
    from pySailingVLM.runner.sail import Sail
    from pySailingVLM.rotations.csys_transformations import CSYS_transformations
    sails = []
    for o in order:
        d = variant(c, o)
        so, co, rig, m, j, cs, ke = cases.containers(d)
        csys = CSYS_transformations(co.heel_deg, co.leeway_deg, v_from_original_xyz_2_reference_csys_xyz=cs.reference_level_for_moments)
        sails.append(Sail(so, rig, m, j, csys).sail_set.sails[0])
    return SailSet(sails), csys


def variant(c, o):
    d = copy.deepcopy(c)
    d["sails"] = "main" if o == "m" else "jib"
    if o == "k":
        d["fore_b"], d["jluff"] = c["fore_b"] + 1.5, c["jluff"] * .7
    return d


def reference_set(c, order):
    parts = [ref.sail_set(variant(c, o)) for o in order]
    n = len(parts[0]["panels"]) // 2
    cat = lambda k: np.concatenate([p[k][:n] for p in parts] + [p[k][n:] for p in parts])
    return dict(panels=cat("panels"), zero=cat("zero"), te=cat("te"), le=cat("le"),
                grids=[g for p in parts for g in p["grids"]])
