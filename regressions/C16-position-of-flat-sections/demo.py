import os, sys
import numpy as np
from pySailingVLM.runner.container import Output, Rig, Conditions, Solver, MainSail, JibSail, Csys, Keel
from pySailingVLM.runner.sail import Wind, Sail
from pySailingVLM.rotations.csys_transformations import CSYS_transformations
from pySailingVLM.solver.vlm import Vlm
from pySailingVLM.results.inviscid_flow import InviscidFlowResults
from pySailingVLM.yacht_geometry.hull_geometry import HullGeometry

MG = np.array([0., .125, .25, .5, .75, .875, 1.])
JG = np.array([0., .25, .5, .75, 1.])


def main_sail(**kw):
    d = dict(centerline_twist_deg=12. * MG + 5, girths=MG, chords=np.array([4., 3.82, 3.64, 3.2, 2.64, 2.32, 2.]),
             camber=np.full(7, .03), camber_distance_from_luff=np.full(7, .5))
    d.update(kw)
    return MainSail(**d)


def jib_sail(**kw):
    d = dict(centerline_twist_deg=15. * JG + 7, girths=JG, chords=np.array([3.8, 2.98, 2.15, 1.33, .5]),
             camber=np.full(5, .02), camber_distance_from_luff=np.full(5, .5))
    d.update(kw)
    return JibSail(**d)


def build(ns=2, nc=2, interp="linear", twist="real_twist", cond=None, rig=None, main=None, jib=None, ref=(0., 0., 0.)):
    solver = Solver(n_spanwise=ns, n_chordwise=nc, interpolation_type=interp)
    solver.LLT_twist = twist
    c = Conditions(**(cond or {}))
    t = CSYS_transformations(c.heel_deg, c.leeway_deg, v_from_original_xyz_2_reference_csys_xyz=np.array(ref))
    r = Rig(**(rig or {}))
    s = Sail(solver, r, main or main_sail(), jib or jib_sail(), t).sail_set
    return s, t, c, solver


def solve(*a, **k):
    s, t, c, solver = build(*a, **k)
    v = Vlm(s.panels, solver.n_chordwise, solver.n_spanwise, c.rho, Wind(c).profile, s.trailing_edge_info, s.leading_edge_info)
    return v, s, t, c, solver


def near(what, a, b, tol=1e-9):
    a, b = np.asarray(a, float), np.asarray(b, float)
    if a.shape != b.shape or not np.all(np.abs(a - b) <= tol * max(1., np.max(np.abs(b)))):
        print("BROKEN:", what, "max difference", np.max(np.abs(a - b)) if a.shape == b.shape else (a.shape, b.shape))
        sys.exit(1)

try:
    build(rig=dict(sails_def="main"), main=main_sail(camber=np.zeros(7), camber_distance_from_luff=np.full(7, .95)))
except SystemExit as e:
    sys.exit(0 if e.code else 1)
except Exception:
    sys.exit(0)
print("BROKEN: accepted"); sys.exit(1)
