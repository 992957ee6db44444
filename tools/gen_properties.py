"""Writes /verif/properties.jsonl (kept as a script so that the long records stay readable)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, observe, state=None):
    d = dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text),
             why_tests_cant=why,
             anchors=dict(files=["pySailingVLM/" + f for f in files],
                          mechanism=[dict(name=n, where="pySailingVLM/" + w) for n, w in mech],
                          observe_at=observe, hook_needed=None))
    if state:
        d["anchors"]["state"] = [dict(name=a, meaning=b, where="pySailingVLM/" + c) for a, b, c in state]
    P.append(d)

I, C, H, F, CP, PR = "inputs", "configurations", "histories", "fault_sequences", "crash_points", "programs"

prop("C01", "Flow tangency: the solved circulations cancel the flow through every panel",
 "For every valid sail set, mesh size, wind and attitude, the solved circulations leave no flow through any panel: at the control point three quarters of the way aft along the panel's mid-chord, the apparent wind plus the velocity induced by all vortex rings (mirror images included, each ring running from its panel's quarter-chord line to the next panel's, and trailing-edge rings shedding semi-infinite wakes along the local apparent wind) has no component along the panel's unit normal. "
 "The circulations, induced velocities and total velocities at the control points equal those of an independent vortex-lattice solution of the same panels, for any number of sails, chordwise rows and spanwise strips and either circulation orientation.",
 [I, C], "All sail sets (jib, main, both), mesh sizes, wind profiles and speeds, heel/leeway, camber, twist and rig dimensions for which the sails stay clear of the water.",
 "Tests solve a handful of meshes (two sails only once, with 4x2 panels and no camber) and compare stored numbers; the code's own zero-flux assertion uses the code's own influence matrix, so a wrong ring, wake or normal stays self-consistent.",
 ["solver/vlm.py", "solver/coefs.py", "solver/velocity.py", "solver/panels.py"],
 [("ring and control point construction", "solver/coefs.py"), ("influence matrix and linear solve", "solver/coefs.py"), ("induced velocity accumulation", "solver/velocity.py")],
 ["Vlm.gamma_magnitude", "Vlm.V_app_fs_at_ctrl_p", "Vlm.V_induced_at_ctrl", "Vlm.ctr_p", "Vlm.normals", "Vlm.rings"])

prop("C02", "Panel loads obey the Kutta-Joukowski theorem",
 "For every solved sail set the force on a panel is the air density times the cross product of the total velocity at the middle of its quarter-chord bound vortex with the net bound circulation along that vortex, the net circulation being the panel's own minus that of the panel just upstream in the same strip of the same sail (its own alone on the leading row). "
 "The lift part uses only the apparent wind, the drag part only the induced velocity, and the two add up to the total force; pressure is the force component along the unit normal divided by the panel area, and the pressure coefficient is pressure over the local apparent-wind dynamic pressure.",
 [I, C], "All solved configurations of one or two sails, any rows and strips, any wind profile, density and orientation; the requested load kind is one of total, lift, drag (any other name is refused).",
 "The stored reference loads cover one two-sail mesh with two chordwise rows; three or more rows, a single row or strip, log or flat winds, cambered sails and the lift/drag split of a sail set are never compared with anything.",
 ["solver/forces.py", "solver/vlm.py", "solver/velocity.py"],
 [("force evaluation per panel", "solver/forces.py"), ("pressure and coefficient", "solver/forces.py")],
 ["Vlm.force", "Vlm.lift", "Vlm.drag", "Vlm.pressure", "Vlm.p_coeffs", "Vlm.V_app_fs_at_cp", "Vlm.V_induced_at_cp"])

prop("C03", "Vortex segments, rings and wakes induce the Biot-Savart velocity",
 "The velocity induced at a point by a straight vortex segment, a semi-infinite line, a horseshoe (with or without chordwise legs) and a closed ring is the Biot-Savart velocity, exactly linear in the circulation and reversed by reversing the vortex; rings and horseshoes are the sums of their sides, splitting a segment changes nothing, and moving vortex and point together moves the velocity with them. "
 "A segment induces exactly zero, and never a non-finite value, at points on its core: within 1e-8 of an end point or where the squared norm of the cross product of the two end-to-point vectors is below 1e-8.",
 [I], "All end points, field points, directions and circulations at which the velocity is defined, in every octant, in front of, beside and behind the vortex.",
 "Tests evaluate a few hand-picked points, mostly in the plane of the vortex and with unit strength.",
 ["solver/velocity.py", "solver/coefs.py"],
 [("segment, semi-infinite line, horseshoe and ring kernels", "solver/velocity.py"), ("core test", "solver/velocity.py"), ("influence coefficients", "solver/coefs.py")],
 ["vortex_line", "vortex_infinite_line", "vortex_horseshoe", "vortex_horseshoe_v2", "vortex_ring", "calc_velocity_coefs"])

prop("C04", "The water surface acts as a mirror",
 "For every sail set standing clear of the water, the under-water half of every result (panel corners, areas, vortex rings, winds, circulation, velocities, forces, lift, drag, pressure and pressure coefficient) is the reflection in the water plane of the above-water half, panel by panel of the same sail. "
 "Hence the velocity induced by the whole set at any point of the water plane has no vertical component.",
 [I, C], "All sail sets, attitudes (heel and leeway of either sign), twists, camber and camber-position distributions along the span, mesh sizes and winds for which no sail touches the water.",
 "Tests check the mirrored geometry for zero camber or constant camber position and never check the mirrored loads or the water-plane velocity.",
 ["yacht_geometry/sail_geometry.py", "rotations/csys_transformations.py", "inlet/inlet_conditions.py", "solver/vlm.py", "solver/mesher.py"],
 [("mirrored mesh construction", "yacht_geometry/sail_geometry.py"), ("mirrored heel rotation", "rotations/csys_transformations.py"), ("wind taken at the height above or below water", "inlet/inlet_conditions.py")],
 ["SailSet.panels", "Vlm fields", "InviscidFlowResults.F_xyz"])

prop("C05", "The sail surface is the one the rig description specifies",
 "The leading edge of each built sail is the straight mast or forestay line implied by sheer, boom, rake, foretriangle, mast and luff dimensions, divided evenly into the requested strips; at every girth the section has the interpolated chord, follows the four-digit camber line with the interpolated camber and position, and is turned about the luff by the twist of the chosen twist mode (real, average or smallest-angle everywhere). "
 "The upright shape is then heeled to leeward and turned by the leeway as one rigid body, and the sail set lists for each sail in order its above-water panels and then all mirrored ones, chordwise rows from luff to leech and strips from foot to head, with exactly the first row (when there is more than one) flagged leading and the last flagged trailing.",
 [I, C], "All rig and sail dimension sets, mesh sizes, interpolation types, twist modes, rake below, at and above 90 degrees, positive and negative heel and leeway, for sails clear of the water.",
 "Geometry tests use two rigs, no camber or constant camber, one twist mode and mostly check end points rather than every mesh point.",
 ["yacht_geometry/sail_factory.py", "yacht_geometry/sail_geometry.py", "solver/mesher.py", "solver/panels.py", "runner/sail.py"],
 [("mounting points", "yacht_geometry/sail_factory.py"), ("mesh, twist and rotation", "yacht_geometry/sail_geometry.py"), ("panel numbering and edge flags", "solver/panels.py")],
 ["SailSet.panels", "SailSet.zero_mesh", "SailSet.trailing_edge_info", "SailSet.leading_edge_info", "SailGeometry.tack_mounting"])

prop("C06", "Attitude rotations are rigid, correctly directed and exactly undone",
 "Rotating by any angle about any axis, through the origin or through any two points (not a line parallel to x), is the right-handed rigid rotation: it keeps distances and handedness, leaves the axis fixed, composes additively in the angle and agrees across all routines offered. "
 "Heel tips a point of the upper half towards leeward about the bow-stern axis and its mirror image the mirrored way, leeway then turns it about the vertical, and undoing the attitude of any point that stays on its own side of the water returns the original point.",
 [I], "All axes, axis positions, angles beyond a full turn of either sign, points in every octant, heel and leeway of either sign.",
 "Tests use one or two angles and points each.",
 ["rotations/geometry_calc.py", "rotations/csys_transformations.py"],
 [("rotation matrices", "rotations/geometry_calc.py"), ("attitude transformations", "rotations/csys_transformations.py")],
 ["rotation_matrix", "rotate_points_around_arbitrary_axis", "rotate_points_around_origin_axis", "CSYS_transformations"])

prop("C07", "Wind at each height and apparent wind follow the chosen profile and boat speed",
 "The true wind at a height has the reference speed at the reference height and follows the chosen law (uniform; logarithmic in height over roughness; power of the height above the profile's own water level), always from the given true wind angle and horizontal; the apparent wind is the true wind plus the head wind of the yacht's own speed. "
 "Each panel sees the wind at the height of its quarter-chord point above (or, mirrored, below) the water, lengths are those of the vectors, reported apparent angles give the vector's direction in every quadrant, and angles relative to the yacht's centreline are smaller by the leeway.",
 [I, C], "All profiles, angles in the full circle, speeds including a zero boat speed, heights, roughness, exponent, reference height and water level offsets.",
 "No test exercises the logarithmic profile, a shifted water level, a nonzero angle above 90 degrees or the angle columns outside the first quadrant.",
 ["inlet/winds.py", "inlet/inlet_conditions.py", "runner/sail.py", "results/inviscid_flow.py"],
 [("profile laws", "inlet/winds.py"), ("per-panel inlet conditions", "inlet/inlet_conditions.py"), ("profile selection", "runner/sail.py"), ("finite-sail apparent angle", "results/inviscid_flow.py")],
 ["WindBase.get_true_wind_speed_at_h", "WindBase.get_app_infs_at_h", "InletConditions", "InletConditions.to_df_full", "to_df_integral", "AWA_fs_COG_deg"])

prop("C08", "Girth interpolation reproduces the sail-maker's table",
 "Interpolating a girth table to any number of sections samples the whole luff evenly from foot to head inclusive, also when the table covers only a part of it; every requested section that coincides with a table girth gets exactly the tabulated value, linear interpolation joins the table by straight lines, and spline interpolation is the smooth cubic through the table, reproducing any cubic law exactly. "
 "The result is linear in the tabulated values and independent of the other sail, and mirrored tables are the sections reversed then repeated, jib before main.",
 [I], "All strictly increasing girth tables from 0 to 1 with four or more stations, all values, any number of sections.",
 "No test looks at the interpolator on its own; sail tests only use tables that are straight lines or constants.",
 ["solver/interpolator.py", "runner/sail.py"],
 [("interpolation switch", "solver/interpolator.py"), ("mapping of rig tables to sections", "runner/sail.py")],
 ["Interpolator.interpolate_girths", "Interpolator.interpolate_and_mirror_girths", "Interpolator.interpolate_data_for_sections"])

prop("C09", "Resultants, moments and centre of effort are statically consistent",
 "Total force and moment are the sums over the above-water panels only, the moment of each panel being taken about the chosen reference point (mirrored for mirrored panels); the per-sail totals belong to the named sails and add up to the totals, and moving the reference point changes every moment by exactly the transport term and no force. "
 "The centre of effort is the same point of space whatever the reference point and reproduces the total moment's component across the force as well as the sum of position-times-force over the panels; the keel reacts with the opposite of the total sail force at the heeled centre of lateral resistance (the one last given, where several are tried), so that the sum of sail and keel moments is the same about every reference point.",
 [I, C], "All sail sets and attitudes, any reference point with any combination of nonzero components, any centre of lateral resistance.",
 "Every test uses the default reference point at the origin, and no test computes the keel moment.",
 ["results/inviscid_flow.py", "solver/forces.py", "solver/additional_functions.py", "yacht_geometry/hull_geometry.py"],
 [("moment arms about the shifted origin", "solver/forces.py"), ("totals, per-sail sums, centre of effort, keel", "results/inviscid_flow.py")],
 ["InviscidFlowResults.M_xyz", "M_total_above_water_in_xyz_csys", "F_xyz_total", "dyn_dict", "above_water_centre_of_effort_estimate_xyz", "estimate_heeling_moment_from_keel"])

prop("C10", "Centreline (COW) components are the same vectors seen along the yacht",
 "Every force or moment reported along the yacht's centreline is the course-over-ground vector expressed in axes turned with the yacht by the leeway about the vertical: magnitude and vertical component are unchanged, a vector pointing aft along the leeway-turned yacht has only a first component, and heel does not enter. "
 "Totals along the centreline are the converted totals, and moments and apparent-wind angles use the same convention.",
 [I, C], "All leeway angles of either sign, heel angles, vectors, and all solved sail sets.",
 "One test converts one vector with one angle and fixes the rotation's sign by copying the formula.",
 ["rotations/csys_transformations.py", "results/inviscid_flow.py"],
 [("conversion to centreline axes", "rotations/csys_transformations.py"), ("centreline totals", "results/inviscid_flow.py")],
 ["from_xyz_to_centerline_csys", "calc_centerline_moments", "F_centerline", "M_centerline_csys", "Integrals report"])

prop("C11", "Results obey the similarity and symmetry laws of ideal flow",
 "Scaling all speeds, the air density or all lengths scales circulation, velocities, forces, pressures and moments by the corresponding powers and leaves coefficients unchanged; reflecting the whole situation port to starboard reflects the results; with no boat speed, turning yacht and wind together about the vertical turns the results with them. "
 "Listing the sails in the other order only reorders the results, and moving a sail set horizontally changes no load; lengths are scaled only where panels stay large compared with the fixed vortex core.",
 [I, C], "All valid sail sets, attitudes and winds, scale factors above and below one, turning angles and shifts; panels large compared with the vortex core.",
 "Relations between two runs are never tested.",
 ["solver/vlm.py", "solver/coefs.py", "solver/forces.py", "inlet/winds.py", "yacht_geometry/sail_geometry.py", "results/inviscid_flow.py"],
 [("whole solution path", "solver/vlm.py"), ("force and pressure normalisation", "solver/forces.py")],
 ["Vlm fields", "InviscidFlowResults fields"])

prop("C12", "Saved reports state exactly the computed results",
 "The component report has one row per above-water panel, in panel order, carrying that panel's own circulation, velocities, angles, pressure, forces, moments, winds, upright height, girth and sail name; the integral report carries the totals, per-sail totals and, once the keel was estimated, keel and overall moments of the latest estimate, under names matching their axes; the inlet report carries, for the exponential profile, the wind at the reference height. "
 "The workbook written to disk has these three sheets with the same rows, columns and values (to eight decimals for components, two for summaries), in the requested folder and name, with missing folders created and an older file replaced.",
 [I, C, H], "All sail sets, mesh shapes (including fewer rows than strips and the reverse), attitudes, reference points, with and without keel, nested, existing and fresh output folders.",
 "One test compares one small case's in-memory frames with stored numbers; the written workbook is never read back and keel rows, single-sail sets and uneven meshes are not covered.",
 ["results/save_utils.py", "results/inviscid_flow.py", "inlet/inlet_conditions.py", "inlet/winds.py", "solver/additional_functions.py"],
 [("report assembly and workbook writing", "results/save_utils.py"), ("girths and names", "solver/additional_functions.py"), ("column tables", "results/inviscid_flow.py")],
 ["save_results_to_file", "sheets Components, Integrals, IC_at_reference_height"])

prop("C13", "Runs are repeatable, independent and leave their inputs alone",
 "A computation's results depend only on its inputs: in any interleaving of building sails, solving, evaluating loads, estimating the keel, reporting, saving and plotting for several cases in one process, each case's results are those of a fresh run to rounding. "
 "That includes cases that rely on default settings, and it holds when the owner of an earlier case has since overwritten that case's own arrays or has changed its settings in place into those of the next, or when an earlier case was refused. No operation alters the arrays or settings the caller passed in or results handed out earlier, so each of them can be reused for the next case.",
 [H, C], "All sequences of these operations up to a depth, on shared and separate input objects, for different cases.",
 "Tests run each object once in one order and never compare inputs before and after.",
 ["solver/vlm.py", "solver/forces.py", "solver/coefs.py", "solver/panels.py", "solver/additional_functions.py", "results/inviscid_flow.py", "results/save_utils.py", "yacht_geometry/sail_geometry.py", "rotations/csys_transformations.py", "inlet/inlet_conditions.py", "runner/sail.py"],
 [("copies instead of in-place updates", "solver/forces.py"), ("fresh arrays per object", "solver/vlm.py")],
 ["all public results after each operation"])

prop("C14", "Compiled and interpreted execution agree",
 "Running with just-in-time compilation, as users do, and running the same code interpreted, as the test suite does, give the same circulations, velocities, forces, coefficients and kernel velocities to rounding, and accept and reject the same inputs. "
 "The same holds for every kernel on its own, for any point, vortex, direction and strength given as floating-point numbers, including points on a vortex core.",
 [C, I], "All sail sets and mesh shapes within the bounds, all kernel argument combinations.",
 "The test suite runs with compilation disabled, so the compiled code users run is never tested.",
 ["solver/velocity.py", "solver/coefs.py"],
 [("numba signatures and compiled kernels", "solver/velocity.py"), ("compiled influence matrix", "solver/coefs.py")],
 ["Vlm fields", "kernel return values", "calc_velocity_coefs"])

prop("C15", "The command line runs the case file it is given and writes that case's outputs",
 "Given a directory, the command-line tool loads the variables file of exactly that directory, with the settings modules it imports from there, whatever files of those names lie in the working directory or on the import path, computes that case, and writes into the configured output folder the workbook with that case's results, a copy of the case file it designates, the pressure plot and the section-coefficient plots, with lift data in the lift plot and drag data in the drag plot under the right sail names. "
 "A missing or unreadable case file, or invalid settings, ends with a nonzero exit status and no results.",
 [C, H], "All placements of case files (working directory, given directory, both, neither), all sail sets, several output folder states.",
 "No test runs the command line, which could not even be imported on current Python versions.",
 ["runner/cli.py", "runner/container.py", "solver/panels_plotter.py", "solver/coefs.py", "results/save_utils.py"],
 [("case loading and run", "runner/cli.py"), ("settings containers", "runner/container.py")],
 ["process exit status", "output folder contents", "data passed to the plots"])

prop("C16", "Invalid or incomplete settings are refused, valid ones are not",
 "A run whose settings lack (None) a value its chosen wind profile or sail set needs, use an unknown wind profile, sail set, interpolation or twist mode, have sail tables of unequal length, or at a section used describe an airfoil outside the documented camber, position and thickness ranges, stops with an error before any result is produced; nothing is silently replaced by another profile or value. "
 "Settings for a sail that is not part of the chosen set are not required, and every complete setting within the documented ranges is accepted and used as given.",
 [C, I], "All single and paired omissions or substitutions of settings for each wind profile and sail set, and the edges of the airfoil ranges.",
 "Only the airfoil range test exists; no test omits or misspells a setting.",
 ["runner/sail.py", "runner/container.py", "thin_airfoil/vlm_airfoil.py", "solver/interpolator.py", "solver/forces.py"],
 [("settings validation", "runner/sail.py"), ("airfoil parameter check", "thin_airfoil/vlm_airfoil.py")],
 ["exception or exit status", "profile and sail set actually used"])

prop("C17", "Section coefficients are the loads of the right strip, properly normalised",
 "For each sail and each strip the section lift and drag coefficients are the area-weighted means over that strip's above-water panels of force magnitude over local dynamic pressure times area, and the height paired with them is the mean height of that strip's quarter-chord points. "
 "The plotted values are these divided by the sail's own area-weighted mean, so a sail's normalised curve has area-weighted mean one, and each sail's curve depends on its own panels only.",
 [I, C], "All sail sets and mesh shapes, including more rows than strips, single rows or strips, unequal panel areas, any wind profile.",
 "No test calls these functions.",
 ["solver/coefs.py"],
 [("section averaging", "solver/coefs.py")],
 ["get_C", "get_data_for_coeff_plot"])

prop("C18", "A save that fails part-way is never reported as done",
 "If a file-system operation that saving the results needs fails (creating the folder, opening, writing or closing the workbook, copying the case file), at whatever point, the caller gets an error instead of a normal return or a zero exit status, and an unrelated file in the output folder is left as it was. "
 "When saving does return normally the workbook on disk is complete and readable.",
 [F, CP], "Every single file-system call made during a save, failing with disk-full, permission or missing-directory errors.",
 "No test injects a fault into saving.",
 ["results/save_utils.py", "runner/cli.py"],
 [("workbook writer used as a context manager", "results/save_utils.py"), ("copy of the case file", "runner/cli.py")],
 ["return or exception of save_results_to_file", "workbook on disk"])

prop("C19", "The isolated wing agrees with theory, symmetry and the sail solver",
 "For an isolated wing with the free stream along x the lift and drag coefficients are the force across and along the free stream over dynamic pressure times wing area, the three force coefficients are the total force so normalised, and they do not depend on speed, density or scale; so normalised too is the pressure coefficient (pressure times area summed over the panels, over dynamic pressure times area), and get_info prints these values (for a wing spanning y the helper offered takes the vertical force as lift); zero incidence gives zero load, opposite incidence opposite lift, and the span load is symmetric with no net spanwise force. "
 "An upright main sail on the water line with a uniform wind at the same incidence carries the same loads as that wing, and the quoted theoretical values are those of the finite-wing formula with aspect ratio span over chord.",
 [I], "All chords, spans, incidences of either sign, mesh sizes, speeds, densities and circulation orientations.",
 "One test compares one wing with one sail; the lift and drag properties and the symmetry relations are untested.",
 ["runner/aircraft.py", "solver/coefs.py"],
 [("wing set-up and coefficients", "runner/aircraft.py"), ("coefficient helpers", "solver/coefs.py")],
 ["Aircraft.CL", "Aircraft.CD", "Aircraft.Cxyz", "Aircraft.force", "Aircraft.pressure", "Aircraft.CL_theoretical"])

prop("C20", "Airfoil sections have the specified camber and thickness",
 "For every admissible camber, camber position, thickness and number of points the camber line starts and ends on the chord, rises to the given maximum camber exactly at the given position with zero slope (position 0 meaning a single aft parabola), is continuous there and parabolic on either side; chord stations run evenly from 0 to 1. "
 "Upper and lower surfaces lie at the four-digit half thickness on either side of the camber line, measured across it, so they coincide with it for zero thickness and mirror each other for zero camber, and doubling camber or thickness doubles the corresponding ordinates.",
 [I], "All maximum cambers in 0 to 30 %, positions above 0 up to 90 % (with 0 meaning a single aft parabola), thicknesses 0 to 40 %, point counts.",
 "Tests compare four stored airfoils at 100 points.",
 ["thin_airfoil/vlm_airfoil.py", "solver/mesher.py"],
 [("camber line, slope, thickness", "thin_airfoil/vlm_airfoil.py"), ("use for sail sections", "solver/mesher.py")],
 ["VlmAirfoil.xc, yc, yt, xu, yu, xl, yl", "make_airfoil_mesh"])

prop("C21", "Hull and keel follow the yacht's attitude",
 "The deck lines drawn for the hull lie at the sheer height on an upright yacht, the centreline from 1.1 foretriangle bases ahead of the mast to 1.9 bases behind it, with length and breadth proportional to that base, and are heeled and turned by the leeway together with the sails as one rigid body, their mirrored lines being the reflection in the water. "
 "The centre of lateral resistance is the given upright point heeled and turned as a real, not mirrored, point of the yacht.",
 [I], "All sheer heights, foretriangle bases, heel and leeway of either sign, keel positions.",
 "No test examines the hull.",
 ["yacht_geometry/hull_geometry.py", "rotations/csys_transformations.py"],
 [("deck lines and keel point", "yacht_geometry/hull_geometry.py")],
 ["HullGeometry attributes"])

prop("C22", "Plots show the computed data at the right places",
 "The three-dimensional view draws every panel at its computed corners coloured by its own pressure coefficient (by its circulation when that is asked for), true, apparent and (if asked) induced wind arrows of every strip's first panel in their computed lengths and directions, the hull lines, and force arrows of equal length, opposite in direction, at the centre of effort and the centre of lateral resistance. "
 "The pressure plot pairs every panel's outline on the unrotated sail plan with that panel's pressure coefficient, and the section plots place each sail's coefficients at its strips' heights, whether they are saved or shown in a notebook.",
 [I, C], "All sail sets, mesh shapes, attitudes, with and without induced wind.",
 "No test draws anything.",
 ["solver/panels_plotter.py"],
 [("3D view", "solver/panels_plotter.py"), ("pressure and section plots", "solver/panels_plotter.py")],
 ["matplotlib artists", "data handed to the HTML plot"])

prop("C23", "Meshes and panels tile the given surface with correct metric data",
 "Dividing a segment gives the requested number of equal steps with both end points exact; a mesh between two lines joins corresponding points evenly; panels made from a mesh cover each mesh cell exactly once, in row order, with corners in the fixed circulation sense, and mark exactly the last row as trailing and the first of several rows as leading. "
 "For parallelogram and trapezoidal panels the areas are exact and add up to the surface's area, unit normals are perpendicular to the panel with a fixed handedness, and quarter- and three-quarter-chord points, bound-vortex spans and edge mid points are at the stated fractions of the panel.",
 [I], "All end points, orientations, counts of rows and strips from 1 upward, parallelogram and trapezoid shapes in any spatial attitude.",
 "Tests check a few axis-aligned meshes of one or two shapes.",
 ["solver/mesher.py", "solver/panels.py", "solver/coefs.py"],
 [("segments and meshes", "solver/mesher.py"), ("panels, flags, areas", "solver/panels.py"), ("panel reference points and normals", "solver/coefs.py")],
 ["discrete_segment", "make_point_mesh", "make_panels_from_mesh_spanwise", "make_panels_from_le_te_points", "get_panels_area", "calculate_vlm_variables", "calculate_normals_collocations_cps_rings_spans_leading_trailing_mid_points"])
prop("C24", "A case that cannot be solved is refused, never reported as numbers",
 "Whatever panels, wind, attitude and settings the solver is handed, degenerate ones included, it either raises an error or hands out a solution in which every area, normal, circulation, velocity and load is a finite number, no panel is smaller than 1e-14 and the velocity at every single panel's control point has no component along that panel's normal beyond 1e-12 in the case's own units, for panels of either half, the first and the last alike. "
 "Panels with coinciding or collinear corners or with a coordinate that is not a number, and panels whose wind is not a number, are always refused; so are a sail set holding the very same sail twice, whose circulations are not determined, and a linear solution disturbed at any one entry, and a wing with zero chord or span or a speed that is not a number. Switching Python's assertions off, or compilation off, changes none of this. The flux test accepts exactly the cases within these limits, panel by panel.",
 [I, C, F], "Every degenerate value of every setting, every panel position and kind of degeneracy, every entry and size of a disturbed linear solution, interpreter options; density an ordinary number.",
 "No test feeds the solver a case it must refuse; the guard is only ever executed on good solutions, where deleting or weakening it shows nothing.",
 ["solver/forces.py", "solver/vlm.py", "runner/aircraft.py", "inlet/inlet_conditions.py", "solver/panels.py"],
 [("no-flux and area guard", "solver/forces.py"), ("the guard's call sites", "solver/vlm.py"), ("the guard for wings", "runner/aircraft.py")],
 ["exception or return of Vlm(...)", "exception or return of Aircraft(...)", "is_no_flux_BC_satisfied", "Vlm.V_app_fs_at_ctrl_p", "Vlm.areas"])


out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for d in P:
        assert len(d["title"]) <= 80, (d["id"], len(d["title"]))
        f.write(json.dumps(d) + "\n")
print(len(P), "properties")
