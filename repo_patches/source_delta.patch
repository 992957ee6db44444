From 6e4133837936018ece60cb8a1d3e49483acccef0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:16 +0000
Subject: [PATCH 01/24] fix: give the settings dataclasses default factories
 for their array fields

Array defaults are mutable defaults, which dataclasses refuse since Python 3.11,
so the settings module, and with it the command line, could not be imported.
---
 pySailingVLM/runner/container.py | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/pySailingVLM/runner/container.py b/pySailingVLM/runner/container.py
index 869bc71..3fe02e2 100644
--- a/pySailingVLM/runner/container.py
+++ b/pySailingVLM/runner/container.py
@@ -67,10 +67,10 @@ class Rig:
 class MainSail:
     centerline_twist_deg: np.ndarray = None
     
-    girths: np.ndarray = np.array([0.00, 1./8, 1./4, 1./2, 3./4, 7./8, 1.00])
-    chords: np.ndarray = np.array([4.00, 3.82, 3.64, 3.20, 2.64, 2.32, 2.00])
-    camber: np.ndarray = 5*np.array([0.01, 0.01, 0.01, 0.01, 0.01, 0.01, 0.01])
-    camber_distance_from_luff: np.ndarray = np.array([0.5, 0.5, 0.5, 0.5, 0.5, 0.5, 0.5]) # starting from leading edge
+    girths: np.ndarray = field(default_factory=lambda: np.array([0.00, 1./8, 1./4, 1./2, 3./4, 7./8, 1.00]))
+    chords: np.ndarray = field(default_factory=lambda: np.array([4.00, 3.82, 3.64, 3.20, 2.64, 2.32, 2.00]))
+    camber: np.ndarray = field(default_factory=lambda: 5*np.array([0.01, 0.01, 0.01, 0.01, 0.01, 0.01, 0.01]))
+    camber_distance_from_luff: np.ndarray = field(default_factory=lambda: np.array([0.5, 0.5, 0.5, 0.5, 0.5, 0.5, 0.5])) # starting from leading edge
     
     def __post_init__(self):
         if self.centerline_twist_deg is None:
@@ -80,10 +80,10 @@ class MainSail:
 class JibSail:
     centerline_twist_deg: np.ndarray = None
     
-    girths: np.ndarray = np.array([0.00, 1./4, 1./2, 3./4, 1.00])
-    chords: np.ndarray =np.array([3.80, 2.98, 2.15, 1.33, 0.5])
-    camber: np.ndarray = 0*np.array([0.01, 0.01, 0.01, 0.01, 0.01])
-    camber_distance_from_luff: np.ndarray = np.array([0.5, 0.5, 0.5, 0.5, 0.5]) # starting from leading edge   
+    girths: np.ndarray = field(default_factory=lambda: np.array([0.00, 1./4, 1./2, 3./4, 1.00]))
+    chords: np.ndarray = field(default_factory=lambda: np.array([3.80, 2.98, 2.15, 1.33, 0.5]))
+    camber: np.ndarray = field(default_factory=lambda: 0*np.array([0.01, 0.01, 0.01, 0.01, 0.01]))
+    camber_distance_from_luff: np.ndarray = field(default_factory=lambda: np.array([0.5, 0.5, 0.5, 0.5, 0.5])) # starting from leading edge   
     def __post_init__(self):
         if self.centerline_twist_deg is None:
             self.centerline_twist_deg = 15. * self.girths + 7
@@ -103,7 +103,7 @@ class JibSail:
 # heeling_reference [m] - distance from the water level,  at which the heeling moment is calculated.
 @dataclass
 class Csys:
-    reference_level_for_moments: np.ndarray =  np.array([0, 0, 0])  # [yaw_reference, sway_reference, heeling_reference]
+    reference_level_for_moments: np.ndarray = field(default_factory=lambda: np.array([0, 0, 0]))  # [yaw_reference, sway_reference, heeling_reference]
 
 
 # GEOMETRY OF THE KEEL
@@ -111,4 +111,4 @@ class Csys:
 # reminder: the z coord shall be negative (under the water)
 @dataclass
 class Keel:
-    center_of_lateral_resistance_upright: np.ndarray =  np.array([0, 0, -1.0])  # [m] the coordinates for a yacht standing in upright position
+    center_of_lateral_resistance_upright: np.ndarray = field(default_factory=lambda: np.array([0, 0, -1.0]))  # [m] the coordinates for a yacht standing in upright position
-- 
2.43.0


From 1f474fbf75fd2658956cd6f75bc410470d7d880b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:19 +0000
Subject: [PATCH 02/24] fix: load the case file of the directory given on the
 command line

The directory was appended to the import path, so a variables.py in the working
directory or earlier on the path was run instead; a missing case file ended with
exit status 0.
---
 pySailingVLM/runner/cli.py | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/pySailingVLM/runner/cli.py b/pySailingVLM/runner/cli.py
index 8cd596d..5851b89 100644
--- a/pySailingVLM/runner/cli.py
+++ b/pySailingVLM/runner/cli.py
@@ -2,6 +2,7 @@ import numpy as np
 import sys
 import os
 import argparse
+import importlib.util
 import shutil
 
 from pySailingVLM.rotations.csys_transformations import CSYS_transformations
@@ -17,11 +18,15 @@ from pySailingVLM.solver.coefs import get_data_for_coeff_plot
 
 def load_variable_module(args):
     try:
-        sys.path.append(args.dvars)
-        globals()['vr'] = __import__('variables')
-    except ImportError as e:
+        sys.path.insert(0, os.path.abspath(args.dvars))
+        path = os.path.join(os.path.abspath(args.dvars), 'variables.py')
+        spec = importlib.util.spec_from_file_location('variables', path)
+        module = importlib.util.module_from_spec(spec)
+        spec.loader.exec_module(module)
+        globals()['vr'] = module
+    except (ImportError, FileNotFoundError) as e:
         print(f'No variables.py file found in {args.dvars}\n{e}')
-        sys.exit(0)
+        sys.exit(1)
     
 def parse_cli():
 
-- 
2.43.0


From 5a153288b95a4c74cc2a9a74584fcae48ffd8398 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:19 +0000
Subject: [PATCH 03/24] fix: plot lift data in the section lift plot and drag
 data in the drag plot

---
 pySailingVLM/runner/cli.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pySailingVLM/runner/cli.py b/pySailingVLM/runner/cli.py
index 5851b89..0e99883 100644
--- a/pySailingVLM/runner/cli.py
+++ b/pySailingVLM/runner/cli.py
@@ -94,6 +94,6 @@ def main():
     plot_cp(sail_set.zero_mesh, myvlm.p_coeffs, out.name)
     
     mean_cp, cl_data, cd_data = get_data_for_coeff_plot(myvlm, solver)
-    plot_section_coeff(cd_data, mean_cp,  out.name,  'lift', ['blue', 'green'])
-    plot_section_coeff(cl_data, mean_cp, out.name,  'drag',  ['teal', 'purple'])
+    plot_section_coeff(cl_data, mean_cp,  out.name,  'lift', ['blue', 'green'])
+    plot_section_coeff(cd_data, mean_cp, out.name,  'drag',  ['teal', 'purple'])
     
\ No newline at end of file
-- 
2.43.0


From 0348814801b64051b8fa0247fb0b9725a7db26ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:19 +0000
Subject: [PATCH 04/24] fix: label the section plots with the names of the
 sails plotted

A main sail on its own was labelled 'jib'.
---
 pySailingVLM/runner/cli.py            | 5 +++--
 pySailingVLM/solver/panels_plotter.py | 4 ++--
 2 files changed, 5 insertions(+), 4 deletions(-)

diff --git a/pySailingVLM/runner/cli.py b/pySailingVLM/runner/cli.py
index 0e99883..d0960f9 100644
--- a/pySailingVLM/runner/cli.py
+++ b/pySailingVLM/runner/cli.py
@@ -93,7 +93,8 @@ def main():
     
     plot_cp(sail_set.zero_mesh, myvlm.p_coeffs, out.name)
     
+    sail_names = [sail.name for sail in sail_set.sails]
     mean_cp, cl_data, cd_data = get_data_for_coeff_plot(myvlm, solver)
-    plot_section_coeff(cl_data, mean_cp,  out.name,  'lift', ['blue', 'green'])
-    plot_section_coeff(cd_data, mean_cp, out.name,  'drag',  ['teal', 'purple'])
+    plot_section_coeff(cl_data, mean_cp,  out.name,  'lift', ['blue', 'green'], sail_names)
+    plot_section_coeff(cd_data, mean_cp, out.name,  'drag',  ['teal', 'purple'], sail_names)
     
\ No newline at end of file
diff --git a/pySailingVLM/solver/panels_plotter.py b/pySailingVLM/solver/panels_plotter.py
index ee058b8..f59dcd9 100644
--- a/pySailingVLM/solver/panels_plotter.py
+++ b/pySailingVLM/solver/panels_plotter.py
@@ -369,7 +369,7 @@ def plot_cp(mesh : np.ndarray, p_coeffs : np.ndarray, path_to_save : str):
     except NameError:
         hv.save(hvpolys, path_to_save + '/cp_plot.html', backend='bokeh')
         
-def plot_section_coeff(x_data : list, y_data: list, file_name: str, coeff_name: str, colors : list):
+def plot_section_coeff(x_data : list, y_data: list, file_name: str, coeff_name: str, colors : list, sail_names : list = ('jib', 'main')):
     
     allowed_names = ('lift', 'drag')
     try:
@@ -384,7 +384,7 @@ def plot_section_coeff(x_data : list, y_data: list, file_name: str, coeff_name:
     ax1 = fig.add_subplot(111)
     
     l = len(y_data)
-    lbs = ['jib', 'main']
+    lbs = sail_names
     markers = ["o", "^"]
     
     c_name = 'cl'
-- 
2.43.0


From 174ab68e919cc777ab14bd62bf6cfd9e78fce423 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:20 +0000
Subject: [PATCH 05/24] fix: apply the chosen twist mode

The twist selected by LLT_twist was overwritten by the tabulated twist, so
'sheeting_angle_const' and 'average_const' had no effect.
---
 pySailingVLM/yacht_geometry/sail_geometry.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pySailingVLM/yacht_geometry/sail_geometry.py b/pySailingVLM/yacht_geometry/sail_geometry.py
index 44e0f87..a79c7d1 100644
--- a/pySailingVLM/yacht_geometry/sail_geometry.py
+++ b/pySailingVLM/yacht_geometry/sail_geometry.py
@@ -125,7 +125,7 @@ class SailGeometry(BaseGeometry, ABC):
                 'real_twist': initial_sail_twist_deg
             }
             sail_twist_deg = twist_dict[LLT_twist]
-            sail_twist_deg = np.hstack([initial_sail_twist_deg] * (sh1))
+            sail_twist_deg = np.hstack([sail_twist_deg] * (sh1))
             sail_twist_deg = sail_twist_deg.reshape(sh1, sh0).transpose().flatten()
 
             p2 = mesh[::sh1][-1]
-- 
2.43.0


From 76447187a3bf1893526134a15736efc71df616b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:20 +0000
Subject: [PATCH 06/24] fix: mirror the camber position along the span of the
 under-water sail

Chords and camber were reversed for the mirror image but the camber position was
not, so the image was not a mirror image when the position varies with girth.
---
 pySailingVLM/yacht_geometry/sail_geometry.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pySailingVLM/yacht_geometry/sail_geometry.py b/pySailingVLM/yacht_geometry/sail_geometry.py
index a79c7d1..353d6fa 100644
--- a/pySailingVLM/yacht_geometry/sail_geometry.py
+++ b/pySailingVLM/yacht_geometry/sail_geometry.py
@@ -89,7 +89,7 @@ class SailGeometry(BaseGeometry, ABC):
         sh0, sh1, sh2 = mesh.shape
         mesh = mesh.reshape(sh0*sh1, sh2)
         
-        mesh_underwater = make_airfoil_mesh([le_SW_underwater, le_NW_underwater],[self.__n_chordwise, self.__n_spanwise],fchords_vec, interpolated_distance_from_luff, np.flip(interpolated_camber))
+        mesh_underwater = make_airfoil_mesh([le_SW_underwater, le_NW_underwater],[self.__n_chordwise, self.__n_spanwise],fchords_vec, np.flip(interpolated_distance_from_luff), np.flip(interpolated_camber))
         ### zero mesh
         zero_mesh_under = np.swapaxes(mesh_underwater, 0, 1)
         panels_under_zero, _, _= make_panels_from_mesh_spanwise(zero_mesh_under)
-- 
2.43.0


From 52e7feaa522904a6fc39d28c182416b975855ecb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:20 +0000
Subject: [PATCH 07/24] fix: report the finite-sail apparent wind angle in the
 right quadrant

arctan(y/x) is off by 180 degrees when the flow has a negative x component
(true wind from astern).
---
 pySailingVLM/results/inviscid_flow.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pySailingVLM/results/inviscid_flow.py b/pySailingVLM/results/inviscid_flow.py
index c223b38..05068bc 100644
--- a/pySailingVLM/results/inviscid_flow.py
+++ b/pySailingVLM/results/inviscid_flow.py
@@ -24,7 +24,7 @@ class InviscidFlowResults:
         self.V_induced_length = np.linalg.norm(self.V_induced_at_cp, axis=1)
         self.V_app_fs_at_cp = myvlm.V_app_fs_at_cp#V_app_fs
         self.V_app_fs_length = np.linalg.norm(self.V_app_fs_at_cp, axis=1)
-        self.AWA_app_fs = np.arctan(myvlm.V_app_fs_at_cp[:, 1] / myvlm.V_app_fs_at_cp[:, 0])
+        self.AWA_app_fs = np.arctan2(myvlm.V_app_fs_at_cp[:, 1], myvlm.V_app_fs_at_cp[:, 0])
   
         self.F_xyz = myvlm.force
         self.F_xyz_above_water, self.F_xyz_total = extract_above_water_quantities(self.F_xyz)
-- 
2.43.0


From c019d881a50ab4a213084e99833c93fa12e71e9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:20 +0000
Subject: [PATCH 08/24] fix: take the keel moment about the same reference
 point as the sail moments

The keel arm ignored reference_level_for_moments, so the reported overall moment
added moments about two different points.
---
 pySailingVLM/results/inviscid_flow.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pySailingVLM/results/inviscid_flow.py b/pySailingVLM/results/inviscid_flow.py
index 05068bc..1338080 100644
--- a/pySailingVLM/results/inviscid_flow.py
+++ b/pySailingVLM/results/inviscid_flow.py
@@ -102,7 +102,7 @@ class InviscidFlowResults:
         self.M_total_above_water_in_centerline_csys = M_total_above_water_in_centerline_csys
 
     def estimate_heeling_moment_from_keel(self, underwater_centre_of_effort_xyz):
-        self.M_xyz_underwater_estimate_total = np.cross(underwater_centre_of_effort_xyz, -self.F_xyz_total)
+        self.M_xyz_underwater_estimate_total = np.cross(underwater_centre_of_effort_xyz - self.csys_transformations.v_from_original_xyz_2_reference_csys_xyz, -self.F_xyz_total)
         self.M_centerline_csys_underwater_estimate_total = self.csys_transformations.from_xyz_to_centerline_csys([self.M_xyz_underwater_estimate_total])[0]
 
     def __iter__(self):
-- 
2.43.0


From 665efbcc41230e0af4f3fd58a1e35b1cbe8d769e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:20 +0000
Subject: [PATCH 09/24] fix: report the wing's lift coefficient, not its
 spanwise force coefficient

The wing spans along z since the axes were changed to those of the sails, so its
lift is along y; CL was computed from the z component and was always about 0.
---
 pySailingVLM/runner/aircraft.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pySailingVLM/runner/aircraft.py b/pySailingVLM/runner/aircraft.py
index 1de797e..e183f4f 100644
--- a/pySailingVLM/runner/aircraft.py
+++ b/pySailingVLM/runner/aircraft.py
@@ -66,7 +66,7 @@ class Aircraft:
         self.__force, _, _ = calc_force_wrapper(self.__V_app_infw, self.__gamma_magnitude, self.rho, cp, rings, self.n_spanwise, normals, span_vectors, trailing_edge_info, leading_edge_info, 'force_xyz', self.gamma_orientation)
         self.__pressure = calc_pressure(self.__force, normals, areas)
 
-        self.__CL, self.__CD = get_vlm_CL_CD_free_wing(self.__force, self.V, self.rho, self.__S)
+        self.__CD, self.__CL, _ = get_vlm_Cxyz(self.__force, self.V, self.rho, self.__S)  # the wing spans along z, lift is along y
 
         total_p = np.sum(self.__pressure, axis=0)
         q = 0.5 * rho * (np.linalg.norm(self.V) ** 2) * self.__S
-- 
2.43.0


From c5aa87670f7603ee9afd6207f3f6bb184244ffa6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:44 +0000
Subject: [PATCH 10/24] fix: check exponential wind settings and refuse unknown
 wind profiles

The check looked for 'expotentional', a name that is never used, and any unknown
profile name silently became the logarithmic profile.
---
 pySailingVLM/runner/sail.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/pySailingVLM/runner/sail.py b/pySailingVLM/runner/sail.py
index 28d131c..bb70738 100644
--- a/pySailingVLM/runner/sail.py
+++ b/pySailingVLM/runner/sail.py
@@ -46,10 +46,12 @@ class Wind:
         try: 
             if self.conditions.wind_profile == 'logarithmic' and None in [self.conditions.roughness, self.conditions.wind_reference_measurment_height]:
                 raise ValueError("ERROR in logarithmic mode!: Roughness or wind_reference_measurment_height badly defined!")
-            elif self.conditions.wind_profile == 'expotentional' and None in [self.conditions.wind_exp_coeff, self.conditions.wind_reference_measurment_height]:
-                raise ValueError("ERROR in expotentional mode!: wind_exp_coeff or wind_reference_measurment_height badly defined!")
+            elif self.conditions.wind_profile == 'exponential' and None in [self.conditions.wind_exp_coeff, self.conditions.wind_reference_measurment_height]:
+                raise ValueError("ERROR in exponential mode!: wind_exp_coeff or wind_reference_measurment_height badly defined!")
             elif self.conditions.wind_profile == 'flat' and None in [self.conditions.wind_exp_coeff, self.conditions.wind_reference_measurment_height]:
                 raise ValueError("ERROR in flat mode!: wind_exp_coeff or wind_reference_measurment_height badly defined!")
+            elif self.conditions.wind_profile not in ('exponential', 'flat', 'logarithmic'):
+                raise ValueError(f"ERROR: unknown wind_profile {self.conditions.wind_profile!r}, allowed: 'exponential', 'flat', 'logarithmic'")
         except ValueError as err:
             print(err)
             sys.exit()
-- 
2.43.0


From 50218f599d29ed89f09fce1823ba13977679581c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:44 +0000
Subject: [PATCH 11/24] fix: end with a nonzero exit status when settings are
 refused

---
 pySailingVLM/runner/sail.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pySailingVLM/runner/sail.py b/pySailingVLM/runner/sail.py
index bb70738..db5ff90 100644
--- a/pySailingVLM/runner/sail.py
+++ b/pySailingVLM/runner/sail.py
@@ -54,7 +54,7 @@ class Wind:
                 raise ValueError(f"ERROR: unknown wind_profile {self.conditions.wind_profile!r}, allowed: 'exponential', 'flat', 'logarithmic'")
         except ValueError as err:
             print(err)
-            sys.exit()
+            sys.exit(1)
             
     def __get_profile(self):
         if self.conditions.wind_profile == 'exponential':
@@ -108,7 +108,7 @@ class Sail:
                 check_input_arr_shapes(main_stuff[1:], self.rig.sails_def)
         except ValueError as e:
             print(e)
-            sys.exit()
+            sys.exit(1)
 
     def __get_sail_set(self):
         
-- 
2.43.0


From 2c52033840be25af08d07d4bcf10eeb18814d3b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:44 +0000
Subject: [PATCH 12/24] fix: give the centre of effort in the original axes it
 is drawn in

It was relative to reference_level_for_moments, but is plotted, next to the centre
of lateral resistance, in the original axes.
---
 pySailingVLM/results/inviscid_flow.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pySailingVLM/results/inviscid_flow.py b/pySailingVLM/results/inviscid_flow.py
index 1338080..17f0ad2 100644
--- a/pySailingVLM/results/inviscid_flow.py
+++ b/pySailingVLM/results/inviscid_flow.py
@@ -92,7 +92,8 @@ class InviscidFlowResults:
 
         self.above_water_centre_of_effort_estimate_xyz \
             = determine_vector_from_its_dot_and_cross_product(
-                self.F_xyz_total, r_dot_F_total_above_water, self.M_total_above_water_in_xyz_csys)
+                self.F_xyz_total, r_dot_F_total_above_water, self.M_total_above_water_in_xyz_csys) \
+            + csys_transformations.v_from_original_xyz_2_reference_csys_xyz
 
         self.F_centerline = csys_transformations.from_xyz_to_centerline_csys(myvlm.force)
         _, self.F_centerline_total = extract_above_water_quantities(self.F_centerline)
-- 
2.43.0


From aa8f7a69d8196dc0c7996eb3f0415ca1acfefe27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:38 +0000
Subject: [PATCH 13/24] fix: accept camber and camber position at the limits of
 their range after interpolation

---
 pySailingVLM/thin_airfoil/vlm_airfoil.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pySailingVLM/thin_airfoil/vlm_airfoil.py b/pySailingVLM/thin_airfoil/vlm_airfoil.py
index 3f0569c..4009cee 100644
--- a/pySailingVLM/thin_airfoil/vlm_airfoil.py
+++ b/pySailingVLM/thin_airfoil/vlm_airfoil.py
@@ -62,11 +62,12 @@ class VlmAirfoil:
         return self._xl
     
     def __check_naca_params(self):
+        eps = 1e-9  # rounding errors of interpolated values
         try:
-            if not(self._m <= 0.3 and self._m >= 0):
+            if not(self._m <= 0.3 + eps and self._m >= -eps):
                 raise ValueError('Max camber must be between 0 and 30%!')
             
-            if not(self._p <= 0.9 and self._p >= 0):
+            if not(self._p <= 0.9 + eps and self._p >= -eps):
                 raise ValueError('Max camber position must be between 0 and 90%!')
             
             if not(self._t <= 0.4 and self._t >= 0):
-- 
2.43.0


From 3a13ba15e05795a7e7fbd291f1d15ca7b9cfe66b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:57 +0000
Subject: [PATCH 14/24] fix: give the apparent wind angle on port tack too

---
 pySailingVLM/inlet/winds.py | 10 ++--------
 1 file changed, 2 insertions(+), 8 deletions(-)

diff --git a/pySailingVLM/inlet/winds.py b/pySailingVLM/inlet/winds.py
index b3ce3f0..443c8c5 100644
--- a/pySailingVLM/inlet/winds.py
+++ b/pySailingVLM/inlet/winds.py
@@ -35,20 +35,14 @@ class WindBase:
         return tws
 
     def get_app_alfa_infs_at_h(self, tws_at_h):
-        # alfa_yacht - angle between apparent wind and true wind
         # alfa_app_infs	- angle between apparent wind and direction of boat movement (including leeway)
         # (model of an 'infinite sail' is assumed == without induced wind velocity) and direction of boat movement (including leeway)
 
         tws_l = np.linalg.norm(tws_at_h)  # true wind speed - length of the vector
         # tws_l = np.sqrt(tws_at_h[0]*tws_at_h[0]+tws_at_h[1]*tws_at_h[1])  # true wind speed
 
-        alfa_yacht = np.arccos((self.V_yacht * np.cos(self.alpha_true_wind) + tws_l) /
-                               np.sqrt(
-                                   self.V_yacht*self.V_yacht
-                                   + 2*self.V_yacht*tws_l*np.cos(self.alpha_true_wind)
-                                   + tws_l*tws_l))  # result in [rad]
-
-        alpha_app_infs = self.alpha_true_wind - alfa_yacht  # result in [rad]
+        alpha_app_infs = np.arctan2(tws_l * np.sin(self.alpha_true_wind),
+                                    tws_l * np.cos(self.alpha_true_wind) + self.V_yacht)  # result in [rad]
 
         return alpha_app_infs
 
-- 
2.43.0


From 22c0eb141c01e83d548a630938a1e04e23e54958 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:36 +0000
Subject: [PATCH 15/24] fix: create an output folder whose path leads through
 itself

---
 pySailingVLM/results/save_utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pySailingVLM/results/save_utils.py b/pySailingVLM/results/save_utils.py
index 085eb61..7471d7c 100644
--- a/pySailingVLM/results/save_utils.py
+++ b/pySailingVLM/results/save_utils.py
@@ -49,7 +49,7 @@ def save_to_excel(output_dir : str, list_of_df : List[pd.DataFrame], output_file
     max_row = df_merged.shape[0]
     last_col = df_merged.shape[1]
     if not os.path.exists(output_dir):
-        os.makedirs(output_dir)
+        os.makedirs(output_dir, exist_ok=True)  # a path through ".." may come to exist while it is made
 
     with pd.ExcelWriter(os.path.join(output_dir, output_file_name)) as writer:
         df_merged.to_excel(writer, startrow=0, sheet_name='Components', float_format="%.8f", index=False)
-- 
2.43.0


From 069d5380da67f08c4adad9c24fbca5b4cb98f0d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:57 +0000
Subject: [PATCH 16/24] fix: accept a free stream given in whole numbers

---
 pySailingVLM/runner/aircraft.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pySailingVLM/runner/aircraft.py b/pySailingVLM/runner/aircraft.py
index e183f4f..e8c8591 100644
--- a/pySailingVLM/runner/aircraft.py
+++ b/pySailingVLM/runner/aircraft.py
@@ -18,7 +18,7 @@ class Aircraft:
         self.AoA_deg = AoA_deg
         self.n_spanwise = n_spanwise
         self.n_chordwise = n_chordwise
-        self.V = V
+        self.V = np.asarray(V, dtype=np.float64)  # the compiled kernels accept nothing else
         self.rho = rho
         self.gamma_orientation = gamma_orientation
 
-- 
2.43.0


From 0badd19e4c55d41b15941b3bb776c6dda4d7d06a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:28 +0000
Subject: [PATCH 17/24] fix: let results be written into the folder of the case
 file

---
 pySailingVLM/runner/cli.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pySailingVLM/runner/cli.py b/pySailingVLM/runner/cli.py
index d0960f9..80674ad 100644
--- a/pySailingVLM/runner/cli.py
+++ b/pySailingVLM/runner/cli.py
@@ -83,7 +83,9 @@ def main():
           f"\tNumber of panels (sail sail_set with mirror): {sail_set.panels.shape}")
 
     df_components, df_integrals, df_inlet_IC = save_results_to_file(myvlm, csys_transformations, inviscid_flow_results, sail_set, out.name, out.file_name)
-    shutil.copy(os.path.join(out.case_dir, out.case_name), os.path.join(out.name, out.case_name))
+    case_file, case_copy = os.path.join(out.case_dir, out.case_name), os.path.join(out.name, out.case_name)
+    if not (os.path.exists(case_copy) and os.path.samefile(case_file, case_copy)):  # results may go beside the case file
+        shutil.copy(case_file, case_copy)
 
     print(df_integrals)
     #print(f"\nCPU time: {float(timeit.default_timer() - start):.2f} [s]")
-- 
2.43.0


From dcf773b4d9ba68a07b1b158a2b3b0e5342f8b339 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:41 +0000
Subject: [PATCH 18/24] fix: write the workbook in one piece, leaving no open
 file after a failed save

---
 pySailingVLM/results/save_utils.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/pySailingVLM/results/save_utils.py b/pySailingVLM/results/save_utils.py
index 7471d7c..385bc5c 100644
--- a/pySailingVLM/results/save_utils.py
+++ b/pySailingVLM/results/save_utils.py
@@ -1,3 +1,4 @@
+import io
 import pandas as pd
 import os
 import numpy as np
@@ -51,7 +52,9 @@ def save_to_excel(output_dir : str, list_of_df : List[pd.DataFrame], output_file
     if not os.path.exists(output_dir):
         os.makedirs(output_dir, exist_ok=True)  # a path through ".." may come to exist while it is made
 
-    with pd.ExcelWriter(os.path.join(output_dir, output_file_name)) as writer:
+    # made in memory: a failed save must not leave an open file behind that is still written to later
+    book = io.BytesIO()
+    with pd.ExcelWriter(book) as writer:
         df_merged.to_excel(writer, startrow=0, sheet_name='Components', float_format="%.8f", index=False)
 
         workbook = writer.book
@@ -134,4 +137,7 @@ def save_to_excel(output_dir : str, list_of_df : List[pd.DataFrame], output_file
         write_summary_sheet(df_inviscid_flow_integral, 'Integrals')
         write_summary_sheet(df_inlet_conditions_integral, 'IC_at_reference_height')
 
-        return df_merged
\ No newline at end of file
+    with open(os.path.join(output_dir, output_file_name), 'wb') as file:
+        file.write(book.getvalue())
+
+    return df_merged
-- 
2.43.0


From 34b945487f2509c4137108fff49409fb9b1906d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:48 +0000
Subject: [PATCH 19/24] fix: draw the induced wind with its vertical component

---
 pySailingVLM/solver/panels_plotter.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pySailingVLM/solver/panels_plotter.py b/pySailingVLM/solver/panels_plotter.py
index f59dcd9..1c8433e 100644
--- a/pySailingVLM/solver/panels_plotter.py
+++ b/pySailingVLM/solver/panels_plotter.py
@@ -265,7 +265,7 @@ def display_winds(ax : plt.Axes, cp_points : np.ndarray, water_size : int,  inle
 
             vx = np.array([shift_x, shift_x+V_wind[i, 0]])
             vy = np.array([shift_y, shift_y+V_wind[i, 1]])
-            vz = np.array([cp_points_at_first_spanwise_sections[i, 2], cp_points_at_first_spanwise_sections[i, 2]])
+            vz = np.array([cp_points_at_first_spanwise_sections[i, 2], cp_points_at_first_spanwise_sections[i, 2]+V_wind[i, 2]])
 
             if cp_points_at_first_spanwise_sections[i, 2] > 0:
                 arrow = Arrow3D(vx, vy, vz, mutation_scale=10, lw=1, arrowstyle="-|>", color=draw_color, alpha=0.75)
-- 
2.43.0


From 87e3072685a6859129774f0e1be531ebb979ce9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:40:30 +0000
Subject: [PATCH 20/24] fix: let the forestay lean forward when the mast is
 raked past the tack

---
 pySailingVLM/yacht_geometry/sail_factory.py | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/pySailingVLM/yacht_geometry/sail_factory.py b/pySailingVLM/yacht_geometry/sail_factory.py
index 852c31d..7d1da6e 100644
--- a/pySailingVLM/yacht_geometry/sail_factory.py
+++ b/pySailingVLM/yacht_geometry/sail_factory.py
@@ -37,12 +37,9 @@ class SailFactory:
         return main_sail
 
     def make_jib(self, jib_luff, foretriangle_base, foretriangle_height, jib_chords=None, sail_twist_deg=None, mast_LOA=0, LLT_twist=None, interpolated_camber=None, interpolated_distance_from_luff=None):
-        # cosine theorem
-        forestay_length = np.sqrt(foretriangle_base * foretriangle_base
-                                  + foretriangle_height * foretriangle_height
-                                  - 2 * foretriangle_base * foretriangle_height * np.cos(self.rake))
-        # sine theorem
-        forestay_angle = np.arcsin(foretriangle_height * np.sin(self.rake) / forestay_length)
+        # from the tack to the hounds; obtuse when the mast is raked forward past the tack
+        forestay_angle = np.arctan2(foretriangle_height * np.sin(self.rake),
+                                    foretriangle_base - foretriangle_height * np.cos(self.rake))
 
         # define sail mounting points
         tack_mounting = np.array([-foretriangle_base + self.sheer_above_waterline_xyz[0] - mast_LOA/np.sin(self.rake),
-- 
2.43.0


From 2d05eb01af065982fd48eab05a3cd3f50529afff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:08:48 +0000
Subject: [PATCH 21/24] fix: check the solution also when Python's assertions
 are switched off

---
 pySailingVLM/runner/aircraft.py | 2 +-
 pySailingVLM/solver/vlm.py      | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/pySailingVLM/runner/aircraft.py b/pySailingVLM/runner/aircraft.py
index e8c8591..8e5051a 100644
--- a/pySailingVLM/runner/aircraft.py
+++ b/pySailingVLM/runner/aircraft.py
@@ -62,7 +62,7 @@ class Aircraft:
         self.__gamma_magnitude = solve_eq(coefs, self.__RHS)
         
         _,  V_app_fs_at_ctrl_p = calculate_app_fs(self.__V_app_infw,  v_ind_coeff,  self.__gamma_magnitude)
-        assert is_no_flux_BC_satisfied(V_app_fs_at_ctrl_p, panels, areas, normals)
+        is_no_flux_BC_satisfied(V_app_fs_at_ctrl_p, panels, areas, normals)
         self.__force, _, _ = calc_force_wrapper(self.__V_app_infw, self.__gamma_magnitude, self.rho, cp, rings, self.n_spanwise, normals, span_vectors, trailing_edge_info, leading_edge_info, 'force_xyz', self.gamma_orientation)
         self.__pressure = calc_pressure(self.__force, normals, areas)
 
diff --git a/pySailingVLM/solver/vlm.py b/pySailingVLM/solver/vlm.py
index 8402cdb..bbe62a2 100644
--- a/pySailingVLM/solver/vlm.py
+++ b/pySailingVLM/solver/vlm.py
@@ -65,7 +65,7 @@ class Vlm:
         self.V_induced_at_ctrl,  self.V_app_fs_at_ctrl_p = velocity.calculate_app_fs(self.inlet_conditions.V_app_infs,  self.v_ind_coeff,  self.gamma_magnitude)
 
         # boundary condition calculated in collocation points (control points)
-        assert forces.is_no_flux_BC_satisfied(self.V_app_fs_at_ctrl_p, self.panels, self.areas, self.normals)
+        forces.is_no_flux_BC_satisfied(self.V_app_fs_at_ctrl_p, self.panels, self.areas, self.normals)
         self.force, self.V_app_fs_at_cp, self.V_induced_at_cp = forces.calc_force_wrapper(self.inlet_conditions.V_app_infs, self.gamma_magnitude, self.rho, self.cp, self.rings, self.n_spanwise, self.normals, self.span_vectors, self.trailing_edge_info, self.leading_edge_info, 'force_xyz', self.gamma_orientation)
         self.pressure = forces.calc_pressure(self.force, self.normals, self.areas)
 
-- 
2.43.0


From 0c31131cab4463c5790b86df4634f18acaae94da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:08:48 +0000
Subject: [PATCH 22/24] fix: weight the wing's pressures by area in its
 pressure coefficient

---
 pySailingVLM/runner/aircraft.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pySailingVLM/runner/aircraft.py b/pySailingVLM/runner/aircraft.py
index 8e5051a..dd014e8 100644
--- a/pySailingVLM/runner/aircraft.py
+++ b/pySailingVLM/runner/aircraft.py
@@ -68,7 +68,7 @@ class Aircraft:
 
         self.__CD, self.__CL, _ = get_vlm_Cxyz(self.__force, self.V, self.rho, self.__S)  # the wing spans along z, lift is along y
 
-        total_p = np.sum(self.__pressure, axis=0)
+        total_p = np.sum(self.__pressure * areas, axis=0)  # weighted by area, as q below contains the wing's area
         q = 0.5 * rho * (np.linalg.norm(self.V) ** 2) * self.__S
         self.__Cp = total_p / q
 
-- 
2.43.0


From 0bf9a47b8b5f4ac814b17a3a79c03693bcff1ba5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:08:48 +0000
Subject: [PATCH 23/24] fix: colour the panels by circulation when asked to

---
 pySailingVLM/solver/panels_plotter.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pySailingVLM/solver/panels_plotter.py b/pySailingVLM/solver/panels_plotter.py
index 1c8433e..7fceec8 100644
--- a/pySailingVLM/solver/panels_plotter.py
+++ b/pySailingVLM/solver/panels_plotter.py
@@ -86,7 +86,7 @@ def display_panels_xyz(vlm : Vlm, color_panels_by : str) -> Tuple[plt.axes, int]
 
     data = None
     if color_panels_by == 'gamma_magnitude':
-        data = vlm.pressure
+        data = vlm.gamma_magnitude
     elif color_panels_by == 'p_coeffs':
         data = vlm.p_coeffs
     else:
-- 
2.43.0


From a64179e9f7f4c76466804d1a93e680c09d7e8b39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:52:50 +0000
Subject: [PATCH 24/24] fix: give every CSYS_transformations a reference point
 of its own

---
 pySailingVLM/rotations/csys_transformations.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pySailingVLM/rotations/csys_transformations.py b/pySailingVLM/rotations/csys_transformations.py
index e4082f6..ee4861a 100644
--- a/pySailingVLM/rotations/csys_transformations.py
+++ b/pySailingVLM/rotations/csys_transformations.py
@@ -38,7 +38,8 @@ class CSYS_transformations:
         self.__leeway_deg = leeway_deg
         self.__heel_deg = heel_deg
 
-        self.v_from_original_xyz_2_reference_csys_xyz = v_from_original_xyz_2_reference_csys_xyz
+        # a copy: neither the caller's array nor the default is shared between objects
+        self.v_from_original_xyz_2_reference_csys_xyz = np.array(v_from_original_xyz_2_reference_csys_xyz)
 
     def rotate_point_with_mirror(self, point):
         """
-- 
2.43.0

