From eab891fcc018aa15756b82ee1a9aed22b604bd30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:01:31 +0000
Subject: [PATCH 01/22] fix: make running a steady solver again give the same
 results

The seed points accumulated, and the ring solver used the last run's
strengths as the unit strengths of its influence coefficients.
---
 pterasoftware/steady_horseshoe_vortex_lattice_method.py | 3 +++
 pterasoftware/steady_ring_vortex_lattice_method.py      | 5 +++++
 2 files changed, 8 insertions(+)

diff --git a/pterasoftware/steady_horseshoe_vortex_lattice_method.py b/pterasoftware/steady_horseshoe_vortex_lattice_method.py
index 597273b..689fca7 100644
--- a/pterasoftware/steady_horseshoe_vortex_lattice_method.py
+++ b/pterasoftware/steady_horseshoe_vortex_lattice_method.py
@@ -115,6 +115,9 @@ class SteadyHorseshoeVortexLatticeMethodSolver:
         )
         logging.basicConfig(level=logging_level_value)
 
+        # Clear the seed points found by any previous run.
+        self.seed_points = np.empty((0, 3))
+
         # Initialize this problem's panels to have vortices congruent with this
         # solver type.
         logging.info("Initializing the panel vortices.")
diff --git a/pterasoftware/steady_ring_vortex_lattice_method.py b/pterasoftware/steady_ring_vortex_lattice_method.py
index d392b07..c543e2f 100644
--- a/pterasoftware/steady_ring_vortex_lattice_method.py
+++ b/pterasoftware/steady_ring_vortex_lattice_method.py
@@ -137,6 +137,11 @@ class SteadyRingVortexLatticeMethodSolver:
         )
         logging.basicConfig(level=logging_level_value)
 
+        # Clear the results of any previous run. The vortex strengths are set to one
+        # because the wing-wing influences are calculated with unit strengths.
+        self.vortex_strengths = np.ones(self.num_panels)
+        self.seed_points = np.empty((0, 3))
+
         # Initialize this problem's panels to have vortices congruent with this
         # solver type.
         logging.info("Initializing panel vortices.")
-- 
2.43.0


From 38b58a8b1525990279709638cb86a9f0a2e93d1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:01:31 +0000
Subject: [PATCH 02/22] fix: clear horseshoe vortices left on interior panels
 by another solver

---
 pterasoftware/steady_ring_vortex_lattice_method.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pterasoftware/steady_ring_vortex_lattice_method.py b/pterasoftware/steady_ring_vortex_lattice_method.py
index c543e2f..1b28cbb 100644
--- a/pterasoftware/steady_ring_vortex_lattice_method.py
+++ b/pterasoftware/steady_ring_vortex_lattice_method.py
@@ -232,6 +232,10 @@ class SteadyRingVortexLatticeMethodSolver:
                             back_right_vortex_vertex = (
                                 next_chordwise_panel.front_right_vortex_vertex
                             )
+
+                            # Only panels along the trailing edge have horseshoe
+                            # vortices. Clear any that another solver left here.
+                            panel.horseshoe_vortex = None
                         else:
                             back_left_vortex_vertex = front_left_vortex_vertex + (
                                 panel.back_left_vertex - panel.front_left_vertex
-- 
2.43.0


From 32e81b0cebc03cb68ec89ed23305fe325175ca52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:01:31 +0000
Subject: [PATCH 03/22] fix: keep viscosity and external thrust in the moving
 operating points

---
 pterasoftware/movement.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/pterasoftware/movement.py b/pterasoftware/movement.py
index 8ba9b6e..d081178 100644
--- a/pterasoftware/movement.py
+++ b/pterasoftware/movement.py
@@ -1332,6 +1332,8 @@ class OperatingPointMovement:
         density = self.base_operating_point.density
         alpha = self.base_operating_point.alpha
         beta = self.base_operating_point.beta
+        external_thrust = self.base_operating_point.external_thrust
+        nu = self.base_operating_point.nu
 
         # Iterate through the time steps.
         for step in range(num_steps):
@@ -1340,7 +1342,12 @@ class OperatingPointMovement:
 
             # Make a new operating point object for this time step.
             this_operating_point = operating_point.OperatingPoint(
-                density=density, velocity=velocity, alpha=alpha, beta=beta
+                density=density,
+                velocity=velocity,
+                alpha=alpha,
+                beta=beta,
+                external_thrust=external_thrust,
+                nu=nu,
             )
 
             # Add this new object to the list of operating points.
-- 
2.43.0


From 8cbc6891271fe0ddcfd0fe54f499dc6e3673c31a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:01:31 +0000
Subject: [PATCH 04/22] fix: keep the weight in the moving airplanes

---
 pterasoftware/movement.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/pterasoftware/movement.py b/pterasoftware/movement.py
index d081178..f6aec7e 100644
--- a/pterasoftware/movement.py
+++ b/pterasoftware/movement.py
@@ -439,7 +439,12 @@ class AirplaneMovement:
 
             # Make a new airplane object for this time step.
             this_airplane = geometry.Airplane(
-                name=name, x_ref=x_ref, y_ref=y_ref, z_ref=z_ref, wings=these_wings
+                name=name,
+                x_ref=x_ref,
+                y_ref=y_ref,
+                z_ref=z_ref,
+                weight=self.base_airplane.weight,
+                wings=these_wings,
             )
 
             # Add this new object to the list of airplanes.
-- 
2.43.0


From 0cd0dd666242481f72285c44488893e8cbfba546 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:01:31 +0000
Subject: [PATCH 05/22] fix: keep the given reference dimensions in the moving
 airplanes

---
 pterasoftware/geometry.py | 6 ++++++
 pterasoftware/movement.py | 3 +++
 2 files changed, 9 insertions(+)

diff --git a/pterasoftware/geometry.py b/pterasoftware/geometry.py
index 7ed0784..282a5b9 100644
--- a/pterasoftware/geometry.py
+++ b/pterasoftware/geometry.py
@@ -105,6 +105,12 @@ class Airplane:
         # Set the wing reference dimensions to be the main wing's reference dimensions.
         self.set_reference_dimensions_from_main_wing()
 
+        # Save the passed reference dimensions, so that copies of this airplane can be
+        # given the same ones.
+        self.passed_s_ref = s_ref
+        self.passed_c_ref = c_ref
+        self.passed_b_ref = b_ref
+
         # If any of the passed reference dimensions are not None, set that reference
         # dimension to be what was passed.
         if s_ref is not None:
diff --git a/pterasoftware/movement.py b/pterasoftware/movement.py
index f6aec7e..6e8da1b 100644
--- a/pterasoftware/movement.py
+++ b/pterasoftware/movement.py
@@ -444,6 +444,9 @@ class AirplaneMovement:
                 y_ref=y_ref,
                 z_ref=z_ref,
                 weight=self.base_airplane.weight,
+                s_ref=self.base_airplane.passed_s_ref,
+                c_ref=self.base_airplane.passed_c_ref,
+                b_ref=self.base_airplane.passed_b_ref,
                 wings=these_wings,
             )
 
-- 
2.43.0


From 03a175a588a0de3cc17086e5dcfb99cf5803e617 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:01:31 +0000
Subject: [PATCH 06/22] fix: keep the orientation of the moving wings and wing
 cross sections

---
 pterasoftware/movement.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pterasoftware/movement.py b/pterasoftware/movement.py
index 6e8da1b..fd1c4a9 100644
--- a/pterasoftware/movement.py
+++ b/pterasoftware/movement.py
@@ -810,6 +810,8 @@ class WingMovement:
                 z_le=z_le,
                 wing_cross_sections=cross_sections,
                 symmetric=symmetric,
+                unit_normal_vector=self.base_wing.unit_normal_vector,
+                unit_chordwise_vector=self.base_wing.unit_chordwise_vector,
                 num_chordwise_panels=num_chordwise_panels,
                 chordwise_spacing=chordwise_spacing,
             )
@@ -1217,6 +1219,7 @@ class WingCrossSectionMovement:
                 z_le=z_le,
                 chord=chord,
                 twist=twist,
+                unit_normal_vector=self.base_wing_cross_section.unit_normal_vector,
                 airfoil=airfoil,
                 control_surface_type=control_surface_type,
                 control_surface_hinge_point=control_surface_hinge_point,
-- 
2.43.0


From 05f12586efc7a7a60742a64cf7b423553a729398 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:01:31 +0000
Subject: [PATCH 07/22] fix: keep the orientation of the wings in the
 convergence studies

---
 pterasoftware/convergence.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/pterasoftware/convergence.py b/pterasoftware/convergence.py
index 9d8bdea..cbd9abf 100644
--- a/pterasoftware/convergence.py
+++ b/pterasoftware/convergence.py
@@ -223,6 +223,7 @@ def analyze_steady_convergence(
                                 control_surface_hinge_point=ref_wing_cross_section.control_surface_hinge_point,
                                 control_surface_deflection=ref_wing_cross_section.control_surface_deflection,
                                 spanwise_spacing=ref_wing_cross_section.spanwise_spacing,
+                                unit_normal_vector=ref_wing_cross_section.unit_normal_vector,
                                 # These values change.
                                 num_spanwise_panels=this_num_spanwise_panels,
                                 airfoil=geometry.Airfoil(
@@ -242,6 +243,8 @@ def analyze_steady_convergence(
                             y_le=ref_wing.y_le,
                             z_le=ref_wing.z_le,
                             symmetric=ref_wing.symmetric,
+                            unit_normal_vector=ref_wing.unit_normal_vector,
+                            unit_chordwise_vector=ref_wing.unit_chordwise_vector,
                             chordwise_spacing=ref_wing.chordwise_spacing,
                             # These values change.
                             num_chordwise_panels=num_chordwise_panels,
@@ -811,6 +814,7 @@ def analyze_unsteady_convergence(
                                     control_surface_hinge_point=ref_base_wing_cross_section.control_surface_hinge_point,
                                     control_surface_deflection=ref_base_wing_cross_section.control_surface_deflection,
                                     spanwise_spacing=ref_base_wing_cross_section.spanwise_spacing,
+                                    unit_normal_vector=ref_base_wing_cross_section.unit_normal_vector,
                                     # These values change.
                                     num_spanwise_panels=this_num_spanwise_panels,
                                     airfoil=geometry.Airfoil(
@@ -862,6 +866,8 @@ def analyze_unsteady_convergence(
                                 y_le=ref_base_wing.y_le,
                                 z_le=ref_base_wing.z_le,
                                 symmetric=ref_base_wing.symmetric,
+                                unit_normal_vector=ref_base_wing.unit_normal_vector,
+                                unit_chordwise_vector=ref_base_wing.unit_chordwise_vector,
                                 chordwise_spacing=ref_base_wing.chordwise_spacing,
                                 # These values change.
                                 num_chordwise_panels=num_chordwise_panels,
-- 
2.43.0


From 47ea1cb2814565e36f723863bce903f8917a6c48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:02:21 +0000
Subject: [PATCH 08/22] fix: read the unsteady trim's loads from attributes
 that exist

---
 pterasoftware/trim.py | 22 ++++++++++++++++------
 1 file changed, 16 insertions(+), 6 deletions(-)

diff --git a/pterasoftware/trim.py b/pterasoftware/trim.py
index d4e6bb9..b6d89a4 100644
--- a/pterasoftware/trim.py
+++ b/pterasoftware/trim.py
@@ -283,12 +283,22 @@ def analyze_unsteady_trim(
 
         this_solver.run(logging_level="Critical")
 
-        force_coefficients = (
-            this_solver.unsteady_problem.final_total_near_field_force_coefficients_wind_axes
-        )
-        moment_coefficients = (
-            this_solver.unsteady_problem.final_total_near_field_moment_coefficients_wind_axes
-        )
+        # If the geometry is static, use the final load coefficients. Otherwise,
+        # use the cycle-averaged load coefficients. There is only one airplane.
+        if this_problem.max_period == 0:
+            force_coefficients = (
+                this_problem.final_near_field_force_coefficients_wind_axes[0]
+            )
+            moment_coefficients = (
+                this_problem.final_near_field_moment_coefficients_wind_axes[0]
+            )
+        else:
+            force_coefficients = (
+                this_problem.final_mean_near_field_force_coefficients_wind_axes[0]
+            )
+            moment_coefficients = (
+                this_problem.final_mean_near_field_moment_coefficients_wind_axes[0]
+            )
 
         net_force_coefficients = np.linalg.norm(
             force_coefficients - external_force_coefficients
-- 
2.43.0


From 9f0187c1161a8c5ca0fccd4ce185a00401be260f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:02:21 +0000
Subject: [PATCH 09/22] fix: keep the trim's global search within the bounds

Without bounds of its own, the local minimizer the global search calls
could evaluate, and so return, states outside the requested bounds.
---
 pterasoftware/trim.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pterasoftware/trim.py b/pterasoftware/trim.py
index b6d89a4..57264d0 100644
--- a/pterasoftware/trim.py
+++ b/pterasoftware/trim.py
@@ -188,6 +188,7 @@ def analyze_steady_trim(
             minimizer_kwargs={
                 "method": "L-BFGS-B",
                 "options": {"maxfun": num_calls, "eps": 0.01},
+                "bounds": bounds,
             },
         )
     except StopIteration:
@@ -356,6 +357,7 @@ def analyze_unsteady_trim(
             minimizer_kwargs={
                 "method": "L-BFGS-B",
                 "options": {"maxfun": num_calls, "eps": 0.01},
+                "bounds": bounds,
             },
         )
     except StopIteration:
-- 
2.43.0


From b664b8fffa878222d730cab8fdb0cae8e9ef8664 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:02:21 +0000
Subject: [PATCH 10/22] fix: clear the previous results when an unsteady
 problem is solved again

---
 .../unsteady_ring_vortex_lattice_method.py    | 23 +++++++++++++++++++
 1 file changed, 23 insertions(+)

diff --git a/pterasoftware/unsteady_ring_vortex_lattice_method.py b/pterasoftware/unsteady_ring_vortex_lattice_method.py
index 5f48792..f60119b 100644
--- a/pterasoftware/unsteady_ring_vortex_lattice_method.py
+++ b/pterasoftware/unsteady_ring_vortex_lattice_method.py
@@ -205,6 +205,15 @@ class UnsteadyRingVortexLatticeMethodSolver:
         )
         logging.basicConfig(level=logging_level_value)
 
+        # Clear the wake histories of any previous run.
+        self.num_wake_ring_vortices_list = []
+        self.wake_ring_vortex_strengths_list = []
+        self.wake_ring_vortex_ages_list = []
+        self.wake_ring_vortex_front_right_vertices_list = []
+        self.wake_ring_vortex_front_left_vertices_list = []
+        self.wake_ring_vortex_back_left_vertices_list = []
+        self.wake_ring_vortex_back_right_vertices_list = []
+
         # The following loop iterates through the steps to populate currently empty
         # attributes with lists of pre-allocated arrays. During the simulation,
         # these arrays will be filled with data that describe the wake. Using this
@@ -1591,6 +1600,20 @@ class UnsteadyRingVortexLatticeMethodSolver:
 
         :return: None
         """
+        # Clear the final results of any previous run.
+        self.unsteady_problem.final_near_field_forces_wind_axes = []
+        self.unsteady_problem.final_near_field_force_coefficients_wind_axes = []
+        self.unsteady_problem.final_near_field_moments_wind_axes = []
+        self.unsteady_problem.final_near_field_moment_coefficients_wind_axes = []
+        self.unsteady_problem.final_mean_near_field_forces_wind_axes = []
+        self.unsteady_problem.final_mean_near_field_force_coefficients_wind_axes = []
+        self.unsteady_problem.final_mean_near_field_moments_wind_axes = []
+        self.unsteady_problem.final_mean_near_field_moment_coefficients_wind_axes = []
+        self.unsteady_problem.final_rms_near_field_forces_wind_axes = []
+        self.unsteady_problem.final_rms_near_field_force_coefficients_wind_axes = []
+        self.unsteady_problem.final_rms_near_field_moments_wind_axes = []
+        self.unsteady_problem.final_rms_near_field_moment_coefficients_wind_axes = []
+
         # Get this solver's time step characteristics. Note that the first time step (
         # time step 0), occurs at 0 seconds.
         num_steps_to_average = self.num_steps - self.first_averaging_step
-- 
2.43.0


From fa07f790495b289a4a57ad555886c45cb24f43ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:02:21 +0000
Subject: [PATCH 11/22] fix: reproduce wing cross sections offset in both x and
 z from the inner one

The base angles were not the spherical angles used to place the wing cross
sections, so a swept wing with dihedral changed shape even without moving,
and a wing cross section with a smaller y than the inner one was mirrored.
---
 pterasoftware/movement.py | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/pterasoftware/movement.py b/pterasoftware/movement.py
index fd1c4a9..1fd7f7a 100644
--- a/pterasoftware/movement.py
+++ b/pterasoftware/movement.py
@@ -734,10 +734,16 @@ class WingMovement:
 
                 if this_y_le != last_y_les[0]:
                     # Find the base sweep angle of this wing cross section compared
-                    # to the inner wing cross section at the first time step.
+                    # to the inner wing cross section at the first time step. This is
+                    # the elevation angle of the spherical coordinate transformation
+                    # that is used to find the leading edge points.
                     base_wing_cross_section_sweep = (
-                        np.arctan(
-                            (this_z_le - last_z_les[0]) / (this_y_le - last_y_les[0])
+                        np.arctan2(
+                            this_z_le - last_z_les[0],
+                            np.sqrt(
+                                (this_x_le - last_x_les[0]) ** 2
+                                + (this_y_le - last_y_les[0]) ** 2
+                            ),
                         )
                         * 180
                         / np.pi
@@ -746,8 +752,8 @@ class WingMovement:
                     # Find the base heave angle of this wing cross section compared
                     # to the inner wing cross section at the first time step.
                     base_wing_cross_section_heave = (
-                        np.arctan(
-                            (this_x_le - last_x_les[0]) / (this_y_le - last_y_les[0])
+                        np.arctan2(
+                            this_x_le - last_x_les[0], this_y_le - last_y_les[0]
                         )
                         * 180
                         / np.pi
-- 
2.43.0


From a6edbd142b6ec7551a1b3bd7ecfb6749aa85d26f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:02:22 +0000
Subject: [PATCH 12/22] fix: keep vertical wing cross sections attached to
 moving inner ones

---
 pterasoftware/movement.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/pterasoftware/movement.py b/pterasoftware/movement.py
index 1fd7f7a..6b1587c 100644
--- a/pterasoftware/movement.py
+++ b/pterasoftware/movement.py
@@ -1174,9 +1174,10 @@ class WingCrossSectionMovement:
             raise Exception("Bad value of heaving_spacing!")
 
         if wing_is_vertical:
-            x_le_list = np.ones(num_steps) * self.x_le_base
-            y_le_list = np.ones(num_steps) * self.y_le_base
-            z_le_list = np.ones(num_steps) * self.z_le_base
+            # The wing cross section doesn't move relative to the inner one.
+            x_le_list = self.x_le_base + (np.array(last_x_les) - last_x_les[0])
+            y_le_list = self.y_le_base + (np.array(last_y_les) - last_y_les[0])
+            z_le_list = self.z_le_base + (np.array(last_z_les) - last_z_les[0])
             twist_list = np.ones(num_steps) * self.twist_base
         else:
 
-- 
2.43.0


From d286a7d28728130e431eba7cc17a5e20e79480f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:02:58 +0000
Subject: [PATCH 13/22] fix: animate scalars of problems with only final
 results

---
 pterasoftware/output.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pterasoftware/output.py b/pterasoftware/output.py
index 23baf45..b705dba 100644
--- a/pterasoftware/output.py
+++ b/pterasoftware/output.py
@@ -380,7 +380,8 @@ def animate(
 
         # Now iterate through each time step and gather all the scalars for its list
         # of airplanes. These values will be used to configure the color map.
-        for airplanes in step_airplanes:
+        # Only the steps with results have scalars.
+        for airplanes in step_airplanes[first_results_step:]:
             scalars_to_add = get_scalars(airplanes, scalar_type)
             all_scalars = np.hstack((all_scalars, scalars_to_add))
 
-- 
2.43.0


From 35f24c9db185255ad2257bf43a9f76df23bbe540 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:02:58 +0000
Subject: [PATCH 14/22] fix: print the results of unsteady problems with static
 geometry

---
 pterasoftware/output.py | 30 ++++++++++++++++++++++--------
 1 file changed, 22 insertions(+), 8 deletions(-)

diff --git a/pterasoftware/output.py b/pterasoftware/output.py
index b705dba..379e4db 100644
--- a/pterasoftware/output.py
+++ b/pterasoftware/output.py
@@ -980,14 +980,28 @@ def print_unsteady_results(unsteady_solver):
         This is the solver object with the results to be printed.
     :return: None
     """
-    forces = unsteady_solver.unsteady_problem.final_mean_near_field_forces_wind_axes
-    moments = unsteady_solver.unsteady_problem.final_mean_near_field_moments_wind_axes
-    force_coefficients = (
-        unsteady_solver.unsteady_problem.final_mean_near_field_force_coefficients_wind_axes
-    )
-    moment_coefficients = (
-        unsteady_solver.unsteady_problem.final_mean_near_field_moment_coefficients_wind_axes
-    )
+    unsteady_problem = unsteady_solver.unsteady_problem
+
+    # Problems with static geometry have final results, and problems with variable
+    # geometry have cycle-averaged results.
+    if unsteady_problem.max_period == 0:
+        forces = unsteady_problem.final_near_field_forces_wind_axes
+        moments = unsteady_problem.final_near_field_moments_wind_axes
+        force_coefficients = (
+            unsteady_problem.final_near_field_force_coefficients_wind_axes
+        )
+        moment_coefficients = (
+            unsteady_problem.final_near_field_moment_coefficients_wind_axes
+        )
+    else:
+        forces = unsteady_problem.final_mean_near_field_forces_wind_axes
+        moments = unsteady_problem.final_mean_near_field_moments_wind_axes
+        force_coefficients = (
+            unsteady_problem.final_mean_near_field_force_coefficients_wind_axes
+        )
+        moment_coefficients = (
+            unsteady_problem.final_mean_near_field_moment_coefficients_wind_axes
+        )
 
     # For each airplane object, calculate and print the average force, moment,
     # force coefficient, and moment coefficient values.
-- 
2.43.0


From 5088b19af6376b9424a479d6c85f75ac0539540a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:15:28 +0000
Subject: [PATCH 15/22] fix: make two airfoils with capital letters in their
 file names loadable

Airfoil names are looked up in lower case, so these files could never be found.
---
 .../airfoils/{ah81k144wfKlappe.dat => ah81k144wfklappe.dat}       | 0
 .../{griffith30SymSuction.dat => griffith30symsuction.dat}        | 0
 2 files changed, 0 insertions(+), 0 deletions(-)
 rename pterasoftware/airfoils/{ah81k144wfKlappe.dat => ah81k144wfklappe.dat} (100%)
 rename pterasoftware/airfoils/{griffith30SymSuction.dat => griffith30symsuction.dat} (100%)

diff --git a/pterasoftware/airfoils/ah81k144wfKlappe.dat b/pterasoftware/airfoils/ah81k144wfklappe.dat
similarity index 100%
rename from pterasoftware/airfoils/ah81k144wfKlappe.dat
rename to pterasoftware/airfoils/ah81k144wfklappe.dat
diff --git a/pterasoftware/airfoils/griffith30SymSuction.dat b/pterasoftware/airfoils/griffith30symsuction.dat
similarity index 100%
rename from pterasoftware/airfoils/griffith30SymSuction.dat
rename to pterasoftware/airfoils/griffith30symsuction.dat
-- 
2.43.0


From 09fb08602818465d808ce7cbd14df224557b5467 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:15:28 +0000
Subject: [PATCH 16/22] fix: load airfoils whose title line is not UTF-8

---
 pterasoftware/geometry.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pterasoftware/geometry.py b/pterasoftware/geometry.py
index 282a5b9..ac18864 100644
--- a/pterasoftware/geometry.py
+++ b/pterasoftware/geometry.py
@@ -893,7 +893,9 @@ class Airfoil:
             )
 
             # Read the text from the airfoil file.
-            raw_text = importlib.resources.read_text(airfoils, name + ".dat")
+            raw_text = importlib.resources.read_text(
+                airfoils, name + ".dat", encoding="latin-1"
+            )
 
             # Trim the text at the return characters.
             trimmed_text = raw_text[raw_text.find("\n") :]
-- 
2.43.0


From 77859f0d6b11bcf5c8468bb69d38072e11a16080 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:01:10 +0000
Subject: [PATCH 17/22] fix: clear the previous streamlines when an unsteady
 solver runs again

---
 pterasoftware/unsteady_ring_vortex_lattice_method.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pterasoftware/unsteady_ring_vortex_lattice_method.py b/pterasoftware/unsteady_ring_vortex_lattice_method.py
index f60119b..796b4eb 100644
--- a/pterasoftware/unsteady_ring_vortex_lattice_method.py
+++ b/pterasoftware/unsteady_ring_vortex_lattice_method.py
@@ -214,6 +214,9 @@ class UnsteadyRingVortexLatticeMethodSolver:
         self.wake_ring_vortex_back_left_vertices_list = []
         self.wake_ring_vortex_back_right_vertices_list = []
 
+        # Clear the streamlines of any previous run.
+        self.streamline_points = None
+
         # The following loop iterates through the steps to populate currently empty
         # attributes with lists of pre-allocated arrays. During the simulation,
         # these arrays will be filled with data that describe the wake. Using this
-- 
2.43.0


From 454f1f3f6d631ebe48c44b528f02ffd8a31d0038 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:14:49 +0000
Subject: [PATCH 18/22] fix: give every wing section at least one spanwise
 panel in the convergence studies

---
 pterasoftware/convergence.py | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/pterasoftware/convergence.py b/pterasoftware/convergence.py
index cbd9abf..42742c9 100644
--- a/pterasoftware/convergence.py
+++ b/pterasoftware/convergence.py
@@ -15,7 +15,6 @@ This module contains the following functions:
     unsteady problem."""
 
 import logging
-import math
 import time
 
 import numpy as np
@@ -204,8 +203,8 @@ def analyze_steady_convergence(
                                 / (section_standard_mean_chord * panel_aspect_ratio)
                             )
 
-                            this_num_spanwise_panels = math.ceil(
-                                this_num_spanwise_panels
+                            this_num_spanwise_panels = max(
+                                this_num_spanwise_panels, 1
                             )
                         else:
                             this_num_spanwise_panels = 0
@@ -781,8 +780,8 @@ def analyze_unsteady_convergence(
                                         )
                                     )
 
-                                    this_num_spanwise_panels = math.ceil(
-                                        this_num_spanwise_panels
+                                    this_num_spanwise_panels = max(
+                                        this_num_spanwise_panels, 1
                                     )
                                 else:
                                     this_num_spanwise_panels = 0
-- 
2.43.0


From 2d99d3429fd3d4741dcaf0900b152bf144020b11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:44:42 +0000
Subject: [PATCH 19/22] fix: shed the wake evenly where a control surface
 breaks the trailing edge

---
 .../unsteady_ring_vortex_lattice_method.py    | 28 ++++++++++++++++++-
 1 file changed, 27 insertions(+), 1 deletion(-)

diff --git a/pterasoftware/unsteady_ring_vortex_lattice_method.py b/pterasoftware/unsteady_ring_vortex_lattice_method.py
index 796b4eb..199dd2f 100644
--- a/pterasoftware/unsteady_ring_vortex_lattice_method.py
+++ b/pterasoftware/unsteady_ring_vortex_lattice_method.py
@@ -1160,6 +1160,17 @@ class UnsteadyRingVortexLatticeMethodSolver:
                                 next_panel.ring_vortex.back_left_vertex
                             )
 
+                            # Where a control surface breaks the trailing edge, the
+                            # vertex lies midway between the neighboring panels'
+                            # ring vortices, so as to favor neither side.
+                            if spanwise_position > 0:
+                                next_front_left_vertex = (
+                                    next_front_left_vertex
+                                    + next_wing.panels[
+                                        chordwise_position, spanwise_position - 1
+                                    ].ring_vortex.back_right_vertex
+                                ) / 2
+
                             # Add this to the new row of wake ring vortex vertices.
                             first_row_of_wake_ring_vortex_vertices[
                                 0, spanwise_position
@@ -1323,9 +1334,24 @@ class UnsteadyRingVortexLatticeMethodSolver:
 
                             # Add the panel object's back left ring vortex vertex to
                             # the matrix of new wake ring vortex vertices.
+                            next_front_left_vertex = (
+                                next_panel.ring_vortex.back_left_vertex
+                            )
+
+                            # Where a control surface breaks the trailing edge, the
+                            # vertex lies midway between the neighboring panels'
+                            # ring vortices, so as to favor neither side.
+                            if spanwise_position > 0:
+                                next_front_left_vertex = (
+                                    next_front_left_vertex
+                                    + next_wing.panels[
+                                        chordwise_position, spanwise_position - 1
+                                    ].ring_vortex.back_right_vertex
+                                ) / 2
+
                             first_row_of_wake_ring_vortex_vertices[
                                 0, spanwise_position
-                            ] = next_panel.ring_vortex.back_left_vertex
+                            ] = next_front_left_vertex
 
                             if spanwise_position == (this_wing.num_spanwise_panels - 1):
                                 # If the panel object is at the right edge of the
-- 
2.43.0


From e033a6e09fe998924a731e350ea5abd832b76ed4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:50:30 +0000
Subject: [PATCH 20/22] fix: draw the wake of unsteady runs with a single time
 step

---
 pterasoftware/output.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pterasoftware/output.py b/pterasoftware/output.py
index 379e4db..76f7432 100644
--- a/pterasoftware/output.py
+++ b/pterasoftware/output.py
@@ -156,8 +156,8 @@ def draw(
         airplanes = solver.steady_problems[draw_step].airplanes
 
         # If the user wants to show the wake ring vortices, then get their surfaces and
-        # plot them.
-        if show_wake_vortices:
+        # plot them. There is no wake at the first time step.
+        if show_wake_vortices and draw_step > 0:
             wake_ring_vortex_surfaces = get_wake_ring_vortex_surfaces(solver, draw_step)
             plotter.add_mesh(
                 wake_ring_vortex_surfaces,
-- 
2.43.0


From 8456e7d46b12013d9bbb548c5aaac4e04ebeb6ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:30:37 +0000
Subject: [PATCH 21/22] fix: count the force on a leg shared by two ring
 vortices once, not twice

The left and right legs between spanwise neighbours are one vortex segment. Each
of the two panels was given the whole force on it, so splitting a wing into two
abutting wings changed an airplane's loads.
---
 pterasoftware/steady_ring_vortex_lattice_method.py  | 13 +++++++------
 .../unsteady_ring_vortex_lattice_method.py          | 13 +++++++------
 2 files changed, 14 insertions(+), 12 deletions(-)

diff --git a/pterasoftware/steady_ring_vortex_lattice_method.py b/pterasoftware/steady_ring_vortex_lattice_method.py
index 1b28cbb..9b5d7ce 100644
--- a/pterasoftware/steady_ring_vortex_lattice_method.py
+++ b/pterasoftware/steady_ring_vortex_lattice_method.py
@@ -503,13 +503,13 @@ class SteadyRingVortexLatticeMethodSolver:
                         ]
 
                         # Change the effective right vortex line strength from zero
-                        # to the difference between this panel's ring vortex's
+                        # to half of the difference between this panel's ring vortex's
                         # strength, and the ring vortex strength of the panel to the
-                        # right of it.
+                        # right of it, as the two panels share this leg.
                         effective_right_vortex_line_strengths[global_panel_position] = (
                             self.vortex_strengths[global_panel_position]
                             - panel_to_right.ring_vortex.strength
-                        )
+                        ) / 2
 
                     # Check if this panel is on its wing's leading edge.
                     if panel.is_leading_edge:
@@ -553,12 +553,13 @@ class SteadyRingVortexLatticeMethodSolver:
                         ]
 
                         # Change the effective left vortex line strength from zero to
-                        # the difference between this panel's ring vortex's strength,
-                        # and the ring vortex strength of the panel to the left of it.
+                        # half of the difference between this panel's ring vortex's
+                        # strength, and the ring vortex strength of the panel to the
+                        # left of it, as the two panels share this leg.
                         effective_left_vortex_line_strengths[global_panel_position] = (
                             self.vortex_strengths[global_panel_position]
                             - panel_to_left.ring_vortex.strength
-                        )
+                        ) / 2
 
                     # Increment the global panel position.
                     global_panel_position += 1
diff --git a/pterasoftware/unsteady_ring_vortex_lattice_method.py b/pterasoftware/unsteady_ring_vortex_lattice_method.py
index 199dd2f..78fd85e 100644
--- a/pterasoftware/unsteady_ring_vortex_lattice_method.py
+++ b/pterasoftware/unsteady_ring_vortex_lattice_method.py
@@ -915,13 +915,13 @@ class UnsteadyRingVortexLatticeMethodSolver:
                         ]
 
                         # Change the effective right vortex line strength from zero
-                        # to the difference between this panel's ring vortex's
+                        # to half of the difference between this panel's ring vortex's
                         # strength, and the ring vortex strength of the panel to the
-                        # right of it.
+                        # right of it, as the two panels share this leg.
                         effective_right_vortex_line_strengths[global_panel_position] = (
                             self.current_vortex_strengths[global_panel_position]
                             - panel_to_right.ring_vortex.strength
-                        )
+                        ) / 2
 
                     # Check if this panel is on its wing's leading edge.
                     if panel.is_leading_edge:
@@ -965,12 +965,13 @@ class UnsteadyRingVortexLatticeMethodSolver:
                         ]
 
                         # Change the effective left vortex line strength from zero to
-                        # the difference between this panel's ring vortex's strength,
-                        # and the ring vortex strength of the panel to the left of it.
+                        # half of the difference between this panel's ring vortex's
+                        # strength, and the ring vortex strength of the panel to the
+                        # left of it, as the two panels share this leg.
                         effective_left_vortex_line_strengths[global_panel_position] = (
                             self.current_vortex_strengths[global_panel_position]
                             - panel_to_left.ring_vortex.strength
-                        )
+                        ) / 2
 
                     # Increment the global panel position.
                     global_panel_position += 1
-- 
2.43.0


From 30c76f67a67247fc9ece5dd0a5fa09bf8c30a89b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:40:52 +0000
Subject: [PATCH 22/22] fix: accept wings whose directions are perpendicular up
 to rounding

---
 pterasoftware/geometry.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/pterasoftware/geometry.py b/pterasoftware/geometry.py
index ac18864..3a576c8 100644
--- a/pterasoftware/geometry.py
+++ b/pterasoftware/geometry.py
@@ -298,7 +298,9 @@ class Wing:
             )
 
         # Check that the wing's chordwise and normal directions are perpendicular.
-        if np.dot(self.unit_chordwise_vector, self.unit_normal_vector) != 0:
+        if not np.isclose(
+            np.dot(self.unit_chordwise_vector, self.unit_normal_vector), 0
+        ):
             raise Exception(
                 "Every wing cross section's plane must intersect with the wing's "
                 "symmetry plane along a line that is parallel with the wing's "
@@ -326,7 +328,9 @@ class Wing:
 
             # If this vector is not parallel to the wing's chordwise vector, raise an
             # exception.
-            if np.any(np.cross(plane_intersection_vector, self.unit_chordwise_vector)):
+            if not np.allclose(
+                np.cross(plane_intersection_vector, self.unit_chordwise_vector), 0
+            ):
                 raise Exception(
                     "Every wing cross section's plane must intersect with the wing's "
                     "symmetry plane along a line that is parallel with the wing's "
-- 
2.43.0

