"""Writes /verif/properties.jsonl (one JSON object per line)."""
import json, os
P = []
PS = "pterasoftware/"
def prop(id, title, statement, over, qtext, why, files, mechanism, state=(), observe=(), hook=None):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=qtext), why_tests_cant=why,
        anchors=dict(files=[f if "/" in f else PS + f for f in files],
            state=[dict(name=n, meaning=m, where=w) for n, m, w in state],
            mechanism=[dict(name=n, where=w) for n, w in mechanism],
            observe_at=list(observe), hook_needed=hook)))

prop("C01", "Wings become complete, gap-free, correctly ordered panel lattices",
 "Meshing a wing yields exactly one quadrilateral panel for every chordwise/spanwise cell (mirrored cells included, ordered left tip to right tip), with leading-, trailing-, left- and right-edge markings and grid indices that match the panel's place. Every corner lies on the straight line between the camber lines of the two bounding cross sections (placed, scaled, twisted and flapped as defined, at the requested cosine or uniform fractions), so neighbouring panels of a section share their corners exactly. On a symmetric wing the left half is the mirror image of the right half about the wing's own symmetry plane, with an antisymmetric control surface deflected the opposite way there.",
 ["inputs", "configurations"],
 "for every wing definition: number, spacing, taper, sweep, dihedral, twist and orientation of cross sections, symmetric or not, with or without control surface deflection, placed anywhere",
 "The geometry tests are absent from the stable suite; the solver tests mesh a few fixed wings and compare integrated coefficients within percents, which is blind to wrong flags, a shifted corner, or a mirror about the wrong plane.",
 ["meshing.py", "geometry.py", "panel.py", "functions.py"],
 [("section by section meshing and mirroring", "pterasoftware/meshing.py:mesh_wing"), ("corner interpolation", "pterasoftware/meshing.py:get_wing_section_panel_vertices"), ("reflection", "pterasoftware/functions.py:reflect_point_across_plane")],
 [("panel grid", "corners, flags and indices of each panel", "Wing.panels")], ["public attributes of the meshed wing"])

prop("C02", "Airfoil outlines, camber lines and control surfaces follow their definition",
 "A four-digit NACA name yields the section defined by the standard thickness and camber formulas, a library name yields the tabulated section, and anything else is rejected; resampling keeps the outline on the same surfaces at cosine-spaced chord fractions with the leading-edge point shared. The mean camber line is the midline of the two surfaces, and sampling it at given fractions of its length returns the points at those fractions. Adding a control surface leaves everything ahead of the hinge unchanged, rotates everything behind it rigidly about the hinge on the camber line (downwards for positive angles), leaves the original section untouched, and rejects deflections beyond ninety degrees either way.",
 ["inputs"], "for every four-digit section, every library section, every hinge position and every deflection including both limits",
 "No stable test builds an airfoil on its own or looks at a deflected section's coordinates.",
 ["geometry.py", "functions.py"],
 [("NACA generation and database loading", "pterasoftware/geometry.py:Airfoil.populate_coordinates"), ("camber line and downsampling", "pterasoftware/geometry.py:Airfoil.populate_mcl_coordinates, get_downsampled_mcl"), ("control surface", "pterasoftware/geometry.py:Airfoil.add_control_surface")],
 [("coordinates, mcl_coordinates", "outline and camber line", "Airfoil")], ["public attributes and methods of the airfoil"])

prop("C03", "Panel metrics and airplane reference dimensions match their definitions",
 "For every panel the bound-vortex points lie at the quarter chord of its sides, the control point midway across at three-quarter chord, and its area, normal, leg vectors and projected area are those of the quadrilateral's diagonals and corners. A wing's span, projected area, wetted area, standard mean chord and mean aerodynamic chord equal their definitions over its panels and cross sections, mirrored half included. An airplane's reference area, span and chord are those of its first wing unless the user gave explicit values, its panel count is the sum over its wings, and its moment reference is the point the user gave.",
 ["inputs", "configurations"], "for every wing and airplane definition, including several wings, dihedral, twist, mirrored and one-sided wings, and any subset of explicit reference values",
 "The suite checks integrated coefficients of fixed airplanes only; a wrong reference for another planform (one-sided, multi-section, dihedral) is not observed.",
 ["panel.py", "geometry.py"],
 [("panel properties", "pterasoftware/panel.py:Panel"), ("wing properties", "pterasoftware/geometry.py:Wing"), ("reference dimensions", "pterasoftware/geometry.py:Airplane.set_reference_dimensions_from_main_wing")],
 [("s_ref, c_ref, b_ref, num_panels, xyz_ref", "normalising quantities", "Airplane")], ["public attributes of panels, wings and airplanes"])

prop("C04", "Ill-formed definitions are rejected when built and valid ones are accepted",
 "Building an object from an ill-formed definition raises an error at construction and never yields a usable object: no wings, fewer than two cross sections, non-positive chord, an unknown spacing or control-surface kind, an unknown section name, a root section offset from or oriented differently than its wing, chord and normal directions that are not perpendicular, a cross section plane whose intersection with the symmetry plane is not along the chord, motion of a root section, a motion spacing that is unknown, or a simulation length given in the wrong terms. Every definition without such a fault is accepted. A fault is reported wherever it occurs: in any position of a list and combined with any other options.",
 ["inputs", "configurations"], "for every combination of faulty and correct fields at every position of the definition",
 "No stable test constructs an invalid object; validation branches are not executed at all.",
 ["geometry.py", "movement.py"],
 [("constructor checks", "pterasoftware/geometry.py:Airplane, Wing, WingCrossSection, Airfoil"), ("movement checks", "pterasoftware/movement.py:Movement, WingMovement, WingCrossSectionMovement, AirplaneMovement, OperatingPointMovement")],
 [], ["exception or success of the constructor / snapshot generation"])

prop("C05", "Each time step's geometry and flight state follow the prescribed motion",
 "At time step k every moving quantity (airplane reference position, wing position, each cross section's sweep, pitch and heave, flight speed) equals its base value plus the prescribed oscillation evaluated at time k times the step length: sinusoidal or triangular with the given amplitude and period, or the user's own waveform, starting from the base value, and constant when amplitude or period is zero. Cross sections are positioned outward from the root, each keeping its distance from its inner neighbour while sweeping and heaving relative to it and pitching in its own plane, and a vertical section does not move relative to its neighbour. Every moving object is snapshotted once per step, in step order, and each object's motion depends only on its own parameters.",
 ["inputs", "histories"], "for every combination of amplitudes, periods, spacings and custom waveforms at every level of the hierarchy, every step length and number of steps",
 "Tests run three fixed motions end-to-end and check only that they run or compare totals loosely; no test inspects the geometry at a given step.",
 ["movement.py"],
 [("oscillation generators", "pterasoftware/movement.py:oscillating_sinspace, oscillating_linspace, oscillating_customspace"), ("snapshot generation", "pterasoftware/movement.py:AirplaneMovement.generate_airplanes, WingMovement.generate_wings, WingCrossSectionMovement.generate_wing_cross_sections, OperatingPointMovement.generate_operating_points")],
 [("airplanes[i][k], operating_points[k]", "snapshots", "Movement")], ["public attributes of the movement"])

prop("C06", "Snapshots carry over everything the motion does not prescribe",
 "Every airplane, wing, cross section and flight condition at every time step has the same value as its base object in every respect that the motion does not change: names, weight, reference values given by the user, chords, sections, panel counts and spacings, control surfaces, mirroring, orientation, density, viscosity, thrust, angles; reference values the user did not give are those of the snapshot's own first wing. A motion with no amplitude reproduces the base airplane's geometry exactly at every step. The snapshots are separate objects, and building a motion leaves the base definitions unchanged.",
 ["inputs", "configurations", "histories"], "for every base definition with any attribute set away from its default, at every level and at every step",
 "Tests use base objects with mostly default attributes and never compare a snapshot with its base, so a dropped attribute silently becomes its default.",
 ["movement.py"],
 [("reconstruction of each object at each step", "pterasoftware/movement.py:generate_airplanes, generate_wings, generate_wing_cross_sections, generate_operating_points")],
 [("snapshots", "per-step copies", "Movement.airplanes, Movement.operating_points")], ["public attributes of base and snapshot objects"])

prop("C07", "Step length, step count, averaging window and step pairing follow the motion",
 "The longest period of a simulation is the largest period found anywhere in its motions; unless the user gives a step length it is the average over airplanes of the time to travel one chordwise panel of reference chord, and unless the user gives a step count it is just enough steps for the requested (default three) longest cycles, or for static geometry the requested (default ten) reference chords of travel. The averaging window is the last step for static geometry and otherwise the last full cycle, never starting before the first step. The problem at step k holds exactly the step-k snapshot of every airplane and the step-k flight condition, in order, for every step.",
 ["inputs", "configurations"], "for every nesting of periods, number of airplanes, chords, speeds, explicit and default choices, including windows longer than the run",
 "Tests use two or three fixed settings; the case analysis over explicit/default, static/cyclic and multi-airplane choices is not enumerated.",
 ["movement.py", "problems.py"],
 [("time planning", "pterasoftware/movement.py:Movement.__init__, get_max_period"), ("window and pairing", "pterasoftware/problems.py:UnsteadyProblem.__init__")],
 [("num_steps, delta_time, first_averaging_step, first_results_step, steady_problems", "time plan", "Movement, UnsteadyProblem")], ["public attributes of movement and problem"])

prop("C08", "Vortex-induced velocities obey the regularised Biot-Savart law",
 "The velocity that any set of line, ring or horseshoe vortices induces at any points is the sum over their straight segments of the Biot-Savart velocity of a finite segment, with the viscous core radius determined by the vortex's age, strength and the fluid viscosity (no core at age zero). It is proportional to strength when no core is present, independent of how points and vortices are grouped or ordered, and summed and itemised evaluations agree. At a point on a segment's own axis or end points the segment contributes exactly nothing, and no input yields an undefined value.",
 ["inputs"], "for every finite arrangement of points, segments, strengths, ages and viscosities including degenerate and collinear ones",
 "Existing tests do not evaluate the kernels against a reference; solver tests see them only through integrated loads on regular lattices without collinear or aged configurations at close range.",
 ["aerodynamics.py", "functions.py"],
 [("vectorised kernels", "pterasoftware/aerodynamics.py:collapsed_velocities_from_*, expanded_velocities_from_*")],
 [], ["return values of the induced-velocity functions"])

prop("C09", "Solved vortex strengths make the flow tangent to every panel",
 "After a solve, the total velocity at every panel's control point - onset flow, minus the surface's own motion since the previous step, plus that of all bound vortices of all wings and airplanes and of the whole wake - has no component along the panel's normal, for both steady methods and at every step of the unsteady method. Each panel's vortex lies where its method puts it: a horseshoe at the quarter chord trailing along the stream, or a ring from its quarter chord to the next panel's (at the trailing edge, one panel chord behind its own quarter chord: moved back by a further quarter of the flow's step displacement in unsteady runs, and closed by a trailing vortex of equal strength in steady runs; trailing legs run along the stream for twenty spans). The strengths recorded on the panels are the solved ones.",
 ["inputs", "configurations", "histories"], "for every airplane set, operating point and motion, at every panel and step",
 "Tests compare integrated coefficients of a few cases against XFLR5 within 5 to 10 percent; local tangency, and influence terms that are small in those cases (other airplanes, flapping velocity, wake age), are unobserved.",
 ["steady_horseshoe_vortex_lattice_method.py", "steady_ring_vortex_lattice_method.py", "unsteady_ring_vortex_lattice_method.py", "functions.py"],
 [("influence assembly and linear solve", "run, initialize_panel_vortices, calculate_*_influences, calculate_vortex_strengths of each solver")],
 [("vortex strengths and vertices", "circulation solution", "panels' vortices")], ["panel vortices, wake arrays and solver arrays after each step"],
 None)

prop("C10", "Each panel's force and moment obey the vortex force law",
 "The force on a panel equals density times the sum over its bound segments of the segment's net circulation (its own minus that of the neighbour sharing the segment, whole at wing edges; the force on a side segment shared by two neighbours is shared equally between them, so that every segment of the lattice counts once) times the cross product of the local velocity - onset, induced and motion - with the segment, plus in unsteady runs the normal force from the rate of change of its circulation since the previous step. The moment on a panel is the sum of these forces' moments about its own airplane's reference point. Neighbour relations never cross wings or airplanes.",
 ["inputs", "configurations", "histories"], "for every lattice shape, number of wings and airplanes, motion and step",
 "Panel-level loads are never asserted; integrated comparisons against XFLR5 have tolerances of several percent and use one airplane at a time for steady cases.",
 ["steady_horseshoe_vortex_lattice_method.py", "steady_ring_vortex_lattice_method.py", "unsteady_ring_vortex_lattice_method.py"],
 [("near field forces", "calculate_near_field_forces_and_moments of each solver")],
 [("near_field_force/moment", "loads of each panel", "Panel")], ["public attributes of panels after a run"])

prop("C11", "Totals and coefficients are the correctly rotated, normalised panel sums",
 "Each airplane's total force and moment in wind axes are the sums of its own panels' loads rotated into the wind axes of the operating point of that step, and each panel's own loads are rotated the same way. Drag, side-force and lift coefficients are these forces (drag and lift counted positive against the stream and upwards) divided by dynamic pressure and reference area, the moment coefficients additionally by span, chord and span, and panel coefficients by the panel's own area. Wind axes at given angle of attack and sideslip form a right-handed orthonormal frame whose first axis opposes the stream.",
 ["inputs", "configurations"], "for every operating point, reference values, number of airplanes and wings, steady or unsteady",
 "Tests check total coefficients at zero or tiny sideslip; axis mix-ups that vanish there, or mixing airplanes, are invisible.",
 ["functions.py", "operating_point.py", "panel.py"],
 [("force post-processing", "pterasoftware/functions.py:process_steady_solver_forces, process_unsteady_solver_forces"), ("wind axes", "pterasoftware/operating_point.py:OperatingPoint"), ("panel coefficients", "pterasoftware/panel.py:Panel.update_coefficients")],
 [("total_near_field_*", "airplane loads", "Airplane")], ["public attributes of airplanes, panels and operating points"])

prop("C12", "The wake is shed, convected and aged one row per step without loss",
 "At step k each wing's wake has exactly k rows of one ring per spanwise panel: the newest row starts at that step's trailing-edge bound vortex and carries, at age zero, the strength its trailing-edge panel had at the previous step, and every older ring keeps its strength forever and is one step older. Every existing wake point moves by the local velocity times the step length - the stream velocity for a prescribed wake, the full local velocity for a free wake - and so do the new trailing-edge points that seed the first row; rings of neighbouring cells share their corners (where a control surface makes a step in the trailing edge, the shared corner lies midway). The per-step wake history kept for inspection is exactly that step's wake, in wing order, unaffected by later steps.",
 ["inputs", "configurations", "histories"], "for every number of airplanes, wings and panels, motion, prescribed or free wake, and at every step",
 "Tests only compare final coefficients; wake bookkeeping errors (wrong row, age, late aliasing of history, wrong wing) change them within tolerance.",
 ["unsteady_ring_vortex_lattice_method.py", "aerodynamics.py", "geometry.py"],
 [("wake population", "pterasoftware/unsteady_ring_vortex_lattice_method.py:populate_next_airplanes_wake_vortex_vertices, populate_next_airplanes_wake_vortices"), ("wake snapshots", "collapse_geometry and the wake_ring_vortex_*_list attributes"), ("ring vortex updates", "pterasoftware/aerodynamics.py:RingVortex.update_position, update_strength")],
 [("wake_ring_vortices, wake_ring_vortex_vertices", "wake of a wing at a step", "Wing"), ("wake_ring_vortex_*_list", "wake history", "solver")], ["public attributes of wings and solver during and after a run"])

prop("C13", "Final unsteady results are the last-step, mean and RMS loads of the right window",
 "After an unsteady run, a static-geometry problem reports each airplane's loads and coefficients of the last step, and any other problem reports each airplane's mean and root-mean-square loads and coefficients over exactly the averaging window, in airplane order, and nothing in the lists that do not apply. Loads exist for every step from the first requested one on and for no earlier step; asking for only the final results changes neither the wake, the vortex strengths nor the reported final values. Prescribed or free wake and streamline options never change which steps have results.",
 ["inputs", "configurations"], "for every motion, number of airplanes, window length, and option combination",
 "Tests never run the same case with and without the final-only option nor check the aggregation against per-step values.",
 ["unsteady_ring_vortex_lattice_method.py", "problems.py"],
 [("aggregation", "pterasoftware/unsteady_ring_vortex_lattice_method.py:finalize_near_field_forces_and_moments"), ("gating", "run; pterasoftware/problems.py:UnsteadyProblem.__init__")],
 [("final_*, final_mean_*, final_rms_*", "reported results", "UnsteadyProblem")], ["public attributes of the problem after a run"])

prop("C14", "Results depend only on the problem, not on what was computed before",
 "Running a solver again, running another solver or another copy of the same solver on the same problem, or interleaving runs on other problems, or running after a run that was interrupted, always leaves the same results as a single run on a freshly built problem: no load, strength, wake, streamline or final value accumulates or goes stale. Runs with the same definition give identical results, and a run does not change the definition it was given (geometry, operating point, motion, options).",
 ["histories"], "for every sequence of builds, runs and re-runs with every solver and option on shared or separate problems",
 "Each existing test performs one run on one fresh problem; no test runs anything twice.",
 ["steady_horseshoe_vortex_lattice_method.py", "steady_ring_vortex_lattice_method.py", "unsteady_ring_vortex_lattice_method.py", "functions.py", "problems.py"],
 [("per-run initialisation", "__init__ and run of each solver"), ("panel-held vortex objects", "initialize_panel_vortices")],
 [("panel vortices, solver arrays, result lists", "state that survives a run", "Panel, solvers, UnsteadyProblem")], ["public attributes after each operation of a history"])

prop("C15", "Trim search only returns states it evaluated as trimmed, within the bounds",
 "A trim search returns an operating state only if the residual of net force and moment coefficients (loads against weight and thrust, averaged over the last cycle for moving geometry) that it evaluated for exactly that state is below the requested cut-off, and that state lies within the requested bounds; otherwise it returns not-a-number for every variable. It stops at the first acceptable state, trying the local search before the global one, and ends in any case after a number of evaluations in proportion to the number of iterations asked for. Steady trim rejects a starting point outside any bound before evaluating anything. Every evaluation is of the given airplane (with its given motion) in the given air, and the search changes nothing of them but the speed, angles and thrust of the operating point.",
 ["inputs", "histories", "configurations"], "for every sequence of residuals met by the search, every starting point and bound, steady and unsteady",
 "The two trim tests run one airplane each and accept a wide band of results; the unsteady path is not executed.",
 ["trim.py"],
 [("objective and search staging", "pterasoftware/trim.py:analyze_steady_trim, analyze_unsteady_trim")],
 [("current_arguments", "state under evaluation", "trim search")], ["return value, evaluations made on the solver"])

prop("C16", "Convergence studies return the first settings whose refinement stops mattering",
 "A convergence study evaluates settings in order (wake type, wake length, panel aspect ratio, chordwise panels, each within its given range) and returns the settings just before the first ones at which every varied parameter's refinement changes the loads by less than the criterion, treating a parameter as settled when it has a single value or is already at its finest (aspect ratio one, free wake); if the range is exhausted it returns no settings at all. Each evaluation meshes the given airplanes (wings extending sideways) with exactly the settings under test, every wing section having at least one panel, and otherwise unchanged definitions and motions, and the input problem is not modified. Returned settings were always themselves evaluated.",
 ["inputs", "histories", "configurations"], "for every table of loads over the settings grid, every range and criterion, steady and unsteady, static or cyclic motion",
 "The convergence tests run a couple of real airplanes and check the final numbers; the decision logic over other load tables (non-monotone, single-valued ranges, saturation) is not enumerated.",
 ["convergence.py"],
 [("steady study", "pterasoftware/convergence.py:analyze_steady_convergence"), ("unsteady study", "pterasoftware/convergence.py:analyze_unsteady_convergence")],
 [("iteration tables", "loads by settings", "convergence study")], ["return value, problems handed to the solver"])

prop("C17", "Reports, plots and 3D surfaces show exactly the computed data",
 "Printed results show each airplane's own forces, moments and coefficients with the right labels, for steady and unsteady, static and moving problems; time histories plot, for each airplane, the values of every step that has results against that step's time. Panel and wake surfaces contain each panel's and each wake ring's own corners as one quadrilateral in order, for the step shown, and panel colours are that step's values of the requested coefficient, panel by panel. Animations show every step's geometry with that step's wake, colouring only the steps that have results, with colour limits and extremes taken over all the values shown; a saved animation has one picture per step, in order, at the stated speed, and a drawing shows the last step, with every streamline segment when asked for. Printing, plotting, drawing and animating change nothing of the solver, the problem and its results.",
 ["inputs", "configurations"], "for every number of airplanes, wings, steps, result window and requested option",
 "Output tests only check that the functions run on fixtures with all results present and one airplane.",
 ["output.py"],
 [("text and plots", "pterasoftware/output.py:print_steady_results, print_unsteady_results, plot_results_versus_time"), ("surfaces and scalars", "pterasoftware/output.py:get_panel_surfaces, get_wake_ring_vortex_surfaces, get_scalars, draw, animate")],
 [], ["stdout, figures, surfaces and calls made on the plotting library"])

prop("C18", "Loads respect mirror, translation, scaling and relabelling symmetries",
 "Mirroring a configuration and its sideslip mirrors its loads, so a left-right symmetric airplane without sideslip has no side force, roll or yaw. Moving everything (reference points included), turning everything in pitch together with the stream, renaming, or writing a symmetric wing out from tip to tip leaves all loads unchanged, and reordering airplanes or wings permutes the results accordingly. Loads scale with density, with the square of size (moments: the cube) and, when times (and viscosity) are scaled to match, with the square of speed, leaving coefficients unchanged.",
 ["inputs", "configurations"], "for every configuration, operating point and motion, for all three methods",
 "Tests never run a configuration and its transformed image.",
 ["steady_horseshoe_vortex_lattice_method.py", "steady_ring_vortex_lattice_method.py", "unsteady_ring_vortex_lattice_method.py", "functions.py", "operating_point.py", "meshing.py"],
 [("whole solution chain", "run of each solver")],
 [], ["public results of pairs of runs"])

prop("C19", "Streamlines start at the trailing edge and follow the computed velocity field",
 "After a run that computes streamlines there is exactly one streamline per trailing-edge panel of every wing of every airplane, starting midway along that panel's back edge. Each following point is the previous one advanced by the total velocity there (onset plus all bound and wake vortices of the final step) over the integration interval, for the requested number of steps. Not requesting streamlines leaves them absent and all other results unchanged.",
 ["inputs", "configurations"], "for every airplane set, operating point, method and wake",
 "Streamlines are drawn in output tests but never compared with the velocity field.",
 ["functions.py", "steady_horseshoe_vortex_lattice_method.py", "steady_ring_vortex_lattice_method.py", "unsteady_ring_vortex_lattice_method.py"],
 [("streamline marching", "pterasoftware/functions.py:calculate_streamlines"), ("seed points", "pterasoftware/functions.py:update_ring_vortex_solvers_panel_attributes; steady horseshoe collapse_geometry")],
 [("seed_points, streamline_points", "streamline seeds and polylines", "solver")], ["public attributes of the solver after a run"])

here = os.path.dirname(os.path.abspath(__file__))
with open(os.path.join(here, "..", "properties.jsonl"), "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["id"]
        f.write(json.dumps(p) + "\n")
print(len(P), "properties")
