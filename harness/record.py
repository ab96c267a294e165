"""Projection of solved problems onto trace records."""
import hashlib
import itertools
import json
import logging

import numpy as np
import pterasoftware as ps

# how much is logged must not matter: runs go through the levels in turn, while the logs go nowhere
LEVELS = itertools.cycle(["Critical", "Warning", "Error", "Info", "Debug"])
logging.basicConfig(level=logging.CRITICAL, handlers=[logging.NullHandler()])
for _name in ("numba", "matplotlib", "PIL"):
    logging.getLogger(_name).setLevel(logging.CRITICAL)


def num(v):
    return repr(np.asarray(v).tolist())


def _sec_text(s):
    return [num([s.x_le, s.y_le, s.z_le, s.chord, s.twist, s.control_surface_hinge_point, s.control_surface_deflection,
                 s.num_spanwise_panels]), num(s.unit_normal_vector), s.control_surface_type, s.spanwise_spacing,
            s.airfoil.name, num(s.airfoil.coordinates)]


def air_text(a):
    """Everything that defines an airplane, and its lattice."""
    return [a.name, num([a.weight, a.s_ref, a.c_ref, a.b_ref]), num(a.xyz_ref)] + [
        [w.name, num([w.x_le, w.y_le, w.z_le]), str(w.symmetric), w.chordwise_spacing, num(w.unit_normal_vector),
         num(w.unit_chordwise_vector), [_sec_text(s) for s in w.wing_cross_sections],
         [num([p.front_left_vertex, p.front_right_vertex, p.back_left_vertex, p.back_right_vertex]) for p in np.ravel(w.panels)]]
        for w in a.wings]


def op_text(o):
    return num([o.density, o.beta, o.velocity, o.alpha, o.nu, o.external_thrust])


def digest(x):
    return hashlib.md5(json.dumps(x, sort_keys=True).encode()).hexdigest()


def facts(roots, stop=()):
    """Every public attribute that has a value, of the library's objects reachable from some: path -> text.
    What is reachable on several paths is listed on the first, and by that path on the others."""
    out, seen = {}, {}

    def walk(v, path):
        if v is None or callable(v):
            return
        if isinstance(v, np.ndarray) and v.dtype != object:
            out[path] = digest([str(v.shape), v.tolist()])
        elif isinstance(v, (bool, int, float, complex, str, np.generic)):
            out[path] = repr(v.item() if isinstance(v, np.generic) else v)
        elif isinstance(v, (list, tuple, dict, np.ndarray)) or type(v).__module__.startswith("pterasoftware"):
            if id(v) in seen:
                out[path] = seen[id(v)][0]
                return
            seen[id(v)] = (path, v)
            if isinstance(v, stop):
                return
            if isinstance(v, dict):
                kids = list(v.items())
            elif isinstance(v, (list, tuple)):
                kids = list(enumerate(v))
            elif isinstance(v, np.ndarray):
                kids = list(enumerate(v.ravel()))
            else:
                kids = sorted((k, x) for k, x in vars(v).items() if not k.startswith("_"))
            if not hasattr(v, "__dict__") or isinstance(v, np.ndarray):
                out[path + "#"] = str(np.shape(v) if isinstance(v, np.ndarray) else len(kids))
            for k, x in kids:
                walk(x, f"{path}.{k}")

    for k, root in enumerate(roots):
        walk(root, f"{type(root).__name__}{k}")
    return out


def compared(before, after):
    """Both lists of facts, gathered by the last two names on the path, of what was there before."""
    sums = [{}, {}]
    for path in sorted(before):
        names = [n for n in path.rstrip("#").split(".") if not n.isdigit()]
        for k, x in enumerate((before, after)):
            sums[k].setdefault("-".join(names[-2:]), []).append(x.get(path, "gone"))
    return [{n: digest(v) for n, v in s.items()} for s in sums]


def op_rec(o):
    return dict(rho=o.density, v=o.velocity, alpha=o.alpha, beta=o.beta, nu=o.nu)


def panel_rec(p, method):
    r = dict(fl=p.front_left_vertex, fr=p.front_right_vertex, bl=p.back_left_vertex, br=p.back_right_vertex)
    if method == "horseshoe":
        h = p.horseshoe_vortex
        r.update(vfl=h.left_leg.origin, vfr=h.right_leg.termination, vbl=h.left_leg.termination,
                 vbr=h.right_leg.origin, g=h.strength,
                 gl=[q.strength for q in (h.right_leg, h.finite_leg, h.left_leg)], b1=h.finite_leg.origin, b2=h.finite_leg.termination)
    else:
        v = p.ring_vortex
        r.update(vfl=v.front_left_vertex, vfr=v.front_right_vertex, vbl=v.back_left_vertex, vbr=v.back_right_vertex,
                 g=v.strength, gl=[q.strength for q in (v.right_leg, v.front_leg, v.left_leg, v.back_leg)])
        if method == "ring" and p.horseshoe_vortex is not None:
            h = p.horseshoe_vortex
            r["h"] = dict(fl=h.left_leg.origin, fr=h.right_leg.termination, bl=h.left_leg.termination,
                          br=h.right_leg.origin, g=h.strength,
                          gl=[q.strength for q in (h.right_leg, h.finite_leg, h.left_leg)], b1=h.finite_leg.origin, b2=h.finite_leg.termination)
    if p.near_field_force_geometry_axes is not None:
        r.update(f=p.near_field_force_geometry_axes, m=p.near_field_moment_geometry_axes,
                 fw=p.near_field_force_wind_axes, mw=p.near_field_moment_wind_axes,
                 c=[p.induced_drag_coefficient, p.side_force_coefficient, p.lift_coefficient])
    return r


def airplane_rec(a, method):
    r = dict(ref=a.xyz_ref, s=a.s_ref, c=a.c_ref, b=a.b_ref,
             wings=[dict(panels=[[panel_rec(p, method) for p in row] for row in w.panels], n=w.unit_normal_vector,
                         span=w.span) for w in a.wings])
    if a.total_near_field_force_wind_axes is not None:
        r.update(tf=a.total_near_field_force_wind_axes, tm=a.total_near_field_moment_wind_axes,
                 cf=a.total_near_field_force_coefficients_wind_axes,
                 cm=a.total_near_field_moment_coefficients_wind_axes)
    return r


def wake_rec(solver, k):
    return [dict(fl=a, fr=b, bl=c, br=d, g=g, age=t) for a, b, c, d, g, t in zip(
        solver.wake_ring_vortex_front_left_vertices_list[k], solver.wake_ring_vortex_front_right_vertices_list[k],
        solver.wake_ring_vortex_back_left_vertices_list[k], solver.wake_ring_vortex_back_right_vertices_list[k],
        solver.wake_ring_vortex_strengths_list[k], solver.wake_ring_vortex_ages_list[k])]


FINALS = dict(F="final_near_field_forces_wind_axes", CF="final_near_field_force_coefficients_wind_axes",
              M="final_near_field_moments_wind_axes", CM="final_near_field_moment_coefficients_wind_axes",
              mF="final_mean_near_field_forces_wind_axes", mCF="final_mean_near_field_force_coefficients_wind_axes",
              mM="final_mean_near_field_moments_wind_axes", mCM="final_mean_near_field_moment_coefficients_wind_axes",
              rF="final_rms_near_field_forces_wind_axes", rCF="final_rms_near_field_force_coefficients_wind_axes",
              rM="final_rms_near_field_moments_wind_axes", rCM="final_rms_near_field_moment_coefficients_wind_axes")


def finals_rec(problem):
    return {k: [np.asarray(x) for x in getattr(problem, v)] for k, v in FINALS.items()}


def streams_rec(solver):
    """Streamlines as [line][point], or None."""
    if solver.streamline_points is None:
        return None
    return np.swapaxes(np.asarray(solver.streamline_points), 0, 1)


INTERVALS = itertools.cycle([(7, 0.013), (1, 0.4), (3, 0.02), (25, 0.001), (0, 0.02), (4, 0.1), (30, 0.03)])
LONG = itertools.cycle([(90, 0.004), (4, 0.1), (130, 0.02)])


def again_rec(solver):
    """Streamlines computed anew, for another number of steps and another interval."""
    few = len(solver.panels) <= 2
    n, dt = next(LONG if few else INTERVALS)
    if solver.streamline_points is None or (n * len(solver.panels) > 60 and not few):
        return None
    ps.functions.calculate_streamlines(solver, num_steps=n, delta_time=dt)
    return dict(n=n, dt=dt, lines=streams_rec(solver))


def emit_unsteady(rec, solver, problem, mdef, **opts):
    import configs as c
    rec.emit("Run", dt=problem.delta_time, steps=problem.num_steps, periods=c.periods(mdef),
             only_final=opts.get("only_final", False), prescribed=opts.get("prescribed", True),
             streams=opts.get("streams", False))
    for k, sp in enumerate(problem.steady_problems):
        rec.emit("Step", k=k, op=op_rec(sp.operating_point),
                 airplanes=[airplane_rec(a, "unsteady") for a in sp.airplanes], wake=wake_rec(solver, k),
                 nwake=solver.num_wake_ring_vortices_list[k])
    rec.emit("Final", finals=finals_rec(problem), histories=len(solver.wake_ring_vortex_strengths_list),
             lines=streams_rec(solver), again=again_rec(solver))


def emit_steady(rec, solver, problem, method):
    rec.emit("Steady", method=method, op=op_rec(problem.operating_point),
             airplanes=[airplane_rec(a, method) for a in problem.airplanes], lines=streams_rec(solver),
             again=again_rec(solver))


def solve_steady(problem, method):
    cls = {"horseshoe": ps.steady_horseshoe_vortex_lattice_method.SteadyHorseshoeVortexLatticeMethodSolver,
           "ring": ps.steady_ring_vortex_lattice_method.SteadyRingVortexLatticeMethodSolver}[method]
    s = cls(problem)
    s.run(logging_level=next(LEVELS))
    return s


def solve_unsteady(problem, prescribed=True, streams=False):
    s = ps.unsteady_ring_vortex_lattice_method.UnsteadyRingVortexLatticeMethodSolver(problem)
    s.run(logging_level=next(LEVELS), prescribed_wake=prescribed, calculate_streamlines=streams)
    return s
