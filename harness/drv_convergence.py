"""C16: convergence studies with scripted loads (generated by TLC) and with the real solvers."""
import inspect
import json
import logging

import numpy as np
import pterasoftware as ps
from common import parse_args, run_scenarios, rng_for
import configs as c
import record as r

logging.disable(logging.CRITICAL)
args = parse_args()
SOLVERS = dict(horseshoe=ps.steady_horseshoe_vortex_lattice_method.SteadyHorseshoeVortexLatticeMethodSolver,
               ring=ps.steady_ring_vortex_lattice_method.SteadyRingVortexLatticeMethodSolver,
               unsteady=ps.unsteady_ring_vortex_lattice_method.UnsteadyRingVortexLatticeMethodSolver)
REAL = {k: v.run for k, v in SOLVERS.items()}
NAMES = dict(horseshoe="steady horseshoe vortex lattice method", ring="steady ring vortex lattice method",
             unknown="steady vortex lattice method")
WAVES = {id(f): n for n, f in c.WAVEFORMS.items()}


def sec_rec(s):
    return dict(le=[s.x_le, s.y_le, s.z_le], chord=s.chord, n=s.unit_normal_vector, twist=s.twist,
                cst=s.control_surface_type, hinge=s.control_surface_hinge_point, defl=s.control_surface_deflection,
                ss=s.spanwise_spacing, ns=s.num_spanwise_panels, mcl=s.airfoil.mcl_coordinates)


def wing_rec(w):
    return dict(le=[w.x_le, w.y_le, w.z_le], n=w.unit_normal_vector, c=w.unit_chordwise_vector, sym=w.symmetric,
                cs=w.chordwise_spacing, nc=w.num_chordwise_panels, name=w.name, rows=w.panels.shape[0],
                cols=w.panels.shape[1], secs=[sec_rec(s) for s in w.wing_cross_sections])


def air_rec(a):
    return dict(name=a.name, ref=a.xyz_ref, weight=a.weight, c_ref=a.c_ref, wings=[wing_rec(w) for w in a.wings])


def osc(o, q, custom=None):
    f = getattr(o, custom) if custom else None
    return [getattr(o, f"{q}_amplitude"), getattr(o, f"{q}_period"), getattr(o, f"{q}_spacing"), WAVES.get(id(f), "none")]


def motion_rec(mv):
    out = []
    for a in mv.airplane_movements:
        out += [osc(a, f"{x}_ref") for x in "xyz"]
        for w in a.wing_movements:
            out += [osc(w, f"{x}_le") for x in "xyz"]
            for s in w.wing_cross_section_movements:
                out += [osc(s, "sweeping", "custom_sweep_function"), osc(s, "pitching", "custom_pitch_function"),
                        osc(s, "heaving", "custom_heave_function")]
    out.append(osc(mv.operating_point_movement, "velocity"))
    return out


def fingerprint(airs, op, mv=None):
    out = [op.density, op.velocity, op.alpha, op.beta, op.nu, op.external_thrust]
    for a in airs:
        out += [a.s_ref, a.c_ref, a.b_ref, a.weight, *a.xyz_ref, len(a.wings)]
        for w in a.wings:
            out += [w.num_chordwise_panels, w.symmetric, *w.leading_edge, *w.unit_normal_vector, *w.unit_chordwise_vector]
            for s in w.wing_cross_sections:
                out += [s.chord, s.twist, s.num_spanwise_panels or 0, s.control_surface_deflection, s.x_le, s.y_le, s.z_le,
                        s.control_surface_hinge_point, *s.unit_normal_vector, *np.ravel(s.airfoil.mcl_coordinates)]
            for p in np.ravel(w.panels):
                out += [*p.front_left_vertex, *p.back_right_vertex]
    if mv is not None:
        out += [mv.num_steps, mv.delta_time]
        for m in motion_rec(mv):
            out += m[:2]
    return [float(v) for v in out]


class Watch:
    def __init__(self, rec, script):
        self.rec, self.script, self.count = rec, script, 0

    def run(self, kind):
        sig = inspect.signature(REAL[kind])

        def run(solver, *a, **kw):
            bound = sig.bind(solver, *a, **kw)
            bound.apply_defaults()
            if self.script is None:
                REAL[kind](solver, *a, **kw)
            if kind == "unsteady":
                prob = solver.unsteady_problem
                mv = prob.movement
                airs = [m.base_airplane for m in mv.airplane_movements]
                if self.script is not None:
                    self.fill(prob, len(airs))
                op = mv.operating_point_movement.base_operating_point
                extra = dict(motion=motion_rec(mv), prescribed=bool(bound.arguments["prescribed_wake"]), dt=prob.delta_time,
                             steps=prob.num_steps, fin=r.finals_rec(prob))
            else:
                airs, op = solver.airplanes, solver.operating_point
                if self.script is not None:
                    for i, air in enumerate(airs):
                        f, m = self.script(self.count, i)
                        air.total_near_field_force_coefficients_wind_axes = np.array(f)
                        air.total_near_field_moment_coefficients_wind_axes = np.array(m)
                extra = dict(loads=[dict(cf=x.total_near_field_force_coefficients_wind_axes,
                                         cm=x.total_near_field_moment_coefficients_wind_axes) for x in airs])
            self.count += 1
            self.rec.emit("Eval", method=kind, op=r.op_rec(op), airplanes=[air_rec(x) for x in airs], **extra)
        return run

    def fill(self, prob, n):
        for name in r.FINALS.values():
            getattr(prob, name).clear()
        vals = [self.script(self.count, i) for i in range(n)]
        decoy = [(np.roll(f, 1) + 0.37 * self.count, np.roll(m, 1) * 3.0 + self.count) for f, m in vals]
        sets = {"": vals} if prob.max_period == 0 else {"mean_": decoy, "rms_": vals}
        for pre, vs in sets.items():
            getattr(prob, f"final_{pre}near_field_force_coefficients_wind_axes").extend(np.array(f) for f, m in vs)
            getattr(prob, f"final_{pre}near_field_moment_coefficients_wind_axes").extend(np.array(m) for f, m in vs)
            getattr(prob, f"final_{pre}near_field_forces_wind_axes").extend(np.array(m) * 7 for f, m in vs)
            getattr(prob, f"final_{pre}near_field_moments_wind_axes").extend(np.array(f) * 7 for f, m in vs)

    def watch(self, call):
        for k, s in SOLVERS.items():
            s.run = self.run(k)
        try:
            return call()
        finally:
            for k, s in SOLVERS.items():
                s.run = REAL[k]


def study(rec, method, airs, opdef, mdef, case, script):
    """mdef: movement definition of an unsteady study, else None."""
    w = Watch(rec, script)
    ars = list(range(case["ars"][0], case["ars"][1] - 1, -1))
    chords = list(range(case["chords"][0], case["chords"][1] + 1))
    kw = dict(panel_aspect_ratio_bounds=tuple(case["ars"]), num_chordwise_panels_bounds=tuple(case["chords"]),
              convergence_criteria=case["crit"])
    if mdef is None:
        prob = ps.problems.SteadyProblem(airplanes=[c.build_airplane(a) for a in airs], operating_point=c.build_op(opdef))
        mark = lambda: fingerprint(prob.airplanes, prob.operating_point)
        given, op = prob.airplanes, prob.operating_point
        rec.emit("Study", kind="steady", method=method, values=[ars, chords], crit=case["crit"], op=r.op_rec(op),
                 airplanes=[air_rec(a) for a in given])
        call = lambda: ps.convergence.analyze_steady_convergence(prob, NAMES[method], **kw)
    else:
        mv = c.build_movement(mdef)
        prob = ps.problems.UnsteadyProblem(movement=mv)
        given = [m.base_airplane for m in mv.airplane_movements]
        op = mv.operating_point_movement.base_operating_point
        mark = lambda: fingerprint(given, op, mv)
        static = method == "static"
        lengths = list(range(case["lengths"][0], case["lengths"][1] + 1))
        wakes = ([1] if case["prescribed"] else []) + ([0] if case["free"] else [])
        rec.emit("Study", kind="unsteady", method="unsteady", static=static, values=[wakes, lengths, ars, chords],
                 crit=case["crit"], op=r.op_rec(op), airplanes=[air_rec(a) for a in given], motion=motion_rec(mv),
                 periods=c.periods(mdef), mask=case["mask"])
        kw["num_chords_bounds" if static else "num_cycles_bounds"] = tuple(case["lengths"])
        kw["num_cycles_bounds" if static else "num_chords_bounds"] = (7, 9)     # must be ignored
        if case["usemask"]:
            kw["coefficient_mask"] = list(case["mask"])
        call = lambda: ps.convergence.analyze_unsteady_convergence(
            prob, prescribed_wake=case["prescribed"], free_wake=case["free"], **kw)
    before = mark()
    try:
        out = w.watch(call)
    except Exception as e:  # noqa: BLE001
        if method == "unknown" and not isinstance(e, (AttributeError, NameError, LookupError, ImportError)):
            rec.emit("Refused")
            return
        raise
    none = all(v is None for v in out)
    rec.emit("Answer", none=none, out=None if none else [int(v) for v in out], before=before, after=mark())


def given_airplanes(rng, moving):
    airs = []
    for i in range(rng.choice([1, 1, 2])):
        wings = []
        for k in range(rng.choice([1, 1, 2])):
            w = c.rand_wing(rng, name=f"w{i}{k}", nsec=rng.choice([2, 3]), max_nc=2, max_ns=2, rootz=False, turned=False)
            if rng.random() < 0.4:       # a short section
                w["secs"][1]["le"][1] *= 0.3
                if w["c"] != [1.0, 0.0, 0.0] or w["secs"][1]["n"] != w["n"]:
                    w["c"] = [1.0, 0.0, 0.0]
            if not moving and i == k == 0 and rng.random() < 0.15:      # a long wing of many panels
                for s in w["secs"]:
                    s["le"] = [s["le"][0], 6.0 * s["le"][1], s["le"][2]]
            w["le"] = [w["le"][0] + 3.0 * k, w["le"][1] + 6.0 * i, w["le"][2] + 0.7 * k]
            wings.append(w)
        airs.append(c.airplane(wings, name=f"air{i}", ref=[rng.uniform(-1, 1) for _ in range(3)],
                               weight=rng.uniform(1, 100), s_ref=rng.choice([None, 3.0]), b_ref=rng.choice([None, 2.5])))
    return airs


def motions(rng, airs, opdef):
    ms = []
    for a in airs:
        m = c.airmove(a)
        for w in m["wings"]:
            w["z"] = c.osc(rng.uniform(0.05, 0.2), 0.5, rng.choice(["sine", "uniform"]))
            for s in w["secs"]:
                s["pitch"] = c.osc(rng.uniform(1, 5), rng.choice([0.25, 0.5]), "custom", "cubed")
            for s in w["secs"][1:]:
                s["sweep"] = c.osc(rng.uniform(1, 8), 0.5, rng.choice(["sine", "uniform"]))
                s["heave"] = c.osc(rng.uniform(1, 4), 0.5)
        for q in "xyz":
            m[q] = c.osc(rng.uniform(0.05, 0.2), rng.choice([0.25, 0.5]), rng.choice(["sine", "uniform"]))
        ms.append(m)
    return ms


def scripted(case, k):
    rng = rng_for(args, f"conv/{k}")
    steady = case["method"] in NAMES
    opdef = c.rand_op(rng, v=rng.uniform(8, 12))
    signs = [rng.choice([-1, 1]) for _ in range(64)]
    lev = case["levels"]
    turn = rng.randrange(3)

    def script(i, a):
        f, m = lev[(2 * i + 5 * a) % 48], lev[(2 * i + 1 + 5 * a) % 48]
        if steady:      # only the magnitudes matter: the directions keep changing
            vf, vm = np.zeros(3), np.zeros(3)
            vf[(i + turn) % 3] = signs[i % 64] * f
            vm[(i + a) % 3] = -signs[i % 64] * m
        else:           # every component matters on its own
            sg = [signs[q + 6 * a] for q in range(6)]
            vf = np.array([sg[0] * f, sg[1] * 100.0, sg[2] * f]) * 1.0
            vm = np.array([sg[3] * 100.0, sg[4] * m, sg[5] * m]) * 1.0
            if case["usemask"]:   # what is masked out never settles
                for q in range(6):
                    if not case["mask"][q]:
                        (vf if q < 3 else vm)[q % 3] = (7.0 ** (i % 9)) * (1 + i)
        return vf / 256.0, vm / 512.0

    def run(rec):
        airs = given_airplanes(rng, not steady)
        mdef = None
        if not steady:
            ms = motions(rng, airs, opdef) if case["method"] == "moving" else [c.airmove(a) for a in airs]
            v = c.osc(0.5, 0.25) if case["method"] == "moving" and k % 2 else None
            mdef = c.movement(ms, c.opmove(opdef, v), num_steps=2, dt=0.1)
        study(rec, case["method"], airs, opdef, mdef, case, script)
    return run


def real_cases(tier):
    out = []
    base = dict(ars=[3, 1], chords=[1, 4], crit=5.0, lengths=[1, 3], prescribed=True, free=True, usemask=True,
                mask=[False, False, True, False, False, False])
    w1 = c.wing([c.sec(ns=2, af="naca2412"), c.sec(le=[0.2, 2.0, 0.1], chord=0.7, twist=1.0)], sym=True, nc=2)
    w2 = c.wing([c.sec(ns=2, n=[0, 1, 0]), c.sec(le=[0.0, 0.3, 0.0], defl=5.0, ns=1), c.sec(le=[0.1, 1.5, 0.2], chord=0.6)],
                nc=2, le=[2.5, -0.2, 0.4], name="second")
    one = c.airplane([w1, w2], name="pair", s_ref=3.0, weight=3.0)
    opd = c.op(v=10.0, alpha=4.0, beta=1.0)
    for m in ("horseshoe", "ring"):
        for crit in (15.0, 3.0):
            out.append((f"real-{m}-{crit}", lambda rec, m=m, crit=crit: study(
                rec, m, [one], opd, None, dict(base, crit=crit), None)))
    out.append(("unknown-method", lambda rec: study(rec, "unknown", [one], opd, None, base, None)))
    small = c.airplane([c.wing([c.sec(ns=1), c.sec(le=[0, 1.0, 0.0])], nc=1)], name="one")
    out.append(("real-static", lambda rec: study(rec, "static", [small], opd, c.movement(
        [c.airmove(small)], c.opmove(opd), num_steps=2, dt=0.1), dict(base, crit=25.0, lengths=[1, 2], chords=[1, 3], ars=[2, 1]),
        None)))
    mv = c.airmove(small)
    mv["wings"][0]["secs"][1]["sweep"] = c.osc(8.0, 0.5)
    out.append(("real-moving", lambda rec: study(rec, "moving", [small], opd, c.movement(
        [mv], c.opmove(opd), num_steps=2, dt=0.1), dict(base, crit=25.0, lengths=[1, 2], chords=[1, 2], ars=[2, 1]), None)))
    return out


with open(args.input) as fh:
    rows = json.load(fh)
run_scenarios(real_cases(args.tier) + [(f"study-{k}", scripted(case, k)) for k, case in enumerate(rows)], args)
