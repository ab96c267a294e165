"""C15: trim searches with scripted loads (generated by TLC) and with the real solvers."""
import json
import logging

import numpy as np
import scipy.optimize
import pterasoftware as ps
from common import parse_args, run_scenarios, rng_for
import configs as c
import record as r

logging.disable(logging.CRITICAL)
args = parse_args()
STEADY = ps.steady_horseshoe_vortex_lattice_method.SteadyHorseshoeVortexLatticeMethodSolver
UNSTEADY = ps.unsteady_ring_vortex_lattice_method.UnsteadyRingVortexLatticeMethodSolver
REAL = {STEADY: STEADY.run, UNSTEADY: UNSTEADY.run}
OPT = dict(local=scipy.optimize.minimize, **{"global": scipy.optimize.dual_annealing})


def moving_text(airplane_movements):
    """Everything that defines moving airplanes."""
    return r.digest([[r.air_text(m.base_airplane), r.facts([m], stop=(ps.geometry.Airplane, ps.geometry.Wing,
                                                                      ps.geometry.WingCrossSection))]
                     for m in airplane_movements])


class Watch:
    """Watches one search: optimizer stages, evaluations and what the solver was given."""

    def __init__(self, rec, script=None):
        self.rec, self.script = rec, script
        self.x = self.pending = None
        self.count = 0
        self.staged = False
        self.depth = 0

    def flush(self, **kw):
        if self.pending is not None:
            self.rec.emit("Eval", **self.pending, **kw)
            self.pending = None

    def objective(self, fun):
        def wrapped(x, *a):
            self.x = [float(v) for v in x]
            self.flush()
            try:
                val = fun(x, *a)
            except Exception:  # noqa: BLE001  (the search stops itself this way)
                self.flush(x=self.x)
                raise
            self.flush(x=self.x, val=float(val))
            self.x = None
            return val
        return wrapped

    def optimizer(self, stage):
        def run(*a, **kw):
            if self.depth:                       # the global search's own local searches
                return OPT[stage](*a, **kw)
            self.staged = True
            self.rec.emit("Stage", stage=stage)
            if a:
                a = (self.objective(a[0]),) + a[1:]
            else:
                key = "fun" if stage == "local" else "func"
                kw[key] = self.objective(kw[key])
            self.depth += 1
            try:
                return OPT[stage](*a, **kw)
            finally:
                self.depth -= 1
        return run

    def steady_run(self, solver, *a, **kw):
        self.flush()
        air, o = solver.airplanes[0], solver.operating_point
        if self.script is None:
            REAL[STEADY](solver, *a, **kw)
        else:
            th = self.x[3] if self.x and len(self.x) > 3 else 0.0
            f, m = self.script(self.count, [o.velocity, o.alpha, o.beta, th], air, o.density)
            air.total_near_field_force_coefficients_wind_axes = np.array(f)
            air.total_near_field_moment_coefficients_wind_axes = np.array(m)
        self.count += 1
        self.pending = dict(op=r.op_rec(o), airplane=r.digest(r.air_text(air)), cf=air.total_near_field_force_coefficients_wind_axes,
                            cm=air.total_near_field_moment_coefficients_wind_axes, uniform=True)

    def unsteady_run(self, solver, *a, **kw):
        self.flush()
        prob = solver.unsteady_problem
        ops = [sp.operating_point for sp in prob.steady_problems]
        o = ops[0]
        if self.script is None:
            REAL[UNSTEADY](solver, *a, **kw)
        else:
            air = prob.movement.airplane_movements[0].base_airplane
            f, m = self.script(self.count, [o.velocity, o.alpha, o.beta, 0.0], air, o.density)
            noise = lambda v: [np.array(v) * 1.7 + np.array([0.3, -0.2, 0.5])]
            moving = prob.max_period != 0
            for name in r.FINALS.values():
                getattr(prob, name).clear()
            def put(pre, scale):
                getattr(prob, f"final_{pre}near_field_force_coefficients_wind_axes").extend(scale(f))
                getattr(prob, f"final_{pre}near_field_moment_coefficients_wind_axes").extend(scale(m))
                getattr(prob, f"final_{pre}near_field_forces_wind_axes").extend(noise(f))
                getattr(prob, f"final_{pre}near_field_moments_wind_axes").extend(noise(m))
            exact = lambda v: [np.array(v)]
            if moving:
                put("mean_", exact)
                put("rms_", noise)
            else:
                put("", exact)
        self.count += 1
        fin = r.finals_rec(prob)
        same = all(q.velocity == o.velocity and q.alpha == o.alpha and q.beta == o.beta and q.density == o.density
                   for q in ops)
        self.pending = dict(op=r.op_rec(o), airplane=moving_text(prob.movement.airplane_movements), fin=fin, uniform=same)

    def search(self, call):
        STEADY.run = lambda solver, *a, **kw: self.steady_run(solver, *a, **kw)
        UNSTEADY.run = lambda solver, *a, **kw: self.unsteady_run(solver, *a, **kw)
        scipy.optimize.minimize = self.optimizer("local")
        scipy.optimize.dual_annealing = self.optimizer("global")
        own = {k: v for k, v in vars(ps.trim).items() if any(v is f for f in OPT.values())}   # imported by name
        for k, v in own.items():
            setattr(ps.trim, k, self.optimizer("local" if v is OPT["local"] else "global"))
        try:
            return call()
        finally:
            STEADY.run, UNSTEADY.run = REAL[STEADY], REAL[UNSTEADY]
            scipy.optimize.minimize, scipy.optimize.dual_annealing = OPT["local"], OPT["global"]
            for k, v in own.items():
                setattr(ps.trim, k, v)
            self.flush(**({"x": self.x} if self.x else {}))


def attempt(rec, kind, adef, opdef, moving, bounds, cut, calls, script=None):
    w = Watch(rec, script)
    np.random.seed(args.seed)
    start = [opdef["v"], opdef["alpha"], opdef["beta"], opdef["thrust"]]
    n = 4 if kind == "steady" else 3
    if kind == "steady":
        prob = ps.problems.SteadyProblem(airplanes=[c.build_airplane(adef)], operating_point=c.build_op(opdef))
        air = prob.airplanes[0]
        o = prob.operating_point
        given = lambda: r.digest(r.air_text(air))
        call = lambda: ps.trim.analyze_steady_trim(prob, *[tuple(b) for b in bounds], objective_cut_off=cut, num_calls=calls)
    else:
        mdef = c.airmove(adef)
        if moving:
            mdef["wings"][0]["secs"][-1]["sweep"] = c.osc(10.0, 0.5)
        am = c.build_airmove(mdef)
        air = am.base_airplane
        o = c.build_op(opdef)
        given = lambda: moving_text([am])
        call = lambda: ps.trim.analyze_unsteady_trim(am, o, *[tuple(b) for b in bounds[:3]], objective_cut_off=cut,
                                                     num_calls=calls)
    rec.emit("Begin", kind="steady" if kind == "steady" else "unsteady", moving=moving, start=start[:n],
             bounds=bounds[:n], cut=cut, calls=calls, w=adef["weight"], s=air.s_ref, airplane=given(), op=r.op_rec(o))
    try:
        out = w.search(call)
    except Exception as e:  # noqa: BLE001
        if w.count == 0 and not isinstance(e, (AttributeError, NameError, TypeError, LookupError, ImportError)):
            rec.emit("End", rejected=True, staged=w.staged, airplane=given(), op=r.op_rec(o))
            return
        raise
    rec.emit("End", rejected=False, staged=w.staged, out=[float(v) for v in out], airplane=given(), op=r.op_rec(o))


ONE = c.airplane([c.wing([c.sec(ns=1), c.sec(le=[0, 1.0, 0.0])], nc=1)], name="one", weight=150.0)
BOUNDS = [[8.0, 15.0], [-3.0, 9.0], [-4.0, 4.0], [0.0, 12.0]]


def scripted(case, k):
    rng = rng_for(args, f"trim/{k}")
    adef = dict(ONE, weight=rng.uniform(20, 300), s_ref=rng.choice([None, rng.uniform(0.5, 3)]),
                **rng.choice([{}, dict(c_ref=rng.uniform(0.3, 4), b_ref=rng.uniform(0.3, 4), ref=[rng.uniform(-1, 1) for _ in range(3)])]))
    bounds = [[b[0] + rng.uniform(0, 1), b[1] - rng.uniform(0, 1)] for b in BOUNDS]
    place = dict(mid=lambda b: rng.uniform(b[0] + 0.1, b[1] - 0.1), low=lambda b: b[0], high=lambda b: b[1],
                 below=lambda b: b[0] - rng.choice([1e-9, 0.5]), above=lambda b: b[1] + rng.choice([1e-9, 0.5]))
    x = [place[s](b) for s, b in zip(case["start"], bounds)]
    opdef = c.op(v=x[0], alpha=x[1], beta=x[2], thrust=x[3], rho=rng.uniform(0.7, 1.3), nu=rng.choice([15.06e-6, 2e-5]))
    cut = case["cut"] / 1e6
    hits = dict(both=(0.9, 0.9), force=(1.9, 0.0), moment=(0.0, 1.9), edge=(1.2, 0.7999))
    misses = dict(far=(30.0, 40.0), force=(2.1, 0.0), moment=(0.0, 2.1), both=(1.3, 0.9))
    dirs = [np.array([rng.gauss(0, 1) for _ in range(3)]) for _ in range(2)]
    dirs = [d / np.linalg.norm(d) for d in dirs]
    best = [rng.uniform(b[0], b[1]) for b in bounds]
    signs = [rng.choice([-1, 1]) for _ in range(4)]

    def script(i, at, air, rho):
        qs = 0.5 * rho * at[0] ** 2 * air.s_ref
        want = np.array([(at[3] if case["kind"] == "steady" else 0.0) / qs, 0.0, adef["weight"] / qs])
        f, m = hits[case["hit"]] if i == case["n"] else misses[case["miss"]]
        f, m = f * cut, m * cut
        if i != case["n"]:
            n = 4 if case["kind"] == "steady" else 3
            lean = 0.0
            if case["lean"] == "out":            # better and better beyond the bounds
                lean = 100 + sum(s * 0.5 * (v - b[0]) for s, v, b in zip(signs[:n], at, bounds))
            elif case["lean"] == "up":
                lean = 100 + sum((v - b[0]) ** 2 for v, b in zip(at[:n], bounds))
            elif case["lean"] == "field":        # a real minimum somewhere inside
                lean = 0.05 * sum((v - t) ** 2 for v, t in zip(at[:n], best[:n])) / n
            elif case["lean"] == "rough":        # no slope to follow
                lean = 100 + 30 * abs(np.sin(1e4 * at[1]) + np.cos(7e3 * at[0]))
            f += lean
        return want + f * dirs[0], m * dirs[1]

    def run(rec):
        attempt(rec, case["kind"], adef, opdef, case["kind"] == "moving", bounds, cut,
                20 if case["n"] == 99999 and k % 3 == 0 else 120 if case["kind"] == "steady" else 60, script)
    return run


def real_cases(tier):
    out = []
    wide = [[8.0, 16.0], [-4.0, 12.0], [-1.0, 1.0], [0.0, 40.0]]
    wingd = c.airplane([c.wing([c.sec(ns=2, af="naca2412"), c.sec(le=[0.1, 2.0, 0.0], chord=0.8)], sym=True, nc=2)],
                       name="wing", weight=150.0)
    for n, kw, cut in (("loose", {}, 0.2), ("tight", {}, 0.005), ("heavy", dict(weight=900.0), 0.01),
                       ("refs", dict(s_ref=4.2, c_ref=0.9, b_ref=5.0, ref=[0.25, 0.0, 0.0]), 0.03)):
        out.append((f"real-steady-{n}", lambda rec, kw=kw, cut=cut: attempt(
            rec, "steady", dict(wingd, **kw), c.op(v=10.0, alpha=1.0, thrust=3.0), False, wide, cut, 15)))
    for n, kw, mv, cut, calls in (("static", {}, False, 0.3, 4), ("moving", {}, True, 0.3, 4),
                                  ("moving-none", dict(weight=9000.0), True, 1e-4, 2)):
        out.append((f"real-unsteady-{n}", lambda rec, kw=kw, mv=mv, cut=cut, calls=calls: attempt(
            rec, n, dict(ONE, **kw), c.op(v=10.0, alpha=1.0), mv, wide, cut, calls)))
    return out


with open(args.input) as fh:
    rows = json.load(fh)
scn = []
for k, case in enumerate(rows):
    if case["kind"] != "steady" and ("below" in case["start"][:3] or "above" in case["start"][:3]) and case["n"] > 3:
        continue        # the optimizer is not defined on a start out of bounds
    scn.append((f"search-{k}", scripted(case, k)))
run_scenarios(scn + real_cases(args.tier), args)
