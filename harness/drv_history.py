"""C14: histories of builds, runs, re-runs and interrupted runs on shared and separate problems."""
import hashlib
import json
import os

import numpy as np
import pterasoftware as ps
from common import parse_args, run_scenarios
import configs as c
import record as r

args = parse_args()
SOLVERS = {"horseshoe": ps.steady_horseshoe_vortex_lattice_method.SteadyHorseshoeVortexLatticeMethodSolver,
           "ring": ps.steady_ring_vortex_lattice_method.SteadyRingVortexLatticeMethodSolver}
UNSTEADY = ps.unsteady_ring_vortex_lattice_method.UnsteadyRingVortexLatticeMethodSolver


def airs(which):
    if which == "X":
        return [c.airplane([c.wing([c.sec(ns=1, af="naca2412"), c.sec(le=[0.1, 1.5, 0.1], chord=0.7)], nc=2, sym=True)],
                           name="x1", ref=[0.1, 0.0, 0.2]),
                c.airplane([c.wing([c.sec(ns=1), c.sec(le=[0.0, 1.0, 0.0])], nc=1, le=[0.5, 4.0, 0.5])], name="x2")]
    if which == "Y":
        return [c.airplane([c.wing([c.sec(ns=1, defl=8.0), c.sec(le=[0.2, 1.2, 0.1], chord=0.8)], nc=2)], name="y")]
    return [c.airplane([c.wing([c.sec(ns=1), c.sec(le=[0.0, 1.4, 0.0], chord=0.6)], nc=1, sym=True)], name="z",
                       ref=[0.0, 0.1, 0.0])]


OPS = {"A": c.op(alpha=4.0, beta=2.0, v=9.0), "B": c.op(alpha=-3.0, v=14.0, rho=0.8), "C": c.op(alpha=7.0, v=6.0),
       "U": c.op(alpha=5.0, v=8.0, nu=1e-3), "W": c.op(alpha=2.0, beta=-4.0, v=11.0)}


# what an edit changes of the operating point
EDITS = {0: {}, 1: dict(beta=11.0), 2: dict(alpha=-8.0), 3: dict(v=21.0), 4: dict(rho=0.6)}
# what an edit changes of the airplane of C (also the base of the movement of U and V, which keeps its snapshots)
REFS = {5: dict(s_ref=7.0, c_ref=1.7, b_ref=5.0), 6: dict(ref=[0.7, -0.4, 0.3])}


def edited(d, n):
    return dict(OPS[d], **EDITS.get(n, {}))


def edited_airs(n):
    return [dict(a, **REFS.get(n, {})) for a in airs("Y")]


def moving(adefs):
    d = [c.airmove(a) for a in adefs]
    d[0]["wings"][0]["secs"][1]["sweep"] = c.osc(20.0, 0.1)
    d[0]["wings"][0]["z"] = c.osc(0.1, 0.08, "uniform")
    return c.movement(d, c.opmove(OPS["U"], c.osc(1.0, 0.1)), num_steps=4, dt=0.03)


class World:
    """Problems and solvers by name; a place names the geometry a problem lives on."""

    def __init__(self):
        self.problems = {}   # name -> (definition, place, problem)
        self.solvers = {}    # name -> (problem name, kind, solver)
        self.latest = {}     # definition -> latest problem name
        self.last_kind = {}  # place -> kind of the last run
        self.stale = set()   # solvers made before their problem was edited
        self.n = 0
        xs = [c.build_airplane(a) for a in airs("X")]
        ys = [c.build_airplane(a) for a in airs("Y")]
        for d in "AB":
            self.add(d, "gX", ps.problems.SteadyProblem(airplanes=xs, operating_point=c.build_op(OPS[d])))
        self.add("C", "gY", ps.problems.SteadyProblem(airplanes=ys, operating_point=c.build_op(OPS["C"])))
        mv = self.movement(ys)  # the base airplanes are those of C
        for d in "UV":
            self.add(d, "gM", ps.problems.UnsteadyProblem(movement=mv))
        self.fresh("W")

    @staticmethod
    def movement(ys):
        md = moving(airs("Y"))
        return ps.movement.Movement(
            airplane_movements=[c.build_airmove(a, b) for a, b in zip(md["airs"], ys)],
            operating_point_movement=c.build_opmove(md["opm"]), num_steps=md["num_steps"], delta_time=md["dt"])

    @staticmethod
    def edit(d, problem, n):
        o = problem.operating_point
        new = edited(d, n)
        o.alpha, o.beta, o.velocity, o.density = new["alpha"], new["beta"], new["v"], new["rho"]
        if d == "C":
            for a, b in zip(problem.airplanes, [c.build_airplane(x) for x in edited_airs(n)]):
                a.s_ref, a.c_ref, a.b_ref, a.xyz_ref = b.s_ref, b.c_ref, b.b_ref, b.xyz_ref

    def add(self, d, place, problem):
        self.n += 1
        name = f"{d}{self.n}"
        self.problems[name] = (d, place, problem)
        self.latest[d] = name

    def fresh(self, d, n=0):
        place = f"g{d}{self.n + 1}"
        if d in "AB":
            p = ps.problems.SteadyProblem(airplanes=[c.build_airplane(a) for a in airs("X")], operating_point=c.build_op(edited(d, n)))
        elif d == "C":
            p = ps.problems.SteadyProblem(airplanes=[c.build_airplane(a) for a in edited_airs(n)], operating_point=c.build_op(edited(d, n)))
        elif d in "UV":
            p = ps.problems.UnsteadyProblem(movement=self.movement([c.build_airplane(a) for a in airs("Y")]))
        else:
            md = c.movement([c.airmove(a) for a in airs("Z")], c.opmove(OPS["W"]), num_steps=3, dt=0.05)
            p = ps.problems.UnsteadyProblem(movement=c.build_movement(md), only_final_results=True)
        self.add(d, place, p)

    def op(self, o):
        """Run as asked; returns (problem, place, solver) names and whether the run was interrupted."""
        d, mode, how = o["d"], o["mode"], o["how"]
        if how == "fresh":
            self.fresh(d)
        name = self.latest[d]
        _, place, problem = self.problems[name]
        if how.startswith("edit"):
            self.edit(d, problem, int(how[4:]))
            self.stale |= {s for s, (p, _, _) in self.solvers.items() if p == name}
        kind = mode if d in "ABC" else "unsteady"
        sname = None
        if how in ("again", "abort"):
            mine = [s for s, (p, k, _) in self.solvers.items() if p == name and k == kind and s not in self.stale]
            sname = mine[-1] if mine else None
        if sname is None:
            sname = f"s{len(self.solvers) + 1}"
            self.solvers[sname] = (name, kind, SOLVERS[kind](problem) if d in "ABC" else UNSTEADY(problem))
        solver = self.solvers[sname][2]
        kw = {} if d in "ABC" else dict(prescribed_wake=mode.startswith("prescribed"), calculate_streamlines=mode.endswith("streams"))
        broken = False
        if how == "abort":
            broken = interrupted(lambda: solver.run(logging_level=next(r.LEVELS), **kw), 1 if d in "ABC" else 3)
        else:
            solver.run(logging_level=next(r.LEVELS), **kw)
        self.last_kind[place] = kind
        return name, place, sname, broken


class Stop(Exception):
    pass


def interrupted(fn, n):
    """Run fn; interrupt it at its n-th linear solve (like a user or an error would)."""
    real, count = np.linalg.solve, [0]

    def solve(*a, **k):
        count[0] += 1
        if count[0] == n:
            raise Stop
        return real(*a, **k)

    np.linalg.solve = solve
    try:
        fn()
        return False
    except Stop:
        return True
    finally:
        np.linalg.solve = real


def flatten(x, nums, shape):
    if x is None:
        shape.append("none")
    elif isinstance(x, dict):
        for k in sorted(x):
            shape.append(k)
            flatten(x[k], nums, shape)
    elif isinstance(x, (list, tuple)):
        shape.append(f"[{len(x)}")
        for v in x:
            flatten(v, nums, shape)
    else:
        a = np.asarray(x, dtype=float)
        shape.append(str(a.shape))
        nums.extend(float(v) for v in np.ravel(a))


def outcome(x):
    nums, shape = [], []
    flatten(x, nums, shape)
    return dict(shape=hashlib.md5(" ".join(shape).encode()).hexdigest(), nums=nums)


def strip(a):
    """What a run produces on an airplane (its geometry is judged by C01)."""
    res = {k: v for k, v in a.items() if k in ("tf", "tm", "cf", "cm")}
    res["p"] = [[[p.get(k) for k in ("vfl", "vfr", "vbl", "vbr", "g", "f", "m", "fw", "mw", "c")]
                 + [None if "h" not in p else [p["h"][k] for k in ("fl", "fr", "bl", "br", "g")]]
                 for p in np.ravel(np.array(w["panels"], dtype=object))] for w in a["wings"]]
    return res


def place_outcome(world, place, problem):
    kind = world.last_kind[place]
    if kind == "unsteady":
        return outcome([[strip(r.airplane_rec(a, kind)) for a in sp.airplanes] for sp in problem.steady_problems])
    return outcome([strip(r.airplane_rec(a, kind)) for a in problem.airplanes])


def problem_outcome(problem):
    return outcome(r.finals_rec(problem) if hasattr(problem, "steady_problems") else None)


def solver_outcome(solver, kind):
    if kind == "unsteady":
        return outcome([solver.current_vortex_strengths, r.streams_rec(solver),
                        [[[v[k] for k in ("fl", "fr", "bl", "br", "g", "age")] for v in r.wake_rec(solver, k)]
                         for k in range(len(solver.wake_ring_vortex_strengths_list))], solver.num_wake_ring_vortices_list])
    return outcome([solver.vortex_strengths, r.streams_rec(solver)])


def definition(problem):
    """Everything the user put into a problem, as text."""
    num, air, opp = r.num, r.air_text, r.op_text
    if hasattr(problem, "steady_problems"):
        mv = problem.movement
        x = [[[air(a) for a in sp.airplanes] + [opp(sp.operating_point)] for sp in problem.steady_problems],
             num([problem.num_steps, problem.delta_time, problem.first_averaging_step, problem.first_results_step,
                  problem.max_period, mv.num_steps, mv.delta_time]), str(problem.only_final_results)]
    else:
        x = [[air(a) for a in problem.airplanes], opp(problem.operating_point)]
    return hashlib.md5(json.dumps(x).encode()).hexdigest()


def reference(d, mode, n=0):
    """The outcome of a single run on a freshly built problem, in a process of its own."""
    rd, wr = os.pipe()
    pid = os.fork()
    if pid == 0:
        code = 1
        try:
            os.close(rd)
            w = World()
            w.fresh(d, n)
            name, place, sname, _ = w.op(dict(d=d, mode=mode, how="new"))
            problem = w.problems[name][2]
            out = dict(place=place_outcome(w, place, problem), problem=problem_outcome(problem),
                       solver=solver_outcome(w.solvers[sname][2], w.solvers[sname][1]))
            with os.fdopen(wr, "w") as f:
                json.dump(out, f)
            code = 0
        finally:
            os._exit(code)
    os.close(wr)
    with os.fdopen(rd) as f:
        text = f.read()
    _, status = os.waitpid(pid, 0)
    if status != 0:
        raise RuntimeError(f"the reference run {d}/{mode} failed")
    return json.loads(text)


def references(rec):
    for d in "ABC":
        for m in ("horseshoe", "ring"):
            for n in [*EDITS, *(REFS if d == "C" else [])]:
                rec.emit("Reference", d=d, edit=n, mode=m, out=reference(d, m, n))
    for d in "UVW":
        for m in ("prescribed", "prescribed-streams", "free", "free-streams"):
            rec.emit("Reference", d=d, edit=0, mode=m, out=reference(d, m))


def history(ops):
    def run(rec):
        w = World()
        rec.emit("Start", defs={p: definition(x[2]) for p, x in w.problems.items()})
        for o in ops:
            known = set(w.problems)
            name, place, sname, broken = w.op(o)
            changed = [p for p in w.problems if p not in known] if o["how"] == "fresh" else [name] if o["how"].startswith("edit") else []
            born = {p: definition(w.problems[p][2]) for p in changed}
            more = dict(edit=int(o["how"][4:])) if o["how"].startswith("edit") else {}
            places = {}
            for p, (_, g, problem) in w.problems.items():
                if g in w.last_kind:
                    places.setdefault(g, problem)
            rec.emit("Op", place=place, problem=name, solver=sname, d=o["d"], mode=o["mode"], broken=broken, born=born, **more,
                     defs={p: definition(x[2]) for p, x in w.problems.items() if p not in born},
                     places={g: place_outcome(w, g, pr) for g, pr in places.items()},
                     problems={p: problem_outcome(x[2]) for p, x in w.problems.items()},
                     solvers={s: solver_outcome(x[2], x[1]) for s, x in w.solvers.items()})
    return run


def fixed():
    O = lambda d, m, h="new": dict(d=d, mode=m, how=h)
    out = []
    for d in "ABC":
        for m in ("horseshoe", "ring"):
            out.append((f"thrice-{d}-{m}", [O(d, m), O(d, m, "again"), O(d, m, "again")]))
    for d in "UVW":
        for m, m2 in (("prescribed-streams", "prescribed"), ("free", "free-streams"), ("free-streams", "prescribed"),
                      ("prescribed", "free")):
            out.append((f"twice-{d}-{m}-{m2}", [O(d, m), O(d, m2, "again"), O(d, m, "new"), O(d, m2, "again")]))
            out.append((f"broken-{d}-{m}-{m2}", [O(d, m), O(d, m2, "abort"), O(d, m, "again")]))
    out.append(("shared-places", [O("A", "ring"), O("B", "horseshoe"), O("A", "ring", "again"), O("B", "ring"),
                                  O("A", "horseshoe")]))
    out.append(("base-and-movement", [O("C", "ring"), O("U", "free-streams"), O("C", "horseshoe"), O("V", "prescribed"),
                                      O("U", "free-streams", "again"), O("C", "ring", "again")]))
    out.append(("edited-base", [O("U", "prescribed-streams"), O("C", "ring"), O("C", "ring", "edit5"), O("V", "free"), O("C", "horseshoe", "edit6"),
                                O("U", "free-streams", "again"), O("C", "ring", "edit1"), O("C", "ring", "again")]))
    return [(n, history(o)) for n, o in out]


todo = fixed()
if args.input:
    todo += [(f"history-{i}", history(row["ops"])) for i, row in enumerate(json.load(open(args.input)))]
# every shard carries the references
mine = [x for i, x in enumerate(todo) if i % args.shards == args.shard]
args.shard, args.shards = 0, 1
run_scenarios([("references", references)] + mine, args)
