"""C09-C13, C19: solve problems with the three solvers and record the solutions."""
import numpy as np
import pterasoftware as ps
from common import parse_args, run_scenarios, rng_for
import configs as c
import record as r

args = parse_args()
P = args.prop


def steady_scn(airs, opd):
    def run(rec):
        for method in ("horseshoe", "ring"):
            prob = ps.problems.SteadyProblem(airplanes=[c.build_airplane(a) for a in airs], operating_point=c.build_op(opd))
            solver = r.solve_steady(prob, method)
            r.emit_steady(rec, solver, prob, method)
    return run


def unsteady_scn(mdef, only_final=False, prescribed=True, streams=False):
    def run(rec):
        prob = ps.problems.UnsteadyProblem(movement=c.build_movement(mdef), only_final_results=only_final)
        solver = r.solve_unsteady(prob, prescribed, streams)
        r.emit_unsteady(rec, solver, prob, mdef, only_final=only_final, prescribed=prescribed, streams=streams)
    return run


def flat(x):
    """Nested lists of arrays as one list of numbers."""
    if isinstance(x, (list, tuple)):
        return [v for y in x for v in flat(y)]
    return [float(v) for v in np.ravel(x)]


def strengths(prob):
    return [[p.ring_vortex.strength for a in sp.airplanes for w in a.wings for p in np.ravel(w.panels)]
            for sp in prob.steady_problems]


def option_pair(mdef, prescribed):
    """The same case with and without early results and streamlines."""
    def run(rec):
        out = []
        for only_final, streams in ((False, False), (True, False), (False, True)):
            prob = ps.problems.UnsteadyProblem(movement=c.build_movement(mdef), only_final_results=only_final)
            solver = r.solve_unsteady(prob, prescribed, streams)
            out.append((strengths(prob), solver, r.finals_rec(prob)))
            r.emit_unsteady(rec, solver, prob, mdef, only_final=only_final, prescribed=prescribed, streams=streams)
        wk = lambda so: flat([getattr(so, n) for n in (
            "wake_ring_vortex_strengths_list", "wake_ring_vortex_ages_list",
            "wake_ring_vortex_front_right_vertices_list", "wake_ring_vortex_back_left_vertices_list")])
        fin = lambda d: flat([d[k] for k in sorted(d)])
        st0, so0, fi0 = out[0]
        for st, so, fi in out[1:]:
            rec.emit("Options", strengths=[flat(st0), flat(st)], wake=[wk(so0), wk(so)], finals=[fin(fi0), fin(fi)])
    return run


def simple_wing(**kw):
    kw.setdefault("sym", True)
    return c.wing([c.sec(ns=2, chord=1.0, af="naca2412"), c.sec(le=[0.1, 2.0, 0.1], chord=0.7, ns=1, twist=2.0)],
                  nc=2, **kw)


def cases(tier):
    s = c.sec
    flat = c.airplane([simple_wing()], name="plain", ref=[0.2, 0.0, 0.1])
    tail = c.airplane([simple_wing(name="main"),
                       c.wing([s(ns=1, defl=6.0, cst="symmetric"), s(le=[0.1, 0.8, 0.0], chord=0.6)], name="tail",
                              le=[3.0, 0.0, 0.3], sym=True, nc=1),
                       c.wing([s(n=[0, 0, 1.0], ns=1), s(n=[0, 0, 1.0], le=[0.3, 0.0, 0.9], chord=0.5)], name="fin",
                              le=[3.0, 0.0, 0.4], n=[0, 0, 1.0], nc=2)], name="tailed", ref=[0.5, 0.1, 0.0],
                      s_ref=3.0, c_ref=1.1, b_ref=4.5)
    left = c.airplane([c.wing([s(ns=2), s(le=[0.2, 1.5, 0.0], chord=0.8)], nc=1, le=[0.0, 6.0, 0.4])], name="right")
    mate = c.airplane([c.wing([s(ns=1, af="naca4415"), s(le=[0.0, 1.2, 0.2], chord=0.6)], nc=2, le=[2.0, -4.0, -0.3],
                              sym=True)], name="mate", ref=[2.0, -4.0, 0.0])
    one = c.airplane([c.wing([s(ns=1), s(le=[0, 1.0, 0.0])], nc=1)], name="one")
    out = []
    base = c.op(alpha=4.0, beta=3.0, v=9.0, rho=1.1)
    for n, airs in (("plain", [flat]), ("tailed", [tail]), ("pair", [flat, mate]), ("pair-reversed", [mate, left]),
                    ("one", [one])):
        out.append((f"steady-{n}", steady_scn(airs, base)))
    out.append(("steady-wind-axes", steady_scn([one], c.op(alpha=35.0, beta=-50.0, v=3.0))))
    out.append(("steady-backwards", steady_scn([one], c.op(alpha=130.0, beta=20.0, v=3.0))))
    still = lambda a: c.airmove(a)

    def flap(a, **kw):
        d = c.airmove(a)
        for w in d["wings"]:
            for sec in w["secs"][1:]:
                sec["sweep"] = c.osc(15.0, 0.4)
                sec["pitch"] = c.osc(5.0, 0.4, "uniform")
        d.update(kw)
        return d

    def mv(airs, opd=base, v=None, **kw):
        kw.setdefault("num_steps", 5)
        kw.setdefault("dt", 0.04)
        return c.movement(airs, c.opmove(opd, v), **kw)

    gust = c.osc(2.0, 0.5)
    # many airplanes, many wings, many steps
    cell = lambda k, **kw: c.airplane([c.wing([s(ns=1), s(le=[0.1, 0.7 + 0.1 * k, 0.05 * k])], nc=1, le=[0.4 * k, 1.5 * k, 0.2 * k],
                                              **kw)], name=f"cell{k}", ref=[0.1 * k, 0.2, 0.3])
    four = [cell(k) for k in range(4)]
    stack = c.airplane([w for a in four for w in a["wings"]], name="stack", ref=[0.3, 0.0, 0.1])
    eight = [cell(k) for k in range(8)]
    seven = c.airplane([w for a in eight[1:] for w in a["wings"]], name="seven", ref=[0.5, 0.0, 0.1])
    stack2 = dict(stack, name="stack2", wings=[dict(w, le=[w["le"][0] + 1.0, w["le"][1] + 12.0, w["le"][2] - 0.7])
                                               for w in stack["wings"]])
    out += [("steady-four", steady_scn(four, base)), ("steady-stack", steady_scn([stack], base)),
            ("four", unsteady_scn(mv([flap(four[0]), still(four[1]), flap(four[2]), still(four[3])], num_steps=3), streams=True)),
            ("steady-seven", steady_scn([seven], base)),
            ("seven", unsteady_scn(mv([flap(seven)], num_steps=3), streams=True)),
            ("eight", unsteady_scn(mv([still(a) if k % 3 else flap(a) for k, a in enumerate(eight)], num_steps=3))),
            ("steady-eight", steady_scn(eight, base)),
            ("four-static", unsteady_scn(mv([still(a) for a in four], num_steps=2))),
            ("stacks", unsteady_scn(mv([flap(stack), flap(stack2)], num_steps=3))),
            ("stack", unsteady_scn(mv([flap(stack)], num_steps=3), streams=True)),
            ("long", unsteady_scn(mv([flap(c.airplane([c.wing([s(ns=1, hinge=0.7), s(le=[0.1, 1.0, 0.1])], nc=2)]))],
                                     num_steps=24, v=gust))),
            ("long-free", unsteady_scn(mv([flap(c.airplane([c.wing([s(ns=1), s(le=[0.1, 1.0, 0.1])], nc=2, sym=True)]))],
                                          num_steps=22), only_final=True, prescribed=False)),
            ("longer", unsteady_scn(mv([flap(one)], num_steps=70, v=gust))),
            ("longer-free", unsteady_scn(mv([flap(one)], num_steps=45), prescribed=False)),
            ("longer-static", unsteady_scn(mv([still(one)], num_steps=55), prescribed=False, only_final=True))]
    wide = c.airplane([c.wing([s(ns=3, ss="cosine", af="naca2412", twist=2.0), s(le=[0.3, 2.0, 0.2], chord=0.8, ns=3, defl=5.0),
                               s(le=[0.6, 3.5, 0.6], chord=0.5)], nc=6, cs="cosine", sym=True)], name="wide")
    out += [("steady-wide", steady_scn([wide], base)), ("wide", unsteady_scn(mv([flap(wide)], num_steps=2), streams=True))]
    for pres in (True, False):
        t = "prescribed" if pres else "free"
        out += [
            (f"static-{t}", unsteady_scn(mv([still(flat)]), prescribed=pres)),
            (f"flap-{t}", unsteady_scn(mv([flap(flat)]), prescribed=pres, streams=True)),
            (f"gust-{t}", unsteady_scn(mv([still(one)], v=gust, num_steps=7), prescribed=pres)),
            (f"formation-{t}", unsteady_scn(mv([flap(flat), still(mate)], num_steps=4), prescribed=pres, streams=True)),
            (f"tailed-{t}", unsteady_scn(mv([c.airmove(tail, x=c.osc(0.3, 0.6), z=c.osc(0.2, 0.3, "uniform"))],
                                            num_steps=4), prescribed=pres)),
            (f"viscous-{t}", unsteady_scn(mv([flap(one)], opd=c.op(nu=0.05, alpha=8.0, v=4.0), num_steps=6),
                                          prescribed=pres)),
            (f"one-step-{t}", unsteady_scn(mv([still(flat)], num_steps=1), prescribed=pres, streams=True)),
            (f"two-steps-{t}", unsteady_scn(mv([flap(one)], num_steps=2), prescribed=pres)),
            (f"only-final-{t}", unsteady_scn(mv([flap(one)], num_steps=14), only_final=True, prescribed=pres)),
            (f"window-longer-{t}", unsteady_scn(mv([flap(one)], num_steps=6), only_final=True, prescribed=pres)),
            (f"static-final-{t}", unsteady_scn(mv([still(mate), still(one)], num_steps=3), only_final=True,
                                               prescribed=pres)),
        ]
    if P in ("C13", "ALL"):
        for n, m, pres in (("cyclic", mv([flap(one), still(left)], num_steps=13), True),
                           ("cyclic-free", mv([flap(one)], num_steps=12), False),
                           ("static", mv([still(one)], num_steps=4), False)):
            out.append((f"options-{n}", option_pair(m, pres)))
        for steps in range(1, 14):
            out.append((f"window-{steps}", unsteady_scn(mv([c.airmove(one, z=c.osc(0.1, 0.32))], num_steps=steps),
                                                        only_final=bool(steps % 2))))
        for steps, beat, fin in ((51, 1.91, False), (37, 1.3, True), (66, 5.0, False), (64, 2.4, True)):   # long windows
            out.append((f"window-{steps}-of-{beat}", unsteady_scn(
                mv([c.airmove(one, z=c.osc(0.1, beat)), still(left)][:1 + steps % 2], num_steps=steps), only_final=fin)))
    return out


def random_cases(n):
    out = []
    for k in range(n):
        rng = rng_for(args, f"uvlm/{k}")
        na = rng.choice([1, 1, 1, 2, 2, 3])
        size = rng.choice([2, 2, 3, 4]) if na == 1 else rng.choice([1, 2, 2])
        airs = [c.rand_airplane(rng, name=f"a{i}", nw=rng.choice([1, 1, 2, 3] if na == 1 else [1, 2]),
                                offset=(4.5 * i, 9.0 * i, 1.5 * i), max_nc=size, max_ns=2 if na == 1 else size)
                for i in range(na)]
        x = rng.choice([1, 1, 1, 0.05, 0.3, 4, 20])
        c.resize(airs, x)
        if k % 4 == 0:
            out.append((f"random-steady-{k}", steady_scn(airs, c.rand_op(rng))))
        else:
            mdef = c.movement([c.rand_motion(rng, a) for a in airs],
                              c.opmove(c.rand_op(rng), c.rand_osc(rng, 2.0, 0.3)),
                              dt=rng.uniform(0.02, 0.06), num_steps=rng.choice([1, 3, 4, 5, 6] if na == 1 else [2, 3, 4]))
            c.stretch(mdef, x, x)
            out.append((f"random-unsteady-{k}", unsteady_scn(mdef, only_final=rng.random() < 0.15,
                                                             prescribed=rng.random() < 0.5,
                                                             streams=rng.random() < 0.3)))
    return out


run_scenarios(cases(args.tier) + random_cases(72 if args.tier == "quick" else 500), args)
