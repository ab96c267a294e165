"""C05, C06, C07: build motions and unsteady problems, record every snapshot and the time plan."""
import hashlib
import json

import numpy as np
import pterasoftware as ps
from common import parse_args, run_scenarios, rng_for
import configs as c

args = parse_args()
P = args.prop


def wants(p):
    return P in (p, "ALL")


def text(v):
    """A value as text, numbers canonically."""
    if isinstance(v, (bool, np.bool_, str)) or v is None:
        return str(v)
    if isinstance(v, (int, float, np.integer, np.floating)):
        return repr(float(v))
    if isinstance(v, (list, tuple, np.ndarray)):
        return "[" + ",".join(text(x) for x in v) + "]"
    return type(v).__name__


def short(t):
    return t if len(t) <= 200 else "md5:" + hashlib.md5(t.encode()).hexdigest()


def attrs(obj, names):
    return {n: short(text(getattr(obj, n))) for n in names}


AIRPLANE = ["name", "weight", "num_panels"]
WING = ["name", "symmetric", "unit_normal_vector", "unit_chordwise_vector", "num_chordwise_panels",
        "chordwise_spacing", "num_spanwise_panels", "num_panels"]
SECTION = ["chord", "unit_normal_vector", "control_surface_type", "control_surface_hinge_point",
           "control_surface_deflection", "num_spanwise_panels", "spanwise_spacing"]
AIRFOIL = ["name", "coordinates", "mcl_coordinates", "repanel", "n_points_per_side"]
OP = ["density", "beta", "alpha", "nu", "external_thrust"]


def carry(a):
    ws = a.wings
    return dict(airplane=attrs(a, AIRPLANE), wings=[attrs(w, WING) for w in ws],
                secs=[[attrs(s, SECTION) for s in w.wing_cross_sections] for w in ws],
                airfoils=[[attrs(s.airfoil, AIRFOIL) for s in w.wing_cross_sections] for w in ws],
                refs=dict(s_ref=a.s_ref, c_ref=a.c_ref, b_ref=a.b_ref),
                own=dict(s_ref=ws[0].projected_area, c_ref=ws[0].mean_aerodynamic_chord, b_ref=ws[0].span),
                corners=[getattr(p, v) for w in ws for p in np.ravel(w.panels) for v in
                         ("front_left_vertex", "front_right_vertex", "back_left_vertex", "back_right_vertex")],
                place=dict(ref=a.xyz_ref, s=a.s_ref, c=a.c_ref, b=a.b_ref))


def base_text(a):
    """Everything a base airplane holds, as text."""
    return short(text([list(attrs(a, AIRPLANE).values()), text(a.xyz_ref), text([a.s_ref, a.c_ref, a.b_ref])] + [
        [list(attrs(w, WING).values()), text([w.x_le, w.y_le, w.z_le]),
         [[list(attrs(s, SECTION).values()), text([s.x_le, s.y_le, s.z_le, s.twist]),
           list(attrs(s.airfoil, AIRFOIL).values())] for s in w.wing_cross_sections],
         text([[p.front_left_vertex, p.front_right_vertex, p.back_left_vertex, p.back_right_vertex]
               for p in np.ravel(w.panels)])] for w in a.wings]))


def mrec(d):
    """Definition of the motion as the specification reads it."""
    def sec(s):
        return dict(le=s["le"], twist=s["twist"])
    return dict(airs=[dict(base=dict(ref=a["base"]["ref"], wings=[dict(le=w["le"], secs=[sec(s) for s in w["secs"]])
                                                                   for w in a["base"]["wings"]]),
                           x=a["x"], y=a["y"], z=a["z"], wings=a["wings"]) for a in d["airs"]],
                opm=dict(base=dict(v=d["opm"]["base"]["v"]), v=d["opm"]["v"]))


def periods_of(x):
    """Every period in (a part of) a motion definition."""
    if isinstance(x, list) and len(x) == 4 and isinstance(x[2], str):
        return [x[1]]
    if isinstance(x, dict):
        return [p for k, v in x.items() if k != "base" for p in periods_of(v)]
    if isinstance(x, list):
        return [p for v in x for p in periods_of(v)]
    return []


def scn(d, only_final=False):
    def run(rec):
        bases = [c.build_airplane(a["base"]) for a in d["airs"]]
        op = c.build_op(d["opm"]["base"])
        before = [base_text(a) for a in bases] + [text(list(attrs(op, OP + ["velocity"]).values()))]
        ams = [c.build_airmove(a, b) for a, b in zip(d["airs"], bases)]
        opm = c.build_opmove(d["opm"], op)
        rq = {k: d[k] for k in ("dt", "num_steps", "num_cycles", "num_chords") if d[k] is not None}
        kw = {("delta_time" if k == "dt" else k): v for k, v in rq.items()}
        mv = ps.movement.Movement(airplane_movements=ams, operating_point_movement=opm, **kw)
        if wants("C05"):
            rec.emit("Motion", m=mrec(d), dt=mv.delta_time, steps=mv.num_steps,
                     snaps=[[dict(ref=a.xyz_ref, wings=[dict(le=[w.x_le, w.y_le, w.z_le], secs=[
                         dict(le=[s.x_le, s.y_le, s.z_le], twist=s.twist) for s in w.wing_cross_sections])
                         for w in a.wings]) for a in row] for row in mv.airplanes],
                     ops=[dict(v=o.velocity) for o in mv.operating_points])
            for k in sorted({0, mv.num_steps // 2, mv.num_steps - 1}):
                for a, row in zip(d["airs"], mv.airplanes):
                    for wd, w in zip(a["base"]["wings"], row[k].wings):
                        r = c.wing_record(wd)
                        r["le"] = [w.x_le, w.y_le, w.z_le]
                        for sd, s in zip(r["secs"], w.wing_cross_sections):
                            sd.update(le=[s.x_le, s.y_le, s.z_le], twist=s.twist)
                        rec.emit("Snapshot", w=r, panels=[[dict(
                            fl=p.front_left_vertex, fr=p.front_right_vertex, bl=p.back_left_vertex,
                            br=p.back_right_vertex) for p in row_] for row_ in w.panels])
        if wants("C06"):
            given = [{k: a["base"][k] for k in ("s_ref", "c_ref", "b_ref") if a["base"][k] is not None} for a in d["airs"]]
            bs = [dict(carry(b), given=g) for b, g in zip(bases, given)]
            after = [base_text(a) for a in bases] + [text(list(attrs(op, OP + ["velocity"]).values()))]
            objs = list(bases) + [op] + list(mv.operating_points)
            for a in bases:
                objs += a.wings
            for row in mv.airplanes:
                for a in row:
                    objs += [a] + list(a.wings) + [s for w in a.wings for s in w.wing_cross_sections] + [
                        p for w in a.wings for p in np.ravel(w.panels)]
            number = {}
            moving = [m for m in _motions(d) if m[0] != 0 and m[1] != 0]
            rec.emit("Carry", bases=bs, snaps=[[carry(a) for a in row] for row in mv.airplanes], op=attrs(op, OP),
                     ops=[attrs(o, OP) for o in mv.operating_points], before=before, after=after,
                     objects=[number.setdefault(id(o), len(number)) for o in objs], still=not moving)
        if wants("C07"):
            prob = ps.problems.UnsteadyProblem(movement=mv, only_final_results=only_final)
            where = {}
            for i, row in enumerate(mv.airplanes):
                for k, a in enumerate(row):
                    where[id(a)] = [i, k]
            wop = {id(o): k for k, o in enumerate(mv.operating_points)}
            levels = []
            for am, a in zip(ams, d["airs"]):
                levels.append(dict(max=am.get_max_period(), periods=periods_of(a)))
                for wm, w in zip(am.wing_movements, a["wings"]):
                    levels.append(dict(max=wm.get_max_period(), periods=periods_of(w)))
                    for sm, s in zip(wm.wing_cross_section_movements, w["secs"]):
                        levels.append(dict(max=sm.get_max_period(), periods=periods_of(s)))
            levels.append(dict(max=opm.get_max_period(), periods=periods_of(d["opm"])))
            rec.emit("Plan", rq=rq, airs=[dict(c_ref=b.c_ref, nc=b.wings[0].num_chordwise_panels) for b in bases],
                     v=d["opm"]["base"]["v"], periods=c.periods(d), levels=levels, max_period=mv.get_max_period(),
                     problem_period=prob.max_period, dt=mv.delta_time, problem_dt=prob.delta_time, steps=mv.num_steps,
                     problem_steps=prob.num_steps, first_avg=prob.first_averaging_step,
                     first_results=prob.first_results_step, only_final=only_final,
                     pairs=[dict(op=wop.get(id(sp.operating_point), -1),
                                 airs=[where.get(id(a), [-1, -1]) for a in sp.airplanes]) for sp in prob.steady_problems])
    return run


def _motions(d):
    out = [d["opm"]["v"]]
    for a in d["airs"]:
        out += [a[x] for x in "xyz"]
        for w in a["wings"]:
            out += [w[x] for x in "xyz"] + [s[q] for s in w["secs"] for q in ("sweep", "pitch", "heave")]
    return out


def tiny(name, chord=1.0, nc=1, nsec=2, ref=(0.1, 0.2, 0.3), **kw):
    secs = [c.sec(ns=1, chord=chord)] + [c.sec(ns=1, chord=0.8 * chord, le=[0.2 * k, 1.0 * k, 0.1 * k * k], twist=1.0)
                                         for k in range(1, nsec)]
    return c.airplane([c.wing(secs, nc=nc, name=name + "-w0"),
                       c.wing([c.sec(ns=1), c.sec(ns=1, le=[0.0, 0.6, 0.0])], le=[3.0, 0, 0], nc=2, name=name + "-w1")],
                      name=name, ref=list(ref), weight=7.0, **kw)


def place_motion(d, place, m):
    """place: names a moving quantity, e.g. a1.x, a2.w1.z, a1.w1.s2.pitch, v."""
    parts = place.split(".")
    if parts[0] == "v":
        d["opm"]["v"] = m
        return
    o = d["airs"][int(parts[0][1:]) - 1]
    for q in parts[1:-1]:
        o = o["wings"][int(q[1:]) - 1] if q[0] == "w" else o["secs"][int(q[1:]) - 1]
    o[parts[-1]] = m


def generated(rows):
    out = []
    for n, row in enumerate(rows):
        airs = [tiny("first", 1.0, 2, s_ref=None), tiny("second", 1.7, 3, nsec=3), tiny("third", 2.6, 1),
                tiny("fourth", 0.6, 2)][: row["airs"]]
        if row["swap"]:
            airs.reverse()
        d = c.movement([c.airmove(a) for a in airs], c.opmove(c.op(v=8.0)))
        for i, q in enumerate(row["moves"]):
            amp = (-1 if (n + i) % 3 == 0 else 1) * (0.3 if q["place"] != "v" else 1.0)
            place_motion(d, q["place"], c.osc(amp if q["amp"] else 0.0, q["period"] / 10, q["spacing"]))
        if row["dt"]:
            d["dt"] = row["dt"] / 100
        for k in ("num_steps", "num_cycles", "num_chords"):
            if row[k]:
                d[k] = row[k]
        out.append((f"plan-{n}", scn(d, row["only_final"])))
    return out


def fixed():
    out = []
    rich = c.airplane(
        [c.wing([c.sec(af="naca2412", ns=2, ss="cosine", cst="asymmetric", defl=7.0, hinge=0.6, chord=1.3),
                 c.sec(af="naca0009", le=[0.2, 1.4, 0.2], ns=1, defl=-4.0, hinge=0.8, twist=2.5, chord=0.9),
                 c.sec(af="clarky", le=[0.5, 2.6, 0.1], chord=0.4, twist=-1.0)],
                name="rich", le=[0.3, -0.2, 0.4], sym=True, nc=3, cs="cosine"),
         c.wing([c.sec(n=[0, 0, 1.0], ns=1, defl=3.0), c.sec(n=[0, 0, 1.0], le=[0.4, 0.0, 1.2], chord=0.5, twist=2.0),
                 c.sec(n=[0, 0, 1.0], le=[0.6, 0.3, 2.0], chord=0.4)], name="fin", le=[3.0, 0.1, 0.2], n=[0, 0, 1.0], nc=2),
         c.wing([c.sec(ns=1), c.sec(le=[0.1, 0.9, 0.0], chord=0.5)], name="tilted", c=[0.96, 0.0, -0.28],
                le=[4.0, 0.0, 0.0], nc=1, sym=True)],
        name="rich-plane", ref=[0.4, -0.1, 0.2], weight=123.0, s_ref=2.5, c_ref=0.7, b_ref=6.5)
    opd = c.op(rho=0.9, beta=3.0, v=12.0, alpha=2.0, nu=2e-5, thrust=4.5)
    for k in ("s_ref", "c_ref", "b_ref", None):
        a = dict(rich, s_ref=None, c_ref=None, b_ref=None)
        if k:
            a[k] = rich[k]
        beat = c.airmove(a)
        beat["wings"][0]["secs"][-1].update(sweep=c.osc(25.0, 0.3), heave=c.osc(10.0, 0.3))
        out.append((f"rich-beating-{k}", scn(c.movement([beat], c.opmove(opd), num_steps=4, dt=0.05))))
        out.append((f"rich-still-{k}", scn(c.movement([c.airmove(a)], c.opmove(opd), num_steps=3, dt=0.05))))
    out.append(("reference-values-zero", scn(c.movement([c.airmove(dict(rich, c_ref=0.0, s_ref=0.0))], c.opmove(opd),
                                                        num_steps=2, dt=0.05))))
    zero = c.airmove(rich)
    for w in zero["wings"]:
        w["x"] = c.osc(0.0, 0.5)
        w["z"] = c.osc(0.4, 0.0)
        for s in w["secs"][1:]:
            s["sweep"] = c.osc(0.0, 0.7, "custom", "skewed")
            s["pitch"] = c.osc(5.0, 0.0)
    out.append(("zero-amplitude-or-period", scn(c.movement([zero], c.opmove(opd, c.osc(0.0, 0.3)), num_steps=4, dt=0.05))))
    for sp, wv in (("sine", "none"), ("uniform", "none"), ("custom", "skewed"), ("custom", "cubed"), ("custom", "drift"),
                   ("custom", "gain2")):
        for q in ("sweep", "pitch", "heave"):
            a = c.airmove(rich)
            for w in a["wings"]:
                for n, s in enumerate(w["secs"][1:]):
                    s[q] = c.osc(6.0 + n, 0.35 + 0.1 * n, sp, wv)
            out.append((f"section-{q}-{sp}-{wv}", scn(c.movement([a], c.opmove(opd), num_steps=9, dt=0.06))))
    for sp in ("sine", "uniform"):
        for ax in "xyz":
            a = c.airmove(rich, **{ax: c.osc(0.5, 0.6, sp)})
            a["wings"][1][ax] = c.osc(0.2, 0.45, sp)
            out.append((f"position-{ax}-{sp}", scn(c.movement([a], c.opmove(opd, c.osc(3.0, 0.8, sp)), num_steps=7, dt=0.07))))
    b = c.airmove(tiny("other", 0.8, 2, nsec=3), z=c.osc(0.4, 0.9))
    out.append(("formation", scn(c.movement([c.airmove(rich, x=c.osc(0.2, 0.5)), b], c.opmove(opd), num_steps=6, dt=0.11))))
    out.append(("root-pitch", scn(c.movement([_root_pitch(rich)], c.opmove(opd), num_steps=6, dt=0.07))))
    out.append(("one-step", scn(c.movement([c.airmove(rich, x=c.osc(0.2, 0.5))], c.opmove(opd), num_steps=1, dt=0.1))))
    five = [tiny(f"of-five-{k}", 1.0 + 0.3 * k, 1 + k % 2) for k in range(5)]
    for k in range(5):                    # one of a large formation moves
        ms = [c.airmove(a) for a in five]
        ms[k]["z" if k % 2 else "y"] = c.osc(0.2, 0.4 + 0.1 * k)
        out.append((f"of-five-{k}", scn(c.movement(ms, c.opmove(opd), num_cycles=2, dt=0.13), bool(k % 2))))
    seven = c.airplane([dict(a["wings"][0], name=f"of-seven-{k}") for k, a in enumerate(
        tiny(f"seven-{k}", 1.0 + 0.1 * k, 1 + k % 2) for k in range(7))], name="seven", weight=3.0)
    for k in (3, 6):                      # one of many wings moves
        m = c.airmove(seven)
        m["wings"][k]["z"] = c.osc(0.2, 0.5)
        m["wings"][k]["secs"][1]["sweep"] = c.osc(7.0, 0.8)
        out.append((f"of-seven-{k}", scn(c.movement([m], c.opmove(dict(opd, thrust=-3.0)), num_cycles=1, dt=0.17))))
    out.append(("many-cycles", scn(c.movement([c.airmove(five[0], z=c.osc(0.1, 0.2))], c.opmove(opd), num_cycles=19, dt=0.06))))
    out.append(("many-chords", scn(c.movement([c.airmove(five[1])], c.opmove(opd), num_chords=37, dt=0.09))))
    for sp in ("sine", "uniform"):        # more than a right angle up and back
        a = c.airmove(tiny("over", 1.0, 1, nsec=3))
        a["wings"][0]["secs"][1].update(sweep=c.osc(130.0, 0.9, sp), pitch=c.osc(-170.0, 0.7, sp))
        a["wings"][0]["secs"][2].update(heave=c.osc(-140.0, 0.9, sp))
        out.append((f"over-{sp}", scn(c.movement([a], c.opmove(opd), num_steps=12, dt=0.09))))
    # negative and large amplitudes, long runs over many periods, non-integral period/step ratios
    a = c.airmove(tiny("neg", 1.0, 1), x=c.osc(-0.4, 0.5), y=c.osc(0.3, 0.13, "uniform"))
    a["wings"][0]["secs"][1].update(sweep=c.osc(-40.0, 0.37), heave=c.osc(25.0, 0.29, "uniform"), pitch=c.osc(-30, 0.41))
    out.append(("negative-long", scn(c.movement([a], c.opmove(opd, c.osc(-2.0, 0.3)), num_steps=60, dt=0.037))))
    # steps longer than the period, speeds through zero, many steps
    for sp in ("sine", "uniform"):
        a = c.airmove(tiny("quick", 1.0, 1), x=c.osc(0.4, 0.05, sp), z=c.osc(0.2, 0.11, sp))
        a["wings"][0]["secs"][1].update(sweep=c.osc(20.0, 0.06, sp), heave=c.osc(9.0, 0.1, sp), pitch=c.osc(5.0, 0.031, sp))
        out.append((f"period-below-step-{sp}", scn(c.movement([a], c.opmove(opd, c.osc(20.0, 0.35, sp)), num_steps=9, dt=0.1))))
        a = c.airmove(tiny("slow", 1.0, 1), x=c.osc(0.4, 0.5, sp))
        a["wings"][0]["secs"][1].update(sweep=c.osc(20.0, 30.0, sp), heave=c.osc(9.0, 0.7, sp))
        out.append((f"winglet-{sp}", scn(c.movement([_winglet(sp)], c.opmove(opd), num_steps=8, dt=0.07))))
        out.append((f"many-steps-{sp}", scn(c.movement([a], c.opmove(opd, c.osc(2.0, 0.9, sp)), num_steps=130, dt=0.04))))
    return out


def _winglet(sp):
    """Upright sections outside of moving ones, and a level section outside of an upright one."""
    up = [0, 0, 1.0]
    w = c.wing([c.sec(ns=1), c.sec(le=[0.1, 1.2, 0.1], chord=0.8, ns=2), c.sec(le=[0.2, 1.9, 0.3], chord=0.7, n=up, ns=1, twist=1.0),
                c.sec(le=[0.4, 1.9, 0.8], chord=0.5, n=up, ns=1, twist=3.0),
                c.sec(le=[0.55, 1.9, 1.1], chord=0.4, ns=1, twist=-1.0), c.sec(le=[0.6, 2.3, 1.2], chord=0.3)],
               name="winglets", le=[0.2, 0.1, -0.1], sym=True, nc=2)
    a = c.airmove(c.airplane([w, dict(w, name="again", le=[3.0, 0.0, 0.3], sym=False)], name="winged"))
    for k, wm in enumerate(a["wings"]):
        for n, s in enumerate(wm["secs"][1:]):
            if not (k and n > 3):
                s.update(sweep=c.osc(8.0 + n, 0.4 + 0.1 * n, sp), heave=c.osc(5.0 - n, 0.5, sp), pitch=c.osc(3.0 + n, 0.3, sp))
        wm["x"] = c.osc(0.2, 0.6, sp)
    return a


def _root_pitch(d):
    a = c.airmove(d)
    a["wings"][0]["secs"][0]["pitch"] = c.osc(9.0, 0.3)
    a["wings"][0]["secs"][1]["pitch"] = c.osc(4.0, 0.5, "uniform")
    return a


def random_cases(n):
    out = []
    for k in range(n):
        rng = rng_for(args, f"motion/{k}")
        airs = [c.rand_airplane(rng, name=f"r{i}", nw=rng.choice([1, 2]), max_nc=2, max_ns=2)
                for i in range(rng.choice([1, 1, 2, 3]))]
        p = rng.choice([0.0, 0.15, 0.5, 0.9])
        d = c.movement([c.rand_motion(rng, a, p, rng.choice([0.3, 1.0, 2.0])) for a in airs],
                       c.opmove(c.rand_op(rng), c.rand_osc(rng, 2.0, p)))
        how = rng.random()
        if how < 0.6:
            d["num_steps"] = rng.randint(1, 8)
        elif max(c.periods(d)) > 0:
            d["num_cycles"] = rng.choice([None, 1, 2])
        else:
            d["num_chords"] = rng.choice([None, 2, 3])
        if how > 0.7 or rng.random() < 0.5:
            d["dt"] = rng.uniform(0.05, 0.2)
        elif d["num_steps"] is None:
            d["dt"] = 0.1
        x = rng.choice([1, 1, 1, 0.05, 0.3, 4, 20])
        c.resize([m["base"] for m in d["airs"]], x)
        c.stretch(d, x, x)
        out.append((f"random-{k}", scn(d, rng.random() < 0.5)))
    return out


quick = args.tier == "quick"
todo = fixed() + random_cases(40 if quick else 300)
if args.input:
    todo += generated(json.load(open(args.input)))
run_scenarios(todo, args)
