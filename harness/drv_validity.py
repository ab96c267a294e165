"""C04: definitions with changed fields at every position; was each accepted, and where was it refused?"""
import copy
import json
import math

import numpy as np
import pterasoftware as ps
from common import parse_args, run_scenarios, rng_for
import configs as c

args = parse_args()


def wing2(name, le, **kw):
    n = kw.get("n", [0.0, 1.0, 0.0])
    secs = [c.sec(ns=2, n=n), c.sec(ns=1, n=n, le=[0.2, 1.0 * n[1] + 0.0, 1.0 * n[2] + 0.1], chord=0.8),
            c.sec(ns=1, n=n, le=[0.3, 2.0 * n[1] + 0.1, 2.0 * n[2] + 0.3], chord=0.6)]
    return c.wing(secs, name=name, le=le, nc=2, **kw)


def base(b):
    q = math.sqrt(0.5)
    if b == "canted":
        w = wing2("w", [0.0, 0.0, 0.0], sym=True)
        w["secs"][1]["n"] = [0.0, math.cos(0.2), math.sin(0.2)]
        w["secs"][2]["n"] = [0.0, math.cos(0.5), math.sin(0.5)]
        ws = [w]
    elif b == "oblique":
        ws = [wing2("w", [0.1, 0.2, 0.3], n=[0.0, q, q])]
    elif b == "plain":
        ws = [wing2("w", [0.0, 0.0, 0.0])]
    else:
        ws = [wing2("w", [0.0, 0.0, 0.0], sym=True), wing2("tail", [4.0, 0.0, 0.5], n=[0.0, 0.0, 1.0])]
    d = dict(airplane=c.airplane(ws))
    if b in ("still", "moving"):
        d["m"] = c.movement([c.airmove(d["airplane"])], c.opmove(c.op()), num_steps=2, dt=0.05)
        if b == "moving":
            d["m"]["airs"][0]["wings"][0]["secs"][1]["pitch"] = c.osc(4.0, 0.1)
            d["m"]["airs"][0]["z"] = c.osc(0.1, 0.1, "uniform")
    return d


def edit_sec(s, k):
    n = s["n"]
    t = dict(zip(("chord-zero", "chord-negative", "chord-tiny"), (0.0, -0.7, 1e-4)))
    if k in t:
        s["chord"] = t[k]
    elif k.startswith("cst-"):
        s["cst"] = {"unknown": "aileron", "capital": "Symmetric", "empty": "", "asymmetric": "asymmetric"}[k[4:]]
    elif k.startswith("ss-"):
        s["ss"] = {"unknown": "linear", "sine": "sine", "cosine": "cosine"}[k[3:]]
    elif k.startswith("name-"):
        s["af"] = {"unknown": "not-a-section", "short": "naca24", "letters": "nacaabcd", "empty": "", "library": "n0012", "drawn": "as drawn"}[k[5:]]
    elif k == "normal-flipped":
        s["n"] = [-x for x in n]
    elif k == "normal-tilted":
        s["n"] = [0.6, 0.8, 0.0] if n[1] > n[2] else [0.6, 0.0, 0.8]
    elif k in ("normal-slight", "normal-rounded"):
        g = 1e-4 if k.endswith("slight") else 1e-13
        s["n"] = [math.sin(g), n[1] * math.cos(g), n[2] * math.cos(g)]
    elif k == "normal-canted":
        s["n"] = [0.0, math.cos(0.3), math.sin(0.3)]
    elif k in ("le-x", "le-y", "le-z", "le-x-tiny"):
        s["le"]["xyz".index(k[3])] += 1e-9 if k.endswith("tiny") else 0.37
    elif k == "twist":
        s["twist"] = 6.0
    elif k == "deflection":
        s["defl"] = -35.0
    elif k == "one-panel":
        s["ns"] = 1
    else:
        raise KeyError(k)


def yaw(w, g):
    """Turn the whole wing about the vertical axis."""
    def turn(v):
        return [math.cos(g) * v[0] - math.sin(g) * v[1], math.sin(g) * v[0] + math.cos(g) * v[1], v[2]]
    w["n"], w["c"] = turn(w["n"]), turn(w["c"])
    for s in w["secs"]:
        s["n"], s["le"] = turn(s["n"]), turn(s["le"])


def edit_wing(w, k):
    if k == "one-section":
        del w["secs"][1:]
    elif k == "no-section":
        del w["secs"][:]
    elif k.startswith("cs-"):
        w["cs"] = {"unknown": "dense", "sine": "sine", "capital": "Uniform", "cosine": "cosine"}[k[3:]]
    elif k == "chordwise-tilted":
        w["c"] = [0.8, 0.0, 0.6]
    elif k in ("chordwise-slight", "chordwise-rounded"):
        g = 1e-4 if k.endswith("slight") else 1e-13
        w["c"] = [x * math.cos(g) + y * math.sin(g) for x, y in zip(w["c"], w["n"])]
    elif k == "yawed":
        yaw(w, 0.37)
    elif k == "pitched":
        w["c"] = [math.cos(0.2), -math.sin(0.2) * w["n"][2], math.sin(0.2) * w["n"][1]]
    elif k == "chordwise-skew":
        w["c"] = [0.6, 0.8, 0.0]
    elif k == "normal-flipped":
        w["n"] = [-x for x in w["n"]]
    elif k == "normal-x":
        w["n"] = [1.0, 0.0, 0.0]
    elif k == "symmetric":
        w["sym"] = not w["sym"]
    elif k == "one-row":
        w["nc"] = 1
    else:
        raise KeyError(k)


def edit_motion(o, k):
    name, _, what = k.partition("-")
    m = {"": c.osc(0.1, 0.1), "unknown": c.osc(0.1, 0.1, "triangle"), "custom-missing": c.osc(0.1, 0.1, "custom"),
         "custom": c.osc(0.1, 0.1, "custom", "skewed"), "cosine": c.osc(0.0, 0.0, "cosine"), "empty": c.osc(0.0, 0.0, ""),
         "period": c.osc(0.0, 0.1), "amplitude": c.osc(3.0, 0.0), "negative": c.osc(-4.0, 0.1, "uniform")}[what]
    o[name] = m


def edit_plan(d, k):
    t = {"steps-cycles": dict(num_cycles=1), "steps-chords": dict(num_chords=1), "cycles": dict(num_steps=None, num_cycles=1),
         "chords": dict(num_steps=None, num_chords=1), "cycles-chords": dict(num_steps=None, num_cycles=1, num_chords=1),
         "steps": dict(num_steps=3)}
    d.update(t[k])


def apply(d, e):
    kind, _, what = e["k"].partition(":")
    ws = d["airplane"]["wings"]
    w, s = e["w"] - 1, e["s"] - 1
    if kind == "airplane":
        del ws[:]
    elif kind == "sec":
        if w < len(ws) and s < len(ws[w]["secs"]):
            edit_sec(ws[w]["secs"][s], what)
    elif kind == "wing":
        if w < len(ws):
            edit_wing(ws[w], what)
    elif kind == "plan":
        edit_plan(d["m"], what)
    else:
        air = d["m"]["airs"][0]
        if kind == "airmove":
            edit_motion(d["m"]["opm"] if what.startswith("v") else air, what)
        elif kind == "wingmove":
            edit_motion(air["wings"][w], what)
        else:
            edit_motion(air["wings"][w]["secs"][s], what)


def record_of(d):
    r = dict(wings=[dict(n=w["n"], c=w["c"], cs=w["cs"], secs=[
        dict({k: s[k] for k in ("af", "le", "chord", "n", "cst", "ss")}, drawn=True if s["af"] in c.OWN else None)
        for s in w["secs"]]) for w in d["airplane"]["wings"]])
    if "m" in d:
        a = d["m"]["airs"][0]
        r["m"] = dict(air={x: a[x] for x in "xyz"}, v=d["m"]["opm"]["v"], wings=a["wings"])
        r["rq"] = {k: d["m"][k] for k in ("dt", "num_steps", "num_cycles", "num_chords") if d["m"][k] is not None}
    return r


def build(d):
    """Returns (accepted, where it was refused)."""
    at = ["section", 0, 0]
    try:
        ws = []
        for i, w in enumerate(d["airplane"]["wings"]):
            secs = []
            for k, s in enumerate(w["secs"]):
                at = ["section", i + 1, k + 1]
                secs.append(c.build_sec(s))
            at = ["wing", i + 1, 0]
            ws.append(ps.geometry.Wing(
                wing_cross_sections=secs, name=w["name"], x_le=w["le"][0], y_le=w["le"][1], z_le=w["le"][2],
                unit_normal_vector=np.array(w["n"]), symmetric=w["sym"], unit_chordwise_vector=np.array(w["c"]),
                num_chordwise_panels=w["nc"], chordwise_spacing=w["cs"]))
        at = ["airplane", 0, 0]
        a = ps.geometry.Airplane(wings=ws)
        if "m" in d:
            at = ["movement", 0, 0]
            m = d["m"]
            mv = ps.movement.Movement(
                airplane_movements=[c.build_airmove(m["airs"][0], a)], operating_point_movement=c.build_opmove(m["opm"]),
                delta_time=m["dt"], num_steps=m["num_steps"], num_cycles=m["num_cycles"], num_chords=m["num_chords"])
            ps.problems.UnsteadyProblem(movement=mv)
        else:
            ps.problems.SteadyProblem(airplanes=[a], operating_point=c.build_op(c.op()))
        return True, ["nowhere", 0, 0], False
    except Exception as e:  # noqa: BLE001
        return False, at, isinstance(e, Exception)


def scn(b, edits):
    def run(rec):
        d = base(b)
        for e in edits:
            apply(d, e)
        r = record_of(copy.deepcopy(d))
        accepted, at, raised = build(d)
        rec.emit("Build", d=r, accepted=accepted, at=at, raised=raised)
    return run


def random_valid(n):
    """Definitions drawn from all the valid ones."""
    out = []
    for k in range(n):
        rng = rng_for(args, f"valid/{k}")
        a = c.rand_airplane(rng, nw=rng.choice([1, 2, 3]), max_nc=3, max_ns=3)
        d = dict(airplane=a)
        if k % 2:
            d["m"] = c.movement([c.rand_motion(rng, a)], c.opmove(c.rand_op(rng), c.rand_osc(rng, 1.0)), num_steps=2, dt=0.1)

        def run(rec, d=d):
            accepted, at, raised = build(d)
            rec.emit("Build", d=record_of(d), accepted=accepted, at=at, raised=raised)
        out.append((f"valid-{k}", run))
    return out


todo = random_valid(150 if args.tier == "quick" else 1000)
if args.input:
    for i, row in enumerate(json.load(open(args.input))):
        todo.append((f"{row['base']}-{i}", scn(row["base"], row["edits"])))
run_scenarios(todo, args)
