"""C18: solve a case and its transformed images; record the loads of each."""
import copy
import json
import math

import numpy as np
import pterasoftware as ps
from common import parse_args, run_scenarios, rng_for
import configs as c
import record as r

args = parse_args()
s = c.sec
INNER = ("ns", "ss", "cst", "hinge", "defl")


# ------------------------------------------------------------------ families
def rsec(rng, **kw):
    kw.setdefault("ns", rng.choice([1, 2]))
    return s(chord=rng.uniform(0.6, 1.4), ss=rng.choice(["cosine", "uniform"]), **kw)


def main_wing(rng, flap=None, cant=False, le=(0.0, 0.0, 0.0), af=None, nc=None, sym=True, nsec=2):
    af = af or rng.choice(["naca2412", "naca0012", "naca4415"])
    secs = [rsec(rng, af=af, twist=rng.choice([0.0, 2.0]))]
    y = 0.0
    for k in range(1, nsec):
        y += rng.uniform(0.8, 1.6)
        g = math.radians(rng.uniform(5, 25)) if cant else 0.0
        secs.append(rsec(rng, af=af, le=[rng.uniform(0, 0.5), y, rng.uniform(-0.1, 0.3)],
                         n=[0.0, math.cos(g), math.sin(g)], twist=rng.choice([0.0, -3.0])))
    if flap:
        secs[0].update(cst=flap, defl=rng.uniform(3, 10), hinge=rng.uniform(0.6, 0.8))
    return c.wing(secs, le=list(le), sym=sym, nc=nc or rng.choice([1, 2]), cs=rng.choice(["cosine", "uniform"]), name="main")


def fin(rng, y=0.0):
    n = [0.0, 0.0, 1.0]
    return c.wing([rsec(rng, n=n, af="naca0012"), rsec(rng, n=n, af="naca0012", le=[0.3, 0.0, 0.8])], name="fin", n=n,
                  le=[3.0, y, 0.4], nc=1)


def plane(rng, wings, at=(0.0, 0.0, 0.0), y=True, name="a"):
    for w in wings:
        w["le"] = [p + q for p, q in zip(w["le"], at)]
    return c.airplane(wings, name=name, ref=[0.3 + at[0], at[1] + (0.1 if y else 0.0), 0.1 + at[2]],
                      s_ref=rng.uniform(1, 3), c_ref=rng.uniform(0.5, 1.5), b_ref=rng.uniform(2, 4))


def base(family, rng):
    tail = lambda: c.wing([rsec(rng, ns=1, cst="symmetric", defl=4.0), rsec(rng, ns=1, le=[0.1, 0.8, 0.0])], name="tail",
                          le=[3.2, 0.0, 0.5], sym=True, nc=1)
    off = rng.random() < 0.6
    if family == "plane":
        airs = [plane(rng, [main_wing(rng, rng.choice([None, "symmetric", "asymmetric"]), nsec=rng.choice([2, 3]))], y=off)]
    elif family == "finned":
        airs = [plane(rng, [main_wing(rng), fin(rng, 0.3 if off else 0.0)], y=off)]
    elif family == "skewed":
        airs = [plane(rng, [main_wing(rng, "symmetric", sym=False, nsec=3, le=(0.0, 0.4, 0.0))])]
    elif family == "canted":
        airs = [plane(rng, [main_wing(rng, cant=True, nsec=3)], y=off)]
    elif family == "flapped":
        airs = [plane(rng, [main_wing(rng, "asymmetric", nc=2)], y=off)]
    elif family == "tailed":
        airs = [plane(rng, [main_wing(rng), tail()], y=off)]
    elif family == "jointed":
        airs = [plane(rng, [main_wing(rng, sym=False, nsec=rng.choice([3, 4]), le=(0.0, -0.3, 0.0))])]
    elif family == "pair":
        airs = [plane(rng, [main_wing(rng)], name="lead"),
                plane(rng, [main_wing(rng, "asymmetric")], at=(2.5, 5.0, -0.5), name="wingman")]
    else:
        airs = [plane(rng, [main_wing(rng, nc=1)], name="one"),
                plane(rng, [main_wing(rng, sym=False, nc=1), tail()], at=(2.0, 5.5, 0.7), name="two"),
                plane(rng, [main_wing(rng, nc=1)], at=(4.0, -5.0, -0.4), name="three")]
    opd = c.op(rho=rng.uniform(0.5, 1.4), v=rng.uniform(5, 20), alpha=rng.uniform(-4, 10),
               beta=rng.uniform(-8, 8) if off or family in ("skewed", "pair", "trio", "jointed") else 0.0, nu=rng.choice([15e-6, 0.02]))
    return airs, opd


def moving(airs, opd, rng, still, rigid=False):
    out = []
    for a in airs:
        m = c.airmove(a)
        if not still:
            for w in m["wings"]:
                for sec in [] if rigid else w["secs"][1:]:
                    sec["pitch"] = c.osc(rng.uniform(2, 5), 0.4, rng.choice(["sine", "uniform"]))
                    sec["sweep"] = c.osc(rng.uniform(2, 8), 0.4)
                w["x"] = c.osc(0.1, 0.4)
                w["z"] = c.osc(0.1, 0.2)
            m["z"] = c.osc(0.1, 0.4)
        out.append(m)
    v = c.osc(1.0, 0.4) if not still and rng.random() < 0.5 else None
    return c.movement(out, c.opmove(opd, v), dt=0.05 if still else 0.043, num_steps=4 if len(airs) > 1 else rng.choice([4, 6, 11]))


# ------------------------------------------------------------------ transformations of definitions
def flip(p):
    return [p[0], -p[1], p[2]]


def mirror_wing(w):
    w = copy.deepcopy(w)
    if w["n"][1] == 0.0:                       # a wing standing in a vertical plane: its upper side changes sides
        w["le"] = flip(w["le"])
        for x in w["secs"]:
            x.update(le=flip(x["le"]), n=[x["n"][0], -x["n"][1], x["n"][2]], twist=-x["twist"], defl=-x["defl"])
        return w
    if w["sym"]:
        w["le"] = flip(w["le"])
        for x in w["secs"]:
            if x["cst"] == "asymmetric":
                x["defl"] = -x["defl"]
        return w
    tip = w["secs"][-1]["le"]
    old = w["secs"][::-1]
    new = []
    for k, x in enumerate(old):
        y = dict(x, le=flip([p - q for p, q in zip(x["le"], tip)]), n=[x["n"][0], x["n"][1], -x["n"][2]])
        if k + 1 < len(old):
            y.update({q: old[k + 1][q] for q in INNER})
        new.append(y)
    w["le"] = flip([p + q for p, q in zip(w["le"], tip)])
    w["secs"] = new
    return w


def unfold_wing(w):
    """A symmetric wing written out from one tip to the other."""
    if not w["sym"]:
        return w
    w = copy.deepcopy(w)
    half = w["secs"]
    tip = half[-1]["le"]
    out = []
    for k in range(len(half) - 1, 0, -1):
        x = dict(half[k], le=flip(half[k]["le"]), n=[half[k]["n"][0], half[k]["n"][1], -half[k]["n"][2]])
        x.update({q: half[k - 1][q] for q in INNER})
        if x["cst"] == "asymmetric":
            x["defl"] = -x["defl"]
        out.append(x)
    out += [dict(x) for x in half]
    t = flip(tip)
    for x in out:
        x["le"] = [p - q for p, q in zip(x["le"], t)]
        x["cst"] = "symmetric"
    w.update(sym=False, secs=out, le=[p + q for p, q in zip(w["le"], t)])
    return w


def turn_vec(v, deg):
    a = math.radians(deg)
    return [v[0] * math.cos(a) - v[2] * math.sin(a), v[1], v[0] * math.sin(a) + v[2] * math.cos(a)]


def wide(rng, low, high):
    """A factor; half the time a moderate one."""
    if rng.random() < 0.5:
        low, high = max(low, 0.4), min(high, 2.5)
    return math.exp(rng.uniform(math.log(low), math.log(high)))


def apply(kind, airs, opd, m, rng):
    """The transformed case, and the factor or permutation the specification needs."""
    airs, opd, m = copy.deepcopy(airs), dict(opd), copy.deepcopy(m)
    x = 1
    if kind == "mirror":
        for a in airs:
            a["ref"] = flip(a["ref"])
            a["wings"] = [mirror_wing(w) for w in a["wings"]]
        opd["beta"] = -opd["beta"]
    elif kind == "move":
        d = [rng.uniform(-20, 20) * rng.choice([1, 1, 10]) for _ in range(3)]
        for a in airs:
            a["ref"] = [p + q for p, q in zip(a["ref"], d)]
            for w in a["wings"]:
                w["le"] = [p + q for p, q in zip(w["le"], d)]
    elif kind == "airplanes":
        n = len(airs)
        k = rng.randint(1, n - 1)
        order = [(i + k) % n for i in range(n)]
        if n > 2 and rng.random() < 0.5:
            order = order[::-1]
        airs = [airs[i] for i in order]
        if m:
            m["airs"] = [m["airs"][i] for i in order]
        x = [i + 1 for i in order]
    elif kind == "wings":
        for i, a in enumerate(airs):
            a["wings"] = a["wings"][::-1]
            if m:
                m["airs"][i]["wings"] = m["airs"][i]["wings"][::-1]
    elif kind == "rename":
        for i, a in enumerate(airs):
            a["name"] = f"renamed {9 - i}"
            for w in a["wings"]:
                w["name"] = "same name"
    elif kind == "density":
        x = wide(rng, 1e-3, 1e3)
        opd["rho"] *= x
    elif kind == "speed":
        x = wide(rng, 0.05, 20.0)
        opd["v"] *= x
        opd["nu"] *= x
        if m:
            c.stretch(m, 1.0, 1.0 / x)
            m["opm"]["v"][0] *= x
    elif kind == "size":
        x = wide(rng, 0.02, 50.0)
        c.resize(airs, x)
        opd["nu"] *= x
        if m:
            c.stretch(m, x, x)
    elif kind == "split":
        for i, a in enumerate(airs):
            out, moves = [], []
            for n, w in enumerate(a["wings"]):
                j = rng.randint(1, len(w["secs"]) - 2)
                at = w["secs"][j]["le"]
                outer = dict(copy.deepcopy(w), le=[p + q for p, q in zip(w["le"], at)], name="outer")
                outer["secs"] = [dict(q, le=[u - v for u, v in zip(q["le"], at)]) for q in outer["secs"][j:]]
                out += [dict(copy.deepcopy(w), secs=copy.deepcopy(w["secs"][:j + 1])), outer]
                if m:
                    d = m["airs"][i]["wings"][n]
                    moves += [dict(copy.deepcopy(d), secs=d["secs"][:j + 1]), dict(copy.deepcopy(d), secs=d["secs"][j:])]
            a["wings"] = out
            if m:
                m["airs"][i]["wings"] = moves
    elif kind == "unfold":
        for a in airs:
            a["wings"] = [unfold_wing(w) for w in a["wings"]]
        if m:
            m["airs"] = [c.airmove(a) for a in airs]
    else:
        deg = rng.uniform(-40, 40)
        for a in airs:
            a["ref"] = turn_vec(a["ref"], deg)
            for w in a["wings"]:
                w["le"] = turn_vec(w["le"], deg)
                w["c"] = turn_vec(w["c"], deg)
                for q in w["secs"]:
                    q["le"] = turn_vec(q["le"], deg)
        opd["alpha"] += deg
    if m:
        for a, b in zip(m["airs"], airs):
            a["base"] = b
        m["opm"]["base"] = opd
    return airs, opd, m, x


# ------------------------------------------------------------------ solving and recording
def loads(airplanes):
    return [dict(tf=a.total_near_field_force_wind_axes, tm=a.total_near_field_moment_wind_axes,
                 cf=a.total_near_field_force_coefficients_wind_axes, cm=a.total_near_field_moment_coefficients_wind_axes)
            for a in airplanes]


def finals(prob):
    out = []
    d = r.finals_rec(prob)
    for k in sorted(d):
        kind = {"m": "mean", "r": "rms"}.get(k[0], "plain")
        out.append(dict(kind=kind, what=k.lstrip("mr"), vecs=d[k]))
    return out


def solve(method, airs, opd, m):
    if method in ("horseshoe", "ring"):
        prob = ps.problems.SteadyProblem(airplanes=[c.build_airplane(a) for a in airs], operating_point=c.build_op(opd))
        r.solve_steady(prob, method)
        return [loads(prob.airplanes)], []
    prob = ps.problems.UnsteadyProblem(movement=c.build_movement(m), only_final_results=False)
    r.solve_unsteady(prob, method == "prescribed", False)
    return [loads(sp.airplanes) for sp in prob.steady_problems], finals(prob)


def def_rec(airs, opd):
    return dict(op=dict(rho=opd["rho"], v=opd["v"], alpha=opd["alpha"], beta=opd["beta"]),
                airplanes=[dict(ref=a["ref"], s=a["s_ref"], b=a["b_ref"], wings=[
                    dict(le=w["le"], n=w["n"], sym=w["sym"], secs=[
                        dict(le=x["le"], n=x["n"], twist=x["twist"], cst=x["cst"], defl=x["defl"],
                             flat=x["af"].startswith("naca00")) for x in w["secs"]]) for w in a["wings"]]) for a in airs])


def scenario(g, k):
    def run(rec):
        rng = rng_for(args, f"sym/{k}")
        airs, opd = base(g["family"], rng)
        # the motion of a half wing starts at its inner end, which a reflection or unfolding moves
        still = (rng.random() < 0.3 or "unfold" in g["word"] or "turn" in g["word"]
                 or ("mirror" in g["word"] and any(not w["sym"] and w["n"][1] for a in airs for w in a["wings"])))
        rigid = "split" in g["word"] or g["family"] == "jointed" and "mirror" in g["word"]
        if rigid and "turn" not in g["word"]:
            still = False
        m = moving(airs, opd, rng, still, rigid) if g["method"] in ("prescribed", "free") else None
        steps, fin_ = solve(g["method"], airs, opd, m)
        rec.emit("Base", method=g["method"], steps=steps, finals=fin_, **{"def": def_rec(airs, opd)})
        for kind in g["word"]:
            airs, opd, m, x = apply(kind, airs, opd, m, rng)
            steps, fin_ = solve(g["method"], airs, opd, m)
            rec.emit("Image", t=dict(kind=kind, x=x), steps=steps, finals=fin_, **{"def": def_rec(airs, opd)})
    return run


rows = json.load(open(args.input))
run_scenarios([("-".join([g["family"], g["method"], *g["word"]]), scenario(g, k)) for k, g in enumerate(rows)], args)
