"""Definitions of airplanes, flight conditions and motions used by the drivers.

A definition is a plain dictionary (logged for TLC); build_* turn it into objects of the
library through its public constructors.
"""
import copy
import math

import numpy as np

import pterasoftware as ps

_AIRFOILS = {}


def own_outline(t, m, r, k):
    """A section of one's own: k points a side on a camber line m x (1-x) (r + x)."""
    x = (1 - np.cos(np.linspace(0, np.pi, k))) / 2
    half = t * (1.4845 * np.sqrt(x) - 0.63 * x - 1.758 * x**2 + 1.4215 * x**3 - 0.518 * x**4)
    line = m * x * (1 - x) * (r + x)
    return np.vstack((np.column_stack((x, line + half))[::-1], np.column_stack((x, line - half))[1:]))


# sections given by their outlines: repanelled, or used as they are
OWN = {"my section": (dict(t=0.11, m=0.2, r=0.3, k=25), True), "as drawn": (dict(t=0.08, m=-0.1, r=0.8, k=21), False),
       "naca9999x": (dict(t=0.15, m=0.05, r=0.0, k=40), True)}


def airfoil(name, n=16):
    key = (name, n)
    if key not in _AIRFOILS:
        if name in OWN:
            _AIRFOILS[key] = ps.geometry.Airfoil(name=name, coordinates=own_outline(**OWN[name][0]), repanel=OWN[name][1],
                                                 n_points_per_side=n)
        else:
            _AIRFOILS[key] = ps.geometry.Airfoil(name=name, n_points_per_side=n)
    return _AIRFOILS[key]


SEC = dict(af="naca0012", afn=16, le=[0.0, 0.0, 0.0], chord=1.0, n=[0.0, 1.0, 0.0], twist=0.0, cst="symmetric",
           hinge=0.75, defl=0.0, ns=2, ss="uniform")
WING = dict(name="wing", le=[0.0, 0.0, 0.0], n=[0.0, 1.0, 0.0], c=[1.0, 0.0, 0.0], sym=False, nc=2, cs="uniform")
AIRPLANE = dict(name="airplane", ref=[0.0, 0.0, 0.0], weight=0.0, s_ref=None, c_ref=None, b_ref=None)
OP = dict(rho=1.225, beta=0.0, v=10.0, alpha=5.0, nu=15.06e-6, thrust=0.0)


def sec(**kw):
    d = copy.deepcopy(SEC)
    d.update(copy.deepcopy(kw))
    return d


def wing(secs, **kw):
    d = copy.deepcopy(WING)
    d.update(copy.deepcopy(kw))
    d["secs"] = secs
    return d


def airplane(wings, **kw):
    d = copy.deepcopy(AIRPLANE)
    d.update(copy.deepcopy(kw))
    d["wings"] = wings
    return d


def op(**kw):
    return dict(OP, **kw)


def build_sec(d):
    return ps.geometry.WingCrossSection(
        airfoil=airfoil(d["af"], d["afn"]), x_le=d["le"][0], y_le=d["le"][1], z_le=d["le"][2], chord=d["chord"],
        unit_normal_vector=np.array(d["n"], dtype=float), twist=d["twist"], control_surface_type=d["cst"],
        control_surface_hinge_point=d["hinge"], control_surface_deflection=d["defl"],
        num_spanwise_panels=d["ns"], spanwise_spacing=d["ss"])


def build_wing(d):
    return ps.geometry.Wing(
        wing_cross_sections=[build_sec(s) for s in d["secs"]], name=d["name"], x_le=d["le"][0], y_le=d["le"][1],
        z_le=d["le"][2], unit_normal_vector=np.array(d["n"], dtype=float), symmetric=d["sym"],
        unit_chordwise_vector=np.array(d["c"], dtype=float), num_chordwise_panels=d["nc"],
        chordwise_spacing=d["cs"])


def build_airplane(d):
    kw = {k: d[k] for k in ("s_ref", "c_ref", "b_ref") if d[k] is not None}
    return ps.geometry.Airplane(wings=[build_wing(w) for w in d["wings"]], name=d["name"], x_ref=d["ref"][0],
                                y_ref=d["ref"][1], z_ref=d["ref"][2], weight=d["weight"], **kw)


def build_op(d):
    return ps.operating_point.OperatingPoint(density=d["rho"], beta=d["beta"], velocity=d["v"], alpha=d["alpha"],
                                             nu=d["nu"], external_thrust=d["thrust"])


def wing_record(d):
    """The definition of a wing as the specification reads it."""
    return dict(le=d["le"], n=d["n"], c=d["c"], sym=d["sym"], nc=d["nc"], cs=d["cs"], name=d["name"],
                secs=[dict(le=s["le"], chord=s["chord"], n=s["n"], twist=s["twist"], cst=s["cst"], hinge=s["hinge"],
                           defl=s["defl"], ns=s["ns"], ss=s["ss"], mcl=airfoil(s["af"], s["afn"]).mcl_coordinates)
                      for s in d["secs"]])


# --------------------------------------------------------------------------- generators
NAMES = ["naca0012", "naca2412", "naca4415", "naca0009", "clarky", "e63"] + list(OWN)


def rand_wing(rng, name="wing", sym=None, nsec=None, max_nc=3, max_ns=3, canted=None, rootz=None, flaps=True,
              straight=False, spacing=None, turned=None):
    """A valid wing. canted: cross sections with their own plane; rootz: symmetry plane normal along z."""
    sym = rng.random() < 0.5 if sym is None else sym
    nsec = rng.choice([2, 2, 3, 4]) if nsec is None else nsec
    rootz = rng.random() < 0.15 if rootz is None else rootz
    canted = rng.random() < 0.3 if canted is None else canted
    n = [0.0, 0.0, 1.0] if rootz else [0.0, 1.0, 0.0]
    c = [1.0, 0.0, 0.0]
    if not canted and not straight and rng.random() < 0.3:
        if rootz:
            c = rng.choice([[0.8, 0.6, 0.0], [1.0, 0.0, 0.0]])
        else:
            c = rng.choice([[0.8, 0.0, 0.6], [0.96, 0.0, -0.28]])
    secs = []
    pos = np.zeros(3)
    for k in range(nsec):
        s = sec(af=rng.choice(NAMES), chord=rng.uniform(0.4, 1.6), twist=rng.choice([0.0, 0.0, rng.uniform(-8, 8)]),
                n=list(n), cst=rng.choice(["symmetric", "asymmetric"]), hinge=rng.uniform(0.55, 0.8) if rng.random() < 0.8 else rng.uniform(0.25, 0.95),
                defl=rng.choice([0.0, rng.uniform(-20, 20)]) if flaps else 0.0, ns=rng.randint(1, max_ns),
                ss=rng.choice(["cosine", "uniform"]) if spacing is None else spacing)
        if k > 0:
            out, up = rng.uniform(0.5, 2.0), rng.uniform(-0.4, 0.6)
            if straight:
                up = 0.0
            step = np.array([rng.uniform(-0.2, 0.8), 0.0, 0.0])
            step += np.array(n) * out + np.cross(c, n) * up
            pos = pos + step
            s["le"] = [float(x) for x in pos]
            if canted:
                g = math.radians(rng.uniform(-25, 25))
                s["n"] = [0.0, -math.sin(g), math.cos(g)] if rootz else [0.0, math.cos(g), math.sin(g)]
        secs.append(s)
    w = wing(secs, name=name, le=[rng.uniform(-0.5, 0.5) for _ in range(3)], n=n, c=c, sym=sym,
             nc=rng.randint(1, max_nc), cs=rng.choice(["cosine", "uniform"]) if spacing is None else spacing)
    if turned or (turned is None and not straight and rng.random() < 0.25):
        turn_wing(w, [rng.uniform(-20, 20), rng.uniform(-12, 12), rng.choice([0.0, rng.uniform(-20, 20)])])
    return w


def turn_wing(w, deg):
    """Turn a wing about its own leading edge: roll, pitch and yaw."""
    a, b, g = (math.radians(x) for x in deg)
    rx = np.array([[1, 0, 0], [0, math.cos(a), -math.sin(a)], [0, math.sin(a), math.cos(a)]])
    ry = np.array([[math.cos(b), 0, math.sin(b)], [0, 1, 0], [-math.sin(b), 0, math.cos(b)]])
    rz = np.array([[math.cos(g), -math.sin(g), 0], [math.sin(g), math.cos(g), 0], [0, 0, 1]])
    m = rz @ ry @ rx

    def turn(v):
        return [float(x) for x in m @ np.array(v, dtype=float)]

    w["n"], w["c"] = turn(w["n"]), turn(w["c"])
    for k, s in enumerate(w["secs"]):
        s["n"] = list(w["n"]) if k == 0 else turn(s["n"])
        s["le"] = turn(s["le"]) if k > 0 else s["le"]


def rand_airplane(rng, name="airplane", nw=None, offset=(0.0, 0.0, 0.0), **kw):
    nw = rng.choice([1, 1, 2]) if nw is None else nw
    wings = []
    for k in range(nw):
        w = rand_wing(rng, name=f"{name}-wing{k}", **kw)
        w["le"] = [w["le"][0] + 3.0 * k + offset[0], w["le"][1] + offset[1], w["le"][2] + 0.7 * k + offset[2]]
        wings.append(w)
    return airplane(wings, name=name, ref=[rng.uniform(-1, 1) + offset[i] for i in range(3)],
                    weight=rng.choice([0.0, rng.uniform(1, 500)]),
                    s_ref=rng.choice([None, None, rng.uniform(1, 5)]), c_ref=rng.choice([None, None, rng.uniform(0.5, 2)]),
                    b_ref=rng.choice([None, None, rng.uniform(2, 6)]))


def rand_op(rng, **kw):
    d = op(rho=rng.uniform(0.4, 1.4), beta=rng.choice([0.0, rng.uniform(-8, 8)]), v=rng.uniform(5, 30),
           alpha=rng.uniform(-6, 12), nu=rng.choice([15.06e-6, rng.uniform(1e-5, 1e-3)]),
           thrust=rng.choice([0.0, rng.uniform(1, 20)]))
    if rng.random() < 0.1:                   # flying sideways or backwards
        d.update(alpha=rng.uniform(-175, 175), beta=rng.uniform(-175, 175))
    d.update(kw)
    return d


# --------------------------------------------------------------------------- motions
# A motion of a quantity is [amplitude, period, spacing, waveform]; the waveform names a
# custom function known to the specification (Motion.tla), "none" unless spacing is "custom".
STILL = [0.0, 0.0, "sine", "none"]
WAVEFORMS = {
    "skewed": lambda x: np.sin(x) + 0.5 * np.sin(2 * x),
    "cubed": lambda x: np.sin(x) ** 3,
    "gain2": lambda x: 2.0 * np.sin(x),
    "drift": lambda x: 0.1 * x,
}


def osc(amp, period, spacing="sine", wave="none"):
    return [amp, period, spacing, wave]


def secmove(**kw):
    d = dict(sweep=list(STILL), pitch=list(STILL), heave=list(STILL))
    d.update(kw)
    return d


def wingmove(secs, **kw):
    d = dict(x=list(STILL), y=list(STILL), z=list(STILL), secs=secs)
    d.update(kw)
    return d


def airmove(adef, wings=None, **kw):
    d = dict(base=adef, x=list(STILL), y=list(STILL), z=list(STILL),
             wings=wings or [wingmove([secmove() for _ in w["secs"]]) for w in adef["wings"]])
    d.update(kw)
    return d


def opmove(opdef, v=None):
    return dict(base=opdef, v=v or list(STILL))


def movement(airs, opm, **kw):
    d = dict(airs=airs, opm=opm, dt=None, num_steps=None, num_cycles=None, num_chords=None)
    d.update(kw)
    return d


def _motion_kw(prefix, m, custom=None):
    kw = {f"{prefix}_amplitude": m[0], f"{prefix}_period": m[1], f"{prefix}_spacing": m[2]}
    if custom and m[3] != "none":
        kw[custom] = WAVEFORMS[m[3]]
    return kw


def build_secmove(d, base):
    kw = {}
    kw.update(_motion_kw("sweeping", d["sweep"], "custom_sweep_function"))
    kw.update(_motion_kw("pitching", d["pitch"], "custom_pitch_function"))
    kw.update(_motion_kw("heaving", d["heave"], "custom_heave_function"))
    return ps.movement.WingCrossSectionMovement(base_wing_cross_section=base, **kw)


def build_wingmove(d, base):
    kw = {}
    for ax in "xyz":
        kw.update(_motion_kw(f"{ax}_le", d[ax]))
    return ps.movement.WingMovement(
        base_wing=base,
        wing_cross_sections_movements=[build_secmove(s, b) for s, b in zip(d["secs"], base.wing_cross_sections)], **kw)


def build_airmove(d, base=None):
    base = base or build_airplane(d["base"])
    kw = {}
    for ax in "xyz":
        kw.update(_motion_kw(f"{ax}_ref", d[ax]))
    return ps.movement.AirplaneMovement(
        base_airplane=base, wing_movements=[build_wingmove(w, b) for w, b in zip(d["wings"], base.wings)], **kw)


def build_opmove(d, base=None):
    return ps.movement.OperatingPointMovement(base_operating_point=base or build_op(d["base"]),
                                              **_motion_kw("velocity", d["v"]))


def build_movement(d):
    kw = {}
    if d["dt"] is not None:
        kw["delta_time"] = d["dt"]
    for k in ("num_steps", "num_cycles", "num_chords"):
        if d[k] is not None:
            kw[k] = d[k]
    return ps.movement.Movement(airplane_movements=[build_airmove(a) for a in d["airs"]],
                                operating_point_movement=build_opmove(d["opm"]), **kw)


def periods(d):
    """Every period that appears in a movement definition."""
    out = [d["opm"]["v"][1]]
    for a in d["airs"]:
        out += [a[ax][1] for ax in "xyz"]
        for w in a["wings"]:
            out += [w[ax][1] for ax in "xyz"]
            for s in w["secs"]:
                out += [s[q][1] for q in ("sweep", "pitch", "heave")]
    return out


def rand_osc(rng, amp, p=0.5, wave=False, periods_=(0.4, 0.5, 0.7, 1.0)):
    if rng.random() > p:
        return list(STILL)
    amp *= rng.choice([1, 1, -1])
    if wave and rng.random() < 0.3:
        return osc(rng.uniform(0.3, 1) * amp, rng.choice(periods_), "custom", rng.choice(sorted(WAVEFORMS)))
    return osc(rng.uniform(0.2, 1) * amp, rng.choice(periods_), rng.choice(["sine", "uniform"]))


def rand_motion(rng, adef, p=0.4, scale=1.0):
    wings = []
    for w in adef["wings"]:
        secs = []
        for k, s in enumerate(w["secs"]):
            secs.append(secmove(sweep=list(STILL) if k == 0 else rand_osc(rng, 12 * scale, p, True),
                                pitch=rand_osc(rng, 8 * scale, p, True),
                                heave=list(STILL) if k == 0 else rand_osc(rng, 8 * scale, p, True)))
        wings.append(wingmove(secs, **{ax: rand_osc(rng, 0.15 * scale, p) for ax in "xyz"}))
    return airmove(adef, wings, **{ax: rand_osc(rng, 0.2 * scale, p * 0.7) for ax in "xyz"})


def resize(airs, x):
    """Scale airplanes about the origin."""
    for a in airs:
        a["ref"] = [p * x for p in a["ref"]]
        for key, power in (("s_ref", 2), ("c_ref", 1), ("b_ref", 1)):
            if a.get(key) is not None:
                a[key] *= x ** power
        for w in a["wings"]:
            w["le"] = [p * x for p in w["le"]]
            for q in w["secs"]:
                q["le"] = [p * x for p in q["le"]]
                q["chord"] *= x


def stretch(m, length, time):
    """Scale the lengths and times of a movement."""
    if m["dt"] is not None:
        m["dt"] *= time
    m["opm"]["v"][1] *= time
    for a in m["airs"]:
        for ax in "xyz":
            a[ax][0] *= length
            a[ax][1] *= time
        for w in a["wings"]:
            for ax in "xyz":
                w[ax][0] *= length
                w[ax][1] *= time
            for q in w["secs"]:
                for name in ("sweep", "pitch", "heave"):
                    q[name][1] *= time
