"""C08: evaluate the induced-velocity functions and vortex classes on generated inputs."""
import numpy as np
from common import parse_args, run_scenarios, rng_for
from pterasoftware import aerodynamics as ae

args = parse_args()
RING = ("br", "fr", "fl", "bl")
VNAMES = dict(br="back_right_vortex_vertices", fr="front_right_vortex_vertices",
              fl="front_left_vortex_vertices", bl="back_left_vortex_vertices")


def call(fn, kind, pts, verts, g, ages, nu):
    if kind == "line":
        kw = dict(origins=verts["origins"], terminations=verts["terminations"])
    else:
        kw = {VNAMES[k]: verts[k] for k in RING}
    kw = dict(points=pts, strengths=g, **kw)
    if ages is not None:
        kw["ages"] = ages
    if nu is not None:
        kw["nu"] = nu
    try:
        return fn(**kw)
    except Exception as e:  # compiled code leaves no frame of its own
        e.from_code = True
        raise


FN = {
    "line": (ae.collapsed_velocities_from_line_vortices, ae.expanded_velocities_from_line_vortices),
    "ring": (ae.collapsed_velocities_from_ring_vortices, ae.expanded_velocities_from_ring_vortices),
    "horseshoe": (ae.collapsed_velocities_from_horseshoe_vortices, ae.expanded_velocities_from_horseshoe_vortices),
    "chordwise": (ae.collapsed_velocities_from_ring_vortices_chordwise_segments, None),
}


def emit_vel(rec, kind, pts, verts, g, ages, nu):
    ins = [pts.copy(), g.copy(), None if ages is None else ages.copy()] + [v.copy() for v in verts.values()]
    col, exp = FN[kind]
    c = call(col, kind, pts, verts, g, ages, nu)
    x = call(exp, kind, pts, verts, g, ages, nu) if exp else None
    now = [pts, g, ages] + list(verts.values())
    same = all((a is None and b is None) or np.array_equal(a, b) for a, b in zip(ins, now))
    rec.emit("Vel", kind=kind, points=pts, strengths=g, ages=ages,
             nu=0.0 if nu is None else nu, collapsed=c, expanded=x, inputs_same=same, **verts)


def gen(rng, kind, npts, nvort, mode):
    def vec(s=2.0):
        return [rng.uniform(-s, s) for _ in range(3)]

    scale = {"far": 300.0, "tiny": 0.02}.get(mode, 2.0)
    g = np.array([rng.choice([1.0, -1.0]) * rng.uniform(0.01, 5) for _ in range(nvort)])
    if mode == "zerostrength":
        g[::2] = 0.0
    if mode == "weak":  # circulations of wildly different size, down to vanishing ones
        g = np.array([rng.choice([1.0, -1.0]) * 10 ** rng.uniform(-11, 1) for _ in range(nvort)])
    if kind == "line":
        o = np.array([vec(scale) for _ in range(nvort)]).reshape(nvort, 3)
        t = np.array([vec(scale) for _ in range(nvort)]).reshape(nvort, 3)
        if mode == "degenerate":
            t[0] = o[0]
        verts = dict(origins=o, terminations=t)
        segs = [(o[i], t[i]) for i in range(nvort)]
    else:
        verts = {k: np.zeros((nvort, 3)) for k in RING}
        for i in range(nvort):
            c = np.array(vec(scale))
            e1, e2 = np.array(vec(scale / 3)), np.array(vec(scale / 3))
            j = lambda: np.array(vec(scale / 20))
            verts["fl"][i], verts["fr"][i] = c - e1 + e2 + j(), c - e1 - e2 + j()
            verts["bl"][i], verts["br"][i] = c + e1 + e2 + j(), c + e1 - e2 + j()
            if kind == "horseshoe":
                d = np.array([rng.uniform(0.5, 1), rng.uniform(-0.2, 0.2), rng.uniform(-0.2, 0.2)])
                L = rng.choice([5.0, 40.0, 200.0])
                verts["bl"][i], verts["br"][i] = verts["fl"][i] + d * L, verts["fr"][i] + d * L
            if mode == "degenerate" and i == 0:
                verts["bl"][i] = verts["br"][i].copy()
        segs = []
        for i in range(nvort):
            segs += [(verts["br"][i], verts["fr"][i]), (verts["fr"][i], verts["fl"][i]),
                     (verts["fl"][i], verts["bl"][i]), (verts["bl"][i], verts["br"][i])]
    pts = []
    for k in range(npts):
        kind_pt = k % 6 if mode in ("axis", "degenerate", "axisaged") else 5
        a, b = segs[rng.randrange(len(segs))] if segs else (np.zeros(3), np.ones(3))
        if kind_pt == 0:
            pts.append(a.copy())
        elif kind_pt == 1:
            pts.append(b.copy())
        elif kind_pt == 2:
            pts.append((a + b) / 2)
        elif kind_pt == 3:
            pts.append(a + 1.5 * (b - a))
        elif kind_pt == 4:
            pts.append(a - 0.25 * (b - a))
        elif mode in ("young", "grazing"):  # just off a leg, where the core (if any) decides
            u = (b - a) / max(np.linalg.norm(b - a), 1e-9)
            n = np.cross(u, np.array(vec()))
            n /= np.linalg.norm(n)
            pts.append(a + rng.uniform(0.1, 0.9) * (b - a) + 10 ** rng.uniform(-4, -2) * n)
        elif mode == "remote":
            d = np.array(vec())
            pts.append(d / np.linalg.norm(d) * 10 ** rng.uniform(2, 4.5))
        else:
            pts.append(np.array(vec(scale)))
    pts = np.array(pts, dtype=float).reshape(npts, 3)
    ages, nu = None, None
    if mode in ("aged", "axisaged", "agednonu"):
        ages = np.array([rng.choice([0.0, 1e-4, 0.01, 0.2, 1.0, 10.0]) for _ in range(nvort)])
        nu = None if mode == "agednonu" else rng.choice([15.06e-6, 1e-3, 0.0, 0.5])
    if mode == "young":
        ages = np.array([10 ** rng.uniform(-9, -4) for _ in range(nvort)])
        nu = 10 ** rng.uniform(-5, 0)
    if mode == "old":
        ages = np.array([10 ** rng.uniform(1, 4) for _ in range(nvort)])
        nu = 10 ** rng.uniform(-6, 2)
    if mode == "nuonly":
        nu = 1e-3
    return pts, verts, g, ages, nu


MODES = ["plain", "axis", "degenerate", "aged", "agednonu", "axisaged", "far", "tiny", "zerostrength", "nuonly",
         "weak", "young", "grazing", "remote", "old", "manypoints", "manyvortices"]
REPS = 4 if args.tier == "quick" else 30


def vel_scn(kind, mode, rep):
    def f(rec):
        rng = rng_for(args, f"{kind}/{mode}/{rep}")
        npts, nv = rng.randint(1, 7), rng.randint(1, 6)
        if mode in ("axis", "axisaged", "degenerate"):
            npts = 12
        if mode == "manypoints":  # more points than any small lattice has
            npts, nv = rng.randint(450, 700), rng.randint(1, 2)
        if mode == "manyvortices":
            npts, nv = rng.randint(1, 2), rng.randint(300, 600)
            if rep:
                npts, nv = rng.randint(5, 40), rng.randint(5, 40)
        if mode == "manypoints" and rep:
            npts, nv = rng.randint(20, 120), rng.randint(1, 5)
        pts, verts, g, ages, nu = gen(rng, kind, npts, nv, mode)
        emit_vel(rec, kind, pts, verts, g, ages, nu)
        # the same question asked in another grouping / order
        perm = list(range(nv))
        rng.shuffle(perm)
        emit_vel(rec, kind, pts[::-1].copy(), {k: v[perm].copy() for k, v in verts.items()}, g[perm].copy(),
                 None if ages is None else ages[perm].copy(), nu)
        half = max(1, nv // 2)
        for s in (slice(0, half), slice(half, nv)):
            emit_vel(rec, kind, pts[:1].copy(), {k: v[s].copy() for k, v in verts.items()}, g[s].copy(),
                     None if ages is None else ages[s].copy(), nu)
        # strength scaled
        emit_vel(rec, kind, pts, verts, g * -3.5, ages, nu)
    return f


def special(kind):
    def f(rec):
        # integer lattice: axis-aligned segments, points on and off the axes
        o = [[0, 0, 0], [1, 0, 0], [1, 1, 0], [0, 1, 0]]
        pts = np.array([[x, y, z] for x in (0.0, 0.5, 1.0, 2.0) for y in (0.0, 1.0) for z in (0.0, 0.5)])
        if kind == "line":
            verts = dict(origins=np.array(o, float), terminations=np.array(o[1:] + o[:1], float))
            g = np.array([1.0, 2.0, -1.0, 0.5])
        else:
            verts = dict(fl=np.array([[0, 0, 0], [0, 1, 0]], float), fr=np.array([[0, 1, 0], [0, 2, 0]], float),
                         bl=np.array([[1, 0, 0], [1, 1, 0]], float), br=np.array([[1, 1, 0], [1, 2, 0]], float))
            g = np.array([1.0, 2.0])
        emit_vel(rec, kind, pts, verts, g, None, None)
        emit_vel(rec, kind, pts, verts, g, np.full(len(g), 0.3), 1e-2)
        # points at the ends of long segments (collinear with cancellation)
        if kind == "line":
            d = np.array([0.98, 0.1, 0.17])
            verts = dict(origins=np.array([[0.1, 0.2, 0.3]]), terminations=np.array([[0.1, 0.2, 0.3]]) + 200 * d)
            pts = np.array([verts["origins"][0] + t * d for t in (-1, 0, 1e-3, 1, 100, 200, 300)])
            emit_vel(rec, kind, pts, verts, np.array([1.0]), None, None)
            emit_vel(rec, kind, pts, verts, np.array([1.0]), np.array([0.5]), 1e-5)
        # nothing induces nothing
        empty = {k: np.zeros((0, 3)) for k in verts}
        emit_vel(rec, kind, pts, empty, np.zeros(0), None, None)
        emit_vel(rec, kind, pts, empty, np.zeros(0), np.zeros(0), 1e-5)
    return f


def line_fields(v):
    return dict(origin=v.origin, termination=v.termination, strength=v.strength, vector=v.vector, center=v.center)


def emit_ring(rec, v, c, g):
    rec.emit("Ring", fl=c[0], fr=c[1], bl=c[2], br=c[3], g=g, strength=v.strength, center=v.center,
             ofl=v.front_left_vertex, ofr=v.front_right_vertex, obl=v.back_left_vertex, obr=v.back_right_vertex,
             right=line_fields(v.right_leg), front=line_fields(v.front_leg), left=line_fields(v.left_leg),
             back=line_fields(v.back_leg))


def objects(rep):
    def f(rec):
        rng = rng_for(args, f"obj/{rep}")
        vec = lambda: np.array([rng.uniform(-2, 2) for _ in range(3)])
        c = [vec() for _ in range(4)]
        g = rng.uniform(-3, 3)
        mk = lambda c, g: ae.RingVortex(front_left_vertex=c[0], front_right_vertex=c[1], back_left_vertex=c[2],
                                        back_right_vertex=c[3], strength=g)
        v = mk([x.copy() for x in c], g)
        emit_ring(rec, v, c, g)
        g = rng.uniform(-3, 3)
        v.update_strength(g)
        emit_ring(rec, v, c, g)
        c = [vec() for _ in range(4)]
        v.update_position(front_left_vertex=c[0], front_right_vertex=c[1], back_left_vertex=c[2],
                          back_right_vertex=c[3])
        emit_ring(rec, v, c, g)
        g = 0.0
        v.update_strength(g)
        emit_ring(rec, v, c, g)
        a, b, d = vec(), vec(), vec()
        d /= np.linalg.norm(d)
        L = rng.uniform(1, 50)
        for L, g in ((L, g), (20.0, 1.5)):
            h = ae.HorseshoeVortex(finite_leg_origin=a, finite_leg_termination=b, strength=g,
                                   infinite_leg_direction=d, infinite_leg_length=L)
            for k, g2 in enumerate((g, -2.25, 0.0)):
                if k:
                    h.update_strength(g2)
                rec.emit("Horseshoe", fr=a, fl=b, g=g2, dir=d, len=L, strength=h.strength,
                         right=line_fields(h.right_leg), finite=line_fields(h.finite_leg), left=line_fields(h.left_leg))
    return f


scn = []
for kind in ("line", "ring", "horseshoe", "chordwise"):
    scn.append((f"special-{kind}", special(kind)))
    for mode in MODES:
        for rep in range(REPS):
            scn.append((f"{kind}-{mode}-{rep}", vel_scn(kind, mode, rep)))
for rep in range(10 if args.tier == "quick" else 50):
    scn.append((f"objects-{rep}", objects(rep)))
run_scenarios(scn, args)
