"""C01, C03: mesh wings and read back every panel and reference dimension."""
import math

import numpy as np
from common import parse_args, run_scenarios, rng_for
import configs as c

args = parse_args()
AXES = [[0.0, 0.0, 1.0], [0.0, 1.0, 0.0], [0.6, 0.0, 0.8]]


def panel_rec(p):
    return dict(fl=p.front_left_vertex, fr=p.front_right_vertex, bl=p.back_left_vertex, br=p.back_right_vertex,
                le=bool(p.is_leading_edge), te=bool(p.is_trailing_edge), left=bool(p.is_left_edge),
                right=bool(p.is_right_edge), i=p.local_chordwise_position, j=p.local_spanwise_position)


def metrics(p):
    return dict(rl=p.right_leg, fl=p.front_leg, ll=p.left_leg, bl=p.back_leg, frv=p.front_right_vortex_vertex,
                flv=p.front_left_vortex_vertex, cp=p.collocation_point, area=p.area, n=p.unit_normal,
                proj=[p.calculate_projected_area(np.array(a)) for a in AXES], us=p.unit_spanwise, uc=p.unit_chordwise,
                **{"as": p.average_span}, ac=p.average_chord)


def emit_wing(rec, d, w):
    rec.emit("Wing", w=c.wing_record(d), panels=[[panel_rec(p) for p in row] for row in w.panels],
             metrics=[[metrics(p) for p in row] for row in w.panels], axes=AXES, nspan=w.num_spanwise_panels,
             npanels=w.num_panels, span=w.span, parea=w.projected_area, warea=w.wetted_area,
             smc=w.standard_mean_chord if w.span > 1e-9 else None, mac=w.mean_aerodynamic_chord, up=w.unit_up_vector,
             secs=[dict(uc=s.unit_chordwise_vector, uu=s.unit_up_vector, te=s.trailing_edge)
                   for s in w.wing_cross_sections])


def emit_airplane(rec, d):
    a = c.build_airplane(d)
    for wd, w in zip(d["wings"], a.wings):
        emit_wing(rec, wd, w)
    m = a.wings[0]
    rec.emit("Airplane", wings=[c.wing_record(w) for w in d["wings"]], given_s=d["s_ref"], given_c=d["c_ref"],
             given_b=d["b_ref"], given_ref=d["ref"], given_name=d["name"], given_weight=d["weight"],
             given_wing_names=[w["name"] for w in d["wings"]], wing_names=[w.name for w in a.wings],
             s_ref=a.s_ref, c_ref=a.c_ref, b_ref=a.b_ref, npanels=a.num_panels, xyz=a.xyz_ref, name=a.name,
             weight=a.weight, main=dict(parea=m.projected_area, mac=m.mean_aerodynamic_chord, span=m.span))


def scn(d):
    return lambda rec: emit_airplane(rec, d)


def fixed():
    s, w, a = c.sec, c.wing, c.airplane
    out = []
    # every combination of spacing, symmetry, control surface kind; unequal sections
    for cs in ("cosine", "uniform"):
        for ss in ("cosine", "uniform"):
            for sym in (False, True):
                for cst in ("symmetric", "asymmetric"):
                    secs = [s(af="naca2412", cst=cst, defl=10.0, ns=3, ss=ss, chord=1.2),
                            s(af="naca0012", le=[0.3, 2.0, 0.2], cst="symmetric", defl=0.0, ns=2, ss="uniform",
                              chord=0.9, twist=3.0),
                            s(af="naca4415", le=[0.8, 3.5, 0.6], chord=0.5, twist=-4.0, ns=7, defl=30.0)]
                    out.append((f"combo-{cs}-{ss}-{sym}-{cst}", a([w(secs, cs=cs, sym=sym, nc=4, le=[0.5, 0.25, -0.3])])))
    # a large lattice
    many = [s(af="naca2412", ns=9, cst="asymmetric", defl=7.0), s(le=[0.1, 1.0, 0.1], ns=11, ss="uniform", twist=2.0),
            s(le=[0.3, 2.1, 0.1], ns=2, chord=0.8), s(le=[0.3, 2.6, 0.4], ns=1, chord=0.7, twist=1.0),
            s(le=[0.5, 3.0, 0.7], ns=3, chord=0.5), s(le=[0.6, 3.4, 0.8], chord=0.4)]
    out.append(("large", a([w(many, nc=13, sym=True), w([s(ns=1), s(le=[0, 1.0, 0.0])], nc=1, le=[3.0, 0, 0]),
                            w([s(ns=2), s(le=[0, 1.0, 0.0])], nc=2, le=[4.0, 0, 0], sym=True),
                            w([s(ns=1), s(le=[0, 1.0, 0.0])], nc=1, le=[5.0, 0, 0])])))
    secs = [s(af="naca2412", ns=3, ss="uniform", defl=3.0)] + [
        s(le=[0.1 * k, 0.6 * k, 0.02 * k * k], ns=(3, 4, 5, 2)[k % 4], ss=("cosine", "uniform")[k % 2], chord=1.0 - 0.1 * k,
          cst=("asymmetric", "symmetric")[k // 2 % 2], defl=2.0 * k - 7.0, twist=5.0 * (k % 4)) for k in range(1, 8)]
    out.append(("many-sections", a([w(secs, nc=11, cs="cosine", sym=True)])))
    for ss in ("cosine", "uniform"):      # very fine across the span, or along the chord
        out.append((f"fine-span-{ss}", a([w([s(ns=24, ss=ss), s(le=[0.1, 3.0, 0.1], ns=17, ss=ss, chord=0.8),
                                             s(le=[0.2, 5.0, 0.2], chord=0.5)], nc=2)])))
        out.append((f"fine-chord-{ss}", a([w([s(ns=2, af="naca2412", ss=ss), s(le=[0.1, 3.0, 0.1], chord=0.8)], nc=29, cs=ss)])))
    out.append(("many-wings", a([w([s(ns=1 + k % 3, twist=k), s(le=[0.1, 1.0 + 0.2 * k, 0.0], chord=0.7)], nc=1 + k % 2,
                                   le=[2.0 * k, 0.1 * k, 0.3 * k], sym=k % 3 == 1) for k in range(11)])))
    # one panel, one cell
    out.append(("single-cell", a([w([s(ns=1), s(le=[0, 1, 0], ns=1)], nc=1)])))
    out.append(("single-cell-sym", a([w([s(ns=1), s(le=[0, 1, 0], ns=1)], nc=1, sym=True)])))
    # vertical tail, and a mirrored pair about the horizontal plane
    out.append(("fin", a([w([s(n=[0, 0, 1.0], ns=2), s(n=[0, 0, 1.0], le=[0.4, 0, 1.3], chord=0.6)], n=[0, 0, 1.0],
                            nc=3)])))
    out.append(("fins-mirrored", a([w([s(n=[0, 0, 1.0], ns=2, defl=15.0, cst="asymmetric"),
                                       s(n=[0, 0, 1.0], le=[0.4, 0.1, 1.3], chord=0.6)], n=[0, 0, 1.0], sym=True, nc=3,
                                      le=[1.0, 0.2, 0.4])])))
    # canted sections, tip normal different from root
    g = math.radians(20)
    out.append(("canted", a([w([s(ns=2), s(n=[0, math.cos(g), math.sin(g)], le=[0, 1.5, 0.5], twist=5.0, ns=2),
                                s(n=[0, math.cos(2 * g), math.sin(2 * g)], le=[0.1, 2.5, 1.4], chord=0.4)], sym=True,
                               nc=2)])))
    # tilted chordwise direction; wing to the left; oblique symmetry plane
    out.append(("tilted-chord", a([w([s(ns=2, af="naca2412"), s(le=[0.2, 1.0, 0.1])], c=[0.8, 0.0, 0.6], sym=True)])))
    out.append(("left-wing", a([w([s(ns=2, n=[0, -1.0, 0]), s(le=[0.2, -1.0, 0.1], n=[0, -1.0, 0])], n=[0, -1.0, 0])])))
    q = math.sqrt(0.5)
    out.append(("oblique-plane", a([w([s(ns=2, n=[0, q, q]), s(n=[0, q, q], le=[0.2, 1.0, 1.2])], n=[0, q, q],
                                      sym=True, le=[0.1, 0.2, 0.3])])))
    # turned wings, mirrored about a plane across all axes
    for deg in ([0, 0, 25], [15, -10, -30], [-35, 20, 10]):
        t = w([s(ns=2, af="naca2412", defl=10.0, cst="asymmetric"), s(le=[0.2, 1.0, 0.1], n=[0, math.cos(g), math.sin(g)]),
               s(le=[0.5, 1.8, 0.4], chord=0.6)], sym=True, le=[0.1, 0.2, 0.3])
        c.turn_wing(t, deg)
        out.append((f"turned-{deg[0]}-{deg[2]}", a([t])))
    # antisymmetric control surfaces only on the outer section, flap inside
    out.append(("flap-aileron", a([w([s(ns=2, defl=12.0, hinge=0.6), s(le=[0, 1.0, 0], ns=2, cst="asymmetric", defl=-9.0,
                                      hinge=0.8), s(le=[0.1, 2.0, 0.1])], sym=True, nc=5, cs="cosine")])))
    out.append(("steep-flap", a([w([s(ns=1, defl=80.0, hinge=0.7), s(le=[0, 1.0, 0])], nc=6)])))
    # dimensions given one at a time
    base = [w([s(ns=1), s(le=[0, 1, 0], ns=1)], nc=1)]
    for k in ("s_ref", "c_ref", "b_ref"):
        out.append((f"given-{k}", a(base, **{k: 2.5}, ref=[1.0, 2.0, 3.0], weight=42.0)))
        out.append((f"zero-{k}", a(base, **{k: 0.0})))
    out.append(("given-all", a(base, s_ref=1, c_ref=2, b_ref=3)))
    return [(n, scn(d)) for n, d in out]


def random_ones(n):
    out = []
    for k in range(n):
        rng = rng_for(args, f"geom/{k}")
        air = c.rand_airplane(rng, nw=rng.choice([1, 2, 3]), max_nc=5, max_ns=4)
        c.resize([air], rng.choice([1, 1, 1, 0.01, 0.2, 5, 100]))
        out.append((f"random-{k}", scn(air)))
    return out


run_scenarios(fixed() + random_ones(120 if args.tier == "quick" else 700), args)
