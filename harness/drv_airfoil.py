"""C02: airfoils by NACA digits, library name and given coordinates; resampling; camber; flaps."""
import glob
import os
import re
import warnings

import numpy as np
from common import parse_args, run_scenarios, rng_for
import pterasoftware as ps

warnings.simplefilter("ignore")
args = parse_args()
AF = ps.geometry.Airfoil
LIB = os.path.join(os.path.dirname(ps.__file__), "airfoils")


def state(a, rng=None, sample=True):
    d = dict(coords=a.coordinates, mcl=a.mcl_coordinates, umm=a.upper_minus_mcl, thick=a.thickness,
             upper=a.upper_coordinates(), lower=a.lower_coordinates())
    if sample:
        fr = [0.0, 0.1, 0.25, 1 / 3, 0.5, 0.8125, 0.999, 1.0]
        st = [0.0, 0.05, 0.3, 0.5, 0.75, 0.97, 1.0]
        if rng:
            fr = sorted(fr + [rng.random() for _ in range(3)])
            st = st + [rng.random() for _ in range(3)]
        d.update(fractions=fr, sampled=a.get_downsampled_mcl(np.array(fr)), stations=st,
                 cambers=[float(a.get_camber_at_chord_fraction(s)) for s in st])
    return d


def raw_of(name, n):
    a = AF(name=name, n_points_per_side=n)
    a.populate_coordinates()
    return a.coordinates


def naca(d1, d2, tt, n, style="naca"):
    def f(rec):
        name = {"naca": "naca", "upper": "  NACA", "mixed": "Naca"}[style] + f"{d1}{d2}{tt:02d}" + " " * (style == "upper")
        a = AF(name=name, n_points_per_side=n)
        rec.emit("Naca", d1=d1, d2=d2, tt=tt, n=n, raw=raw_of(name, n), a=state(a, rng_for(args, name)))
    return f


def read_table(path):
    """The tabulated points of a library file: every number after the title line."""
    with open(path, encoding="latin-1") as fh:
        text = fh.read()
    body = text[text.find("\n"):]
    vals = []
    for tok in body.split():
        try:
            vals.append(float(tok))
        except ValueError:
            return None
    if len(vals) % 2:
        return None
    return np.array(vals).reshape(-1, 2)


def library(name, path, n):
    def f(rec):
        table = read_table(path)
        try:
            a = AF(name=name, n_points_per_side=n)
            ok = True
        except Exception:
            ok = False
        rec.emit("Accept", what="library-name", accepted=ok)
        if ok and table is not None:
            rec.emit("Table", raw=raw_of(name, n), table=table, n=n, a=state(a, sample=False))
    return f


def given(rep):
    def f(rec):
        rng = rng_for(args, f"given{rep}")
        n = rng.randint(6, 12)
        xs = np.sort(np.array([0.0, 1.0] + [rng.uniform(0.02, 0.98) for _ in range(n)]))
        t = lambda x: 0.3 * np.sqrt(x) * (1 - x) + 0.002 * x
        cam = rng.uniform(-0.05, 0.08)
        up = np.column_stack((xs, cam * np.sin(np.pi * xs) + t(xs)))
        lo = np.column_stack((xs, cam * np.sin(np.pi * xs) - t(xs)))
        up[0] = lo[0] = [0.0, 0.0]
        co = np.vstack((np.flipud(up), lo[1:]))
        for rp in (False, True):
            m = rng.choice([5, 20])
            before = co.copy()
            a = AF(name="mine", coordinates=co, repanel=rp, n_points_per_side=m)
            rec.emit("Given", repanel=rp, n=m, table=before, a=state(a, rng))
            flap(rec, a, rng.uniform(-40, 40), rng.uniform(0.3, 0.85))
    return f


def flap(rec, a, defl, hinge):
    before = state(a, sample=False)
    keep = {k: np.array(v, copy=True) for k, v in before.items()}
    b = a.add_control_surface(deflection=defl, hinge_point=hinge)
    now = state(a, sample=False)
    same = all(np.array_equal(keep[k], now[k]) for k in keep)
    rec.emit("Flap", defl=defl, hinge=hinge, before=keep, after=state(b), untouched=same)
    return b


def flaps(name, n, rep):
    def f(rec):
        rng = rng_for(args, f"flap{name}{rep}")
        a = AF(name=name, n_points_per_side=n)
        for defl, hinge in ((0.0, 0.75), (10.0, 0.75), (-10.0, 0.6), (90.0, 0.7), (-90.0, 0.7),
                            (rng.uniform(-89, 89), rng.uniform(0.3, 0.9)), (rng.uniform(-30, 30), rng.uniform(0.1, 0.9)),
                            (45.0, 0.95), (-60.0, 0.5), (25.0, rng.choice([0.03, 0.08, 0.13])), (-15.0, 0.99)):
            b = flap(rec, a, defl, hinge)
        flap(rec, b, 5.0, 0.3)   # a control surface on an already flapped section
        if rep == 0:
            b = a.add_control_surface()
            rec.emit("Flap", defl=0.0, hinge=0.75, before=state(a, sample=False), after=state(b), untouched=True)
    return f


def rejects(rec):
    a = AF(name="naca0012", n_points_per_side=10)
    for d in (90.0001, -90.0001, 91, -91, 180.0, -180.0, 270.0, 1000.0, -1000.0):
        for src in (a, AF(name="naca4415", n_points_per_side=12)):
            try:
                src.add_control_surface(deflection=d, hinge_point=0.6)
                r = False
            except Exception:
                r = True
            rec.emit("Reject", what="deflection", raised=r)
    names = ["", "notanairfoil", "naca", "naca123", "naca24x2", "naca12345", "naca123456", "nacaabcd", "n0012", "2412", "naca-0012",
             "naca2412b", "untitled airfoil", "naca 2412 extra", "Untitled Airfoil", "e6333", "clark y2"]
    lib = {os.path.basename(p)[:-4].lower() for p in glob.glob(LIB + "/*.dat")}
    for nm in names:
        if nm.lower().strip() in lib:
            continue
        for rp in (True, False):
            try:
                AF(name=nm, repanel=rp)
                r = False
            except Exception:
                r = True
            rec.emit("Reject", what="name", raised=r)
    try:
        AF()
        r = False
    except Exception:
        r = True
    rec.emit("Reject", what="name", raised=r)


def unrepaneled(name):
    def f(rec):
        try:
            a = AF(name=name, repanel=False)
            ok = True
        except Exception:
            ok = False
        rec.emit("Accept", what="unresampled", accepted=ok)
        if ok:
            rec.emit("Given", repanel=False, n=1, table=a.coordinates, a=state(a))
    return f


scn = [("rejects", rejects), ("unresampled-naca0012", unrepaneled("naca0012")),
       ("unresampled-naca2412", unrepaneled("naca2412"))]


def all_naca(rec):
    """Every four-digit name is accepted."""
    for k in range(10000):
        name = f"naca{k:04d}"
        rec.scenario = name
        try:
            AF(name=name, n_points_per_side=5)
            ok = True
        except Exception:
            ok = False
        rec.emit("Accept", what="four-digit-name", accepted=ok)


scn.append(("all-naca", all_naca))
rng = rng_for(args, "naca")
fixed = [(0, 0, 12), (2, 4, 12), (4, 4, 15), (0, 0, 1), (9, 9, 40), (6, 1, 8), (1, 9, 30), (0, 5, 10), (5, 0, 10), (0, 0, 0),
         (2, 4, 0), (8, 3, 21)]
for k, (a, b, t) in enumerate(fixed + [(rng.randint(0, 9), rng.choice([0, 3, 4, 5, 6, 7, 8]), rng.randint(1, 40))
                                       for _ in range(24 if args.tier == "quick" else 120)]):
    scn.append((f"naca-{k}-{a}{b}{t:02d}", naca(a, b, t, [10, 20, 33, 400][k % 4] if k < 8 else rng.randint(3, 40),
                                                ["naca", "upper", "mixed"][k % 3])))
for rep in range(8 if args.tier == "quick" else 40):
    scn.append((f"given-{rep}", given(rep)))
for k, nm in enumerate(["naca0012", "naca2412", "naca6409", "clarky", "e63", "s1223", "ag35"]):
    for rep in range(1 if args.tier == "quick" else 8):
        scn.append((f"flaps-{nm}-{rep}", flaps(nm, 12 + 3 * k + rep, rep)))
for path in sorted(glob.glob(LIB + "/*.dat")):
    nm = os.path.basename(path)[:-4]
    if re.fullmatch(r"naca\d{4}", nm):
        continue  # four-digit names are generated, not tabulated
    scn.append((f"library-{nm}", library(rng.choice([nm, nm, nm.upper(), f" {nm.title()} "]), path, 9)))
run_scenarios(scn, args)
