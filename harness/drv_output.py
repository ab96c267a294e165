"""C17: use the output functions on solved problems; record what they print, plot and draw."""
import contextlib
import io
import json
import os
import re
import shutil
import tempfile
import time

import matplotlib.figure
import matplotlib.pyplot as plt
import numpy as np
import pyvista as pv
import webp
import pterasoftware as ps
from common import parse_args, run_scenarios, rng_for
import configs as c
import record as r

args = parse_args()
s = c.sec


# ------------------------------------------------------------------ a stage instead of a window
class Stage:
    """Stands in for pyvista.Plotter and the image writer, and records the calls."""
    rec = None
    shots = saves = shows = 0


class FakePlotter:
    def __init__(self, *a, **kw):
        pass

    def __getattr__(self, name):
        if name.startswith("__"):
            raise AttributeError(name)
        return lambda *a, **kw: None

    def add_mesh(self, mesh, *a, **kw):
        if mesh.n_points == 0:       # as pyvista does
            raise from_code(ValueError("Empty meshes cannot be plotted."))
        if getattr(mesh, "n_lines", 0) and len(mesh.lines) == 3:
            Stage.rec.emit("Line", **{"from": mesh.points[mesh.lines[1]], "to": mesh.points[mesh.lines[2]]})
            return None
        out = surface(mesh)
        sc = kw.get("scalars")
        if isinstance(sc, str):
            sc = mesh[sc]
        if sc is not None:
            out["scalars"] = np.asarray(sc, dtype=float)
            if kw.get("clim") is not None:
                out["clim"] = [float(v) for v in kw["clim"]]
        Stage.rec.emit("Mesh", **out)
        return None

    def add_text(self, text, *a, **kw):
        m = re.fullmatch(r"\s*(\w+):\s*([-+0-9.eE]+|nan)\s*%?\s*", str(text))
        if m:
            Stage.rec.emit("Text", k=m.group(1), x=float(m.group(2)))
        else:
            Stage.rec.emit("Text", k="other: " + str(text))

    def clear(self, *a, **kw):
        Stage.rec.emit("Clear")

    clear_actors = clear

    def show(self, *a, **kw):
        Stage.shows += 1
        Stage.rec.emit("Show")

    def screenshot(self, *a, **kw):
        Stage.shots += 1
        Stage.rec.emit("Shot")
        return np.full((2, 2, 4), Stage.shots, dtype=np.uint8)

    def close(self, *a, **kw):
        Stage.rec.emit("Close")


class Picture:
    def __init__(self, array):
        self.shot = int(np.asarray(array)[0, 0, 0])

    @staticmethod
    def fromarray(a, *_, **__):
        return Picture(a)


class FakeImages:
    fromarray = staticmethod(Picture.fromarray)


def save_one(img, file_path, *a, **kw):
    Stage.saves += 1
    Stage.rec.emit("Save", file=file_path, shots=[img.shot])


def save_many(imgs, file_path, *a, **kw):
    Stage.saves += 1
    Stage.rec.emit("Save", file=file_path, shots=[i.shot for i in imgs], fps=kw.get("fps"))


def from_code(e):
    e.from_code = True
    return e


def surface(mesh):
    f = np.asarray(mesh.faces)
    faces, i = [], 0
    while i < len(f):
        faces.append([int(v) for v in f[i + 1:i + 1 + f[i]]])
        i += 1 + f[i]
    return dict(points=np.asarray(mesh.points, dtype=float), faces=faces)


pv.Plotter = FakePlotter
pv.close_all = lambda *a, **kw: Stage.rec.emit("Close")
webp.Image = FakeImages
webp.save_image = save_one
webp.save_images = save_many
time.sleep = lambda *_: None


# ------------------------------------------------------------------ solutions
def wing(rng, k=0, **kw):
    kw.setdefault("sym", True)
    kw.setdefault("nc", rng.choice([1, 2]))
    return c.wing([s(ns=rng.choice([1, 2]), af="naca2412", twist=2.0 * k),
                   s(le=[0.2, 1.5, 0.1], chord=rng.uniform(0.5, 1.0))], **kw)


def family(fam, rng):
    if fam == "one":
        return [c.airplane([c.wing([s(ns=1), s(le=[0, 1.0, 0.0])], nc=1)], name="Kite")]
    if fam == "camber":
        return [c.airplane([wing(rng, 1)], name="My Plane")]
    if fam == "fine":
        return [c.airplane([wing(rng, 1, nc=1)], name="Small"),
                c.airplane([c.wing([s(ns=5, twist=2.0), s(le=[0.3, 2.0, 0.2], chord=0.7)], le=[3.0, 4.0, 0.5], sym=True, nc=5)], name="Fine")]
    tail = c.wing([s(ns=1), s(le=[0.1, 0.8, 0.0], chord=0.6)], name="tail", le=[3.0, 0.0, 0.3], sym=True, nc=1)
    if fam == "tailed":
        return [c.airplane([wing(rng), tail], name="Tailed")]
    far = lambda k: wing(rng, k, le=[2.0 * k, 5.0 * k, 0.4 * k], sym=k == 1)
    if fam == "pair":
        return [c.airplane([far(0)], name="Lead"), c.airplane([far(1)], name="Wing Man")]
    if fam == "six":
        return [c.airplane([c.wing([s(ns=1, twist=1.0 + k), s(le=[0.1 * k, 1.0, 0.0])], nc=1, le=[0.5 * k, 2.5 * k, 0.2 * k])],
                           name=f"Bird {k}") for k in range(6)]
    if fam == "trio":
        return [c.airplane([far(0), tail], name="A"), c.airplane([far(1)], name="B"), c.airplane([far(2)], name="C")]
    return [c.rand_airplane(rng, name=f"random {i}", offset=(4.0 * i, 8.0 * i, i), max_nc=2, max_ns=2) for i in (0, 1)]


_SOLVED = {}


def solved(g):
    unsteady = g["method"] not in ("horseshoe", "ring")
    key = (g["fam"], g["method"], g["steps"] if unsteady else 1)
    if key not in _SOLVED:
        rng = rng_for(args, f"out/{key}")
        airs = family(g["fam"], rng)
        opd = c.rand_op(rng, v=rng.uniform(5, 15))
        if not unsteady:
            prob = ps.problems.SteadyProblem(airplanes=[c.build_airplane(a) for a in airs], operating_point=c.build_op(opd))
            _SOLVED[key] = (r.solve_steady(prob, g["method"]), prob, None)
        else:
            still = g["method"].startswith("static") or g["method"] == "gust"
            beat = 0.004 if g["method"] == "short-beat" else 0.13
            mv = []
            for k, a in enumerate(airs):
                d = c.airmove(a)
                if not still and k == 0:
                    d["wings"][0]["z"] = c.osc(0.1, beat)
                    d["wings"][0]["secs"][1]["sweep"] = c.osc(8.0, beat)
                mv.append(d)
            m = c.movement(mv, c.opmove(opd, c.osc(1.0, 0.13) if g["method"] == "gust" else None), dt=rng.choice([0.05, 0.03, 0.013]), num_steps=g["steps"])
            prob = ps.problems.UnsteadyProblem(movement=c.build_movement(m),
                                               only_final_results=g["method"] in ("only-final", "static-final"))
            _SOLVED[key] = (r.solve_unsteady(prob, True, True), prob, m)
    return _SOLVED[key]


def airplane_rec(a):
    out = dict(name=a.name, wings=[[[dict(fl=p.front_left_vertex, fr=p.front_right_vertex, br=p.back_right_vertex,
                                          bl=p.back_left_vertex, c=[p.induced_drag_coefficient, p.side_force_coefficient,
                                                                    p.lift_coefficient])
                                     for p in row] for row in w.panels] for w in a.wings])
    if a.total_near_field_force_wind_axes is not None:
        out.update(tf=a.total_near_field_force_wind_axes, tm=a.total_near_field_moment_wind_axes,
                   cf=a.total_near_field_force_coefficients_wind_axes, cm=a.total_near_field_moment_coefficients_wind_axes)
    return out


def emit_solution(rec, solver, prob, m):
    if m is None:
        rec.emit("Solved", unsteady=False, static=True, steps=[dict(airplanes=[airplane_rec(a) for a in prob.airplanes], wake=[])],
                 lines=r.streams_rec(solver))
    else:
        rec.emit("Solved", unsteady=True, static=max(c.periods(m)) == 0, dt=prob.delta_time, lines=r.streams_rec(solver),
                 steps=[dict(airplanes=[airplane_rec(a) for a in sp.airplanes],
                             wake=[{q: w[q] for q in ("fl", "fr", "br", "bl")} for w in r.wake_rec(solver, k)])
                        for k, sp in enumerate(prob.steady_problems)], finals=r.finals_rec(prob))


# ------------------------------------------------------------------ uses
def drawing(g, rec, solver):
    Stage.rec, Stage.shots, Stage.saves, Stage.shows = rec, 0, 0, 0
    kw = dict(scalar_type=None if g["scalar"] == "none" else g["scalar"], show_wake_vortices=g["wake"], save=g["save"],
              testing=g["testing"])
    if g["op"] == "draw":
        kw["show_streamlines"] = g["streams"]
    rec.emit("Begin", op=g["op"], scalar=g["scalar"], wake=g["wake"], streams=g["streams"], save=g["save"])
    with contextlib.redirect_stdout(io.StringIO()):
        getattr(ps.output, g["op"])(solver, **kw)
    rec.emit("End", saves=Stage.saves, shows=Stage.shows)


ROW = re.compile(r"\s*(.*?):\s*([-+0-9.eE]+|nan|-?inf)\s*(\S*)\s*$")


def report(g, rec, solver, unsteady):
    out = io.StringIO()
    with contextlib.redirect_stdout(out):
        (ps.output.print_unsteady_results if unsteady else ps.output.print_steady_results)(solver)
    rows = []
    for line in out.getvalue().splitlines():
        m = ROW.fullmatch(line)
        if m:
            rows.append(dict(k=m.group(1), x=float(m.group(2)), u=m.group(3)))
        elif line.strip():
            rows.append(dict(h=line.strip().rstrip(":")))
    rec.emit("Report", rows=rows)


def fig_rec(f):
    ax = f.axes[0]
    return dict(title=ax.get_title(), x=ax.get_xlabel(), y=ax.get_ylabel(),
                lines=[dict(name=ln.get_label(), t=np.asarray(ln.get_xdata(), dtype=float),
                            v=np.asarray(ln.get_ydata(), dtype=float)) for ln in ax.get_lines()])


def plots(g, rec, solver):
    show, save = g["testing"], g["save"]
    kept, saved, shown = [], [], []
    real = dict(close=plt.close, show=matplotlib.figure.Figure.show, save=matplotlib.figure.Figure.savefig)

    def keep():
        for n in plt.get_fignums():
            f = plt.figure(n)
            if f not in kept:
                kept.append(f)

    def close(*a, **kw):
        keep()
        return real["close"](*a, **kw)

    title = lambda f: f.axes[0].get_title()
    real["close"]("all")
    plt.close = close
    matplotlib.figure.Figure.show = lambda self, *a, **kw: shown.append(title(self))
    matplotlib.figure.Figure.savefig = lambda self, fname, *a, **kw: saved.append(dict(file=str(fname), title=title(self)))
    try:
        ps.output.plot_results_versus_time(solver, show=show, save=save)
        left = len(plt.get_fignums())
        keep()
    finally:
        plt.close = real["close"]
        matplotlib.figure.Figure.show = real["show"]
        matplotlib.figure.Figure.savefig = real["save"]
        plt.close("all")
    rec.emit("Plots", figs=[fig_rec(f) for f in kept], saved=saved, shown=shown, show=show, save=save, open=left)


def surfaces(g, rec, solver, prob, unsteady):
    steps = [sp.airplanes for sp in prob.steady_problems] if unsteady else [prob.airplanes]
    for k, airplanes in enumerate(steps):
        rec.emit("Surface", of="panels", k=k, **surface(ps.output.get_panel_surfaces(airplanes)))
        if unsteady:
            rec.emit("Surface", of="wake", k=k, **surface(ps.output.get_wake_ring_vortex_surfaces(solver, k)))
        if airplanes[0].total_near_field_force_wind_axes is not None:
            for name in ("induced drag", "side force", "lift"):
                rec.emit("Surface", of="scalars", k=k, scalar=name, values=ps.output.get_scalars(airplanes, name))


def scenario(g):
    def run(rec):
        solver, prob, m = solved(g)
        emit_solution(rec, solver, prob, m)
        before = r.facts([solver, prob])
        if g["op"] in ("draw", "animate"):
            drawing(g, rec, solver)
        elif g["op"] == "print":
            report(g, rec, solver, m is not None)
        elif g["op"] == "plot":
            plots(g, rec, solver)
        else:
            surfaces(g, rec, solver, prob, m is not None)
        was, now = r.compared(before, r.facts([solver, prob]))
        rec.emit("Left", before=was, after=now)
    return run


def name_of(g):
    opts = "".join(x[0] for x in ("wake", "streams", "save", "testing") if g[x])
    return f"{g['op']}-{g['method']}-{g['fam']}-{g['scalar'].replace(' ', '')}-{opts or 'plain'}-{g['steps']}"


scratch = tempfile.mkdtemp(prefix="output-", dir=os.path.dirname(os.path.abspath(args.out)))
args.out = os.path.abspath(args.out)
rows = sorted(json.load(open(args.input)), key=lambda g: (g["fam"], g["method"], g["steps"]))
size = -(-len(rows) // args.shards)
mine = rows[args.shard * size:(args.shard + 1) * size]      # neighbours share solutions
args.shard, args.shards = 0, 1
os.chdir(scratch)
run_scenarios([(name_of(g), scenario(g)) for g in mine], args)
os.chdir("/")
shutil.rmtree(scratch, ignore_errors=True)
