#!/usr/bin/env python3
"""check.py <property> [quick|thorough]

Decides one property with the TLA+ specification: runs TLC on the bounded models of the
property (MC_*), lets TLC generate behaviours (G_*), drives the code in /repo, and lets TLC
judge the recorded traces (T_*).  Exit 0: held on everything explored; exit 1 with a
VIOLATION line: broken; anything else is an error of this machinery.
"""

import concurrent.futures as cf
import json
import os
import re
import shutil
import subprocess
import sys
import tempfile
import time

VERIF = os.path.dirname(os.path.abspath(__file__))
SPEC = os.path.join(VERIF, "spec")
HARNESS = os.path.join(VERIF, "harness")
CLASSES = os.path.join(VERIF, "build", "classes")
TLA = "/opt/veriftools/tla"
CP = f"{TLA}/tla2tools.jar:{TLA}/CommunityModules-deps.jar"
REPO = os.environ.get("VERIF_REPO", "/repo")
PY = "/opt/venv/bin/python"

sys.path.insert(0, HARNESS)
import plan  # noqa: E402


class MachineError(Exception):
    pass


def build_classes():
    src = os.path.join(VERIF, "java", "Reals64.java")
    out = os.path.join(CLASSES, "Reals64.class")
    if os.path.exists(out) and os.path.getmtime(out) >= os.path.getmtime(src):
        return
    os.makedirs(CLASSES, exist_ok=True)
    subprocess.run(["javac", "-nowarn", "-cp", CP, "-d", CLASSES, src], check=True)


def code_env(work):
    env = dict(os.environ)
    env.update(
        PYTHONPATH=REPO,
        PYTHONDONTWRITEBYTECODE="1",
        PYTHONHASHSEED="0",
        MPLBACKEND="Agg",
        QT_QPA_PLATFORM="offscreen",
        LIBGL_ALWAYS_SOFTWARE="1",
        OMP_NUM_THREADS="1",
        OPENBLAS_NUM_THREADS="1",
        NUMBA_CACHE_DIR=os.path.join(work, "numba"),
        MPLCONFIGDIR=os.path.join(work, "mpl"),
        LANG="C.UTF-8",
    )
    return env


def tlc(module, cfg, work, env_extra, workers=1, heap="3g", timeout=850, extra=()):
    meta = tempfile.mkdtemp(prefix="tlc-", dir=work)
    cmd = [
        "java", "-Xss128m", f"-Xmx{heap}", "-XX:+UseParallelGC", "-XX:ParallelGCThreads=2",
        "-cp", f"{CP}:{CLASSES}", "tlc2.TLC", "-config", cfg, "-workers", str(workers),
        "-metadir", meta, "-noTE", *extra, module + ".tla",
    ]
    env = dict(os.environ)
    env.update(env_extra)
    try:
        p = subprocess.run(cmd, cwd=SPEC, env=env, capture_output=True, text=True, timeout=timeout)
    except subprocess.TimeoutExpired:
        raise MachineError(f"TLC timed out on {module}")
    finally:
        shutil.rmtree(meta, ignore_errors=True)
    out = "\n".join(ln for ln in (p.stdout + p.stderr).splitlines() if not ln.startswith("Loading "))
    return p.returncode, out


STATS = re.compile(r"(\d+) states generated(?:.*?), (\d+) distinct states found")


def stats_of(out):
    m = None
    for m in STATS.finditer(out):
        pass
    return (int(m.group(1)), int(m.group(2))) if m else (0, 0)


def run_mc(job, tier, work):
    """Exhaustive check of a bounded model; independent of the code."""
    cfg = job.get("cfg_thorough" if tier == "thorough" else "cfg", job.get("cfg", job["module"] + ".cfg"))
    rc, out = tlc(job["module"], cfg, work, {}, workers=job.get("workers", 2), heap=job.get("heap", "3g"))
    gen, distinct = stats_of(out)
    if rc != 0 or "No error has been found" not in out or distinct == 0:
        raise MachineError(f"model {job['module']} ({cfg}) failed:\n{out[-4000:]}")
    return dict(kind="mc", module=job["module"], cfg=cfg, generated=gen, distinct=distinct)


def run_gen(job, tier, work, seed):
    """TLC enumerates behaviours of a model and prints them as JSON lines (@@G)."""
    cfg = job.get("cfg_thorough" if tier == "thorough" else "cfg", job.get("cfg", job["module"] + ".cfg"))
    rc, out = tlc(job["module"], cfg, work, {"SEED": str(seed)}, workers=1, heap="3g", extra=job.get("extra", ()))
    gen, distinct = stats_of(out)
    rows = [json.loads(json.loads(line)[3:]) for line in out.splitlines() if line.startswith('"@@G')]
    if rc != 0 or not rows:
        raise MachineError(f"generator {job['module']} failed:\n{out[-4000:]}")
    path = os.path.join(work, job["module"] + ".gen.json")
    with open(path, "w") as f:
        json.dump(rows, f)
    return dict(kind="gen", module=job["module"], cfg=cfg, generated=gen, distinct=distinct, rows=len(rows)), path


def run_driver(job, shard, shards, tier, seed, prop, work, inp):
    out = os.path.join(work, f"{job['driver']}-{job['spec']}-{shard}.ndjson")
    cmd = [PY, os.path.join(HARNESS, job["driver"] + ".py"), "--out", out, "--shard", str(shard),
           "--shards", str(shards), "--tier", tier, "--seed", str(seed), "--prop", prop]
    if inp:
        cmd += ["--input", inp]
    if job.get("xvfb"):
        cmd = ["xvfb-run", "-a", "-s", "-screen 0 1280x1024x24"] + cmd
    limit = 650 if tier == "quick" else 3000
    try:
        p = subprocess.run(cmd, cwd=work, env=code_env(work), capture_output=True, text=True, timeout=limit)
    except subprocess.TimeoutExpired:
        return None, dict(clause="terminates", id=f"{job['driver']}[{shard}]", e="Driver", l=0,
                          detail=f"the code did not finish within {limit} s"), ""
    if p.returncode != 0:
        tail = p.stderr[-3000:]
        if "HarnessError" not in tail and ("/pterasoftware/" in tail or p.returncode < 0):
            return None, dict(clause="no-crash", id=f"{job['driver']}[{shard}]", e="Driver", l=0, detail=tail), ""
        raise MachineError(f"driver {job['driver']} failed ({p.returncode}):\n{tail}")
    return out, json.loads(p.stdout.strip().splitlines()[-1]), p.stderr[-6000:]


def run_trace(job, trace, prop, work, tier):
    rc, out = tlc(job["spec"], job.get("cfg", "Trace.cfg"), work, {"TRACE": trace, "PROP": prop}, workers=1,
                  heap=job.get("heap", "3g"), timeout=850 if tier == "quick" else 6000)
    fails, done = [], None
    for line in out.splitlines():
        if line.startswith('"@@F'):
            fails.append(json.loads(json.loads(line)[3:]))
        elif line.startswith('"@@D'):
            done = json.loads(json.loads(line)[3:])
    gen, distinct = stats_of(out)
    if rc != 0 or done is None:
        with open(trace) as f:
            lines = f.readlines()
        if "OutOfMemory" in out or "Could not find" in out or "Parsing or semantic" in out or not lines:
            raise MachineError(f"TLC failed on {job['spec']}:\n{out[-4000:]}")
        # The specification cannot follow the recorded behaviour any further: the event
        # after the last one consumed is not one it can interpret.
        at = max(1, distinct)
        ev = json.loads(lines[min(at, len(lines)) - 1])
        msg = [ln for ln in out.splitlines() if ln.startswith("Error") or "xception" in ln or "Attempted" in ln]
        fails.append(dict(clause="well-formed", id=ev.get("id"), e=ev.get("e"), l=at, detail="\n".join(msg)[:1500]))
        done = dict(events=at - 1, clauses={})
        if os.environ.get("VERIF_DEBUG"):
            sys.stderr.write(out[-6000:])
    return fails, done, gen, distinct


def main():
    prop = sys.argv[1]
    if prop == "--setup":
        build_classes()
        return 0
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1"))
    start = time.time()
    build_classes()
    todo = plan.PLAN[prop]
    os.makedirs(os.path.join(VERIF, "build"), exist_ok=True)
    work = tempfile.mkdtemp(prefix=f"{prop}-", dir=os.path.join(VERIF, "build"))
    known = json.load(open(os.path.join(VERIF, "known_findings.json")))
    mc_res, fails, samples, clause_counts = [], [], [], {}
    ntraces = nevents = tgen = tdist = nscen = 0
    traces_by_id = {}
    try:
        with cf.ThreadPoolExecutor(8) as pool:
            mc_f = [pool.submit(run_mc, j, tier, work) for j in todo.get("mc", [])]

            def chain(job, shard, shards, inp):
                out, info, err = run_driver(job, shard, shards, tier, seed, prop, work, inp)
                if out is None:
                    return job, out, info, None
                return job, out, info, run_trace(job, out, prop, work, tier)

            def gen_then(job):
                return run_gen(job["gen"], tier, work, seed)

            futs = []
            gens = {id(j): pool.submit(gen_then, j) for j in todo.get("traces", []) if "gen" in j}
            for j in todo.get("traces", []):
                inp = None
                if "gen" in j:
                    res, inp = gens[id(j)].result()
                    mc_res.append(res)
                shards = j.get("shards_thorough", j.get("shards", 1)) if tier == "thorough" else j.get("shards", 1)
                futs += [pool.submit(chain, j, s, shards, inp) for s in range(shards)]
            mc_res += [f.result() for f in mc_f]
            for f in futs:
                job, out, info, res = f.result()
                if out is None:
                    fails.append((job, None, info))
                    continue
                fl, done, gen, distinct = res
                nscen += info["scenarios"]
                ntraces += info["scenarios"]
                nevents += done["events"]
                tgen += gen
                tdist += distinct
                for k, v in done["clauses"].items():
                    clause_counts[k] = clause_counts.get(k, 0) + v
                fails += [(job, out, x) for x in fl]
                with open(out) as fh:
                    line = fh.readline().strip()
                if line and len(samples) < 3:
                    ev = json.loads(line)
                    samples.append(dict(scenario=ev["id"], event=ev["e"], trace=job["driver"], text=line[:400]))
        # vacuity guard: clauses that must have been exercised
        if not fails:
            need = todo.get("need", [])
            missing = [c for c in need if clause_counts.get(c, 0) == 0]
            if missing:
                raise MachineError(f"clauses never evaluated: {missing}")
        # classify
        new, old = [], {}
        for job, out, x in fails:
            hit = None
            for k in known["findings"]:
                if k["property"] != prop:
                    continue
                if x["clause"] in k["clauses"] and x["id"] in k["scenarios"]:
                    hit = k
            if hit:
                old.setdefault(hit["what"], 0)
                old[hit["what"]] += 1
            else:
                new.append((job, out, x))
        for what in old:
            print(f"KNOWN-FINDING: property={prop} {what}")
        replay = None
        if new:
            rdir = os.path.join(VERIF, "build", "replay")
            os.makedirs(rdir, exist_ok=True)
            replay = os.path.join(rdir, f"{prop}.json")
            items = []
            for job, out, x in new[:20]:
                item = dict(driver=job["driver"], spec=job["spec"], **x)
                if out and len(items) < 4:
                    with open(out) as fh:
                        lines = fh.readlines()
                    if 0 < x.get("l", 0) <= len(lines):
                        item["event"] = json.loads(lines[x["l"] - 1])
                items.append(item)
            with open(replay, "w") as fh:
                json.dump(dict(property=prop, tier=tier, seed=seed, total=len(new),
                               rerun=f"VERIF_SEED={seed} python3 {VERIF}/check.py {prop} {tier}", failures=items), fh)
        states = sum(m["distinct"] for m in mc_res) + tdist
        trans = sum(m["generated"] for m in mc_res) + tgen
        ev = dict(
            property=prop, tier=tier, seed=seed, level="model_checking",
            coverage=dict(
                states=states, transitions=trans, traces_validated_against_impl=ntraces,
                trace_events=nevents, clauses_evaluated=clause_counts,
                models=[{k: m[k] for k in m if k != "kind"} for m in mc_res],
                samples=samples or [dict(model=m["module"], states=m["distinct"]) for m in mc_res][:1],
            ),
            assumptions=todo.get("assumptions", []),
            wall_s=round(time.time() - start, 2), violations=len(new),
        )
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", f"{prop}.json"), "w") as fh:
            json.dump(ev, fh, indent=1)
        if new:
            seen = {}
            for job, out, x in new:
                seen.setdefault((job["driver"], x["clause"]), []).append(x["id"])
            for (d, c), ids in list(seen.items())[:20]:
                print(f"  clause {c} fails in {d}: {len(ids)}x e.g. {ids[0]}")
            print(f"VIOLATION property={prop} replay={replay}")
            return 1
        print(f"{prop} {tier}: held; {states} states, {ntraces} traces, {nevents} events, "
              f"{sum(clause_counts.values())} clause evaluations, {time.time() - start:.0f} s")
        return 0
    finally:
        if not os.environ.get("VERIF_KEEP"):
            shutil.rmtree(work, ignore_errors=True)
        else:
            print("work:", work)


if __name__ == "__main__":
    try:
        sys.exit(main())
    except MachineError as e:
        print("MACHINERY ERROR:", e, file=sys.stderr)
        sys.exit(2)
