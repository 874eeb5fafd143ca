"""Decide one property: python -m symx.run <PROPERTY> (tier from VERIF_TIER)."""
from __future__ import annotations

import collections
import json
import multiprocessing as mp
import os
import random
import subprocess
import sys
import tempfile
import time
from multiprocessing.connection import wait

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = "/opt/venv/bin/python"
SRC = os.environ.get("SYMX_SRC", "/repo/src")
SLICE = 1.0
STRICT = bool(os.environ.get("SYMX_STRICT"))


def worker(conn, seed):
    import resource

    try:
        resource.setrlimit(resource.RLIMIT_AS, (12 << 30, 12 << 30))
    except Exception:
        pass
    import warnings

    warnings.simplefilter("ignore")
    os.environ["SYMX_MODE"] = "symbolic"
    import pyarrow

    pyarrow.set_cpu_count(1)
    pyarrow.set_io_thread_count(1)
    from props import registry, stubs

    from . import core, explore, load

    try:
        world = load.World(extra_modules=stubs())
    except BaseException as ex:  # the tree does not import
        import traceback

        conn.send(("fatal", traceback.format_exc()))
        return
    reg = registry()
    engine = core.Engine(seed=seed)
    conn.send(("ready", world.files))
    rng = random.Random(seed)
    while True:
        job = conn.recv()
        if job is None:
            return
        task, config, prefixes, budget, wit, trace = job
        s0 = engine.stats.as_dict()
        fn = reg[task]["fn"]
        every = max(1, wit)
        res, left = explore.explore(
            task, fn, config, world, engine, prefixes, budget,
            (lambda n: rng.random() < 1.0 / every), root=SRC, trace=trace, rng=rng,
        )
        s1 = engine.stats.as_dict()
        delta = {k: s1[k] - s0[k] for k in s1}
        conn.send(("result", res, left, delta))


def replay(cases, tag, timeout=300):
    """run cases on the real code in a fresh interpreter."""
    with tempfile.TemporaryDirectory(prefix="symx-replay-") as d:
        f, o = os.path.join(d, "c.json"), os.path.join(d, "o.json")
        json.dump(cases, open(f, "w"))
        env = dict(os.environ)
        env.update(SYMX_MODE="concrete", PYTHONPATH=f"{VERIF}:{SRC}", PYTHONDONTWRITEBYTECODE="1", SYMX_TMP=d, PYTHONHASHSEED="0")
        try:
            p = subprocess.run([PY, "-m", "symx.replay", f, "--out", o], env=env, cwd=VERIF, capture_output=True, text=True, timeout=timeout)
        except subprocess.TimeoutExpired:
            return [{"status": "timeout"} for _ in cases]
        if not os.path.exists(o):
            return [{"status": "error", "msg": p.stderr[-2000:]} for _ in cases]
        return json.load(open(o))


def known_findings(prop):
    path = os.path.join(VERIF, "known_findings.json")
    if not os.path.exists(path):
        return []
    return [k for k in json.load(open(path)).get("known", []) if k["property"] == prop]


def match_known(known, c, msg):
    for k in known:
        if k["task"] != c["task"]:
            continue
        env = {"v": c["values"], "c": c["choices"], "cfg": c["config"], "msg": msg}
        try:
            if eval(k["when"], {"__builtins__": {}}, env):
                return k
        except Exception:
            continue
    return None


def main(argv=None):
    argv = argv or sys.argv[1:]
    prop = argv[0]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--thorough" in argv:
        tier = "thorough"
    seed = int(os.environ.get("VERIF_SEED", "1"))
    nproc = int(os.environ.get("SYMX_PROCS", str(os.cpu_count() or 4)))
    limit = float(os.environ.get("SYMX_LIMIT", "780" if tier == "quick" else "5400"))
    verbose = "-v" in argv
    t0 = time.monotonic()

    scratch = tempfile.mkdtemp(prefix="symx-run-")
    os.environ["SYMX_TMP"] = scratch
    try:
        rc = _main(prop, tier, seed, nproc, limit, verbose, t0)
    finally:
        import shutil

        shutil.rmtree(scratch, ignore_errors=True)
    sys.stdout.flush()
    os._exit(rc)


def _main(prop, tier, seed, nproc, limit, verbose, t0):
    ctx = mp.get_context("fork")
    workers = []
    for i in range(nproc):
        a, b = ctx.Pipe()
        p = ctx.Process(target=worker, args=(b, seed + i), daemon=True)
        p.start()
        b.close()
        workers.append((p, a))

    sys.path.insert(0, VERIF)
    os.environ["SYMX_MODE"] = "concrete"  # the parent never runs a harness
    from props import META, registry

    reg = registry()
    tasks = [(n, t) for n, t in reg.items() if prop in t["props"]]
    if not tasks:
        print(f"no harness for {prop}")
        return 2
    only = os.environ.get("SYMX_TASK")
    queue = collections.deque()
    rows = []
    for n, t in tasks:
        if only and n not in only.split(","):
            continue
        cfgs = t["configs"](tier)
        for c in cfgs:
            rows.append((n, c))
    # interleave the tasks so that a violation in any of them surfaces early
    bytask = collections.defaultdict(list)
    for n, c in rows:
        bytask[n].append(c)
    while any(bytask.values()):
        for n in list(bytask):
            if bytask[n]:
                queue.append((n, bytask[n].pop(0), [()], True))

    from . import explore as _ex_names  # noqa: F401  (only for pickling)

    total = None
    stats = collections.Counter()
    per_task = collections.defaultdict(lambda: collections.Counter())
    files, fatal = [], None
    idle, busy = [], {}
    conns = {a: p for p, a in workers}
    ready = 0
    violation, spurious, degraded_exc, known_hits = None, [], [], {}
    known = known_findings(prop)
    seen_fail = collections.Counter()
    wit_replayed = wit_ok = 0
    wit_pending, wit_bad = [], []
    deg_pending = []
    incomplete = False
    samples = []
    n_wit = {"quick": 60, "thorough": 400}[tier]

    def handle_failures(fails):
        nonlocal violation
        for f in fails:
            key = (f["kind"], f["msg"][:200], f["cases"][0]["task"] if f["cases"] else "")
            seen_fail[key] += 1
            if seen_fail[key] > 12 or not f["cases"]:
                continue
            rs = replay(f["cases"], prop)
            bad = [(c, r) for c, r in zip(f["cases"], rs) if r["status"] == "violation"]
            if bad:
                c, r = bad[0]
                k = match_known(known, c, r["msg"])
                if k is not None:
                    known_hits.setdefault(k["id"], (k, c, r))
                    continue
                violation = (c, r, f)
                return
            if f["kind"] == "assert" and not f["unsupported"]:
                spurious.append({"msg": f["msg"], "cases": f["cases"], "replay": rs})
            else:
                degraded_exc.append({"msg": f["msg"], "tb": f.get("tb", "")[-1500:], "cases": f["cases"][:1], "replay": rs[:1]})

    def flush_witness(force=False):
        nonlocal wit_replayed, wit_ok, violation
        while wit_pending and (force or len(wit_pending) >= 40) and violation is None:
            batch = wit_pending[:80]
            del wit_pending[:80]
            rs = replay(batch, prop)
            for c, r in zip(batch, rs):
                wit_replayed += 1
                if r["status"] == "ok":
                    wit_ok += 1
                    if len(samples) < 5:
                        samples.append({"task": c["task"], "config": c["config"], "inputs": c["values"], "choices": c["choices"], "checks_on_real_code": r["checks"]})
                elif r["status"] == "violation":
                    k = match_known(known, c, r["msg"])
                    if k is not None:
                        known_hits.setdefault(k["id"], (k, c, r))
                    else:
                        violation = (c, r, {"msg": "witness of a path on which the solver reported no violation"})
                        return
                else:
                    wit_bad.append((c, r))

    explored_time = limit
    while (queue or busy or ready < nproc) and violation is None and fatal is None:
        if time.monotonic() - t0 > explored_time:
            incomplete = bool(queue or busy)
            break
        while idle and queue:
            a = idle.pop()
            job = queue.popleft()
            name, cfg, prefixes, trace = job
            done = per_task[name]["paths"]
            wit = 1 if done < 5 else max(5, int(stats_paths(per_task) / n_wit) * 2)
            try:
                a.send((name, cfg, prefixes, SLICE, wit, trace))
            except (BrokenPipeError, OSError):
                fatal = "worker died"
                break
            busy[a] = job
        rs = wait(list(conns), timeout=1.0)
        for a in rs:
            try:
                m = a.recv()
            except (EOFError, OSError):
                if a in busy:
                    job = busy.pop(a)
                    per_task[job[0]]["lost"] += 1
                conns.pop(a, None)
                if not conns:
                    fatal = "all workers died"
                incomplete = True
                continue
            if m[0] == "fatal":
                fatal = m[1]
                break
            if m[0] == "ready":
                ready += 1
                files = m[1]
                idle.append(a)
                continue
            _, res, left, delta = m
            name, cfg, _, _ = busy.pop(a)
            stats.update({k: v for k, v in delta.items()})
            if total is None:
                total = res
            else:
                total.merge(res)
            pt = per_task[name]
            for k in ("paths", "infeasible", "degraded", "unknown", "checks"):
                pt[k] += getattr(res, k)
            wit_pending.extend(res.witnesses)
            if len(deg_pending) < 300:
                deg_pending.extend(res.degraded_cases)
            idle.append(a)
            if left:
                # shallow prefixes first: they hold the larger subtrees
                left.sort(key=len)
                n = min(len(left), max(1, len(idle) + 2))
                for i in range(n):
                    chunk = left[i::n]
                    queue.append((name, cfg, chunk[::-1], False))
            if res.failures:
                handle_failures(res.failures)
                if violation:
                    break
            if wit_replayed < n_wit * 3:
                flush_witness()
            else:
                wit_pending.clear()
    if fatal is None and violation is None:
        flush_witness(force=True)
        if deg_pending and violation is None:
            rs = replay(deg_pending[:300], prop)
            for c, r in zip(deg_pending, rs):
                if r["status"] == "violation" and violation is None:
                    k = match_known(known, c, r["msg"])
                    if k is not None:
                        known_hits.setdefault(k["id"], (k, c, r))
                    else:
                        violation = (c, r, {"msg": "degraded path"})
    for p, a in workers:
        try:
            p.kill()
        except Exception:
            pass

    wall = time.monotonic() - t0
    rc = 0
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    import glob

    for old in glob.glob(os.path.join(VERIF, "evidence", f"replay-{prop}-*.json")):
        os.unlink(old)
    for kid, (k, c, r) in sorted(known_hits.items()):
        print(f"KNOWN-FINDING: property={prop} {k['what']}")
    if fatal is not None:
        # the tree cannot even be loaded symbolically: confirm with a plain import
        p = subprocess.run([PY, "-c", "import importlib,pkgutil,valor_lite\nfor m in pkgutil.walk_packages(valor_lite.__path__,'valor_lite.'): importlib.import_module(m.name)"], env={**os.environ, "PYTHONPATH": SRC}, capture_output=True, text=True)
        print("check error: " + fatal[-1500:])
        if p.returncode != 0:
            print("(the package does not import)")
            rc = 2
        else:
            # the code runs, only the front ends cannot load it: nothing was decided, nothing is wrong
            print("note: UNDECIDED, the package imports but the front ends could not load it")
    elif violation is not None:
        c, r, f = violation
        path = os.path.join(VERIF, "evidence", f"replay-{prop}-1.json")
        json.dump({"property": prop, "cases": [c], "result": r, "how": f"cd {VERIF} && PYTHONPATH={VERIF}:{SRC} {PY} -m symx.replay {path}"}, open(path, "w"), indent=1, default=str)
        print(f"violated: {r['msg']}")
        print(f"  task={c['task']} config={c['config']}")
        print(f"  inputs={c['values']} choices={c['choices']}")
        print(f"VIOLATION property={prop} replay={path}")
        rc = 1
    elif spurious:
        # not an alarm: the real code satisfied the property on every model tried
        print(f"note: {len(spurious)} solver counterexample(s) did not reproduce on the real code; those paths count as undecided")
        if verbose or STRICT:
            print(json.dumps(spurious[0], default=str)[:3000])
        rc = 3 if STRICT else 0

    paths = total.paths if total else 0
    if rc == 0 and paths == 0:
        print("note: UNDECIDED, no path was explored")
        rc = 4 if STRICT else 0
    bounds = {n: t["bounds"] for n, t in tasks}
    ev = {
        "property": prop,
        "tier": tier,
        "seed": seed,
        "level": "model_checking",
        "coverage": {
            "states": paths,
            "transitions": int(stats["branches"]) + int(total.decisions if total else 0),
            "traces_validated_against_impl": wit_ok,
            "samples": samples or [{"task": n} for n, _ in tasks],
            "exhaustive": bool(rc == 0 and not incomplete and total is not None and total.unknown == 0 and total.degraded == 0 and not degraded_exc and not spurious),
            "explanation": "states = feasible symbolic paths of the real code executed to the end; transitions = decisions taken on them; each assertion is a z3 validity query over all values that satisfy the path condition; traces_validated = solver models of explored paths re-run on the unpatched package",
            "paths_infeasible": total.infeasible if total else 0,
            "assertions": int(stats["asserts"]),
            "assertions_closed_by_folding": int(stats["asserts_folded"]),
            "solver_queries": int(stats["queries"]),
            "solver_sat": int(stats["sat"]),
            "solver_unsat": int(stats["unsat"]),
            "solver_unknown": int(stats["unknown"]),
            "solver_seconds": round(float(stats["solver_s"]), 3),
            "solver": "z3 (Python API), logic: linear/nonlinear real+int arithmetic with booleans",
            "branch_forks": int(stats["forks"]),
            "max_decisions_per_path": total.max_decisions if total else 0,
            "per_task": {n: dict(c) for n, c in per_task.items()},
            "bounds": bounds,
            "functions_encoded": sorted(total.functions) if total else [],
            "source_files_loaded": len(files),
            "witnesses_replayed": wit_replayed,
            "degraded_paths": (total.degraded if total else 0) + len(degraded_exc),
            "degraded_reasons": (total.unsupported if total else {}),
            "degraded_exceptions": [d["msg"] for d in degraded_exc[:5]],
            "unconfirmed_counterexamples": [x["msg"] for x in spurious[:10]],
            "unknown_paths": total.unknown if total else 0,
            "incomplete": incomplete,
            "known_findings_hit": sorted(known_hits),
        },
        "assumptions": META["assumptions"] + [b for n, t in tasks for b in t.get("assumptions", [])],
        "wall_s": round(wall, 2),
        "violations": 1 if rc == 1 else 0,
    }
    json.dump(ev, open(os.path.join(VERIF, "evidence", f"{prop}.json"), "w"), indent=1, default=str)
    c = ev["coverage"]
    print(f"{prop} [{tier}] paths={paths} assertions={c['assertions']} queries={c['solver_queries']} solver={c['solver_seconds']}s witnesses={wit_ok}/{wit_replayed} degraded={c['degraded_paths']} unknown={c['unknown_paths']} incomplete={incomplete} wall={wall:.1f}s rc={rc}")
    if verbose:
        for n, ct in per_task.items():
            print("   ", n, dict(ct))
        for d in degraded_exc[:3]:
            print("degraded:", d["msg"], d["tb"], d["replay"])
        print(c["degraded_reasons"])
        if wit_bad:
            print("witness not conclusive:", wit_bad[0])
    return rc


def stats_paths(per_task):
    return sum(c["paths"] for c in per_task.values())


if __name__ == "__main__":
    main()
