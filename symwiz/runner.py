"""Decides one property: runs its harness jobs in parallel, replays
counterexamples, writes evidence.   python -m symwiz.runner ID [quick|thorough]"""

from __future__ import annotations

import importlib
import json
import multiprocessing as mp
import os
import resource
import subprocess
import sys
import time
import traceback
from typing import Any

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SRC = os.environ.get("SYMWIZ_SRC", "/repo/src")
VENV = "/opt/venv/bin/python"

_JOBS: list[tuple[str, str, dict[str, Any]]] = []
_MODULE: Any = None


def _run_job(i: int, deadline: float, opts: dict[str, Any]) -> dict[str, Any]:
    from . import engine as en
    from .api import Symbolic

    name, func, kwargs = _JOBS[i]
    fn = getattr(_MODULE, func)
    e = en.Engine(
        query_timeout_ms=opts.get("query_timeout_ms", 60000),
        max_steps=opts.get("max_steps", 60000),
        deadline=deadline,
    )
    s = Symbolic(e)
    samples: list[dict[str, Any]] = []
    res: dict[str, Any] = {"job": name, "func": func, "kwargs": kwargs, "status": "ok"}
    t0 = time.monotonic()
    want = {1, 2, 3, 5, 8, 13, 34, 89, 233, 610, 1597, 4181}

    def path():
        s.begin()
        e.path_covers = s.path_covers
        try:
            try:
                fn(s, **kwargs)
            except en.StepLimit as x:
                e.fail(f"does not terminate ({x})")
            except RecursionError as x:
                e.fail(f"unexpected RecursionError: {x}")
            except Exception as x:
                tb = traceback.extract_tb(x.__traceback__)
                where = " <- ".join(
                    f"{os.path.basename(f.filename)}:{f.lineno}" for f in reversed(tb[-6:])
                    if "symwiz" not in f.filename
                )
                try:
                    text = str(x)
                except en.EngineSignal:
                    text = "<symbolic>"
                e.fail(f"unexpected {type(x).__name__}: {text} ({where})")
        except en.CounterExample:
            raise
        if (e.stats.paths + 1) in want:
            try:
                m = e.refined_model()
                if m is not None:
                    samples.append({"inputs": e.assignment(m), "covers": list(s.path_covers)})
            except en.Inconclusive:
                pass

    try:
        e.explore(path)
    except en.CounterExample as c:
        res.update(status="counterexample", msg=c.msg, inputs=c.assignment)
    except en.Inconclusive as x:
        res.update(status="inconclusive", msg=str(x))
    except en.Unsupported as x:
        tb = traceback.extract_tb(x.__traceback__)
        where = " <- ".join(f"{os.path.basename(f.filename)}:{f.lineno}" for f in reversed(tb[-8:]))
        res.update(status="unsupported", msg=f"{x} ({where})")
    except MemoryError:
        res.update(status="inconclusive", msg="out of memory")
    except BaseException as x:
        res.update(status="error", msg="".join(traceback.format_exception(x))[-3000:])
    res["stats"] = e.stats.as_dict()
    res["samples"] = samples
    res["wall_s"] = round(time.monotonic() - t0, 3)
    return res


def _worker(q_in, q_out, deadline, opts):
    sys.setrecursionlimit(3000)
    while True:
        i = q_in.get()
        if i is None:
            return
        try:
            r = _run_job(i, deadline, opts)
        except BaseException as x:
            r = {"job": _JOBS[i][0], "status": "error", "msg": repr(x), "stats": {}, "samples": [], "wall_s": 0}
        q_out.put((i, r))


def replay_one(doc: dict[str, Any], path: str) -> tuple[bool, str]:
    os.makedirs(os.path.dirname(path), exist_ok=True)
    with open(path, "w") as fp:
        json.dump(doc, fp, indent=1)
    env = {**os.environ, "PYTHONDONTWRITEBYTECODE": "1", "PYTHONUTF8": "1"}
    try:
        p = subprocess.run(
            [VENV, os.path.join(HERE, "symwiz", "replay.py"), path, "--src", SRC],
            capture_output=True, text=True, timeout=120, env=env, cwd="/",
        )
    except subprocess.TimeoutExpired:
        return False, "replay timed out"
    return p.returncode == 1 and "VIOLATION-REPRODUCED" in p.stdout, (p.stdout + p.stderr)[-2000:]


def replay_batch(batch, path):
    with open(path, "w") as fp:
        json.dump({"batch": batch}, fp)
    env = {**os.environ, "PYTHONDONTWRITEBYTECODE": "1", "PYTHONUTF8": "1"}
    try:
        p = subprocess.run(
            [VENV, os.path.join(HERE, "symwiz", "replay.py"), path, "--src", SRC],
            capture_output=True, text=True, timeout=300, env=env, cwd="/",
        )
    except subprocess.TimeoutExpired:
        return None, "timeout"
    finally:
        os.unlink(path)
    for line in p.stdout.splitlines():
        if line.startswith("RESULT "):
            return json.loads(line[7:]), ""
    return None, (p.stdout + p.stderr)[-2000:]


def known_findings(pid: str) -> list[dict[str, Any]]:
    fn = os.path.join(HERE, "known_findings.json")
    if not os.path.exists(fn):
        return []
    with open(fn) as fp:
        doc = json.load(fp)
    return [f for f in doc.get("findings", []) if f["property"] == pid]


def main(argv: list[str]) -> int:
    global _JOBS, _MODULE
    pid = argv[1]
    tier = argv[2] if len(argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    t0 = time.monotonic()
    from . import instrument

    finder = instrument.install(SRC, HERE)
    sys.path.insert(0, HERE)
    import z3

    modname = "harness." + pid.lower()
    try:
        _MODULE = importlib.import_module(modname)
    except BaseException:
        traceback.print_exc()
        print(f"ERROR property={pid}: the harness could not be loaded")
        return 2
    budget = getattr(_MODULE, "BUDGET", {}).get(tier, 600 if tier == "quick" else 840)
    deadline = t0 + budget
    _JOBS = list(_MODULE.jobs(tier))
    only = os.environ.get("SYMWIZ_JOB")
    if only:
        _JOBS = [j for j in _JOBS if only in j[0]]
    opts = getattr(_MODULE, "OPTIONS", {})
    n = min(int(os.environ.get("SYMWIZ_PROCS", "0")) or os.cpu_count() or 4, len(_JOBS))
    ctx = mp.get_context("fork")
    q_in, q_out = ctx.Queue(), ctx.Queue()
    for i in range(len(_JOBS)):
        q_in.put(i)
    for _ in range(n):
        q_in.put(None)
    procs = [ctx.Process(target=_worker, args=(q_in, q_out, deadline, opts), daemon=True) for _ in range(n)]
    for p in procs:
        p.start()
    results: dict[int, dict[str, Any]] = {}
    import queue as _q

    outdir = os.path.join(HERE, "evidence", "replay")
    os.makedirs(outdir, exist_ok=True)
    knowns = known_findings(pid)
    violations: list[dict[str, Any]] = []
    problems: list[str] = []
    seen_known: set[str] = set()
    lost = 0
    while len(results) < len(_JOBS):
        try:
            i, r = q_out.get(timeout=1.0)
        except _q.Empty:
            if time.monotonic() > deadline + 40 or not any(p.is_alive() for p in procs):
                lost += 1
                if lost > 3:
                    break
            continue
        results[i] = r
        if r["status"] == "counterexample":
            doc = {
                "property": pid, "module": modname, "func": r["func"], "kwargs": r["kwargs"],
                "inputs": r["inputs"], "message": r["msg"], "job": r["job"],
            }
            path = os.path.join(outdir, f"{pid}-{i}.json")
            ok, text = replay_one(doc, path)
            r["replay"] = text
            known = [k for k in knowns if k["job"] == r["job"] and k["message"] == r["msg"]]
            if ok and known:
                seen_known.add(known[0]["what"])
            elif ok:
                violations.append({**doc, "path": path})
                break
            else:
                problems.append(f"{r['job']}: counterexample did not reproduce on the real code ({r['msg']}; {text.strip()[-600:]})")
        elif r["status"] != "ok":
            problems.append(f"{r['job']}: {r['status']}: {r['msg']}")
    for p in procs:
        p.kill()
    if not violations:
        for i in range(len(_JOBS)):
            if i not in results:
                problems.append(f"{_JOBS[i][0]}: no result (worker ended)")

    # reachability witnesses
    covers: dict[str, int] = {}
    for r in results.values():
        for k, v in r.get("stats", {}).get("covers", {}).items():
            covers[k] = covers.get(k, 0) + v
    if not violations and not only:
        for c in getattr(_MODULE, "COVERS", {}).get(tier, getattr(_MODULE, "COVERS", {}).get("all", [])):
            if c not in covers:
                problems.append(f"vacuity: '{c}' was never reached")

    # encoding validation: sampled paths on the unmodified code
    batch = []
    exp = []
    for i, r in sorted(results.items()):
        if r["status"] != "ok":
            continue
        for smp in r["samples"]:
            batch.append({"module": modname, "func": r["func"], "kwargs": r["kwargs"], "inputs": smp["inputs"]})
            exp.append((r["job"], smp))
    cap = 160 if tier == "quick" else 400
    if len(batch) > cap:
        step = len(batch) / cap
        idx = sorted({int(k * step) for k in range(cap)})
        batch, exp = [batch[k] for k in idx], [exp[k] for k in idx]
    validated = 0
    if batch and not violations:
        out, text = replay_batch(batch, os.path.join(outdir, f"{pid}-batch-{os.getpid()}.json"))
        if out is None:
            problems.append(f"encoding validation could not run: {text}")
        else:
            for (job, smp), (st, msg, cov), b in zip(exp, out, batch):
                if st == "broken":
                    # the real code breaks the property on a path the encoding accepted
                    path = os.path.join(outdir, f"{pid}-sample.json")
                    doc = {"property": pid, **b, "message": msg, "job": job}
                    ok, _ = replay_one(doc, path)
                    if ok:
                        violations.append({**doc, "path": path})
                        break
                if st != "ok" or cov != smp["covers"]:
                    problems.append(
                        f"{job}: encoding and real code disagree on {smp['inputs']}: {st} {msg} {cov} vs {smp['covers']}"
                    )
                else:
                    validated += 1

    tot: dict[str, Any] = {}
    funcs: dict[str, int] = {}
    for r in results.values():
        for k, v in r.get("stats", {}).items():
            if isinstance(v, (int, float)):
                tot[k] = tot.get(k, 0) + v
        for k, v in r.get("stats", {}).get("functions", {}).items():
            if k.startswith("wizard"):
                funcs[k] = funcs.get(k, 0) + v
    wall = round(time.monotonic() - t0, 2)
    ev = {
        "property": pid,
        "tier": tier,
        "seed": seed,
        "level": "model_checking",
        "coverage": {
            "states": tot.get("paths", 0),
            "transitions": tot.get("forks", 0),
            "traces_validated_against_impl": validated,
            "samples": [
                {"job": j, "inputs": s_["inputs"], "covers": s_["covers"]} for j, s_ in exp[:: max(1, len(exp) // 8)][:8]
            ],
            "jobs": len(_JOBS),
            "jobs_exhausted": sum(1 for r in results.values() if r["status"] == "ok"),
            "infeasible_or_assumed_away_paths": tot.get("aborted", 0),
            "solver_queries": tot.get("queries", 0),
            "queries_sat": tot.get("sat", 0),
            "queries_unsat": tot.get("unsat", 0),
            "queries_unknown": tot.get("unknown", 0),
            "solver_s": round(tot.get("solver_s", 0.0), 2),
            "assertions_on_paths": tot.get("checks", 0),
            "assertions_by_solver_query": tot.get("checks_solver", 0),
            "assertions_by_term_simplification": tot.get("checks_syntactic", 0),
            "lazy_axioms_added": tot.get("refinements", 0),
            "functions_encoded": sorted(funcs),
            "modules_encoded": sorted(m for m in finder.loaded if m.startswith("wizard")),
            "witnesses_reached": covers,
            "bounds": getattr(_MODULE, "BOUNDS", {}).get(tier, getattr(_MODULE, "BOUNDS", {}).get("all", "")),
            "explanation": "states = feasible execution paths of the instrumented real code, each standing for all inputs "
            "satisfying its path condition; transitions = solver-decided branch points; the path tree was exhausted for "
            "every job counted in jobs_exhausted; traces_validated = models of sampled paths re-run on the unmodified "
            "code with the same outcome and the same witness sequence.",
            "solver": "z3 " + z3.get_version_string(),
            "known_findings": sorted(seen_known),
            "problems": problems[:20],
        },
        "assumptions": list(getattr(_MODULE, "ASSUMPTIONS", [])),
        "wall_s": wall,
        "violations": len(violations),
    }
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    with open(os.path.join(HERE, "evidence", f"{pid}.json"), "w") as fp:
        json.dump(ev, fp, indent=1)
    print(
        f"{pid} {tier}: {len(results)}/{len(_JOBS)} jobs, {tot.get('paths', 0)} paths, {tot.get('forks', 0)} branch points, "
        f"{tot.get('queries', 0)} queries ({tot.get('solver_s', 0.0):.1f} s), {tot.get('checks', 0)} assertions, "
        f"{validated} traces validated, {wall} s"
    )
    if os.environ.get("SYMWIZ_VERBOSE"):
        for i, r in sorted(results.items()):
            st = r.get("stats", {})
            print(f"   {r['job']}: {r['status']} paths={st.get('paths')} queries={st.get('queries')} solver={st.get('solver_s', 0):.1f} wall={r['wall_s']} maxcalls")
        print("   covers", covers)
    for k in sorted(seen_known):
        print(f"KNOWN-FINDING: property={pid} {k}")
    if violations:
        v = violations[0]
        print(f"  job {v['job']}: {v['message']}")
        print(f"  inputs {json.dumps(v['inputs'])}")
        print(f"VIOLATION property={pid} replay={v['path']}")
        return 1
    if problems:
        for p in problems[:10]:
            print("PROBLEM " + p)
        print(f"INCONCLUSIVE property={pid}")
        return 2
    print(f"OK property={pid}")
    return 0


if __name__ == "__main__":
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
    rc = main(sys.argv)
    sys.stdout.flush()
    os._exit(rc)
