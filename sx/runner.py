"""Decides one property: explores its jobs in parallel, replays every
counterexample on the unmodified code, writes the evidence file.

exit 0: no counterexample survived replay; exit 1: VIOLATION line printed.
"""
from __future__ import annotations

import hashlib
import json
import multiprocessing as mp
import os
import re
import subprocess
import sys
import time
import traceback
from concurrent.futures import ThreadPoolExecutor, wait

from sx import boot as bootmod
from sx import core, etree

HERE = bootmod.HERE
REPO = bootmod.REPO
PY = "/opt/venv/bin/python"
_STATE = None
_NEW = set()
_TOOL = 4


def _monitor():
    mon = sys.monitoring
    root = os.path.join(REPO, "fastkml") + os.sep

    def start(code, _off):
        if code.co_filename.startswith(root):
            _NEW.add(f"{code.co_filename[len(root):]}:{code.co_qualname}")
        return mon.DISABLE

    mon.use_tool_id(_TOOL, "sx")
    mon.register_callback(_TOOL, mon.events.PY_START, start)
    mon.set_events(_TOOL, mon.events.PY_START)


def run_job(job):
    import importlib

    from sx.env import SymEnv
    t0 = time.monotonic()
    _NEW.clear()
    left = job["deadline"] - t0
    out = {"n": job["n"], "first": job.get("first", False), "name": job["name"], "stats": {}, "incomplete": {}, "findings": [], "reached": {}, "functions": [],
           "complete": False, "wall": 0.0}
    if left <= 0.5:
        out["incomplete"] = {"not started": 1}
        return out
    mod = importlib.import_module("harness." + job["module"])
    fn = getattr(mod, job["fn"])
    eng = core.Engine(max_paths=job.get("max_paths", 3000), time_limit=min(left, job.get("time", 60.0)))

    def body():
        fn(SymEnv(eng, job["params"]), **job["params"])

    def reset():
        _STATE.restore()
        etree.reset()

    try:
        out["complete"] = eng.explore(body, reset)
    except BaseException as exc:  # noqa: BLE001
        out["incomplete"] = {"engine error": 1}
        out["error"] = "".join(traceback.format_exception(exc))[-2000:]
    finally:
        reset()
    out["stats"] = eng.stats
    if core.FORKS:
        print(job["name"], *[f"\n   {v} {k}" for k, v in sorted(core.FORKS.items(), key=lambda kv: -kv[1])[:12]], file=sys.stderr)
        core.FORKS.clear()
    out["incomplete"] = {**out["incomplete"], **eng.incomplete}
    seen = {}
    for f in eng.findings:
        k = seen.setdefault(f["label"], 0)
        if k < 3:
            seen[f["label"]] += 1
            out["findings"].append({**f, "module": job["module"], "fn": job["fn"], "params": job["params"],
                                    "job": job["name"]})
    out["reached"] = eng.reached
    out["functions"] = sorted(_NEW)
    out["wall"] = time.monotonic() - t0
    return out


FIRST = 20.0


def interleaved(jobs):
    """Jobs of different harnesses take turns, so that slow ones of one kind do
    not keep the others from being run."""
    groups = {}
    for j in jobs:
        groups.setdefault((j["module"], j["fn"]), []).append(j)
    seq = []
    for g in groups.values():
        seq += [((i + 0.5) / len(g), j) for i, j in enumerate(g)]
    return [j for _, j in sorted(seq, key=lambda x: x[0])]


def replay(path, flavour, timeout=60):
    """True/False/None: reproduced, not reproduced, no answer."""
    env = {k: v for k, v in os.environ.items() if not k.startswith("PYTHON")}
    env["PYTHONHASHSEED"] = "0"
    env["FASTKML_REPO"] = REPO
    try:
        p = subprocess.run([PY, "-B", os.path.join(HERE, "replay.py"), path, "--flavour", flavour], cwd="/tmp",
                           env=env, capture_output=True, text=True, timeout=timeout)
    except subprocess.TimeoutExpired:
        return None, "timeout"
    if p.returncode == 1:
        return True, p.stdout.strip()[-1500:]
    if p.returncode == 0:
        return False, p.stdout.strip()[-300:]
    return None, (p.stdout + p.stderr).strip()[-1500:]


def known_findings(prop):
    path = os.path.join(HERE, "known_findings.txt")
    out = []
    if os.path.exists(path):
        with open(path, encoding="utf-8") as fh:
            for line in fh:
                line = line.strip()
                if line and not line.startswith("fixed:"):
                    e = json.loads(line)
                    if e.get("property") == prop and e.get("status") != "fixed":
                        out.append(e)
    return out


def matches(entry, finding, text):
    return re.search(entry["job"], finding["job"]) and re.search(entry["label"], finding["label"]) and re.search(
        entry.get("detail", ""), text + "\n" + finding["detail"])


def main(argv):
    import argparse
    ap = argparse.ArgumentParser()
    ap.add_argument("property")
    ap.add_argument("--tier", default="quick", choices=("quick", "thorough"))
    ap.add_argument("--jobs", default="", help="regular expression on job names")
    ap.add_argument("--budget", type=float, default=0)
    ap.add_argument("--workers", type=int, default=8)
    ap.add_argument("-v", action="store_true")
    a = ap.parse_args(argv)
    t0 = time.monotonic()
    global _STATE
    bootmod.boot()
    import importlib
    props = importlib.import_module("harness.props")
    prop = props.PROPS[a.property]
    text = importlib.import_module("catalog").BY_ID[a.property]
    budget = a.budget or (prop.get("quick_s", 240) if a.tier == "quick" else prop.get("thorough_s", 600))
    jobs = prop["jobs"](a.tier)
    for m in sorted({j["module"] for j in jobs}):
        importlib.import_module("harness." + m)
    if a.jobs:
        jobs = [j for j in jobs if re.search(a.jobs, j["name"])]
    deadline = time.monotonic() + budget
    for j in jobs:
        j["deadline"] = deadline
    _STATE = bootmod.State()
    _monitor()
    results, findings = {}, []
    labels = {}
    rdir = os.path.join(HERE, "evidence", "replay")
    os.makedirs(rdir, exist_ok=True)
    known = known_findings(a.property)
    confirmed, unconfirmed, kf = [], [], {}
    done_labels = set()

    def one(f):
        if f["label"] in done_labels:
            return
        blob = json.dumps({"property": a.property, **f}, indent=1, default=str)
        path = os.path.join(rdir, f"{a.property}-{hashlib.sha1(blob.encode()).hexdigest()[:10]}.json")
        with open(path, "w", encoding="utf-8") as fh:
            fh.write(blob)
        outs = []
        hit = None
        for fl in ("lxml", "std"):
            r, text = replay(path, fl)
            outs.append(text)
            if r:
                hit = (fl, r, text)
                break
        if hit is None:
            os.unlink(path)
            unconfirmed.append({"label": f["label"], "job": f["job"], "detail": f["detail"][:600],
                                "replay": [o[:200] for o in outs]})
            return
        k = next((e for e in known if matches(e, f, hit[2])), None)
        if k is not None:
            kf[k["what"]] = k
            os.unlink(path)
            return
        done_labels.add(f["label"])
        confirmed.append((f, path, hit))

    ctx = mp.get_context("fork")
    stopped = False
    pending = []
    # a first pass gives every job a short time, a second the rest to those that need it
    jobs = interleaved(jobs)
    for n, j in enumerate(jobs):
        j["n"] = n
    todo = [{**j, "time": min(j["time"], FIRST), "first": True} for j in jobs]
    with ThreadPoolExecutor(4) as ex:
        while todo and not stopped:
            again = []
            if confirmed and not todo[0].get("first"):
                break               # what is found is enough
            with ctx.Pool(min(a.workers, len(todo))) as pool:
                for r in pool.imap_unordered(run_job, todo):
                    job = jobs[r["n"]]
                    if r["first"] and "time-budget" in r["incomplete"] and job["time"] > FIRST and not r["findings"]:
                        again.append(job)
                    results[r["n"]] = r
                    if a.v and (r["findings"] or r["incomplete"] or r["wall"] > 5):
                        print(f"  {r['name']}: {r['wall']:.1f}s paths={r['stats'].get('paths')} "
                              f"findings={len(r['findings'])} {r['incomplete']} {r.get('error', '')}", file=sys.stderr)
                    for f in r["findings"]:
                        k = labels.setdefault(f["label"], 0)
                        if k < 4 and len(findings) < 400:
                            labels[f["label"]] += 1
                            findings.append(f)
                            pending.append(ex.submit(one, f))
                    if len(confirmed) >= 6 or (confirmed and len(labels) >= 24):
                        stopped = True
                        pool.terminate()
                        break
            wait(pending)
            todo = again
        explore_s = time.monotonic() - t0
        if stopped:
            for p in pending:
                p.cancel()
    results = list(results.values())
    tot = {}
    inc = {}
    reached = {}
    funcs = set()
    for r in results:
        for k, v in r["stats"].items():
            tot[k] = tot.get(k, 0) + v
        for k, v in r["incomplete"].items():
            inc[k] = inc.get(k, 0) + v
        for k, v in r["reached"].items():
            reached[k] = reached.get(k, 0) + v
        funcs.update(r["functions"])
    ncomplete = sum(1 for r in results if r["complete"])
    want = prop.get("reach", {}).get(a.tier, prop.get("reach", {}).get("all", []))
    missing = [w for w in want if w not in reached]
    seed = os.environ.get("VERIF_SEED", "1")
    ev = {
        "property": a.property, "tier": a.tier, "seed": int(seed) if seed.isdigit() else 1,
        "level": "other",
        "coverage": {
            "explanation": text["explanation"],
            "bounds": text["bounds"],
            "technique": "symbolic execution of /repo's source with z3; counterexamples replayed on the unmodified code",
            "jobs": len(jobs), "jobs_completed": ncomplete, "jobs_run": len(results),
            "exhausted_within_bounds": ncomplete == len(jobs) and not stopped and not inc,
            "paths": tot.get("paths", 0), "forks": tot.get("forks", 0),
            "queries": tot.get("queries", 0), "queries_unknown": tot.get("unknown", 0),
            "assertions_checked": tot.get("checks", 0), "assertions_sent_to_solver": tot.get("checks_solver", 0),
            "solver_s": round(tot.get("solver_s", 0.0), 2),
            "incomplete": dict(sorted(inc.items(), key=lambda kv: -kv[1])[:25]),
            "incomplete_jobs": [r["name"] for r in results if not r["complete"]][:40],
            "vacuity": {"labels_reached": len(reached), "missing": missing,
                        "sample": dict(sorted(reached.items(), key=lambda kv: -kv[1])[:15])},
            "functions_encoded": sorted(funcs), "functions_encoded_count": len(funcs),
            "counterexamples": len(findings), "confirmed": len(confirmed), "not_reproduced": unconfirmed[:10],
            "known_findings": sorted(kf),
        },
        "violations": len(confirmed),
        "assumptions": ["models of the XML libraries, str, float, datetime, re and arrow under sx/ behave as the real ones on the "
                        "operations used; a counterexample that does not replay on the real code is not reported"],
        "wall_s": round(time.monotonic() - t0, 2),
        "explore_s": round(explore_s, 2),
    }
    with open(os.path.join(HERE, "evidence", a.property + ".json"), "w", encoding="utf-8") as fh:
        json.dump(ev, fh, indent=1, default=str)
    for w in sorted(kf):
        print(f"KNOWN-FINDING: property={a.property} {w}")
    print(f"{a.property} [{a.tier}] {ncomplete}/{len(jobs)} jobs complete, {tot.get('paths', 0)} paths, "
          f"{tot.get('queries', 0)} queries, {tot.get('checks', 0)} assertions, solver {tot.get('solver_s', 0):.1f}s, "
          f"wall {time.monotonic() - t0:.1f}s, incomplete {dict(sorted(inc.items(), key=lambda kv: -kv[1])[:6])}")
    if missing:
        print(f"note: not reached: {missing}")
    for u in unconfirmed[:10]:
        print(f"note: counterexample not reproduced on the real code: {u['label']} [{u['job']}]")
        if a.v:
            print("   ", u)
    if confirmed:
        for f, path, hit in confirmed[:8]:
            print(f"  {f['label']} [{f['job']}, {hit[0]}]: {hit[2][:700]}")
            print(f"VIOLATION property={a.property} replay={path}")
        return 1
    return 0


if __name__ == "__main__":
    try:
        rc = main(sys.argv[1:])
    except SystemExit:
        raise
    except BaseException:  # noqa: BLE001
        traceback.print_exc()
        rc = 2
    sys.stdout.flush()
    os._exit(rc)
