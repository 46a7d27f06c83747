#!/usr/bin/env python3
"""Run one property's check:  check.py C01 [--tier quick|thorough] [--seed N] [--replay FILE]

exit 0  held on everything observed
exit 1  VIOLATION property=<id> replay=<path>
exit 2  no verdict (monitors never reached, or the harness itself failed)
"""
import argparse
import json
import os
import shutil
import subprocess
import sys
import tempfile
import time
from collections import Counter

HERE = os.path.dirname(os.path.abspath(__file__))
PY = "/opt/venv/bin/python" if os.path.exists("/opt/venv/bin/python") else sys.executable
JOBS = 8
CPU_PER_CASE = 150


def meta():
    """Property plans, read without importing the code under test."""
    sys.path.insert(0, HERE)
    from ntmv.plan import PLAN
    return PLAN


def known_findings():
    p = os.path.join(HERE, "known_findings.json")
    if not os.path.exists(p):
        return {}
    with open(p) as f:
        return {k["key"]: k for k in json.load(f)["findings"] if k.get("status") == "known"}


def worker(prop, tier, seed, w, n, count, wall, out, only=None):
    env = dict(os.environ)
    env["PYTHONPATH"] = HERE
    env["PYTHONHASHSEED"] = str(hashseed(seed, w))
    env["PYTHONDONTWRITEBYTECODE"] = "1"
    env["OMP_NUM_THREADS"] = env["OPENBLAS_NUM_THREADS"] = "1"
    cmd = [PY, "-B", "-m", "ntmv.worker", prop, tier, str(seed), str(w), str(n), str(count), str(wall),
           str(CPU_PER_CASE), out]
    if only is not None:
        cmd.append(str(only))
    return subprocess.Popen(cmd, cwd=HERE, env=env, stdout=subprocess.DEVNULL if not os.environ.get("NTMV_DEBUG") else None,
                            stderr=open(out + ".err", "w"))


def hashseed(seed, w):
    return (seed * 7919 + w * 104729) % 4294967295


def read(out):
    rows = []
    if os.path.exists(out):
        with open(out) as f:
            for line in f:
                try:
                    rows.append(json.loads(line))
                except ValueError:
                    pass
    return rows


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"), choices=["quick", "thorough"])
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1") or 1))
    ap.add_argument("--replay")
    ap.add_argument("--scale", type=float, default=1.0)
    a = ap.parse_args()
    plan = meta()[a.prop]
    tmp = tempfile.mkdtemp(prefix="ntmv-%s-" % a.prop)
    try:
        if a.replay:
            return replay(a, tmp)
        return run(a, plan, tmp)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def replay(a, tmp):
    with open(a.replay) as f:
        r = json.load(f)
    out = os.path.join(tmp, "r")
    p = worker(r["property"], r["tier"], r["seed"], r["worker"], r["workers"], r["idx"] + 1, 1e6, out, r["idx"])
    p.wait()
    rows = [x for x in read(out) if x.get("v")]
    for x in rows:
        for m in x["v"]:
            print("  " + m)
    if rows:
        print("VIOLATION property=%s replay=%s" % (r["property"], a.replay))
        return 1
    err = open(out + ".err").read().strip()
    err = "\n".join([x["harness"] for x in read(out) if "harness" in x] + [err])
    if p.returncode not in (0, 3) or err.strip():
        print(err[-3000:])
        return 2
    print("replay: not reproduced")
    return 0


def run(a, plan, tmp):
    t0 = time.time()
    tier = plan[a.tier]
    count = max(1, int(tier["cases"] * a.scale))
    jobs = min(JOBS, count)
    outs = [os.path.join(tmp, "w%d" % w) for w in range(jobs)]
    ps = [worker(a.prop, a.tier, a.seed, w, jobs, count, tier["wall"], outs[w]) for w in range(jobs)]
    hard = tier["wall"] + CPU_PER_CASE + 15
    hung = False
    for p in ps:
        try:
            p.wait(max(1, hard - (time.time() - t0)))
        except subprocess.TimeoutExpired:
            hung = True
            p.kill()
            p.wait()
    errors = []
    n, keys, ev, vio, known, samples, stopped, done = Counter(), set(), 0, [], Counter(), [], 0, 0
    for w, out in enumerate(outs):
        for r in read(out):
            if "stopped" in r:
                stopped += 1
                continue
            if "done" in r:
                done += 1
                continue
            if "harness" in r:
                errors.append(r["harness"])
                continue
            ev += 1
            n.update(r.get("n", {}))
            keys.update(r.get("k", ()))
            for k in r.get("known", ()):
                known[k] += 1
            if r.get("v"):
                vio.append((r["idx"], w, r))
            elif r.get("log") and len(samples) < 3:
                samples.append({"case": r["idx"], "workload": r["log"][:60]})
    for p, out in zip(ps, outs):
        if p.returncode not in (0, 3):
            errors.append(open(out + ".err").read().strip()[-2500:])
    vio.sort(key=lambda x: x[0])
    listed = known_findings()
    for k, c in sorted(known.items()):
        if k in listed and listed[k]["property"] == a.prop:
            print("KNOWN-FINDING: property=%s %s" % (a.prop, listed[k]["what"]))
        else:
            vio.append((-1, 0, {"idx": -1, "v": ["finding %s is not listed as known" % k]}))
    paths = []
    if vio:
        od = os.path.join(HERE, "out")
        os.makedirs(od, exist_ok=True)
        for idx, w, r in vio[:5]:
            path = os.path.join(od, "%s-%s-%s-%s.json" % (a.prop, a.tier, a.seed, idx))
            with open(path, "w") as f:
                json.dump({"property": a.prop, "tier": a.tier, "seed": a.seed, "idx": idx, "worker": w, "workers": jobs,
                           "hashseed": hashseed(a.seed, w), "violations": r["v"], "workload": r.get("log")}, f, indent=1, default=str)
            paths.append(path)
            print("case %s:" % idx)
            for m in r["v"][:6]:
                print("  " + m)
    missing = [k for k in plan["needs"] if n.get(k, 0) == 0]
    wall = round(time.time() - t0, 1)
    evid = {
        "property": a.prop, "tier": a.tier, "seed": a.seed, "level": "exploration",
        "coverage": {
            "evaluations": ev, "distinct_nontrivial": len(keys), "rule": plan["rule"], "samples": samples,
            "planned_cases": count, "workers_stopped_by_time": stopped,
            "hash_seeds": [hashseed(a.seed, w) for w in range(jobs)],
            "observed": dict(sorted(n.items())),
        },
        "assumptions": plan.get("assumptions", []),
        "wall_s": wall, "violations": len(vio),
    }
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    with open(os.path.join(HERE, "evidence", a.prop + ".json"), "w") as f:
        json.dump(evid, f, indent=1, default=str)
    print("%s %s seed=%d: %d cases, %d distinct non-trivial, %.1fs; %s" % (
        a.prop, a.tier, a.seed, ev, len(keys), wall, ", ".join("%s=%d" % kv for kv in sorted(n.items()))))
    if vio:
        print("VIOLATION property=%s replay=%s" % (a.prop, paths[0]))
        return 1
    if errors:
        print("HARNESS ERROR\n" + errors[0])
        return 2
    if hung or missing or not keys or done < jobs:
        print("INCONCLUSIVE: hung=%s monitors never reached: %s, workers done %d/%d" % (hung, missing, done, jobs))
        return 2
    return 0


if __name__ == "__main__":
    sys.exit(main())
