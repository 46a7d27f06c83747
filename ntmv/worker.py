"""Worker process: runs every n-th case of a property and streams what it saw."""
import json
import os
import signal
import sys
import time


def main():
    prop, tier, seed, w, nw, count, wall, cpu, out = sys.argv[1:10]
    seed, w, nw, count, wall, cpu = int(seed), int(w), int(nw), int(count), float(wall), int(cpu)
    only = int(sys.argv[10]) if len(sys.argv) > 10 else None
    real = os.fdopen(os.open(out, os.O_WRONLY | os.O_CREAT | os.O_APPEND), "w")
    dn = os.open(os.devnull, os.O_WRONLY)
    if not os.environ.get("NTMV_DEBUG"):
        os.dup2(dn, 1)
    from . import pristine, workloads
    from .spec import digest
    from .case import run_case, HarnessError

    fn = workloads.PROPS[prop]["run"]
    if workloads.PROPS[prop].get("pristine"):
        pristine.start()
    cur = [None]

    def emit(d):
        real.write(json.dumps(d, default=str) + "\n")
        real.flush()

    def too_long(sig, frm):
        emit({"idx": cur[0], "v": ["no result within %d CPU seconds" % cpu], "cpu": True})
        os._exit(3)

    signal.signal(signal.SIGPROF, too_long)
    t0 = time.time()
    idxs = [only] if only is not None else range(w, count, nw)
    for idx in idxs:
        if time.time() - t0 > wall:
            emit({"stopped": idx})
            break
        cur[0] = idx
        signal.setitimer(signal.ITIMER_PROF, cpu)
        try:
            c = run_case(fn, prop, tier, seed, idx)
        except HarnessError as ex:
            signal.setitimer(signal.ITIMER_PROF, 0)
            emit({"idx": idx, "harness": str(ex)[-2500:]})
            continue
        signal.setitimer(signal.ITIMER_PROF, 0)
        d = {"idx": idx, "n": dict(c.n), "k": [digest(sorted(c.keys))] if c.keys else []}
        if c.known:
            d["known"] = c.known
        if c.v:
            d["v"] = c.v
            d["log"] = c.log
        elif idx < 3:
            d["log"] = c.log
        emit(d)
        if c.v and only is None:
            bad[0] += 1
            if bad[0] >= 3:
                emit({"stopped": idx})
                break
    emit({"done": w})


bad = [0]

if __name__ == "__main__":
    main()
