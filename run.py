#!/opt/venv/bin/python
"""run.py PROPERTY quick|thorough   -> exit 0 held, 1 violation, 3 inconclusive"""
import importlib
import json
import multiprocessing as mp
import multiprocessing.connection
import os
import resource
import shutil
import signal
import sys
import tempfile
import time
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True
for v in ("OMP_NUM_THREADS", "OPENBLAS_NUM_THREADS", "MKL_NUM_THREADS"):
    os.environ.setdefault(v, "1")


def work(arg):
    prop, i, fn, kw, scratch = arg
    from vlib.mon import Mon
    m = Mon(prop, i)
    m.scratch = os.path.join(scratch, "job%d" % i)
    os.makedirs(m.scratch, exist_ok=True)
    t = time.time()
    try:
        mod = importlib.import_module("checks." + prop.lower())
        getattr(mod, fn)(m, **kw)
        err = None
    except (ValueError, TypeError, IndexError, KeyError, AttributeError, ArithmeticError) as e:
        # the oracle was handed something it cannot interpret: on a tree where the property holds
        # this never happens (the workload is a function of the seed)
        m.bad("the monitor could not interpret what the code returned: %s: %s" % (type(e).__name__, e),
              trace=traceback.format_exc())
        err = None
    except BaseException:                                       # noqa: BLE001
        err = traceback.format_exc()
    d = m.dump()
    d["job"] = (fn, kw)
    d["err"] = err
    d["t"] = time.time() - t
    return d


def child(arg, out, cpu):
    """one job in a process of its own: a crash of the code under test ends that process only"""
    import faulthandler
    import pickle
    faulthandler.enable(open(out + ".crash", "w"))
    if cpu:
        resource.setrlimit(resource.RLIMIT_CPU, (cpu, cpu + 10))
    d = work(arg)
    with open(out + ".tmp", "wb") as f:
        pickle.dump(d, f)
    os.rename(out + ".tmp", out)


FATAL = {signal.SIGSEGV: "segmentation fault", signal.SIGABRT: "abort", signal.SIGBUS: "bus error", signal.SIGFPE: "arithmetic trap",
         signal.SIGILL: "illegal instruction"}


def reap(p, arg, out, cpu):
    """the result of a finished job process"""
    import pickle
    prop, i, fn, kw, scratch = arg
    if os.path.exists(out):
        with open(out, "rb") as f:
            return pickle.load(f)
    from vlib.mon import Mon
    m = Mon(prop, i)
    d = m.dump()
    d.update(job=(fn, kw), err=None, t=0)
    try:
        trace = open(out + ".crash").read()[:3000]
    except OSError:
        trace = ""
    sig = -p.exitcode if p.exitcode is not None and p.exitcode < 0 else 0
    if sig in FATAL:
        m.bad("the code under test crashed the process: %s" % FATAL[sig], trace=trace)
    elif sig == signal.SIGXCPU:
        m.bad("the code under test did not finish within %d s of CPU time" % cpu, trace=trace)
    else:
        d["err"] = "job process ended with exit code %r\n%s" % (p.exitcode, trace)
        return d
    v = m.dump()
    v.update(job=(fn, kw), err=None, t=0)
    return v


def run_jobs(args, nproc, cpu):
    ctx = mp.get_context("fork")
    todo = list(reversed(args))
    live = {}
    while todo or live:
        while todo and len(live) < nproc:
            a = todo.pop()
            out = os.path.join(a[4], "job%d.result" % a[1])
            p = ctx.Process(target=child, args=(a, out, cpu))
            p.start()
            live[p.sentinel] = (p, a, out)
        for s in mp.connection.wait(list(live)):
            p, a, out = live.pop(s)
            p.join()
            yield reap(p, a, out, cpu)
            if os.path.exists(out):
                os.remove(out)


def known(prop):
    out = []
    p = os.path.join(HERE, "known_findings.jsonl")
    if os.path.exists(p):
        for line in open(p):
            line = line.strip()
            if line.startswith("{"):
                e = json.loads(line)
                if e.get("property") == prop and e.get("status") == "known":
                    out.append(e)
    return out


def main():
    prop, tier = sys.argv[1], (sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick"))
    seed = int(os.environ.get("VERIF_SEED", "1"))
    t0 = time.time()
    mod = importlib.import_module("checks." + prop.lower())
    scratch = tempfile.mkdtemp(prefix="verif_%s_" % prop)
    ev_dir = os.path.join(HERE, "evidence")
    os.makedirs(ev_dir, exist_ok=True)
    err = []
    res = []
    try:
        if hasattr(mod, "prepare"):
            mod.prepare(scratch)
        jobs = mod.jobs(tier, seed)
        # a job is (name, kwargs); longest first is up to the check
        args = [(prop, i, fn, kw, scratch) for i, (fn, kw) in enumerate(jobs)]
        nproc = min(int(os.environ.get("VERIF_PROCS", os.cpu_count() or 4)), len(args))
        for d in run_jobs(args, nproc, 420 if tier == "quick" else 0):
            res.append(d)
            if d["err"]:
                err.append(d)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)
    res.sort(key=lambda d: d["shard"])
    evals = sum(d["evals"] for d in res)
    keys = set()
    count = {}
    viol = []
    samples = []
    for d in res:
        keys |= d["keys"]
        for k, v in d["count"].items():
            count[k] = count.get(k, 0) + v
        for v in d["viol"]:
            v["job"] = {"fn": d["job"][0], "kw": d["job"][1]}
            viol.append(v)
        samples += d["samples"]
    # known findings are matched on the mechanism text of the violation
    kn = known(prop)
    fresh, seen = [], {}
    for v in viol:
        for e in kn:
            if e["match"] in v["what"]:
                seen[e["match"]] = e
                break
        else:
            fresh.append(v)
    missing = {k: (count.get(k, 0), n) for k, n in getattr(mod, "MIN", {}).items() if count.get(k, 0) < n}
    import random
    random.Random(seed).shuffle(samples)
    ev = {"property": prop, "tier": tier, "seed": seed, "level": getattr(mod, "LEVEL", "exploration"),
          "coverage": {"evaluations": evals, "distinct_nontrivial": len(keys), "rule": mod.RULE,
                       "samples": samples[:4], "observed": dict(sorted(count.items())),
                       "jobs": len(res), "job_cpu_max_s": round(max([d["t"] for d in res] or [0]), 1)},
          "assumptions": getattr(mod, "ASSUMPTIONS", []),
          "wall_s": round(time.time() - t0, 2), "violations": len(fresh)}
    if missing:
        ev["coverage"]["below_minimum"] = {k: list(v) for k, v in missing.items()}
    with open(os.path.join(ev_dir, prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
        f.write("\n")
    for e in kn:
        if e["match"] in seen:
            print("KNOWN-FINDING: property=%s %s" % (prop, e["what"]))
    print("%s %s seed=%d: %d evaluations, %d distinct non-trivial, %d violations, %.1f s" %
          (prop, tier, seed, evals, len(keys), len(fresh), time.time() - t0))
    if fresh:
        rp = os.path.join(ev_dir, "%s.replay.json" % prop)
        with open(rp, "w") as f:
            json.dump({"property": prop, "tier": tier, "seed": seed, "violations": fresh[:40]}, f, indent=1)
        for v in fresh[:5]:
            print("  - %s  %s" % (v["what"], json.dumps(v["detail"])[:400]))
        print("VIOLATION property=%s replay=%s" % (prop, rp))
        return 1
    if err:
        for d in err[:3]:
            print("check error in job %s:\n%s" % (d["job"], d["err"]))
        return 3
    if missing:
        print("INCONCLUSIVE: monitors not reached often enough: %s" % missing)
        return 3
    return 0


if __name__ == "__main__":
    sys.exit(main())
