"""One seed is one execution: every engine's tasks, run twice and in processes
with another hash seed and in another order, must do exactly the same."""
import hashlib
import json
import os
import subprocess
import sys
import time


def digests(pids, n, seed):
    import harness as H
    import simlib as S
    from registry import ENGINES
    S.init()
    S.private()
    out = {}
    for pid in pids:
        for name, _ in ENGINES[pid]:
            eng = __import__(name)
            for i in n:
                r = eng.task(pid, i, H.sub(seed, pid, i), "quick", time.monotonic()+1e6)
                d = repr((r.evals, r.steps, sorted(r.distinct), sorted(r.count.items()),
                          [(v["sig"], v["msg"]) for v in r.viol]))
                out["%s %s %d" % (pid, name, i)] = hashlib.sha256(d.encode()).hexdigest()[:16]
    return out


def main(args):
    from registry import ENGINES
    if args and args[0] == "digest":
        print("DIGEST "+json.dumps(digests(args[1].split(","), [int(x) for x in args[2].split(",")], int(args[3]))))
        return 0
    pids = args[0].split(",") if args else sorted(ENGINES)
    n = int(args[1]) if len(args) > 1 else 3
    runs = []
    for hs, order in (("0", 1), ("0", 1), ("4242", -1)):
        ks = []
        for p in pids:
            env = dict(os.environ, NMT_SIM_REEXEC="0", NMT_SIM_HASHSEED=hs)
            ks.append(subprocess.Popen([sys.executable, os.path.join(os.path.dirname(os.path.abspath(__file__)), "run.py"),
                                        "selftest", "digest", p, ",".join(str(x) for x in list(range(n))[::order]), "7"],
                                       stdout=subprocess.PIPE, env=env))
            if len(ks) % 8 == 0:
                ks[-8].wait()
        d = {}
        for k in ks:
            for l in k.communicate()[0].decode().splitlines():
                if l.startswith("DIGEST "):
                    d.update(json.loads(l[7:]))
        runs.append(d)
    bad = [k for k in runs[0] if any(r.get(k) != runs[0][k] for r in runs)]
    print("%d tasks, each run 3 times (two hash seeds, two orders): %s" % (
        len(runs[0]), "all identical" if not bad and runs[0] else "DIFFERENT: %s" % bad))
    return 1 if bad or not runs[0] else 0
