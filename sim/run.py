#!/opt/venv/bin/python
"""run.py check ID | replay FILE | selftest | list"""
import json
import os
import sys
import time

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)


def reexec():
    """One environment for every run: fixed hash seed and addresses."""
    want = {"PYTHONHASHSEED": os.environ.get("NMT_SIM_HASHSEED", "0"),
            "OMP_NUM_THREADS": "1", "OPENBLAS_NUM_THREADS": "1",
            "DUCC0_NUM_THREADS": "1", "MKL_NUM_THREADS": "1"}
    if os.environ.get("NMT_SIM_REEXEC") == "1":
        return
    env = dict(os.environ, NMT_SIM_REEXEC="1", **want)
    try:
        import ctypes
        libc = ctypes.CDLL(None)
        libc.personality.argtypes = [ctypes.c_ulong]
        cur = libc.personality(0xffffffff)
        if cur >= 0:
            libc.personality(cur | 0x0040000)   # ADDR_NO_RANDOMIZE
    except Exception:
        pass
    py = "/opt/venv/bin/python"
    if not os.path.exists(py):
        py = sys.executable
    os.execve(py, [py, "-X", "faulthandler=0"][:1] + sys.argv, env)


# property -> engine modules with their share of the time
ENGINES = {"S01": ["sched"], "S02": ["sched"], "S03": ["sched"],
           "S04": ["sched"], "S05": ["sched"]}
SECONDS = {"quick": 45, "thorough": 600}
LEVEL, LONGER = {}, {}
try:
    from registry import ENGINES, SECONDS, LONGER, LEVEL, META  # noqa: F811,F401
except ImportError:
    META = {}


def check(pid):
    import harness as H
    tier = os.environ.get("VERIF_TIER", "quick")
    if tier not in SECONDS:
        tier = "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    print("property %s tier %s VERIF_SEED %d" % (pid, tier, seed), flush=True)
    t0 = time.time()
    import simlib as S
    S.init()
    S.private()
    print("simulated build %s" % S.so_path, flush=True)
    known = H.known_findings(pid)
    secs = float(os.environ.get("NMT_SIM_SECONDS", 0)) or (
        LONGER.get(pid, SECONDS[tier]) if tier == "quick" else SECONDS[tier])
    engines = ENGINES[pid]
    tot = None
    parts = {}
    for name, share in engines:
        eng = __import__(name)
        r = H.explore(pid, eng, seed, tier, secs*share, known=known,
                      maxtasks=getattr(eng, "MAXTASKS", {}).get((pid, tier), 1 << 30))
        parts[name] = dict(runs=r.evals, steps=r.steps, distinct=len(r.distinct), tasks=r.tasks,
                           wall_s=round(r.wall, 1))
        if tot is None:
            tot = r
        else:
            tot.evals += r.evals
            tot.steps += r.steps
            tot.tasks += r.tasks
            tot.distinct |= r.distinct
            tot.count.update(r.count)
            tot.samples += r.samples
            tot.viol += r.viol
            tot.wall += r.wall
            for k, v in r.knownhits.items():
                tot.knownhits[k] = tot.knownhits.get(k, 0) + v
        if tot.viol:
            break
    for k in known:
        print("KNOWN-FINDING: property=%s %s (met %d times in this run)" % (
            pid, k["what"], tot.knownhits.get(k["id"], 0)))
    code = 0
    if tot.viol:
        code = report(pid, tot)
    evidence(pid, tier, seed, tot, parts, time.time()-t0)
    print("%d simulated runs, %d distinct, %d scheduling steps, %.0f s, counters %s" % (
        tot.evals, len(tot.distinct), tot.steps, time.time()-t0, dict(tot.count)), flush=True)
    if code == 0 and tot.evals < META.get("min_runs", {}).get(pid, 10):
        print("ERROR: too few simulated runs to decide", flush=True)
        return 2
    return code


def report(pid, tot):
    """Minimise the first violations, confirm them in fresh processes."""
    import subprocess
    import harness as H
    import simlib as S  # noqa: F401
    # the smallest task number first: independent of the workers' speed
    done = set()
    shown = 0
    for v in sorted(tot.viol, key=lambda v: v["task"]):
        sig = json.dumps(v["sig"], sort_keys=True)
        if sig in done or shown >= 3:
            continue
        done.add(sig)
        eng = __import__(v["replay"]["engine"])
        rd = dict(v["replay"])
        raw = dict(rd)
        raw.pop("trace", None)
        raw.update(message=v["msg"], sig=v["sig"])
        try:
            mn = eng.minimise(rd, v["sig"], time.monotonic()+40)
            mn.pop("trace", None)
            mn.update(message=v["msg"], sig=v["sig"])
        except Exception as e:
            print("minimisation failed: %r" % e)
            mn = raw
        for cand, tag in ((mn, ""), (raw, "-raw")):
            p = H.write_replay(cand, tag)
            r = subprocess.run([sys.executable, os.path.abspath(__file__), "replay", p],
                               stdout=subprocess.PIPE, timeout=400)
            if r.returncode == 1:
                print("VIOLATION property=%s replay=%s" % (pid, p))
                print("  %s: %s" % (json.dumps(v["sig"]), v["msg"]))
                print("  " + r.stdout.decode().strip().splitlines()[-1][:400], flush=True)
                shown += 1
                break
            print("replay of %s did not reproduce (exit %d)" % (p, r.returncode))
    if shown:
        return 1
    print("ERROR: violations were seen but none replays; first: %s %s" % (
        tot.viol[0]["sig"], tot.viol[0]["msg"]))
    return 2


def evidence(pid, tier, seed, tot, parts, wall):
    import harness as H
    os.makedirs(H.EVID, exist_ok=True)
    c = dict(tot.count)
    faults = {k: v for k, v in c.items() if k.startswith(("f_", "n_", "inj_"))}
    probes = {k: v for k, v in c.items() if k not in faults}
    hours = max(tot.wall, 1e-3)/3600.
    ev = dict(property=pid, tier=tier, seed=seed, level=LEVEL.get(pid, "exploration"),
              coverage=dict(
                  evaluations=int(tot.evals), distinct_nontrivial=len(tot.distinct),
                  rule=META.get("rule", {}).get(pid, ""),
                  samples=tot.samples[:6] or [dict(note="none recorded")],
                  tasks=int(tot.tasks),
                  runs_per_hour=int(tot.evals/hours), seeds_per_hour=int(tot.tasks/hours),
                  simulated_time=dict(scheduling_steps=int(tot.steps),
                                      note="the code reads no clock; simulated time is counted in scheduling points passed"),
                  faults_injected=faults, probes=probes, engines=parts,
                  distinct_measure=META.get("distinct", {}).get(pid, ""),
                  real_components=META.get("real", {}).get(pid, []),
                  stubbed_components=META.get("stub", {}).get(pid, []),
                  known_findings_met=tot.knownhits),
              assumptions=META.get("assume", {}).get(pid, []),
              wall_s=round(wall, 2), violations=len(tot.viol))
    with open(os.path.join(H.EVID, pid + ".json"), "w") as f:
        f.write(json.dumps(ev, indent=1, default=H._js))


def replay(path):
    import simlib as S
    S.init()
    S.private()
    with open(path) as f:
        rd = json.load(f)
    eng = __import__(rd["engine"])
    k = eng.replay(rd)
    if k is None:
        print("REPLAY ok: the recorded violation does not occur")
        return 0
    print("VIOLATION property=%s replay=%s reproduced: %s %s %s" % (
        rd["property"], path, k[0], k[1], k[2]))
    return 1


def main():
    reexec()
    cmd = sys.argv[1]
    try:
        if cmd == "check":
            sys.exit(check(sys.argv[2]))
        if cmd == "replay":
            sys.exit(replay(sys.argv[2]))
        if cmd == "selftest":
            import selftest
            sys.exit(selftest.main(sys.argv[2:]))
    except SystemExit:
        raise
    except BaseException:
        import traceback
        traceback.print_exc()
        print("ERROR of the check itself", flush=True)
        sys.exit(2)
    sys.exit(2)


if __name__ == "__main__":
    main()
