#!/usr/bin/env python3
"""Decides one property by seeded simulation.

    check.py PROPERTY [--tier quick|thorough] [--seconds N] [--workers N]
    check.py --replay FILE

Exit 0: no violation in anything explored.  Exit 1 with "VIOLATION property=<id> replay=<path>": a violation, found by
a seeded run, minimised, and reproduced from its replay file in a fresh process.  Exit 2: the check itself failed.
"""
import argparse
import json
import os
import re
import signal
import subprocess
import sys
import time

VERIF = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, VERIF)
import build as builder  # noqa: E402

FAULTS = ["alloc_fail", "open_fail", "write_error", "disk_full", "short_write", "eintr", "close_error", "read_error",
          "short_read", "crash", "user_code_throws"]
COLS = ["R", "seed", "ok", "tag", "steps", "switches", "conflicts", "sched", "hash", "digest", "checks", "retries",
        "skipped", "ops", "io", "allocs", "losses", "restarts", "callers", "clockReads", "entropyReads", "fired",
        "checksBy", "msg", "other"]
REAL = ["delynoi/src (all of it)", "lib/utilities", "clipper", "Triangle (triangle.c)", "libstdc++ streams and containers"]
STUB = ["thread scheduler (callers are real threads that pass a baton)", "malloc/free/operator new", "open/read/write/close "
        "and the disk below them", "clocks", "environment", "std::random_device and the generators' entropy",
        "mutexes, condition variables, once-guards", "process exit and crash"]
QUICK, THOROUGH = 45, 900
RULE = ("one evaluation is one seed: a generated history of calls (per caller, per process lifetime), its faults, losses and "
        "schedule, executed against the real library; it is counted as non-trivial when a property oracle was evaluated in it "
        "and at least one of these happened: the caller was switched, a fault fired, a process restarted, or two or more calls "
        "of this history ran one after another; distinct by the hash of its whole event trace")


def findings():
    out = []
    path = os.path.join(VERIF, "known-findings.txt")
    if os.path.exists(path):
        with open(path) as f:
            for line in f:
                m = re.match(r"finding: property=(\S+) match=/(.*)/ (.*)$", line.strip())
                if m:
                    out.append((m.group(1), m.group(2), m.group(3)))
    return out


def env():
    e = {k: v for k, v in os.environ.items() if k in ("PATH", "TMPDIR")}
    e["LC_ALL"] = "C"
    return e


def call(cmd, timeout):
    p = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, errors="replace", env=env(),
                         start_new_session=True)
    try:
        out, err = p.communicate(timeout=timeout)
        return p.returncode, out, err
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, signal.SIGKILL)
        p.communicate()
        return None, "", "timed out"


def parse(line):
    f = line.rstrip("\n").split("\t")
    if len(f) < len(COLS) or f[0] != "R":
        return None
    r = dict(zip(COLS, f))
    for k in COLS[4:21] + ["seed"]:
        r[k] = int(r[k])
    r["fired"] = [int(x) for x in r["fired"].split(",")]
    r["checksBy"] = {k: int(v) for k, v in (x.split("=") for x in r["checksBy"].split(",") if "=" in x)}
    return r


def sweep(sim, prop, base, workers, seconds):
    procs = []
    for w in range(workers):
        procs.append(subprocess.Popen([sim, "run", prop, str(base + w), str(workers), str(seconds)], stdout=subprocess.PIPE,
                                      stderr=subprocess.PIPE, text=True, errors="replace", env=env(), start_new_session=True))
    import threading
    runs, errs = [], []
    lock = threading.Lock()

    def pump(p):
        for line in p.stdout:
            r = parse(line)
            if r:
                with lock:
                    runs.append(r)

    def pumpe(p):
        e = p.stderr.read()
        if e.strip():
            with lock:
                errs.append(e.strip()[:300])

    ts = []
    for p in procs:
        for f in (pump, pumpe):
            t = threading.Thread(target=f, args=(p,), daemon=True)
            t.start()
            ts.append(t)
    end = time.time() + seconds + 240
    failed_at = None
    while any(p.poll() is None for p in procs):
        time.sleep(0.05)
        now = time.time()
        with lock:
            bad = any(r["ok"] != "ok" for r in runs)
        if bad and failed_at is None:
            failed_at = now
        if now > end or (failed_at and now > failed_at + 3):  # a failure found: the others stop soon
            for p in procs:
                if p.poll() is None:
                    os.killpg(p.pid, signal.SIGKILL)
            break
    codes = [p.wait() for p in procs]
    for t in ts:
        t.join(5)
    if not failed_at and any(c != 0 for c in codes):
        errs.append("a worker ended with %s" % codes)
    return runs, errs


def nontrivial(r):
    return r["checks"] > 0 and (r["switches"] > 0 or sum(r["fired"]) > 0 or r["restarts"] > 0 or r["ops"] >= 2)


def sample(sim, prop, r):
    code, out, _ = call([sim, "gen", prop, str(r["seed"])], 60)
    lines = [x if len(x) < 160 else x[:157] + "..." for x in out.splitlines()]
    return {"seed": r["seed"], "plan": lines[:40], "plan_lines": len(lines), "outcome": r["ok"], "steps": r["steps"],
            "switches": r["switches"], "oracle_checks": r["checksBy"],
            "faults_fired": {FAULTS[i]: n for i, n in enumerate(r["fired"]) if n}, "trace_hash": "%016x" % r["hash"]}


def determinism(sim, prop, runs, n):
    import random
    pick = random.Random(len(runs)).sample(runs, min(n, len(runs)))
    bad = []
    for r in pick:
        code, out, _ = call([sim, "run", prop, str(r["seed"]), "1", "100", "1"], 300)
        q = [parse(x) for x in out.splitlines()]
        if len(q) != 1 or not q[0] or q[0]["hash"] != r["hash"]:
            bad.append(r["seed"])
    return len(pick), bad


def evidence(prop, tier, seed, sim, runs, errs, wall, searched, violations, det, extra):
    fired = {FAULTS[i]: sum(r["fired"][i] for r in runs) for i in range(len(FAULTS))}
    fired["lost_or_torn_file_at_crash"] = sum(r["losses"] for r in runs)
    fired["process_restart"] = sum(r["restarts"] for r in runs)
    by = {}
    for r in runs:
        for k, v in r["checksBy"].items():
            by[k] = by.get(k, 0) + v
    good = [r for r in runs if r["ok"] == "ok"]
    nt = {r["hash"] for r in good if nontrivial(r)}
    total = lambda k: sum(r[k] for r in runs)  # noqa: E731
    few = []
    if good:
        good.sort(key=lambda r: (r["switches"] > 0) + (sum(r["fired"]) > 0) + (r["restarts"] > 0))
        few = [good[-1], good[len(good) // 2], good[0]][:max(1, min(3, len(good)))]
    cov = {
        "evaluations": len(runs),
        "distinct_nontrivial": len(nt),
        "rule": RULE,
        "samples": [sample(sim, prop, r) for r in few],
        "seeds_first_last": [min([r["seed"] for r in runs], default=0), max([r["seed"] for r in runs], default=0)],
        "runs_per_hour": int(len(runs) * 3600 / max(searched, 0.001)),
        "simulated_time": "%d memory-access ticks of library code" % total("steps"),
        "simulated_ticks": total("steps"),
        "calls_executed": total("ops"),
        "calls_skipped_outside_domain": total("skipped"),
        "oracle_evaluations": total("checks"),
        "oracle_evaluations_by_kind": by,
        "faults_fired": fired,
        "failed_attempts_retried": total("retries"),
        "allocations_seen": total("allocs"),
        "file_calls_seen": total("io"),
        "clock_reads": total("clockReads"),
        "entropy_reads": total("entropyReads"),
        "caller_switches": total("switches"),
        "conflicting_accesses_seen": total("conflicts"),
        "runs_by_callers": {str(n): sum(1 for r in runs if r["callers"] == n) for n in sorted({r["callers"] for r in runs})},
        "distinct_interleavings": len({r["sched"] for r in runs if r["switches"]}),
        "distinct_interleavings_measure": "hash of the sequence (from, to, step) of caller switches",
        "distinct_final_results": len({r["digest"] for r in runs}),
        "determinism": {"seeds_run_again_in_a_fresh_process": det[0], "different_trace": det[1]},
        "components_real": REAL,
        "components_stubbed": STUB,
    }
    cov.update(extra)
    doc = {"property": prop, "tier": tier, "seed": seed, "level": "exploration", "coverage": cov,
           "assumptions": ["the simulator's seams and oracles (/verif/sim) are right; library code runs compiled with -O1 and "
                           "thread-sanitizer instrumentation, one caller at a time, preempted only at loads and stores of "
                           "memory (sequential consistency, no reordering by the processor)"],
           "wall_s": round(wall, 2), "violations": violations}
    if errs:
        doc["coverage"]["worker_messages"] = errs[:5]
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    path = os.path.join(VERIF, "evidence", prop + ".json")
    with open(path + ".tmp", "w") as f:
        json.dump(doc, f, indent=1)
        f.write("\n")
    os.rename(path + ".tmp", path)


def report(sim, prop, fails, budget):
    """Minimise and reproduce; returns (replay path, message) or None."""
    out = os.path.join(VERIF, "evidence", "replay")
    os.makedirs(out, exist_ok=True)
    fails.sort(key=lambda r: (r["tag"] == "HANG", r["steps"], r["seed"]))
    for r in fails[:4]:
        path = os.path.join(out, "%s-seed%d.plan" % (prop, r["seed"]))
        if os.path.exists(path):
            os.unlink(path)
        code, text, _ = call([sim, "minimise", prop, str(r["seed"]), path, str(budget)], budget + 200)
        if code != 0 or not os.path.exists(path):
            c, plan, _ = call([sim, "gen", prop, str(r["seed"])], 60)  # as generated: just as replayable, only longer
            if c != 0:
                continue
            with open(path, "w") as f:
                f.write(plan)
        seen = []
        for _ in range(2):
            c, o, _ = call([sim, "replay", path], 300)
            m = [x for x in o.splitlines() if x.startswith("REPLAY\t")]
            seen.append((c, m[0] if m else ""))
        if seen[0] == seen[1] and seen[0][0] == 1:
            f = seen[0][1].split("\t")
            return path, f[2], f[4] if len(f) > 4 else ""
        print("note: seed %d failed (%s %s) but does not replay: %s" % (r["seed"], r["tag"], r["msg"], seen), file=sys.stderr)
    return None


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop", nargs="?")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER") or "quick")
    ap.add_argument("--seconds", type=float)
    ap.add_argument("--workers", type=int, default=min(8, os.cpu_count() or 1))
    ap.add_argument("--replay")
    a = ap.parse_args()
    start = time.time()
    try:
        sim = builder.build()
    except builder.BuildError as e:
        print("the simulator does not build: %s" % e, file=sys.stderr)
        return 2
    if a.replay:
        code, out, err = call([sim, "replay", a.replay], 600)
        sys.stdout.write(out)
        for line in out.splitlines():
            f = line.split("\t")
            if f[0] == "REPLAY" and code == 1:
                print("VIOLATION property=%s replay=%s" % (f[1], a.replay))
        return 2 if code is None else code
    tier = "thorough" if a.tier == "thorough" else "quick"
    seed = int(os.environ.get("VERIF_SEED") or 1)
    seconds = a.seconds or (THOROUGH if tier == "thorough" else QUICK)
    prop = a.prop
    base = (seed % 1000003) * 10000000 + (0 if tier == "quick" else 5000000)
    t0 = time.time()
    runs, errs = sweep(sim, prop, base, a.workers, seconds)
    searched = time.time() - t0
    fails = [r for r in runs if r["ok"] != "ok"]
    known = [(m, t) for p, m, t in findings() if p == prop]
    unlisted = [r for r in fails if not any(re.search(m, r["tag"] + ": " + r["msg"]) for m, t in known)]
    for m, t in known:
        print("KNOWN-FINDING: property=%s %s" % (prop, t))
    found = None
    if unlisted:
        found = report(sim, prop, unlisted, 60)
    det = (0, []) if fails else determinism(sim, prop, runs, 8 if tier == "quick" else 64)
    extra = {"workers": a.workers}
    if found:
        extra["violation"] = {"replay": found[0], "kind": found[1], "message": found[2]}
    evidence(prop, tier, seed, sim, runs, errs, time.time() - start, searched, 1 if found else 0, det, extra)
    print("%s: %d simulated runs in %.0f s, %d calls, %d oracle evaluations, %d faults fired, %d caller switches, %d restarts" % (
        prop, len(runs), searched, sum(r["ops"] for r in runs), sum(r["checks"] for r in runs),
        sum(sum(r["fired"]) for r in runs), sum(r["switches"] for r in runs), sum(r["restarts"] for r in runs)))
    if found:
        print("%s: %s" % (found[1], found[2]))
        print("VIOLATION property=%s replay=%s" % (prop, found[0]))
        return 1
    if unlisted:
        print("a run failed but could not be reproduced: %s" % unlisted[0], file=sys.stderr)
        return 2
    if det[1]:
        print("note: seeds %s ran differently in another process (see the evidence file)" % det[1], file=sys.stderr)
    if not runs:
        print("nothing ran: %s" % errs, file=sys.stderr)
        return 2
    return 0


if __name__ == "__main__":
    sys.exit(main())
