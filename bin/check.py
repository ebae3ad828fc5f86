#!/usr/bin/env python3
"""Decides one property by seeded simulation of /repo's current working tree.

  check.py <property> [--tier quick|thorough] [--seconds N] [--workers N] [--seed N]
  check.py replay <file>

Exit 0: held on every run. Exit 1 and a VIOLATION line: broken. Anything else: the check itself failed."""
import argparse, json, os, queue, subprocess, sys, threading, time

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import build as B

VERIF = B.VERIF
IDS = {"C%02d" % i for i in range(1, 19)} | {"C27", "C28", "C29", "C30"}
SECONDS = {"quick": 100, "thorough": 780}
RUNS_PER_WORKER = 1_000_000


class Worker(threading.Thread):
    """Keeps one simulator process busy over its own range of seeds."""

    def __init__(self, n, cmd, out, pid, seed, end, outdir):
        super().__init__(daemon=True)
        self.n, self.cmd, self.out, self.pid, self.seed, self.end, self.dir = n, cmd, out, pid, seed, end, outdir
        self.p, self.stop = None, False

    def run(self):
        at = self.n * RUNS_PER_WORKER
        last = at + RUNS_PER_WORKER
        errors = 0
        while not self.stop and at < last:
            left = self.end - time.time()
            if left < 2 and at > self.n * RUNS_PER_WORKER:
                break
            line, err, rc = self.one(at, last - at, max(2, int(left)))
            if self.stop:
                break
            try:
                r = json.loads(line)
            except ValueError:
                r = {}
            if r.get("done"):
                self.out.put(("done", self.n, r))
                if r["violation"] and not self.stop:
                    at = r["next"] + 1
                    continue
                break
            if "hang" in r:
                self.out.put(("hang", self.n, r))
                at = r["hang"] + 1
                continue
            errors += 1
            self.out.put(("error", self.n, {"rc": rc, "text": (line + "\n" + err)[-3000:], "at": at}))
            at += 5000
            if errors >= 3:
                break
        self.out.put(("end", self.n, None))

    def one(self, at, count, seconds):
        self.p = subprocess.Popen(self.cmd + ["worker", self.pid, str(self.seed), str(at), str(count), str(seconds), self.dir],
                                  stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True)
        o, e = self.p.communicate()
        lines = [l for l in o.splitlines() if l.startswith("{")]
        return (lines[-1] if lines else o), e, self.p.returncode

    def kill(self):
        self.stop = True
        if self.p is not None:
            try:
                self.p.kill()
            except OSError:
                pass


def run_json(cmd, timeout):
    try:
        p = subprocess.run(cmd, stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, timeout=timeout)
    except subprocess.TimeoutExpired:
        return {"timeout": True}
    for l in reversed(p.stdout.splitlines()):
        if l.startswith("{"):
            return json.loads(l)
    return {"error": (p.stdout + p.stderr)[-2000:], "rc": p.returncode}


def replay_file(cmd, path):
    j = json.load(open(path))
    r = run_json(cmd + ["replay", path], 200)
    if j.get("category") == "hang":
        r["reproduced"] = "hang" in r or bool(r.get("timeout"))
    return r


def add(total, r):
    for k, v in r.items():
        if isinstance(v, bool):
            continue
        if isinstance(v, int) and k not in ("next", "sites"):
            total[k] = total.get(k, 0) + v
        elif isinstance(v, dict):
            d = total.setdefault(k, {})
            for a, b in v.items():
                d[a] = d.get(a, 0) + b
    total["sites"] = max(total.get("sites", 0), r.get("sites", 0))
    total.setdefault("samples", [])
    if len(total["samples"]) < 3:
        total["samples"] += r.get("samples", [])[:1]


RULE = ("A case is a generated workload (objects, data contexts, expressions, one list of operations per simulated thread), a scheduling policy "
        "(serial, random walk, a few uniformly placed preemptions, or suspending a call at a chosen code location while others overtake it) and a fault "
        "plan, all drawn from VERIF_SEED, the property and the run number. It counts as non-trivial when a thread lost the processor in the middle of a call, "
        "a fault fired, the environment or the data changed during the run, or at least 8 operations ran; distinct means distinct by the hash of every scheduling step "
        "taken (code location and thread) together with the workload.")

REAL = ["all classes of /repo/src/main/java, compiled from the working tree and loaded afresh (own statics) for every run", "antlr4-runtime 4.13.2", "caffeine 2.9.3", "vavr 0.10.4",
        "maven-artifact 3.5.2", "commons-lang3 3.5", "java.base collections the code under test creates (ArrayList, HashMap, TreeMap, ... : instrumented copies made from the JDK's own class files)",
        "java.base otherwise (java.util.concurrent locks and queues run for real on simulated threads)"]
STUB = ["threads: virtual-thread continuations run one at a time by the simulator", "intrinsic monitors, wait/notify, timed waits and sleeps (simulated time)", "class initialisation of the code under test (locks and failure states as the JVM specification describes them)",
        "ConcurrentHashMap (per-key critical sections under a simulated lock)", "executors, thread pools, timers, parallel streams, completable futures and the common pool",
        "wall clock, nanosecond clock, time zone and locale of the process", "ThreadLocalRandom, Random seeds, identity hash codes, processor count, memory size", "weak and soft references (cleared when the simulator says so)",
        "the caller's data source (a scripted Map with scripted lists and sets inside)", "the caller's own parser (C13, C15)", "the caller's data type handlers (C11, C18)"]


def main():
    if len(sys.argv) > 2 and sys.argv[1] == "replay":
        s, r, a = B.build()
        cmd = B.command(s, r, a, [])
        j = json.load(open(sys.argv[2]))
        x = replay_file(cmd, sys.argv[2])
        print(json.dumps(x, indent=1))
        if x.get("reproduced"):
            print("VIOLATION property=%s replay=%s" % (j["property"], os.path.abspath(sys.argv[2])))
            return 1
        return 0 if x.get("replay") else 2
    ap = argparse.ArgumentParser()
    ap.add_argument("property", choices=sorted(IDS))
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER") or "quick", choices=sorted(SECONDS))
    ap.add_argument("--seconds", type=int)
    ap.add_argument("--workers", type=int, default=max(2, min(8, os.cpu_count() or 2)))
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED") or 1))
    o = ap.parse_args()
    pid = o.property
    t0 = time.time()
    s, r, a = B.build()
    cmd = B.command(s, r, a, [])
    built = time.time() - t0
    outdir = VERIF + "/build/out/" + pid
    os.makedirs(outdir, exist_ok=True)
    for f in os.listdir(outdir):
        os.unlink(os.path.join(outdir, f))
    t1 = time.time()
    end = t1 + (o.seconds or SECONDS[o.tier])
    q = queue.Queue()
    ws = [Worker(n, cmd, q, pid, o.seed, end, outdir) for n in range(o.workers)]
    for w in ws:
        w.start()
    total, live, found, errors, unconfirmed, hangs = {}, len(ws), None, [], [], []
    digests = []
    while live:
        kind, n, x = q.get()
        if kind == "end":
            live -= 1
        elif kind == "done":
            add(total, x)
            digests.append(x["digests"])
            if x["violation"] and not found:
                y = replay_file(cmd, x["violation"])
                if y.get("reproduced") and y.get("exact"):
                    found = (x["violation"], y)
                else:
                    unconfirmed.append({"file": x["violation"], "replay": {k: y.get(k) for k in ("reproduced", "exact", "error", "violation")}})
        elif kind == "hang":
            hangs.append(x["hang"])
            if not found:
                i = x["hang"]
                c = run_json(cmd + ["case", pid, str(o.seed), str(i)], 60)
                f = "%s/%s-%d-hang.json" % (outdir, pid, i)
                json.dump({"property": pid, "category": "hang", "violation": "hang: a call keeps its thread busy for a minute without ever reaching another step", "seed": i, "case": c,
                           "threads": x.get("threads")}, open(f, "w"))
                if "threads" in c and replay_file(cmd, f).get("reproduced"):
                    found = (f, {"violation": "hang: a call keeps its thread busy for a minute without ever reaching another step; " + "; ".join(map(str, x.get("threads", [])))[:1500], "schedule": []})
                else:
                    unconfirmed.append({"hang": i})
        elif kind == "error":
            errors.append(x)
        if found:
            for w in ws:
                w.kill()
            break
    for w in ws:
        w.join(10)
    wall = time.time() - t0
    sim_s = time.time() - t1
    distinct = set()
    for f in digests:
        try:
            distinct.update(open(f).read().split())
        except OSError:
            pass
        else:
            os.unlink(f)
    runs = total.get("runs", 0)
    ev = {
        "property": pid, "tier": o.tier, "seed": o.seed, "level": "exploration", "wall_s": round(wall, 1), "violations": 1 if found else 0,
        "coverage": {
            "evaluations": runs, "distinct_nontrivial": len(distinct), "rule": RULE, "samples": total.get("samples", []),
            "nontrivial_runs": total.get("nontrivial", 0),
            "runs_per_hour": int(runs * 3600 / sim_s) if sim_s else 0, "seeds_per_hour": int(runs * 3600 / sim_s) if sim_s else 0,
            "simulated_time_covered_s": total.get("simMs", 0) / 1000.0, "scheduling_steps": total.get("steps", 0), "context_switches": total.get("switches", 0),
            "switches_in_the_middle_of_a_call": total.get("midCall", 0), "lock_contentions": total.get("contended", 0), "background_tasks": total.get("tasks", 0),
            "library_calls_checked": total.get("calls", 0), "parses": total.get("parses", 0), "clock_reads": total.get("clockReads", 0),
            "fault_kinds_injected": total.get("fired", {}), "outcomes_by_operation": total.get("kinds", {}), "policies": total.get("policies", {}),
            "distinct_interleavings_measure": "hash of the complete sequence of (thread, code location) steps plus the workload",
            "instrumented_code_locations": total.get("sites", 0), "baseline_processes_simulated": total.get("baselineRuns", 0), "baseline_reuses": total.get("baselineHits", 0),
            "determinism": {"runs_executed_twice": total.get("rerun", 0), "digest_mismatches": total.get("mismatch", 0),
                            "runs_replayed_from_their_schedule": total.get("traceReplays", 0), "replay_mismatches": total.get("traceMismatch", 0), "uncontrolled_switch_attempts": total.get("pinned", 0)},
            "inconclusive_runs": total.get("inconclusive", 0), "inconclusive_reasons": total.get("why", {}),
            "unconfirmed": unconfirmed, "worker_errors": len(errors), "hangs": hangs, "worker_processes": o.workers,
            "real_components": REAL, "stubbed_components": STUB, "build_s": round(built, 1),
        },
        "assumptions": ["the instrumented classes behave like the shipped ones (yield points are added, nothing else is changed)",
                        "interleavings are sequentially consistent: reorderings that only a weak memory model allows are not simulated",
                        "preemption happens at the repository's and Caffeine's field, array, lock and call sites and at ANTLR's shared DFA accesses, not inside java.base"],
    }
    if found:
        ev["coverage"]["violation"] = found[1].get("violation")
        ev["coverage"]["replay"] = found[0]
    os.makedirs(VERIF + "/evidence", exist_ok=True)
    tmp = VERIF + "/evidence/%s.json.tmp" % pid
    with open(tmp, "w") as f:
        json.dump(ev, f, indent=1)
    os.replace(tmp, VERIF + "/evidence/%s.json" % pid)
    print("%s: %d runs (%d distinct), %d steps, %d calls checked, %.0f s; faults %s" % (pid, runs, len(distinct), total.get("steps", 0), total.get("calls", 0), wall, json.dumps(total.get("fired", {}))))
    if found:
        print(found[1].get("violation"))
        for l in found[1].get("schedule", [])[:40]:
            print("  " + str(l))
        print("VIOLATION property=%s replay=%s" % (pid, found[0]))
        sys.stdout.flush()
        return 1
    for e in errors:
        print("worker error: " + e["text"], file=sys.stderr)
    if runs == 0 or len(errors) > len(ws):
        print("no answer: the simulator did not run", file=sys.stderr)
        return 2
    return 0


if __name__ == "__main__":
    rc = main()
    sys.stdout.flush()
    sys.stderr.flush()
    os._exit(rc)
