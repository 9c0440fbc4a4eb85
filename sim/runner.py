"""Decides one property: many simulated runs, minimised replay file, evidence."""
import collections
import hashlib
import json
import os
import queue
import random
import subprocess
import sys
import threading
import time

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = "/opt/venv/bin/python" if os.path.exists("/opt/venv/bin/python") else sys.executable
LANES = 8       # hash seeds and start states are part of a run, so their number is fixed
COLD = (6, 7)   # lanes whose runs start before the system has ever loaded anything


class Worker:
    def __init__(self, lane, prop):
        env = dict(os.environ)
        env.update(PYTHONHASHSEED=str(lane), PYTHONDONTWRITEBYTECODE="1", PYTHONPATH="/repo/lib:" + HERE, PYTHONUTF8="1",
                   LC_ALL="C.UTF-8")
        for k in list(env):
            if k.lower().endswith("_proxy"):
                del env[k]
        args = [PY, os.path.join(HERE, "sim", "boot.py"), prop] + ([] if lane in COLD else ["--warm"])
        self.p = subprocess.Popen(args, stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.PIPE if False else None,
                                  text=True, cwd=HERE, env=env)
        self.lane = lane

    def ask(self, req):
        try:
            self.p.stdin.write(json.dumps(req) + "\n")
            self.p.stdin.flush()
            l = self.p.stdout.readline()
        except (BrokenPipeError, ValueError):
            l = ""
        if not l:
            return {"error": "the worker died (%r)" % self.p.poll()}
        return json.loads(l)

    def close(self):
        try:
            self.p.stdin.close()
        except OSError:
            pass
        try:
            self.p.wait(5)
        except subprocess.TimeoutExpired:
            self.p.kill()


def known(prop):
    """keys of recorded findings of a property -> text"""
    r = {}
    p = os.path.join(HERE, "known_findings.txt")
    if os.path.exists(p):
        for l in open(p):
            if l.startswith("finding:"):
                f = dict(x.split("=", 1) for x in l.split()[1:3])
                if f["property"] == prop:
                    r[f["key"]] = l.split(None, 3)[3].strip()
    return r


def explore(prop, seed, tier, runs, wall, indexes=None, stop=True):
    """-> (totals, first violating result or None)"""
    tot = {"runs": 0, "stats": collections.Counter(), "faults": collections.Counter(), "sigs": set(), "errors": [], "known": collections.Counter(),
           "capped": False, "walls": [], "samples": [], "digests": {}}
    todo = [collections.deque() for _ in range(LANES)]
    for i in (indexes if indexes is not None else range(runs)):
        todo[i % LANES].append(i)
    lock = threading.Lock()
    found = []
    kn = known(prop)
    t0 = time.monotonic()

    def lane(n):
        if not todo[n]:
            return
        w = Worker(n, prop)
        while todo[n]:
            if stop and found or time.monotonic() - t0 > wall:
                if todo[n] and not found:
                    tot["capped"] = True
                break
            i = todo[n].popleft()
            r = w.ask({"seed": seed, "prop": prop, "i": i, "tier": tier, "want_spec": i < 2})
            r["lane"], r["i"] = n, i
            with lock:
                if "error" in r:
                    tot["errors"].append(r)
                    if len(tot["errors"]) > 20:
                        break
                    if w.p.poll() is not None:
                        w = Worker(n, prop)
                    continue
                tot["runs"] += 1
                tot["stats"].update(r["stats"])
                tot["faults"].update(r["faults"])
                if r["stats"].get("comparisons"):
                    tot["sigs"].add(r["sig"])
                if i < 2:
                    tot["samples"].append({"run": i, "spec": r.get("spec"), "schedule": {k: {"switches": v["switches"][:20]} for k, v in r["sched"].items()}})
                tot["digests"][i] = r["digest"]
                tot["walls"].append(r["wall"])
                v = [x for x in r["viol"] if x["what"] not in kn]
                for x in r["viol"]:
                    if x["what"] in kn:
                        tot["known"][x["what"]] += 1
                if v:
                    r["viol"] = v
                    found.append(r)
        w.close()
    ts = [threading.Thread(target=lane, args=(n,)) for n in range(LANES)]
    for t in ts:
        t.start()
    for t in ts:
        t.join()
    tot["wall"] = time.monotonic() - t0
    found.sort(key=lambda r: (len(json.dumps(r["spec"])), r["i"]))
    return tot, found


# ------------------------------------------------------------------ minimising

LISTS = {"st", "switches", "threads", "ops", "faults", "cases", "items", "v", "det", "jumps", "expr", "ip", "chunks", "lines", "chain"}


def paths(x, p=()):
    """lists in a specification that may get shorter"""
    if isinstance(x, dict):
        for k, v in x.items():
            if k in LISTS and isinstance(v, list) and v and k not in ("expr",):
                yield p + (k,)
            yield from paths(v, p + (k,))
    elif isinstance(x, list):
        for i, v in enumerate(x):
            yield from paths(v, p + (i,))


def at(x, p):
    for k in p:
        x = x[k]
    return x


def replaced(x, p, v):
    x = json.loads(json.dumps(x))
    if not p:
        return v
    y = at(x, p[:-1])
    y[p[-1]] = v
    return x


def minimise(prop, r, budget):
    lane = r["lane"]
    what = r["viol"][0]["what"]
    t0 = time.monotonic()
    pool = [Worker(lane, prop) for _ in range(min(8, os.cpu_count() or 4))]
    tried = [0]

    def test(specs):
        """-> index of the first one that still fails the same way, with its result"""
        res = [None] * len(specs)

        def go(k):
            for n in range(k, len(specs), len(pool)):
                if time.monotonic() - t0 > budget:
                    return
                tried[0] += 1
                res[n] = pool[k].ask({"prop": prop, "spec": specs[n]})
        ts = [threading.Thread(target=go, args=(k,)) for k in range(len(pool))]
        [t.start() for t in ts]
        [t.join() for t in ts]
        for n, x in enumerate(res):
            if x and any(v["what"] == what for v in x.get("viol", [])):
                return n, x
        return None, None

    best, res = r["spec"], r
    # the schedule that was drawn, written out
    ex = dict(best)
    for k, v in r.get("sched", {}).items():
        if k in ex:
            ex[k] = v
    n, x = test([ex])
    if n is not None:
        best, res = ex, x
    # without any preemption?
    flat = {k: ({"switches": []} if k in r.get("sched", {}) else v) for k, v in best.items()}
    n, x = test([flat])
    if n is not None:
        best, res = flat, x
    progress = True
    while progress and time.monotonic() - t0 < budget:
        progress = False
        for p in sorted(paths(best), key=lambda p: -len(json.dumps(at(best, p)))):
            try:
                l = at(best, p)
            except (KeyError, IndexError, TypeError):
                continue
            if not isinstance(l, list):
                # something before it was removed meanwhile
                continue
            size = len(l)
            while size >= 1 and time.monotonic() - t0 < budget:
                try:
                    l = at(best, p)
                    if not isinstance(l, list):
                        break
                except (KeyError, IndexError, TypeError):
                    break
                cand = [replaced(best, p, l[:i] + l[i + size:]) for i in range(0, len(l), size)]
                n, x = test(cand)
                if n is not None:
                    best, res = cand[n], x
                    progress = True
                    size = min(size, max(1, len(at(best, p))))
                    if not at(best, p):
                        break
                else:
                    size //= 2
    for w in pool:
        w.close()
    return best, res, tried[0]


# ------------------------------------------------------------------ main

def replay(path):
    d = json.load(open(path))
    w = Worker(d["lane"], d["property"])
    r = w.ask({"prop": d["property"], "spec": d["spec"]})
    w.close()
    if "error" in r:
        print(r["error"])
        return 2
    for v in r["viol"]:
        print("%s: %s" % (v["what"], v["msg"]))
    print("digest %s, recorded %s" % (r["digest"], d["digest"]))
    if r["viol"]:
        print("VIOLATION property=%s replay=%s" % (d["property"], path))
        return 1
    print("no violation")
    return 0


def check(prop, tier):
    sys.path[:0] = [HERE]
    seed = os.environ.get("VERIF_SEED", "1")
    from props import meta
    info = meta.META[prop]
    runs, wall = (info["quick"], 75) if tier == "quick" else (info.get("thorough", info["quick"] * 30), 3000)
    if os.environ.get("VERIF_RUNS"):
        runs = int(os.environ["VERIF_RUNS"])
    tot, found = explore(prop, seed, tier, runs, wall)
    status, lines = 0, []
    unrepro = 0
    for r in found[:3]:
        # only what happens again counts
        w = Worker(r["lane"], prop)
        again = [w.ask({"prop": prop, "spec": r["spec"]}) for _ in range(2)]
        w.close()
        what = r["viol"][0]["what"]
        if not all(any(v["what"] == what for v in a.get("viol", [])) for a in again):
            unrepro += 1
            print("NOTE: run %d reported %s once, not again: %s" % (r["i"], what, r["viol"][0]["msg"][:300]))
            continue
        best, res, tried = minimise(prop, r, 60 if tier == "quick" else 240)
        v = [x for x in res["viol"] if x["what"] == what][0]
        os.makedirs(os.path.join(HERE, "replays"), exist_ok=True)
        d = {"property": prop, "seed": seed, "run": r["i"], "lane": r["lane"], "violation": v, "digest": res["digest"],
             "spec": best, "minimised_with": "%d runs" % tried, "how": "./check --replay FILE"}
        p = os.path.join(HERE, "replays", "%s-%s.json" % (prop, hashlib.sha1(json.dumps(best, sort_keys=True).encode()).hexdigest()[:10]))
        json.dump(d, open(p, "w"), indent=1)
        lines.append("%s: %s" % (v["what"], v["msg"]))
        lines.append("seed %s run %d (lane %d), minimised to %d bytes" % (seed, r["i"], r["lane"], len(json.dumps(best))))
        lines.append("VIOLATION property=%s replay=%s" % (prop, p))
        status = 1
        break
    kn = known(prop)
    for k in tot["known"]:
        lines.append("KNOWN-FINDING: property=%s %s" % (prop, kn[k]))
    # the same seed is the same execution
    mism = 0
    if not status:
        idx = sorted(tot["digests"])[:: max(1, len(tot["digests"]) // 12)][:12]
        t2, _ = explore(prop, seed, tier, 0, 60, indexes=idx, stop=False)
        mism = sum(1 for i in idx if i in t2["digests"] and t2["digests"][i] != tot["digests"][i])
        if mism:
            print("NOTE: %d of %d re-executed runs differ" % (mism, len(idx)))
    evidence(prop, tier, seed, info, tot, status, mism, unrepro)
    if tot["errors"]:
        e = tot["errors"][0]
        print("%d runs ended in an error of the harness, e.g. run %s:\n%s" % (len(tot["errors"]), e.get("i"), e["error"]))
        if not status and len(tot["errors"]) > max(2, tot["runs"] // 50):
            status = 2
    print("%s: %d runs in %.1fs, %d comparisons, %d lines, faults %s, %d distinct executions%s" % (
        prop, tot["runs"], tot["wall"], tot["stats"]["comparisons"], tot["stats"]["lines"], dict(tot["faults"]), len(tot["sigs"]),
        ", stopped by the time limit" if tot["capped"] else ""))
    for l in lines:
        print(l)
    return status


def evidence(prop, tier, seed, info, tot, status, mism, unrepro):
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    st = tot["stats"]
    wall = max(0.01, tot["wall"])
    cov = {
        "evaluations": tot["runs"],
        "distinct_nontrivial": len(tot["sigs"]),
        "rule": "one evaluation is one simulated run of one seed; non-trivial: at least one comparison against the model; distinct: "
                "different sequence of (task switches with their code location, faults with the line they hit, marks of the scenario's outcome)",
        "samples": tot["samples"] or [{"seed": seed}],
        "seeds_per_hour": int(tot["runs"] * 3600 / wall),
        "comparisons_with_model": st["comparisons"], "source_lines_simulated": st["lines"], "task_switches": st["switches"],
        "simulated_time_s": round(st["virtual_ms"] / 1000.0, 3), "faults_injected": dict(tot["faults"]),
        "stopped_by_time_limit": tot["capped"], "re_executions_differing": mism, "violations_not_reproduced": unrepro,
        "harness_errors": len(tot["errors"]), "known_findings_hit": dict(tot["known"]),
        "real_code": info.get("real", "all of lib/acltk, TatSu, ipaddress, xml.etree"),
        "simulated": info.get("stub", "threads and their scheduling, locks, clock, object hashes"),
        "other_counts": {k: v for k, v in st.items() if k not in ("comparisons", "lines", "switches", "virtual_ms")},
    }
    d = {"property": prop, "tier": tier, "seed": int(seed) if str(seed).isdigit() else 0, "level": info["level"], "coverage": cov,
         "wall_s": round(tot["wall"], 2), "outcome": "violation" if status else "held on everything explored"}
    json.dump(d, open(os.path.join(HERE, "evidence", prop + ".json"), "w"), indent=1)


def main(argv):
    if argv and argv[0] == "--replay":
        return replay(argv[1])
    return check(argv[0], argv[1] if len(argv) > 1 else os.environ.get("VERIF_TIER", "quick"))


if __name__ == "__main__":
    sys.exit(main(sys.argv[1:]))
