#!/usr/bin/env python3
"""Development tool: try seeded changes in private copies of /repo (mount namespaces).

seedtest.py [-j N] [--all-checks] [--no-tests] [--seed N] ID...
"""
import concurrent.futures
import json
import os
import re
import shutil
import subprocess
import sys
import tempfile
import time

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
INNER = r"""
set -u
mount --bind "$W/repo" /repo && mount --bind "$W/work" /opt/vp/work || exit 99
mount -t tmpfs none /verif/replays 2>/dev/null; mount -t tmpfs none /verif/evidence 2>/dev/null
cd /repo
%s
"""


def ns(w, script, timeout=900):
    try:
        p = subprocess.run(["unshare", "-Urm", "bash", "-c", INNER % script], env=dict(os.environ, W=w), capture_output=True, text=True,
                           timeout=timeout, errors="replace")
        return p.returncode, p.stdout + p.stderr
    except subprocess.TimeoutExpired:
        return -9, "timeout"


def copy(w):
    os.makedirs(w)
    subprocess.run(["cp", "-a", "/repo", w + "/repo"], check=True)
    shutil.copytree("/opt/vp/work", w + "/work", symlinks=True)


def blame(diff):
    """files and old line numbers the patch removes or changes, when those lines are not in the base commit"""
    base = subprocess.check_output(["git", "-C", "/repo", "rev-list", "--max-parents=0", "HEAD"], text=True).split()[0]
    bad, f, n = [], None, 0
    orig = 0
    for l in diff.split("\n"):
        if l.startswith("--- a/"):
            f = l[6:]
            b = subprocess.check_output(["git", "-C", "/repo", "blame", "-l", "-s", "HEAD", "--", f], text=True).split("\n")
        elif l.startswith("@@"):
            n = int(re.match(r"@@ -(\d+)", l).group(1))
        elif l.startswith("-") and not l.startswith("---"):
            if b[n - 1].lstrip("^")[:30] == base[:30] or b[n - 1].startswith("^"):
                orig += 1
            else:
                bad.append("%s:%d" % (f, n))
            n += 1
        elif l.startswith(" ") or l == "":
            n += 1
    return orig, bad


def prepare(i, tests=True):
    d = os.path.join(HERE, "seeded", i)
    meta = json.load(open(d + "/meta.json"))
    res = {"id": i, "property": meta["property"]}
    diff = open(d + "/patch.diff").read()
    res["orig"], res["own"] = blame(diff)
    tmp = tempfile.mkdtemp(prefix="seed-%s-" % i)
    w = tmp + "/w"
    demo = tmp + "/demo"
    shutil.copytree(d, demo)
    copy(w)
    try:
        if tests:
            rc, out = ns(w, "timeout 300 bash %s/demo.sh" % demo)
            res["demo_clean"] = rc
            if rc:
                res["demo_clean_out"] = out[-600:]
        p = subprocess.run(["git", "-C", w + "/repo", "apply", d + "/patch.diff"], capture_output=True, text=True)
        if p.returncode:
            res["error"] = "does not apply: " + p.stderr[-300:]
            return res, None
        if tests:
            rc, out = ns(w, "timeout 300 bash %s/demo.sh" % demo)
            res["demo_patched"] = rc
            res["demo_patched_out"] = out[-300:]
            rc, out = ns(w, "bash /opt/vp/build.sh")
            res["build"] = rc
            rc, out = ns(w, "bash /opt/vp/test.sh $W/t.json")
            try:
                a = json.load(open(w + "/t.json"))
                b = json.load(open("/opt/vp/BASELINE.json"))
                res["tests_lost"] = sorted(set(b["stable"]) - set(a["passed"]))
            except Exception as x:
                res["tests_lost"] = [repr(x), out[-300:]]
        return res, tmp
    except Exception as x:
        res["error"] = repr(x)
        return res, tmp


def run_check(tmp, prop, seed):
    t = time.time()
    rc, out = ns(tmp + "/w", "cd /verif && VERIF_SEED=%s VERIF_TIER=quick ./check %s quick" % (seed, prop))
    v = [l for l in out.split("\n") if l.startswith("VIOLATION")]
    what = [l for l in out.split("\n") if l and not l.startswith(("VIOLATION", "KNOWN", "seed ", "NOTE"))]
    return {"rc": rc, "caught": rc == 1 and bool(v), "s": round(time.time() - t), "what": (what[-1] if what else out[-200:])[:260]}


def main():
    a = sys.argv[1:]
    j, allc, tests, seed = 4, False, True, "1"
    ids = []
    while a:
        x = a.pop(0)
        if x == "-j":
            j = int(a.pop(0))
        elif x == "--all-checks":
            allc = True
        elif x == "--no-tests":
            tests = False
        elif x == "--seed":
            seed = a.pop(0)
        else:
            ids.append(x)
    ids = ids or sorted(os.listdir(HERE + "/seeded"))
    with concurrent.futures.ThreadPoolExecutor(j) as ex:
        futs = {ex.submit(prepare, i, tests): i for i in ids}
        for f in concurrent.futures.as_completed(futs):
            r, tmp = f.result()
            ok = not r.get("error") and not r["own"] and r["orig"] and (not tests or (r["demo_clean"] == 0 and r["demo_patched"] != 0 and r["build"] == 0 and not r["tests_lost"]))
            r["ok"] = bool(ok)
            if tmp:
                props = [r["property"]]
                if allc:
                    props += [c["property"] for c in json.load(open(HERE + "/MANIFEST.json"))["checks"] if c["property"] not in props]
                r["checks"] = {p: run_check(tmp, p, seed) for p in props}
                shutil.rmtree(tmp)
            c = r.get("checks", {}).get(r["property"], {})
            print("%-26s %s %s %s %ss  %s" % (r["id"], "valid  " if r["ok"] else "INVALID", r["property"], "CAUGHT" if c.get("caught") else "missed(rc=%s)" % c.get("rc"), c.get("s"), c.get("what", "")), flush=True)
            if not r["ok"]:
                print("    ", {k: v for k, v in r.items() if k != "checks"}, flush=True)
            if allc:
                print("     also:", " ".join(p for p, x in r["checks"].items() if x["caught"]), flush=True)


if __name__ == "__main__":
    main()
