"""A worker: the system under test is imported once, every run is a fork of it.

stdin: one JSON request per line, {"seed": .., "prop": .., "i": .., "tier": ..} or {"prop": .., "spec": ..};
stdout: one JSON answer per line.
"""
import gc
import json
import os
import random
import resource
import select
import signal
import sys
import time

sys.dont_write_bytecode = True
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[:0] = [HERE, "/repo/lib"]

from sim import core  # noqa: E402

core.patch_stdlib()

# what the system under test uses of the standard library, before the seams close
import builtins, collections, html.parser, http.client, io, ipaddress, logging, shelve, pickle, socket, ssl, tempfile  # noqa: E402,E401,F401
import traceback, types, urllib.request, xml.etree.ElementTree, runpy, argparse, copy  # noqa: E402,E401,F401
import glob, importlib  # noqa: E402,E401
import tatsu, tatsu.contexts, tatsu.buffering, jinja2, jinja2.ext, flask, werkzeug.test  # noqa: E402,E401,F401

MODS = []
for f in sorted(glob.glob("/repo/lib/acltk/*.py")):
    n = os.path.basename(f)[:-3]
    MODS.append(importlib.import_module("acltk" if n == "__init__" else "acltk." + n))
core.patch_hashes(MODS)

from sim import net, fs, world  # noqa: E402

net.install()
fs.install()
core.monitor()


def warm():
    for fmt in ("asa", "ios", "pf"):
        for k in range(2):
            c = world.gen_case(random.Random(k), fmt)
            cfg = world.CLS[fmt].fromString(world.MODEL[fmt].render(c["st"]))
    cfg.filter(world.cafBlock.fromString("ip src 10.0.0.0/8"))


def module(prop):
    return importlib.import_module("props." + prop.lower())


def job(req):
    m = module(req["prop"])
    if "spec" in req:
        spec = req["spec"]
    else:
        try:
            r = random.Random("%s/%s/%d" % (req["seed"], req["prop"], req["i"]))
            spec = m.gen(r, req.get("tier", "quick"))
        except Exception:
            return {"error": traceback.format_exc()[-4000:]}, None
    w = world.World(copy.deepcopy(spec))
    try:
        m.run(w)
    except BaseException as e:
        text = traceback.format_exc()[-4000:]
        files = [f.filename for f in traceback.extract_tb(e.__traceback__)]
        if not any(f.startswith("/repo/") or f.endswith("/sim/observe.py") for f in files):
            fs.cleanup()
            return {"error": text}, spec
        # the system under test, or looking at what it made, failed where nothing may fail
        w.viol("unexpected-error", text)
    return w.result(), spec


def serve():
    out = os.fdopen(os.dup(1), "w")
    null = os.open(os.devnull, os.O_WRONLY)
    os.dup2(null, 1)
    if "--warm" in sys.argv:
        devnull, sys.stderr = sys.stderr, open(os.devnull, "w")
        logging.disable(50)
        warm()
        logging.disable(0)
        sys.stderr = devnull
    for p in sorted(glob.glob(HERE + "/props/c*.py")):
        if len(sys.argv) > 1 and sys.argv[1].lower() == os.path.basename(p)[:-3]:
            module(sys.argv[1])
    gc.collect()
    gc.disable()
    gc.freeze()
    for line in sys.stdin:
        req = json.loads(line)
        t0 = core.real_monotonic()
        rd, wr = os.pipe()
        pid = os.fork()
        if pid == 0:
            try:
                os.close(rd)
                resource.setrlimit(resource.RLIMIT_CPU, (100, 110))
                resource.setrlimit(resource.RLIMIT_AS, (4 << 30, 4 << 30))
                resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
                res, spec = job(req)
                if res.get("viol") or res.get("error") or req.get("want_spec"):
                    res["spec"] = spec
                b = json.dumps(res).encode()
                while b:
                    b = b[os.write(wr, b):]
            finally:
                os._exit(0)
        os.close(wr)
        buf = b""
        end = core.real_monotonic() + 120
        hang = False
        while True:
            left = end - core.real_monotonic()
            if left <= 0 or not select.select([rd], [], [], left)[0]:
                hang = True
                os.kill(pid, signal.SIGKILL)
                break
            b = os.read(rd, 1 << 16)
            if not b:
                break
            buf += b
        os.close(rd)
        st = os.waitpid(pid, 0)[1]
        if buf and not hang:
            try:
                res = json.loads(buf)
            except ValueError:
                res = {"error": "garbled result"}
        elif hang or (os.WIFSIGNALED(st) and os.WTERMSIG(st) in (signal.SIGXCPU, signal.SIGKILL)):
            res = {"viol": [{"what": "hang", "msg": "the run did not end"}], "sched": {}, "stats": {}, "faults": {}, "sig": "", "digest": "hang"}
        elif os.WIFSIGNALED(st):
            res = {"error": "the run died of signal %d" % os.WTERMSIG(st)}
        else:
            res = {"error": "no result"}
        if res.get("viol") and "spec" not in res or res.get("error") and "spec" not in res:
            if "spec" in req:
                res["spec"] = req["spec"]
            else:
                try:
                    r = random.Random("%s/%s/%d" % (req["seed"], req["prop"], req["i"]))
                    res["spec"] = module(req["prop"]).gen(r, req.get("tier", "quick"))
                except Exception as e:
                    res["spec"] = {"gen": repr(e)}
        res["wall"] = round(core.real_monotonic() - t0, 4)
        out.write(json.dumps(res) + "\n")
        out.flush()


if __name__ == "__main__":
    serve()
