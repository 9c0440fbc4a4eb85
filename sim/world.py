"""One simulated run: environment, system under test, recorders, comparison.

A property module has gen(r, tier) -> specification and run(w): the run of it.
"""
import collections
import hashlib
import io
import json
import logging
import os
import random
import sys
import time

from . import core, fs as fsm, model_asa, model_caf, model_ios, model_pf, net as netm, observe

from acltk import ACLConfig, cafBlock
from acltk.aclObjects import ACLParserOptions
from acltk.fwsmObjects import fwsmConfig
from acltk.iosObjects import iosConfig
from acltk.pfsenseObjects import pfsenseConfig
from acltk.pfsenseSemantics import pfsenseParserOptions

CLS = {"asa": fwsmConfig, "ios": iosConfig, "pf": pfsenseConfig}
MODEL = {"asa": model_asa, "ios": model_ios, "pf": model_pf}
NOW = 1700000000


def J(x):
    return json.loads(json.dumps(x))


# ------------------------------------------------------------------ generators

def gen_case(r, fmt=None, size=(4, 14), neg=0.0, **kw):
    fmt = fmt or r.choice(["asa", "asa", "ios", "pf"])
    if r.random() < 0.02:
        size = (32, 64)
    c = {"fmt": fmt, "st": MODEL[fmt].gen(r, size=r.randrange(*size), neg=neg, **kw)}
    if r.random() < 0.06:
        c["crlf"] = True
    return c


def gen_sched(r):
    k = r.random()
    if k < 0.1:
        return {"switches": []}
    if k < 0.35:
        return {"rare": r.choice([0.02, 0.06, 0.2]), "limit": r.choice([12, 60, 200]), "seed": r.randrange(1 << 30)}
    return {"gap": r.choice([8, 30, 100, 300, 1000, 3000]), "limit": r.choice([3, 12, 60, 300]), "seed": r.randrange(1 << 30)}


def gen_env(r):
    return {"now": NOW + r.choice([0, 0, r.randrange(-10 ** 8, 10 ** 8)]), "tz": 0, "salt": r.randrange(1 << 30)}


def gen_via(r):
    return r.choice(["cls", "cls", "auto", "auto", "file", "path", "bom"])


# ------------------------------------------------------------------ run

class Recorder(logging.Handler):
    def __init__(self):
        super().__init__(logging.WARNING)
        self.n = 0

    def createLock(self):
        self.lock = None

    def emit(self, record):
        self.n += 1


class Out(io.StringIO):
    pass


class World:
    def __init__(self, spec):
        self.spec = spec
        env = spec.get("env", {})
        c = core.clock
        c.now = float(env.get("now", NOW))
        c.mono = 1000.0
        c.reads = 0
        c.seen = []
        c.jumps = env.get("jumps", [])
        core.hashes.salt = env.get("salt", 0)
        if env.get("zone"):
            os.environ["TZ"] = env["zone"]
            time.tzset()
        elif env.get("tz") is not None:
            os.environ["TZ"] = "<SIM>%s" % posix_tz(env["tz"])
            time.tzset()
        self.start = c.mono
        self.viols = []
        self.stats = collections.Counter()
        self.faults = collections.Counter()
        self.scheds = {}
        self.sig = hashlib.sha1()
        self.notes = []
        self.rec = Recorder()
        root = logging.getLogger()
        for h in list(root.handlers):
            root.removeHandler(h)
        root.addHandler(self.rec)
        self.out = sys.stdout = Out()
        self.err = sys.stderr = Out()
        netm.net.__init__()
        self._cache = {}
        self.extra = None

    # -- reporting
    def viol(self, what, msg):
        self.viols.append({"what": what, "msg": str(msg)[:3000]})

    def ok(self, n=1):
        self.stats["comparisons"] += n

    def expect(self, cond, what, msg):
        self.ok()
        if not cond:
            self.viol(what, msg() if callable(msg) else msg)
        return cond

    def note(self, *x):
        self.sig.update(repr(x).encode())

    # -- system under test
    def text(self, case):
        if "text" in case:
            return case["text"]
        k = ("t", id(case))
        if k not in self._cache:
            t = MODEL[case["fmt"]].render(case["st"])
            self._cache[k] = (t.replace("\n", "\r\n") if case.get("crlf") else t, case)
        return self._cache[k][0]

    def expected(self, case, **kw):
        m = MODEL[case["fmt"]]
        if case["fmt"] == "pf":
            kw.setdefault("now", int(core.clock.now))
            kw.setdefault("tz", self.spec.get("env", {}).get("tz", 0))
        e = m.expected(case["st"], **kw)
        return None if e is None else J(e)

    def options(self, case):
        o = case.get("opt")
        return {None: None, "acl": ACLParserOptions(), "pf": pfsenseParserOptions(),
                "off": pfsenseParserOptions(fetch_urltable=False)}[o]

    def load(self, case, via="cls"):
        """the real thing; raises what it raises"""
        t = self.text(case)
        o = self.options(case)
        if via == "cls":
            return CLS[case["fmt"]].fromString(t, options=o)
        if via == "auto":
            return ACLConfig.fromString(t, filename="x.conf", options=o)
        if via == "file":
            return ACLConfig.fromFile(io.BytesIO(t.encode("utf-8")), options=o)
        if via == "bom":
            return CLS[case["fmt"]].fromFile(io.BytesIO(b"\xef\xbb\xbf" + t.encode("utf-8")), options=o)
        if via == "path":
            if fsm.fs.dir is None:
                fsm.scratch()
            p = fsm.put("c%d.conf" % len(fsm.fs.log), t)
            fsm.fs.log.append(["put"])
            return ACLConfig.fromPath(p, options=o)
        raise ValueError(via)

    def snap(self, cfg):
        return J(observe.snapshot(cfg))

    def check_cfg(self, cfg, exp, what, where=""):
        """a loaded configuration against what the model says"""
        got = self.snap(cfg)
        return self.expect(got == exp, what, lambda: where + ": " + observe.diff(exp, got))

    def load_checked(self, case, via="cls", what="load", exp=0):
        """load and compare; -> configuration or None"""
        if exp == 0:
            exp = self.expected(case)
        try:
            cfg = self.load(case, via)
        except Exception as e:
            self.expect(exp is None, what + "-rejected", lambda: "valid %s configuration (%s) raised %r" % (case["fmt"], via, e))
            return None
        if exp is None:
            self.expect(False, what + "-accepted", "invalid %s configuration (%s) was loaded: %s" % (case["fmt"], via, [s for s in case["st"] if s["t"] == "raw"]))
            return None
        self.check_cfg(cfg, exp, what + "-differs", "%s via %s" % (case["fmt"], via))
        return cfg

    # -- simulation
    def sim(self, fns, name="sched", allow=False, budget=3_000_000):
        """run the functions as concurrent tasks -> (tasks, Sim)"""
        sc = self.spec.get(name) or {"switches": []}
        if "switches" in sc:
            s = core.Sim(sc["switches"], budget)
        else:
            s = core.Sim((), budget, random.Random(sc["seed"]), sc.get("gap", 0), sc["limit"], sc.get("rare", 0))
        tasks = s.run(fns)
        self.scheds[name] = {"switches": [list(x) for x in s.switches]}
        self.stats["lines"] += s.ev
        self.stats["switches"] += s.nswitch
        self.stats["tasks"] += len(tasks)
        for k, v in s.fired.items():
            self.faults[k] += v
        self.note(s.sched, s.faultlog)
        self.stats["blocks"] += s.blocks
        if not allow:
            if s.stop:
                self.viol("stuck", s.stop)
            for t in tasks:
                if t.exc is not None:
                    self.viol("exception", "task %d: %r" % (t.n, t.exc))
        self.last = s
        return tasks, s

    seen = {}

    def solo(self, fn, name=None, allow=False, budget=3_000_000):
        """run one function as the only task -> (result, exception)"""
        box = []

        def f():
            box.append(fn())
        s = core.Sim((), budget)
        t = s.run([f])[0]
        self.stats["lines"] += s.ev
        for k, v in s.fired.items():
            self.faults[k] += v
        if s.faultlog:
            self.note(s.faultlog)
        self.last = s
        if s.stop and not allow:
            self.viol("stuck", s.stop)
        return (box[0] if box else None), t.exc

    def steps(self, fn):
        """how many lines fn takes (it runs, undisturbed)"""
        core.trace(True)
        try:
            r, e = self.solo(fn, allow=True)
        finally:
            self.seen = core.trace(False)
        return self.last.ev, r, e

    def armed(self, fn, n, frac, exc, how=("step", 0)):
        """fn with a fault at fraction frac of n steps, or of the lines seen by steps() -> (result, exception, fired)"""
        at = core.place(self.seen, n, how[0], frac, how[1])

        def f():
            core.sim.arm(at, exc)
            try:
                return fn()
            finally:
                core.sim.disarm()
        r, e = self.solo(f, allow=True)
        return r, e, bool(self.last.fired)

    def result(self):
        for k, v in netm.net.kinds.items():
            self.faults["net: " + k] += v
        for k, v in fsm.fs.kinds.items():
            self.faults["fs: " + k] += v
        fsm.cleanup()
        self.stats["virtual_ms"] += int((core.clock.mono - self.start) * 1000)
        r = {"viol": self.viols, "sched": self.scheds, "stats": dict(self.stats), "faults": dict(self.faults),
             "sig": self.sig.hexdigest()[:16]}
        if self.extra is not None:
            r["extra"] = self.extra
        r["digest"] = hashlib.sha1(json.dumps(r, sort_keys=True).encode()).hexdigest()[:16]
        return r


def posix_tz(sec):
    """offset east of UTC in seconds -> POSIX TZ offset"""
    s = -sec
    return "%s%02d:%02d:%02d" % ("-" if s < 0 else "", abs(s) // 3600, abs(s) % 3600 // 60, abs(s) % 60)
