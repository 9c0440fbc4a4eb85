"""C18: a stored configuration is the configuration, after any number of stores, loads and restarts."""
import copy
import pickle
import shelve

from sim import core, model_caf, observe, restart, vandal
from sim.world import MODEL, J, gen_case, gen_env, gen_sched


def gen(r, tier):
    cases = [gen_case(r, size=(3, 10)) for _ in range(r.choice([1, 2]))]
    snaps = [MODEL[c["fmt"]].expected(c["st"]) for c in cases]
    phases = []
    for _ in range(r.choice([1, 2, 3])):
        threads = []
        for _ in range(r.choice([1, 1, 2, 3])):
            ops = []
            for _ in range(r.choice([2, 3, 5])):
                c = r.randrange(len(cases))
                k = r.choice(["put", "put", "get", "get", "get", "spoil", "query", "query", "cycle", "copy", "trunc", "expandput"])
                op = {"op": k, "c": c}
                if k in ("query",):
                    op["expr"] = model_caf.gen(r, snaps[c])
                if k in ("trunc",):
                    op["frac"] = r.random()
                if k in ("cycle",):
                    op["proto"] = [r.randrange(0, 6) for _ in range(r.choice([1, 2, 4]))]
                if k in ("put", "get", "query", "spoil") and r.random() < 0.1:
                    op["fault"] = [r.choice(["MemoryError", "KeyboardInterrupt"]), r.randrange(1, 30)]
                ops.append(op)
            threads.append({"ops": ops})
        phases.append({"threads": threads, "restart": r.random() < 0.35})
    return {"cases": cases, "phases": phases, "proto": r.choice([None, 0, 2, 4, 5]), "sched": gen_sched(r), "env": gen_env(r)}


class Disk(dict):
    """survives the process; one write is one step"""


def run(w):
    spec = w.spec
    es = [w.expected(c) for c in spec["cases"]]
    ex = [model_caf.expand(e) for e in es]
    for c in spec["cases"]:
        w.text(c)
    disk = Disk()
    stored = {}     # case -> snapshots that may be stored now
    sys_ = {"acltk": __import__("acltk")}

    def sel(cfg, res):
        return ({i for i, x in enumerate(cfg.rules.rules) if x in res}, {(str(s), i) for s, l in cfg.nat.items() for i, x in enumerate(l) if x in res})

    def load(n):
        return sys_["acltk"].ACLConfig.fromString(w.text(spec["cases"][n]), filename="x")

    typed = {}      # (case, expanded) -> the snapshot with types of one loaded from text

    def withtypes(n, x):
        if (n, x) not in typed:
            cfg = load(n)
            if x:
                cfg.expand()
            typed[n, x] = J(observe.snapshot(cfg, typed=True))
        return typed[n, x]

    def same(cfg, cands, what, where, n=None):
        g = w.snap(cfg)
        w.expect(g in cands, what, lambda: where + ": " + min((observe.diff(e, g) for e in cands), key=len))
        if n is not None and g in cands:
            t = J(observe.snapshot(cfg, typed=True))
            c = [withtypes(n, x) for x, e in ((False, es[n]), (True, ex[n])) if g == e]
            w.expect(t in c, what, lambda: where + ": " + min((observe.diff(e, t) for e in c), key=len))
        return g

    def guarded(op, fn):
        """-> (done, result)"""
        if "fault" not in op:
            return True, fn()
        core.sim.arm(op["fault"][1], op["fault"][0])
        try:
            r = fn()
        except core.FAULTS[op["fault"][0]]:
            if not core.sim.disarm():
                raise
            return False, None
        core.sim.disarm()
        return True, r

    def one(db, op):
        n = op["c"]
        key = "c%d" % n
        k = op["op"]
        if k in ("put", "expandput"):
            cfg = load(n)
            want = es[n]
            if k == "expandput":
                cfg.expand()
                want = ex[n]
            l = stored.setdefault(n, [])
            if want not in l:
                l.append(want)
            def f():
                db[key] = cfg
            guarded(op, f)
            same(cfg, [want], "storing-changed-it", "%s after it was stored" % key)
            return
        if k == "cycle":
            cfg = load(n)
            for p in op["proto"]:
                cfg = pickle.loads(pickle.dumps(cfg, p))
            same(cfg, [es[n]], "pickle-differs", "%s through pickle %s" % (key, op["proto"]), n)
            ts = cfg.timestamp
            w.expect(hasattr(ts, "year") and cfg.name == load(n).name, "pickle-differs", lambda: "%r %r" % (ts, cfg.name))
            return
        if k == "copy":
            cfg = load(n)
            c = copy.deepcopy(cfg)
            same(c, [es[n]], "copy-differs", "deep copy of %s" % key, n)
            c.expand()
            same(c, [ex[n]], "expand-differs", "deep copy of %s, expanded" % key, n)
            same(cfg, [es[n]], "copy-shares", "%s after its deep copy was expanded" % key)
            vandal.vandal(c)
            same(cfg, [es[n]], "copy-shares", "%s after its deep copy was spoiled" % key, n)
            c = pickle.loads(pickle.dumps(cfg))
            vandal.vandal(cfg)
            same(c, [es[n]], "copy-shares", "%s through pickle after the original was spoiled" % key, n)
            return
        if k == "trunc":
            b = pickle.dumps(load(n), 4)
            try:
                c = pickle.loads(b[:int(len(b) * op["frac"])])
            except Exception:
                w.ok()
                return
            w.expect(False, "half-loaded", "%d of %d bytes load as %r" % (int(len(b) * op["frac"]), len(b), c))
            return
        if key not in disk:
            return
        try:
            done, cfg = guarded(op, lambda: db[key])
        except Exception as x:
            w.expect(False, "unloadable", "%s: %r" % (key, x))
            return
        if not done:
            return
        g = same(cfg, stored[n], "stored-differs", "%s from the store" % key, n)
        if g not in stored[n]:
            return
        if k == "spoil":
            # what was loaded is the caller's own
            cfg.expand()
            e = model_caf.expand(g)
            same(cfg, [e], "expand-differs", "%s from the store, expanded" % key)
            other = db[key]
            vandal.vandal(cfg)
            same(other, stored[n], "copies-share", "%s loaded before another one was changed" % key, n)
            same(db[key], stored[n], "store-shares", "%s loaded again after a loaded one was changed" % key)
        if k == "query":
            cafBlock = sys_["acltk"].cafBlock
            want = model_caf.run(op["expr"], g)
            f = cafBlock.fromString(model_caf.render(op["expr"]))
            res = cfg.filter(f)
            w.expect(sel(cfg, res) == want, "query-differs", lambda: "%s selects %s of the stored configuration, expected %s" % (
                model_caf.render(op["expr"]), sel(cfg, res), want))
            r = cfg.resolve(set(res))
            a, b = model_caf.resolve(g, *want), model_caf.observed(cfg, observe.Obs(cfg), r)
            w.expect(a == b, "resolve-differs", lambda: "%s: missing %s, extra %s" % (model_caf.render(op["expr"]), sorted(a - b), sorted(b - a)))
            # filters are stored, too
            f2 = pickle.loads(pickle.dumps(f))
            w.expect(sel(cfg, cfg.filter(f2)) == want, "filter-differs", lambda: "%s through pickle" % model_caf.render(op["expr"]))

    for ph in spec["phases"]:
        db = shelve.Shelf(disk, protocol=spec["proto"])
        w.sim([lambda t=t: [one(db, op) for op in t["ops"]] for t in ph["threads"]])
        if ph["restart"]:
            sys_["acltk"] = restart.restart()
            w.faults["restart"] += 1
    for n in range(len(es)):
        if "c%d" % n in disk:
            same(shelve.Shelf(disk)["c%d" % n], stored[n], "stored-differs", "c%d at the end" % n)
    w.note(sorted(disk), len(spec["phases"]))
