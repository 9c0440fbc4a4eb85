"""C07 and C08: an operation that runs out of memory or stack, or is cancelled, at any line."""
from sim import core, model_caf, net, observe
from sim.world import MODEL, cafBlock, gen_case, gen_env, gen_via
import pickle

from .tables import lines

OPS = ["load", "load", "load", "caf", "filter", "filter", "resolve", "expand", "gexpand", "sort", "sortcopy", "collapse", "pickle", "rules"]


def gen(r, tier, excs):
    c = gen_case(r, size=(4, 12))
    e = MODEL[c["fmt"]].expected(c["st"])
    ops = []
    for _ in range(r.choice([2, 4, 6])):
        k = r.choice(OPS)
        op = {"op": k, "exc": r.choice(excs), "frac": r.random()}
        op["how"] = [r.choice(["step", "step", "line", "try"]), r.random()]
        if r.random() < 0.15:
            op["frac"] = r.choice([0.0, 0.999])
        if k == "load":
            op["case"] = gen_case(r, size=(3, 9))
            op["via"] = gen_via(r)
            if r.random() < 0.35:
                op["case"] = gen_case(r, "pf", size=(3, 6), url=r.choice([1, 1, 2]))
                op["tables"] = {s["n"]: lines(r)[:30] for s in op["case"]["st"] if s["t"] == "alias" and s["type"] == "urltable"}
                if r.random() < 0.4:
                    op["netfault"] = [r.choice(sorted(op["tables"])), r.random()]
                elif r.random() < 0.6:
                    op["early"] = True
        elif k in ("caf", "filter", "resolve", "rules"):
            op["expr"] = model_caf.gen(r, e)
        elif k in ("gexpand", "sort", "sortcopy", "collapse"):
            op["pick"] = r.random()
        ops.append(op)
    return {"base": c, "ops": ops, "env": gen_env(r)}


def groups(cfg, kinds=("network", "port", "service", "protocol")):
    return [(k, n, g) for k in kinds for n, g in sorted(getattr(cfg.groups, k).items())]


GK = dict(network="ng", port="pog", service="sg", protocol="prg", icmp="ig")


def run(w, strict):
    spec = w.spec
    base_e = w.expected(spec["base"])

    def sel(cfg, res):
        return ({i for i, x in enumerate(cfg.rules.rules) if x in res}, {(str(s), i) for s, l in cfg.nat.items() for i, x in enumerate(l) if x in res})

    def tables(op):
        """url tables are fetched; while one of them comes, the second time, the fault strikes -> expected"""
        paths = {}
        for s in op["case"]["st"]:
            if s["t"] == "alias" and s["type"] == "urltable" and s["n"] in op["tables"]:
                s["v"] = "http://lists.example.net/%s" % s["n"]
                body = "\n".join(op["tables"][s["n"]] + [""]).encode()
                d = "HTTP/1.1 200 OK\r\nContent-Length: %d\r\n\r\n%s" % (len(body), body.decode("latin-1"))
                paths["/" + s["n"]] = [{"chunks": [[0, d]], "end": "fin"}] * 3
                f = op.get("netfault")
                if f and f[0] == s["n"]:
                    paths["/" + s["n"]][1] = {"chunks": [[0, d[:max(1, int(f[1] * len(d)))]]], "end": op["exc"]}
        net.reset({"lists.example.net:80": {"paths": paths}})
        return w.expected(op["case"], fetch=op["tables"])

    def prepare(op, cfg):
        """-> (function to run, judge(result) -> text or None)"""
        k = op["op"]
        if k == "load":
            e = tables(op) if op.get("tables") else w.expected(op["case"])
            def judge(c):
                g = w.snap(c)
                return None if g == e else observe.diff(e, g)
            return (lambda: w.load(op["case"], op["via"])), judge
        if k == "caf":
            t = model_caf.render(op["expr"])
            want = model_caf.run(op["expr"], base_e)
            def judge(f):
                g = sel(cfg, cfg.filter(f))
                return None if g == want else "%s: %s, expected %s" % (t, g, want)
            return (lambda: cafBlock.fromString(t)), judge
        if k in ("filter", "resolve", "rules"):
            f = cafBlock.fromString(model_caf.render(op["expr"]))
            want = model_caf.run(op["expr"], base_e)
            if k == "filter":
                return (lambda: cfg.filter(f)), lambda res: None if sel(cfg, res) == want else "%s, expected %s" % (sel(cfg, res), want)
            if k == "rules":
                return (lambda: f.run(cfg.rules)), lambda res: None if sel(cfg, res) == (want[0], set()) else "%s, expected %s" % (sel(cfg, res), want[0])
            def judge(res):
                a, b = model_caf.resolve(base_e, *want), model_caf.observed(cfg, observe.Obs(cfg), res)
                return None if a == b else "missing %s, extra %s" % (sorted(a - b), sorted(b - a))
            return (lambda: cfg.resolve(cfg.filter(f))), judge
        if k == "expand":
            want = model_caf.expand(base_e)
            def judge(_):
                g = w.snap(cfg)
                return None if g == want else observe.diff(want, g)
            return cfg.expand, judge
        if k == "pickle":
            def judge(b):
                g = w.snap(pickle.loads(b))
                return None if g == base_e else observe.diff(base_e, g)
            return (lambda: pickle.dumps(cfg)), judge
        gs = groups(cfg, ("network",) if k == "collapse" else ("network", "port", "service", "protocol"))
        if k == "collapse":
            gs = [g for g in gs if not any(m[0] in ("any", "any4", "any6") for m in model_caf.flatten(base_e, "ng", g[1]))]
        if not gs:
            return None, None
        kind, name, g = gs[int(op["pick"] * len(gs))]
        flat = model_caf.flatten(base_e, GK[kind], name)
        o = observe.Obs(None)
        o2 = observe.Obs(cfg)
        if k == "gexpand":
            return (lambda: g.expand(insitu=False)), lambda x: None if o.members(x) == flat and o2.members(g) == base_e["groups"][kind][name]["items"] else "%s: %s, expected %s" % (name, o.members(x), flat)
        if k == "collapse":
            def judge(x):
                return None if nums(o.members(x)) == nums(flat) else "%s: %s, expected the addresses of %s" % (name, o.members(x), flat)
            return (lambda: g.collapse(insitu=False)), judge
        items = base_e["groups"][kind][name]["items"]
        if k == "sort":
            return g.sort, lambda x: None if sorted(map(repr, o2.members(g))) == sorted(map(repr, items)) else "%s: %s, expected the members %s" % (name, o2.members(g), items)
        return (lambda: g.sort(insitu=False)), lambda x: None if sorted(map(repr, o.members(x))) == sorted(map(repr, flat)) and o2.members(g) == items else \
            "%s: %s, expected the members %s" % (name, o.members(x), flat)

    blob = pickle.dumps(w.load(spec["base"]))
    for op in spec["ops"]:
        twin, cfg = pickle.loads(blob), pickle.loads(blob)
        fn, _ = prepare(op, twin)
        if fn is None:
            continue
        n, _, e0 = w.steps(fn)
        if e0 is not None:
            w.expect(False, op["op"] + "-fails", "without any fault: %r" % e0)
            continue
        again = dict(net.net.attempts)
        fn, judge = prepare(op, cfg)
        net.net.attempts = again
        if op.get("netfault"):
            k = dict(net.net.kinds)
            res, exc, _ = w.armed(fn, n, 1e9, op["exc"])
            fired, where = net.net.kinds != k, "the network"
        else:
            # tables come first
            res, exc, fired = w.armed(fn, n, op["frac"] * (0.3 if op.get("early") else 1), op["exc"], op["how"] if not op.get("early") else ("step", 0))
            where = w.last.faultlog[0][2:] if w.last.faultlog else None
        if not fired:
            w.stats["fault not reached"] += 1
        w.stats["op " + op["op"]] += 1
        if exc is None:
            if fired and strict:
                w.expect(False, op["op"] + "-swallowed", "%s at %s was swallowed" % (op["exc"], where))
            bad = judge(res)
            w.expect(bad is None, op["op"] + "-wrong-answer", lambda: "after %s at %s: %s" % (op["exc"] if fired else "nothing", where, bad))
        else:
            w.expect(fired and isinstance(exc, core.FAULTS[op["exc"]]), op["op"] + "-other-error",
                     lambda: "%s at %s surfaced as %r" % (op["exc"] if fired else "nothing", where, exc))
        # nothing is lost: meaning of all groups, and the operation itself when tried again
        g = w.snap(cfg)
        if op["op"] != "sort":
            a, b = model_caf.expand(base_e), None
            try:
                b = model_caf.expand(g)
            except KeyError as e:
                b = {"groups": repr(e)}
            w.expect(a == b, op["op"] + "-damaged", lambda: "after %s at %s: %s" % (op["exc"], where, observe.diff(a, b)))
        res, exc = w.solo(fn)
        if exc is not None:
            w.expect(False, op["op"] + "-retry-fails", lambda: "after %s at %s: %r" % (op["exc"], where, exc))
        else:
            bad = judge(res)
            w.expect(bad is None, op["op"] + "-retry-wrong", lambda: "after %s at %s: %s" % (op["exc"], where, bad))
        w.expect(w.out.getvalue() == "", "stdout", lambda: "wrote to stdout: %r" % w.out.getvalue()[:200])
    w.note()


def nums(members):
    """the set of addresses the members stand for, as sorted disjoint ranges"""
    r = []
    for m in members:
        if m[0] in ("host", "net"):
            v, a, k = model_caf.bits(m)
            full = (1 << (32 if v == 4 else 128)) - 1
            r.append((v, a & k, a | (full & ~k)))
        else:
            r.append((0, repr(m), 0))
    out = []
    for v, a, b in sorted(r, key=repr if any(x[0] == 0 for x in r) else None):
        if v and out and out[-1][0] == v and a <= out[-1][2] + 1:
            out[-1][2] = max(out[-1][2], b)
        else:
            out.append([v, a, b])
    return out
