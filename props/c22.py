"""C22: what is loaded, selected and shown is a function of the inputs alone: not of hash seeds, memory layout, or what the process did before.

Every run happens in three processes with different string hash seeds, different
object hashes (so different orders of every set), different histories and
different thread schedules; all of them have to show the same.
"""
import hashlib
import io
import ipaddress
import json
import logging
import os
import runpy
import subprocess
import sys

from sim import core, fs as F, model_caf, observe, web
from sim.world import MODEL, ACLConfig, Out, cafBlock, gen_case, gen_env, gen_sched, gen_via

EX = "/repo/examples/"
web.warm_static()
PARTS = 2
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


class Sibling:
    """the same code in a process with other hash seeds"""

    def __init__(self, k):
        lane = int(os.environ.get("PYTHONHASHSEED", "0"))
        env = dict(os.environ, PYTHONHASHSEED=str(1000 + 17 * lane + k), SIM_SIBLING="1")
        self.p = subprocess.Popen([sys.executable, os.path.join(HERE, "sim", "boot.py"), "C22"] + ([] if lane == 6 and k else ["--warm"]),
                                  stdin=subprocess.PIPE, stdout=subprocess.PIPE, text=True, env=env, cwd=HERE)

    def ask(self, spec):
        self.p.stdin.write(json.dumps({"prop": "C22", "spec": spec}) + "\n")
        self.p.stdin.flush()

    def answer(self):
        return json.loads(self.p.stdout.readline())


SIBLINGS = [] if os.environ.get("SIM_SIBLING") or len(sys.argv) < 2 or sys.argv[1].upper() != "C22" else [Sibling(k) for k in range(PARTS)]


def gen(r, tier):
    ops = []
    for n in range(r.choice([1, 1, 2])):
        c = gen_case(r, size=(4, 12), neg=0.06)
        if c["fmt"] == "ios" and r.random() < 0.6:
            several_ways(r, c["st"])
        e = MODEL[c["fmt"]].expected(c["st"])
        for _ in range(r.choice([1, 1, 2])):
            ops.append({"n": n, "case": c, "via": gen_via(r), "expr": model_caf.gen(r, e) if e else [{"id": None, "ip": [["src", ["any"]]]}],
                        "style": r.randrange(252), "sns": r.random() < 0.4, "exp": r.random() < 0.4,
                        "tools": r.sample(["texts", "filter", "resolve", "copies", "sort", "page", "caf-filter", "acl-filter", "static", "store"], r.choice([3, 4, 5]))})
    parts = []
    for _ in range(PARTS + 1):
        parts.append({"salt": r.randrange(1 << 30), "sched": gen_sched(r), "threads": [{"ops": [{"case": gen_case(r, size=(2, 6)), "via": gen_via(r)} for _ in range(r.choice([0, 1]))]}
                                                                                       for _ in range(r.choice([0, 1, 2]))],
                      "before": r.random() < 0.5})
    return {"ops": ops, "parts": parts, "env": {"now": gen_env(r)["now"], "tz": 0}}


def several_ways(r, st):
    """more than one route to the same network through the same interface"""
    nets = MODEL["ios"].expected(st)
    if nets is None:
        return
    nets = [ipaddress.ip_interface(x).network for a, i in sorted(nets["interfaces"].items()) for x in i["addresses"] if "." in x]
    nets = [n for n in nets if n.num_addresses > 8]
    if nets:
        n = r.choice(nets)
        for k in range(r.choice([2, 3])):
            st.append({"t": "route", "net": "0.0.0.0/0", "gw": ["ip", str(n.network_address + 1 + k)]})


def outputs(w, part):
    """[[name, text]]: everything the operations show"""
    logging.disable(logging.CRITICAL)
    F.scratch()
    os.chdir(F.fs.dir)
    os.symlink(EX + "render/tpl", "tpl")
    core.hashes.salt = part["salt"]
    w.spec = dict(w.spec, sched=part["sched"])
    out = []

    def decoy(t):
        def f():
            for op in t["ops"]:
                try:
                    cfg = w.load(op["case"], op["via"])
                    cfg.filter(cafBlock.fromString("ip src 10.0.0.0/8"))
                except Exception:
                    pass
        return f

    def main():
        for k, op in enumerate(w.spec["ops"]):
            out.extend([["%d %s" % (k, a), b] for a, b in one(w, op)])
    fns = [decoy(t) for t in part["threads"]]
    if part["before"]:
        for f in fns:
            f()
        fns = []
    w.sim([main] + fns)
    return out


def run(w):
    spec = w.spec
    parts = spec["parts"]
    if "part" in spec:
        w.extra = outputs(w, parts[spec["part"]])
        return
    asked = [s for k, s in enumerate(SIBLINGS) if k + 1 < len(parts)]
    for k, s in enumerate(asked):
        s.ask(dict(spec, part=k + 1))
    try:
        mine = outputs(w, parts[0])
    finally:
        rest = [s.answer() for s in asked]
    w.note([[a, hashlib.sha1(b.encode()).hexdigest()] for a, b in mine])
    for k, res in enumerate(rest):
        if "error" in res:
            raise RuntimeError(res["error"])
        for v in res["viol"]:
            w.viol(v["what"], v["msg"])
        w.stats["lines"] += res["stats"].get("lines", 0)
        w.stats["switches"] += res["stats"].get("switches", 0)
        w.stats["processes"] += 1
        other = res["extra"]
        for (a, b), (c, d) in zip(mine, other):
            if a == c and b != d and reordered(a, b, d):
                w.viol(reordered(a, b, d), "%s: %s" % (a, where(b, d)))
                continue
            if not w.expect(a == c and b == d, "depends-on-process", lambda: "%s: %s" % (a if a == c else (a, c), where(b, d))):
                break


def reordered(name, a, b):
    """which of the known places orders by a set, when nothing else differs"""
    x, y = a.split("\n"), b.split("\n")
    if sorted(x) != sorted(y):
        return None
    k = name.split()[1]
    if k == "caf-filter":
        return "caf-filter-order"
    if k in ("page", "static") and all(" via " in p for p, q in zip(x, y) if p != q):
        return "route-order"


def where(a, b):
    n = next((i for i in range(min(len(a), len(b))) if a[i] != b[i]), min(len(a), len(b)))
    return "%r here, %r elsewhere" % (a[max(0, n - 60):n + 80], b[max(0, n - 60):n + 80])


def tool(script, args):
    old, argv = sys.stdout, sys.argv
    sys.stdout, sys.argv = Out(), [EX + script] + args
    try:
        runpy.run_path(EX + script, run_name="__main__")
        return sys.stdout.getvalue()
    except AssertionError as x:
        return "failed: %s\n%s" % (x, sys.stdout.getvalue())
    finally:
        sys.stdout, sys.argv = old, argv


def one(w, op):
    now = core.clock.now
    try:
        cfg = w.load(op["case"], op["via"])
    except Exception as x:
        yield "rejected", type(x).__name__
        return
    text = w.text(op["case"])
    e = w.snap(cfg)
    yield "snapshot", json.dumps(e)
    f = model_caf.render(op["expr"], op["style"])
    F.put("x.conf", text)
    F.put("x.caf", f)
    for t in op["tools"]:
        if t == "texts":
            yield "rules", "\n".join(map(repr, cfg.rules.rules))
            yield "names", "\n".join(repr(x) for x in cfg.names.objects)
            yield "routes", "\n".join(str(x.network) + str(x.gw) for i in cfg.interfaces.values() for x in getattr(cfg, "routes", []) if x in i.routes)
            for k in ("network", "service", "port", "protocol", "icmp"):
                yield k, repr(getattr(cfg.groups, k))
        elif t in ("filter", "resolve"):
            r = cfg.filter(cafBlock.fromString(f))
            got = {i for i, x in enumerate(cfg.rules.rules) if x in r}, {(str(s), i) for s, l in cfg.nat.items() for i, x in enumerate(l) if x in r}
            want = model_caf.run(op["expr"], e)
            w.expect(got == want, "filter-wrong", lambda: "%s selects %s, expected %s" % (f, got, want))
            yield "selection", json.dumps([sorted(got[0]), sorted(got[1])])
            if t == "resolve":
                yield "resolved", json.dumps(sorted(model_caf.observed(cfg, observe.Obs(cfg), cfg.resolve(r))))
        elif t == "copies":
            for k in ("network", "service", "port", "protocol", "icmp"):
                for n, g in getattr(cfg.groups, k).items():
                    yield "copy of " + n, json.dumps(observe.Obs(None).members(g.expand(insitu=False)))
        elif t == "sort":
            for k in ("network", "service", "port", "protocol"):
                for n, g in getattr(cfg.groups, k).items():
                    yield "sorted " + n, json.dumps(observe.Obs(None).members(g.sort(insitu=False)))
                    if k == "network":
                        try:
                            yield "collapsed " + n, json.dumps(observe.Obs(None).members(g.collapse(insitu=False)))
                        except Exception as x:
                            yield "collapsed " + n, type(x).__name__
        elif t == "store":
            import shelve
            s = web.Store()
            shelve.Shelf(s)["x"] = cfg
            yield "stored", json.dumps(w.snap(shelve.Shelf(s)["x"]))
        elif t == "page":
            app = web.serve(web.Store())
            a = app.test_client().post("/add", data={"file": (io.BytesIO(text.encode()), "x.conf")})
            q = {"config": cfg.name, "caf": f}
            if op["sns"]:
                q["sns"] = "1"
            if op["exp"]:
                q["exp"] = "1"
            a = app.test_client().get("/show", query_string=q)
            yield "page", a.data.decode()
        elif t == "caf-filter":
            yield t, tool("caf-filter.py", ["x.caf", "x.conf"])
        elif t == "acl-filter":
            yield t, tool("acl-filter.py", ["x.conf"])
        elif t == "static":
            tool("render/static.py", ["x.conf", "-o", "o.html", "--caf", "x.caf"] + ["--expand"] * op["exp"] + ["--show-not-selected"] * op["sns"])
            yield t, F.get("o.html").decode()
