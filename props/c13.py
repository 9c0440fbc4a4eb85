"""C13: sorting, collapsing and copying groups keeps what they mean, and copies leave the original alone."""
import socket

from sim import core, model_caf, observe
from sim.world import MODEL, J, gen_case, gen_env, gen_sched
from .faulted import GK, nums

OPS = ["sort", "sortcopy", "sortcopy", "collapsecopy", "collapsecopy", "collapse", "expandcopy", "expandcollapse"]


def gen(r, tier):
    bases = [gen_case(r, size=(8, 18)) for _ in range(r.choice([1, 1, 2]))]
    threads = []
    insitu = r.random() < 0.5
    for _ in range(r.choice([1, 2, 3])):
        ops = []
        for _ in range(r.choice([3, 6, 10])):
            k = r.choice(OPS)
            if not insitu:
                k = {"sort": "sortcopy", "collapse": "collapsecopy", "expandcollapse": "collapsecopy"}.get(k, k)
            op = {"op": k, "on": r.randrange(len(bases)), "pick": r.random()}
            if r.random() < 0.2:
                op["fault"] = [r.choice(["MemoryError", "KeyboardInterrupt"]), r.randrange(1, 40)]
            ops.append(op)
        threads.append({"ops": ops})
    return {"bases": bases, "insitu": insitu, "threads": threads, "sched": gen_sched(r), "env": gen_env(r)}


def numeric(members):
    """the numeric addresses or ports among the members, in order"""
    out = []
    for m in members:
        if m[0] in ("host", "net"):
            out.append(model_caf.bits(m)[1])
    return out


def ports(members):
    return [int(m[2] if m[0] == "port" else m[1]) for m in members if m[0] in ("port", "range") and (m[2] if m[0] == "port" else m[1]).isdigit()]


def run(w):
    spec = w.spec
    es = [w.expected(c) for c in spec["bases"]]
    cfgs = [w.load_checked(c, what="base") for c in spec["bases"]]
    if any(c is None for c in cfgs):
        return
    o = observe.Obs(None)
    gl = []
    for b, e in enumerate(es):
        gl.append([(k, GK[k], n) for k in ("network", "port", "service", "protocol") for n in sorted(e["groups"][k])])

    # groups changed in place by more than one task have no single outcome, unless that is what is asked: one task per group then
    def group(t, op):
        l = gl[op["on"]]
        if spec["insitu"]:
            # before anything else: a group belongs to the same task whatever is done with it
            l = [x for i, x in enumerate(l) if i % len(spec["threads"]) == t]
        if op["op"].startswith("coll") or op["op"] == "expandcollapse":
            l = [x for x in l if x[0] == "network" and not any(m[0] in ("any", "any4", "any6") for m in model_caf.flatten(es[op["on"]], "ng", x[2]))]
        return l[int(op["pick"] * len(l))] if l else None

    touched = set()

    def one(t, op):
        x = group(t, op)
        if x is None:
            return
        kind, k, name = x
        e, cfg = es[op["on"]], cfgs[op["on"]]
        g = getattr(cfg.groups, kind)[name]
        flat = J(model_caf.flatten(e, k, name))
        before = J(o.members(g))
        what = op["op"]
        armed = "fault" in op
        if armed:
            core.sim.arm(op["fault"][1], op["fault"][0])
        c = exc = None
        try:
            if what == "sort":
                c = g.sort()
            elif what == "sortcopy":
                c = g.sort(insitu=False)
            elif what == "collapse":
                c = g.collapse()
            elif what == "collapsecopy":
                c = g.collapse(insitu=False)
            elif what == "expandcopy":
                c = g.expand(insitu=False)
            else:
                g.expand()
                c = g.collapse()
        except (Exception, KeyboardInterrupt) as x:
            exc = x
        if armed and core.sim.disarm():
            w.expect(exc is None or isinstance(exc, core.FAULTS[op["fault"][0]]), "other-error", lambda: "%s of %s: %s became %r" % (what, name, op["fault"][0], exc))
            if exc is not None and what != "expandcollapse":
                now = J(o.members(g))
                w.expect(sorted(map(repr, now)) == sorted(map(repr, before)) if spec["insitu"] else now == before, "half-done",
                         lambda: "%s of %s interrupted: %s, was %s" % (what, name, now, before))
            if what == "expandcollapse" and exc is not None:
                touched.add((op["on"], name))
                f = [y for m in J(o.members(g)) for y in (model_caf.flatten(e, k, m[1]) if m[0] == k else e["objects"]["network"][m[1]]["addresses"] if m[0] == "no" else [m])]
                w.expect(nums(f) == nums(flat), "half-done", lambda: "%s of %s interrupted: %s stands for other addresses than %s" % (what, name, f, flat))
            if exc is not None:
                return
        m = J(o.members(c)) if c is not None else None
        if what == "collapse" and any(y[0] in (k, "no") for y in before):
            w.expect(isinstance(exc, ValueError), "unexpanded-collapsed", lambda: "collapse of %s with %s: %s" % (name, before, exc or m))
            w.expect(J(o.members(g)) == before, "half-done", lambda: "%s: %s was %s" % (name, J(o.members(g)), before))
            return
        if not w.expect(exc is None, "raised", lambda: "%s of %s (%s): %r" % (what, name, before, exc)):
            return
        if what.endswith("copy"):
            w.expect(c is not g and c.objects is not g.objects and type(c) is type(g), "copy-aliased", lambda: "%s of %s is the group itself" % (what, name))
            if not spec["insitu"]:
                w.expect(J(o.members(g)) == before == J(e["groups"][kind][name]["items"]), "original-changed", lambda: "%s of %s: %s was %s" % (what, name, J(o.members(g)), before))
            w.expect(c.name == g.name and c.description == g.description, "copy-unlike", name)
        else:
            w.expect(c is g, "not-in-place", lambda: "%s of %s returned another group" % (what, name))
            touched.add((op["on"], name))
        if "collapse" in what:
            w.expect(nums(m) == nums(flat), "addresses-changed", lambda: "%s of %s: %s, was %s" % (what, name, m, flat))
            import ipaddress
            want = []
            for v in (4, 6):
                want += [str(n) for n in ipaddress.collapse_addresses([n for n in [ipaddress.ip_network(y[1]) for y in flat] if n.version == v])]
            got = [str(ipaddress.ip_network(y[1])) for y in m]
            w.expect(sorted(got) == sorted(want), "not-collapsed", lambda: "%s of %s: %s, expected %s" % (what, name, got, want))
            w.expect(all((y[0] == "host") == (ipaddress.ip_network(y[1]).num_addresses == 1) for y in m), "wrong-kind", lambda: str(m))
        else:
            want = before if what == "sort" else flat
            w.expect(sorted(map(repr, m)) == sorted(map(repr, want)) or spec["insitu"], "members-changed", lambda: "%s of %s: %s, was %s" % (what, name, m, want))
            if what == "expandcopy" and not spec["insitu"]:
                w.expect(m == want, "order-changed", lambda: "%s of %s: %s, was %s" % (what, name, m, want))
            if what.startswith("sort"):
                for f in (numeric, ports):
                    w.expect(f(m) == sorted(f(m)), "not-sorted", lambda: "%s of %s: %s" % (what, name, m))
        w.stats["op " + what] += 1
        if c is not g:
            c.objects.append(None)
            c.objects.reverse()

    def task(n, t):
        return lambda: [one(n, op) for op in t["ops"]]
    w.sim([task(n, t) for n, t in enumerate(spec["threads"])])
    for b, cfg in enumerate(cfgs):
        g = w.snap(cfg)
        e = es[b]
        if not spec["insitu"]:
            w.expect(g == e, "changed", lambda: observe.diff(e, g))
            continue
        for kind, k, n in gl[b]:
            x, y = model_caf.flatten(e, k, n), model_caf.flatten(g, k, n)
            if kind == "network" and not any(m[0] in ("any", "any4", "any6") for m in x):
                w.expect(nums(x) == nums(y), "meaning-changed", lambda: "%s: %s was %s" % (n, y, x))
            elif kind != "network":
                w.expect(sorted(map(repr, J(x))) == sorted(map(repr, J(y))), "meaning-changed", lambda: "%s: %s was %s" % (n, y, x))
        for k in ("rules", "nat", "names", "interfaces", "objects", "access_groups"):
            w.expect(g[k] == e[k], "changed", lambda: k + ": " + observe.diff(e[k], g[k]))
    w.expect(w.out.getvalue() == "", "stdout", lambda: "wrote to stdout: %r" % w.out.getvalue()[:200])
    w.note(sorted(w.stats.items()))
