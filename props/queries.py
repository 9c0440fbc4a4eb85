"""C09-C12 and C20: queries on shared configurations, while other threads query, expand, sort and load."""
from sim import model_caf, observe
from sim.world import MODEL, ACLConfig, J, cafBlock, gen_case, gen_env, gen_sched, gen_via

KINDS = ("network", "port", "service", "protocol", "icmp")


def term(r, snap):
    return model_caf.gen(r, snap, 0)[:1]


def gen(r, tier, focus):
    bases, snaps = [], []
    for _ in range(r.choice([1, 1, 2])):
        c = gen_case(r, size=(5, 16))
        bases.append(c)
        snaps.append(MODEL[c["fmt"]].expected(c["st"]))
    # filters shared by threads and configurations
    shared = [model_caf.gen(r, snaps[0]) for _ in range(2)]
    threads = []
    n = r.choice([1, 2, 3])
    for t in range(n):
        ops = []
        for _ in range(r.choice([2, 4, 6])):
            b = r.randrange(len(bases))
            k = {"filter": "filter", "caf": "caf", "resolve": "resolve", "expand": "filter", "pure": r.choice(["filter", "resolve", "copies"])}[focus]
            op = {"op": k, "on": b, "style": r.randrange(252)}
            x = r.random()
            if k == "copies":
                pass
            elif x < 0.15:
                op["shared"] = r.randrange(len(shared))
            elif focus == "filter":
                op["expr"] = term(r, snaps[b])
                if r.random() < 0.3:
                    # several targets at once, without the language
                    op["targets"] = [term(r, snaps[b]) for _ in range(r.choice([1, 2, 3]))]
                if r.random() < 0.4 and snaps[b]:
                    # rules made by hand, as examples/acl-filter.py does
                    op["hand"] = [model_caf.gen_by_hand(r, snaps[b]) for _ in range(r.choice([1, 1, 2, 3]))]
            else:
                op["expr"] = model_caf.gen(r, snaps[b], r.choice([1, 2, 2, 3]) if focus == "caf" else 1)
            ops.append(op)
            y = r.random()
            if y < 0.1:
                for _ in range(r.choice([1, 1, 3])):
                    ops.append({"op": "load", "case": gen_case(r, size=(2, 6)), "via": gen_via(r), "shared": r.choice([None, 0, 1])})
            elif y < 0.2 and focus != "resolve" and focus != "pure":
                ops.append({"op": r.choice(["expand", "expand", "sort"]) if focus != "expand" else "expand", "on": b})
            elif y < 0.3:
                ops.append({"op": "copies", "on": b})
        threads.append({"ops": ops})
    if focus == "expand":
        for _ in range(r.choice([1, 2])):
            threads.append({"ops": [{"op": "expand", "on": b} for b in range(len(bases)) for _ in range(r.choice([1, 2]))]})
        r.shuffle(threads)
    return {"bases": bases, "shared": [{"expr": e} for e in shared], "threads": threads, "sched": gen_sched(r), "env": gen_env(r),
            "late": [{"expr": model_caf.gen(r, snaps[0])} for _ in range(2)],
            "grow": [[r.choice(["member", "member", "member", "less", "drop", "move", "nat"]), r.randrange(len(bases)), r.random(), r.random(),
                      r.choice(model_caf.addresses(snaps[0]))] for _ in range(r.choice([0, 1, 2, 4]))] if snaps[0] else []}


def grow(cfg, e, op):
    """a change of the configuration by its owner, and the same change of what is expected of it"""
    from acltk.aclObjects import ICMP, NetworkHost, Port, Protocol, Service
    kind, _, x, y, a = op
    if kind in ("member", "less"):
        l = [(k, n) for k, _ in model_caf.GKINDS for n in sorted(getattr(cfg.groups, k)) if kind == "member" or e["groups"][k][n]["items"]]
        # networks are what filters look at
        l = l + 2 * [z for z in l if z[0] == "network"]
        if not l:
            return None
        k, n = l[int(x * len(l))]
        g, items = getattr(cfg.groups, k)[n], e["groups"][k][n]["items"]
        if kind == "less":
            i = int(y * len(items))
            del g.objects[i], items[i]
            return "%s group %s without %d" % (k, n, i)
        o, m = {"network": (NetworkHost(a.split("/")[0]), ["host", a.split("/")[0], None]), "port": (Port("eq", "4711"), ["port", "eq", "4711"]),
                "protocol": (Protocol("47"), ["p", "47"]), "icmp": (ICMP("echo", None), ["icmp", "echo", None]),
                "service": (Service(Protocol("47")), ["svc", "47", None, None, None, None])}[k]
        g.add(o)
        items.append(m)
        return "%s group %s with %s" % (k, n, m)
    if kind == "nat":
        l = [s for s in sorted(cfg.nat) if cfg.nat[s]]
        if not l:
            return None
        s = l[int(x * len(l))]
        i = int(y * len(cfg.nat[s]))
        del cfg.nat[s][i], e["nat"][str(s)][i]
        return "without nat %s %d" % (s, i)
    n = len(e["rules"])
    if not n:
        return None
    i = int(x * n)
    o, m = cfg.rules.rules.pop(i), e["rules"].pop(i)
    if kind == "move":
        j = int(y * n)
        cfg.rules.rules.insert(j, o)
        e["rules"].insert(j, m)
        return "rule %d at %d" % (i, j)
    return "without rule %d" % i


def made(cfg, h):
    from acltk import aclObjects as o
    k = h[0]
    if k == "ng":
        return cfg.groups.network[h[1]]
    if k == "no":
        return cfg.objects.network[h[1]]
    c, a = {"any": (o.NetworkAny, ()), "any4": (o.NetworkAny4, ()), "any6": (o.NetworkAny6, ()), "host": (o.NetworkHost, h[1:2]),
            "net": (o.Network, h[1].split("/") if k == "net" else ()), "wild": (o.NetworkWildcard, h[1:3]), "if": (o.NetworkInterface, h[1:2])}[k]
    return c(*a)


def selected(cfg, res):
    return ({i for i, x in enumerate(cfg.rules.rules) if x in res}, {(str(s), i) for s, l in cfg.nat.items() for i, x in enumerate(l) if x in res})


def show(sel):
    return "rules %s nat %s" % (sorted(sel[0]), sorted(sel[1]))


def run(w, focus):
    from acltk.aclObjects import ACLNode, ACLRule
    spec = w.spec
    es = [w.expected(c) for c in spec["bases"]]
    cfgs = [w.load_checked(c, what="base") for c in spec["bases"]]
    if any(c is None for c in cfgs):
        return
    shared = [cafBlock.fromString(model_caf.render(e["expr"])) for e in spec["shared"]]
    late = [cafBlock.fromString(model_caf.render(e["expr"], 5)) for e in spec["late"]]
    expanded = [any(op["op"] == "expand" and op["on"] == b for t in spec["threads"] for op in t["ops"]) for b in range(len(cfgs))]
    sorts = [any(op["op"] == "sort" and op["on"] == b for t in spec["threads"] for op in t["ops"]) for b in range(len(cfgs))]
    marks = []
    grown = []

    def by_hand(targets, cfg, e):
        rules = []
        for t in targets:
            rules.append(ACLRule(id=t["id"], **{k: ACLNode(made(cfg, t[k])) for k in ("src", "dst")}))
        wants = [model_caf.by_hand(t, e) for t in targets]
        no = set().union(*[x[2] for x in wants])
        want = set().union(*[x[0] for x in wants]) - no, set()
        w.stats["op by hand"] += 1
        res = cfg.rules.filter(rules)
        got = selected(cfg, res)
        got = got[0] - no, got[1] - no
        w.expect(got == want, "by-hand-wrong", lambda: "%s select %s, expected %s" % (targets, show(got), show(want)))
        for t, rule, x in zip(targets, rules, wants):
            got = selected(cfg, cfg.filter(cafBlock(rule)))
            got, want = (got[0] - no, got[1] - no), (x[0] - no, x[1] - no)
            w.expect(got == want, "by-hand-block-wrong", lambda: "%s selects %s, expected %s" % (t, show(got), show(want)))
        for t, rule, x in zip(targets, rules, wants):
            # and asked the other way round
            got = {i for i, y in enumerate(cfg.rules.rules) if y & rule} - no
            w.expect(got == x[0] - no, "by-hand-reverse-wrong", lambda: "%s meets %s, expected %s" % (t, sorted(got), sorted(x[0] - no)))

    def query(op, cfg=None, e=None):
        if cfg is None:
            cfg, e = cfgs[op["on"]], es[op["on"]]
        if "shared" in op and op["shared"] < len(shared):
            expr, f = spec["shared"][op["shared"]]["expr"], shared[op["shared"]]
        elif "late" in op:
            expr, f = spec["late"][op["late"]]["expr"], late[op["late"]]
        else:
            expr = op.get("expr") or [{"id": None, "ip": [["src", ["any"]]]}]
            t = model_caf.render(expr, op["style"])
            try:
                f = cafBlock.fromString(t)
            except Exception as x:
                w.expect(False, "caf-rejected", "%s raised %r" % (t, x))
                return
        want = model_caf.run(expr, e)
        try:
            res = cfg.filter(f)
        except Exception as x:
            w.expect(False, "filter-raised", "%s raised %r" % (model_caf.render(expr), x))
            return
        marks.append([len(want[0]), len(want[1])])
        got = selected(cfg, res)
        w.expect(got == want and len(res) == len(want[0]) + len(want[1]), "filter-wrong", lambda: "%s selects %s (%d things), expected %s" % (
            model_caf.render(expr), show(got), len(res), show(want)))
        res2 = f.run(cfg.rules)
        got = selected(cfg, res2)
        w.expect(got == (want[0], set()) and len(res2) == len(want[0]), "run-wrong", lambda: "%s on the rules selects %s, expected %s" % (
            model_caf.render(expr), show(got), sorted(want[0])))
        if op.get("targets"):
            ts = [cafBlock.fromString(model_caf.render(t)).expr for t in op["targets"]]
            if all(type(t).__name__ == "ACLRule" for t in ts):
                got = selected(cfg, cfg.rules.filter(ts))
                want = set().union(*[model_caf.run(t, e)[0] for t in op["targets"]])
                w.expect(got == (want, set()), "targets-wrong", lambda: "%s select %s, expected %s" % (
                    [model_caf.render(t) for t in op["targets"]], show(got), sorted(want)))
        if op.get("hand"):
            by_hand(op["hand"], cfg, e)
        if op["op"] == "resolve":
            try:
                res = cfg.resolve(set(res))
            except Exception as x:
                w.expect(False, "resolve-raised", "%s raised %r" % (model_caf.render(expr), x))
                return
            want = model_caf.run(expr, e)
            a, g = model_caf.resolve(e, *want), model_caf.observed(cfg, observe.Obs(cfg), res)
            w.expect(a == g, "resolve-wrong", lambda: "%s: missing %s, extra %s" % (model_caf.render(expr), sorted(a - g), sorted(g - a)))
            marks.append(len(a))

    def copies(op):
        cfg, e = cfgs[op["on"]], es[op["on"]]
        for kind, k in model_caf.GKINDS:
            for n, g in sorted(getattr(cfg.groups, kind).items()):
                c = g.expand(insitu=False)
                got = J(observe.Obs(None).members(c))
                want = J(model_caf.flatten(e, k, n))
                if not sorts[op["on"]]:
                    w.expect(got == want, "copy-wrong", lambda: "%s expands to %s, expected %s" % (n, got, want))
                else:
                    w.expect(sorted(map(repr, got)) == sorted(map(repr, want)), "copy-wrong", lambda: "%s expands to %s, expected %s" % (n, got, want))
                w.expect(c is not g and c.objects is not g.objects and type(c) is type(g) and c.name == g.name and c.description == g.description,
                         "copy-aliased", lambda: "%s: the copy is the original" % n)
                # the copy is the caller's
                c.objects.reverse()
                del c.objects[:1]

    def task(t):
        def f():
            for op in t["ops"]:
                k = op["op"]
                if k in ("filter", "caf", "resolve"):
                    query(op)
                elif k == "copies":
                    copies(op)
                elif k == "load":
                    c = w.load_checked(op["case"], op["via"], what="meanwhile")
                    if c is not None and op.get("shared") is not None and op["shared"] < len(shared):
                        # a configuration that is gone soon, its place taken by the next one
                        query({"op": "resolve" if focus in ("resolve", "pure") else "filter", "style": 0, "shared": op["shared"]}, c, w.expected(op["case"]))
                    c = None
                elif k == "expand":
                    cfgs[op["on"]].expand()
                elif k == "sort":
                    for kind in KINDS[:4]:
                        for n, g in sorted(getattr(cfgs[op["on"]].groups, kind).items()):
                            g.sort()
        return f
    w.sim([task(t) for t in spec["threads"]])
    # what is left behind
    for b, cfg in enumerate(cfgs):
        g = w.snap(cfg)
        if sorts[b]:
            x, y = canonical(model_caf.expand(es[b])), canonical(model_caf.expand(g))
            w.expect(x == y, "changed", lambda: observe.diff(x, y))
            continue
        if expanded[b]:
            x = model_caf.expand(es[b])
            w.expect(g == x, "expand-wrong", lambda: observe.diff(x, g))
            cfg.expand()
            w.expect(w.snap(cfg) == x, "expand-not-idempotent", lambda: observe.diff(x, w.snap(cfg)))
        else:
            w.expect(g == es[b], "changed", lambda: observe.diff(es[b], g))
    for n in range(len(late)):
        query({"op": "filter" if expanded[0] or sorts[0] else "resolve", "on": 0, "style": 0, "late": n})
    # the owner changes the configurations, the filters stay
    for op in spec.get("grow", []):
        if op[1] >= len(cfgs):
            continue
        if not any(es[op[1]] is x for x in grown):
            es[op[1]] = w.snap(cfgs[op[1]])
            grown.append(es[op[1]])
        d = grow(cfgs[op[1]], es[op[1]], op)
        if d is None:
            continue
        w.stats["op " + op[0]] += 1
        for b in range(len(cfgs)):
            g = w.snap(cfgs[b])
            if not any(es[b] is x for x in grown):
                continue
            w.expect(g == es[b], "grown-differs", lambda: "%s: %s" % (d, observe.diff(es[b], g)))
        for n in range(len(late)):
            query({"op": "filter", "on": op[1], "style": 0, "late": n})
        for n in range(len(shared)):
            query({"op": "resolve" if focus in ("resolve", "pure") else "filter", "on": op[1], "style": 0, "shared": n})
    w.expect(w.out.getvalue() == "", "stdout", lambda: "wrote to stdout: %r" % w.out.getvalue()[:200])
    w.note(marks)


def canonical(s):
    for k in s["groups"]:
        for g in s["groups"][k].values():
            g["items"].sort(key=repr)
    return s
