"""C17: dates and ages come from one instant of the load, in the local zone; nothing else depends on the clock."""
import datetime
import pickle
import time

from sim import core, net, observe
from sim.world import NOW, ACLConfig, cafBlock, gen_case, gen_env, gen_sched, gen_via

DST = ["CET-1CEST,M3.5.0,M10.5.0/3", "EST5EDT,M3.2.0,M11.1.0", "AEST-10AEDT,M10.1.0,M4.1.0/3", "<-03>3"]


def gen(r, tier):
    env = gen_env(r)
    if r.random() < 0.7:
        env["tz"] = r.choice([0, 3600, -3600, 20700, 50400, -43200, 43200, -12600, r.randrange(-43200, 50400, 900)])
    else:
        env["zone"], env["tz"] = r.choice(DST), None
    now = env["now"]
    if r.random() < 0.4:
        # about midnight, local or UTC
        now = env["now"] = now - now % 86400 - (env["tz"] or 0) * r.choice([0, 1]) + r.choice([-1, 0, 1, -30, 3600])
    if r.random() < 0.3:
        env["now"] += r.choice([0.25, 0.5, 0.999])
    jumps = []
    n = 0
    for _ in range(r.choice([0, 0, 1, 2, 4, 8])):
        n += r.choice([1, 1, 1, 2, 3, 8])
        jumps.append([n, r.choice([1, 60, 3600, 86399, 86400, -1, -86400, 400 * 86400, -400 * 86400, r.randrange(-10 ** 7, 10 ** 7)])])
    env["jumps"] = jumps
    threads = []
    for _ in range(r.choice([1, 1, 2, 3])):
        ops = []
        for _ in range(r.choice([1, 2, 3])):
            fmt = r.choice(["pf", "pf", "pf", "asa", "ios"])
            c = gen_case(r, fmt, size=(3, 12), **({"url": r.choice([0, 0, 1])} if fmt == "pf" else {}))
            for s in c["st"]:
                if s["t"] == "rule" and fmt == "pf":
                    for k in ("created", "updated"):
                        if r.random() < 0.5:
                            s[k] = None if r.random() < 0.5 else int(now) + 86400 * r.choice([-1, -1, -7, -365, 0, 1, 30]) + r.choice([-1, 0, 1, r.randrange(86400)])
            ops.append({"case": c, "via": gen_via(r), "slow": r.choice([0, 1, 20, 29])})
            if fmt == "pf":
                c["opt"] = r.choice([None, "pf", "acl"])
        threads.append({"ops": ops})
    return {"threads": threads, "sched": gen_sched(r), "env": env}


def local(t):
    return datetime.datetime(*time.localtime(t)[:6])


def run(w):
    spec = w.spec
    env = spec["env"]
    servers = {"tables.example.net:80": {"paths": {}}}
    for t, th in enumerate(spec["threads"]):
        for n, op in enumerate(th["ops"]):
            for s in op["case"]["st"]:
                if s["t"] == "alias" and s["type"] == "urltable":
                    path = "/t%d/%d/%s" % (t, n, s["n"])
                    s["v"] = "http://tables.example.net" + path
                    servers["tables.example.net:80"]["paths"][path] = [
                        {"chunks": [[op["slow"], "HTTP/1.1 200 OK\r\nContent-Length: 9\r\n\r\n192.0.2.1"]], "end": "fin", "kind": "slow" if op["slow"] else None}]
    net.reset(servers)

    def one(op):
        c = op["case"]
        i0 = len(core.clock.seen)
        first = core.clock.now
        try:
            cfg = w.load(c, op["via"])
        except Exception as x:
            w.expect(False, "load-failed", lambda: "%r" % x)
            return
        instants = [first] + core.clock.seen[i0:] + [core.clock.now]
        g = w.snap(cfg)
        # when it was loaded
        ts = cfg.timestamp
        late = [(local(i) + datetime.timedelta(seconds=i % 1) - ts.replace(tzinfo=None)).total_seconds() for i in instants]
        w.expect(any(-0.001 <= d < 1 for d in late), "timestamp",
                 lambda: "loaded at %s, while the clock showed %s" % (ts, ["%s + %.3f s" % (local(i), i % 1) for i in dict.fromkeys(instants)]))
        if c["fmt"] != "pf":
            e = w.expected(c)
            w.expect(e == g, "depends-on-clock", lambda: observe.diff(e, g))
            return
        u = {s["n"]: ["192.0.2.1"] for s in c["st"] if s["t"] == "alias" and s["type"] == "urltable"}
        cands = sorted({int(i // 1) for i in instants})
        if env["tz"] is None:
            e = w.expected(c, now=cands[0], tz=0, fetch=u)
            ok = dates_ok(c, g, cands)
            w.expect(ok is None, "dates", lambda: ok)
            for x in (e, g):
                for ru in x["rules"]:
                    ru["remark"] = ru["remark"][:1]
            w.expect(e == g, "depends-on-clock", lambda: observe.diff(e, g))
            return
        es = [w.expected(c, now=i, tz=env["tz"], fetch=u) for i in cands]
        best = next((e for e in es if e == g), None)
        w.expect(best is not None, "dates", lambda: "zone %+d s, the clock showed %s, no single instant of these explains: %s" % (
            env["tz"], cands, min((observe.diff(e, g) for e in es), key=len)))
        w.note(len(cands))

    def dates_ok(c, g, cands):
        from sim.model_pf import ordered_rules
        for now in cands:
            bad = None
            for s, ru in zip(ordered_rules(c["st"]), g["rules"]):
                t = [s[k] if s[k] is not None else now for k in ("created", "updated")]
                d = [local(x).strftime("%Y-%m-%d") for x in t]
                ages = [[(now - x) // 86400 + k for k in (-1, 0, 1)] for x in t]
                if ru["remark"][1] not in ["c: %s (%d days) / m: %s (%d days)" % (d[0], a, d[1], b) for a in ages[0] for b in ages[1]]:
                    bad = "zone %s, clock %s: %s, expected c: %s (%d days) / m: %s (%d days)" % (env["zone"], cands, ru["remark"][1], d[0], ages[0][1], d[1], ages[1][1])
                    break
            if bad is None:
                return None
        return bad

    w.sim([lambda th=th: [one(op) for op in th["ops"]] for th in spec["threads"]])
    w.faults["clock jump"] += sum(1 for n, d in env["jumps"] if n <= core.clock.reads)
