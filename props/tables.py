"""C14 and C15: pfSense url tables over a faulty network, with other loads going on."""
from sim import core, model_pf, net, observe
from sim.world import MODEL, gen_case, gen_env, gen_sched
from sim.model_asa import rhost4, rhost6, rnet4, rnet6

FULL = ["length", "length", "close", "chunked", "redirect"]
BROKEN = ["short", "chunkshort", "reset", "resethead", "404", "500", "badutf8", "loop", "garbage", "empty", "fileredirect"]
SILENT = ["silent", "silenthead", "silentbody", "latebody"]
HOST = ["refuse", "dns", "unreach"]
SILENTHOST = ["partition"]


def lines(r):
    out = []
    for _ in range(r.choice([0, 1, 3, 8, 30, 80] if r.random() < 0.9 else [3000])):
        k = r.random()
        out.append(r.choice([rhost4, rnet4])(r) if k < 0.6 else r.choice([rhost6, rnet6])(r) if k < 0.8 else
                   r.choice(["# comment", "", "; x", "not an address", "10.0.0.300", "<html>", "é", "10.0.0.0/99", "  "]))
        if r.random() < 0.05:
            out[-1] = " %s\t" % out[-1]
    return out


def attempt(r, mode):
    pool = FULL * 3 + BROKEN + (SILENT if mode == "content" else SILENT * 5)
    return {"k": r.choice(pool), "lines": lines(r), "cut": r.random(), "pieces": r.choice([1, 1, 3, 10]), "delay": r.choice([0, 0, 0.01, 1, 5]),
            "nl": r.choice(["\n", "\n", "\r\n"]), "last": r.random() < 0.7, "hops": r.choice([1, 1, 3]), "bom": r.random() < 0.05}


def gen(r, tier, mode):
    threads = []
    for _ in range(r.choice([1, 2, 3])):
        ops = []
        for _ in range(r.choice([1, 1, 2, 3])):
            if mode == "live" and r.random() < 0.2:
                ops.append({"case": gen_case(r, size=(3, 8)), "tables": {}})
                continue
            c = gen_case(r, "pf", size=(3, 8), url=r.choice([1, 1, 2, 4]))
            c["opt"] = r.choice([None, "acl", "pf"])
            t = {}
            for s in c["st"]:
                if s["t"] == "alias" and s["type"] == "urltable":
                    t[s["n"]] = {"att": [attempt(r, mode) for _ in range(2)],
                                 "host": r.choice(["ok"] * 6 + HOST + SILENTHOST * (1 if mode == "content" else 3)) if mode != "x" else "ok"}
            ops.append({"case": c, "tables": t, "via": r.choice(["cls", "auto", "file"]), "twice": r.random() < 0.4})
        threads.append({"ops": ops})
    return {"threads": threads, "sched": gen_sched(r), "sched2": gen_sched(r), "env": gen_env(r)}


def pieces(b, n, delay):
    n = max(1, min(n, len(b)))
    k = -(-len(b) // n) or 1
    return [[delay, b[i:i + k].decode("latin-1")] for i in range(0, len(b), k)]


def reply(a, path, paths):
    """attempt -> (reply as the network plays it, lines delivered or None)"""
    body = (a["nl"].join(a["lines"]) + (a["nl"] if a["last"] else "")).encode("utf-8")
    if a["bom"]:
        body = b"\xef\xbb\xbf" + body
    k, d = a["k"], a["delay"]
    head = "HTTP/1.1 200 OK\r\nServer: x\r\nContent-Type: text/plain\r\n"
    cl = head + "Content-Length: %d\r\n\r\n" % len(body)
    cut = int(a["cut"] * len(body))
    ch = b"".join(b"%x\r\n%s\r\n" % (len(x[1]), x[1].encode("latin-1")) for x in pieces(body, a["pieces"], 0)) + b"0\r\n\r\n" if body else b"0\r\n\r\n"
    R = lambda chunks, end="fin": {"chunks": chunks, "end": end, "kind": k if k not in FULL or k == "redirect" else "slow" if d else None}
    if k == "length":
        return R([[d, cl]] + pieces(body, a["pieces"], d)), a["lines"]
    if k == "close":
        return R([[d, head + "Connection: close\r\n\r\n"]] + pieces(body, a["pieces"], d)), a["lines"]
    if k == "chunked":
        return R([[d, head + "Transfer-Encoding: chunked\r\n\r\n"]] + pieces(ch, a["pieces"], d)), a["lines"]
    if k in ("redirect", "loop", "fileredirect"):
        to = path
        for i in range(a["hops"]):
            to = "http://mirror.example.net%s.%d" % (path, i)
            p = "%s.%d" % (path, i)
            paths["mirror.example.net:80"]["paths"].setdefault(p, []).append(None)
            paths["mirror.example.net:80"]["paths"][p][-1] = R([[d, "HTTP/1.1 302 Found\r\nLocation: %s\r\nContent-Length: 0\r\n\r\n" % (
                "http://mirror.example.net%s.%d" % (path, i + 1))]]) if i < a["hops"] - 1 else R([[d, cl]] + pieces(body, a["pieces"], d))
        if k == "loop":
            to = "http://mirror.example.net%s.loop" % path
            paths["mirror.example.net:80"]["paths"][path + ".loop"] = [R([[d, "HTTP/1.1 301 Moved\r\nLocation: %s\r\nContent-Length: 0\r\n\r\n" % to]])]
        if k == "fileredirect":
            to = "file:///etc/hostname"
        first = "http://mirror.example.net%s.0" % path if k == "redirect" else to
        return R([[d, "HTTP/1.1 302 Found\r\nLocation: %s\r\nContent-Length: 0\r\n\r\n" % first]]), a["lines"] if k == "redirect" else None
    if k == "short":
        return (R([[d, cl]] + pieces(body[:cut], a["pieces"], d)), None) if cut < len(body) else (R([[d, cl]] + pieces(body, 1, d)), a["lines"])
    if k == "chunkshort":
        c = int(a["cut"] * (len(ch) - 5))
        return R([[d, head + "Transfer-Encoding: chunked\r\n\r\n"]] + pieces(ch[:c], a["pieces"], d)), None
    if k == "reset":
        return R([[d, head + "\r\n"]] + pieces(body[:cut], a["pieces"], d), "reset"), None
    if k == "resethead":
        return R([[d, cl[:int(a["cut"] * 20)]]], "reset"), None
    if k == "404":
        return R([[d, "HTTP/1.1 404 Not Found\r\nContent-Length: %d\r\n\r\n" % len(body)]] + pieces(body, 1, d)), None
    if k == "500":
        return R([[d, "HTTP/1.1 503 Busy\r\nContent-Length: %d\r\n\r\n" % len(body)]] + pieces(body, 1, d)), None
    if k == "badutf8":
        b = body[:cut] + b"\n\xff\xfe\n" + body[cut:]
        # never inside of a character, and never something that is one
        return R([[d, head + "Content-Length: %d\r\n\r\n" % len(b)]] + pieces(b, a["pieces"], d)), None
    if k == "garbage":
        return R([[d, "SSH-2.0-OpenSSH_9.2\r\n" + "x" * 10]]), None
    if k == "empty":
        return R([]), None
    if k == "silent":
        return R([], "silent"), None
    if k == "silenthead":
        return R([[d, cl[:int(a["cut"] * 30)]]], "silent"), None
    if k == "silentbody":
        return R([[d, cl]] + pieces(body[:cut], a["pieces"], d), "silent") if cut < len(body) else R([[d, head + "\r\n"]], "silent"), None
    if k == "latebody":
        return R([[d, cl]] + [[100000, "x"]], "silent") if body else R([[100000, "x"]]), None
    raise ValueError(k)


def delays(chunks):
    return sum(c[0] for c in chunks if c[0] < 1000)


def run(w, mode):
    spec = w.spec
    servers = {"mirror.example.net:80": {"paths": {}}, "shared.example.net:80": {"paths": {}}}
    plan = []       # per task, operation: list of [expected table content] per round, allowance
    for t, th in enumerate(spec["threads"]):
        plan.append([])
        for n, op in enumerate(th["ops"]):
            p = {"get": [{}, {}], "slow": [0, 0]}
            for s in op["case"]["st"]:
                if s["t"] != "alias" or s["type"] != "urltable":
                    continue
                tb = op["tables"][s["n"]]
                path = "/t%d/%d/%s.txt" % (t, n, s["n"])
                host = "shared.example.net" if tb["host"] == "ok" else "t%d-%d-%s.example.net" % (t, n, s["n"].replace("_", "-").lower())
                s["v"] = "http://%s%s" % (host, path)
                sv = servers.setdefault(host + ":80", {"paths": {}})
                sv.update({"refuse": {"conn": "refuse"}, "unreach": {"conn": "unreach"}, "partition": {"conn": "silent"}, "dns": {"dns": "fail"}}.get(tb["host"], {}))
                before = {k: len(v) for k, v in servers["mirror.example.net:80"]["paths"].items()}
                rs = []
                for k in range(2 if op["twice"] else 1):
                    r, got = reply(tb["att"][k], "%s.%d" % (path, k), servers)
                    rs.append(r)
                    p["get"][k][s["n"]] = got if tb["host"] == "ok" else None
                    # every reply along the way
                    p["slow"][k] += 120 + delays(r["chunks"]) + sum(delays(y["chunks"]) for x, v in servers["mirror.example.net:80"]["paths"].items()
                                                                     if x.startswith(path + ".%d." % k) for y in v) * (12 if tb["att"][k]["k"] == "loop" else 1)
                sv["paths"][path] = rs
            plan[t].append(p)
    net.reset(servers)

    def one(t, n, op, k):
        e = w.expected(op["case"], fetch=plan[t][n]["get"][k]) if op["case"]["fmt"] == "pf" else w.expected(op["case"])
        t0 = core.clock.mono
        now = core.clock.now
        try:
            cfg = w.load(op["case"], op.get("via", "cls"))
        except Exception as x:
            w.expect(False, "load-failed", lambda: "a configuration failed to load because of its url tables: %r" % x)
            return
        took = core.clock.mono - t0
        if op["case"]["fmt"] == "pf":
            # rules without a date are as old as their load, wherever in it the clock was read
            e = w.expected(op["case"], fetch=plan[t][n]["get"][k], now=int(now))
        g = w.snap(cfg)
        if mode == "content":
            for m in sorted(op["tables"]):
                if m not in e["groups"]["network"]:
                    continue
                a, b = e["groups"]["network"][m]["items"], g["groups"]["network"].get(m, {}).get("items")
                w.expect(a == b, "table-wrong", lambda: "%s (%s, %s): %d of %d entries, first difference %s" % (
                    m, op["tables"][m]["host"], op["tables"][m]["att"][k]["k"], len(b or []), len(a), next((x for x in zip(a, b or []) if x[0] != x[1]), None)))
            for x in (e, g):
                for ru in x["rules"]:
                    ru["remark"] = ru["remark"][:1]
            w.expect(e == g, "load-differs", lambda: observe.diff(e, g))
        else:
            w.expect(took <= plan[t][n]["slow"][k], "took-too-long", lambda: "%.0f s of waiting, at most %.0f s are due to the tables %s" % (
                took, plan[t][n]["slow"][k], {m: [x["host"], x["att"][k]["k"]] for m, x in op["tables"].items()}))
            w.expect(len(g["rules"]) == len(e["rules"]), "rules-lost", lambda: "%d of %d rules" % (len(g["rules"]), len(e["rules"])))
        w.note(k, sorted((m, len(v["items"])) for m, v in g["groups"]["network"].items()))

    done = {}

    def task(t, th):
        def f():
            for n, op in enumerate(th["ops"]):
                one(t, n, op, 0)
                if op.get("twice") and op["tables"]:
                    one(t, n, op, 1)
            done[t] = core.clock.mono
        return f
    t0 = core.clock.mono
    tasks, s = w.sim([task(t, th) for t, th in enumerate(spec["threads"])], allow=True)
    for t in tasks:
        if t.exc is not None or s.stop:
            w.expect(False, "waits-forever", lambda: "task %d: %s" % (t.n, s.stop or repr(t.exc)))
    w.expect(net.net.open <= 0, "connection-left-open", lambda: "%d connections" % net.net.open)
    if s.stop:
        return
    for t, th in enumerate(spec["threads"]):
        if not any(op["tables"] for op in th["ops"]):
            w.expect(done.get(t) == t0, "waits-for-others", lambda: "task %d has no url tables and took %s s" % (t, done.get(t, t0) - t0))
    # faults stop: the next load is complete at once
    heal = {"shared.example.net:80": {"paths": {}}}
    for t, th in enumerate(spec["threads"]):
        for n, op in enumerate(th["ops"]):
            for s in op["case"]["st"]:
                if s["t"] == "alias" and s["type"] == "urltable":
                    host, path = s["v"][7:].split("/", 1)
                    a = dict(op["tables"][s["n"]]["att"][0], k="length", delay=0)
                    r, got = reply(a, "/" + path, {})
                    heal.setdefault(host + ":80", {"paths": {}})["paths"]["/" + path] = [r]
                    plan[t][n]["get"][0][s["n"]] = got
                    plan[t][n]["slow"][0] = 1
    net.reset(heal)
    mode2 = mode
    tasks, s = w.sim([lambda t=t, th=th: [one(t, n, op, 0) for n, op in enumerate(th["ops"])] for t, th in enumerate(spec["threads"])], name="sched2")
    if mode == "live":
        for t, th in enumerate(spec["threads"]):
            for n, op in enumerate(th["ops"]):
                if op["tables"]:
                    e = w.expected(op["case"], fetch=plan[t][n]["get"][0])
                    cfg, x = w.solo(lambda: w.load(op["case"], "cls"))
                    g = w.snap(cfg) if x is None else {"groups": {"network": repr(x)}}
                    w.expect(g["groups"]["network"] == e["groups"]["network"], "not-healed", lambda: observe.diff(e, g))
