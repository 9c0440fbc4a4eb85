"""C21: a tool that reports success has written everything it was asked for, and exactly that; under faults of files, code and terminal."""
import errno
import os
import runpy
import sys

from sim import core, fs as F, model_caf, observe, web
from sim.world import MODEL, ACLConfig, Out, cafBlock, gen_case, gen_env

EX = "/repo/examples/"
web.warm_static()
ERR = ["EIO", "ENOSPC", "EACCES", "EMFILE", "ESTALE"]
BAD = ["ip src", "((", "id", "ip src 300.1.1.1", "ip frc any"]


def rename(x, m):
    if isinstance(x, str):
        return m.get(x, x)
    if isinstance(x, list):
        return [rename(y, m) for y in x]
    if isinstance(x, dict):
        return {k: rename(v, m) for k, v in x.items()}
    return x


def gen(r, tier):
    ops = []
    for n in range(r.choice([1, 2, 3])):
        tool = r.choice(["acl-filter", "caf-filter", "caf-filter", "caf-filter", "static", "static", "static"])
        fmt = r.choice(["asa", "asa", "asa", "ios"]) if tool == "acl-filter" else None
        c = gen_case(r, fmt, size=(4, 16), neg=0.03)
        e = MODEL[c["fmt"]].expected(c["st"])
        if tool == "acl-filter" and e and fmt == "asa":
            ids = sorted({x["id"] for x in e["rules"] if x["id"]} - {"inside_in", "outside_in"})
            r.shuffle(ids)
            # the tool asks for these two
            c["st"] = rename(c["st"], dict(zip(ids, ["inside_in", "outside_in"])))
            e = MODEL[c["fmt"]].expected(c["st"])
        op = {"tool": tool, "case": c, "faults": [], "n": n}
        if tool != "acl-filter" and (tool == "caf-filter" or r.random() < 0.75):
            op["expr"] = model_caf.gen(r, e) if e else [{"id": None, "ip": [["src", ["any"]]]}]
            op["style"] = r.randrange(252)
            if r.random() < 0.12:
                op["bad"] = r.choice(BAD)
            op["bom"] = r.random() < 0.1
        if tool == "static":
            op["sns"], op["exp"], op["sort"] = r.random() < 0.3, r.random() < 0.3, r.random() < 0.3
            op["out"] = r.choice(["page.html", "page.html", "render.html", "d/page.html"])
        if r.random() < 0.1:
            op["missing"] = r.choice(["c", "caf"])
        for _ in range(r.choice([0, 0, 1, 1, 2])):
            k = r.choice(["read", "open", "short", "code", "stdout", "write", "write", "close", "swap", "swapcaf"])
            c_, caf, out = "c%d.conf" % n, "f%d.caf" % n, op.get("out", "page.html")
            if k == "read":
                op["faults"].append([r.choice([c_, caf]), "read", r.randrange(1, 6), r.choice(ERR[:2])])
            elif k == "open":
                op["faults"].append([r.choice([c_, caf, out]), "open", r.choice([1, 1, 2]), r.choice(ERR)])
            elif k == "short":
                op["faults"].append([r.choice([c_, caf]), "read", 0, "short"])
                op["faults"].append([out, "write", 0, "short"])
            elif k == "write":
                op["faults"].append([out, "write", r.choice([1, 1, 2, 3, 9]), r.choice(["ENOSPC", "EIO"])])
            elif k == "close":
                op["faults"].append([out, "close", 1, r.choice(["EIO", "ENOSPC"])])
            elif k == "swap":
                op["other"] = gen_case(r, c["fmt"], size=(3, 10))
                op["faults"].append([c_, r.choice(["open", "read"]), r.choice([1, 1, 2]), ["swap", "other%d" % n]])
            elif k == "swapcaf" and "expr" in op:
                op["expr2"] = model_caf.gen(r, e) if e else op["expr"]
                op["faults"].append([caf, r.choice(["open", "open", "read"]), r.choice([1, 2]), ["swap", "caf%d" % n]])
            elif k == "code":
                op["code"] = [r.random(), r.choice(["MemoryError", "KeyboardInterrupt", "RecursionError"])]
                op["how"] = [r.choice(["step", "step", "line", "try"]), r.random()]
            elif k == "stdout":
                op["stdout"] = [r.choice([1, 2, 3, 5, 12]), r.choice(["EPIPE", "ENOSPC", "EIO"])]
        ops.append(op)
    return {"ops": ops, "env": gen_env(r)}


class Terminal(Out):
    """stdout that may stop taking data"""

    def __init__(self, fault):
        super().__init__()
        self.fault, self.n, self.failed = fault, 0, False

    def write(self, s):
        self.n += 1
        if self.fault and self.n >= self.fault[0]:
            self.failed = True
            raise OSError(getattr(errno, self.fault[1]), os.strerror(getattr(errno, self.fault[1])))
        return super().write(s)


def run(w):
    d = F.scratch()
    os.chdir(d)
    os.mkdir("d")
    os.symlink(EX + "render/tpl", "tpl")
    for op in w.spec["ops"]:
        one(w, op)
    w.note([[op["tool"], len(op["faults"])] for op in w.spec["ops"]])


def one(w, op):
    n, tool, case = op["n"], op["tool"], op["case"]
    c, caf = "c%d.conf" % n, "f%d.caf" % n
    F.put(c, w.text(case))
    text = None
    if "expr" in op:
        text = op.get("bad") or model_caf.render(op["expr"], op["style"])
        F.put(caf, (b"\xef\xbb\xbf" if op["bom"] else b"") + text.encode())
    if op.get("missing"):
        p = c if op["missing"] == "c" else caf
        if os.path.exists(p):
            os.unlink(p)
    if "other" in op:
        F.put("other%d" % n, w.text(op["other"]))
    if "expr2" in op:
        F.put("caf%d" % n, model_caf.render(op["expr2"]))
    if tool == "acl-filter":
        script, args = "acl-filter.py", [c]
    elif tool == "caf-filter":
        script, args = "caf-filter.py", [caf, c]
    else:
        script, args = "render/static.py", [c]
        if op["out"] != "render.html":
            args += ["-o", op["out"]]
        for k, o in (("sns", "--show-not-selected"), ("exp", "--expand"), ("sort", "--sort")):
            if op[k]:
                args.append(o)
        if text is not None:
            args += ["--caf", caf]

    def tool_run():
        argv, sys.argv = sys.argv, [EX + script] + args
        old, sys.stdout = sys.stdout, Terminal(op.get("stdout") if not probing else None)
        box["out"] = sys.stdout
        try:
            runpy.run_path(EX + script, run_name="__main__")
        except SystemExit as e:
            if e.code not in (None, 0):
                raise RuntimeError("exit status %r" % (e.code,))
        finally:
            sys.argv, sys.stdout = argv, old

    box = {}
    probing = False
    if "code" in op:
        probing = True
        steps, _, _ = w.steps(tool_run)
        probing = False
    F.fs.count = {}
    F.fs.faults = [list(f) for f in op["faults"] if not (op.get("missing") and isinstance(f[3], list))]
    e0 = len(F.fs.errors)
    if "code" in op:
        _, exc, fired = w.armed(tool_run, steps, op["code"][0], op["code"][1], op["how"])
    else:
        _, exc = w.solo(tool_run)
        fired = False
    F.fs.faults = []
    hit = F.fs.errors[e0:]
    out = box["out"].getvalue()
    if box["out"].failed:
        w.faults["stdout " + op["stdout"][1]] += 1
    where = "%s %s" % (tool, " ".join(args))
    w.stats["tool " + ("failed" if exc is not None else "succeeded")] += 1
    bad = bool(hit) or box["out"].failed
    cases = [case] + ([op["other"]] if "other" in op else [])
    es = [w.expected(x) for x in cases]
    exprs = [op.get("expr")] + ([op["expr2"]] if "expr2" in op else [])
    texts = [text] + ([model_caf.render(op["expr2"])] if "expr2" in op else [])
    if exc is not None:
        # a tool may fail when there is a reason
        if tool == "acl-filter" and isinstance(exc, AssertionError) and site(exc):
            w.viol("acl-filter-rule-arguments", "%s: %r" % (where, exc))
            return
        reason = bad or fired or op.get("bad") or op.get("missing") or None in es
        w.expect(reason, "failed", lambda: "%s: %r" % (where, exc))
        return
    w.expect(not bad, "error-lost", lambda: "%s reports success although %s" % (where, hit or "writing to stdout failed"))
    if op.get("missing") == "c" or op.get("missing") == "caf" and text is not None:
        w.expect(False, "missing-input", "%s reports success without its input" % where)
        return
    if op.get("bad") and "expr2" not in op:
        w.expect(False, "bad-filter", "%s reports success with the filter %r" % (where, text))
        return
    if bad:
        return
    # what would have been right: for one of the versions of each input
    why = []
    for k, e in enumerate(es):
        for m, x in enumerate(exprs):
            if e is None or m == 0 and op.get("bad"):
                continue
            f = {"acl-filter": acl_filter, "caf-filter": caf_filter, "static": static}[tool](w, op, cases[k], e, x, texts[m], out)
            if f is None:
                w.ok()
                return
            why.append(f)
    if tool == "static":
        t = F.get(op["out"]).decode("utf-8", "replace")
        for k, e in enumerate(es):
            for m, x in enumerate(exprs):
                if e is None or m == 0 and op.get("bad"):
                    continue
                page = web.escaped(t, e, model_caf.expand(e), texts)
                if static(w, op, cases[k], e, x, texts[m], out, page) is None:
                    w.viol("text-as-markup", "%s: %s" % (where, why[0]))
                    return
                if len(texts) == 2 and static(w, op, cases[k], e, x, texts[1 - m], out, page) is None:
                    w.viol("static-reads-filter-twice", "%s: %s" % (where, why[0]))
                    return
    if not why:
        w.expect(False, "invalid-input", "%s reports success with an invalid configuration" % where)
    else:
        w.expect(False, "output-wrong", "%s: %s" % (where, why[0]))


def site(exc):
    """whether the tool itself made a rule of arguments there are none of"""
    tb, last = exc.__traceback__, None
    while tb:
        if tb.tb_frame.f_code.co_filename.endswith("acl-filter.py"):
            last = tb.tb_lineno
        tb = tb.tb_next
    if last is None:
        return False
    with open(EX + "acl-filter.py") as f:
        return "source=" in f.read().split("\n")[last - 1]


def first(want, got):
    for i in range(max(len(want), len(got))):
        a, b = want[i:i + 1], got[i:i + 1]
        if a != b:
            return "line %d is %r, expected %r" % (i, "".join(b)[:200], "".join(a)[:200])


def lines(cfg, sel):
    # a rule's text may have several lines
    return [l for i in sorted(sel) for l in repr(cfg.rules.rules[i]).split("\n")]


def acl_filter(w, op, case, e, expr, text, out):
    cfg = w.load(case, "auto")
    anyany = {i for i, x in enumerate(e["rules"]) if x["src"][0] in ("any", "url") and x["dst"][0] in ("any", "url")}

    def ask(net):
        return (model_caf.run([{"id": "inside_in", "ip": [["dst", [net]]]}], e)[0]
                | model_caf.run([{"id": "outside_in", "ip": [["src", [net]]]}], e)[0])
    base = ask("10.2.0.0/24")
    rules = ask("10.1.0.0/24")
    u = anyany | base
    remain = rules - u
    w.note(len(anyany), len(base), len(remain))
    want = ["anyany %d" % len(anyany), "base %d" % len(base), "union %d" % len(u), "rules %d" % len(rules), "remain %d" % len(remain)]
    return first(want + lines(cfg, remain) + [""], out.split("\n"))


def caf_filter(w, op, case, e, expr, text, out):
    cfg = w.load(case, "auto")
    sel = model_caf.run(expr, e)[0]
    want = repr(cafBlock.fromString(text)).split("\n") + [str(len(sel))]
    w.note(len(sel))
    # in any order
    n = len(want)
    got = out.split("\n")
    return first(want + sorted(lines(cfg, sel) + [""]), got[:n] + sorted(got[n:]))


def static(w, op, case, e, expr, text, out, page=None):
    b = F.get(op["out"])
    if b is None:
        return "no page was written"
    try:
        t = b.decode("utf-8")
    except UnicodeDecodeError as x:
        return "%r" % x
    if page is not None:
        t = page
    if not t.rstrip().endswith("</html>") or t.count("</html>") != 1:
        return "the page ends with %r" % t[-60:]
    if op["exp"]:
        e = model_caf.expand(e)
    if op["sort"]:
        # their order, taken from the library; what the groups hold, from the model
        cfg = w.load(case, "auto")
        if op["exp"]:
            cfg.expand()
        for k in ("network", "service", "port", "protocol"):
            for g in getattr(cfg.groups, k).values():
                g.sort()
        g = w.snap(cfg)
        for k in e["groups"]:
            for name, x in e["groups"][k].items():
                y = g["groups"][k].get(name, {}).get("items", [])
                if sorted(map(repr, x["items"])) != sorted(map(repr, y)):
                    return "sorting %s gives %s, expected %s" % (name, y, x["items"])
                x["items"] = y
    sel = model_caf.run(expr, e) if expr else None
    p = web.Page(t)
    if sel is not None:
        w.note(len(sel[0]), len(sel[1]))
    r = web.compare(p, e, sel, op["sns"])
    if r:
        return r
    bad = [x for x in ("script", "dept", "lab", "x", "b", "i") if x in p.tags] + [x for x in p.tags if x.startswith("@")]
    if bad:
        return "elements %s from texts" % bad
    if web.norm(p.pre_text).lstrip("\ufeff") != web.norm(text or ""):
        return "it shows the filter %r, not %r" % (p.pre_text, text)
