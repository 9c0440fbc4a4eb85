"""C19: every page of the web service shows exactly what its request selects, whatever else is being served."""
import io
import logging
import shelve

from sim import core, model_caf, observe, web
from sim.world import MODEL, cafBlock, gen_case, gen_env, gen_sched

BAD = ["ip src", "((", "id", "ip src 300.1.1.1", "<script>alert(1)</script>", "ip frc any"]


def gen(r, tier):
    cases, snaps = [], []
    for _ in range(r.choice([1, 2, 2, 3])):
        c = gen_case(r, size=(3, 12))
        cases.append(c)
        snaps.append(MODEL[c["fmt"]].expected(c["st"]))
    users = []
    for _ in range(r.choice([1, 2, 3, 4])):
        ops = []
        for _ in range(r.choice([1, 2, 3])):
            n = r.randrange(len(cases))
            k = r.choice(["show", "show", "show", "show", "show", "index", "badcaf", "unknown", "badup", "again", "badmethod"])
            op = {"op": k, "c": n, "sns": r.random() < 0.3, "exp": r.random() < 0.35, "style": r.randrange(252)}
            if k == "show" and r.random() < 0.8:
                op["expr"] = model_caf.gen(r, snaps[n])
            if k == "badcaf":
                op["caf"] = r.choice(BAD)
            ops.append(op)
        users.append({"ops": ops})
    return {"cases": cases, "threads": users, "sched": gen_sched(r), "env": gen_env(r)}


def run(w):
    logging.disable(logging.CRITICAL)
    spec = w.spec
    if not spec["cases"]:
        return
    es = [w.expected(c) for c in spec["cases"]]
    names = ["%s.%s" % (e["hostname"], e["domainname"]) for e in es]
    for i in range(len(es)):
        if names[i] in names[:i]:
            # the later one replaces it; one of each name is enough
            return
    store = web.Store()
    app = web.serve(store)

    def upload(n):
        return app.test_client().post("/add", data={"file": (io.BytesIO(w.text(spec["cases"][n]).encode()), "x.conf")})

    def show(op, name, caf):
        q = {"config": name}
        if caf is not None:
            q["caf"] = caf
        if op["sns"]:
            q["sns"] = "1"
        if op["exp"]:
            q["exp"] = "1"
        return app.test_client().get("/show", query_string=q)

    def first():
        for n in range(len(es)):
            a = upload(n)
            w.expect(a.status_code == 302 and "config=" in a.headers["Location"], "upload", lambda: "%s: %s %s" % (names[n], a.status_code, a.headers.get("Location")))
    w.solo(first)
    w.expect(sorted(k.decode() for k in dict.keys(store)) == sorted(names), "stored", lambda: "%s, expected %s" % (list(dict.keys(store)), names))
    if w.viols:
        return
    blobs = dict(store)
    served = []

    def judge(a, op, n, caf, where=""):
        e, expr = es[n], op.get("expr")
        if not w.expect(a.status_code == 200, "status", lambda: "%s: status %s" % (where, a.status_code)):
            return
        text = a.data.decode("utf-8")
        if op["exp"]:
            e = model_caf.expand(e)
        why = look(op, e, caf, where, text)
        if why is not None:
            # texts as markup are one defect, anything else is another
            why2 = look(op, e, caf, where, web.escaped(text, e, caf, complaint(caf)))
            if why2 is None:
                why = ("text-as-markup", "%s (%s)" % (why[1], why[0]))
            else:
                why = why2
        if w.expect(why is None, why and why[0], lambda: why[1]) and "expr" in op:
            sel = model_caf.run(op["expr"], e)
            w.note(len(sel[0]), len(sel[1]))

    def complaint(caf):
        try:
            cafBlock.fromString(caf)
        except Exception as x:
            return str(x)

    def look(op, e, caf, where, text):
        """-> (what, message) of what is wrong with the page"""
        expr = op.get("expr")
        p = web.Page(text)
        if op["op"] == "badcaf":
            if p.warning is None or p.warning.strip() == "":
                return "no-warning", "%r gives no warning" % caf
            expr = None
        elif p.warning is not None:
            return "warning", "%s: warning %r" % (where, p.warning)
        sel = model_caf.run(expr, e) if expr else None
        d = web.compare(p, e, sel, op["sns"])
        if d is not None:
            return "page-wrong", "%s: %s" % (where, d)
        if (p.caf_text or "").strip() != (caf or "").strip():
            return "filter-not-shown", "%r, asked for %r" % (p.caf_text, caf)
        bad = [t for t in ("script", "dept", "lab", "x", "b", "i") if t in p.tags] + [t for t in p.tags if t.startswith("@")]
        if bad:
            return "elements", "%s: elements %s from texts" % (where, bad)
        if sel is None:
            if "no selection" not in text:
                return "selection", "%s: shows a selection" % where
        elif "items" not in text or "no selection" in text:
            return "selection", "%s: shows no selection" % where

    def one(op):
        n, k = op["c"], op["op"]
        if k in ("show", "badcaf"):
            caf = op["caf"] if k == "badcaf" else model_caf.render(op["expr"], op["style"]) if "expr" in op else None
            a = show(op, names[n], caf)
            judge(a, op, n, caf, "%s, filter %r%s%s" % (names[n], caf, ", all" if op["sns"] else "", ", expanded" if op["exp"] else ""))
            served.append((op, names[n], caf, a.status_code, a.data))
        elif k == "index":
            a = app.test_client().get("/")
            p = web.Page(a.data.decode())
            w.expect(a.status_code == 200 and sorted(p.options) == sorted(names), "index", lambda: "%s lists %s, expected %s" % (a.status_code, p.options, names))
        elif k == "unknown":
            a = show(op, names[n] + ".x", None)
            w.expect(a.status_code == 404, "unknown", lambda: "an unknown configuration gives %s" % a.status_code)
        elif k == "badmethod":
            a = app.test_client().get("/add")
            w.expect(a.status_code == 405, "method", lambda: "GET /add gives %s" % a.status_code)
        elif k == "badup":
            a = app.test_client().post("/add", data={"file": (io.BytesIO(b"\x7fELF nothing\n" * 3), "x")})
            w.expect(a.status_code == 302 and a.headers["Location"] == "/" or a.status_code >= 400, "bad-upload", lambda: "%s %s" % (a.status_code, a.headers.get("Location")))
        elif k == "again":
            a = upload(n)
            w.expect(a.status_code == 302, "upload", lambda: "%s" % a.status_code)
        w.stats["request " + k] += 1

    w.sim([lambda u=u: [one(op) for op in u["ops"]] for u in spec["threads"]])
    # looking does not change what is stored
    again = {op["c"] for u in spec["threads"] for op in u["ops"] if op["op"] == "again"}
    w.expect(set(store) == set(blobs), "store-changed", lambda: "%s, was %s" % (sorted(store), sorted(blobs)))
    db = shelve.Shelf(store)
    for n, name in enumerate(names):
        if name.encode() in store:
            g = w.snap(db[name])
            w.expect(g == es[n], "store-changed", lambda: "%s: %s" % (name, observe.diff(es[n], g)))
    # a request alone gets the same page
    for op, name, caf, st, data in served[:6]:
        a, x = w.solo(lambda: show(op, name, caf))
        if op["c"] in again:
            continue
        w.expect(x is None and a.status_code == st and a.data == data, "depends-on-others",
                 lambda: "%s, filter %r: %s" % (name, caf, x or "%d bytes alone, %d among others" % (len(a.data), len(data))))
