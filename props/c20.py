"""C20: an upload is stored whole or not at all, and once acknowledged it survives a crash."""
import io
import logging
import shelve

import werkzeug.test
import werkzeug.wrappers

from sim import core, observe, web
from sim.world import MODEL, gen_case, gen_env, gen_sched


def gen(r, tier):
    cases = []
    for _ in range(r.choice([2, 3, 4])):
        c = gen_case(r, size=(3, 10))
        # several versions of few configurations
        for s in c["st"]:
            if s["t"] == "sys":
                s["hostname"], s["domain"] = "fw", "example.org"
        cases.append(c)
    lives = []
    for _ in range(r.choice([1, 2, 3])):
        threads = []
        for _ in range(r.choice([1, 1, 2, 3])):
            ops = []
            for _ in range(r.choice([1, 2])):
                op = {"op": r.choice(["up", "up", "up", "cut", "show", "invalid"]), "c": r.randrange(len(cases)), "piece": r.choice([1 << 20, 4096, 100])}
                if op["op"] == "cut":
                    op["frac"] = r.random()
                if r.random() < 0.25:
                    op["fault"] = [r.choice(["MemoryError", "RecursionError"]), r.random()]
                ops.append(op)
            threads.append({"ops": ops})
        life = {"threads": threads, "faults": []}
        x = r.random()
        if x < 0.35:
            life["crash"] = r.random()
        elif x < 0.7:
            life["faults"].append(["set", r.choice([1, 1, 2, 3]), r.choice(["OSError", "EIO", "MemoryError", "Crash"])])
        elif x < 0.8:
            life["faults"].append(["get", r.choice([1, 2]), "EIO"])
        lives.append(life)
    return {"cases": cases, "lives": lives, "sched": gen_sched(r), "env": gen_env(r)}


def run(w):
    logging.disable(logging.CRITICAL)
    spec = w.spec
    if not spec["cases"]:
        return
    es = [w.expected(c) for c in spec["cases"]]
    names = ["%s.%s" % (e["hostname"], e["domainname"]) for e in es]
    store = web.Store()
    maybe = {}      # name -> versions that may be stored
    must = {}       # name -> a version has to be there
    mark = [0]

    def post(app, op, data):
        body = web.multipart("x.conf", data)
        n = len(body)
        end = None
        if op["op"] == "cut":
            end = int((n - 1) * op["frac"])
        raw = web.Pieces(body, op["piece"], end)
        env = werkzeug.test.EnvironBuilder(path="/add", method="POST").get_environ()
        env["wsgi.input"] = io.BufferedReader(raw, 4096)
        env["CONTENT_TYPE"] = "multipart/form-data; boundary=SIMBOUNDARY"
        env["CONTENT_LENGTH"] = str(n)
        it, status, headers = werkzeug.test.run_wsgi_app(app, env, buffered=True)
        return werkzeug.wrappers.Response(it, status, headers)

    # how long one upload takes
    scratch = web.Store()
    app = web.serve(scratch)
    op0 = {"op": "up", "c": 0, "piece": 1 << 20}
    n0, _, x = w.steps(lambda: post(app, op0, w.text(spec["cases"][0]).encode()))
    if not w.expect(x is None and len(scratch) == 1, "upload", lambda: "%r" % x):
        return

    def one(app, op, life, acked):
        n, k = op["c"], op["op"]
        name, e = names[n], es[n]
        if store.dead:
            return
        if "fault" in op:
            core.sim.arm(max(1, int(n0 * op["fault"][1])), op["fault"][0])
        try:
            if k in ("up", "cut"):
                maybe.setdefault(name, [])
                if k == "up":
                    started.setdefault(name, []).append(n)
                    maybe[name].append(n)
                a = post(app, op, w.text(spec["cases"][n]).encode())
                if k == "cut":
                    w.expect(a.status_code != 302 or a.headers["Location"] == "/", "cut-acknowledged", lambda: "an upload cut at %.3f was acknowledged" % op["frac"])
                elif a.status_code == 302 and "config=" in a.headers["Location"] and not store.dead:
                    acked.append(n)
                    must[name] = True
                else:
                    w.expect(op.get("fault") or life["faults"] or life.get("crash") is not None, "refused", lambda: "a valid upload was answered with %s" % a.status_code)
            elif k == "invalid":
                a = post(app, op, b"PK\x03\x04 nothing known")
                w.expect(a.status_code != 302 or a.headers["Location"] == "/", "invalid-acknowledged", lambda: a.headers["Location"])
            else:
                had = name.encode() in store
                a = app.test_client().get("/show", query_string={"config": name})
                w.expect(a.status_code in ((200,) if had else (200, 404)) or op.get("fault") or life["faults"], "unshowable", lambda: "%s: %s" % (name, a.status_code))
        finally:
            core.sim.disarm()
        mark.append(a.status_code)

    for i, life in enumerate(spec["lives"]):
        app = web.serve(store, again=i > 0)
        store.dead = False
        store.count = {}
        store.fault = {f[0]: [f[1], f[2]] for f in life["faults"]}
        core.crashed[:] = [store.die]
        before = dict(store)
        acked, started = [], {}

        def task(t, first):
            def f():
                try:
                    if first and life.get("crash") is not None:
                        core.sim.arm(max(1, int(n0 * len(t["ops"]) * life["crash"] * 1.1)), "Crash")
                    for op in t["ops"]:
                        one(app, op, life, acked)
                except core.Crash:
                    store.dead = True
            return f
        order = [dict(life, threads=life["threads"])]
        if life.get("crash") is not None:
            for t in life["threads"]:
                for op in t["ops"]:
                    op.pop("fault", None)
        tasks, s = w.sim([task(t, k == 0) for k, t in enumerate(life["threads"])], allow=True)
        for t in tasks:
            if t.exc is not None and not isinstance(t.exc, core.Crash):
                w.viol("exception", "task %d: %r" % (t.n, t.exc))
        if s.stop and not store.dead:
            w.viol("stuck", s.stop)
        # what survives
        store.dead = False
        store.fault = {}
        app = web.serve(store, again=True)
        w.faults["restart"] += 1
        db = shelve.Shelf(store)
        for name in sorted(set(names) | {k.decode(errors="replace") for k in dict.keys(store)}):
            key = name.encode()
            if key not in store:
                w.expect(not must.get(name), "lost", lambda: "%s was acknowledged and is not there" % name)
                continue
            if not w.expect(name in maybe, "made-up", lambda: "a configuration %s is stored that nobody uploaded" % name):
                continue
            cands = set(started.get(name, []))
            if before.get(key) is not None:
                cands |= {x for x in last.get(name, set())}
            acks = [n for n in acked if names[n] == name]
            try:
                g = w.snap(db[name])
            except Exception as x:
                w.expect(False, "damaged", lambda: "%s after the restart: %r" % (name, x))
                continue
            if acks and len(life["threads"]) == 1:
                # the last acknowledged one, or what was still under way after it
                k = len(started[name]) - 1 - started[name][::-1].index(acks[-1])
                cands = set(started[name][k:])
            elif acks:
                cands = set(started[name])
            ok = {n for n in cands if es[n] == g}
            w.expect(ok, "torn", lambda: "%s after the restart is none of the versions uploaded: %s" % (name, "; ".join(observe.diff(es[n], g) for n in sorted(cands))[:600] or "none is possible"))
            last[name] = ok
            a = app.test_client().get("/show", query_string={"config": name})
            w.expect(a.status_code == 200, "unshowable", lambda: "%s after the restart: %s" % (name, a.status_code))
        w.note(len(acked), sorted(store))
    # and it still works
    a, x = w.solo(lambda: post(app, op0, w.text(spec["cases"][0]).encode()))
    w.expect(x is None and a.status_code == 302, "not-recovered", lambda: "an upload after all faults: %s" % (x or a.status_code))
    for k, v in store.kinds.items():
        w.faults[k] += v
    w.note(mark)


last = {}
