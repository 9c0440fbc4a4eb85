"""C01-C03: concurrent loads are isolated and exact."""
from sim import vandal
from sim.world import gen_case, gen_env, gen_sched, gen_via


def gen(r, tier, fmt):
    n = r.choice([1, 2, 2, 3, 3, 4])
    kw = dict(v6=r.random() < 0.8)
    if fmt != "pf" and r.random() < 0.35:
        # the same kind of statement in all of them
        kw["focus"] = r.random()
    threads = []
    for t in range(n):
        ops = []
        for _ in range(r.choice([1, 1, 2])):
            f = fmt if t == 0 or r.random() < (0.6 if "focus" not in kw else 0.9) else None
            c = gen_case(r, f, size=(3, r.choice([8, 16, 24])), neg=0.12, **kw)
            if c["fmt"] == "pf":
                c["opt"] = r.choice([None, "acl", "pf", "off"])
            else:
                c["opt"] = r.choice([None, None, "acl"])
            ops.append({"case": c, "via": gen_via(r)})
            if r.random() < 0.15:
                # the same text again: nothing may stick to it
                ops.append({"case": c, "via": gen_via(r)})
        threads.append({"ops": ops})
    return {"threads": threads, "spoil": r.randrange(8), "sched": gen_sched(r), "env": gen_env(r)}


def run(w):
    kept = []

    def task(t):
        def f():
            for op in t["ops"]:
                e = w.expected(op["case"])
                cfg = w.load_checked(op["case"], op["via"], exp=e)
                if cfg is not None:
                    kept.append((cfg, e, op))
        return f
    w.sim([task(t) for t in w.spec["threads"]])
    # what was loaded first is still what it was
    for cfg, e, op in kept:
        w.check_cfg(cfg, e, "changed-later", "after all loads")
    if kept:
        # each is the caller's own: spoiling one changes no other and no later load
        k = w.spec.get("spoil", 0) % len(kept)
        w.stats["spoiled"] += vandal.vandal(kept[k][0])
        for n, (cfg, e, op) in enumerate(kept):
            if n != k:
                w.check_cfg(cfg, e, "loads-share", "after another one was spoiled")
        w.load_checked(kept[k][2]["case"], kept[k][2]["via"], what="load-after-spoil", exp=kept[k][1])
    w.expect(w.out.getvalue() == "", "stdout", lambda: "loading wrote to stdout: %r" % w.out.getvalue()[:200])
    w.note(len(kept))
