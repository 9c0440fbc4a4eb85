"""C04: rejected, failed and interrupted loads leave no trace."""
import io

from sim import core
from sim.world import cafBlock, gen_case, gen_env, gen_sched, gen_via

EXC = ["KeyboardInterrupt", "SystemExit", "MemoryError", "RecursionError", "GeneratorExit"]


def gen_bad(r, **kw):
    k = r.choice(["reject", "cut", "interrupt", "interrupt", "io", "caf", "garbage"])
    c = gen_case(r, size=(3, 12), neg=1.0 if k == "reject" else 0.0, **kw)
    op = {"k": k, "case": c, "via": gen_via(r), "frac": r.random(), "how": [r.choice(["step", "step", "line", "try"]), r.random()], "exc": r.choice(EXC)}
    if k == "garbage":
        op["text"] = r.choice(["", "\x00", "<pfsense>", "<pfsense/>", "access-list", "!\n" * 9 + "x y z\n", "object-group network X\n"])
    return op


def gen(r, tier):
    threads = []
    shared = gen_case(r, size=(3, 10))
    kw = {}
    if r.random() < 0.3:
        # all of one format, and the same kind of statement in all of them
        kw = {"fmt": r.choice(["asa", "ios"]), "focus": r.random()}
    for _ in range(r.choice([1, 1, 2])):
        ops = []
        for _ in range(r.randrange(2, 5)):
            for _ in range(r.choice([0, 1, 1, 2])):
                ops.append(gen_bad(r, **kw))
            c = shared if r.random() < 0.4 else gen_case(r, size=(3, 12), **kw)
            ops.append({"k": "good", "case": c, "via": gen_via(r)})
        threads.append({"ops": ops})
    return {"threads": threads, "sched": gen_sched(r), "env": gen_env(r)}


class Broken(io.BytesIO):
    def __init__(self, data, at):
        super().__init__(data)
        self.at = at

    def read(self, n=-1):
        super().read(self.at)
        raise OSError(5, "Input/output error")


def attempt(w, op):
    """something that does not end well; how it ends is not judged here"""
    c, k = op["case"], op["k"]
    t = w.text(c)
    if k == "io":
        return type_of(c).fromFile(Broken(t.encode(), int(len(t) * op["frac"])))
    if k == "cut":
        return type_of(c).fromString(t[:int(len(t) * op["frac"])])
    if k == "garbage":
        return type_of(c).fromString(op["text"])
    if k == "caf":
        return cafBlock.fromString("ip src 1.2.3.4 union ( ip dst")
    return w.load(c, op["via"])


def type_of(c):
    from sim.world import CLS
    return CLS[c["fmt"]]


def run(w):
    # how long the attempts to be interrupted take
    for t in w.spec["threads"]:
        for op in t["ops"]:
            if op["k"] == "interrupt":
                n = w.steps(lambda: attempt(w, op))[0]
                op["at"] = core.place(w.seen, n, op["how"][0], op["frac"], op["how"][1])
    kept = []

    def task(t):
        def f():
            for op in t["ops"]:
                if op["k"] == "good":
                    e = w.expected(op["case"])
                    cfg = w.load_checked(op["case"], op["via"], what="after-failures", exp=e)
                    if cfg is not None:
                        kept.append((cfg, e))
                    continue
                if op["k"] == "interrupt":
                    core.sim.arm(op["at"], op["exc"])
                try:
                    attempt(w, op)
                except (Exception, KeyboardInterrupt, SystemExit, GeneratorExit) as e:
                    w.stats["failed: " + type(e).__name__] += 1
                core.sim.disarm()
        return f
    w.sim([task(t) for t in w.spec["threads"]])
    for cfg, e in kept:
        w.check_cfg(cfg, e, "changed-later", "after all loads")
    w.note(len(kept), sorted(w.stats))
