"""C06: a file is loaded completely and exactly, or loading it fails; under disk faults and torn files."""
import ast
import errno
import io
import os

from sim import core, fs as F, model_caf, observe
from sim.world import CLS, MODEL, ACLConfig, cafBlock, gen_case, gen_env, gen_sched

ERR = ["EIO", "ENXIO", "ENOSPC", "ESTALE", "EACCES", "EMFILE", "ENOENT"]


def gen(r, tier):
    threads, faults, n = [], [], 0
    base = gen_case(r, r.choice(["asa", "ios"]), size=(4, 9))
    for _ in range(r.choice([1, 2, 3])):
        ops = []
        for _ in range(r.choice([1, 2, 2])):
            n += 1
            name = "d%d/f%d.conf" % (n % 2, n)
            op = {"name": name, "case": gen_case(r, size=(3, 12), neg=0.05), "cut": None, "bytes": None, "how": r.choice(["auto", "cls", "stream", "raw", "dribble", "dribblebuf"])}
            if op["how"].startswith("dribble"):
                op["pieces"] = [r.choice([1, 3, 64, 1000, 8192, 60000]) for _ in range(r.choice([1, 2, 5]))]
                op["piece_error"] = r.choice(ERR[:4]) if r.random() < 0.25 else None
                op["at"] = r.random()
            if r.random() < 0.12:
                op["pad"] = [r.choice([5000, 66000, 66000, 140000, 1100000 if r.random() < 0.2 else 9000]), r.random()]
            k = r.choice(["plain", "short", "cut", "stmt", "utf8", "bom", "open", "read", "read", "close", "swap", "caf", "caf", "cafutf8", "missing", "dir", "again", "again"])
            if op["how"].startswith("dribble") and k in ("swap", "open", "read", "close", "missing", "dir", "short"):
                k = "plain"
            op["k"] = k
            if k in ("plain", "bom", "caf", "short") and r.random() < 0.4:
                op["stop"] = [r.choice(["KeyboardInterrupt", "SystemExit", "MemoryError", "RecursionError"]), int(10 ** r.uniform(0, 4.2))]
            if k == "cut":
                op["cut"] = r.random()
            elif k == "stmt":
                op["keep"] = r.random()
            elif k == "utf8":
                op["cut"] = r.random()
            elif k == "short":
                faults.append([name, "read", 0, "short"])
            elif k == "open":
                faults.append([name, "open", 1, r.choice(ERR)])
            elif k == "read":
                faults.append([name, "read", r.randrange(1, 8), r.choice(ERR[:4])])
                if r.random() < 0.4:
                    faults.append([name, "read", 0, "short"])
            elif k == "close":
                faults.append([name, "close", 1, "EIO"])
            elif k == "swap":
                op["other"] = gen_case(r, op["case"]["fmt"], size=(3, 12))
                faults.append([name, r.choice(["open", "read"]), 1, ["swap", name + ".other"]])
            elif k == "again":
                # a second load of the same path, after it was rewritten with as many bytes and the same time
                op["next"] = gen_case(r, op["case"]["fmt"], size=(3, 12))
                op["caf"] = r.random() < 0.3
                if op["caf"]:
                    e = MODEL[base["fmt"]].expected(base["st"])
                    op["exprs"] = [model_caf.gen(r, e), model_caf.gen(r, e)]
                op["case"] = dict(op["case"], st=[s for s in op["case"]["st"] if s["t"] != "raw"])
            elif k == "cafutf8":
                op["expr"] = model_caf.gen(r, MODEL[base["fmt"]].expected(base["st"]))
                op["cut"] = r.random()
                op["bom"] = False
            elif k == "caf":
                e = MODEL[base["fmt"]].expected(base["st"])
                op["expr"] = model_caf.gen(r, e)
                op["fault"] = r.choice([None, "open", "read", "short"])
                op["bom"] = r.random() < 0.3
                if op["fault"]:
                    faults.append([name, op["fault"] if op["fault"] != "short" else "read", 1, r.choice(ERR[:4]) if op["fault"] != "short" else "short"])
            ops.append(op)
        threads.append({"ops": ops})
    return {"threads": threads, "base": base, "faults": faults, "sched": gen_sched(r), "env": gen_env(r)}


def _openers():
    """the lines of functions that open files themselves"""
    out = set()
    for n in sorted(core.sources()):
        with open(n) as f:
            tree = ast.parse(f.read())
        for d in ast.walk(tree):
            if isinstance(d, ast.FunctionDef) and any(isinstance(c, ast.Call) and getattr(c.func, "id", getattr(c.func, "attr", "")) == "open" for c in ast.walk(d)):
                out.update((os.path.basename(n), i) for i in range(d.lineno, d.end_lineno + 1))
    return out


OPENERS = _openers()


def statements(case, keep):
    st = case["st"]
    return st[:int(len(st) * keep)]


def extends(e, g):
    """everything the complete statements said is in what was loaded"""
    for k in ("rules", "names"):
        if g[k][:len(e[k])] != e[k]:
            return "%s: %s" % (k, observe.diff(e[k], g[k][:len(e[k])]))
    for a in ("groups", "objects"):
        for b in e[a]:
            for n, v in e[a][b].items():
                if b == "network" and a == "objects":
                    ok = g[a][b].get(n, {}).get("addresses") == v["addresses"]
                else:
                    ok = g[a][b].get(n) == v
                if not ok:
                    return "%s.%s.%s: expected %r got %r" % (a, b, n, v, g[a][b].get(n))
    return None


class Dribble(io.RawIOBase):
    """a stream that delivers its bytes in pieces, like a pipe or socket"""

    def __init__(self, op):
        self.data, self.op, self.pos, self.n = op["data"], op, 0, 0

    def readable(self):
        return True

    def readinto(self, b):
        k = min(self.op["pieces"][self.n % len(self.op["pieces"])], len(b), len(self.data) - self.pos)
        k = max(k, min(1, len(b), len(self.data) - self.pos))
        self.n += 1
        F.fs.kinds["stream piece"] = F.fs.kinds.get("stream piece", 0) + 1
        if self.op.get("piece_error"):
            stop = int(len(self.data) * self.op["at"])
            if self.pos >= stop:
                F.fs.kinds["stream " + self.op["piece_error"]] = F.fs.kinds.get("stream " + self.op["piece_error"], 0) + 1
                raise OSError(getattr(errno, self.op["piece_error"]), "stream")
            k = min(k, stop - self.pos)
        b[:k] = self.data[self.pos:self.pos + k]
        self.pos += k
        return k


def padded(data, fmt, pad):
    """as much again that says nothing"""
    n, x = pad
    u = ["x ", "\u00e9 ", "\u20ac", "\U0001f600x"][int(x * 1000) % 4].encode()
    t = b"y" * (int(x * 10000) % 4) + u * (n // len(u))
    if fmt == "pf":
        i = data.rindex(b"</")
        return data[:i] + b"<!-- " + t + b"-->" + data[i:] if x < 0.3 else data.replace(b"<version>", b"<!-- " + t + b"--><version>", 1)
    if fmt == "caf":
        k = 3 if data.startswith(b"\xef\xbb\xbf") else 0
        return data[:k] + (b"\n" * 3 + b" " * n if x < 0.5 else b"/* " + t + b" */") + data[k:]
    return (b"! " + t + b"\n") + data if x < 0.8 else (b"! x\n" * min(n // 4, 1500)) + data


def run(w):
    F.scratch(w.spec["faults"])
    base_e = w.expected(w.spec["base"])
    base = w.load(w.spec["base"])
    for t in w.spec["threads"]:
        for op in t["ops"]:
            k, c = op["k"], op["case"]
            if k == "stmt":
                op["case"] = c = dict(c, st=statements(c, op["keep"]))
            if k == "again":
                continue
            if k in ("caf", "cafutf8"):
                op["data"] = (b"\xef\xbb\xbf" if op["bom"] else b"") + model_caf.render(op["expr"]).encode()
            else:
                op["data"] = w.text(c).encode("utf-8")
            if op.get("pad") and k in ("plain", "short", "caf", "read", "bom"):
                op["data"] = padded(op["data"], "caf" if k == "caf" else c["fmt"], op["pad"])
            if k == "cut":
                op["data"] = op["data"][:int(len(op["data"]) * op["cut"])]
            elif k in ("utf8", "cafutf8"):
                p = int(len(op["data"]) * op["cut"])
                op["data"] = op["data"][:p] + b"\xe9\x80 " + op["data"][p:]
            elif k == "bom":
                op["data"] = b"\xef\xbb\xbf" + op["data"]
            if k not in ("missing", "dir"):
                F.put(op["name"], op["data"])
            else:
                F.put(op["name"] + "/x" if k == "dir" else op["name"] + ".not", b"")
            if k == "swap":
                F.put(op["name"] + ".other", w.text(op["other"]))

    def do(op):
        p = F.fs.dir + "/" + op["name"]
        caf = op["k"] in ("caf", "cafutf8")
        cls = cafBlock if caf else CLS[op["case"]["fmt"]]
        if op["how"].startswith("dribble"):
            d = Dribble(op)
            return cls.fromFile(io.BufferedReader(d, 512) if op["how"] == "dribblebuf" else d)
        if caf:
            if op["how"] in ("auto", "cls"):
                return cafBlock.fromPath(p)
            with open(p, "rb", *([0] if op["how"] == "raw" else [])) as f:
                return cafBlock.fromFile(f)
        if op["how"] == "auto":
            return ACLConfig.fromPath(p)
        if op["how"] == "cls":
            return cls.fromPath(p)
        with open(p, "rb", *([0] if op["how"] == "raw" else [])) as f:
            return cls.fromFile(f)

    def task(t):
        def f():
            for op in t["ops"]:
                judge(op)
        return f

    def selects(f):
        r = base.filter(f)
        return ({i for i, x in enumerate(base.rules.rules) if x in r}, {(str(s), i) for s, l in base.nat.items() for i, x in enumerate(l) if x in r})

    def again(op):
        """load, rewrite, load"""
        if op["caf"]:
            e = [model_caf.run(x, base_e) for x in op["exprs"]]
            t = [model_caf.render(x).encode() for x in op["exprs"]]
            fill = b"\n"
        else:
            cs = [op["case"], op["next"]]
            e = [w.expected(c) for c in cs]
            t = [w.text(c).encode("utf-8") for c in cs]
            if None in e:
                return
            fill = b"!\n" if op["case"]["fmt"] != "pf" else b"\n"
        n = max(map(len, t))
        t = [x + fill * ((n - len(x)) // len(fill)) for x in t]
        if len(t[0]) != len(t[1]):
            n = 0 if len(t[0]) < len(t[1]) else 1
            t[n] = (b"! \n" + t[n][:-2]) if fill == b"!\n" and t[n].endswith(b"!\n") else t[n]
        for n in range(2):
            p = F.put(op["name"], t[n])
            os.utime(p, ns=(10 ** 18, 10 ** 18))
            try:
                got = do(dict(op, k="caf" if op["caf"] else "plain", data=t[n], piece_error=None))
            except Exception as x:
                w.expect(False, "rejected", "load %d of a rewritten file raised %r" % (n + 1, x))
                return
            if op["caf"]:
                w.expect(selects(got) == e[n], "stale", lambda: "load %d of a rewritten filter file selects %s, expected %s" % (n + 1, selects(got), e[n]))
            else:
                w.check_cfg(got, e[n], "stale", "load %d of a rewritten file" % (n + 1))

    def judge(op):
        name, k, c = op["name"], op["k"], op["case"]
        if k == "again":
            again(op)
            return
        errs0 = len(errors(name))
        n0 = len(core.sim.faultlog)
        if op.get("stop"):
            core.sim.arm(op["stop"][1], op["stop"][0])
        try:
            got = do(op)
            exc = None
        except (Exception, KeyboardInterrupt, SystemExit) as e:
            got, exc = None, e
        stopped = bool(op.get("stop")) and core.sim.disarm()
        hit = errors(name)[errs0:]
        where = [x[2:] for x in core.sim.faultlog[n0:] if x[0] == core.sim.cur.n]
        open_left = [p for p in F.fs.leaked() if p.endswith("/" + name)]
        # what stops a function that is just opening or closing cannot be helped
        w.expect(not open_left or any(tuple(x) in OPENERS for x in where), "left-open", lambda: "%s still open after %s %s (%r)" % (name, k, where, exc or "success"))
        if stopped and exc is not None:
            return
        if hit and hit[0][1] != "close":
            # the disk said no
            w.expect(isinstance(exc, OSError), "error-lost", lambda: "%s: %s failed with %s, the load %s" % (
                k, hit[0][1], hit[0][2], "succeeded" if exc is None else "raised %r" % exc))
            return
        if hit and exc is not None:
            w.expect(isinstance(exc, OSError), "error-changed", lambda: "close failed, the load raised %r" % exc)
            return
        if op["how"].startswith("dribble") and op.get("piece_error"):
            w.expect(isinstance(exc, OSError), "error-lost", lambda: "the stream failed with %s after %d bytes, the load %s" % (
                op["piece_error"], int(len(op["data"]) * op["at"]), "succeeded" if exc is None else "raised %r" % exc))
            return
        if k in ("missing", "dir"):
            w.expect(isinstance(exc, OSError), "error-lost", lambda: "%s file: %r" % (k, exc))
            return
        if k == "caf":
            if w.expect(got is not None, "caf-rejected", lambda: "filter file raised %r: %s" % (exc, op["data"])):
                e = model_caf.run(op["expr"], base_e)
                g = selects(got)
                w.expect(g == e, "caf-differs", lambda: "%s selects %s, expected %s" % (op["data"], g, e))
            return
        if k in ("utf8", "cafutf8"):
            w.expect(got is None, "undecodable-loaded", lambda: "a file that is no UTF-8 was loaded")
            return
        if k == "cut":
            full = op["data"] == w.text(c).encode("utf-8")
            if full:
                pass
            elif c["fmt"] == "pf":
                if op["data"].strip() != w.text(c).strip().encode():
                    w.expect(got is None, "torn-loaded", lambda: "XML cut at byte %d was loaded" % len(op["data"]))
                return
            else:
                j = len(c["st"])
                while j and not op["data"].startswith(MODEL[c["fmt"]].render(c["st"][:j]).rstrip("\n").encode("utf-8")):
                    j -= 1
                # the last statement that fits may itself have been cut
                j -= 1
                if got is not None and j > 0:
                    e = w.expected(dict(c, st=c["st"][:j]))
                    if e is not None:
                        g = w.snap(got)
                        d = extends(e, g)
                        w.expect(d is None, "torn-differs", lambda: "cut at byte %d, after %d statements: %s" % (len(op["data"]), j, d))
                return
        e = w.expected(c)
        if k == "swap":
            e2 = w.expected(op["other"])
            g = None if got is None else w.snap(got)
            w.expect(g == e or g == e2, "mixed", lambda: "neither the old nor the new file: " + observe.diff(e or {}, g or {}))
            return
        if e is None:
            w.expect(got is None, "invalid-loaded", k)
            return
        if w.expect(got is not None, "rejected", lambda: "%s/%s: valid file raised %r" % (k, op["how"], exc)):
            w.check_cfg(got, e, "differs", "%s/%s" % (k, op["how"]))

    def errors(name):
        return [x for x in F.fs.errors if x[0] == name]

    w.sim([task(t) for t in w.spec["threads"]])
    w.note([[op["k"] for op in t["ops"]] for t in w.spec["threads"]], F.fs.errors)
