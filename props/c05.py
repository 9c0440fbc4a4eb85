"""C05: the format is told by the text alone, and a text is loaded whole or not at all."""
from sim import observe
from sim.world import CLS, J, ACLConfig, gen_case, gen_env, gen_sched

JUNK = ["frobnicate the widget", "access-list", "ip access-list extended", "object network", "</pfsense>", "<x>", "interface", "permit ip any any",
        "access-list A extended permit tcp any host 10.0.0.999", "{", "time-range", "object-group network", "names names", "\x00"]

# what several formats take
BOTH = ["!", ": Saved", "", "aaa new-model", "arp timeout 14400", "boot-start-marker", "call-home", "class-map inspection_default", "clock timezone CET 1",
        "domain-name corp.local", "enable password x encrypted", "hostname fw1", "hostname core-rt", "interface FastEthernet0/0", "interface Vlan10",
        "interface GigabitEthernet0/1\n description x\n ip address 10.0.0.1 255.255.255.0", "ip access-list extended 100", "logging enable", "mac-address auto",
        "no ip http server", "object-group icmp-type G1", "policy-map X", "router ospf 1", "service timestamps log datetime", "snmp-server enable traps",
        "username x password y", "vpdn group G ppp authentication pap", "ip access-list extended A"]


def gen(r, tier):
    threads = []
    both = r.random() < 0.3
    for _ in range(r.choice([1, 2, 3])):
        ops = []
        for _ in range(r.choice([1, 2, 3, 4]) if both else r.choice([1, 2])):
            c = gen_case(r, size=(1, 10) if not both else (1, 5), neg=0.35)
            k = r.choice(["whole", "whole", "whole", "cut", "line", "junk", "two", "both"])
            if both and r.random() < 0.6:
                k = "both"
            op = {"k": k, "case": c, "x": r.random(), "y": r.random(), "j": r.choice(JUNK)}
            if k == "both":
                op["lines"] = [r.choice(BOTH) for _ in range(r.choice([0, 1, 1, 2, 3, 5]))]
            if k == "two":
                op["other"] = gen_case(r, size=(1, 8))
            if c["fmt"] != "pf":
                c["opt"] = r.choice([None, None, "acl", "off"])
            else:
                c["opt"] = r.choice([None, "acl", "off", "pf"])
            ops.append(op)
        threads.append({"ops": ops})
    return {"threads": threads, "sched": gen_sched(r), "env": gen_env(r)}


def text(w, op):
    t = w.text(op["case"])
    k = op["k"]
    if k == "cut":
        return t[:int(len(t) * op["x"])]
    if k in ("line", "junk"):
        l = t.split("\n")
        i = int(len(l) * op["x"])
        if k == "line":
            l.insert(int(len(l) * op["y"]), l.pop(min(i, len(l) - 1)))
        else:
            l.insert(i, op["j"])
        return "\n".join(l)
    if k == "both":
        return "".join(x + "\n" for x in op["lines"])
    if k == "two":
        return t + w.text(op["other"])
    return t


def outside(t, j):
    """j stands somewhere outside of a comment"""
    i = t.find(j)
    return i >= 0 and t.rfind("<!--", 0, i) <= t.rfind("-->", 0, i)


def run(w):
    def reference(op):
        """what the first vendor format that takes the text makes of it"""
        t = op["t"]
        o = w.options(op["case"])
        for f in ("asa", "ios", "pf"):
            try:
                c = CLS[f].fromString(t, filename="x.conf", options=o)
            except Exception:
                continue
            return [f, type(c).__name__, J(observe.snapshot(c))]
        return None

    for t in w.spec["threads"]:
        for op in t["ops"]:
            op["t"] = text(w, op)
            op["ref"], e = w.solo(lambda: reference(op))
            if e is not None:
                raise e
            if op["k"] == "whole":
                e = w.expected(op["case"])
                r = op["ref"]
                if e is None:
                    w.expect(r is None or r[0] != op["case"]["fmt"], "invalid-accepted", lambda: "%s" % [s for s in op["case"]["st"] if s["t"] == "raw"])
                else:
                    w.expect(r is not None and r[0] == op["case"]["fmt"], "wrong-format", lambda: "valid %s taken as %s" % (op["case"]["fmt"], r and r[0]))
                    if r is not None and r[0] == op["case"]["fmt"]:
                        w.expect(r[2] == e, "differs", lambda: observe.diff(e, r[2]))
            elif op["k"] == "junk" and op["case"]["fmt"] == "pf" and op["j"] in ("</pfsense>", "<x>", "\x00"):
                w.expect(op["ref"] is None or op["x"] > 0.999 or not outside(op["t"], "\n" + op["j"] + "\n"), "junk-accepted", op["j"])

    def task(t):
        def f():
            for op in t["ops"]:
                r = op["ref"]
                try:
                    c = ACLConfig.fromString(op["t"], filename="x.conf", options=w.options(op["case"]))
                except ValueError as e:
                    w.expect(r is None, "valid-rejected", lambda: "%s text raised %r" % (r[0], e))
                    continue
                except Exception as e:
                    w.expect(False, "rejection-type", "a text no format takes raised %r, not ValueError" % e)
                    continue
                if not w.expect(r is not None, "invalid-accepted", lambda: "a text no format takes became %r" % type(c)):
                    continue
                w.expect(type(c).__name__ == r[1], "wrong-class", lambda: "%s instead of %s" % (type(c).__name__, r[1]))
                s = J(observe.snapshot(c))
                w.expect(s == r[2], "differs-from-vendor-load", lambda: observe.diff(r[2], s))
        return f
    w.sim([task(t) for t in w.spec["threads"]])
    w.note([[op["ref"] and op["ref"][0] for op in t["ops"]] for t in w.spec["threads"]])
