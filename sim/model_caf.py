"""Reference model of the filter language and of the queries on a configuration.

Works on snapshots (observe.py) only: what a filter selects, what a selection
refers to, and what expanding does, computed by brute force from the definition.

A filter is a list [term, op, term, op, term ...]; a term is
{"id": pattern|None, "ip": [[direction, [net, ...]], ...]} or {"e": filter}.
"""
import copy
import fnmatch
import functools
import ipaddress

OPS = ["union", "intersect", "except"]
ANYS = ["any", "any4", "any6", "ANY", "ANY4", "ANY6"]
net = functools.lru_cache(None)(ipaddress.ip_network)
ipa = functools.lru_cache(None)(ipaddress.ip_address)


# ------------------------------------------------------------------ matching

def bits(h):
    """-> (version, address, fixed bits) of a host, network or wildcard"""
    if h[0] == "host":
        a = ipa(h[1])
        return a.version, int(a), (1 << a.max_prefixlen) - 1
    if h[0] == "net":
        n = net(h[1])
        return n.version, int(n.network_address), int(n.netmask)
    a, w = ipa(h[1]), ipa(h[2])
    return a.version, int(a), ((1 << a.max_prefixlen) - 1) & ~int(w)


def meet(a, b):
    if a[0] in ("any", "url", "if") or b[0] in ("any", "url", "if"):
        return True
    (v, p, m), (w, q, n) = [(int(x[0][3]), 0, 0) if x[0] in ("any4", "any6") else bits(x) for x in (a, b)]
    return v == w and (p ^ q) & m & n == 0


class Hosts:
    def __init__(self, snap):
        self.ng = {n: g["items"] for n, g in snap["groups"]["network"].items()}
        self.no = {n: g["addresses"] for n, g in snap["objects"]["network"].items()}

    def inner(self, h):
        return self.ng[h[1]] if h[0] == "ng" else self.no[h[1]] if h[0] == "no" else None

    def match(self, f, h):
        """filter net (text) against a host of the configuration"""
        if f == "any":
            return True
        i = self.inner(h)
        if i is not None:
            return any(self.match(f, x) for x in i)
        k = h[0]
        if f == "ANY":
            return k in ("any", "url")
        if f == "ANY4":
            return k == "any4"
        if f == "ANY6":
            return k == "any6"
        if k in ("any", "url", "if"):
            return True
        if f in ("any4", "any6"):
            v = int(f[3])
            if k in ("any4", "any6"):
                return k == f
            return bits(h)[0] == v
        n = net(f, strict=False) if "/" in f else net(f)
        if k in ("any4", "any6"):
            return int(k[3]) == n.version
        v, a, m = bits(h)
        return v == n.version and (a ^ int(n.network_address)) & m & int(n.netmask) == 0

    def leaves(self, h):
        i = self.inner(h)
        return [h] if i is None else [y for x in i for y in self.leaves(x)]

    def meet(self, a, b):
        """any two hosts of configurations; None if one of them is empty, which is not claimed"""
        a, b = self.leaves(a), self.leaves(b)
        return any(meet(x, y) for x in a for y in b) if a and b else None

    def any_of(self, nets, h):
        return any(self.match(f, h) for f in nets)


def id_match(p, name):
    if p is None or not name:
        return True
    if p[0] == p[-1] == "/":
        return fnmatch.fnmatchcase(name, p[1:-1])
    return p == name


def by_hand(target, snap):
    """what a rule made by hand selects -> (rules, nat), and the ones of which nothing is claimed"""
    hosts, no, src, dst = Hosts(snap), set(), target["src"], target["dst"]

    def both(x, s, d):
        m = [hosts.meet(f, h) for f, h in ((src, s), (dst, d)) if h]
        if m and None in m and False not in m:
            no.add(x)
        return bool(m) and all(m)
    rules = {i for i, r in enumerate(snap["rules"]) if id_match(target["id"], r["id"]) and both(i, r["src"], r["dst"])}
    nat = {(sec, i) for sec, l in snap["nat"].items() for i, n in enumerate(l)
           if [x for x in (n["real"], n["mapped"]) if both((sec, i), x["src"], x["dst"])]}
    return rules, nat, no


def gen_by_hand(r, snap):
    hosts = Hosts(snap)
    pool = [["any"], ["any4"], ["any6"], ["if", "inside"]] + [["ng", x] for x in hosts.ng] + [["no", x] for x in hosts.no]
    pool += [["wild", "10.1.%d.3" % r.choice([0, 2, 7]), "0.0.%d.%d" % (r.choice([0, 1, 4, 255, 170]), r.choice([0, 1, 5, 255, 3]))] for _ in range(2)]
    pool += [["net", a, None] if "/" in a else ["host", a, None] for a in addresses(snap)]
    for x in snap["rules"]:
        pool += [x["src"], x["dst"]]
    pool = [p for p in pool if p[0] != "url" and hosts.leaves(p)]
    ids = [x["id"] for x in snap["rules"] if x["id"]] or ["none"]
    n = r.choice(ids)
    i = r.choice([None, None, None, n, n, "/" + n[:1] + "*/", "/*" + n[-1:] + "/", "/[!" + n[0].replace("!", "x") + "]*/", n + "x"])
    return {"id": i, "src": r.choice(pool), "dst": r.choice(pool)}


def nets(term, direction):
    r = [n for d, l in term["ip"] if d == direction for n in l]
    return r or ["any"]


def _set(term, snap, hosts):
    src, dst = nets(term, "src"), nets(term, "dst")
    rules = {i for i, r in enumerate(snap["rules"])
             if id_match(term["id"], r["id"]) and hosts.any_of(src, r["src"]) and hosts.any_of(dst, r["dst"])}
    nat = set()
    for sec, l in snap["nat"].items():
        for i, n in enumerate(l):
            for side in (n["real"], n["mapped"]):
                s, d = side["src"], side["dst"]
                if not s and not d:
                    continue
                if (not s or hosts.any_of(src, s)) and (not d or hosts.any_of(dst, d)):
                    nat.add((sec, i))
    return rules, nat


def run(expr, snap, hosts=None):
    """-> (rule indexes, nat (section, index)); intersect binds tighter than union and except, which are left associative"""
    hosts = hosts or Hosts(snap)

    def term(t):
        return run(t["e"], snap, hosts) if "e" in t else _set(t, snap, hosts)

    def apply(op, a, b):
        f = {"union": set.union, "intersect": set.intersection, "except": set.difference}[op]
        return f(a[0], b[0]), f(a[1], b[1])

    parts = [term(expr[0])]
    ops = []
    for i in range(1, len(expr), 2):
        v = term(expr[i + 1])
        if expr[i] == "intersect":
            parts[-1] = apply("intersect", parts[-1], v)
        else:
            ops.append(expr[i])
            parts.append(v)
    r = parts[0]
    for op, v in zip(ops, parts[1:]):
        r = apply(op, r, v)
    return r


# ------------------------------------------------------------------ text

COMMENTS = ["/* ip src 1.2.3.4 union ( */", "/***/", "/** id A\n ** union\n **/", "/* / * / // */", "/**/ /* ) */", "/* except id ? [!A] \u00e9 */", "/*/ intersect id A /*/"]


def render(expr, style=0):
    """style selects blanks and comments; it must not matter"""
    out = []
    for p in expr:
        if isinstance(p, str):
            out.append(p)
        elif "e" in p:
            out.append("(" + [" ", "\n", ""][style % 3] + render(p["e"], style // 3) + [" ", "\n", ""][style % 3] + ")")
        else:
            l = []
            if p["id"] is not None:
                l.append("id " + p["id"])
            for d, n in p["ip"]:
                l.append("ip " + d + " " + [" ", " ", "\n "][style % 3].join(n))
            if style % 4 == 1:
                l.insert([1, 0, len(l)][style // 4 % 3], COMMENTS[style // 12 % len(COMMENTS)])
            out.append(["\n", "\n", " "][style % 3].join(l))
    return [" ", "\n", " \t"][style % 3].join(out)


# ------------------------------------------------------------------ generation

def addresses(snap):
    """addresses worth asking for: the ones in the configuration and their neighbours"""
    hosts = Hosts(snap)
    out = []

    def add(h):
        if h[0] in ("host", "net", "wild"):
            v, a, m = bits(h)
            top = 32 if v == 4 else 128
            c = ipaddress.IPv4Address if v == 4 else ipaddress.IPv6Address
            full = (1 << top) - 1
            last = a | (full & ~m)
            for x in (a & m, last, (a & m) - 1, last + 1, a ^ (1 << 7), a ^ (m & -m) if m else a):
                if 0 <= x <= full:
                    out.append(str(c(x)))
            if h[0] == "net":
                n = net(h[1])
                out.append(str(n))
                if n.prefixlen > 1:
                    out.append(str(n.supernet()))
        elif h[0] in ("ng", "no"):
            for x in hosts.inner(h):
                add(x)
    for r in snap["rules"]:
        add(r["src"])
        add(r["dst"])
    for l in snap["nat"].values():
        for n in l:
            for side in (n["real"], n["mapped"]):
                for k in ("src", "dst"):
                    if side[k]:
                        add(side[k])
    return sorted(set(out)) or ["10.0.0.1"]


def gen(r, snap, depth=2):
    adr = addresses(snap)
    ids = sorted({x["id"] for x in snap["rules"] if x["id"] and all(c.isalnum() or c in "-_." for c in x["id"])}) or ["none"]

    def gnet():
        k = r.random()
        if k < 0.3:
            return r.choice(ANYS)
        a = r.choice(adr)
        if "/" in a or k < 0.75:
            return a
        return "%s/%d" % (a, r.randrange(0, 65) * 2 if ":" in a else r.randrange(0, 33))

    def gid():
        n = r.choice(ids)
        k = r.random()
        if k < 0.5:
            return n
        if k < 0.6:
            return n + "x"
        return "/" + r.choice([n[:1] + "*", "*" + n[-1:], "?" * len(n), n[:-1] + "?", "*", "[%s]*" % n[0], "[!%s]*" % n[0], n]) + "/"

    def term(d):
        if d > 0 and r.random() < 0.35:
            return {"e": expr(d - 1)}
        t = {"id": gid() if r.random() < 0.45 else None, "ip": []}
        k = r.random()
        dirs = r.choice([["src"], ["dst"], ["src", "dst"], ["dst", "src"], [], ["src", "src"]]) if k < 0.85 else \
            [r.choice(["src", "dst"])] * r.randrange(2, 6) if k < 0.93 else [r.choice(["src", "dst"]) for _ in range(r.randrange(2, 7))]
        for x in dirs:
            t["ip"].append([x, [gnet() for _ in range(r.choice([1, 1, 1, 2, 3]) if r.random() < 0.97 else r.randrange(4, 24))]])
        if t["id"] is None and not t["ip"]:
            t["ip"].append(["src", [gnet()]])
        return t

    def expr(d):
        e = [term(d)]
        for _ in range(r.choice([0, 0, 1, 1, 2, 3]) if d else r.choice([0, 1, 2])):
            e += [r.choice(OPS), term(d)]
        return e

    e = expr(depth)
    # "( ... )" around a set with an id, and a set beside a block, are no part of what is modelled here
    return e


def fix(expr):
    """filters the model does not cover become covered ones"""
    return expr


# ------------------------------------------------------------------ resolve

TAG = {"ng": "NetworkGroup", "pog": "PortGroup", "sg": "ServiceGroup", "prg": "ProtocolGroup", "ig": "ICMPGroup",
       "no": "NetworkObject", "so": "ServiceObject", "tr": "TimeRange"}


def resolve(snap, rules, nat):
    """-> set of descriptors (JSON text) of everything the selection refers to, itself included"""
    out = set()
    kinds = {"ng": snap["groups"]["network"], "pog": snap["groups"]["port"], "sg": snap["groups"]["service"],
             "prg": snap["groups"]["protocol"], "ig": snap["groups"]["icmp"]}

    def add(x):
        if x is None:
            return
        d = desc(x)
        if d in out:
            return
        out.add(d)
        if not isinstance(x, list):
            return
        k = x[0]
        if k in TAG:
            out.add("tag:" + TAG[k])
        if k in kinds:
            for y in kinds[k][x[1]]["items"]:
                add(y)
        if k in ("host", "net") and x[2]:
            out.add("name:" + x[2])
            out.add("tag:Names")

    for i in rules:
        r = snap["rules"][i]
        out.add("rule:%d" % i)
        for k in ("proto", "src", "dst", "sport", "dport"):
            add(r[k])
        if r["id"]:
            out.add("tag:" + r["id"])
        if r["icmp"] and r["proto"][1] in ("icmp", "icmp6"):
            add(r["icmp"])
        for v in r["opts"].values():
            if isinstance(v, list) and v and v[0] == "tr":
                add(v)
        for alias, direction in snap["access_groups"].get(r["id"], []):
            out.add("bind:%s/%s" % (alias, direction))
            out.add("iface:" + alias)
            out.add("tag:Interface")
    for sec, i in nat:
        n = snap["nat"][sec][i]
        out.add("nat:%s/%d" % (sec, i))
        out.add("tag:NAT")
        for side in (n["real"], n["mapped"]):
            add(side["src"])
            add(side["dst"])
            add(side["svc"])
            add(["if", side["if"]])
    return out


def desc(x):
    """descriptor of a referenced thing: named ones by name, others by value"""
    return "obj:" + repr(x)


def observed(cfg, obs, result):
    """the same descriptors for a set the real resolve() returned"""
    ri = {id(r): i for i, r in enumerate(cfg.rules.rules)}
    ni = {id(n): (s, i) for s, l in cfg.nat.items() for i, n in enumerate(l)}
    out = set()
    for x in result:
        c = x.__class__.__name__
        if x is None:
            continue
        if isinstance(x, str):
            out.add("tag:" + x)
        elif c == "ACLRule":
            out.add("rule:%s" % ri.get(id(x), "FOREIGN"))
        elif c == "NATObject":
            out.add("nat:%s/%d" % ni.get(id(x), ("FOREIGN", 0)))
        elif c == "Name":
            out.add("name:" + (x.hostname if any(x is n for n in cfg.names.objects) else "FOREIGN"))
        elif c == "InterfaceAccessGroup":
            out.add("bind:%s/%s" % (x.iface.alias, x.direction))
        elif c == "Interface":
            out.add("iface:" + (x.alias if cfg.interfaces.get(x.alias) is x else "FOREIGN"))
        elif c == "TimeRange":
            out.add(desc(["tr", x.name] if cfg.objects.time.get(x.name) is x else ["FOREIGN", "tr", x.name]))
        else:
            out.add(desc(obs.member(x)))
    return out


# ------------------------------------------------------------------ expand

GKINDS = [("network", "ng"), ("port", "pog"), ("service", "sg"), ("protocol", "prg"), ("icmp", "ig")]


def flatten(snap, kind, name):
    """members of a group with nested groups and objects replaced by what they stand for, in order"""
    k = dict((b, a) for a, b in GKINDS)[kind]
    out = []
    for m in snap["groups"][k][name]["items"]:
        if m[0] == kind:
            out.extend(flatten(snap, kind, m[1]))
        elif m[0] == "no":
            out.extend(snap["objects"]["network"][m[1]]["addresses"])
        elif m[0] == "so":
            out.append(snap["objects"]["service"][m[1]]["svc"])
        else:
            out.append(m)
    return out


def expand(snap):
    s = copy.deepcopy(snap)
    for k, kind in GKINDS:
        for n in s["groups"][k]:
            s["groups"][k][n]["items"] = flatten(snap, kind, n)
    return s
