"""What a user can observe of acltk objects, as plain JSON.

Only public attributes of the public object model are read.  References to
named entities are checked to be the very object the configuration's tables
hold for that name; anything else shows up as ["FOREIGN", ...] in the result
and so fails every comparison against a model.
"""


def cn(o):
    return o.__class__.__name__


class Obs:
    typed = False

    def __init__(self, cfg=None, typed=False):
        self.cfg = cfg
        self.strict = cfg is not None
        if typed:
            self.typed = True

    def val(self, v):
        """a value as text; with its type where types are to be compared"""
        return "%s:%s" % (cn(v), v) if self.typed else str(v)

    def ref(self, kind, obj, table):
        if self.strict and table.get(obj.name) is not obj:
            return ["FOREIGN", kind, obj.name]
        return [kind, obj.name]

    def tgt(self, t):
        if t is None:
            return None
        if self.strict and not any(t is n for n in self.cfg.names.objects):
            return ["FOREIGN", "name", t.hostname]
        return t.hostname

    def host(self, h):
        c = cn(h)
        if h is None:
            return None
        if c == "NetworkHost":
            return ["host", self.val(h.address), self.tgt(h.target)]
        if c == "Network":
            return ["net", self.val(h.network), self.tgt(h.target)]
        if c == "NetworkWildcard":
            return ["wild", self.val(h.address), self.val(h.wildcard)]
        if c == "NetworkAny":
            return ["any"]
        if c == "NetworkAny4":
            return ["any4"]
        if c == "NetworkAny6":
            return ["any6"]
        if c == "NetworkInterface":
            return ["if", h.name]
        if c == "NetworkObject":
            return self.ref("no", h, self.cfg.objects.network if self.strict else {})
        if c == "NetworkGroup":
            return self.ref("ng", h, self.cfg.groups.network if self.strict else {})
        if c == "Webtype":
            return ["url", h.url]
        if c in ("cafNetworkAny", "cafNetworkAny4", "cafNetworkAny6"):
            return [c]
        return ["UNKNOWN", repr(h)]

    def port(self, p):
        c = cn(p)
        if p is None or isinstance(p, str):
            return p
        if c == "Port":
            return ["port", p.op, self.val(p.num)]
        if c == "PortRange":
            return ["range", self.val(p.start), self.val(p.stop)]
        if c == "PortGroup":
            return self.ref("pog", p, self.cfg.groups.port if self.strict else {})
        return ["UNKNOWN", repr(p)]

    def proto(self, p):
        c = cn(p)
        if p is None:
            return None
        if c == "Protocol":
            return ["p", p.name]
        if c == "ProtocolGroup":
            return self.ref("prg", p, self.cfg.groups.protocol if self.strict else {})
        if c == "ServiceGroup":
            return self.ref("sg", p, self.cfg.groups.service if self.strict else {})
        if c == "ServiceObject":
            return self.ref("so", p, self.cfg.objects.service if self.strict else {})
        if c == "Service":
            return self.svc(p)
        return ["UNKNOWN", repr(p)]

    def svc(self, s):
        return ["svc", s.protocol.name, self.port(s.src), self.port(s.dst), s.icmp_type, s.icmp_code]

    def icmp(self, i):
        c = cn(i)
        if i is None:
            return None
        if c == "ICMP":
            return ["icmp", i.type, i.code]
        if c == "ICMPGroup":
            return self.ref("ig", i, self.cfg.groups.icmp if self.strict else {})
        return ["UNKNOWN", repr(i)]

    def member(self, m):
        c = cn(m)
        if c in ("Port", "PortRange", "PortGroup"):
            return self.port(m)
        if c == "Service":
            return self.svc(m)
        if c in ("Protocol", "ProtocolGroup", "ServiceGroup", "ServiceObject"):
            return self.proto(m)
        if c in ("ICMP", "ICMPGroup"):
            return self.icmp(m)
        return self.host(m)

    def members(self, g):
        return [self.member(m) for m in g.objects]

    def option(self, v):
        c = cn(v)
        if c == "ACLRuleOptionLog":
            return flat(v.options)
        if c == "ACLRuleOptionInActive":
            return True
        if c == "ACLRuleOptionInterface":
            return ["iface", list(v.interfaces), v.direction]
        if c == "TimeRange":
            return self.ref("tr", v, self.cfg.objects.time if self.strict else {})
        return v

    def rule(self, r):
        return {
            "id": r.id, "ext": r.extended, "mode": r.mode, "proto": self.proto(r.protocol),
            "src": self.host(r.src.host), "sport": self.port(r.src.port),
            "dst": self.host(r.dst.host), "dport": self.port(r.dst.port),
            "remark": list(r.remark), "opts": {k: self.option(v) for k, v in r.options.items()},
            "icmp": self.icmp(r.icmp),
            "head": [[h.text, h.bg] for h in r.head] if r.head else None,
        }

    def ifname(self, i):
        return i.name if i is not None else None

    def nat(self, n):
        fb = None
        if n.mapped.src is not None and n.mapped.src.fallback is not None:
            f = n.mapped.src.fallback
            fb = [self.ifname(f.interface) if cn(f.interface) == "NetworkInterface" else f.interface, bool(f.ipv6)]
        return {
            "real": {"if": n.real.iface.name, "src": self.host(n.real.src.node) if n.real.src else None,
                     "dst": self.host(n.real.dst.node) if n.real.dst else None, "svc": self.proto(n.real.service)},
            "mapped": {"if": n.mapped.iface.name, "src": self.host(n.mapped.src.node) if n.mapped.src else None,
                       "dst": self.host(n.mapped.dst.node) if n.mapped.dst else None,
                       "svc": self.proto(n.mapped.service),
                       "type": n.mapped.src.type if n.mapped.src else None, "fb": fb},
            "opts": dict(n.options), "description": n.description,
        }

    def iface(self, i):
        sw = None
        if i.switchport is not None:
            sw = {"mode": i.switchport.mode, "trunk": None}
            if i.switchport.trunk is not None:
                sw["trunk"] = [[v.value] if cn(v) == "VLAN" else [v.start, v.end] for v in i.switchport.trunk.items]
        return {
            "nameif": i.nameif, "description": i.description, "addresses": [self.val(a.interface) for a in i.addresses],
            "ag": {k: (v.name if v.iface is i else ["FOREIGN", v.name]) for k, v in i.access_groups.items()},
            "sw": sw, "routes": sorted([self.val(r.network), self.gw(r.gw)] for r in i.routes),
        }

    def gw(self, g):
        if cn(g) == "Interface":
            return ("if:" if not self.strict or self.cfg.interfaces.get(g.alias) is g else "FOREIGN:") + g.alias
        return self.val(g)

    def time(self, t):
        r = []
        for o in t.objects:
            if cn(o) == "TimeRangeObjectAbsolute":
                r.append(["abs", o.start.isoformat() if o.start else None, o.end.isoformat() if o.end else None])
            else:
                d = o.startDays
                r.append(["per", [d] if isinstance(d, str) else list(d), o.startTime.isoformat(), o.endDays, o.endTime.isoformat()])
        return {"items": r}

    def netobj(self, o):
        return {"type": o.type, "addresses": [self.host(a) for a in o.addresses], "description": o.description}

    def snapshot(self):
        c = self.cfg
        g = c.groups
        grp = lambda d: {n: dict(description=o.description, items=self.members(o)) for n, o in d.items()}
        names_ok = lambda d: all(n == o.name for n, o in d.items())
        for d in (g.network, g.service, g.port, g.icmp, g.protocol, c.objects.network, c.objects.service, c.objects.time):
            if not names_ok(d):
                return {"MISNAMED": {k: v.name for k, v in d.items()}}
        port = grp(g.port)
        for n, o in g.port.items():
            port[n]["protocol"] = o.protocol.name
        return {
            "hostname": c.hostname, "domainname": c.domainname, "version": getattr(c, "version", None),
            "names": [[n.hostname, self.val(n.address), n.description if n.description else None] for n in c.names.objects],
            "interfaces": {a: self.iface(i) for a, i in c.interfaces.items()},
            "objects": {
                "network": {n: self.netobj(o) for n, o in c.objects.network.items()},
                "service": {n: {"svc": self.svc(o), "description": o.description} for n, o in c.objects.service.items()},
                "time": {n: self.time(o) for n, o in c.objects.time.items()},
            },
            "groups": {"network": grp(g.network), "service": grp(g.service), "port": port, "icmp": grp(g.icmp), "protocol": grp(g.protocol)},
            "rules": [self.rule(r) for r in c.rules.rules],
            "nat": {str(k): [self.nat(n) for n in v] for k, v in c.nat.items()},
            "access_groups": {k: [[v.iface.alias if self.gw(v.iface).startswith("if:") else "FOREIGN", v.direction] for v in l]
                              for k, l in c.access_groups.items() if l},
            "routes": [[self.val(r.network), self.gw(r.gw)] for r in getattr(c, "routes", [])],
        }


def flat(x):
    if x is None:
        return []
    if isinstance(x, str):
        return [x]
    r = []
    for i in x:
        r.extend(flat(i))
    return r


def snapshot(cfg, typed=False):
    return Obs(cfg, typed).snapshot()


def diff(exp, got, path=""):
    """first few differences between two JSON values, as text"""
    out = []

    def go(a, b, p):
        if len(out) >= 4:
            return
        if isinstance(a, dict) and isinstance(b, dict):
            for k in list(a) + [k for k in b if k not in a]:
                if k not in b:
                    out.append(f"{p}.{k}: missing, expected {a[k]!r}")
                elif k not in a:
                    out.append(f"{p}.{k}: unexpected {b[k]!r}")
                elif a[k] != b[k]:
                    go(a[k], b[k], f"{p}.{k}")
        elif isinstance(a, list) and isinstance(b, list) and len(a) == len(b) and not (a and isinstance(a[0], str)):
            for n, (x, y) in enumerate(zip(a, b)):
                if x != y:
                    go(x, y, f"{p}[{n}]")
        elif a != b:
            out.append(f"{p}: expected {str(a)[:160]} got {str(b)[:160]}")
    go(exp, got, path)
    return "; ".join(s[:400] for s in out[:4])
