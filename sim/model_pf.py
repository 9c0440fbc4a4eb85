"""Reference model of pfSense/OPNsense configurations (see model_asa for the idea).

`expected(st, now, tz_offset, fetch)` needs the instant of the load, the zone and
what every url table delivers (None: nothing, list of lines otherwise), or
fetch="off" when fetching was not opted in.
"""
import datetime
import html
import ipaddress
import random
import re
from xml.sax.saxutils import escape

from .model_asa import Reject, count, rhost4, rhost6, rnet4, rnet6

TEXTS = ["allow web", "a & b", "x < y > z", "\"quoted\" 'text'", "é ü ß", "R&D <lab>", "<script>alert(1)</script>", "\"><b onclick=x>y</b>", "</td></table> {{ 7*7 }}", "10.0.0.1", "", None, " blanks about  ", "rule #1 (old)", "&amp; entity"]


class Gen:
    def __init__(self, r, size=8, neg=0.0, v6=True, url=0, **kw):
        self.r, self.size, self.neg, self.v6, self.url = r, size, neg, v6, url
        self.st = []
        self.ifs = ["wan", "lan"]
        self.hosts = []
        self.ports = []
        self.used = set()

    def fresh(self, p):
        while True:
            n = p + self.r.choice(["", "_"]) + str(self.r.randrange(100))
            if self.used and self.r.random() < 0.3:
                n = self.r.choice(sorted(self.used)) + self.r.choice(["1", "_x", "A"])
                if self.r.random() < 0.2:
                    # or all but the case
                    n = self.r.choice(sorted(self.used)).swapcase()
            if n not in self.used and len(n) < 24:
                self.used.add(n)
                return n

    def emit(self, **s):
        self.st.append(s)

    def build(self):
        r = self.r
        self.emit(t="sys", hostname=r.choice(["pf", "pf1", "gw-%d" % r.randrange(100)]), domain=r.choice(["example.org", "corp.local", "localdomain"]),
                  root=r.choice(["pfsense", "pfsense", "opnsense"]), rev=r.choice([None, 1500000000]))
        odd = r.random() < 0.15
        self.s_if("wan", r.choice(["lan", "opt1", "floating", "LAN"]) if odd else "WAN")
        self.s_if("lan", r.choice(["wan", "opt1", "opt2", None]) if odd else r.choice(["LAN", "Office LAN", None]))
        for i in range(r.randrange(0, 4)):
            self.ifs.append("opt%d" % (i + 1))
            d = r.choice(["DMZ", "MGMT", "R&D", "Guest <x>", None])
            if odd:
                d = r.choice(["wan", "lan", "opt1", "opt2", "opt3", "floating", "DMZ", "LAN", None])
            elif r.random() < 0.5 or any(s.get("descr") == d for s in self.st if s["t"] == "if"):
                d = "NET%d" % i
            self.s_if("opt%d" % (i + 1), d)
        for _ in range(r.randrange(0, 6)):
            self.s_alias()
        for _ in range(self.url):
            n = self.fresh("U")
            self.emit(t="alias", n=n, type="urltable", descr=r.choice(TEXTS), v="http://lists%d.example.net/%s.txt" % (r.randrange(3), n))
            self.hosts.append(n)
        self.busy = r.choice(self.ifs) if r.random() < 0.2 else None
        for _ in range(max(3, self.size) + (r.choice([4, 12]) if self.busy else 0)):
            self.s_rule()
        if r.random() < 0.4:
            self.emit(t="dress", seed=r.randrange(1 << 30), p=r.choice([0.1, 0.3, 0.8]))
        if r.random() < 0.3:
            self.emit(t="layout", ungrouped=r.random() < 0.5, order=r.sample(range(5), 5), noise=r.sample(SECTIONS, r.randrange(3)))
        if any(s.get("ungrouped") for s in self.st):
            pass
        else:
          for _ in range(r.randrange(0, 4)):
            i = r.choice(self.ifs + ["floatingrules"]) if not self.busy or r.random() < 0.3 else self.busy
            self.emit(t="sep", i=i, row=r.randrange(16 if i == self.busy else 4), text=r.choice([t for t in TEXTS if t is not None]), color=r.choice(["bg-info", "bg-danger", "bg-warning"]))
        if r.random() < self.neg:
            self.st.insert(r.randrange(1, len(self.st) + 1), {"t": "raw", "v": r.choice(
                ["rule:<bogus>1</bogus>", "rule:<source><address>10.0.0.300</address></source>", "rule:<source><address>NOPE_ALIAS</address></source>",
                 "rule:<destination><network>opt99</network></destination>", "rule:<source><network>lanip</network></source>",
                 "rule:<source><network>(self)</network></source>", "rule:<source><network>WANip</network></source>",
                 "rule:<destination><network>guestip</network></destination>", "rule:<source><not/><network>lan</network></source>",
                 "rule:<destination><network>pppoe</network></destination>", "rule:<source><any/><bogus/></source>", "root:", "alias:<type>urltable_ports</type>",
                 "rule:<destination><any/><port>2000-100</port></destination>", "alias:<type>madeup</type>", "filter:<madeup/>", "xml:</oops>",
                 "alias:<type>port</type><address>300:20</address>", "alias:<type>network</type><address>10.0.0.0/99</address>"])})
        return self.st

    def s_if(self, tag, descr):
        r = self.r
        n = ipaddress.ip_network(rnet4(r))
        self.emit(t="if", tag=tag, port="em%d" % r.randrange(9), descr=descr,
                  ip=r.choice([None, "dhcp", [str(n.network_address), n.prefixlen], [str(n.network_address), n.prefixlen]]))

    def s_alias(self):
        r = self.r
        k = r.choice(["host", "host", "network", "port"])
        if k == "host":
            v = [r.choice([rhost4, rhost4, rhost6] if self.v6 else [rhost4])(r) if r.random() < 0.85 else "www%d.example.org" % r.randrange(9) for _ in range(count(r, 0, 5))]
        elif k == "network":
            v = [r.choice([rnet4, rnet4, rnet6] if self.v6 else [rnet4])(r) for _ in range(count(r, 0, 5))]
        else:
            v = []
            for _ in range(count(r, 0, 4)):
                a, b = sorted(r.sample([1, 9, 80, 99, 100, 443, 1000, 8080, 65535], 2))
                v.append("%d:%d" % (a, b) if r.random() < 0.3 else str(a))
        n = self.fresh({"host": "H", "network": "N", "port": "P"}[k])
        self.emit(t="alias", n=n, type=k, descr=r.choice(TEXTS), v=v)
        (self.ports if k == "port" else self.hosts).append(n)

    def node(self, ports):
        r = self.r
        k = r.random()
        if k < 0.25:
            h = ["any"]
        elif k < 0.45 and self.hosts:
            h = ["alias", r.choice(self.hosts)]
        elif k < 0.6:
            h = ["if", r.choice(self.ifs)]
        elif k < 0.8:
            h = ["host", r.choice([rhost4, rhost6] if self.v6 else [rhost4])(r)]
        else:
            h = ["net", r.choice([rnet4, rnet6] if self.v6 else [rnet4])(r)]
        p = None
        if ports and r.random() < 0.6:
            a, b = sorted(r.sample([1, 9, 80, 99, 100, 443, 1000, 8080, 65535], 2))
            p = ["alias", r.choice(self.ports)] if self.ports and r.random() < 0.4 else ["range", str(a), str(b)] if r.random() < 0.4 else ["port", str(a)]
        return h + [None] * (2 - len(h)), p

    def s_rule(self):
        r = self.r
        proto = r.choice([None, "tcp", "udp", "tcp/udp", "icmp", "esp"])
        fl = r.random() < (0.05 if self.busy else 0.2)
        ts = lambda: r.choice([None, 1400000000 + r.randrange(10 ** 8), 1500000000 + 86400 * r.randrange(4000)])
        self.emit(t="rule", type=r.choice(["pass", "block", "reject"]), proto=proto,
                  i=",".join(r.sample(self.ifs, r.randrange(1, len(self.ifs)))) if fl else self.busy if self.busy and r.random() < 0.8 else r.choice(self.ifs), floating=fl,
                  direction=r.choice(["in", "out", "any"]) if fl else None,
                  src=self.node(proto in ("tcp", "udp", "tcp/udp") and r.random() < 0.3), dst=self.node(proto in ("tcp", "udp", "tcp/udp")),
                  descr=r.choice(TEXTS), disabled=r.random() < 0.15, log=r.random() < 0.2, tracker=r.choice([None, str(r.randrange(10 ** 9))]),
                  statetype=r.choice([None, "keep state", "sloppy state"]), icmp=r.choice([None, "echoreq", "unreach"]) if proto == "icmp" else None,
                  created=ts(), updated=ts(), noise=[r.randrange(8), r.sample(NOISE, r.randrange(3))] if r.random() < 0.25 else None)


def gen(r, **kw):
    return Gen(r, **kw).build()


def x(s):
    """text as pfSense stores it: html escaped, then xml"""
    return escape(html.escape(s, quote=False))


def layout(st):
    return next((s for s in st if s["t"] == "layout"), {"ungrouped": False, "order": range(5)})


def ordered_rules(st):
    if layout(st)["ungrouped"]:
        return [s for s in st if s["t"] == "rule"]
    ids = []
    for s in st:
        if s["t"] == "rule":
            k = "floating" if s["floating"] else s["i"]
            if k not in ids:
                ids.append(k)
    return [s for k in ids for s in st if s["t"] == "rule" and ("floating" if s["floating"] else s["i"]) == k]


def _node(tag, n):
    h, p = n
    o = "<%s>" % tag
    o += "<any/>" if h[0] == "any" else "<network>%s</network>" % h[1] if h[0] == "if" else "<address>%s</address>" % h[1]
    if p:
        o += "<port>%s</port>" % ("%s-%s" % (p[1], p[2]) if p[0] == "range" else p[1])
    return o + "</%s>" % tag


NOISE = ["<tag>x</tag>", "<max>5</max>", "<os>Linux</os>", "<statetimeout/>", "<tagged/>", "<max-src-conn>9</max-src-conn>",
         "<max-src-nodes/>", "<max-src-states/>", "<quick>yes</quick>", "<direction>out</direction>", "<ipprotocol>inet6</ipprotocol>"]
SECTIONS = ["<nat><rule><source><any/></source><target>10.0.0.1</target></rule></nat>", "<dhcpd><lan><enable/></lan></dhcpd>",
            "<gateways/>", "<installedpackages><package><name>x</name></package></installedpackages>",
            "<ipsec><filter><rule><type>pass</type></rule></filter></ipsec>", "<theme>x</theme>"]


def render(st):
    sys = next((s for s in st if s["t"] == "sys"), {"hostname": "pf", "domain": "local", "root": "pfsense", "rev": None})
    raw = [s["v"].split(":", 1) for s in st if s["t"] == "raw"]
    root = "nosense" if any(a == "root" for a, b in raw) else sys["root"]
    lay = layout(st)
    parts = ["<system><hostname>%s</hostname><domain>%s</domain></system>\n" % (sys["hostname"], sys["domain"])]
    o = ["<interfaces>"]
    for s in st:
        if s["t"] == "if":
            o.append(" <%s><enable/><if>%s</if>" % (s["tag"], s["port"]))
            if s["descr"] is not None:
                o.append("  <descr>%s</descr>" % x(s["descr"]))
            if s["ip"] == "dhcp":
                o.append("  <ipaddr>dhcp</ipaddr><subnet/>")
            elif s["ip"]:
                o.append("  <ipaddr>%s</ipaddr><subnet>%d</subnet>" % tuple(s["ip"]))
            o.append(" </%s>" % s["tag"])
    o.append("</interfaces>\n")
    parts.append("\n".join(o))
    o = ["<aliases>"]
    for s in st:
        if s["t"] == "alias":
            o.append(" <alias><name>%s</name>%s<type>%s</type>" % (s["n"], "<descr>%s</descr>" % x(s["descr"]) if s["descr"] is not None else "", s["type"]))
            o.append("  <url>%s</url><updatefreq>1</updatefreq></alias>" % escape(s["v"]) if s["type"] == "urltable" else "  <address>%s</address></alias>" % " ".join(s["v"]))
    o += [" <alias><name>bad</name><descr/>%s</alias>" % (b if "<address>" in b else b + "<address>1</address>") for a, b in raw if a == "alias"]
    o.append("</aliases>\n")
    parts.append("\n".join(o))
    o = ["<filter>"]
    for s in ordered_rules(st):
        c = ["<id/>" + ("<tracker>%s</tracker>" % s["tracker"] if s["tracker"] else ""), "<type>%s</type><interface>%s</interface>" % (s["type"], s["i"])]
        if s["floating"]:
            c.append("<floating>yes</floating><direction>%s</direction><quick>yes</quick>" % s["direction"])
        if s["statetype"]:
            c.append("<statetype>%s</statetype>" % s["statetype"])
        if s["proto"]:
            c.append("<protocol>%s</protocol>" % s["proto"])
        if s["icmp"]:
            c.append("<icmptype>%s</icmptype>" % s["icmp"])
        c.append(_node("source", s["src"]))
        c.append(_node("destination", s["dst"]))
        c.append(("<disabled/>" if s["disabled"] else "") + ("<log/>" if s["log"] else "") + ("<descr>%s</descr>" % x(s["descr"]) if s["descr"] is not None else ""))
        for k in ("created", "updated"):
            if s[k] is not None:
                c.append("<%s><time>%d</time><username>admin</username></%s>" % (k, s[k], k))
        n = s.get("noise")
        if n:
            c = [c[i % len(c)] for i in range(n[0], n[0] + len(c))] + [b for b in n[1] if not (s["floating"] and "direction" in b)]
        o.append(" <rule>" + "\n  ".join(c) + "</rule>")
    o += [" <rule><type>pass</type><interface>wan</interface>%s</rule>" % b for a, b in raw if a == "rule"]
    o += [b for a, b in raw if a == "filter"]
    seps = [s for s in st if s["t"] == "sep"]
    if seps:
        o.append(" <separator>")
        for i in dict.fromkeys(s["i"] for s in seps):
            o.append("  <%s>" % i)
            for k, s in enumerate(s for s in seps if s["i"] == i):
                o.append("   <sep%d><row>fr%d</row><text>%s</text><color>%s</color><if>%s</if></sep%d>" % (k, s["row"], x(s["text"]), s["color"], i, k))
            o.append("  </%s>" % i)
        o.append(" </separator>")
    o.append("</filter>\n")
    parts.append("\n".join(o))
    parts.append("" if sys["rev"] is None else "<revision><time>%d</time><username>admin</username></revision>\n" % sys["rev"])
    parts = [parts[i] for i in lay["order"]] + [b + "\n" for b in lay.get("noise", [])] + [b for a, b in raw if a == "xml"]
    t = "<%s>\n<version>19.1</version>\n%s</%s>\n" % (root, "".join(parts), root)
    d = next((s for s in st if s["t"] == "dress"), None)
    return "<?xml version=\"1.0\"?>\n" + (dress(t, random.Random(d["seed"]), d["p"]) if d else t)


XC = ["<!-- <rule> -->", "<!--]]>-->", "<!-- hostname asa\ninterface Vlan1 -->", "<?note <filter> ?>"]


def dress(t, r, p):
    """the same document, written differently: CDATA, character references, comments, attributes, empty elements"""
    def leaf(m):
        tag, v = m.group(1), m.group(2)
        if r.random() > p:
            return m.group(0)
        k = r.randrange(5)
        if k == 0:
            v = "<![CDATA[%s]]>" % html.unescape(v)
        elif k == 1:
            v = "".join(r.choice(["&#%d;", "&#x%x;"]) % ord(c) if r.random() < 0.3 else {"&": "&amp;", "<": "&lt;", ">": "&gt;"}.get(c, c) for c in html.unescape(v))
        elif k == 2:
            i = r.choice([0, len(v)]) if "&" in v else r.randrange(len(v) + 1)
            v = v[:i] + r.choice(XC) + v[i:]
        elif k == 3:
            return "<%s %s>%s</%s>" % (tag, r.choice(["version=\"1\"", "uuid='0-1'", "a=\"&lt;\" b='2'"]), v, tag)
        else:
            i = r.choice([0, len(v)]) if "&" in v else r.randrange(len(v) + 1)
            v = v[:i] + "<![CDATA[]]>" + v[i:]
        return "<%s >%s</%s\n>" % (tag, v, tag) if r.random() < 0.1 else "<%s>%s</%s>" % (tag, v, tag)

    def empty(m):
        tag = m.group(1)
        if r.random() > p:
            return m.group(0)
        return r.choice(["<%s />", "<%s></%s>", "<%s a=\"1\"/>", "<%s></%s >"] + (["<%s>1</%s>", "<%s> </%s>", "<%s>yes</%s>"] if tag in ("any", "log", "disabled", "enable") else [])).replace("%s", tag)

    def gap(m):
        return m.group(1) + (r.choice(["", "\n", " \t", "\r\n"]) + r.choice(XC) if r.random() < p / 3 else "")
    t = re.sub(r"<([a-z][\w-]*)>([^<]+)</\1>", leaf, t)
    t = re.sub(r"<([a-z][\w-]*)/>", empty, t)
    t = re.sub(r"(</[\w-]+>)(?=\s*<[a-z])", gap, t)
    return r.choice(["", "", "", XC[0] + "\n"]) + t


def table_lines(lines):
    """addresses a url table names"""
    out = []
    for l in lines:
        l = l.strip()
        try:
            out.append(["net", str(ipaddress.ip_network(l)), None] if "/" in l else ["host", str(ipaddress.ip_address(l)), None])
        except ValueError:
            pass
    return out


def expected(st, now=1700000000, tz=0, fetch="off"):
    try:
        return _expected(st, now, tz, fetch)
    except Reject:
        return None


def _expected(st, now, tz, fetch):
    m = {"hostname": "", "domainname": "", "version": None, "names": [], "interfaces": {},
         "objects": {"network": {}, "service": {}, "time": {}},
         "groups": {"network": {}, "service": {}, "port": {}, "icmp": {}, "protocol": {}},
         "rules": [], "nat": {"1": [], "2": [], "3": []}, "access_groups": {}, "routes": []}
    N, P = m["groups"]["network"], m["groups"]["port"]
    if any(s["t"] == "raw" for s in st):
        raise Reject()
    sys = next((s for s in st if s["t"] == "sys"), {"hostname": "pf", "domain": "local"})
    m["hostname"] = "%s.%s" % (sys["hostname"], sys["domain"])
    txt = lambda s: html.unescape(html.escape(s, quote=False)) if s else ""
    for s in st:
        if s["t"] == "alias":
            d = {"description": txt(s["descr"])}
            if s["type"] == "host":
                d["items"] = []
                for a in s["v"]:
                    try:
                        d["items"].append(["host", str(ipaddress.ip_address(a)), None])
                    except ValueError:
                        d["items"].append(["any"])
                N[s["n"]] = d
            elif s["type"] == "network":
                d["items"] = [["net", str(ipaddress.ip_network(a, strict=False)), None] for a in s["v"]]
                N[s["n"]] = d
            elif s["type"] == "urltable":
                if fetch == "off":
                    d["items"] = [["any"]]
                else:
                    f = fetch.get(s["n"])
                    d["items"] = [] if f is None else table_lines(f)
                N[s["n"]] = d
            else:
                d["items"] = [["range"] + p.split(":") if ":" in p else ["port", "eq", p] for p in s["v"]]
                d["protocol"] = "any"
                P[s["n"]] = d
    ifm = {}
    tags = {"floating"} | {s["tag"] for s in st if s["t"] == "if"}
    for s in st:
        if s["t"] == "if":
            tag = s["tag"]
            opt = tag.startswith("opt")
            alias = tag
            d = txt(s["descr"])
            if opt and d and d not in tags and d not in m["interfaces"]:
                alias = d
            ifm[tag] = alias
            m["interfaces"][alias] = {
                "nameif": s["port"] if s["ip"] in (None, "dhcp") else None, "description": tag if opt else txt(s["descr"]),
                "addresses": [str(ipaddress.ip_interface("%s/%d" % tuple(s["ip"])))] if isinstance(s["ip"], list) else [],
                "ag": {}, "sw": None, "routes": []}
    zone = datetime.timezone(datetime.timedelta(seconds=tz))
    day = lambda t: datetime.datetime.fromtimestamp(t, zone).strftime("%Y-%m-%d")

    def node(n):
        h, p = n
        if h[0] == "any":
            a = ["any"]
        elif h[0] == "alias":
            if h[1] not in N:
                raise Reject()
            a = ["ng", h[1]]
        elif h[0] == "if":
            if h[1] not in ifm:
                raise Reject()
            a = ["if", ifm[h[1]]]
        elif h[0] == "host":
            a = ["host", str(ipaddress.ip_address(h[1])), None]
        else:
            a = ["net", str(ipaddress.ip_network(h[1], strict=False)), None]
        if p and p[0] == "alias":
            if p[1] not in P:
                p = ["port", p[1]]
            else:
                p = ["pog", p[1]]
        if p and p[0] == "port":
            p = ["port", "eq", p[1]]
        return a, p

    count = {}
    for s in ordered_rules(st):
        src, sp = node(s["src"])
        dst, dp = node(s["dst"])
        o = {"xref": s["tracker"] or -1}
        if s["floating"]:
            o["floating"] = ["iface", [ifm.get(i, i) for i in s["i"].split(",")], s["direction"]]
            rid = "floating"
        else:
            rid = ifm.get(s["i"], s["i"])
        if s["disabled"]:
            o["inactive"] = True
        if s["log"]:
            o["log"] = []
        if s["statetype"] and s["statetype"] != "keep state":
            o["statetype"] = s["statetype"]
        c = s["created"] if s["created"] is not None else now
        u = s["updated"] if s["updated"] is not None else now
        k = count.get(rid, 0)
        count[rid] = k + 1
        head = [[txt(q["text"]), q["color"]] for q in st if q["t"] == "sep" and q["row"] == k and
                ("floating" if q["i"] == "floatingrules" else ifm.get(q["i"], q["i"])) == rid]
        m["rules"].append({"id": rid, "ext": None, "mode": "permit" if s["type"] == "pass" else "deny", "proto": ["p", s["proto"] or "any"],
                           "src": src, "sport": sp, "dst": dst, "dport": dp,
                           "remark": [txt(s["descr"]), "c: %s (%d days) / m: %s (%d days)" % (day(c), (now - c) // 86400, day(u), (now - u) // 86400)],
                           "opts": o, "icmp": ["icmp", s["icmp"], None] if s["icmp"] else None, "head": head or None})
    return m
