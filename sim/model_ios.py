"""Reference model of Cisco IOS configurations (see model_asa for the idea)."""
import ipaddress

from . import glue

from .model_asa import focused, PORTS, PROTOS, ICMPS, TEXTS, V4POOL, V6POOL, Reject, rhost4, rhost6, rnet4, rnet6, port, service, _svc, count, icmpspec, remarks

IGNORED = ["!", "aaa new-model", "boot-start-marker\nboot-end-marker", "clock timezone CET 1", "no ip http server",
           "router ospf 1\n network 10.0.0.0 0.0.0.255 area 0\n passive-interface default", "ip cef", "ip classless",
           "snmp-server community x RO", "logging 10.0.0.5", "vlan 10\n name users", "spanning-tree mode rapid-pvst",
           "username a privilege 15 secret 5 x", "banner motd ^C\n access-list 101 permit ip any any\nhello\n^C",
           "banner motd #\n hostname evil\n#", "crypto isakmp policy 1\n encr aes\n hash sha", "redundancy\n mode sso",
           "ip name-server 10.0.0.3", "ipv6 unicast-routing", "service timestamps log datetime", "enable secret 5 abc",
           "route-map RM permit 10\n match ip address 101", "ip prefix-list P seq 5 permit 10.0.0.0/8", ""]
# at least one of every kind of statement that says nothing about rules
IGNORED_ALL = r"""aaa authentication login default local
alias exec sib show ip interface brief
appfw policy-name P\n application http
archive\n log config\n  hidekeys
arp 10.0.0.1 0000.0000.0001 ARPA
banner motd ^C hello ^C
banner motd ^Chi ^^C
banner motd éhello cat 3é
banner motd $ip access-list$
boot system flash x
bridge irb
call-home\n contact x
class-map match-all X\n match access-group 101
clock summer-time CEST recurring
control-plane\n service-policy input X
crypto pki trustpoint T\n enrollment selfsigned
crypto pki certificate chain T\n certificate 01\n  30820201\n  \tquit
cts logging verbose
Current configuration : 1234 bytes
define interface-range X Vlan 1
diagnostic bootup level minimal
dialer-list 1 protocol ip permit
dial-peer cor custom
dot11 ssid X\n vlan 1
encryption x
errdisable recovery cause all
file prompt quiet
firewall multiple-vlan-interfaces
hw-module ip
isdn switch-type x
key chain K\n key 1\n  key-string x
license udi pid X sn Y
lldp run
login block-for 5 attempts 3 within 5
mac-address-table aging-time 10
memory-size iomem 10
mls qos
mmi polling-interval 60
multilink bundle-name authenticated
no ip domain lookup
no service pad
platform ip x
policy-map X\n class Y\n  police 8000
port-channel load-balance src-dst-ip
power redundancy-mode redundant
resource policy
rmon event 1 log
rtr 1
security passwords min-length 8
switch 1 provision x
snmp mib persist event
snmp-server user x
system mtu routing 1500
transceiver type all\n monitoring
vpdn enable
vrf definition X\n address-family ipv4
vtp mode transparent
wism module 1
ip as-path access-list 1 permit .*
ip inspect name X tcp
ip domain lookup
ip http secure-server
ip nat inside source list 101 interface Vlan1 overload
ip subnet-zero
ip dhcp excluded-address 10.0.0.1 10.0.0.9
ip dhcp pool X\n network 10.0.0.0 255.255.255.0\n default-router 10.0.0.1\n!
ip dhcp pool X\n network 10.0.0.0 255.255.255.0\n default-router 10.0.0.1
ip tcp synwait-time 5
ip scp server enable
ip ssh version 2
ip ssh pubkey-chain\n username x
ip forward-protocol nd
ip ips notify x
ip flow-cache timeout active 1
ip flow-export version 9
ip vrf X\n rd 1:1
ip multicast-routing
ip accounting-threshold 8
ip host x 10.0.0.1
ip ftp source-interface Vlan1
ip default-gateway 10.0.0.1
ip sla 1\n icmp-echo 10.0.0.1
ip slb probe X\n interval 5
ip flow-aggregation cache as\n enabled
ip flow-top-talkers\n top 5
ip pim rp-address 10.0.0.1
ip routing
ip tftp source-interface Vlan1
ip route profile
ipv6 nd x
ipv6 route ::/0 2001:db8::1
ipv6 prefix-list X seq 5 permit 2001:db8::/32""".replace("\\n", "\x00").split("\n")
IGNORED_ALL = [x.replace("\x00", "\n") for x in IGNORED_ALL]
ALIASES = ["FastEthernet0/%d", "GigabitEthernet0/%d", "Vlan%d", "Loopback%d", "Port-channel%d", "GigabitEthernet1/0/%d"]


class Gen:
    def __init__(self, r, size=10, neg=0.0, v6=True, focus=None, **kw):
        self.focus = focus
        self.r, self.size, self.neg, self.v6 = r, size, neg, v6
        self.st = []
        self.ng = []
        self.sg = []
        self.pog = []
        self.ig = []
        self.prg = []
        self.ifs = []
        self.near = []          # gateways
        self.acls = []
        self.used = set()
        self.num = {}

    def fresh(self, p):
        while True:
            n = p + self.r.choice(["", "-", "_", "."]) + str(self.r.randrange(100))
            if self.used and self.r.random() < 0.3:
                n = self.r.choice(sorted(self.used)) + self.r.choice(["1", "-x", "_2"])
                if self.r.random() < 0.15:
                    # or all but the case
                    n = self.r.choice(sorted(self.used)).swapcase()
            if n not in self.used and len(n) < 24:
                self.used.add(n)
                return n

    def emit(self, **s):
        self.st.append(s)

    def portspec(self):
        r = self.r
        if r.random() < 0.3:
            a, b = sorted(r.sample([1, 9, 80, 99, 100, 443, 1000, 8080, 65535], 2))
            return ["range", str(a), str(b)]
        return [r.choice(["eq", "gt", "lt", "neq"]), r.choice(PORTS) if r.random() < 0.4 else str(r.choice([0, 22, 80, 443, 65535, r.randrange(65536)]))]

    def wild(self):
        r = self.r
        k = r.random()
        if k < 0.6:
            n = ipaddress.ip_network(rnet4(r))
            return ["w", str(n.network_address), str(n.hostmask)]
        a = int(ipaddress.ip_address(rhost4(r)))
        w = r.choice([0x0000FE00, 0x00FE00FF, 0xFF, 0x00000001, 0x0000FF00, 0x00FF00FF, 0x80000000, 0, 0xFFFFFFFF,
                      0xFE, 0xFFFE, 0x7FFFFFFF, 0xFD, 0x1FE, 0xFFFFFFFE, (1 << r.randrange(1, 33)) - 1 & ~(1 << r.randrange(32)), r.randrange(1 << 32)])
        return ["w", str(ipaddress.ip_address(a & ~w & 0xFFFFFFFF if r.random() < 0.7 else a)), str(ipaddress.ip_address(w))]

    def build(self):
        r = self.r
        self.emit(t="version", v="12.%d" % r.randrange(9) if r.random() < 0.8 else "15.2(4)M3")
        self.emit(t="hostname", v=r.choice(["rt", "rt1", "core-rt", "x_y", "sw%d" % r.randrange(1000)]))
        if r.random() < 0.6:
            self.emit(t="domain", v=r.choice(["example.org", "example.com", "corp.local"]))
        for f in (self.s_if, self.s_if, self.s_ng, self.s_ng, self.s_sg, self.s_route):
            if r.random() < 0.75:
                f()
        for f in (self.s_pog, self.s_ig, self.s_prg):
            if r.random() < 0.3:
                f()
        for _ in range(self.size):
            r.choice([self.s_acl, self.s_acl, self.s_acl, self.s_num, self.s_num, self.s_num, self.s_acl6 if self.v6 else self.s_num,
                      self.s_route, self.s_ng, self.s_sg, self.s_if, self.s_ign, r.choice([self.s_pog, self.s_ig, self.s_prg, self.s_ign])])()
            if self.focus is not None and r.random() < 0.3:
                focused(self)
        if r.random() < self.neg:
            bad = ["access-list 101 permit tcp any object-group NOPE_1", "access-list 101 permit tcp any any eq 65536",
                   "access-list 101 permit ip any 10.0.0.256 0.0.0.255", "access-list 5 permit 10.0.0.0 0.0.0.256",
                   "ip access-list extended BADACL\n permit tcp any range 100 20 any", "nonsense statement",
                   "ip access-list extended BADACL\n permit ip object-group NOPE any", "object-group network BADG\n host 10.0.0.300",
                   "object-group network BADG\n group-object BADG_NOPE", "access-list 101 permit 256 any any",
                   "ip route 10.0.0.1 255.255.0.0 10.0.0.1", "ipv6 access-list BAD6\n sequence 5 permit tcp 2001:zz::/32 any"]
            k = max(1, r.randrange(len(self.st) + 1))
            c = [i for i, s in enumerate(self.st) if s["t"] in ("ng", "sg", "pog", "ig", "prg", "acl", "nstd", "next", "acl6")]
            x = None
            if c and r.random() < 0.4:
                i = r.choice(c)
                x = r.choice([glue.spoil, glue.mutate])(r, render_stmt(self.st[i]))
            if x is not None:
                self.st[i] = {"t": "raw", "v": x}
            else:
                self.st.insert(k, {"t": "raw", "v": r.choice(bad)})
        if r.random() < 0.5:
            self.emit(t="end", v=r.choice(["end", "line vty 0 4\n access-class 5 in\nend"]))
        return self.st

    def s_ign(self):
        if self.r.random() < 0.3:
            return self.s_banner()
        self.emit(t="ign", v=self.r.choice(IGNORED if self.r.random() < 0.5 else IGNORED_ALL))

    def s_banner(self):
        r = self.r
        d = r.choice(["^C", "^C", "^", "#", "$", "%", "@", "~", "*", "]", "|", "\\", "\"", "'", "!", "é", "x", "Z", "9", "."])
        words = ["hello", "no access", "access-list 7 permit any", "#1", "50$", "^C", "^", "[x]", "a|b", "c:\\", "it's", "1.2", "hostname x", "*** LAB ***", "\n", "\n!\n", "é"]
        m = "".join(r.choice(words) + r.choice(["", " ", "\n"]) for _ in range(r.randrange(4))).replace(d, "")
        if d == "^":
            m = "+" + m
        elif d == "^C":
            m += " " * m.endswith("^")
        self.emit(t="ign", v="banner motd %s%s%s" % (d, m.replace(d, ""), d))

    def s_if(self):
        r = self.r
        a = r.choice(ALIASES) % r.randrange(12)
        if a in self.ifs:
            return
        self.ifs.append(a)
        det = []
        if r.random() < 0.5:
            det.append(["desc", r.choice(TEXTS)])
        k = r.random()
        if k < 0.25:
            det.append(["swmode", r.choice(["trunk", "access"])])
            if r.random() < 0.8:
                det.append(["trunk", "set", self.vl()])
                while r.random() < 0.5:
                    det.append(["trunk", r.choice(["add", "add", "set"]), self.vl()])
        else:
            n = ipaddress.ip_network(r.choice(V4POOL[1:9]))
            if r.random() < 0.8:
                det.append(["ip", str(n.network_address + 1), str(n.netmask), False])
                if r.random() < 0.2:
                    n2 = "10.77.%d." % r.randrange(9)
                    det.append(["ip", n2 + "1", "255.255.255.0", True])
                    self.near.append(n2 + "77")
            if self.v6 and r.random() < 0.3:
                det.append(["ip6", "2001:db8:7::1", 64])
            if self.v6 and r.random() < 0.1:
                det.append(["ll", "fe80::1"])
            for d in ("in", "out"):
                if r.random() < 0.35:
                    det.append(["ag", r.choice(self.acls or ["FOO", "101"]) if r.random() < 0.5 else r.choice(["101", "FOO", "10"]), d])
            if self.v6 and r.random() < 0.2:
                det.append(["tf", r.choice(["V6", "FOO6"]), r.choice(["in", "out"])])
        if r.random() < 0.4:
            det.append(["other", r.choice(["speed auto", "duplex full", "no shutdown", "shutdown", "no ip redirects", "ip helper-address 10.0.0.9", "ip nat inside", "no ip address", "ipv6 enable", "standby 1 ip 10.0.0.3"])])
        self.emit(t="if", alias=a, det=det)

    def vl(self):
        r = self.r
        out = []
        for _ in range(count(r, 1, 4)):
            v = r.randrange(1, 4000)
            out.append([v] if r.random() < 0.6 else [v, v + r.randrange(1, 50)])
        return out

    def s_ng(self):
        r = self.r
        items = []
        for _ in range(count(r, 1, 5)):
            k = r.random()
            if k < 0.15 and self.ng:
                items.append(["ng", r.choice(self.ng)])
            elif k < 0.5:
                items.append(["host", rhost4(r)])
            elif k < 0.6 and self.v6:
                items.append(["host", rhost6(r)])
            elif k < 0.7 and self.v6:
                items.append(["net", rnet6(r)])
            else:
                items.append(["net", rnet4(r)])
        n = self.fresh("G")
        self.emit(t="ng", n=n, desc=r.choice(TEXTS) if r.random() < 0.3 else None, items=items)
        self.ng.append(n)

    def s_sg(self):
        r = self.r
        items = []
        for _ in range(count(r, 1, 5)):
            k = r.random()
            if k < 0.15 and self.sg:
                items.append(["sg", r.choice(self.sg)])
            elif k < 0.35:
                items.append(["icmp", r.choice([None, icmpspec(r), icmpspec(r)])])
            elif k < 0.5:
                items.append([r.choice([p for p in PROTOS if p not in ("tcp", "udp")])])
            else:
                w = r.choice(["s", "d", "d", "sd", ""])
                items.append([r.choice(["tcp", "udp"]), self.portspec() if "s" in w else None, self.portspec() if "d" in w else None])
        n = self.fresh("SG")
        self.emit(t="sg", n=n, desc=r.choice(TEXTS) if r.random() < 0.3 else None, items=items)
        self.sg.append(n)

    # the groups of ports, protocols and icmp types the ASA has
    def s_pog(self):
        r = self.r
        items = []
        for _ in range(count(r, 1, 5)):
            if self.pog and r.random() < 0.2:
                items.append(["pog", r.choice(self.pog)])
            else:
                p = self.portspec()
                while p[0] not in ("eq", "range"):
                    p = self.portspec()
                items.append(p)
        n = self.fresh("PG")
        self.emit(t="pog", n=n, p=r.choice(["tcp", "udp", "tcp-udp"]), desc=r.choice(TEXTS) if r.random() < 0.3 else None, items=items)
        self.pog.append(n)

    def s_ig(self):
        r = self.r
        items = [["ig", r.choice(self.ig)] if self.ig and r.random() < 0.2 else ["icmp", r.choice(ICMPS + ["3", "255"])] for _ in range(count(r, 1, 4))]
        n = self.fresh("IG")
        self.emit(t="ig", n=n, desc=r.choice(TEXTS) if r.random() < 0.3 else None, items=items)
        self.ig.append(n)

    def s_prg(self):
        r = self.r
        items = [["prg", r.choice(self.prg)] if self.prg and r.random() < 0.2 else ["p", r.choice(PROTOS + ["89"])] for _ in range(count(r, 1, 4))]
        n = self.fresh("RG")
        self.emit(t="prg", n=n, desc=r.choice(TEXTS) if r.random() < 0.3 else None, items=items)
        self.prg.append(n)

    def s_route(self):
        r = self.r
        n = rnet4(r) if r.random() < 0.7 else "0.0.0.0/0"
        gw = ["if", r.choice(self.ifs)] if self.ifs and r.random() < 0.4 else ["ip", r.choice(["10.1.0.9", "192.168.1.1", "10.1.2.77", rhost4(r)] + self.near)]
        self.emit(t="route", net=n, gw=gw)

    def host(self, named=True):
        r = self.r
        k = r.random()
        if k < 0.25:
            return ["any"]
        if k < 0.5:
            return ["host", rhost4(r)]
        if k < 0.6 and self.ng:
            return ["ng", r.choice(self.ng)]
        return self.wild()

    def ropts(self, std=False):
        r = self.r
        o = []
        if r.random() < 0.25:
            o.append(["log", r.choice([None, "cookie"])])
        if std:
            return o
        if r.random() < 0.1:
            o.append(["time-range", "TR%d" % r.randrange(9)])
        if r.random() < 0.1:
            o.append(["dscp", "ef"])
        if r.random() < 0.1:
            o.append(["fragments", None])
        if r.random() < 0.1:
            o.append(["precedence", r.choice(["critical", "flash"])])
        if r.random() < 0.1:
            o.append(["tos", "max-throughput"])
        if r.random() < 0.1:
            o = [x for x in o if x[0] != "log"] + [["log-input", r.choice([None, "cookie"])]]
        # "log [word]" takes the next word, the device prints it last
        return [x for x in o if not x[0].startswith("log")] + [x for x in o if x[0].startswith("log")]

    def erule(self, numbered):
        r = self.r
        s = dict(mode=r.choice(["permit", "deny"]), icmp=None, sport=None, dport=None, remark=remarks(r),
                 seq=None, opts=self.ropts())
        if k5(r):
            s["p"] = ["p", "icmp"]
            if r.random() < 0.6:
                s["icmp"] = ["icmp"] + icmpspec(r)
                if self.ig and r.random() < 0.3:
                    s["icmp"] = ["ig", r.choice(self.ig)]
        elif self.prg and r.random() < 0.1:
            s["p"] = ["prg", r.choice(self.prg)]
        elif self.sg and r.random() < 0.15:
            s["p"] = ["sg", r.choice(self.sg)]
        elif r.random() < 0.2:
            s["p"] = ["p", r.choice(PROTOS + ["89", "0", "255"])]
        else:
            s["p"] = ["p", r.choice(["tcp", "udp", "ip"])]
            if s["p"][1] != "ip":
                for q in ("sport", "dport"):
                    if r.random() < (0.25 if q == "sport" else 0.6):
                        s[q] = self.portspec() if not self.pog or r.random() < 0.8 else ["pog", r.choice(self.pog)]
                if s["p"][1] == "tcp" and r.random() < 0.15:
                    s["opts"].insert(0, ["established", None])
        s["src"], s["dst"] = self.host(), self.host()
        return s

    def s_acl(self):
        r = self.r
        n = self.fresh("A") if r.random() < 0.8 else str(r.randrange(100, 199))
        if n in self.acls:
            return
        self.acls.append(n)
        if r.random() < 0.3:
            rules = [dict(mode=r.choice(["permit", "deny"]), src=self.shost(True), remark=remarks(r),
                          opts=self.ropts(True), seq=None) for _ in range(count(r, 0, 4))]
            typ = "standard"
        else:
            rules = [self.erule(False) for _ in range(count(r, 0, 5))]
            typ = "extended"
        if r.random() < 0.4:
            base = r.choice([0, 0, 90, 12340, 2147483600])
            for i, x in enumerate(rules):
                x["seq"] = 10 * (i + 1) + base
        self.emit(t="acl", n=n, type=typ, rules=rules)

    def shost(self, named):
        r = self.r
        return r.choice([["any"], ["host", rhost4(r)], ["bare", rhost4(r)], self.wild(), self.wild()])

    def s_num(self):
        r = self.r
        if r.random() < 0.35:
            self.emit(t="nstd", id=str(r.choice([1, 5, 10, 99, 1300, 1399])), mode=r.choice(["permit", "deny"]), src=self.shost(False),
                      opts=self.ropts(True), remark=remarks(r))
        else:
            s = self.erule(True)
            s.update(t="next", id=str(r.choice([100, 101, 150, 199, 2000, 2699])))
            self.emit(**s)

    def s_acl6(self):
        r = self.r
        n = self.fresh("V")
        rules = []
        base = r.choice([0, 0, 90, 12340, 4294967200])
        for i in range(count(r, 1, 4)):
            h = lambda: r.choice([["any"], ["host", rhost6(r)], ["net", rnet6(r)]])
            s = dict(mode=r.choice(["permit", "deny"]), src=h(), dst=h(), sport=None, dport=None, opts=[], seq=10 * (i + 1) + base)
            k = r.random()
            if k < 0.3:
                s["p"] = ["p", "icmp"]
                if r.random() < 0.7:
                    s["opts"] = [[r.choice(["nd-ns", "nd-na", "router-solicitation", "echo-reply"]), None]]
            else:
                s["p"] = ["p", r.choice(["tcp", "udp", "ipv6", "esp"])]
                if s["p"][1] in ("tcp", "udp"):
                    for q in ("sport", "dport"):
                        if r.random() < 0.4:
                            s[q] = self.portspec()
                if r.random() < 0.5:
                    s["opts"] = r.sample([["log", None], ["log-input", None], ["dscp", "ef"], ["fragments", None], ["routing", None], ["flow-label", "x"],
                                          ["time-range", "T"], ["dest-option-type", "y"], ["mobility", None], ["mobility-type", "5"],
                                          ["routing-type", "7"]], r.choice([1, 1, 2, 4]))
            rules.append(s)
        self.emit(t="acl6", n=n, rules=rules)
        self.acls.append(n)


def k5(r):
    return r.random() < 0.2


def gen(r, **kw):
    return Gen(r, **kw).build()


def _h(h):
    k = h[0]
    if k == "w":
        return "%s %s" % (h[1], h[2])
    if k == "host":
        return "host " + h[1]
    if k == "bare":
        return h[1]
    if k == "ng":
        return "object-group " + h[1]
    if k == "net":
        n = ipaddress.ip_network(h[1])
        return f"{n.network_address} {n.netmask}" if n.version == 4 else h[1]
    return "any"


def _o(opts):
    return "".join(" " + o[0] + (" " + o[1] if o[1] else "") for o in opts)


def _ext(s):
    ports = lambda p: " object-group " + p[1] if p[0] == "pog" else " " + " ".join(p)
    o = "%s %s %s" % (s["mode"], ("object-group " if s["p"][0] in ("sg", "prg") else "") + s["p"][1], _h(s["src"]))
    if s["sport"]:
        o += ports(s["sport"])
    o += " " + _h(s["dst"])
    if s["dport"]:
        o += ports(s["dport"])
    if s.get("icmp"):
        o += " object-group " + s["icmp"][1] if s["icmp"][0] == "ig" else " " + " ".join(x for x in s["icmp"][1:] if x)
    return o + _o(s["opts"])


def render_stmt(s):
    t = s["t"]
    if t == "version":
        L = ["version " + s["v"]]
    elif t == "hostname":
        L = ["hostname " + s["v"]]
    elif t == "domain":
        L = ["ip domain name " + s["v"]]
    elif t in ("ign", "raw", "end"):
        L = [s["v"]]
    elif t == "if":
        L = ["interface " + s["alias"]]
        for k, *v in s["det"]:
            if k == "desc":
                L.append(" description " + v[0])
            elif k == "ip":
                L.append(" ip address %s %s%s" % (v[0], v[1], " secondary" if v[2] else ""))
            elif k == "ip6":
                L.append(" ipv6 address %s/%d" % tuple(v))
            elif k == "ll":
                L.append(" ipv6 address %s link-local" % v[0])
            elif k == "ag":
                L.append(" ip access-group %s %s" % tuple(v))
            elif k == "tf":
                L.append(" ipv6 traffic-filter %s %s" % tuple(v))
            elif k == "swmode":
                L.append(" switchport mode " + v[0])
            elif k == "trunk":
                L.append(" switchport trunk allowed vlan " + ("add " if v[0] == "add" else "") + ",".join("-".join(map(str, x)) for x in v[1]))
            else:
                L.append(" " + v[0])
    elif t == "ng":
        L = ["object-group network " + s["n"]] + ([" description " + s["desc"]] if s["desc"] else [])
        L += [" group-object " + h[1] if h[0] == "ng" else " " + _h(h) for h in s["items"]]
    elif t == "sg":
        L = ["object-group service " + s["n"]] + ([" description " + s["desc"]] if s["desc"] else [])
        L += [" group-object " + v[1] if v[0] == "sg" else " " + _svc(v) for v in s["items"]]
    elif t in ("pog", "ig", "prg"):
        head, kind = {"pog": ("service", "port"), "ig": ("icmp-type", "icmp"), "prg": ("protocol", "protocol")}[t]
        L = ["object-group %s %s%s" % (head, s["n"], " " + s["p"] if t == "pog" else "")] + ([" description " + s["desc"]] if s["desc"] else [])
        L += [" group-object " + v[1] if v[0] == t else " %s-object %s" % (kind, " ".join(v if t == "pog" else v[1:])) for v in s["items"]]
    elif t == "route":
        n = ipaddress.ip_network(s["net"])
        L = ["ip route %s %s %s" % (n.network_address, n.netmask, s["gw"][1])]
    elif t == "acl":
        L = ["ip access-list %s %s" % (s["type"], s["n"])]
        for x in s["rules"]:
            q = "%d " % x["seq"] if x["seq"] else ""
            L += [" " + ("%d " % (x["seq"] - 5) if x["seq"] else "") + "remark " + m for m in x["remark"]]
            L.append(" " + q + (_ext(x) if s["type"] == "extended" else "%s %s%s" % (x["mode"], _h(x["src"]), _o(x["opts"]))))
    elif t == "acl6":
        L = ["ipv6 access-list " + s["n"]] + [" sequence %d %s" % (x["seq"], _ext(x)) for x in s["rules"]]
    elif t == "nstd":
        L = ["access-list %s remark %s" % (s["id"], m) for m in s["remark"]] + ["access-list %s %s %s%s" % (s["id"], s["mode"], _h(s["src"]), _o(s["opts"]))]
    elif t == "next":
        L = ["access-list %s remark %s" % (s["id"], m) for m in s["remark"]] + ["access-list %s %s" % (s["id"], _ext(s))]
    else:
        raise ValueError(t)
    return "\n".join(L) + "\n"


def render(st):
    return "".join(render_stmt(s) for s in st)


def expected(st):
    try:
        return _expected(st)
    except Reject:
        return None


def _expected(st):
    m = {"hostname": "", "domainname": "", "version": None, "names": [], "interfaces": {},
         "objects": {"network": {}, "service": {}, "time": {}},
         "groups": {"network": {}, "service": {}, "port": {}, "icmp": {}, "protocol": {}},
         "rules": [], "nat": {"1": [], "2": [], "3": []}, "access_groups": {}, "routes": []}
    G = m["groups"]["network"]
    S = m["groups"]["service"]
    P = m["groups"]["port"]
    I = m["groups"]["icmp"]
    R = m["groups"]["protocol"]
    nets = {}

    def need(t, n):
        if n not in t:
            raise Reject(n)
        return n

    def addr(h):
        k = h[0]
        if k in ("host", "bare"):
            return ["host", str(ipaddress.ip_address(h[1])), None]
        if k == "net":
            return ["net", str(ipaddress.ip_network(h[1])), None]
        if k == "ng":
            return ["ng", need(G, h[1])]
        if k == "w":
            w = int(ipaddress.ip_address(h[2]))
            if w & (w + 1) == 0:
                return ["net", str(ipaddress.ip_network((h[1], 32 - w.bit_length()), strict=False)), None]
            return ["wild", h[1], h[2]]
        return ["any"]

    def rule(id, x, ext=None, v6=False):
        if "p" in x:
            p = list(x["p"])
            if p[0] != "p":
                need({"sg": S, "prg": R}[p[0]], p[1])
            if x.get("icmp") and x["icmp"][0] == "ig":
                need(I, x["icmp"][1])
            for q in ("sport", "dport"):
                if x[q] and x[q][0] == "pog":
                    need(P, x[q][1])
            dst, sp, dp = addr(x["dst"]), port(x["sport"]), port(x["dport"])
        else:
            p, dst, sp, dp = ["p", "ip"], ["any"], None, None
        o = {a: b for a, b in x["opts"]}
        if v6:
            o["sequence"] = str(x["seq"])
        m["rules"].append({"id": id, "ext": ext, "mode": x["mode"], "proto": p, "src": addr(x["src"]), "sport": sp, "dst": dst, "dport": dp,
                           "remark": list(x.get("remark", [])), "opts": o, "icmp": x.get("icmp"), "head": None})

    for s in st:
        t = s["t"]
        if t == "version":
            m["version"] = " " + s["v"]
        elif t == "hostname":
            m["hostname"] = s["v"]
        elif t == "domain":
            m["domainname"] = s["v"]
        elif t == "raw":
            raise Reject(s["v"])
        elif t == "ign":
            pass
        elif t == "end":
            break
        elif t == "if":
            d = {"nameif": None, "description": None, "addresses": [], "ag": {}, "sw": None, "routes": []}
            nets[s["alias"]] = []
            for k, *v in s["det"]:
                if k == "desc":
                    d["description"] = " ".join([v[0]])
                elif k in ("ip", "ip6", "ll"):
                    i = ipaddress.ip_interface("%s/%s" % (v[0], v[1] if k != "ll" else 128))
                    d["addresses"].append(str(i))
                    nets[s["alias"]].append(i.network)
                elif k in ("ag", "tf"):
                    d["ag"][("ip-" if k == "ag" else "ipv6-") + v[1]] = v[0]
                elif k in ("swmode", "trunk"):
                    d["sw"] = d["sw"] or {"mode": "", "trunk": None}
                    if k == "swmode":
                        d["sw"]["mode"] = v[0]
                    else:
                        l = [[str(y) for y in x] for x in v[1]]
                        d["sw"]["trunk"] = l if v[0] == "set" else (d["sw"]["trunk"] or []) + l
            m["interfaces"][s["alias"]] = d
            for k, n in d["ag"].items():
                m["access_groups"].setdefault(n, []).append([s["alias"], k.split("-")[1]])
        elif t == "ng":
            items = [addr(h) for h in s["items"]]
            G[s["n"]] = {"description": s["desc"], "items": items}
        elif t == "sg":
            S[s["n"]] = {"description": s["desc"], "items": [["sg", need(S, v[1])] if v[0] == "sg" else service(v) for v in s["items"]]}
        elif t == "pog":
            P[s["n"]] = {"description": s["desc"], "protocol": s["p"], "items": [["pog", need(P, v[1])] if v[0] == t else port(v) for v in s["items"]]}
        elif t == "ig":
            I[s["n"]] = {"description": s["desc"], "items": [["ig", need(I, v[1])] if v[0] == t else ["icmp", v[1], None] for v in s["items"]]}
        elif t == "prg":
            R[s["n"]] = {"description": s["desc"], "items": [["prg", need(R, v[1])] if v[0] == t else ["p", v[1]] for v in s["items"]]}
        elif t == "route":
            if s["gw"][0] == "if" and s["gw"][1] not in m["interfaces"]:
                continue
            m["routes"].append([s["net"], "if:" + s["gw"][1] if s["gw"][0] == "if" else s["gw"][1]])
        elif t == "acl":
            for x in s["rules"]:
                rule(s["n"], x, ext=s["type"])
        elif t == "acl6":
            for x in s["rules"]:
                rule(s["n"], x, v6=True)
        elif t in ("nstd", "next"):
            rule(s["id"], s)
    rs = {a: set() for a in m["interfaces"]}
    for n, (net, gw) in enumerate(m["routes"]):
        if gw.startswith("if:"):
            rs[gw[3:]].add(n)
        else:
            for a, l in nets.items():
                if any(ipaddress.ip_address(gw) in x for x in l):
                    rs[a].add(n)
    for a, l in rs.items():
        m["interfaces"][a]["routes"] = sorted(m["routes"][n] for n in l)
    return m
