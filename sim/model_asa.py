"""Reference model of ASA/FWSM configurations.

A configuration is a JSON list of statements.  `render` writes the text a device
would print, `expected` computes - independently of acltk - what a loaded
configuration has to state, or None when the text is invalid (undefined
references, values out of range) and has to be rejected.
"""
import ipaddress

from . import glue

PORTS = """xdmcp www whois who uucp time tftp telnet talk tacacs syslog sunrpc ssh sqlnet snmptrap snmp smtp sip
secureid-udp rtsp rsh rpc rip radius-acct radius pptp pop3 pop2 pim-auto-rp pcanywhere-status pcanywhere-data ntp
non500-isakmp nntp nfs netbios-ssn netbios-ss netbios-ns netbios-dgm nameserver mobile-ip lpd lotusnotes login ldaps
ldap kshell klogin kerberos isakmp irc imap4 ident https http hostname h323 gopher ftp-data ftp finger exec echo domain
dnsix discard daytime ctiqbe cmd citrix-ica chargen bootps bootpc biff bgp aol""".split()
PROTOS = "udp tcp snp pptp pim pcp ospf nos ipsec ipinip ip ipv6 igrp igmp icmpv6 gre esp eigrp ahp ah".split()
ICMPS = """unreachable traceroute timestamp-request timestamp-reply time-exceeded source-quench router-solicitation
router-renumbering router-advertisement redirect reassembly-timeout protocol-unreachable port-unreachable
parameter-problem packet-too-big net-unreachable neighbor-solicitation neighbor-redirect neighbor-advertisement
mobile-redirect membership-report membership-reduction membership-query mask-request mask-reply information-request
information-reply host-unreachable host-unknown host-redirect echo-request echo-reply echo
administratively-prohibited alternate-address conversion-error destination-unreachable ttl-exceeded source-route-failed
precedence-unreachable option-missing no-room-for-option network-unknown net-tos-unreachable net-tos-redirect net-redirect
host-tos-unreachable host-tos-redirect host-precedence-unreachable host-isolated general-parameter-problem
dod-net-prohibited dod-host-prohibited address-mask-request address-mask-reply""".split()
DAYS = "Monday Tuesday Wednesday Thursday Friday Saturday Sunday".split()
MONTHS = ("January February March April May June July August September October November December").split()
LOGS = [["debugging"], ["disable"], ["default"], ["notifications"], ["warnings"], ["critical"], ["0"], ["3"], ["7"],
        ["interval", "300"], ["debugging", "interval", "60"], ["6", "interval", "1"], []]
IGNORED = ["!", ": Saved", "asdm image disk0:/asdm.bin", "aaa authentication ssh console LOCAL",
           "crypto ipsec security-association lifetime seconds 28800", "logging enable\nlogging asdm informational",
           "mtu inside 1500", "no asdm history enable", "route outside 0.0.0.0 0.0.0.0 10.0.0.254 1",
           "class-map inspection_default\n match default-inspection-traffic",
           "policy-map global_policy\n class inspection_default\n  inspect dns", "telnet timeout 5", "ssh timeout 5",
           "timeout xlate 3:00:00", "threat-detection basic-threat", "service-policy global_policy global",
           "names", "pager lines 24", "ntp server 10.0.0.1", "passwd xxx encrypted", "enable password x encrypted",
           "dynamic-access-policy-record DfltAccessPolicy", "prompt hostname context", "",
           "same-security-traffic permit intra-interface", "snmp-server enable traps", "username x password y",
           "webvpn\n enable outside\n anyconnect enable", "group-policy p internal\n",
           "Cryptochecksum:0123456789abcdef"]

# at least one of every kind of statement that says nothing about rules
IGNORED_ALL = r"""aaa-server RAD protocol radius\n reactivation-mode depletion
aaa authentication http console LOCAL
app-agent heartbeat interval 1000 retry-count 3
arp-inspection inside enable
arp timeout 14400
auth-prompt prompt hello
boot system disk0:/asa914-k8.bin
call-home\n profile CiscoTAC-1\n  no active
class-map type inspect http match-all X\n match request uri
clock timezone CEST 1
console timeout 0
command-alias exec h help
crypto map M 1 match address A\n set peer 10.0.0.1
dhcpd address 10.0.0.5-10.0.0.9 inside
dhcprelay timeout 60
dns-guard
dns domain-lookup outside
dns server-group DefaultDNS\n name-server 10.0.0.1
dynamic-access-policy-record X\n network-acl A
eou allow clientless
established tcp 0 permitto tcp 0
failover
failover lan unit primary
firewall transparent
flow-export destination inside 10.0.0.1 2055
fragment size 200 inside
ftp mode passive
global (outside) 1 interface
group-policy P attributes\n vpn-tunnel-protocol ssl-client
hpm topN enable
http 10.0.0.0 255.255.255.0 inside
icmp unreachable rate-limit 1 burst-size 1
ipv6 route outside ::/0 2001:db8::1
ip verify reverse-path interface outside
license smart\n feature tier standard
ldap attribute-map M\n map-name x y
mac-address-table static inside 0000.0000.0001
mac-address auto
management-access inside
monitor-interface inside
multicast-routing
nac-policy P nac-framework\n default acl A
nat-control
nat-control 
pager lines 24
password-policy minimum-length 8
privilege cmd level 3 mode exec command perfmon
resource acl-partition 12
router eigrp 1\n network 10.0.0.0
service-module 1 keepalive-timeout 4
service resetoutside
sla monitor 1\n type echo protocol ipIcmpEcho 10.0.0.1 interface outside
snmp-map M\n deny version 1
smtp-server 10.0.0.1
ssh 10.0.0.0 255.0.0.0 inside
ssh stricthostkeycheck
ssl encryption aes128-sha1
static (inside,outside) 10.0.0.1 10.0.0.2 netmask 255.255.255.255
sysopt connection tcpmss 1350
tcp-map T\n check-retransmission
terminal width 80
tftp-server inside 10.0.0.1 x
tls-proxy maximum-session 10
tunnel-group-map default-group G
tunnel-group G ipsec-attributes\n ikev1 pre-shared-key *****
user-identity default-domain LOCAL
username u attributes\n service-type admin
url-cache dst 128
virtual telnet 10.0.0.1
vpdn group G ppp authentication pap
vpn-group-policy x
vpn load-balancing\n redirect-fqdn enable
xlate-bypass
xlate per-session deny tcp any4 any4
no call-home reporting anonymous
no nat-control
: end""".replace("\\n", "\x00").split("\n")
IGNORED_ALL = [x.replace("\x00", "\n") for x in IGNORED_ALL]

V4POOL = ["10.0.0.0/8", "10.1.0.0/16", "10.1.2.0/24", "10.1.2.128/25", "10.2.0.0/16", "192.168.0.0/16",
          "192.168.4.0/22", "172.16.0.0/12", "172.16.9.0/30", "198.51.100.0/24"]
V6POOL = ["2001:db8::/32", "2001:db8:1::/48", "2001:db8:1:2::/64", "2001:db8:ffff::/48", "fd00::/8", "fd12:3456::/32"]


class Reject(Exception):
    pass


def rhost4(r):
    n = ipaddress.ip_network(r.choice(V4POOL))
    k = r.choice([1, 2, 5, n.num_addresses - 2, r.randrange(n.num_addresses)])
    return str(n.network_address + k)


def rhost6(r):
    n = ipaddress.ip_network(r.choice(V6POOL))
    return str(n.network_address + r.choice([1, 2, 5, 255, 65536]))


def rnet4(r):
    n = ipaddress.ip_network(r.choice(V4POOL))
    if r.random() < 0.4:
        p = r.randrange(n.prefixlen, 33)
        n = ipaddress.ip_network((int(n.network_address) + r.randrange(n.num_addresses), p), strict=False)
    return str(n)


def rnet6(r):
    return r.choice(V6POOL)


def mask4(net):
    return str(ipaddress.ip_network(net).netmask)


TEXTS = ["hello world", "permit tcp any any", "x", "a  b   c", "access for <dept> & co", "<script>alert(1)</script>", "\"><b onclick=x>y</b>", "</td></table> {{ 7*7 }}", "&lt;i&gt; %s", "object network A", "é ü ß",
         "\"quoted\" 'text'", "rule-1/2 (old)", "no", "ends in blanks  ", "10.0.0.1", "host any", "end"]


def focused(g):
    """one kind of statement more often than others"""
    l = sorted(n for n in dir(g) if n.startswith("s_"))
    getattr(g, l[int(g.focus * len(l))])()


def count(r, a, b):
    """a few, and now and then many"""
    return r.randrange(17, 60) if r.random() < 0.03 else r.randrange(a, b)


def remarks(r):
    l = [r.choice(TEXTS) for _ in range(r.choice([0, 0, 0, 1, 2]))]
    return l + [r.choice(l)] if l and r.random() < 0.15 else l


def icmpspec(r):
    return [r.choice(ICMPS) if r.random() < 0.5 else str(r.choice([0, 3, 8, 255, r.randrange(256)])),
            None if r.random() < 0.4 else str(r.choice([0, 0, 1, 13, 255, r.randrange(256)]))]


class Gen:
    """Random statements; keeps the names defined so far so that references are mostly valid."""

    def __init__(self, r, size=12, nat=True, neg=0.0, v6=True, webtype=True, focus=None):
        self.focus = focus
        self.r = r
        self.size = size
        self.nat_ok = nat
        self.neg = neg
        self.v6 = v6
        self.webtype = webtype
        self.d = {k: [] for k in ("name", "no", "so", "ng", "sg", "pog", "ig", "prg", "tr", "if", "acl")}
        self.namev = {}
        self.sov = {}
        self.used = set()
        self.st = []

    def fresh(self, prefix):
        r = self.r
        while True:
            if self.used and r.random() < 0.35:
                # share a prefix with an existing name
                n = r.choice(sorted(self.used)) + r.choice(["1", "-x", "_2", "A", ".b", "+"] if prefix != "n" else ["1", "-x", "_2", "A", ".b"])
                if r.random() < 0.15:
                    # or all but the case
                    n = r.choice(sorted(self.used)).swapcase()
                if prefix == "n" and not (n[0].isalpha() and n.replace("+", "") == n):
                    continue
            else:
                n = prefix + r.choice(["", "-", "_", "."]) + "%d" % r.randrange(100)
            if n.lower().startswith("any") or len(n) > 24:
                continue
            if n not in self.used:
                self.used.add(n)
                return n

    def port(self):
        r = self.r
        return r.choice(PORTS) if r.random() < 0.4 else str(r.choice([0, 1, 22, 53, 80, 443, 1023, 8080, 65535, r.randrange(65536)]))

    def portspec(self):
        r = self.r
        if r.random() < 0.35:
            if r.random() < 0.2:
                return ["range", r.choice(PORTS), r.choice(PORTS)]
            a, b = sorted(r.sample([1, 9, 80, 99, 100, 443, 1000, 8080, 20000, 65535], 2))
            return ["range", str(a), str(b)]
        return [r.choice(["eq", "gt", "lt", "neq"]), self.port()]

    def host_item(self, kinds):
        """a denotation of addresses: [kind, ...]"""
        r = self.r
        opts = []
        for k in kinds:
            if k in ("no", "ng") and not self.d[k]:
                continue
            if k in ("hname", "nname") and not self.d["name"]:
                continue
            if k in ("h6", "n6", "any6") and not self.v6:
                continue
            opts.append(k)
        k = r.choice(opts)
        if k == "h4":
            return ["host", rhost4(r)]
        if k == "h6":
            return ["host", rhost6(r)]
        if k in ("n4", "n6"):
            x = r.random()
            if x < 0.03:
                return ["net", "0.0.0.0/0" if k == "n4" else "::/0"]
            if x < 0.07:
                # host bits set
                return ["net", "%s/%d" % ((rhost4(r), r.choice([8, 16, 23, 24, 31])) if k == "n4" else (rhost6(r), r.choice([32, 64, 127])))]
            return ["net", rnet4(r) if k == "n4" else rnet6(r)]
        if k == "hname":
            return ["hname", r.choice(self.d["name"])]
        if k == "nname":
            n = r.choice(self.d["name"])
            v = ipaddress.ip_address(self.namev[n]).version
            return ["nname", n, r.choice([8, 16, 24, 25, 30]) if v == 4 else r.choice([32, 48, 64])]
        if k == "no":
            return ["no", r.choice(self.d["no"])]
        if k == "ng":
            return ["ng", r.choice(self.d["ng"])]
        if k == "if":
            return ["if", r.choice([i for i in self.d["if"] if "/" not in i] or ["inside"])]
        return [k]

    def emit(self, **s):
        self.st.append(s)

    def build(self):
        r = self.r
        if r.random() < 0.5:
            self.emit(t="version", v="%s Version %d.%d(%d)" % (r.choice(["ASA", "ASA", "FWSM"]), r.randrange(7, 10), r.randrange(5), r.randrange(9)))
        self.emit(t="hostname", v=r.choice(["fw", "fw1", "edge-fw", "x.y", "fw_%d" % r.randrange(1000)]))
        if r.random() < 0.7:
            self.emit(t="domain", v=r.choice(["example.org", "example.com", "corp.local", "d%d.example" % r.randrange(1000)]))
        steps = [self.s_if, self.s_if, self.s_name, self.s_no, self.s_no, self.s_no, self.s_ng, self.s_ng, self.s_so,
                 self.s_sg, self.s_pog, self.s_ig, self.s_prg, self.s_tr]
        for f in steps:
            if r.random() < 0.75:
                f()
        for _ in range(max(3, self.size)):
            x = r.random()
            if x < 0.62:
                self.s_rule()
            elif x < 0.74 and self.nat_ok:
                self.s_nat()
            elif x < 0.80:
                self.emit(t="ign", v=r.choice(IGNORED if r.random() < 0.5 else IGNORED_ALL))
            elif x < 0.815:
                self.s_void()
            elif x < 0.835:
                self.s_chain()
            elif x < 0.855:
                self.s_ag()
            else:
                r.choice(steps)()
            if self.focus is not None and r.random() < 0.3:
                focused(self)
        if r.random() < 0.5:
            self.s_ag()
        if r.random() < 0.06:
            # ends in a text
            r.choice([self.s_name, self.s_if, self.s_so, self.s_no, self.s_nat])()
        if r.random() < self.neg:
            self.corrupt()
        return self.st

    def desc(self, p=0.4):
        return self.r.choice([t for t in TEXTS]) if self.r.random() < p else None

    def s_if(self):
        r = self.r
        alias = "Vlan%d" % r.randrange(1, 400) if r.random() < 0.6 else "GigabitEthernet0/%d" % r.randrange(9)
        if any(s["t"] == "if" and s["alias"] == alias for s in self.st):
            return
        nameif = None
        if r.random() < 0.85:
            nameif = r.choice(["inside", "outside", "dmz", "mgmt", "if%d" % r.randrange(50)])
            if r.random() < 0.2:
                nameif = r.choice([nameif.upper(), nameif.capitalize()])
            if nameif.lower() in {x.lower() for x in self.d["if"]}:
                nameif = None
        det = []
        if nameif:
            det.append(["nameif", nameif])
            self.d["if"].append(nameif)
        else:
            self.d["if"].append(alias)
        if r.random() < 0.4:
            det.append(["desc", r.choice(TEXTS)])
        if r.random() < 0.5:
            n = ipaddress.ip_network(r.choice(V4POOL[1:9]))
            det.append(["ip", str(n.network_address + 1), str(n.netmask), r.choice([None, str(n.network_address + 2)])])
        if self.v6 and r.random() < 0.3:
            det.append(["ip6", "2001:db8:7::1", 64, r.choice([None, "2001:db8:7::2"])])
        if r.random() < 0.5:
            det.append(["other", r.choice(["security-level 100", "no ip address", "no shutdown", "shutdown",
                                            "ospf cost 10", "management-only", "ip address dhcp setroute", "ipv6 address autoconfig"])])
        r.shuffle(det)
        self.emit(t="if", alias=alias, det=det)

    def s_name(self):
        r = self.r
        n = self.fresh("n")
        a = rhost6(r) if self.v6 and r.random() < 0.3 else rhost4(r)
        self.emit(t="name", n=n, a=a, desc=self.desc(0.3))
        self.d["name"].append(n)
        self.namev[n] = a

    def s_no(self):
        r = self.r
        n = self.fresh("O")
        k = r.choice(["host", "host", "subnet", "range", "fqdn", "none"] + (["host6", "subnet6", "range6"] if self.v6 else []))
        if k == "host":
            v = ["host", rhost4(r)]
        elif k == "host6":
            v = ["host", rhost6(r)]
        elif k == "subnet":
            v = ["subnet", rnet4(r)]
        elif k == "subnet6":
            v = ["subnet", rnet6(r)]
        elif k == "range":
            a = ipaddress.ip_address(rhost4(r))
            v = ["range", str(a), str(a + r.choice([1, 3, 9, 255, 1000]))]
        elif k == "range6":
            a = ipaddress.ip_address(rhost6(r))
            v = ["range", str(a), str(a + r.choice([1, 3, 9, 255]))]
        elif k == "fqdn":
            v = ["fqdn", r.choice([None, "v4", "v6"]) if self.v6 else r.choice([None, "v4"]), "www%d.example.org" % r.randrange(9)]
        else:
            v = None
        nat = None
        if v and self.nat_ok and len(self.d["if"]) >= 1 and r.random() < 0.25:
            nat = self.onat()
        self.emit(t="no", n=n, v=v, nat=nat, desc=self.desc(0.3) if v else None)
        self.d["no"].append(n)

    def ifpair(self):
        r = self.r
        c = self.d["if"] + ["any"]
        return [r.choice(c), r.choice(c)]

    def onat(self):
        r = self.r
        kinds = ["addr", "addr", "if"]
        if self.d["no"]:
            kinds += ["no", "pool"]
        if self.d["ng"]:
            kinds += ["ng"]
        dyn = r.random() < 0.5
        k = r.choice(kinds)
        if k == "no":
            m = ["no", r.choice(self.d["no"])]
        elif k == "ng":
            m = ["ng", r.choice(self.d["ng"])]
        elif k == "addr":
            m = ["addr", rhost6(r), r.choice([None, 96, 64])] if self.v6 and r.random() < 0.3 else ["addr", rhost4(r), None]
        elif k == "if":
            m = ["if", r.random() < 0.3]
        else:
            m = ["pool", ["no", r.choice(self.d["no"])] if not self.d["ng"] or r.random() < 0.5 else ["ng", r.choice(self.d["ng"])],
                 [o for o in ("round-robin", "extended", "flat", "flat include-reserve") if r.random() < 0.4]]
        fb = None
        if k != "if" and r.random() < 0.3:
            fb = r.choice([False, True])
        svc = None
        if not dyn and r.random() < 0.4:
            svc = r.choice([["dns"], [r.choice(["tcp", "udp"]), self.port(), self.port()]])
        opts = [o for o in (["route-lookup", "no-proxy-arp", "dns"] if dyn else ["route-lookup", "no-proxy-arp"]) if r.random() < 0.2]
        return {"ifs": self.ifpair(), "type": "dynamic" if dyn else "static", "m": m, "fb": fb, "svc": svc, "opts": opts}

    def s_nat(self):
        r = self.r
        if not self.d["if"] or not self.d["no"]:
            return
        if r.random() < 0.35:
            # second block of an existing object, as the device prints it
            cand = [s["n"] for s in self.st if s["t"] == "no" and not s.get("nat")]
            cand = [c for c in cand if not any(s["t"] == "nonat" and s["n"] == c for s in self.st)]
            if cand:
                self.emit(t="nonat", n=r.choice(cand), nat=self.onat())
            return
        node = lambda: (["no", r.choice(self.d["no"])] if not self.d["ng"] or r.random() < 0.6 else ["ng", r.choice(self.d["ng"])])
        typ = r.choice(["static", "dynamic"])
        real = ["any"] if r.random() < 0.2 else node()
        fb = None
        if typ == "static":
            m = r.choice([node(), node(), ["if", r.random() < 0.3], ["any"]])
        else:
            m = r.choice([node(), node(), ["if", r.random() < 0.3], ["pool", node(), [o for o in ("round-robin", "extended", "flat", "flat include-reserve") if r.random() < 0.3]]])
            if m[0] != "if" and r.random() < 0.4:
                fb = r.choice([False, True])
        dst = None
        if r.random() < 0.5:
            dst = [r.choice([node(), node(), ["if", r.random() < 0.3], ["any"]]), node()]
        svc = None
        if r.random() < 0.5:
            which = r.choice("sd")
            pool = [n for n, v in self.sov.items() if v == which]
            while len(pool) < 2 and r.random() < 0.8:
                self.s_so(which)
                pool = [n for n, v in self.sov.items() if v == which]
            if pool:
                svc = [r.choice(pool), r.choice(pool)]
        opts = [o for o in ("net-to-net", "dns", "unidirectional", "no-proxy-arp", "route-lookup", "inactive") if r.random() < 0.15]
        self.emit(t="nat", ifs=self.ifpair(), pos=r.choice([None, None, "after-auto", "after-object", "after-auto 4"]), type=typ,
                  real=real, m=m, fb=fb, dst=dst, svc=svc, opts=opts, desc=self.desc(0.2))

    def s_so(self, which=None):
        r = self.r
        n = self.fresh("S")
        k = 1 if which else r.random()
        if k < 0.2:
            v = [r.choice(["icmp", "icmp6"]), r.choice([None, icmpspec(r), icmpspec(r)])]
        elif k < 0.3:
            v = [str(r.randrange(256))]
        else:
            w = which or r.choice(["s", "d", "s", "d", "sd", ""])
            v = [r.choice(["tcp", "udp", "tcp-udp"]), self.portspec() if "s" in w else None, self.portspec() if "d" in w else None]
            if len(w) == 1:
                self.sov[n] = w
        self.emit(t="so", n=n, v=v, desc=self.desc(0.3))
        self.d["so"].append(n)

    def s_ng(self):
        r = self.r
        n = self.fresh("G")
        items = [self.host_item(["h4", "h4", "h6", "n4", "n4", "n6", "hname", "nname", "no", "no", "ng"]) for _ in range(count(r, 0 if r.random() < 0.1 else 1, 6))]
        self.emit(t="ng", n=n, desc=self.desc(0.3), items=items)
        self.d["ng"].append(n)

    def s_sg(self):
        r = self.r
        n = self.fresh("SG")
        items = []
        for _ in range(count(r, 1, 5)):
            k = r.random()
            if k < 0.15 and self.d["so"]:
                items.append(["so", r.choice(self.d["so"])])
            elif k < 0.3 and self.d["sg"]:
                items.append(["sg", r.choice(self.d["sg"])])
            elif k < 0.5:
                items.append([r.choice(["icmp", "icmp6"]), r.choice([None, icmpspec(r), icmpspec(r)])])
            elif k < 0.6:
                items.append([r.choice([p for p in PROTOS if p not in ("tcp", "udp")])])
            elif k < 0.65:
                items.append([str(r.randrange(256))])
            else:
                w = r.choice(["s", "d", "d", "sd", ""])
                items.append([r.choice(["tcp", "udp", "tcp-udp"]), self.portspec() if "s" in w else None, self.portspec() if "d" in w else None])
        self.emit(t="sg", n=n, desc=self.desc(0.3), items=items)
        self.d["sg"].append(n)

    def s_pog(self):
        r = self.r
        n = self.fresh("PG")
        items = []
        for _ in range(count(r, 1, 5)):
            if self.d["pog"] and r.random() < 0.2:
                items.append(["pog", r.choice(self.d["pog"])])
            elif r.random() < 0.3:
                a, b = sorted(r.sample([1, 9, 80, 99, 100, 443, 1000, 8080, 65535], 2))
                items.append(["range", str(a), str(b)])
            else:
                items.append(["eq", self.port()])
        self.emit(t="pog", n=n, p=r.choice(["tcp", "udp", "tcp-udp"]), desc=self.desc(0.3), items=items)
        self.d["pog"].append(n)

    def s_ig(self):
        r = self.r
        n = self.fresh("IG")
        items = [["ig", r.choice(self.d["ig"])] if self.d["ig"] and r.random() < 0.2 else
                 ["icmp", r.choice(ICMPS) if r.random() < 0.6 else str(r.randrange(256))] for _ in range(count(r, 1, 4))]
        self.emit(t="ig", n=n, desc=self.desc(0.3), items=items)
        self.d["ig"].append(n)

    def s_prg(self):
        r = self.r
        n = self.fresh("PR")
        items = [["prg", r.choice(self.d["prg"])] if self.d["prg"] and r.random() < 0.2 else
                 ["p", r.choice(PROTOS) if r.random() < 0.7 else str(r.randrange(256))] for _ in range(count(r, 1, 4))]
        self.emit(t="prg", n=n, desc=self.desc(0.3), items=items)
        self.d["prg"].append(n)

    def s_tr(self):
        r = self.r
        n = self.fresh("T")
        tm = lambda: [r.randrange(24), r.randrange(60)]
        dt = lambda: tm() + [r.randrange(1, 29), r.choice(MONTHS), r.randrange(1995, 2036)]
        items = []
        for _ in range(r.randrange(0, 3)):
            k = r.randrange(3)
            if k == 0:
                items.append(["abs", r.choice([None, dt()]), dt()])
            elif k == 1:
                items.append(["day", r.choice(["weekdays", "weekend", "daily"]), tm(), tm()])
            else:
                items.append(["per", r.sample(DAYS, r.choice([1, 1, 2, 3])), tm(), r.choice([None, r.choice(DAYS)]), tm()])
        self.emit(t="tr", n=n, items=items)
        self.d["tr"].append(n)

    def s_rule(self):
        r = self.r
        if not self.d["acl"] or r.random() < 0.2:
            a = r.choice(["inside_in", "outside_in", "dmz-in", "A", "acl%d" % r.randrange(30), "in.out+x"])
            self.d["acl"].append(a)
        a = r.choice(self.d["acl"])
        remark = remarks(r)
        k = r.random()
        hk = ["any", "any", "any4", "any6", "h4", "h4", "n4", "n4", "h6", "n6", "hname", "nname", "no", "ng", "ng", "if"]
        if k < 0.08:
            self.emit(t="std", id=a, mode=r.choice(["permit", "deny"]), src=self.host_item(["any", "h4", "n4"]), remark=remark)
            return
        if k < 0.13 and self.webtype:
            if r.random() < 0.5:
                self.emit(t="web", id=a, mode=r.choice(["permit", "deny"]), url=r.choice(["any", "http://x.example/a?b=1", "https://*.example.org"]),
                          opts=self.opts(), remark=remark)
            else:
                self.emit(t="web", id=a, mode=r.choice(["permit", "deny"]), url=None, dst=self.host_item(["any", "h4", "n4"]),
                          dport=self.portspec() if r.random() < 0.5 else None, opts=self.opts(), remark=remark)
            return
        if k < 0.15:
            self.emit(t="eth", id=a, v="permit bpdu", remark=remark)
            return
        s = dict(t="rule", id=a, mode=r.choice(["permit", "deny"]), remark=remark, icmp=None, sport=None, dport=None)
        if k < 0.30:
            s["p"] = ["p", r.choice(["icmp", "icmp6"])]
            x = r.random()
            if x < 0.45:
                s["icmp"] = ["icmp"] + icmpspec(r)
            elif x < 0.6 and self.d["ig"]:
                s["icmp"] = ["ig", r.choice(self.d["ig"])]
        else:
            x = r.random()
            if x < 0.1 and self.d["prg"]:
                s["p"] = ["prg", r.choice(self.d["prg"])]
            elif x < 0.2 and self.d["sg"]:
                s["p"] = ["sg", r.choice(self.d["sg"])]
            elif x < 0.3 and self.d["so"]:
                s["p"] = ["so", r.choice(self.d["so"])]
            elif x < 0.36:
                s["p"] = ["p", str(r.randrange(256))]
            elif x < 0.5:
                s["p"] = ["p", r.choice(PROTOS)]
            else:
                s["p"] = ["p", r.choice(["tcp", "udp", "ip"])]
                if s["p"][1] != "ip":
                    for q in ("sport", "dport"):
                        if r.random() < (0.25 if q == "sport" else 0.6):
                            s[q] = self.portspec() if not self.d["pog"] or r.random() < 0.75 else ["pog", r.choice(self.d["pog"])]
        s["src"] = self.host_item(hk)
        s["dst"] = self.host_item(hk)
        s["opts"] = self.opts()
        self.emit(**s)

    def opts(self):
        r = self.r
        o = {}
        if r.random() < 0.25:
            o["log"] = r.choice(LOGS)
        if self.d["tr"] and r.random() < 0.2:
            o["time-range"] = r.choice(self.d["tr"])
        if r.random() < 0.1:
            o["inactive"] = True
        return o

    def s_chain(self):
        """a rule by way of groups of groups of a single member"""
        r = self.r
        if r.random() < 0.5:
            self.s_no()
            x = ["no", self.d["no"][-1]]
            if r.random() < 0.5 and self.st[-1]["v"] and self.st[-1]["v"][0] != "fqdn" and not self.st[-1]["nat"]:
                self.st[-1]["v"] = ["fqdn", r.choice(["v4", "v6", "v4", None]) if self.v6 else r.choice([None, "v4"]), "www%d.example.org" % r.randrange(9)]
        else:
            x = self.host_item(["h4", "n4", "h6", "n6", "hname", "nname"])
        for _ in range(r.choice([1, 2, 2, 3])):
            n = self.fresh("G")
            self.emit(t="ng", n=n, desc=None, items=[x])
            self.d["ng"].append(n)
            x = ["ng", n]
        if not self.d["acl"]:
            self.d["acl"].append("A")
        l = [x, self.host_item(["any", "any", "h4", "n4", "any4"])]
        r.shuffle(l)
        self.emit(t="rule", id=r.choice(self.d["acl"]), mode=r.choice(["permit", "deny"]), remark=[], icmp=None, sport=None, dport=None, p=["p", "ip"], src=l[0], dst=l[1], opts={})

    def s_ag(self):
        r = self.r
        named = [n for s in self.st if s["t"] == "if" for k, *v in s["det"] if k == "nameif" for n in v]
        if named and self.d["acl"]:
            self.emit(t="ag", name=r.choice(self.d["acl"]), dir=r.choice(["in", "out"]), iface=r.choice(named))

    def s_void(self):
        """statements which are read, but say nothing that is kept"""
        r = self.r
        named = [n for s in self.st if s["t"] == "if" for k, *v in s["det"] if k == "nameif" for n in v]
        opts = ["access-list %s remark %s\n!" % (r.choice(self.d["acl"] or ["x"]), r.choice(TEXTS))]
        if self.d["acl"]:
            opts.append("access-group %s global" % r.choice(self.d["acl"]))
        if named:
            opts.append("nat (%s) %d 10.0.0.0 255.0.0.0" % (r.choice(named), r.randrange(9)))
        self.emit(t="ign", v=r.choice(opts))

    def corrupt(self):
        """make exactly one statement invalid (or try to)"""
        r = self.r
        bad = [
            {"t": "raw", "v": "access-list a extended permit tcp object NOPE_%d any" % r.randrange(9)},
            {"t": "raw", "v": "access-list a extended permit tcp any object-group NOPE_%d" % r.randrange(9)},
            {"t": "raw", "v": "access-list a extended permit tcp any host nope.example"},
            {"t": "raw", "v": "access-list a extended permit tcp any any eq 65536"},
            {"t": "raw", "v": "access-list a extended permit tcp any any range 443 80"},
            {"t": "raw", "v": "access-list a extended permit tcp any any range 100 20"},
            {"t": "raw", "v": "access-list a extended permit 256 any any"},
            {"t": "raw", "v": "access-list a extended permit ip any 10.0.0.256 255.255.255.0"},
            {"t": "raw", "v": "access-list a extended permit ip any 10.0.0.0 255.0.255.0"},
            {"t": "raw", "v": "access-list a extended permit ip any any time-range NOPE"},
            {"t": "raw", "v": "access-list a extended permit icmp any any 256"},
            {"t": "raw", "v": "access-list a extended permit icmp any any object-group NOPE"},
            {"t": "raw", "v": "object network BADO\n range 10.0.0.9 10.0.0.1"},
            {"t": "raw", "v": "object network BADO\n subnet 10.0.0.0 255.0.255.0"},
            {"t": "raw", "v": "object network BADO\n host 2001:zz::1"},
            {"t": "raw", "v": "object service BADS\n service tcp source eq 70000"},
            {"t": "raw", "v": "object service BADS\n service tcp destination range 9 5"},
            {"t": "raw", "v": "object service BADS\n service icmp 300"},
            {"t": "raw", "v": "object service BADS\n service 999"},
            {"t": "raw", "v": "object-group network BADG\n network-object object NOPE"},
            {"t": "raw", "v": "object-group network BADG\n group-object BADG_NOPE"},
            {"t": "raw", "v": "object-group network BADG\n network-object host 10.0.0.300"},
            {"t": "raw", "v": "object-group service BADG tcp\n port-object range 20 100\n port-object range 100 20"},
            {"t": "raw", "v": "object-group service BADG tcp\n port-object eq 65537"},
            {"t": "raw", "v": "object-group icmp-type BADG\n icmp-object 256"},
            {"t": "raw", "v": "nonsense statement here"},
            {"t": "raw", "v": "object network BADN\n host 10.0.0.1\nobject service BADA\n service tcp source eq 80\nobject service BADB\n service tcp destination "
                              "eq 81\nnat (any,any) source static BADN BADN service " + r.choice(["BADA BADB", "BADB BADA"])},
            {"t": "raw", "v": "nat (any,any) source static BADN_NOPE BADN_NOPE"},
            {"t": "raw", "v": "object network BADN\n host 10.0.0.1\nnat (any,any) source static BADN BADN service BADS_NOPE BADS_NOPE"},
            {"t": "raw", "v": "time-range BADT\n absolute start 25:00 1 January 2020"},
            {"t": "raw", "v": "time-range BADT\n absolute start 10:00 %s" % r.choice(["31 April 2020", "30 February 2020", "29 February 2019", "0 May 2020", "31 June 2021", "32 July 2020", "1 March 202", "1 March 20201", "1 Mars 2020", "001 March 2020"])},
            {"t": "raw", "v": "time-range BADT\n periodic weekdays %s to 23:00" % r.choice(["24:00", "10:60", "99:10", "010:10", "10:100", "1000", "-1:00"])},
            {"t": "raw", "v": "time-range BADT\n periodic Caturday 10:00 to 11:00"},
        ]
        if self.d["no"]:
            n = r.choice(self.d["no"])
            bad.append({"t": "raw", "v": "access-list a extended permit ip object %s_X any" % n})
            bad.append({"t": "raw", "v": "access-list a extended permit ip any object %s" % n[:-1] if n[:-1] not in self.d["no"] else "bad"})
        if self.d["ng"]:
            n = r.choice(self.d["ng"])
            bad.append({"t": "raw", "v": "access-list a extended permit ip any object %s" % n if n not in self.d["no"] else "bad"})
        if r.random() < 0.4 and self.spoil(r.choice([glue.spoil, glue.mutate]), [t for t in ("name", "no", "nonat", "so", "ng", "sg", "pog", "ig", "prg", "tr", "std", "rule", "ag", "web", "nat")]):
            return
        self.st.insert(r.randrange(len(self.st) + 1), r.choice(bad))

    def spoil(self, how, types):
        """spoil one of the statements there are"""
        c = [k for k, s in enumerate(self.st) if s["t"] in types]
        if not c:
            return False
        k = self.r.choice(c)
        x = how(self.r, render_stmt(self.st[k]))
        if x is not None:
            self.st[k] = {"t": "raw", "v": x}
        return x is not None


def gen(r, **kw):
    return Gen(r, **kw).build()


# ------------------------------------------------------------------ rendering

def _pspec(p):
    return " ".join(p) if p else ""


def _addr(h, host="host", obj="object", grp="object-group"):
    k = h[0]
    if k == "host":
        return f"{host} {h[1]}"
    if k == "net":
        n = ipaddress.ip_interface(h[1])
        return f"{n.ip} {n.netmask}" if n.version == 4 else h[1]
    if k == "hname":
        return f"{host} {h[1]}"
    if k == "nname":
        return f"{h[1]} {ipaddress.ip_network((0, h[2])).netmask}" if h[2] < 32 else f"{h[1]}/{h[2]}"
    if k == "no":
        return f"{obj} {h[1]}"
    if k == "ng":
        return f"{grp} {h[1]}"
    if k == "if":
        return f"interface {h[1]}"
    return k


def _svc(v):
    if v[0] in ("icmp", "icmp6"):
        if v[1] is None:
            return v[0]
        return " ".join([v[0], v[1][0]] + ([v[1][1]] if v[1][1] else []))
    if len(v) == 1:
        return v[0]
    o = v[0]
    if v[1]:
        o += " source " + _pspec(v[1])
    if v[2]:
        o += " destination " + _pspec(v[2])
    return o


def _onat(nat):
    m = nat["m"]
    if m[0] in ("no", "ng"):
        t = m[1]
    elif m[0] == "addr":
        t = m[1] + (f"/{m[2]}" if m[2] else "")
    elif m[0] == "if":
        t = "interface" + (" ipv6" if m[1:] and m[1] else "")
    else:
        t = "pat-pool " + " ".join([m[1][1]] + m[2])
    if nat["fb"] is not None:
        t += " interface" + (" ipv6" if nat["fb"] else "")
    o = "nat (%s,%s) %s %s" % (nat["ifs"][0], nat["ifs"][1], nat["type"], t)
    if nat["svc"]:
        o += " dns" if nat["svc"] == ["dns"] else " service " + " ".join(nat["svc"])
    return " ".join([o] + nat["opts"])


def _tm(t):
    return "%d:%02d" % (t[0], t[1])


def _dt(d):
    return "%s %d %s %d" % (_tm(d), d[2], d[3], d[4])


def _opts(o):
    r = []
    if "log" in o:
        r.append(" ".join(["log"] + o["log"]))
    if "time-range" in o:
        r.append("time-range " + o["time-range"])
    if o.get("inactive"):
        r.append("inactive")
    return " " + " ".join(r) if r else ""


def render_stmt(s):
    t = s["t"]
    L = []
    rem = ["access-list %s remark %s" % (s["id"], x) for x in s.get("remark", [])]
    desc = [f" description {s['desc']}"] if s.get("desc") else []
    if t == "version":
        L = [s["v"]]
    elif t == "hostname":
        L = ["hostname " + s["v"]]
    elif t == "domain":
        L = ["domain-name " + s["v"]]
    elif t == "ign" or t == "raw":
        L = [s["v"]]
    elif t == "if":
        L = ["interface " + s["alias"]]
        for k, *v in s["det"]:
            if k == "nameif":
                L.append(" nameif " + v[0])
            elif k == "desc":
                L.append(" description " + v[0])
            elif k == "ip":
                L.append(" ip address %s %s" % tuple(v[:2]) + (" standby " + v[2] if v[2] else ""))
            elif k == "ip6":
                L.append(" ipv6 address %s/%d" % tuple(v[:2]) + (" standby " + v[2] if v[2] else ""))
            else:
                L.append(" " + v[0])
    elif t == "name":
        L = ["name %s %s" % (s["a"], s["n"]) + (" description " + s["desc"] if s["desc"] else "")]
    elif t == "no":
        L = ["object network " + s["n"]]
        v = s["v"]
        if v is None:
            pass
        elif v[0] == "host":
            L.append(" host " + v[1])
        elif v[0] == "subnet":
            L.append(" subnet " + _addr(["net", v[1]]))
        elif v[0] == "range":
            L.append(" range %s %s" % (v[1], v[2]))
        else:
            L.append(" fqdn %s%s" % (v[1] + " " if v[1] else "", v[2]))
        if s.get("nat"):
            L.append(" " + _onat(s["nat"]))
        L += desc
    elif t == "nonat":
        L = ["object network " + s["n"], " " + _onat(s["nat"])]
    elif t == "so":
        L = ["object service " + s["n"], " service " + _svc(s["v"])] + desc
    elif t == "ng":
        L = ["object-group network " + s["n"]] + desc
        for h in s["items"]:
            L.append(" group-object " + h[1] if h[0] == "ng" else " network-object " + _addr(h))
    elif t == "sg":
        L = ["object-group service " + s["n"]] + desc
        for v in s["items"]:
            L.append(" group-object " + v[1] if v[0] == "sg" else " service-object object " + v[1] if v[0] == "so" else " service-object " + _svc(v))
    elif t == "pog":
        L = ["object-group service %s %s" % (s["n"], s["p"])] + desc
        for v in s["items"]:
            L.append(" group-object " + v[1] if v[0] == "pog" else " port-object " + " ".join(v))
    elif t == "ig":
        L = ["object-group icmp-type " + s["n"]] + desc
        for v in s["items"]:
            L.append(" group-object " + v[1] if v[0] == "ig" else " icmp-object " + v[1])
    elif t == "prg":
        L = ["object-group protocol " + s["n"]] + desc
        for v in s["items"]:
            L.append(" group-object " + v[1] if v[0] == "prg" else " protocol-object " + v[1])
    elif t == "tr":
        L = ["time-range " + s["n"]]
        for v in s["items"]:
            if v[0] == "abs":
                L.append(" absolute" + (" start " + _dt(v[1]) if v[1] else "") + (" end " + _dt(v[2]) if v[2] else ""))
            elif v[0] == "day":
                L.append(" periodic %s %s to %s" % (v[1], _tm(v[2]), _tm(v[3])))
            else:
                L.append(" periodic %s %s to %s%s" % (" ".join(v[1]), _tm(v[2]), v[3] + " " if v[3] else "", _tm(v[4])))
    elif t == "rule":
        p = {"p": "", "prg": "object-group ", "sg": "object-group ", "so": "object "}[s["p"][0]] + s["p"][1]
        o = "access-list %s extended %s %s %s" % (s["id"], s["mode"], p, _addr(s["src"]))
        if s["sport"]:
            o += " " + ("object-group " + s["sport"][1] if s["sport"][0] == "pog" else _pspec(s["sport"]))
        o += " " + _addr(s["dst"])
        if s["dport"]:
            o += " " + ("object-group " + s["dport"][1] if s["dport"][0] == "pog" else _pspec(s["dport"]))
        if s["icmp"]:
            o += " object-group " + s["icmp"][1] if s["icmp"][0] == "ig" else " " + " ".join(x for x in s["icmp"][1:] if x)
        L = rem + [o + _opts(s["opts"])]
    elif t == "std":
        L = rem + ["access-list %s standard %s %s" % (s["id"], s["mode"], _addr(s["src"]))]
    elif t == "web":
        if s["url"]:
            o = "access-list %s webtype %s url %s" % (s["id"], s["mode"], s["url"])
        else:
            o = "access-list %s webtype %s tcp %s" % (s["id"], s["mode"], _addr(s["dst"])) + (" " + _pspec(s["dport"]) if s["dport"] else "")
        L = rem + [o + _opts(s["opts"])]
    elif t == "eth":
        L = rem + ["access-list %s ethertype %s" % (s["id"], s["v"])]
    elif t == "ag":
        L = ["access-group %s %s interface %s" % (s["name"], s["dir"], s["iface"])]
    elif t == "nat":
        def mm(m):
            if m[0] in ("no", "ng"):
                return m[1]
            if m[0] == "any":
                return "any"
            if m[0] == "if":
                return "interface" + (" ipv6" if m[1] else "")
            return "pat-pool " + " ".join([m[1][1]] + m[2])
        o = "nat (%s,%s)" % tuple(s["ifs"])
        if s["pos"]:
            o += " " + s["pos"]
        o += " source %s %s %s" % (s["type"], s["real"][1] if len(s["real"]) > 1 else "any", mm(s["m"]))
        if s["fb"] is not None:
            o += " interface" + (" ipv6" if s["fb"] else "")
        if s["dst"]:
            o += " destination static %s %s" % (mm(s["dst"][0]), s["dst"][1][1])
        if s["svc"]:
            o += " service %s %s" % tuple(s["svc"])
        o = " ".join([o] + s["opts"])
        if s.get("desc"):
            o += " description " + s["desc"]
        L = [o]
    else:
        raise ValueError(t)
    return "\n".join(L) + "\n"


def render(st):
    return "".join(render_stmt(s) for s in st)


# ------------------------------------------------------------------ expectation

class Model:
    def __init__(self):
        self.hostname = ""
        self.domainname = ""
        self.version = None
        self.names = []
        self.namev = {}
        self.ifs = {}
        self.ifid = {}      # id -> display name
        self.no = {}
        self.so = {}
        self.ng = {}
        self.sg = {}
        self.pog = {}
        self.ig = {}
        self.prg = {}
        self.tr = {}
        self.rules = []
        self.nat = {1: [], 2: [], 3: []}
        self.routes = []
        self.ag = {}

    def need(self, tab, n):
        if n not in tab:
            raise Reject(n)
        return n

    def addr(self, h):
        k = h[0]
        if k == "host":
            return ["host", str(ipaddress.ip_address(h[1])), None]
        if k == "net":
            return ["net", str(ipaddress.ip_network(h[1], strict=False)), None]
        if k == "hname":
            self.need(self.namev, h[1])
            return ["host", self.namev[h[1]], h[1]]
        if k == "nname":
            self.need(self.namev, h[1])
            a = ipaddress.ip_address(self.namev[h[1]])
            if (h[2] < 32) != (a.version == 4):
                raise Reject(h)
            return ["net", str(ipaddress.ip_network((str(a), h[2]), strict=False)), h[1]]
        if k == "no":
            return ["no", self.need(self.no, h[1])]
        if k == "ng":
            return ["ng", self.need(self.ng, h[1])]
        if k == "if":
            return ["if", h[1]]
        return [k]

    def snapshot(self):
        return {
            "hostname": self.hostname, "domainname": self.domainname, "version": self.version, "names": self.names,
            "interfaces": self.ifs,
            "objects": {"network": self.no, "service": self.so, "time": self.tr},
            "groups": {"network": self.ng, "service": self.sg, "port": self.pog, "icmp": self.ig, "protocol": self.prg},
            "rules": self.rules, "nat": {str(k): v for k, v in self.nat.items()}, "access_groups": {k: v for k, v in self.ag.items() if v}, "routes": self.routes,
        }


def port(p):
    if p is None:
        return None
    if p[0] == "pog":
        return ["pog", p[1]]
    if p[0] == "range":
        return ["range", p[1], p[2]]
    return ["port", p[0], p[1]]


def service(v, proto_only=False):
    if v[0] in ("icmp", "icmp6"):
        t, c = v[1] if v[1] else (None, None)
        return ["svc", v[0], None, None, t, c]
    if len(v) == 1:
        return ["svc", v[0], None, None, None, None]
    return ["svc", v[0], port(v[1]), port(v[2]), None, None]


def nobj_addresses(v):
    if v is None:
        return [None, []]
    k = v[0]
    if k == "host":
        return ["host", [["host", str(ipaddress.ip_address(v[1])), None]]]
    if k == "subnet":
        return ["subnet", [["net", str(ipaddress.ip_network(v[1])), None]]]
    if k == "range":
        return ["range", [["net", str(n), None] for n in ipaddress.summarize_address_range(ipaddress.ip_address(v[1]), ipaddress.ip_address(v[2]))]]
    return ["fqdn", [[{None: "any", "v4": "any4", "v6": "any6"}[v[1]]]]]


def expected_model(st):
    m = Model()
    for s in st:
        t = s["t"]
        if t == "version":
            m.version = s["v"]
        elif t == "hostname":
            m.hostname = s["v"]
        elif t == "domain":
            m.domainname = s["v"]
        elif t == "raw":
            raise Reject(s["v"])
        elif t in ("ign", "eth"):
            pass
        elif t == "if":
            d = {"nameif": None, "description": None, "addresses": [], "ag": {}, "sw": None, "routes": []}
            for k, *v in s["det"]:
                if k == "nameif":
                    d["nameif"] = v[0]
                elif k == "desc":
                    d["description"] = v[0]
                elif k == "ip":
                    d["addresses"].append(str(ipaddress.ip_interface("%s/%s" % (v[0], v[1]))))
                elif k == "ip6":
                    d["addresses"].append(str(ipaddress.ip_interface("%s/%d" % (v[0], v[1]))))
            m.ifs[s["alias"]] = d
            m.ifid[s["alias"]] = d["nameif"] or s["alias"]
            if d["nameif"]:
                m.ifid[d["nameif"]] = d["nameif"]
        elif t == "name":
            m.names.append([s["n"], str(ipaddress.ip_address(s["a"])), s["desc"]])
            m.namev[s["n"]] = str(ipaddress.ip_address(s["a"]))
        elif t == "no":
            ty, a = nobj_addresses(s["v"])
            if s.get("nat"):
                nat_obj(m, s["n"], s["nat"], declare=lambda: m.no.setdefault(s["n"], {"type": ty, "addresses": a, "description": s["desc"]}))
            else:
                m.no.setdefault(s["n"], {"type": ty, "addresses": a, "description": s["desc"]})
        elif t == "nonat":
            nat_obj(m, s["n"], s["nat"], declare=lambda: m.no.setdefault(s["n"], {"type": "nat", "addresses": [], "description": None}))
        elif t == "so":
            v = service(s["v"])
            m.so[s["n"]] = {"svc": v, "description": s["desc"]}
        elif t == "ng":
            m.ng[s["n"]] = {"description": s["desc"], "items": [m.addr(h) for h in s["items"]]}
        elif t == "sg":
            items = []
            for v in s["items"]:
                if v[0] == "so":
                    items.append(["so", m.need(m.so, v[1])])
                elif v[0] == "sg":
                    items.append(["sg", m.need(m.sg, v[1])])
                else:
                    items.append(service(v))
            m.sg[s["n"]] = {"description": s["desc"], "items": items}
        elif t == "pog":
            m.pog[s["n"]] = {"description": s["desc"], "protocol": s["p"],
                             "items": [["pog", m.need(m.pog, v[1])] if v[0] == "pog" else port(v) for v in s["items"]]}
        elif t == "ig":
            m.ig[s["n"]] = {"description": s["desc"],
                            "items": [["ig", m.need(m.ig, v[1])] if v[0] == "ig" else ["icmp", v[1], None] for v in s["items"]]}
        elif t == "prg":
            m.prg[s["n"]] = {"description": s["desc"],
                             "items": [["prg", m.need(m.prg, v[1])] if v[0] == "prg" else ["p", v[1]] for v in s["items"]]}
        elif t == "tr":
            items = []
            tm = lambda x: "%02d:%02d:00" % (x[0], x[1])
            dt = lambda x: None if x is None else "%04d-%02d-%02dT%02d:%02d:00" % (x[4], MONTHS.index(x[3]) + 1, x[2], x[0], x[1])
            for v in s["items"]:
                if v[0] == "abs":
                    items.append(["abs", dt(v[1]), dt(v[2])])
                elif v[0] == "day":
                    items.append(["per", [v[1]], tm(v[2]), None, tm(v[3])])
                else:
                    items.append(["per", v[1], tm(v[2]), v[3], tm(v[4])])
            m.tr[s["n"]] = {"items": items}
        elif t == "rule":
            p = list(s["p"])
            if p[0] != "p":
                m.need({"prg": m.prg, "sg": m.sg, "so": m.so}[p[0]], p[1])
            ic = s["icmp"]
            if ic and ic[0] == "ig":
                m.need(m.ig, ic[1])
            for q in ("sport", "dport"):
                if s[q] and s[q][0] == "pog":
                    m.need(m.pog, s[q][1])
            m.rules.append(rule(m, s, ext="extended", proto=p, src=m.addr(s["src"]), dst=m.addr(s["dst"]),
                                sport=port(s["sport"]), dport=port(s["dport"]), icmp=ic))
        elif t == "std":
            m.rules.append(rule(m, s, ext="standard", proto=["p", "ip"], src=m.addr(s["src"]), dst=["any"]))
        elif t == "web":
            if s["url"]:
                m.rules.append(rule(m, s, ext="webtype", proto=["p", "url"], src=["any"], dst=["url", s["url"]]))
            else:
                m.rules.append(rule(m, s, ext="webtype", proto=["p", "tcp"], src=["any"], dst=m.addr(s["dst"]), dport=port(s["dport"])))
        elif t == "ag":
            for alias, d in m.ifs.items():
                if d["nameif"] == s["iface"]:
                    if s["dir"] in d["ag"]:
                        m.ag[d["ag"][s["dir"]]].remove([alias, s["dir"]])
                    d["ag"][s["dir"]] = s["name"]
                    m.ag.setdefault(s["name"], []).append([alias, s["dir"]])
                    break
        elif t == "nat":
            ifs = [nat_if(m, i) for i in s["ifs"]]

            def node(x, side):
                if x[0] == "any":
                    return ["any"]
                if x[0] == "if":
                    return ["if", ifs[side]]
                if x[0] == "pool":
                    x = x[1]
                return m.addr(x)
            real = node(s["real"], 0)
            mapped = node(s["m"], 1)
            rs = ms = None
            dr = dm = None
            if s["dst"]:
                dm = node(s["dst"][0], 1)
                dr = node(s["dst"][1], 0)
            if s["svc"]:
                a, b = s["svc"]
                m.need(m.so, a)
                m.need(m.so, b)
                if s["type"] == "dynamic":
                    rs, ms = a, b
                else:
                    va, vb = m.so[a]["svc"], m.so[b]["svc"]
                    if va[2] and not va[3] and vb[2] and not vb[3]:
                        rs, ms = a, b
                    elif not va[2] and va[3] and not vb[2] and vb[3]:
                        ms, rs = a, b
                    else:
                        raise Reject("nat service")
            opts = {o: True for o in s["opts"]}
            if s["pos"]:
                opts["after-auto"] = True
            m.nat[3 if s["pos"] else 1].append({
                "real": {"if": ifs[0], "src": real, "dst": dr, "svc": ["so", rs] if rs else None},
                "mapped": {"if": ifs[1], "src": mapped, "dst": dm, "svc": ["so", ms] if ms else None, "type": s["type"],
                           "fb": None if s["fb"] is None else [ifs[1], bool(s["fb"])]},
                "opts": opts, "description": s["desc"]})
        else:
            raise ValueError(t)
    return m


def nat_if(m, i):
    if i == "any":
        return "any"
    m.need(m.ifid, i)
    return m.ifid[i]


def nat_obj(m, name, nat, declare):
    ifs = [nat_if(m, i) for i in nat["ifs"]]
    mm = nat["m"]
    if mm[0] in ("no", "ng"):
        src = m.addr(mm)
    elif mm[0] == "pool":
        src = m.addr(mm[1])
    elif mm[0] == "addr":
        src = ["net", str(ipaddress.ip_network("%s/%d" % (mm[1], mm[2]), strict=False)), None] if mm[2] else ["host", str(ipaddress.ip_address(mm[1])), None]
    else:
        src = ["if", ifs[1]]
    declare()
    opts = {"auto": True}
    for o in nat["opts"]:
        opts[o] = True
    rs = ms = None
    if nat["svc"] == ["dns"]:
        opts["dns"] = True
    elif nat["svc"]:
        rs = ["svc", nat["svc"][0], None, nat["svc"][1], None, None]
        ms = ["svc", nat["svc"][0], None, nat["svc"][2], None, None]
    m.nat[2].append({
        "real": {"if": ifs[0], "src": ["no", name], "dst": ["any"], "svc": rs},
        "mapped": {"if": ifs[1], "src": src, "dst": ["any"], "svc": ms, "type": nat["type"],
                   "fb": None if nat["fb"] is None else [ifs[1], bool(nat["fb"])]},
        "opts": opts, "description": None})


def rule(m, s, ext, proto, src, dst, sport=None, dport=None, icmp=None):
    opts = {}
    o = s.get("opts") or {}
    if "log" in o:
        opts["log"] = list(o["log"])
    if "time-range" in o:
        opts["time-range"] = ["tr", m.need(m.tr, o["time-range"])]
    if o.get("inactive"):
        opts["inactive"] = True
    return {"id": s["id"], "ext": ext, "mode": s["mode"], "proto": list(proto), "src": src, "sport": sport, "dst": dst,
            "dport": dport, "remark": list(s["remark"]), "opts": opts, "icmp": list(icmp) if icmp else None, "head": None}


def expected(st):
    try:
        return expected_model(st).snapshot()
    except Reject:
        return None
