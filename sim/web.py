"""The example web service: its pages as a reader sees them, and what they must show."""
import html
import html.parser
import io
import os
import re
import runpy
import shelve
import shutil
import sys
import tempfile
import types

import jinja2

from . import core, model_caf, restart

DIR = "/repo/examples/render"


# ------------------------------------------------------------------ the service

class Store(dict):
    """what flask_shelve keeps on disk; writes after a crash do not happen"""

    def __init__(self):
        self.dead = False
        self.fault = {}         # operation -> [n, exception name]
        self.count = {}
        self.kinds = {}
        self.log = []
        core.crashed.append(self.die)

    def die(self):
        self.dead = True

    def hit(self, op, key):
        if self.dead:
            # nobody is there any more
            raise core.Crash("dead")
        n = self.count[op] = self.count.get(op, 0) + 1
        t = core.current()
        self.log.append([t.n if t else None, op, bytes(key).decode()])
        f = self.fault.get(op)
        if f and f[0] == n:
            self.kinds["store %s %s" % (op, f[1])] = self.kinds.get("store %s %s" % (op, f[1]), 0) + 1
            raise {"OSError": OSError(28, "No space left on device"), "EIO": OSError(5, "Input/output error"),
                   "MemoryError": MemoryError(), "Crash": core.Crash("crash")}[f[1]]

    def __setitem__(self, k, v):
        self.hit("set", k)
        dict.__setitem__(self, k, v)

    def __getitem__(self, k):
        self.hit("get", k)
        return dict.__getitem__(self, k)

    def __delitem__(self, k):
        self.hit("del", k)
        dict.__delitem__(self, k)


_code = {}


def compiled(path):
    if path not in _code:
        with open(path, "rb") as f:
            _code[path] = compile(f.read(), path, "exec")
    return _code[path]


class Templates(jinja2.BytecodeCache):
    """compiled templates, kept from one start of a program to the next"""

    kept = {}

    def __init__(self, env):
        self.env = env

    def key(self, bucket):
        e = self.env
        a = e.autoescape
        return (bucket.key, bucket.checksum, a if isinstance(a, bool) else getattr(a, "__qualname__", repr(a)), tuple(sorted(e.extensions)),
                e.trim_blocks, e.lstrip_blocks, e.optimized, e.keep_trailing_newline, e.newline_sequence, e.sandboxed)

    def load_bytecode(self, bucket):
        b = self.kept.get(self.key(bucket))
        if b is not None:
            bucket.bytecode_from_string(b)

    def dump_bytecode(self, bucket):
        self.kept[self.key(bucket)] = bucket.bytecode_to_string()


_init = jinja2.Environment.__init__


def _env_init(self, *a, **kw):
    _init(self, *a, **kw)
    if self.bytecode_cache is None:
        self.bytecode_cache = Templates(self)


jinja2.Environment.__init__ = _env_init


def serve(store, again=False):
    """the service over a store -> its flask application"""
    if again:
        restart.restart()
    m = types.ModuleType("flask_shelve")
    m.init_app = lambda app: None
    m.get_shelve = lambda mode="c": shelve.Shelf(store)
    sys.modules["flask_shelve"] = m
    d = types.ModuleType("dynamic")
    d.__file__ = os.path.join(DIR, "dynamic.py")
    sys.modules["dynamic"] = d
    exec(compiled(d.__file__), d.__dict__)
    d.app.logger.disabled = True
    return d.app


try:
    app = serve(Store())
    for t in app.jinja_env.list_templates():
        app.jinja_env.get_template(t)
except Exception:
    # what is wrong will show in the runs
    pass
core.crashed.clear()


def warm_static():
    """what only the first run of the static example costs"""
    cwd, argv, out = os.getcwd(), sys.argv, sys.stdout
    d = tempfile.mkdtemp(prefix="acltk-sim-")
    try:
        os.chdir(d)
        os.symlink(DIR + "/tpl", "tpl")
        with open("x", "w") as f:
            f.write("access-list a extended permit ip any any\n")
        sys.argv, sys.stdout = ["static.py", "-o", "o", "x"], io.StringIO()
        runpy.run_path(DIR + "/static.py", run_name="__main__")
    except BaseException:
        pass
    finally:
        os.chdir(cwd)
        sys.argv, sys.stdout = argv, out
        shutil.rmtree(d, ignore_errors=True)


class Pieces(io.RawIOBase):
    """an upload that arrives in pieces, or stops"""

    def __init__(self, b, n, end=None):
        self.b, self.n, self.end = b, max(1, n), len(b) if end is None else end
        self.at = 0

    def readable(self):
        return True

    def readinto(self, buf):
        k = min(len(buf), self.n, self.end - self.at)
        buf[:k] = self.b[self.at:self.at + k]
        self.at += k
        return k


def multipart(name, data, bound="SIMBOUNDARY"):
    return (("--%s\r\nContent-Disposition: form-data; name=\"file\"; filename=\"%s\"\r\nContent-Type: application/octet-stream\r\n\r\n" % (bound, name)).encode()
            + data + ("\r\n--%s--\r\n" % bound).encode())


# ------------------------------------------------------------------ pages

class Page(html.parser.HTMLParser):
    """title -> cells of the tables below it, anchors, form fields"""

    def __init__(self, text):
        super().__init__(convert_charrefs=True)
        self.sections = {}
        self.cur = None
        self.cell = None
        self.row = ""
        self.h2 = None
        self.anchors = {}
        self.tags = {}
        self.caf = None
        self.warning = None
        self.pre = None
        self.option = None
        self.options = []
        self.raw = []
        self.in_pre = False
        self.pre_text = ""
        self.feed(text)
        self.close()

    def handle_starttag(self, tag, attrs):
        a = dict(attrs)
        self.tags[tag] = self.tags.get(tag, 0) + 1
        if tag == "h2":
            self.h2 = ""
        elif tag == "tr":
            self.flush()
            self.row = a.get("class") or ""
        elif tag in ("td", "th"):
            self.flush()
            self.cell = ["", a.get("class") or "", self.row]
        elif tag == "a" and "id" in a:
            self.anchors.setdefault(a["id"], "filterd_by_the_filter" in self.row)
        elif tag == "textarea":
            self.flush()
            self.caf = ""
        elif tag == "p" and "FF0000" in a.get("style", ""):
            self.warning = ""
            self.pre = True
        elif tag == "option":
            self.option = ""
        elif tag == "pre":
            self.in_pre = True
        for k, v in attrs:
            if k.startswith("on"):
                self.tags["@" + k] = 1

    handle_startendtag = handle_starttag

    def flush(self):
        if self.cell is not None:
            t = norm(self.cell[0])
            if self.cur is not None and t:
                self.sections[self.cur].append((t, self.cell[1], self.cell[2]))
            self.cell = None

    def handle_endtag(self, tag):
        if tag == "h2":
            self.cur = norm(self.h2)
            self.h2 = None
            self.sections.setdefault(self.cur, [])
        elif tag in ("td", "th", "table"):
            self.flush()
        elif tag == "textarea":
            self.raw.append(self.caf)
            self.caf_text, self.caf = self.caf, None
        elif tag == "p":
            self.pre = None
        elif tag == "pre":
            self.in_pre = False
        elif tag == "option":
            self.options.append(self.option)
            self.option = None

    def handle_data(self, d):
        if self.h2 is not None:
            self.h2 += d
        if self.caf is not None:
            self.caf += d
        elif self.option is not None:
            self.option += d
        elif self.cell is not None:
            self.cell[0] += d
        if self.pre:
            self.warning += d
        if self.in_pre:
            self.pre_text += d


def norm(s):
    return "".join(str(s).split())


SPECIAL = set("<>&\"'")


def texts(x):
    """texts with characters that mean something in HTML"""
    if isinstance(x, str):
        if SPECIAL & set(x):
            yield x
    elif isinstance(x, dict):
        for k, v in x.items():
            yield from texts(k)
            yield from texts(v)
    elif isinstance(x, (list, tuple)):
        for v in x:
            yield from texts(v)


def escaped(page, *xs):
    """the page, with these texts shown as texts"""
    ts = sorted({t for x in xs for t in texts(x)}, key=lambda t: (-len(t), t))
    if not ts:
        return page
    return re.sub("|".join(re.escape(t) for t in ts), lambda m: html.escape(m.group()), page)


# ------------------------------------------------------------------ what must be shown

def host(h):
    k = h[0]
    if k in ("any", "any4", "any6"):
        return k
    if k == "wild":
        return "VERIFY%s/%s" % (h[1], h[2])
    return h[1]


def port(p):
    if p is None:
        return ""
    if p[0] == "port":
        return p[1] + p[2]
    if p[0] == "range":
        return p[1] + "-" + p[2]
    return p[1]


def proto(p):
    # a plain service shows its class
    return p[1] if p[0] != "svc" else "Service"


def low(d):
    return sorted(d, key=str.lower)


def svc_cells(s):
    if s[1] in ("icmp", "icmp6"):
        return [s[1], (s[4] or "") + ("/" + s[5] if s[5] else "")]
    return [s[1], port(s[2]), port(s[3])]


def expected(e, sel, sns):
    """snapshot, selection (rules, nat) or None -> (sections, anchors, rules)

    sections: title -> non-empty cells; anchors: id -> greyed"""
    res = None if sel is None else model_caf.resolve(e, *sel)
    S, A = {}, {}

    def inn(tag):
        return res is None or tag in res

    def shown(tag):
        return inn("tag:" + tag) or sns

    def add(title, cells):
        S.setdefault(norm(title), []).extend(norm(c) for c in cells if c is not None and norm(c))

    def section(title, tag, head):
        if shown(tag):
            S[norm(title)] = []
            add(title, head)
            return True

    def item(anchor, d):
        if inn(d):
            A.setdefault(anchor, False)
            return True
        if sns:
            A.setdefault(anchor, True)
            return True
        return False

    if section("Interface Configuration", "Interface", ["Name"] if e["interfaces"] else []):
        t = "Interface Configuration"
        for a in sorted(e["interfaces"]):
            i = e["interfaces"][a]
            if not item("interface_" + a, "iface:" + a):
                continue
            if i["nameif"]:
                A.setdefault("interface_" + i["nameif"], not inn("iface:" + a))
            add(t, [a, i["description"]])
            for n, x in enumerate(i["addresses"]):
                add(t, ["Addresses" if n == 0 else None, x])
            if i["sw"]:
                add(t, ["SwitchPort" + (i["sw"]["mode"] or "")])
                if i["sw"]["trunk"]:
                    add(t, ["trunk", ",".join("-".join(str(y) for y in x) for x in i["sw"]["trunk"])])
            for n, (d, g) in enumerate(i["ag"].items()):
                add(t, ["access-groups" if n == 0 else None, d + g])
            S[norm(t)].append(("ROUTES", a))
            if i["nameif"]:
                add(t, ["iface", i["nameif"]])
    if section("Name Aliases", "Names", ["Name", "Address", "Description"] if e["names"] else []):
        for n in e["names"]:
            if item("name_alias_" + n[0], "name:" + n[0]):
                add("Name Aliases", n)
    if section("Network Objects", "NetworkObject", ["Name", "Address", "Description"] if e["objects"]["network"] else []):
        for n in low(e["objects"]["network"]):
            o = e["objects"]["network"][n]
            if item("network_object_" + n, "obj:" + repr(["no", n])):
                add("Network Objects", [n, "".join(host(a) for a in o["addresses"]), o["description"]])
    if section("Network Groups", "NetworkGroup", []):
        for n in low(e["groups"]["network"]):
            o = e["groups"]["network"][n]
            if item("network_group_" + n, "obj:" + repr(["ng", n])):
                add("Network Groups", [n, o["description"]] + [host(a) for a in o["items"]])
    if section("Service Objects", "ServiceObject", ["Name", "Protocol", "Source", "Destination", "Description"] if e["objects"]["service"] else []):
        for n in low(e["objects"]["service"]):
            o = e["objects"]["service"][n]
            if item("service_object_" + n, "obj:" + repr(["so", n])):
                add("Service Objects", [n] + svc_cells(o["svc"]) + [o["description"]])
    if section("Service Groups", "ServiceGroup", []):
        for n in low(e["groups"]["service"]):
            o = e["groups"]["service"][n]
            if item("service_group_" + n, "obj:" + repr(["sg", n])):
                add("Service Groups", [n, o["description"], "Name", "Protocol", "Source", "Destination"])
                for m in o["items"]:
                    add("Service Groups", [m[1]] if m[0] in ("so", "sg") else svc_cells(m) if m[0] == "svc" else ["?"])
    if section("Port Groups", "PortGroup", []):
        for n in low(e["groups"]["port"]):
            o = e["groups"]["port"][n]
            if item("port_group_" + n, "obj:" + repr(["pog", n])):
                add("Port Groups", [n + "(" + o["protocol"] + ")", o["description"]] + [port(m) for m in o["items"]])
    for title, tag, kind, k in (("ICMP Groups", "ICMPGroup", "icmp", "ig"), ("Protocol Groups", "ProtocolGroup", "protocol", "prg")):
        if section(title, tag, []):
            for n in low(e["groups"][kind]):
                o = e["groups"][kind][n]
                if item("%s_group_%s" % (kind, n), "obj:" + repr([k, n])):
                    add(title, [n, "None" if o["description"] is None else o["description"]] + [m[1] for m in o["items"]])
    if shown("TimeRange"):
        for n in low(e["objects"]["time"]):
            item("time_range_" + n, "obj:" + repr(["tr", n]))
    # the rules
    cells, last, sec, row = [], object(), 0, 1
    for i, r in enumerate(e["rules"]):
        if r["id"] != last:
            last = r["id"]
            sec, row = sec + 1, 1
            if res is None or "tag:" + r["id"] in res or sns:
                head = r["id"]
                A.setdefault("access_group_" + r["id"], None)
                for alias, d in e["access_groups"].get(r["id"], []):
                    head += "%s/%s" % (alias, d)
                cells += [head, "#", "Mode", "Protokoll", "QuellHost", "QuellPort", "ZielHost", "ZielPort", "Options"]
        on = res is None or i in sel[0]
        if on or sns:
            for h in r["head"] or []:
                cells.append(h[0])
            cells += ["%d.%d" % (sec, row), r["mode"], proto(r["proto"]), host(r["src"]), port(r["sport"]), host(r["dst"])]
            if r["proto"][0] == "p" and r["proto"][1] == "icmp":
                cells.append((r["icmp"][1] or "") if r["icmp"] else "")
            else:
                cells.append(port(r["dport"]))
            cells.append(("OPTIONS", r))
            cells += r["remark"]
        row += 1
    S[norm("Access Control List")] = [c if isinstance(c, tuple) else norm(c) for c in cells if c is not None and (isinstance(c, tuple) or norm(c))]
    return S, A


def options_text(r):
    """what the options cell says for certain, or '' when there is none"""
    o = r["opts"]
    if not o:
        return None
    out = []
    for k, v in o.items():
        if v is True and k == "inactive":
            out.append("inactive")
        elif isinstance(v, list) and v and v[0] == "tr":
            out.append(norm("\u231a:" + v[1]))
        elif isinstance(v, list) and v and v[0] == "iface":
            out.append(",".join(v[1]))
        elif isinstance(v, list) and k == "log":
            out.append("log")
    return [norm(x) for x in out]


def compare(page, e, sel, sns):
    """-> text of the first difference or None"""
    S, A = expected(e, sel, sns)
    for t, want in S.items():
        got = page.sections.get(t)
        if got is None:
            return "section %s is missing" % t
        got = [c[0] for c in got]
        k = 0
        for w in want:
            if isinstance(w, tuple) and w[0] == "ROUTES":
                rs = sorted(norm("%s via %s" % (a, b)) for a, b in e["interfaces"][w[1]]["routes"])
                if not rs:
                    continue
                if got[k:k + 1] != ["routes"]:
                    return "%s: routes of %s are missing" % (t, w[1])
                sh = got[k + 1:k + 1 + len(rs)]
                nets = [norm(a) for a, b in e["interfaces"][w[1]]["routes"]]
                if sorted(x.split("via")[0] for x in sh) != sorted(nets):
                    return "%s: routes %s, expected %s" % (t, sh, rs)
                k += 1 + len(rs)
                continue
            if isinstance(w, tuple):
                o = options_text(w[1])
                if o is None:
                    continue
                if not o and not w[1]["opts"]:
                    continue
                g = got[k] if k < len(got) else ""
                bad = [x for x in o if x not in g]
                if bad:
                    return "%s: options %r of %s, expected %s in it" % (t, g, w[1], bad)
                k += 1
                continue
            if k >= len(got) or got[k] != w:
                return "%s, cell %d: %r, expected %r (after %r)" % (t, k, got[k] if k < len(got) else None, w, got[max(0, k - 4):k])
            k += 1
        if k != len(got):
            return "%s: unexpected %r" % (t, got[k:k + 5])
    known = {norm(x) for x in ("Interface Configuration", "Name Aliases", "Network Objects", "Network Groups", "Service Objects", "Service Groups",
                               "Port Groups", "ICMP Groups", "Protocol Groups", "Time Ranges", "NAT", "Access Control List")}
    extra = [t for t in page.sections if t in known - set(S) - {"NAT", "TimeRanges"}]
    if extra:
        return "sections %s show nothing selected" % extra
    got = {a: g for a, g in page.anchors.items()}
    if set(got) != set(A):
        return "entries shown: missing %s, unexpected %s" % (sorted(set(A) - set(got))[:5], sorted(set(got) - set(A))[:5])
    for a, g in A.items():
        if g is not None and got[a] != g:
            return "%s is %s" % (a, "greyed although selected" if got[a] else "not greyed although not selected")
    # grey rules, and nat
    if sel is not None:
        rows = [c for c in page.sections[norm("Access Control List")] if c[1] == "mode_permit" or c[1] == "mode_deny"]
        shown = [i for i in range(len(e["rules"])) if i in sel[0] or sns]
        if len(rows) == len(shown):
            for c, i in zip(rows, shown):
                if ("filterd_by_the_filter" in c[2]) != (i not in sel[0]):
                    return "rule %d is %s" % (i, "greyed although selected" if i in sel[0] else "not greyed although not selected")
    nat = page.sections.get("NAT")
    res = None if sel is None else model_caf.resolve(e, *sel)
    if (nat is not None) != (res is None or "tag:NAT" in res or sns):
        return "the NAT section is %s" % ("missing" if nat is None else "shown")
    if nat is not None:
        got = [c[0] for c in nat]
        for k in ("1", "2", "3"):
            for i, n in enumerate(e["nat"][k]):
                if sel is None or (k, i) in sel[1] or sns:
                    for x in (n["real"]["if"], n["mapped"]["if"]):
                        if norm(x) not in got:
                            return "NAT: %r is missing" % x
                    if n["real"]["src"] and norm(host(n["real"]["src"])) not in got:
                        return "NAT: %r is missing" % (n["real"]["src"],)
                    if n["description"] and norm(n["description"]) not in got:
                        return "NAT: %r is missing" % n["description"]
        want = sum(1 for k in ("1", "2", "3") for i, n in enumerate(e["nat"][k]) if sel is None or (k, i) in sel[1] or sns)
        rows = got.count("Options")
        have = sum(1 for c in nat if "::" in c[0])
        if have < want or rows != 3:
            return "NAT: %d entries, expected %d" % (have, want)
    return None
