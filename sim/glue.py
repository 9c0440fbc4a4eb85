"""Statements spoilt by characters which belong to no token, or by values which are none: nothing of the text may be taken then."""
import re

CHARS = ["%", "&", "$", "=", "%eth0", ";", "'"]
WORDS = ["%", "&&", "$x", "=", "trailing%"]
FREE = ("description", "remark", "fqdn", "url", "!", "banner", "time-range")


def spoil(r, text, append=True):
    """one line of a statement with a character put into or behind one of its words, or with one more word; None: nothing to spoil"""
    lines = text.rstrip("\n").split("\n")
    ok = [i for i, l in enumerate(lines) if l.strip() and not any(f in l.split() for f in FREE)]
    if not ok:
        return None
    i = r.choice(ok)
    l = lines[i]
    pad = l[:len(l) - len(l.lstrip())]
    toks = l.split()
    if append and r.random() < 0.3:
        toks.append(r.choice(WORDS))
    else:
        k = r.randrange(len(toks))
        t = toks[k]
        c = r.choice(CHARS)
        p = len(t) if r.random() < 0.5 else r.randrange(1, len(t) + 1)
        toks[k] = t[:p] + c + t[p:]
    lines[i] = pad + " ".join(toks)
    return "\n".join(lines)


def _octets(r, t):
    o = t.split(".")
    k = r.randrange(4)
    x = r.random()
    if x < 0.6:
        o[k] = str(r.choice([256, 257, 260, 300, 999, 1000, 2560]))
    elif x < 0.8:
        del o[k]
    else:
        o.insert(k, "1")
    return ".".join(o)


def _six(r, t):
    return r.choice([lambda: t + "%eth0", lambda: t + "%1", lambda: t + "g", lambda: "g" + t, lambda: t.replace(":", ":::", 1), lambda: t.replace(":", ":12345:", 1),
                     lambda: t.replace(":", ":1:2:3:4:5:6:7:", 1)])()


def _year(r, t):
    return r.choice([t[:3], t[:2], t + "1", t[:3] + "x"])


def _time(r, t):
    h, m = t.split(":")
    return r.choice(["24:" + m, "25:" + m, h + ":60", h + ":99", "99:99", "0" + h.rjust(2, "0") + ":" + m, h + m])


def _port(r, t):
    return r.choice(["65536", "65537", "70000", "99999", "-1", "1.5", "0x50", "8o"])


KINDS = [(re.compile(r"(?<![\w.:%-])(\d+\.\d+\.\d+\.\d+)(?![\w.:/-])"), _octets),
         (re.compile(r"(?<![\w.:%-])([0-9a-f]*:[0-9a-f:]*:[0-9a-f:]*)(?![\w.])"), _six),
         (re.compile(r"(?:January|February|March|April|May|June|July|August|September|October|November|December) (\d{4})(?!\d)"), _year),
         (re.compile(r" (\d+:\d+)(?![\w:])"), _time),
         (re.compile(r" (?:eq|neq|lt|gt) (\d+)(?![\w.])"), _port)]


def mutate(r, text):
    """one value of a statement made invalid; None: no value to spoil"""
    l = []
    for i, line in enumerate(text.rstrip("\n").split("\n")):
        if not any(f in line.split() for f in FREE if f != "time-range"):
            l += [(i, m.span(1), f) for k, f in KINDS for m in k.finditer(line)]
    if not l:
        return None
    i, (a, b), f = r.choice(l)
    lines = text.rstrip("\n").split("\n")
    lines[i] = lines[i][:a] + f(r, lines[i][a:b]) + lines[i][b:]
    return "\n".join(lines)
