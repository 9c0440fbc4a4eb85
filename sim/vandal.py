"""Change everything that can be changed in one configuration.

Whoever shares a part with it - another configuration, a store, a parser - is
found out by looking different afterwards.
"""
import collections

DEFINITIONS = ("NetworkObject", "ServiceObject", "NetworkGroup", "ServiceGroup", "PortGroup", "ICMPGroup", "ProtocolGroup",
               "TimeRange", "Interface", "ACLRule", "Name")


def parts(x, seen=None, out=None):
    """every container and acltk object reachable from x"""
    seen = set() if seen is None else seen
    out = [] if out is None else out
    todo = [x]
    while todo:
        o = todo.pop()
        if id(o) in seen:
            continue
        own = type(o).__module__.startswith("acltk") and not isinstance(o, type)
        box = isinstance(o, (list, dict, set, collections.deque))
        if not (own or box or isinstance(o, (tuple, frozenset))):
            continue
        seen.add(id(o))
        out.append(o)
        if isinstance(o, dict):
            todo.extend(o.values())
        elif isinstance(o, (list, set, tuple, frozenset, collections.deque)):
            todo.extend(o)
        if own:
            todo.extend(getattr(o, "__dict__", {}).values())
            for c in type(o).__mro__:
                for s in getattr(c, "__slots__", ()):
                    if hasattr(o, s):
                        todo.append(getattr(o, s))
    return out


def vandal(cfg):
    """-> number of things changed"""
    n = 0
    for o in parts(cfg):
        try:
            if isinstance(o, dict):
                o.clear()
                o["vandal"] = "vandal"
            elif isinstance(o, (list, collections.deque)):
                o.reverse()
                o.append("vandal")
                if len(o) > 2:
                    o.pop(0) if isinstance(o, list) else o.popleft()
            elif isinstance(o, set):
                o.clear()
            elif type(o).__name__ in DEFINITIONS:
                for k, v in list(vars(o).items()):
                    if isinstance(v, str) or v is None:
                        setattr(o, k, "vandal")
            else:
                continue
            n += 1
        except Exception:
            pass        # what can not be changed need not be
    return n
