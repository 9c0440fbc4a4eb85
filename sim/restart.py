"""The system under test as a process that ends and starts again: its modules are executed anew."""
import importlib
import importlib.abc
import importlib.machinery
import sys

from . import core

NAMES = sorted(n for n in sys.modules if n == "acltk" or n.startswith("acltk."))
CODE = {n: (sys.modules[n].__spec__.loader.get_code(n), sys.modules[n].__spec__) for n in NAMES}


class Loader(importlib.abc.Loader):
    def create_module(self, spec):
        return None

    def exec_module(self, m):
        exec(CODE[m.__name__][0], m.__dict__)


class Finder(importlib.abc.MetaPathFinder):
    def find_spec(self, name, path, target=None):
        if name not in CODE:
            return None
        o = CODE[name][1]
        s = importlib.machinery.ModuleSpec(name, Loader(), origin=o.origin, is_package=o.submodule_search_locations is not None)
        s.has_location = True
        if o.submodule_search_locations is not None:
            s.submodule_search_locations = list(o.submodule_search_locations)
        return s


sys.meta_path.insert(0, Finder())


def restart():
    """-> the freshly started acltk package"""
    for n in list(sys.modules):
        if n == "acltk" or n.startswith("acltk."):
            del sys.modules[n]
    core.patch_hashes([importlib.import_module(n) for n in NAMES])
    return sys.modules["acltk"]


def _first():
    """once beforehand, on the side: what only the first execution costs"""
    old = {n: sys.modules[n] for n in NAMES}
    try:
        restart()
    finally:
        sys.modules.update(old)


_first()
