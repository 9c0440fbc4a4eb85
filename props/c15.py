"""C15: loading a configuration never waits for ever for the servers of its url tables."""
from . import tables


def gen(r, tier):
    return tables.gen(r, tier, "live")


def run(w):
    tables.run(w, "live")
