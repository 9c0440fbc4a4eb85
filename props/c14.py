"""C14: the group of a url table holds the whole table, or nothing."""
from . import tables


def gen(r, tier):
    return tables.gen(r, tier, "content")


def run(w):
    tables.run(w, "content")
