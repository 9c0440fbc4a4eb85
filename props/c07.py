"""C07: running out of memory or stack surfaces, and never changes an answer or a configuration."""
from . import faulted


def gen(r, tier):
    return faulted.gen(r, tier, ["MemoryError", "MemoryError", "RecursionError"])


def run(w):
    faulted.run(w, strict=False)
