"""C08: cancelling an operation always works and leaves nothing half done."""
from . import faulted


def gen(r, tier):
    return faulted.gen(r, tier, ["KeyboardInterrupt", "KeyboardInterrupt", "SystemExit", "GeneratorExit"])


def run(w):
    faulted.run(w, strict=True)
