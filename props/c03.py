from . import loads


def gen(r, tier):
    return loads.gen(r, tier, "pf")


run = loads.run
