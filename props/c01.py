from . import loads


def gen(r, tier):
    return loads.gen(r, tier, "asa")


run = loads.run
