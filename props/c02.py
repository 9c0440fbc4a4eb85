from . import loads


def gen(r, tier):
    return loads.gen(r, tier, "ios")


run = loads.run
