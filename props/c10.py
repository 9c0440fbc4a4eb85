from . import queries


def gen(r, tier):
    return queries.gen(r, tier, "caf")


def run(w):
    queries.run(w, "caf")
