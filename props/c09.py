from . import queries


def gen(r, tier):
    return queries.gen(r, tier, "filter")


def run(w):
    queries.run(w, "filter")
