from . import queries


def gen(r, tier):
    return queries.gen(r, tier, "expand")


def run(w):
    queries.run(w, "expand")
