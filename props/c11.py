from . import queries


def gen(r, tier):
    return queries.gen(r, tier, "resolve")


def run(w):
    queries.run(w, "resolve")
