from . import queries


def gen(r, tier):
    return queries.gen(r, tier, "pure")


def run(w):
    queries.run(w, "pure")
