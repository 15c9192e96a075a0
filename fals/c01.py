from .lib import *
from .hist import *


def execute(case):
    uni, seq = case
    sparse(uni, seq)
    env = Env()
    g, model = env.P.Graph(), set()
    univ = [env.P.Triple(s, p, o) for s in map(env.term, uni[0]) for p in map(env.term, uni[1]) for o in map(env.term, uni[2])]
    for i, op in enumerate(seq):
        g, model = apply(env, g, model, op, uni)
        lab = f"after step {i + 1} ({op[0]})"
        observers(env, g, model, lab)
        for t in univ[:64]:
            expect((t in g) == (t in model), f"{lab}: membership", t)
    # equal but distinct triple objects, and plain tuples, are the same member
    for t in list(model)[:5]:
        expect(env.P.Triple(*t) in g, "membership of an equal triple", t)
        expect(g.remove(env.P.Triple(*t)) is g and t not in g, "removal of an equal triple", t)
        g.add(t)


    model = independent(env, g, model, uni)


def sparse(uni, seq):
    """the same history observed only once on the way and at its end"""
    env = Env()
    g, model = env.P.Graph(), set()
    once = sum(len(op) for op in seq) % max(1, len(seq) - 1) if len(seq) > 1 else -1
    for i, op in enumerate(seq):
        g, model = apply(env, g, model, op, uni)
        if i == once or i == len(seq) - 1:
            observers(env, g, model, f"after step {i + 1} ({op[0]}), observed there")


def fixed():
    return fixed_histories(3)


def cases(r):
    while True:
        yield rand_history(r)
