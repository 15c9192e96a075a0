from .lib import *
from .hist import *


def execute(case):
    uni, seq = case
    sparse(uni, seq)
    env = Env()
    g, model = env.P.Graph(), set()
    pats = some_patterns(env, uni)
    for i, op in enumerate(seq):
        g, model = apply(env, g, model, op, uni)
        if i == len(seq) - 1 or len(seq) < 6:
            matches(env, g, model, f"after step {i + 1} ({op[0]})", pats[:200])
            expect(set(g) == model and len(g) == len(model), "matching changed the graph")
    kw = list(g.match(predicate=env.term(uni[1][0])))
    expect(set(kw) == {t for t in model if t[1] == env.term(uni[1][0])}, "match by keyword", kw)
    kw = list(g.match(object=env.term(uni[2][0])))
    expect(set(kw) == {t for t in model if t[2] == env.term(uni[2][0])}, "match by keyword", kw)
    expect(set(g.match()) == model, "match without arguments")


    independent(env, g, model, uni)


def sparse(uni, seq):
    """the same history observed only once on the way and at its end"""
    env = Env()
    g, model = env.P.Graph(), set()
    pats = some_patterns(env, uni)
    once = sum(len(op) for op in seq) % max(1, len(seq) - 1) if len(seq) > 1 else -1
    for i, op in enumerate(seq):
        g, model = apply(env, g, model, op, uni)
        if i == once or i == len(seq) - 1:
            matches(env, g, model, f"after step {i + 1} ({op[0]}), observed there", pats[:100])


def fixed():
    return fixed_histories(3)


def cases(r):
    while True:
        yield rand_history(r)
