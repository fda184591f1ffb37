"""Parsing an expression preserves its meaning."""
from .. import gen as G, probe as P, workload as W
from ..model import canon

ID = "C01"
RULE = ("every (parent, operand position, child) combination of expression kinds, operator triples, random expressions to depth 5 and expressions "
        "in every clause position; each is rendered in the plain and in a random spelling, self-checked with the reference parser, parsed by treeno "
        "and the tree's meaning compared exactly. Non-trivial: distinct text with at least one operator or call around an operand")
NEED = {"trees parsed": 3000, "node kinds": 60}
ASSUMPTIONS = ["the reference grammar in mon/refparse.py states the dialect"]


def one(ctx, case):
    kind, m, text = case
    m = canon(m)
    P.check_parse(ctx, kind, m, text, case)
    P.kinds_in(ctx, m)
    ctx.case(text, text, len(text) > 6)


def work(ctx):
    pairs = P.pair_cases()
    reps = ctx.n(2, 6)
    for i in ctx.shards(len(pairs) * reps):
        p, h, c = pairs[i % len(pairs)]
        r = ctx.rng("pair", i)
        g = G.Gen(r, odd=0.1)
        m = G.pair_meaning(g, p, h, c, r.choice(P.OPS) if i >= len(pairs) else None)
        ctx.saw("operator pairs", (p, h, c))
        if r.random() < 0.25:
            q = P.in_context(g, m)
            one(ctx, ("query", q, P.text_of(q, "query", r, r.random() < 0.5)))
        else:
            one(ctx, ("expr", m, P.text_of(m, "expr", r, i >= len(pairs))))
    tr = P.triples()
    order = list(range(len(tr)))
    ctx.rng("order").shuffle(order)
    for k in ctx.shards(ctx.n(4000, len(tr))):
        i = order[k]
        r = ctx.rng("triple", i)
        g = G.Gen(r, odd=0.0)
        m = P.triple_meaning(g, *tr[i])
        ctx.saw("operator triples", i)
        one(ctx, ("expr", m, P.text_of(m, "expr", r, r.random() < 0.3)))
    for i in ctx.shards(ctx.n(700, 20000)):
        r = ctx.rng("chain", i)
        m = G.chain(G.Gen(r, odd=0.0))
        ctx.count("operator chains")
        one(ctx, ("expr", m, P.text_of(m, "expr", r, r.random() < 0.5)))
    for i in ctx.shards(ctx.n(110, 2200)):
        r = ctx.rng("wide", i)
        m = W.wide_expr(G.Gen(r), i)
        ctx.count("long lists")
        one(ctx, ("expr", m, P.text_of(m, "expr", r, r.random() < 0.5)))
    for i in ctx.shards(ctx.n(3000, 40000)):
        r = ctx.rng("random", i)
        g = G.Gen(r)
        m = g.expr(r.choice([1, 2, 2, 3, 3, 4, 5]))
        if r.random() < 0.2:
            m = P.in_context(g, m)
            one(ctx, ("query", m, P.text_of(m, "query", r, r.random() < 0.7)))
        else:
            one(ctx, ("expr", m, P.text_of(m, "expr", r, r.random() < 0.7)))
