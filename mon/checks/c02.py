"""Parsing a query preserves every clause."""
from .. import gen as G, probe as P, workload as W
from ..model import canon

ID = "C02"
RULE = ("every subset of the ten clauses of a SELECT; every parent/child pair of relation kinds; every tree of 1-3 set operations; every window "
        "frame; all OFFSET/LIMIT boundary pairs; every pair of query nesting positions; random queries to depth 5. Each is rendered in a random "
        "spelling, self-checked with the reference parser, parsed and its whole meaning compared. Non-trivial: distinct texts")
NEED = {"trees parsed": 3000}
ASSUMPTIONS = ["the reference grammar in mon/refparse.py states the dialect"]


def one(ctx, case):
    kind, m, text = case
    m = canon(m)
    P.check_parse(ctx, kind, m, text, case)
    P.kinds_in(ctx, m)
    ctx.case(text, text)


def work(ctx):
    for k in ctx.shards(ctx.n(W.TOTAL, W.TOTAL * 6)):
        fam, r, m = W.family_case(ctx, k)
        ctx.count("family " + fam)
        one(ctx, ("query", m, P.text_of(m, "query", r, r.random() < 0.7)))
    for i in ctx.shards(ctx.n(1500, 30000)):
        r = ctx.rng("random", i)
        g = G.Gen(r)
        m = g.query(r.choice([1, 2, 2, 3, 3, 4])) if r.random() < 0.8 else W.from_(W.relation_random(g, r.randint(2, 5)))
        one(ctx, ("query", m, P.text_of(m, "query", r, r.random() < 0.7)))
