"""Printed expressions mean what the tree says."""
from .. import gen as G, probe as P, workload as W
from ..model import canon, same, diff

ID = "C03"
RULE = ("every (parent, operand position, child) pair and every operator triple, random expressions to depth 6: built through the Python API "
        "(constructors, operators, raw values in random spelling) or parsed, printed in default and pretty mode, the text read by the reference parser "
        "and its meaning compared with the tree's. Non-trivial: distinct expression meanings with an operand")
NEED = {"texts printed": 20000, "trees built": 20000}
ASSUMPTIONS = ["the reference grammar in mon/refparse.py states the dialect", "LIMITATION: printing is judged by the reference parser, not by a Trino server"]


def one(ctx, case):
    kind, m0, seed = case
    r = ctx.rng("api", seed)
    m = canon(m0)
    o = P.build(ctx, kind, m0, r if seed is not None else None, case)
    ctx.case(m, None, len(m) > 1)
    if o is None:
        return
    got = P.read(kind, o)
    if not same(got, m):
        ctx.violation(P.mech_diff("built", m, got), case, {"difference": diff(m, got)})
        return
    P.check_print(ctx, kind, m, o, case)
    if ctx.evals % 101 == 1 and len(ctx.samples) < 3:
        ctx.samples.append(P.show(o))
    P.kinds_in(ctx, m)


def parsed(ctx, case):
    """print a tree that came from the parser"""
    kind, m0, text = case
    m = canon(m0)
    o = P.check_parse(ctx, kind, m, text, case)
    if o is not None:
        P.check_print(ctx, kind, m, o, case)
    ctx.case(m, text)


def work(ctx):
    pairs = P.pair_cases()
    for i in ctx.shards(len(pairs) * ctx.n(4, 20)):
        p, h, c = pairs[i % len(pairs)]
        r = ctx.rng("pair", i)
        m = G.pair_meaning(G.Gen(r, odd=0.05), p, h, c, r.choice(P.OPS) if i >= len(pairs) else None)
        one(ctx, ("expr", m, i))
    tr = P.triples()
    for i in ctx.shards(len(tr)):
        r = ctx.rng("triple", i)
        one(ctx, ("expr", P.triple_meaning(G.Gen(r, odd=0.0), *tr[i]), i))
    for i in ctx.shards(ctx.n(1500, 40000)):
        r = ctx.rng("chain", i)
        one(ctx, ("expr", G.chain(G.Gen(r, odd=0.0)), i))
    for i in ctx.shards(ctx.n(330, 6600)):
        ctx.count("long lists")
        one(ctx, ("expr", W.wide_expr(G.Gen(ctx.rng("wide", i)), i), i))
    for i in ctx.shards(ctx.n(12000, 200000)):
        r = ctx.rng("random", i)
        g = G.Gen(r)
        m = g.expr(r.choice([1, 2, 3, 3, 4, 5, 6]))
        if r.random() < 0.2:
            one(ctx, ("query", P.in_context(g, m), i))
        else:
            one(ctx, ("expr", m, i))
    for i in ctx.shards(ctx.n(1200, 20000)):
        r = ctx.rng("parsed", i)
        m = G.Gen(r).expr(r.choice([2, 3, 3, 4]))
        parsed(ctx, ("expr", m, P.text_of(m, "expr", r, True)))
