"""Print/parse round trips are stable."""
from .. import gen as G, probe as P, workload as W
from ..core import exc_key, exc_text
from ..model import canon, diff, same

ID = "C06"
RULE = ("expressions, queries and types (systematic families, operator pairs, random trees; built through the API or parsed from text in random layout) taken "
        "through three rounds of print and parse in default or pretty mode: the text must repeat, the meaning must stay, and re-parsed trees must be equal. "
        "Non-trivial: distinct meanings")
NEED = {"round trips": 6000}
ASSUMPTIONS = ["meanings are read off trees attribute by attribute (mon/objmodel.py)"]


def one(ctx, case):
    kind, m0, seed, pretty, width = case
    m = canon(m0)
    if isinstance(seed, str):
        try:
            o = P.parse(kind, seed)
        except Exception:
            ctx.count("texts not parsed (another property)")
            return
    else:
        from .. import objbuild
        b = objbuild.Builder(ctx.rng("api", seed))
        try:
            o = {"expr": b.expr, "query": b.query, "type": b.type}[kind](m0)
        except Exception:
            ctx.count("trees not built (another property)")
            return
    try:
        first = P.show(o, pretty, width)
        start = P.read(kind, o)
    except Exception:
        ctx.count("trees not printed (another property)")
        return
    # a bare scalar subquery prints as a query
    if kind == "expr" and m[0] == "subq":
        kind = "query"
        start = start[1]
    ctx.case(m, sample=first if ctx.evals % 89 == 1 else None)
    mode = "pretty" if pretty else "default"
    texts, trees = [first], []
    for n in range(3):
        try:
            t = P.parse(kind, texts[-1])
        except Exception as e:
            ctx.violation(f"reparse-{mode}:{exc_key(e)}", case, {"round": n, "text": texts[-1], "error": exc_text(e)})
            return
        trees.append(t)
        try:
            got = P.read(kind, t)
            nxt = P.show(t, pretty, width)
        except Exception as e:
            ctx.violation(f"reprint-{mode}:{exc_key(e)}", case, {"round": n, "text": texts[-1], "error": exc_text(e)})
            return
        if not same(got, start):
            ctx.violation(P.mech_diff(f"meaning-{mode}", start, got), case, {"round": n, "text": texts[-1], "difference": diff(start, got)})
            return
        if nxt != texts[-1]:
            ctx.violation(f"text-{mode}:{m[0]}", case, {"round": n, "before": texts[-1], "after": nxt})
            return
        texts.append(nxt)
        ctx.count("round trips")
    for a, b in ((0, 1), (1, 2), (0, 2)):
        try:
            eq = trees[a].equals(trees[b]) and trees[b].equals(trees[a])
        except Exception as e:
            ctx.violation(f"equals:{exc_key(e)}", case, {"text": first, "error": exc_text(e)})
            return
        if not eq:
            ctx.violation(f"unequal-{mode}:{m[0]}", case, {"text": first, "trees": [repr(trees[a])[:600], repr(trees[b])[:600]]})
            return
    ctx.count("trees compared", 3)


def work(ctx):
    def style(r):
        return (False, None) if r.random() < 0.5 else (True, r.choice([4, 0, 2, 10, 40, 79]))

    for k in ctx.shards(W.TOTAL * ctx.n(1, 10)):
        fam, r, m = W.family_case(ctx, k, "c06", odd=0.3)
        ctx.count("family " + fam)
        seed = k if r.random() < 0.6 else P.text_of(m, "query", r, True)
        one(ctx, ("query", m, seed) + style(r))
    pc = P.pair_cases()
    for k in ctx.shards(ctx.n(len(pc), len(pc) * 8)):
        r = ctx.rng("pairs", k)
        g = G.Gen(r)
        m = G.pair_meaning(g, *pc[k % len(pc)])
        one(ctx, ("expr", m, k) + style(r))
    tr = P.triples()
    order = list(range(len(tr)))
    ctx.rng("triples").shuffle(order)
    for k in ctx.shards(ctx.n(1500, len(tr))):
        r = ctx.rng("triple", order[k])
        m = P.triple_meaning(G.Gen(r, odd=0.0), *tr[order[k]])
        ctx.count("operator triples")
        one(ctx, ("expr", m, k) + style(r))
    # towers of signs and negations
    for i in ctx.shards(ctx.n(400, 4000)):
        r = ctx.rng("tower", i)
        g = G.Gen(r, odd=0.0)
        m = r.choice([lambda: G.pair_meaning(g, *pc[r.randrange(len(pc))]), lambda: g.number(), lambda: ("cmp", r.choice(["=", "<>", "<"]), g.col(), g.col()),
                      lambda: ("isnull", g.col()), lambda: ("in", g.col(), (g.col(),)), lambda: ("like", g.col(), g.col(), None)])()
        for _ in range(r.randint(1, 4)):
            m = (r.choice(["not", "not", "not", "neg", "pos", "isnull"]), m)
        one(ctx, ("expr", m, i if r.random() < 0.7 else P.text_of(m, "expr", r, True)) + style(r))
    for i in ctx.shards(ctx.n(700, 20000)):
        r = ctx.rng("chain", i)
        g = G.Gen(r, odd=0.0)
        kind, m = "expr", G.chain(g)
        if r.random() < 0.2:
            kind, m = "query", P.in_context(g, m)
        ctx.count("operator chains")
        one(ctx, (kind, m, i if r.random() < 0.5 else P.text_of(m, kind, r, True)) + style(r))
    for i in ctx.shards(ctx.n(3000, 60000)):
        r = ctx.rng("random", i)
        g = G.Gen(r, odd=0.4)
        x = r.random()
        if x < 0.5:
            kind, m = "query", g.query(r.choice([1, 2, 2, 3]))
        elif x < 0.85:
            kind, m = "expr", g.expr(r.choice([1, 2, 3, 4]))
        elif x < 0.9:
            kind, m = "type", g.type(3)
        else:
            kind, m = "query", W.from_(W.relation_random(g, r.randint(2, 5)))
        seed = i if r.random() < 0.6 else P.text_of(m, kind, r, True)
        one(ctx, (kind, m, seed) + style(r))
