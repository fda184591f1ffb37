"""Pretty printing changes layout only."""
import re

from .. import gen as G, probe as P, workload as W
from ..core import exc_key, exc_text
from ..lexer import lex, token_key
from ..model import canon

ID = "C05"
RULE = ("expressions and queries (every systematic query family, operator pairs, random trees to depth 5, literals and names full of line breaks, quotes, "
        "runs of spaces, comment marks and long texts) printed in default mode and in pretty mode at several of the 80 possible widths; both texts cut into tokens by an independent lexer "
        "and compared token by token. Non-trivial: distinct meanings whose pretty text differs from the default text")
NEED = {"pretty texts with a different layout": 6000, "pretty texts with line breaks inside a token": 500}
ASSUMPTIONS = ["the lexical rules in mon/lexer.py"]
WIDTHS = [0, 1, 2, 3, 4, 5, 8, 20, 40, 60, 78, 79]


def one(ctx, case):
    kind, m0, seed = case
    r = ctx.rng("api", seed)
    if isinstance(seed, str):
        try:
            o = P.parse(kind, seed)
        except Exception:
            ctx.count("texts not parsed (another property)")
            return
    else:
        from .. import objbuild
        b = objbuild.Builder(r)
        try:
            o = {"expr": b.expr, "query": b.query, "rel": b.rel}[kind](m0)
        except Exception:
            ctx.count("trees not built (another property)")
            return
    try:
        base = P.show(o)
    except Exception:
        ctx.count("trees not printed (another property)")
        return
    want = lex(base, trivia=True)
    differs = False
    for width in [4] + r.sample(WIDTHS if r.random() < 0.8 else range(80), 2):
        try:
            text = P.show(o, True, width)
        except Exception as e:
            ctx.violation(f"pretty:{exc_key(e)}", case, {"width": width, "default": base, "error": exc_text(e)})
            return
        ctx.count("pretty texts")
        if text != base:
            differs = True
            ctx.count("pretty texts with a different layout")
        got = lex(text, trivia=True)
        for t in got:
            if "\n" in t.text:
                ctx.count("pretty texts with line breaks inside a token")
                break
        if [token_key(t) for t in got] != [token_key(t) for t in want]:
            i = next((i for i, (a, b) in enumerate(zip(want, got)) if token_key(a) != token_key(b)), min(len(want), len(got)))
            a, b = want[i:i + 1], got[i:i + 1]
            ctx.violation(f"tokens:{a[0].kind if a else 'end'}/{b[0].kind if b else 'end'}", case,
                          {"width": width, "default": base, "pretty": text, "token": i, "default token": a, "pretty token": b})
            return
    ctx.case(canon(m0), nontrivial=differs)
    if differs and ctx.evals % 97 == 0 and len(ctx.samples) < 3:
        ctx.samples.append(text)


def work(ctx):
    for k in ctx.shards(W.TOTAL * ctx.n(3, 30)):
        fam, r, m = W.family_case(ctx, k, "c05", odd=0.4)
        ctx.count("family " + fam)
        one(ctx, ("query", m, k))
    for i in ctx.shards(ctx.n(6000, 100000)):
        r = ctx.rng("random", i)
        g = G.Gen(r, odd=0.4)
        x = r.random()
        if x < 0.06:
            kind, m = "query", P.in_context(g, G.chain(g))
        elif x < 0.4:
            kind, m = "query", g.query(r.choice([1, 2, 3, 3, 4, 5]))
        elif x < 0.6:
            kind, m = "query", W.from_(W.relation_random(g, r.randint(2, 6)))
        elif x < 0.8:
            kind, m = "expr", g.expr(r.choice([1, 2, 3, 4, 5]))
        else:
            kind, m = "query", P.in_context(g, g.expr(r.choice([1, 2, 3])))
        one(ctx, (kind, m, i))
    # long lists wrap, with a text that breaks lines at each position of the list
    for i in ctx.shards(ctx.n(1500, 20000)):
        r = ctx.rng("long", i)
        g = G.Gen(r, odd=0.5)
        es = tuple(r.choice([lambda: ("str", g.text()), g.col, lambda: g.expr(1), lambda: ("str", "w " * r.randint(1, 60))])() for _ in range(r.randint(3, 25)))
        k = r.randrange(8)
        t = ("table", ("t",))
        if k == 0:
            m = ("query", (), ("select", "ALL", tuple(("item", e, g.ident() if g.ch(0.3) else None) for e in es), t, None, None, None, ()), (), None, None)
        elif k == 1:
            es = tuple(e for e in es if e[0] in ("str", "col"))
            m = ("query", (), ("values",) + (es or (g.col(),)), (), None, None)
        elif k == 2:
            m = P.select_of(None, t, where=("in", g.col(), es))
        elif k == 3:
            m = P.select_of(None, t, where=(r.choice(["and", "or"]),) + es)
        elif k == 4:
            m = P.select_of(None, t, order=tuple((e, "ASC", "LAST") for e in es))
        elif k == 5:
            m = P.select_of(None, t, group=("ALL", (("gset", es),)))
        elif k == 6:
            m = P.select_of(("array",) + tuple(e for e in es if e[0] in ("str", "col")) + (g.col(),), ("join", "LEFT", False, ("on", ("and",) + es[:3]), t, ("subq", P.select_of(es[0], t))))
        else:
            m = P.select_of(("row",) + es, ("alias", t, g.ident(), g.idents(3, 12)))
        one(ctx, ("query", m, i))
