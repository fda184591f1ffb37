"""Shared monitors: run the real parser/printer on a case and compare what they say with the reference meaning."""
from treeno.base import PrintMode, PrintOptions
from treeno.builder.convert import expression_from_sql, query_from_sql, type_from_sql

from . import gen as G, objbuild, objmodel, refparse, render
from .core import exc_key, exc_text
from .lexer import RefError
from .model import canon, diff, same

PARSE = {"expr": expression_from_sql, "query": query_from_sql, "type": type_from_sql}
REF = {"expr": refparse.parse_expr, "query": refparse.parse_query, "type": refparse.parse_type}
READ = {"expr": objmodel.expr, "query": objmodel.query, "type": objmodel.dtype, "rel": objmodel.relation}


class SelfCheck(Exception):
    """The workload and the reference disagree: a defect of the harness, never of the code under test."""


def parse(kind, text):
    return PARSE[kind](text)


def read(kind, obj):
    return READ[kind](obj)


def show(o, pretty=False, spaces=None):
    """the text a tree prints"""
    if not pretty:
        return str(o)
    if spaces is None:
        return o.sql(PrintOptions(mode=PrintMode.PRETTY))
    return o.sql(PrintOptions(mode=PrintMode.PRETTY, spaces=spaces))


def denotes(kind, m, text):
    """meaning of a printed text, for comparison with meaning m"""
    if kind == "expr" and m[0] == "subq":
        return ("subq", canon(refparse.parse_query(text)))
    if kind == "rel":
        return canon(refparse.parse_query("SELECT * FROM " + text))[2][3]
    return canon(REF[kind](text))


def node_at(m, path):
    """nearest enclosing node tag of a path (to name a mechanism)"""
    tag = "?"
    for i in path:
        if isinstance(m, tuple) and m and isinstance(m[0], str) and not isinstance(m[0], tuple):
            tag = m[0] if len(m) < 2 or not isinstance(m[1], str) or m[0] not in ("arith", "cmp", "call", "typed", "special") else m[0] + m[1]
        m = m[i] if isinstance(m, tuple) and i < len(m) else None
    return tag


def mech_diff(what, want, got):
    d = diff(want, got)
    if d is None:
        return what + ":type"
    return f"{what}:{node_at(want, d['at'])}"


def self_check(kind, m, text):
    try:
        ref = canon(REF[kind](text))
    except RefError as e:
        raise SelfCheck(f"the reference rejects generated text: {e}: {text!r}")
    if not same(ref, m):
        raise SelfCheck(f"the reference reads generated text differently: {diff(m, ref)}: {text!r}")


def check_parse(ctx, kind, m, text, case):
    """parse(text) must denote m. -> tree or None"""
    self_check(kind, m, text)
    try:
        o = parse(kind, text)
    except Exception as e:
        ctx.violation(f"rejected:{exc_key(e)}", case, {"text": text, "error": exc_text(e)})
        return None
    ctx.count("trees parsed")
    try:
        got = read(kind, o)
    except Exception as e:
        ctx.violation(f"malformed:{type(e).__name__}", case, {"text": text, "error": exc_text(e)})
        return None
    if not same(got, m):
        ctx.violation(mech_diff("parsed", m, got), case, {"text": text, "difference": diff(m, got)})
        return None
    return o


def check_print(ctx, kind, m, o, case, modes=((False, None), (True, None))):
    """the text printed for o must denote m"""
    for pretty, spaces in modes:
        tag = "pretty" if pretty else "default"
        try:
            text = show(o, pretty, spaces)
        except Exception as e:
            ctx.violation(f"print-{tag}:{exc_key(e)}", case, {"error": exc_text(e)})
            return False
        ctx.count("texts printed")
        try:
            got = denotes(kind, m, text)
        except RefError as e:
            ctx.violation(f"printed-invalid-{tag}:{m[0]}", case, {"text": text, "error": str(e)})
            return False
        if not same(got, m):
            ctx.violation(mech_diff("printed-" + tag, m, got), case, {"text": text, "difference": diff(m, got)})
            return False
    return True


def build(ctx, kind, m, rng, case):
    """treeno tree built through the Python API"""
    b = objbuild.Builder(rng)
    try:
        o = {"expr": b.expr, "query": b.query, "rel": b.rel, "type": b.type}[kind](m)
    except Exception as e:
        ctx.violation(f"build:{exc_key(e)}", case, {"error": exc_text(e)})
        return None
    ctx.count("trees built")
    return o


def kinds_in(ctx, m):
    for n in G_walk(m):
        ctx.saw("node kinds", n)


def G_walk(m):
    if isinstance(m, tuple):
        if m and isinstance(m[0], str):
            yield m[0] + (":" + m[1] if m[0] in ("arith", "cmp", "call", "typed", "special", "setop", "type") and len(m) > 1 and isinstance(m[1], str) else "")
        for c in m:
            yield from G_walk(c)


def text_of(m, kind, rng=None, wild=False):
    return render.render(m, kind, render.Renderer.wild(rng) if wild else render.Renderer())


def select_of(item=None, frm=None, where=None, group=None, having=None, wins=(), order=()):
    return ("query", (), ("select", "ALL", (("item", item or ("int", 1), None),), frm, where, group, having, wins), order, None, None)


def in_context(g, e):
    """A query with the expression in some clause position."""
    t = ("table", ("t",))
    k = g.r.randrange(15)
    if k == 0:
        return select_of(e)
    if k == 1:
        return select_of(None, t, where=e)
    if k == 2:
        return select_of(None, t, group=("ALL", (("gset", (e,)),)))
    if k == 3:
        return select_of(None, t, group=("ALL", (g.r.choice([("rollup", (e, ("int", 1))), ("cube", (e,)), ("gsets", (("gset", (e,)), ("gset", ()))),
                                                             ("gset", (e, ("col", None, "a")))]),)))
    if k == 4:
        return select_of(None, t, having=e)
    if k == 5:
        return select_of(None, t, order=((e, g.r.choice(["ASC", "DESC"]), g.r.choice(["LAST", "FIRST"])),))
    if k == 6:
        return select_of(None, ("join", g.r.choice(["INNER", "LEFT", "RIGHT", "FULL"]), False, ("on", e), t, ("table", ("u",))))
    if k == 7:
        return select_of(None, ("unnest", (e, ("col", None, "z")), False))
    if k == 8:
        return ("query", (), ("values", e), (), None, None)
    if k == 9:
        return select_of(None, t, wins=(("w", ("win", None, (e,), (), G.DEFAULT_FRAME)),))
    if k == 10:
        return select_of(("call", "SUM", (("col", None, "x"),), (False, (), None, "RESPECT", ("win", None, (), ((e, "DESC", "LAST"),), G.DEFAULT_FRAME))))
    if k == 11:
        return select_of(("call", "SUM", (("col", None, "x"),), (False, (), None, "RESPECT",
                                                                 ("win", None, (), (), ("ROWS", ("bounded", "PRECEDING", e), ("bounded", "FOLLOWING", e))))))
    if k == 12:
        return select_of(("call", "SUM", (("col", None, "x"),), (False, (), e, "RESPECT", None)))
    if k == 13:
        return select_of(None, ("sample", t, "SYSTEM", e if e[0] not in ("dec", "dbl") else ("int", 5)))
    return ("query", (), ("select", "ALL", (("item", e, "al"), ("star", None), ("item", e, None)), None, None, None, None, ()), (), None, None)


OPS = G.BIN + ["not", "neg", "pos", "isnull", "between", "in", "like", "case", "sub", "lambda", "row"]
_pairs = list(G.pairs())


def pair_cases():
    return _pairs


def triples():
    """parent x position x child x position x grandchild over the operators"""
    out = []
    for p in OPS:
        for i in range(G.HOLES[p]):
            for c in OPS:
                for j in range(G.HOLES[c]):
                    for d in OPS:
                        out.append((p, i, c, j, d))
    return out


def triple_meaning(g, p, i, c, j, d):
    """deterministic shape, leaves at random"""
    def mk(name, hole, child):
        holes = [None] * 9
        for k in range(G.HOLES[name]):
            if name == "case" and k in (0, 3) and k != hole:
                continue
            if name == "like" and k == 2 and k != hole:
                continue
            holes[k] = g.col()
        if child is not None:
            holes[hole] = child
        return g.build(name, holes, 0)
    grand = mk(d, 0, None)
    if c in G.ARITH + ["||"] and G.composite(grand):
        child = mk(c, j, grand)
    else:
        child = mk(c, j, grand)
    return mk(p, i, child)
