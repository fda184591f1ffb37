"""Expressions carry the right result type."""
from .. import funcs as F, gen as G, objbuild, objmodel, probe as P, treewalk as T, typer as Y
from ..core import exc_key, exc_text
from ..model import canon

ID = "C11"
RULE = ("well typed expressions (every operator, predicate, cast, literal form, function and aggregate over columns of every kind of type, some of unknown type, "
        "with subqueries, VALUES and set operations) built through the API with typed columns, parsed without column types, and parsed with types supplied "
        "by resolve_fields; plus random untyped expressions: the data type of every node of every tree is compared with independent typing rules "
        "(mon/typer.py), and built and resolved trees of the same expression with each other. Non-trivial: distinct (expression, column types)")
NEED = {"node types checked": 40000, "known types checked": 20000, "unknown types checked": 5000, "functions typed": 70, "built and resolved trees compared": 800,
        "operators typed": 25, "kinds of type": 18}
ASSUMPTIONS = ["arithmetic on DECIMALs has the common supertype of the operands, as the library documents", "no claim is made on ill typed operands", "DATE, TIME or TIMESTAMP plus or "
               "minus an INTERVAL and an INTERVAL times a number may be of unknown type; AVG of REAL or DECIMAL may be DOUBLE", "the type of NULL is unknown; it goes with every type"]

SKIP = {"Star", "AliasedStar", "AliasedValue", "Lambda", "Variable", "Subquery"}


def read_type(t):
    return Y.UNK if t.type_name == "UNKNOWN" else unk(objmodel.dtype(t))


def unk(t):
    return t


def meanings(o):
    """(node, meaning) of every expression and query in the tree"""
    from treeno.expression import Value
    from treeno.relation import Query
    for n in T.walk(o):
        if not isinstance(n, Value) or type(n).__name__ in SKIP:
            continue
        try:
            m = ("subq", canon(objmodel.query(n))) if isinstance(n, Query) else objmodel.expr(n)
        except Exception:
            continue
        yield n, m


def check(ctx, case, o, lookup, tag):
    ty = Y.Typer(lookup, read=True)
    types = []
    for n, m in meanings(o):
        try:
            want = Y.INTEGER if m == ("int", -2 ** 31) and type(n).__name__ == "Literal" else ty(m)
        except RecursionError:
            raise
        try:
            got = read_type(n.data_type)
        except Exception as e:
            ctx.violation(f"unreadable type:{type(n).__name__}", case, {"node": P_show(n), "error": exc_text(e)})
            return None
        ctx.count("node types checked")
        types.append(got)
        if want != Y.ANY:
            ctx.count("unknown types checked" if Y.partial(want) else "known types checked")
            ctx.saw("kinds of type", got[1])
            if m[0] == "call":
                ctx.saw("functions typed", m[1])
            else:
                ctx.saw("operators typed", m[0] + (m[1] if m[0] in ("arith", "special") else ""))
        if not Y.fits(want, got):
            what = m[0] + (":" + m[1] if m[0] in ("call", "arith", "typed", "special") else "")
            ctx.violation(f"{tag}:{what}", case, {"node": P_show(n), "type": got, "rule": want, "operands": [str(c.data_type) for _, c in T.child_nodes(n) if hasattr(c, "data_type")]})
            return None
        if want == Y.ANY:
            other = ty.alternatives(m)
            if other is not None:
                ctx.count("one of several types checked")
                if Y.loose(got) not in [Y.loose(t) for t in other] and not (got[1] == other[0][1] == "TIMESTAMP" and got[3] == other[0][3]):
                    ctx.violation(f"{tag}:{m[0]}:{m[1]} of operands without a common type", case,
                                  {"node": P_show(n), "type": got, "rule": f"one of {other}", "operands": [str(c.data_type) for _, c in T.child_nodes(n) if hasattr(c, "data_type")]})
                    return None
    return types


def P_show(n):
    try:
        return str(n)[:300]
    except Exception:
        return type(n).__name__


def one(ctx, case):
    kind, m, env, seed, how = case
    env = dict(env)
    cm = canon(m)
    if how == "parsed":
        text = P.text_of(m, "expr", ctx.rng("text", seed), True)
        try:
            o = P.parse("expr", text)
        except Exception as e:
            ctx.violation(f"rejected:{exc_key(e)}", case, {"text": text, "error": exc_text(e)})
            return
        ctx.case((cm, "parsed"), sample=text if ctx.evals % 97 == 1 else None)
        check(ctx, case, o, lambda t, n: None, "parsed")
        return
    b = objbuild.Builder(ctx.rng("api", seed))
    b.types = env
    try:
        o = b.expr(m)
    except Exception as e:
        ctx.violation(f"build:{exc_key(e)}", case, {"meaning": repr(m)[:500], "error": exc_text(e)})
        return
    ctx.case((cm, case[2]), sample=f"{P_show(o)} : {o.data_type}" if ctx.evals % 97 == 1 else None)
    types = check(ctx, case, o, lambda t, n: env.get((t, n)), "built")
    if types is None or how != "both":
        return
    # the same expression, parsed, with the columns looked up in a schema
    text = P.text_of(m, "expr", ctx.rng("text", seed), True)
    from treeno.datatypes.resolve import resolve_fields
    from treeno.relation import Schema, SchemaField, Table
    tables = {t: Table(t or "d") for t in {k[0] for k in env}}
    schema = Schema([SchemaField(n, tables[t], b.type(ty)) for (t, n), ty in env.items() if ty is not None], relation_ids={t.name for t in tables.values()})
    try:
        p = P.parse("expr", text)
        before = T.snapshot(p)
        q = resolve_fields(p, schema)
    except Exception as e:
        ctx.violation(f"resolve:{exc_key(e)}", case, {"text": text, "error": exc_text(e)})
        return
    if T.snapshot(p) != before:
        ctx.violation("resolve changed its input", case, {"text": text})
        return
    if has(m, "subq") or has(m, "inq"):
        return
    got = check(ctx, case, q, lambda t, n: env.get((t, n)), "resolved")
    if got is not None:
        ctx.count("built and resolved trees compared")
        if read_type(q.data_type) != read_type(o.data_type):
            ctx.violation(f"built and parsed differ:{m[0]}", case, {"text": text, "built": str(o.data_type), "parsed": str(q.data_type)})


def has(m, tag):
    return isinstance(m, tuple) and (m[:1] == (tag,) or any(has(x, tag) for x in m))


def work(ctx):
    def run(i, r, make, unknown=0.12):
        tg = Y.TG(G.Gen(r, odd=0.05), unknown)
        m = make(tg)
        env = tuple(sorted(tg.env.items(), key=repr))
        x = r.random()
        one(ctx, ("expr", m, env, i, "both" if x < 0.45 else "api" if x < 0.8 else "parsed"))

    kinds = Y.SCALARS + [("arr", k) for k in Y.SCALARS] + [("map", ("num",), k) for k in Y.SCALARS] + [("row", k, ("num",)) for k in Y.SCALARS] + \
        [("map", ("str",), ("arr", ("num",))), ("arr", ("arr", ("num",))), ("arr", ("row", ("num",), ("str",)))]
    for j in ctx.shards(len(kinds) * ctx.n(50, 1000)):
        k = kinds[j % len(kinds)]
        run(j, ctx.rng("kind", j), lambda tg: tg.expr(k, 1 + j // len(kinds) % 3), unknown=0.0 if j % 2 else 0.15)
    for j in ctx.shards(ctx.n(300, 6000)):
        run(j, ctx.rng("digest", j), lambda tg: tg.digest(1))
    for j in ctx.shards(ctx.n(1200, 30000)):
        r = ctx.rng("random", j)
        run(j, r, lambda tg: tg.expr(tg.kind(2), 3))
    # untyped expressions: whatever is known must be right
    fns = sorted(F.ARITY) * ctx.n(5, 60)
    for j in ctx.shards(len(fns)):
        r = ctx.rng("fn", j)
        m = G.Gen(r, odd=0.05).call(fns[j], [None] * 9, 1, mods=fns[j] in F.AGG)
        one(ctx, ("expr", m, (), j, "api" if r.random() < 0.5 else "parsed"))
    for j in ctx.shards(ctx.n(800, 20000)):
        r = ctx.rng("untyped", j)
        one(ctx, ("expr", G.Gen(r, odd=0.05).expr(3), (), j, "api" if r.random() < 0.5 else "parsed"))
