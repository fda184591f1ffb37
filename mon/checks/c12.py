"""Schema resolution names and types output columns."""
from .. import gen as G, objbuild, objmodel, probe as P, scope as S, scopegen, treewalk as T, typer as Y, workload as W
from ..core import exc_key, exc_text
from ..model import canon

ID = "C12"
RULE = ("random valid queries over random catalogs (tables qualified and not, with and without a supplied schema, same names in several schemas), nesting CTEs (shadowing "
        "tables and each other), subqueries, aliases with and without column aliases, all joins with ON, USING and NATURAL, UNNEST of arrays, rows and maps, LATERAL, "
        "VALUES, TABLE, set operations, stars, correlated scalar subqueries; parsed and built: the columns that resolve() reports (number, names, types, source), "
        "the query's data type and the types of its select items are compared with an independent scope resolver (mon/scope.py); relations are resolved "
        "by themselves as well; every other query workload is resolved without schemas and must not fail. Non-trivial: distinct (query, catalog)")
NEED = {"columns checked": 6000, "known column types": 4000, "unknown column types": 300, "column names": 4000, "queries resolved again": 800, "relations resolved": 300,
        "constructs": 24, "arbitrary queries resolved": 1000, "correlated references": 15}
ASSUMPTIONS = ["NULL has the unknown type, also as a column of a set operation", "a star over relations of unknown schema is reported as one nameless column of unknown type",
               "no claim on invalid queries (missing or ambiguous columns) other than that they don't fail"]


def schema_of(cat, b):
    from treeno.relation import Schema, SchemaField, Table
    from treeno.datatypes.builder import unknown
    fields, ids = [], set()
    for parts, cols in cat:
        p = (None, None, None) + tuple(parts)
        t = Table(name=p[-1], schema=p[-2], catalog=p[-3])
        ids.add(parts[-1])
        for n, ty in cols or ():
            fields.append(SchemaField(n, t, unknown() if ty is None else b.type(ty)))
    return Schema(fields, relation_ids=ids)


def read_type(t):
    return Y.UNK if t.type_name == "UNKNOWN" else objmodel.dtype(t)


def same_name(want, got):
    return want == got


def describe(fields):
    return [(f.name, str(f.data_type)) for f in fields]


def compare(ctx, case, fields, cols, source, tag, info):
    if len(fields) != len(cols):
        ctx.violation(f"{tag}:number of columns", case, {**info, "got": describe(fields), "rule": repr(cols)})
        return False
    for i, (f, c) in enumerate(zip(fields, cols)):
        ctx.count("columns checked")
        if f.name is not None:
            ctx.count("column names")
        if not same_name(c.name, f.name):
            ctx.violation(f"{tag}:name of a column", case, {**info, "column": i, "got": describe(fields), "rule": repr(cols)})
            return False
        got = read_type(f.data_type)
        if c.type != Y.ANY:
            ctx.count("unknown column types" if Y.partial(c.type) else "known column types")
        if not Y.fits(c.type, got):
            kind = "unknown though determined" if got == Y.UNK else "should be unknown" if c.type is None else "wrong type"
            ctx.violation(f"{tag}:{kind}", case, {**info, "column": i, "got": describe(fields), "rule": repr(cols)})
            return False
        if source is not None and f.source is not source:
            ctx.violation(f"{tag}:source of a column", case, {**info, "column": i, "source": type(f.source).__name__})
            return False
    return True


def constructs(ctx, m):
    """which constructs the resolver went through"""
    if not isinstance(m, tuple):
        return
    if m and isinstance(m[0], str) and m[0] in ("select", "values", "tableq", "setop", "table", "alias", "subq", "unnest", "lateral", "sample", "join", "star", "starals"):
        ctx.saw("constructs", m[0])
        if m[0] == "join":
            ctx.saw("constructs", "join " + m[1] + (" natural" if m[2] else " " + m[3][0] if m[3] else ""))
        if m[0] == "alias" and m[3]:
            ctx.saw("constructs", "column aliases")
    if len(m) == 6 and m[0] == "query" and m[1]:
        ctx.saw("constructs", "with")
    for x in m:
        constructs(ctx, x)


def one(ctx, case):
    kind = case[0]
    if kind == "query":
        return query(ctx, case)
    if kind == "relation":
        return rel(ctx, case)
    return arbitrary(ctx, case)


def obtain(ctx, case, m, mode, seed):
    if mode == "parsed":
        text = P.text_of(m, "query", ctx.rng("text", seed), True)
        return P.parse("query", text), text
    o = objbuild.Builder(ctx.rng("api", seed)).query(m)
    return o, P.show(o)


def query(ctx, case):
    _, m, cat, mode, seed = case
    b = objbuild.Builder(ctx.rng("types", seed))
    schema = schema_of(cat, b)
    try:
        q, text = obtain(ctx, case, m, mode, seed)
    except Exception as e:
        ctx.violation(f"{mode}:{exc_key(e)}", case, {"meaning": repr(m)[:600], "error": exc_text(e)})
        return
    info = {"text": text, "schema": [(f.source.sql(None), f.name, str(f.data_type)) for f in schema.fields]}
    S.STATS["outer"] = 0
    cols = S.query(m, S.Env(cat))
    ctx.count("correlated references", S.STATS["outer"])
    shown = P.show(q)
    supplied = T.snapshot(schema.fields), set(schema.relation_ids)
    try:
        out = q.resolve(schema)
    except Exception as e:
        ctx.violation(f"resolve:{exc_key(e)}", case, {**info, "error": exc_text(e)})
        return
    ctx.case((canon(m), cat), sample=f"{text[:300]} => {describe(out.fields)}" if ctx.evals % 23 == 1 else None)
    constructs(ctx, m)
    if not compare(ctx, case, out.fields, cols, q, "query", info):
        return
    if out.relation_ids:
        ctx.violation("query:relation ids", case, {**info, "ids": sorted(out.relation_ids)})
    many = any(c.many for c in cols)
    want = None if many else cols[0].type if len(cols) == 1 else ("type", "ROW") + tuple(c.type for c in cols)
    if not Y.fits(want, read_type(q.data_type)):
        ctx.violation("query:data type of the query", case, {**info, "got": str(q.data_type), "rule": want})
        return
    items(ctx, case, m, q, cat, info)
    if P.show(q) != shown:
        ctx.violation("resolving changed the text", case, {**info, "after": P.show(q)})
        return
    if (T.snapshot(schema.fields), set(schema.relation_ids)) != supplied:
        ctx.violation("resolving changed the schema", case, info)
        return
    ctx.count("queries resolved again")
    try:
        again = q.resolve(schema)
        fresh = P.parse("query", shown).resolve(schema)
    except Exception as e:
        ctx.violation(f"resolve again:{exc_key(e)}", case, {**info, "error": exc_text(e)})
        return
    for what, o in (("again", again), ("after printing", fresh)):
        if describe(o.fields) != describe(out.fields):
            ctx.violation(f"resolving {what} differs", case, {**info, "first": describe(out.fields), what: describe(o.fields)})


def items(ctx, case, m, q, cat, info):
    """the types of the select items are imputed in the tree"""
    if m[2][0] != "select":
        return
    env = S.with_env(m, S.Env(cat))
    scope = S.scope_of(m[2], env)
    ty = S.typer(scope, env)
    for i, v in zip(m[2][2], q.select):
        if i[0] == "item":
            want = ty(i[1])
            if scope.up is None and not Y.fits(want, read_type(v.data_type)):
                ctx.violation("select item:type", case, {**info, "item": P.show(v), "got": str(v.data_type), "rule": want})
                return


def rel(ctx, case):
    _, m, cat, mode, seed = case
    b = objbuild.Builder(ctx.rng("types", seed))
    schema = schema_of(cat, b)
    try:
        if mode == "parsed":
            text = P.text_of(W.from_(m), "query", ctx.rng("text", seed), True)
            o = P.parse("query", text).from_
        else:
            o = b.rel(m)
            text = P.show(o)
    except Exception as e:
        ctx.violation(f"{mode}:{exc_key(e)}", case, {"meaning": repr(m)[:600], "error": exc_text(e)})
        return
    info = {"text": text, "schema": [(f.source.sql(None), f.name, str(f.data_type)) for f in schema.fields]}
    cols, ids = S.relation(m, S.Env(cat))
    try:
        out = o.resolve(schema)
    except Exception as e:
        ctx.violation(f"resolve relation:{exc_key(e)}", case, {**info, "error": exc_text(e)})
        return
    ctx.case((m, cat), sample=f"{text[:300]} => {describe(out.fields)}" if ctx.evals % 23 == 1 else None)
    ctx.count("relations resolved")
    # a relation of which nothing is known may have no columns
    fields = out.fields
    if not fields and all(c.many for c in cols):
        cols = []
    if not compare(ctx, case, fields, cols, None, "relation", info):
        return
    for f, c in zip(fields, cols):
        if not c.many and S.low(f.source.identifier()) != c.rel:
            ctx.violation("relation:column belongs to another relation", case, {**info, "column": f.name, "source": f.source.identifier(), "rule": c.rel})
            return
    if {i.lower() for i in out.relation_ids} != ids:
        ctx.violation("relation:relation ids", case, {**info, "got": sorted(out.relation_ids), "rule": sorted(ids)})


def arbitrary(ctx, case):
    """any query, valid or not, without schemas: resolving doesn't fail, and what is known is right"""
    _, m, mode, seed = case
    from treeno.relation import Schema
    try:
        q, text = obtain(ctx, case, m, mode, seed)
    except Exception as e:
        ctx.violation(f"{mode}:{exc_key(e)}", case, {"meaning": repr(m)[:600], "error": exc_text(e)})
        return
    shown = P.show(q)
    try:
        out = q.resolve(Schema.empty_schema())
    except TypeError as e:
        if "No common supertypes" in str(e) or "Can't" in str(e):
            ctx.count("ill typed queries")
            return
        ctx.violation(f"resolve arbitrary:{exc_key(e)}", case, {"text": text, "error": exc_text(e)})
        return
    except Exception as e:
        ctx.violation(f"resolve arbitrary:{exc_key(e)}", case, {"text": text, "error": exc_text(e)})
        return
    ctx.case((canon(m),))
    ctx.count("arbitrary queries resolved")
    try:
        cols = S.query(m, S.Env(()))
    except RecursionError:
        raise
    compare(ctx, case, out.fields, cols, q, "arbitrary", {"text": text})
    if P.show(q) != shown:
        ctx.violation("resolving changed the text", case, {"text": text, "after": P.show(q)})


def work(ctx):
    n = ctx.n(1500, 40000)
    for j in ctx.shards(n):
        r = ctx.rng("scoped", j)
        sg = scopegen.SG(G.Gen(r, odd=0.03))
        mode = "parsed" if r.random() < 0.6 else "api"
        if j % 4 == 3:
            m = sg.relation(S.Env(sg.cat), r.choice([1, 2, 3]))
            one(ctx, ("relation", m, sg.cat, mode, j))
        else:
            m = sg.full(S.Env(sg.cat), r.choice([1, 2, 2, 3]))
            one(ctx, ("query", m, sg.cat, mode, j))
    k = ctx.n(1400, W.TOTAL * 3)
    for j in ctx.shards(k):
        _, _, m = W.family_case(ctx, j * W.TOTAL // k if ctx.quick else j, "c12", 0.03)
        one(ctx, ("arbitrary", m, "parsed" if j % 3 else "api", j))
