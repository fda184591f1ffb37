"""Printed queries mean what the tree says."""
from .. import gen as G, probe as P, workload as W
from ..model import canon, diff, same

ID = "C04"
RULE = ("every subset of SELECT clauses, relation parent/child pairs, trees of up to 3 set operations, window frames, OFFSET/LIMIT boundary pairs, "
        "query nestings, random queries and relations to depth 5: built through the Python API or parsed, printed in default and pretty mode, the text "
        "read by the reference parser and compared with the tree's meaning. Non-trivial: distinct meanings")
NEED = {"texts printed": 15000, "trees built": 8000}
ASSUMPTIONS = ["the reference grammar in mon/refparse.py states the dialect"]


def one(ctx, case):
    if case[0] == "strange":
        return odd(ctx, case)
    kind, m0, seed = case
    m = canon(m0)
    ctx.case(m)
    if isinstance(seed, str):
        o = P.check_parse(ctx, kind, m, seed, case)
        if o is None:
            return
    else:
        o = P.build(ctx, kind, m0, ctx.rng("api", seed), case)
        if o is None:
            return
        got = P.read(kind, o)
        if not same(got, m):
            ctx.violation(P.mech_diff("built", m, got), case, {"difference": diff(m, got)})
            return
    P.check_print(ctx, kind, m, o, case)
    if ctx.evals % 101 == 1 and len(ctx.samples) < 3:
        ctx.samples.append(P.show(o))
    P.kinds_in(ctx, m)


def strange():
    """trees which can't be written as SQL, or only with care: (name, kind, constructor)"""
    from treeno import expression as E, groupby as GB, relation as R, window as WI
    from treeno.base import SetQuantifier
    from treeno.datatypes.builder import bigint
    from treeno.functions import aggregate as A, common as C, datetime as D
    from treeno.orderby import OrderTerm
    f, t, u, one_ = E.Field("a"), R.Table("t"), R.Table("u"), E.wrap_literal(1)
    J = R.JoinType
    q = R.SelectQuery([one_])
    on, using = R.JoinOnCriteria(f > 1), R.JoinUsingCriteria(["x"])

    def join(*a, **k):
        return "rel", lambda: R.Join(t, u, R.JoinConfig(*a, **k))
    out = []
    for j in J:
        for natural in (False, True):
            for name, c in (("none", None), ("on", on), ("using", using)):
                out.append((f"{j.name} join natural={natural} criteria={name}",) + join(j, natural=natural, criteria=c))
    for cls in (R.UnionQuery, R.IntersectQuery, R.ExceptQuery):
        for s in SetQuantifier:
            out.append((f"{cls.__name__} {s.name}", "query", lambda cls=cls, s=s: cls(q, q, set_quantifier=s)))
    out += [
        ("nothing selected", "query", lambda: R.SelectQuery([])),
        ("catalog without a schema", "rel", lambda: R.Table("t", None, "c")),
        ("aliased star", "query", lambda: R.SelectQuery([E.AliasedValue(E.Star(), "x")])),
        ("aliased star of a table", "query", lambda: R.SelectQuery([E.AliasedValue(E.Star("t"), "x")])),
        ("case without branches", "expr", lambda: E.Case([])),
        ("case without branches but ELSE", "expr", lambda: E.Case([], else_=E.Else(one_))),
        ("empty array", "expr", lambda: E.Array([])),
        ("grouping sets", "query", lambda: R.SelectQuery([f], t, groupby=GB.GroupBy([GB.GroupingSetList([])]))),
        ("cube", "query", lambda: R.SelectQuery([f], t, groupby=GB.GroupBy([GB.Cube([])]))),
        ("rollup", "query", lambda: R.SelectQuery([f], t, groupby=GB.GroupBy([GB.Rollup([])]))),
        ("listagg without an order", "expr", lambda: A.ListAgg(f, separator=",")),
        ("listagg over", "expr", lambda: A.ListAgg(f, separator=",", orderby=[OrderTerm(f)], window=WI.Window())),
        ("listagg ignoring nulls", "expr", lambda: A.ListAgg(f, separator=",", orderby=[OrderTerm(f)], null_treatment=WI.NullTreatment.IGNORE)),
        ("count(*) of distinct", "expr", lambda: A.Count(E.Star(), quantifier=SetQuantifier.DISTINCT)),
        ("count(*) ordered", "expr", lambda: A.Count(E.Star(), orderby=[OrderTerm(f)])),
        ("count(*) ignoring nulls", "expr", lambda: A.Count(E.Star(), window=WI.Window(), null_treatment=WI.NullTreatment.IGNORE)),
        ("nulls ignored without a window", "expr", lambda: A.Max(f, null_treatment=WI.NullTreatment.IGNORE)),
        ("cast to unknown", "expr", lambda: E.Cast(f)),
        ("try cast to unknown", "expr", lambda: E.TryCast(f)),
        ("lambda with a parameter twice", "expr", lambda: E.Lambda([E.Lambda.Variable("x"), E.Lambda.Variable("x")], one_)),
        ("lambda without parameters", "expr", lambda: E.Lambda([], one_)),
        ("literal None", "expr", lambda: E.wrap_literal(None) + 1),
        ("operand None", "expr", lambda: f + None),
        ("list as a literal", "expr", lambda: E.wrap_literal([1, 2]) + f),
        ("interval of weeks", "expr", lambda: E.Interval("1", "WEEK")),
        ("row of a row", "expr", lambda: E.RowConstructor([E.RowConstructor([f])])),
        ("row of a single value", "expr", lambda: E.RowConstructor([f])),
        ("hours without minutes", "expr", lambda: D.FromUnixtime(f, hours=1)),
        ("coalesce of one", "expr", lambda: C.Concatenate([f]) if hasattr(C, "Concatenate") else None),
        ("negative negative", "expr", lambda: -(-f)),
        ("negative of a negative number", "expr", lambda: -E.wrap_literal(-1)),
        ("not a number", "expr", lambda: E.wrap_literal(float("nan")) + f),
        ("infinite", "expr", lambda: E.wrap_literal(float("inf")) + f),
        ("values without rows", "query", lambda: R.ValuesQuery([])),
        ("unnest of nothing", "rel", lambda: R.Unnest([])),
        ("unnest of nothing but the ordinality", "rel", lambda: R.Unnest([], with_ordinality=True)),
        ("array from values", "expr", lambda: E.Array.from_values(1, f, 3)),
    ]
    return out


def odd(ctx, case):
    """refused, or printed as valid SQL for the tree"""
    name, kind, make = strange()[case[1]]
    try:
        o = make()
        if o is None:
            return
        texts = P.show(o), P.show(o, True)
    except Exception:
        ctx.count("strange trees refused")
        return
    try:
        m = P.read(kind, o)
    except Exception:
        ctx.count("strange trees without a meaning")
        return
    ctx.count("strange trees printed")
    P.check_print(ctx, kind, m, o, case)


def work(ctx):
    for k in ctx.shards(len(strange())):
        odd(ctx, ("strange", k))
    for k in ctx.shards(W.TOTAL * ctx.n(3, 30)):
        fam, r, m = W.family_case(ctx, k)
        ctx.count("family " + fam)
        if fam == "relations" and r.random() < 0.3 and m[2][3][0] != "subq":
            one(ctx, ("rel", m[2][3], k))
        else:
            one(ctx, ("query", m, k))
    for i in ctx.shards(ctx.n(6000, 100000)):
        r = ctx.rng("random", i)
        g = G.Gen(r)
        m = g.query(r.choice([1, 2, 2, 3, 3, 4, 5])) if r.random() < 0.7 else W.from_(W.relation_random(g, r.randint(2, 6)))
        one(ctx, ("query", m, i))
    for i in ctx.shards(ctx.n(800, 15000)):
        r = ctx.rng("parsed", i)
        g = G.Gen(r)
        m = g.query(r.choice([1, 2, 3])) if r.random() < 0.7 else W.from_(W.relation_random(g, r.randint(2, 4)))
        one(ctx, ("query", m, P.text_of(m, "query", r, True)))
