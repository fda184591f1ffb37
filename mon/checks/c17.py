"""Input layout and letter case do not matter."""
import re

from .. import funcs as F, gen as G, probe as P, treewalk as T, workload as W
from ..core import exc_key, exc_text
from ..lexer import RefError, lex
from ..model import canon, diff, same

ID = "C17"
RULE = ("pairs of texts of the same meaning (checked with the reference parser): the plain spelling against random spellings (optional words, operator spellings, "
        "parentheses, letter case, line breaks, comments), and texts re-laid out token by token (every white space character and comment form between "
        "every two tokens, keyword and function name case, parentheses around every operand), for all query families, operator pairs, functions, types and "
        "random trees; plus a list with every optional word. The trees must be identical attribute by attribute, types included, and equal. "
        "Non-trivial: distinct text pairs")
NEED = {"tree pairs compared": 6000, "spellings": 70, "gaps": 12}
ASSUMPTIONS = ["the reference grammar states which texts have the same meaning"]

GAPS = [" ", "\n", "\t", "\r\n", "\r", "  \n\t ", "/**/", "/* ' */", "/* \" -- */", " -- x\n", "--'\n", "/* a\nb */", " --\r\n", "/* ; */", "/***/",
        "-- /*\n", "--*/\r", "/*(*/"]
WORDISH = re.compile(r"[A-Za-z0-9_'\"`&.]")

# every optional word and alternative spelling of the dialect: (kind, spelling, other spelling)
SPELLINGS = [
    ("expr", "a <> b", "a != b"), ("expr", "a <> b", "a!=b"), ("expr", "NOT a", "not a"), ("expr", "(a)", "a"), ("expr", "((a + b)) * ((c))", "(a + b) * c"),
    ("expr", "a + (b * c)", "a + b * c"), ("expr", "(a AND b) OR c", "a AND b OR c"), ("expr", "a OR (b AND c)", "a OR b AND c"),
    ("expr", "COUNT(ALL a)", "COUNT(a)"), ("expr", "SUM(ALL a)", "SUM(a)"), ("expr", "count(*)", "COUNT(*)"), ("expr", "Sum(a)", "SUM(a)"),
    ("expr", "CoUnT(DISTINCT a)", "count(distinct a)"),
    ("expr", "ARRAY_AGG(a ORDER BY b ASC)", "ARRAY_AGG(a ORDER BY b)"), ("expr", "ARRAY_AGG(a ORDER BY b NULLS LAST)", "ARRAY_AGG(a ORDER BY b)"),
    ("expr", "ARRAY_AGG(a ORDER BY b DESC NULLS LAST)", "ARRAY_AGG(a ORDER BY b DESC)"),
    ("expr", "LISTAGG(ALL a, ',') WITHIN GROUP (ORDER BY a)", "LISTAGG(a, ',') WITHIN GROUP (ORDER BY a)"),
    ("expr", "LISTAGG(a, ',' ON OVERFLOW ERROR) WITHIN GROUP (ORDER BY a)", "LISTAGG(a, ',') WITHIN GROUP (ORDER BY a)"),
    ("expr", "INTERVAL '5' DAY", "interval '5' day"), ("expr", "INTERVAL + '5' DAY", "INTERVAL '5' DAY"), ("expr", "INTERVAL -'5' DAY", "INTERVAL - '5' DAY"),
    ("expr", "TRUE", "true"), ("expr", "NULL", "null"), ("expr", "FALSE", "false"), ("expr", "DATE '2020-01-01'", "date '2020-01-01'"),
    ("expr", "CAST(a AS BIGINT)", "cast(a as bigint)"), ("expr", "TRY_CAST(a AS ARRAY(BIGINT))", "try_cast(a as array(bigint))"),
    ("expr", "CAST(a AS DOUBLE PRECISION)", "CAST(a AS double precision)"),
    ("expr", "CAST(a AS TIMESTAMP(3) WITHOUT TIME ZONE)", "CAST(a AS TIMESTAMP(3))"),
    ("expr", "CAST(a AS TIME WITHOUT TIME ZONE)", "CAST(a AS TIME)"),
    ("expr", "CAST(a AS TIMESTAMP WITH TIME ZONE)", "cast(a as timestamp with time zone)"),
    ("expr", "a IS NULL", "a is null"), ("expr", "a BETWEEN 1 AND 2", "a between 1 and 2"), ("expr", "a LIKE 'x' ESCAPE '!'", "a like 'x' escape '!'"),
    ("expr", "CASE WHEN a THEN 1 ELSE 2 END", "case when a then 1 else 2 end"), ("expr", "a IS NOT DISTINCT FROM b", "a is not distinct from b"),
    ("expr", "x -> x + 1", "(x) -> x + 1"), ("expr", "x -> x + 1", "x->x+1"), ("expr", "ROW(a, b)", "(a, b)"), ("expr", "row(a, b)", "ROW(a, b)"),
    ("expr", "ARRAY[1, 2]", "array[1,2]"), ("expr", "a[1]", "a [ 1 ]"), ("expr", "CURRENT_DATE", "current_date"),
    ("expr", "SUM(a) FILTER (WHERE b)", "sum(a) filter (where b)"), ("expr", "SUM(a) RESPECT NULLS OVER ()", "SUM(a) OVER ()"),
    ("expr", "SUM(a) OVER (ORDER BY b ROWS UNBOUNDED PRECEDING)", "SUM(a) OVER (ORDER BY b ROWS BETWEEN UNBOUNDED PRECEDING AND CURRENT ROW)"),
    ("expr", "SUM(a) OVER (ORDER BY b RANGE UNBOUNDED PRECEDING)", "SUM(a) OVER (ORDER BY b)"),
    ("expr", "SUM(a) IGNORE NULLS OVER w", "sum(a) ignore nulls over w"),
    ("expr", "1E2", "1.0E2"), ("expr", "U&'a'", "'a'"), ("expr", "U&'\\0041'", "'A'"), ("expr", "U&'!0041' UESCAPE '!'", "'A'"), ("expr", "\"A\"", "A"),
    ("expr", "a || b", "a||b"), ("expr", "0.5", ".5"), ("expr", "5.", "5."), ("expr", "-5", "- 5"), ("expr", "007", "7"),
    ("query", "SELECT ALL a", "SELECT a"), ("query", "SELECT a AS b", "SELECT a b"), ("query", "SELECT a FROM t AS u", "SELECT a FROM t u"),
    ("query", "SELECT a FROM t AS u (x, y)", "SELECT a FROM t u(x,y)"), ("query", "SELECT a;", "SELECT a"), ("query", "SELECT a ; ", "SELECT a"),
    ("query", "SELECT a FROM t JOIN u ON b", "SELECT a FROM t INNER JOIN u ON b"), ("query", "SELECT a FROM t LEFT JOIN u ON b", "SELECT a FROM t LEFT OUTER JOIN u ON b"),
    ("query", "SELECT a FROM t RIGHT JOIN u USING (b)", "SELECT a FROM t RIGHT OUTER JOIN u USING (b)"),
    ("query", "SELECT a FROM t FULL JOIN u ON b", "select a from t full outer join u on b"),
    ("query", "SELECT a FROM t NATURAL JOIN u", "SELECT a FROM t NATURAL INNER JOIN u"), ("query", "SELECT a FROM t NATURAL LEFT JOIN u", "SELECT a FROM t NATURAL LEFT OUTER JOIN u"),
    ("query", "SELECT a FROM t CROSS JOIN u", "select a from t cross join u"),
    ("query", "SELECT a UNION SELECT b", "SELECT a UNION DISTINCT SELECT b"), ("query", "SELECT a INTERSECT SELECT b", "SELECT a INTERSECT DISTINCT SELECT b"),
    ("query", "SELECT a EXCEPT SELECT b", "select a except distinct select b"), ("query", "SELECT a UNION ALL SELECT b", "select a union all select b"),
    ("query", "SELECT a UNION (SELECT b)", "(SELECT a) UNION SELECT b"), ("query", "(SELECT a)", "SELECT a"), ("query", "((SELECT a))", "SELECT a"),
    ("query", "SELECT a GROUP BY ALL b", "SELECT a GROUP BY b"), ("query", "SELECT a GROUP BY (b)", "SELECT a GROUP BY b"),
    ("query", "SELECT a GROUP BY DISTINCT ROLLUP (b, c)", "select a group by distinct rollup (b, c)"),
    ("query", "SELECT a GROUP BY GROUPING SETS ((b), c)", "SELECT a GROUP BY GROUPING SETS (b, (c))"),
    ("query", "SELECT a ORDER BY b ASC", "SELECT a ORDER BY b"), ("query", "SELECT a ORDER BY b NULLS LAST", "SELECT a ORDER BY b"),
    ("query", "SELECT a ORDER BY b ASC NULLS FIRST", "SELECT a ORDER BY b NULLS FIRST"),
    ("query", "SELECT a OFFSET 5 ROWS", "SELECT a OFFSET 5"), ("query", "SELECT a OFFSET 5 ROW", "SELECT a OFFSET 5"), ("query", "SELECT a LIMIT ALL", "SELECT a"),
    ("query", "SELECT a LIMIT 5", "SELECT a FETCH FIRST 5 ROWS ONLY"), ("query", "SELECT a LIMIT 1", "SELECT a FETCH NEXT ROW ONLY"),
    ("query", "SELECT a LIMIT 1", "SELECT a FETCH FIRST 1 ROW ONLY"), ("query", "WITH x AS (SELECT 1) SELECT a", "with x as (select 1) select a"),
    ("query", "VALUES 1, 2", "values (1), (2)"), ("query", "TABLE t", "table t"), ("query", "SELECT a FROM t TABLESAMPLE BERNOULLI (5)", "SELECT a FROM t tablesample bernoulli (5)"),
    ("query", "SELECT a FROM (t)", "SELECT a FROM t"), ("query", "SELECT a FROM ((t CROSS JOIN u))", "SELECT a FROM t CROSS JOIN u"),
    ("query", "SELECT a FROM UNNEST(b) WITH ORDINALITY", "select a from unnest(b) with ordinality"), ("query", "SELECT a FROM LATERAL (SELECT 1)", "select a from lateral (select 1)"),
    ("query", "SELECT a WINDOW w AS (PARTITION BY b ORDER BY c ROWS BETWEEN 1 PRECEDING AND CURRENT ROW)", "select a window w as (partition by b order by c asc rows 1 preceding)"),
    ("query", "SELECT t.*, * FROM t", "select t . * , * from t"), ("query", "SELECT t.* AS (a, b) FROM t", "select t.* as (a,b) from t"),
    ("type", "BIGINT", "bigint"), ("type", "DECIMAL(5)", "DECIMAL(5, 0)"), ("type", "decimal(5,2)", "DECIMAL(5,2)"), ("type", "ROW(BIGINT,DATE)", "row(bigint,date)"),
    ("type", "TIMESTAMP(6) WITH TIME ZONE", "timestamp(6) with time zone"), ("type", "INTERVAL YEAR TO MONTH", "interval year to month"),
    ("type", "VARCHAR(5)", "varchar ( 5 )"), ("type", "DOUBLE", "DOUBLE PRECISION"),
]


def strip(o):
    return T.snapshot(o)


def first_difference(a, b, path=""):
    if a == b:
        return None
    if isinstance(a, tuple) and isinstance(b, tuple) and len(a) == len(b):
        for x, y in zip(a, b):
            d = first_difference(x, y, (a[0] if a and isinstance(a[0], str) else path))
            if d:
                return d
    return f"{path}: {str(a)[:200]} / {str(b)[:200]}"


def one(ctx, case):
    kind, a, b = case
    trees = []
    metas = []
    for t in (a, b):
        text = re.sub(r";\s*$", "", t) if kind == "query" else t
        try:
            metas.append(canon(P.REF[kind](text)))
        except RefError as e:
            raise P.SelfCheck(f"the reference rejects {t!r}: {e}")
    if not same(*metas):
        raise P.SelfCheck(f"the spellings have different meanings: {a!r} / {b!r}: {diff(*metas)}")
    errors = []
    for t in (a, b):
        try:
            trees.append(P.parse(kind, t))
            errors.append(None)
        except Exception as e:
            errors.append(e)
    ctx.case((a, b), sample=f"{a}   ///   {b}" if ctx.evals % 97 == 1 else None, nontrivial=a != b)
    if errors[0] or errors[1]:
        if errors[0] and errors[1]:
            ctx.count("both rejected (another property)")
            return
        k = 0 if errors[0] else 1
        ctx.violation(f"rejected:{exc_key(errors[k])}", case, {"rejected": (a, b)[k], "accepted": (b, a)[k], "error": exc_text(errors[k])})
        return
    sa, sb = strip(trees[0]), strip(trees[1])
    ctx.count("tree pairs compared")
    if sa != sb:
        d = first_difference(sa, sb)
        ctx.violation("tree:" + d.split(":")[0].split(".")[-1], case, {"texts": [a, b], "difference": d})
        return
    if not trees[0].equals(trees[1]):
        ctx.violation("unequal", case, {"texts": [a, b]})


def retokenize(r, text, gaps, ctx=None):
    """the same tokens in another layout"""
    toks = [t for t in lex(text)]
    out = []
    for i, t in enumerate(toks):
        s = t.text
        if i:
            p = toks[i - 1].text
            g = r.choice(gaps)
            if r.random() < 0.3:
                g = ""
            if not g and (WORDISH.match(p[-1]) and WORDISH.match(s[0]) or p + s in ("--", "/*", "*/") or p[-1] + s[0] in
                          ("<>", "<=", ">=", "->", "=>", "||", "!=", "--", "/*", "*/")):
                g = " "
            if g == "/**/" or g.startswith(("/*", "--")):
                if p[-1] in "-/":
                    g = " " + g
            if ctx is not None:
                ctx.saw("gaps", g)
            out.append(g)
        out.append(s)
    pad = [r.choice(["", " ", "\n", "/* x */", "-- y\n"]) for _ in range(2)]
    return pad[0] + "".join(out) + pad[1]


def work(ctx):
    from ..render import Renderer, render

    def wild(m, kind, r):
        w = Renderer.wild(r)
        w.same_tree = True
        return render(m, kind, w)

    def pair(kind, m, r):
        a = P.text_of(m, kind)
        x = r.random()
        if x < 0.4:
            b = wild(m, kind, r)
        elif x < 0.75:
            b = retokenize(r, a, GAPS, ctx)
        elif x < 0.85:
            b = render(m, kind, Renderer(r, "mixed", parens=1.0, quote=1.0))
        else:
            b = retokenize(r, wild(m, kind, r), GAPS, ctx)
        try:
            one(ctx, (kind, a, b))
        except P.SelfCheck:
            if x < 0.4:
                raise
            # comments or spacing made a different sentence: not the same tokens
            ctx.count("re-laid out texts of another meaning (skipped)")

    for i in ctx.shards(len(SPELLINGS)):
        one(ctx, SPELLINGS[i])
        ctx.saw("spellings", i)
        for k in range(ctx.n(3, 40)):
            kind, a, b = SPELLINGS[i]
            if a.endswith(";") or b.rstrip().endswith(";"):
                continue
            r = ctx.rng("sp", i, k)
            one(ctx, (kind, retokenize(r, a, GAPS, ctx), retokenize(r, b, GAPS, ctx)))
    for k in ctx.shards(W.TOTAL * ctx.n(1, 12)):
        fam, r, m = W.family_case(ctx, k, "c17")
        ctx.count("family " + fam)
        pair("query", m, r)
    pc = P.pair_cases()
    for k in ctx.shards(len(pc) * ctx.n(1, 10)):
        r = ctx.rng("pairs", k)
        pair("expr", G.pair_meaning(G.Gen(r), *pc[k % len(pc)]), r)
    fns = sorted(F.ARITY) * ctx.n(3, 40)
    for i in ctx.shards(len(fns)):
        r = ctx.rng("fn", i)
        f = fns[i]
        pair("expr", G.Gen(r).call(f, [None] * 9, 1, mods=f in F.AGG, over=r.random() < 0.5), r)
    for i in ctx.shards(ctx.n(1500, 40000)):
        r = ctx.rng("random", i)
        g = G.Gen(r)
        kind = r.choice(["expr", "query", "query", "type"])
        m = g.expr(3) if kind == "expr" else g.query(3) if kind == "query" else g.type(3)
        pair(kind, m, r)
