"""Unsupported or malformed SQL is rejected."""
import itertools

from .. import funcs as F, gen as G, lexer, probe as P, words, workload as W
from ..core import exc_key, exc_text
from ..lexer import RefError
from ..model import canon, diff, same

ID = "C08"
RULE = ("damaged texts: tokens of generated queries, expressions and types deleted, inserted, replaced, doubled, swapped, cut off, joined with other texts, characters "
        "damaged; and unsupported constructs (from a list over the whole published grammar) put in place of an expression, relation, type, query or clause of a generated "
        "text. Whatever the library accepts is read back attribute by attribute and must be what an independent parser of the dialect makes of the whole text; what that "
        "parser rejects must raise, at the parse entry points of all three construct kinds. Non-trivial: distinct texts")
NEED = {"damaged texts": 6000, "damaged texts rejected": 3000, "accepted and compared": 250, "unsupported constructs tried": 180, "unsupported in context": 1200, "kinds of damage": 14}
ASSUMPTIONS = ["the reference parser (mon/refparse.py) decides what is a sentence of the supported dialect", "a rejection may be any exception",
               "texts which the reference accepts and the library rejects belong to C01 and C02"]

# constructs of the published grammar which the library doesn't model, and malformed ones
EXPRS = """EXISTS (SELECT 1)
NOT EXISTS (SELECT a FROM t)
a = ALL (SELECT 1)
a < ANY (SELECT 1)
a <> SOME (SELECT 1)
x AT TIME ZONE 'UTC'
x AT TIME ZONE INTERVAL '1' HOUR
GROUPING(a, b)
EXTRACT(YEAR FROM x)
SUBSTRING(x FROM 1)
SUBSTRING(x FROM 1 FOR 2)
POSITION('a' IN x)
TRIM(x)
TRIM(BOTH FROM x)
TRIM(LEADING 'a' FROM x)
TRIM(x, 'a')
JSON_EXISTS(a, 'strict $.x')
JSON_VALUE(a, 'lax $.x')
JSON_QUERY(a, 'lax $')
JSON_OBJECT('a' : 1)
JSON_OBJECT(KEY 'a' VALUE 1)
JSON_ARRAY(1, 2)
?
FINAL SUM(a)
RUNNING LAST(a)
MATCH_NUMBER()
CLASSIFIER()
SUM(a) OVER (ROWS CURRENT ROW AFTER MATCH SKIP TO NEXT ROW PATTERN (A) DEFINE A AS TRUE)
rnk OVER w
X'0AFF'
X'0G'
U&'\\00zz'
U&'\\D800'
U&'\\+00DFFF'
U&'\\+110000'
U&"\\D8ff"
U&'a' UESCAPE 'ab'
`a`
1a
a.b.c
a.b.c.d
"a"."b"."c"
s.fn(a)
cat.s.fn(1)
NOSUCHFUNCTION(a)
SUM()
SUM(a, b, c)
SUM(DISTINCT)
COUNT(DISTINCT *)
COUNT(* ORDER BY a)
SUM(*)
UPPER(DISTINCT a)
UPPER(a) FILTER (WHERE b)
UPPER(a) OVER ()
UPPER(a ORDER BY b)
UPPER()
ROW()
ARRAY[]
CAST(a)
CAST(a AS)
CAST(a AS NOSUCHTYPE)
CAST(a AS ROW(x INTEGER, y VARCHAR))
CAST(a AS DECIMAL(3,2,1))
CAST(a AS VARCHAR(-1))
TRY_CAST(a)
CASE END
CASE a END
CASE a ELSE 1 END
CASE WHEN a END
CASE WHEN a THEN b
CASE WHEN THEN b END
a BETWEEN 1
a BETWEEN 1 OR 2
a NOT NULL
a IS 1
a IS NOT
a IS NOT TRUE
a IS DISTINCT b
a IN ()
a IN 1
a LIKE
a LIKE 'x' ESCAPE
a LIKE b ESCAPE 'x' ESCAPE 'y'
a ILIKE b
a SIMILAR TO b
a = b = c
a < b < c
a IS NULL IS NULL
a == b
a := b
a && b
a | b
a ^ b
a ! b
a -> b -> 
() -> 
(1) -> a
(a, 1) -> a
(a b) -> a
a.(b)
.a
a.
1.a
1..2
1e5
1E
1E+
'a
"a
"a" "b"
'a' 'b'
a b
(a
a)
((a)
(a, )
(, a)
a,
,a
[1]
ARRAY[1
ARRAY[1,]
a[1
a[]
a[1, 2]
a[1:2]
a::INTEGER
INTERVAL 1 DAY
INTERVAL '1'
INTERVAL '1' WEEK
INTERVAL '1' DAY TO
INTERVAL + + '1' DAY
DATE 1
DATE '2020-01-01' '1'
TIME ZONE 'x'
FOO '1'
CURRENT_TIMESTAMP(13)
CURRENT_TIMESTAMP(a)
CURRENT_TIME()
CURRENT_DATE(1)
CURRENT_USER(1)
CURRENT_ROLE
NULLIF(a)
NULLIF(a, b, c)
COALESCE()
COALESCE(a)
IF(a)
IF(a, b, c, d)
NORMALIZE(a, NFX)
NORMALIZE()
TRY(a, b)
LISTAGG(a)
LISTAGG(a, b) WITHIN GROUP (ORDER BY c)
LISTAGG(a) WITHIN GROUP ()
LISTAGG(a, ',' ON OVERFLOW) WITHIN GROUP (ORDER BY c)
LISTAGG(a, ',' ON OVERFLOW TRUNCATE '.') WITHIN GROUP (ORDER BY c)
SUM(a) OVER
SUM(a) OVER (
SUM(a) OVER (ORDER a)
SUM(a) OVER (PARTITION a)
SUM(a) OVER (ROWS BETWEEN 1 PRECEDING)
SUM(a) OVER (ROWS UNBOUNDED)
SUM(a) OVER (ROWS 1)
SUM(a) OVER (x y)
SUM(a) OVER (EXCLUDE TIES)
SUM(a) OVER (ROWS CURRENT ROW EXCLUDE TIES)
SUM(a) FILTER (b)
SUM(a) FILTER WHERE b
SUM(a) OVER () FILTER (WHERE b)
SUM(a) RESPECT NULLS
SUM(a) IGNORE NULLS
SUM(a) IGNORE OVER ()
SUM(a IGNORE NULLS) OVER ()
SUM(a) WITHIN GROUP (ORDER BY b)
APPROX_PERCENTILE(a)
MAX_BY(a)
MAX(a, b, c)
SELECT 1
(SELECT 1
(SELECT)
NOT
NOT NOT
- 
a AND
AND a
a OR OR b
a + * b
a || || b
a ORDER BY b
a AS b
a; b
a;
*
t.*
/* unterminated
a /* unterminated
a /* x */ */
\\
a # b
@a
:a
$1
{d '2020-01-01'}
TABLE t
VALUES 1
CONVERT(a, INTEGER)
CAST(a AS INTEGER FORMAT 'x')
a COLLATE b
a IS JSON
a OVERLAPS b
(a, b) OVERLAPS (c, d)
a MEMBER OF b
UNNEST(a)
PREDICT(a => 1)
FN(TABLE(t))
FN(a => 1)""".split("\n")
QUERIES = """SELECT
SELECT FROM t
SELECT a,
SELECT , a
SELECT a b c
SELECT a AS
SELECT a AS 1
SELECT a AS 'b'
SELECT ALL DISTINCT a
SELECT DISTINCT ON (a) b
SELECT TOP 1 a
SELECT a INTO b FROM t
SELECT * EXCEPT a FROM t
SELECT * AS x FROM t
SELECT * AS (a, b) FROM t
SELECT t.* AS x FROM t
SELECT t.* AS () FROM t
SELECT a.b.* FROM t
SELECT *.a FROM t
SELECT a FROM
SELECT a FROM t,
SELECT a FROM t, u
SELECT a FROM t u v
SELECT a FROM t AS
SELECT a FROM t (a)
SELECT a FROM t AS u()
SELECT a FROM t AS u(1)
SELECT a FROM a.b.c.d
SELECT a FROM (t
SELECT a FROM ()
SELECT a FROM 't'
SELECT a FROM 1
SELECT a FROM t JOIN u
SELECT a FROM t LEFT u ON TRUE
SELECT a FROM t JOIN ON a
SELECT a FROM t JOIN u ON
SELECT a FROM t JOIN u USING
SELECT a FROM t JOIN u USING ()
SELECT a FROM t JOIN u USING a
SELECT a FROM t JOIN u USING (a.b)
SELECT a FROM t JOIN u ON a USING (b)
SELECT a FROM t CROSS JOIN u ON a
SELECT a FROM t NATURAL CROSS JOIN u
SELECT a FROM t NATURAL JOIN u ON a
SELECT a FROM t INNER OUTER JOIN u ON a
SELECT a FROM t FULL INNER JOIN u ON a
SELECT a FROM t LEFT SEMI JOIN u ON a
SELECT a FROM UNNEST()
SELECT a FROM UNNEST(a) WITH
SELECT a FROM UNNEST(a) WITH OFFSET
SELECT a FROM UNNEST a
SELECT a FROM LATERAL SELECT 1
SELECT a FROM TABLE(f(1))
SELECT a FROM TABLE(f(TABLE(t)))
SELECT a FROM t FOR VERSION AS OF 1
SELECT a FROM t FOR TIMESTAMP AS OF b
SELECT a FROM t TABLESAMPLE BERNOULLI
SELECT a FROM t TABLESAMPLE BERNOULLI 10
SELECT a FROM t TABLESAMPLE BERNOULLI ()
SELECT a FROM t TABLESAMPLE POISSON (10)
SELECT a FROM t TABLESAMPLE SYSTEM (10) REPEATABLE (1)
SELECT a FROM t MATCH_RECOGNIZE (PATTERN (A) DEFINE A AS TRUE)
SELECT a FROM t MATCH_RECOGNIZE (PARTITION BY a ORDER BY b MEASURES A.x AS y ONE ROW PER MATCH PATTERN (A+ B?) DEFINE A AS a > 1) AS m
SELECT a FROM t PIVOT (SUM(a) FOR b IN (1))
SELECT a FROM t WHERE
SELECT a WHERE b WHERE c
SELECT a FROM t WHERE a, b
SELECT a FROM t GROUP
SELECT a FROM t GROUP BY
SELECT a FROM t GROUP BY a,
SELECT a FROM t GROUP BY ROLLUP a
SELECT a FROM t GROUP BY ROLLUP()
SELECT a FROM t GROUP BY CUBE()
SELECT a FROM t GROUP BY GROUPING SETS
SELECT a FROM t GROUP BY GROUPING SETS ()
SELECT a FROM t GROUP BY a WITH ROLLUP
SELECT a FROM t HAVING
SELECT a FROM t HAVING a WHERE b
SELECT a FROM t QUALIFY b
SELECT a FROM t WINDOW w
SELECT a FROM t WINDOW w AS
SELECT a FROM t WINDOW w AS x
SELECT a FROM t WINDOW w AS (), w AS ()
SELECT a FROM t ORDER
SELECT a FROM t ORDER BY
SELECT a FROM t ORDER BY a UP
SELECT a FROM t ORDER BY a ASC DESC
SELECT a FROM t ORDER BY a NULLS
SELECT a FROM t ORDER BY a NULLS FIRST LAST
SELECT a FROM t ORDER BY a USING >
SELECT a FROM t OFFSET -1
SELECT a FROM t OFFSET 1.5
SELECT a FROM t OFFSET a
SELECT a FROM t OFFSET ?
SELECT a FROM t OFFSET 1 OFFSET 2
SELECT a FROM t LIMIT -1
SELECT a FROM t LIMIT a
SELECT a FROM t LIMIT 1.5
SELECT a FROM t LIMIT '1'
SELECT a FROM t LIMIT ?
SELECT a FROM t LIMIT 1, 2
SELECT a FROM t LIMIT 1 LIMIT 2
SELECT a FROM t LIMIT 1 OFFSET 2
SELECT a FROM t LIMIT 1 FETCH FIRST ROW ONLY
SELECT a FROM t LIMIT 1 ORDER BY a
SELECT a FROM t FETCH FIRST
SELECT a FROM t FETCH FIRST 1 ROW
SELECT a FROM t FETCH FIRST 1 ROWS WITH TIES
SELECT a FROM t FETCH FIRST ROW WITH TIES
SELECT a FROM t FETCH 1 ROW ONLY
SELECT a FROM t FETCH FIRST ? ROWS ONLY
SELECT a FROM t FOR UPDATE
SELECT a FROM t;;
SELECT a FROM t; SELECT b
SELECT a FROM t )
( SELECT a FROM t
SELECT 1 UNION
UNION SELECT 1
SELECT 1 UNION SELECT
SELECT 1 UNION ALL DISTINCT SELECT 2
SELECT 1 INTERSECT ALL SELECT 2
SELECT 1 EXCEPT ALL SELECT 2
SELECT 1 MINUS SELECT 2
SELECT 1 UNION BY NAME SELECT 2
SELECT 1 ORDER BY 1 UNION SELECT 2
SELECT 1 LIMIT 1 UNION SELECT 2
SELECT 1 SELECT 2
(SELECT 1) (SELECT 2)
(SELECT 1 LIMIT 1) LIMIT 2
(SELECT 1 ORDER BY 1) ORDER BY 1
(SELECT 1 LIMIT 2) OFFSET 1
WITH
WITH a SELECT 1
WITH a AS SELECT 1 SELECT 2
WITH a AS (SELECT 1)
WITH a AS () SELECT 1
WITH a AS (SELECT 1), SELECT 2
WITH a() AS (SELECT 1) SELECT 2
WITH a AS (SELECT 1) b AS (SELECT 2) SELECT 3
WITH RECURSIVE a AS (SELECT 1) SELECT 2
WITH RECURSIVE a(n) AS (SELECT 1 UNION ALL SELECT n + 1 FROM a) SELECT n FROM a
WITH a AS (INSERT INTO t SELECT 1) SELECT 2
WITH FUNCTION f() RETURNS INTEGER RETURN 1 SELECT f()
VALUES
VALUES ()
VALUES 1,
VALUES (1, 2
VALUES (1) (2)
TABLE
TABLE 1
TABLE a.b.c.d
TABLE t u
TABLE (t)
a
1
FROM t
t
EXPLAIN SELECT 1
EXPLAIN ANALYZE SELECT 1
SHOW TABLES
SHOW COLUMNS FROM t
DESCRIBE t
USE a.b
CREATE TABLE t AS SELECT 1
CREATE TABLE t (a INTEGER)
CREATE VIEW v AS SELECT 1
DROP TABLE t
ALTER TABLE t RENAME TO u
INSERT INTO t SELECT 1
INSERT INTO t VALUES 1
DELETE FROM t
DELETE FROM t WHERE a
UPDATE t SET a = 1
MERGE INTO t USING u ON a WHEN MATCHED THEN DELETE
TRUNCATE TABLE t
CALL p(1)
GRANT SELECT ON t TO u
SET SESSION a = 1
PREPARE p FROM SELECT 1
EXECUTE p
START TRANSACTION
COMMIT
REFRESH MATERIALIZED VIEW v
COMMENT ON TABLE t IS 'x'
ANALYZE t
DENY SELECT ON t TO u
SELECT 1 /*
-- nothing
/* nothing */
;""".split("\n")
TYPES = """INT
NOSUCHTYPE
ROW(a INTEGER)
ROW(a INTEGER, b VARCHAR)
ROW()
ROW
ARRAY
ARRAY()
ARRAY(INTEGER, INTEGER)
ARRAY<INTEGER>
ARRAY(1)
ARRAY(NOSUCH)
MAP
MAP()
MAP(INTEGER)
MAP(INTEGER, INTEGER, INTEGER)
MAP<INTEGER, INTEGER>
DECIMAL()
DECIMAL(a)
DECIMAL('1')
DECIMAL(3,2,1)
DECIMAL(0)
DECIMAL(39)
DECIMAL(2,3)
DECIMAL(-1)
DECIMAL(3.5)
VARCHAR()
VARCHAR(1,2)
VARCHAR(a)
VARCHAR(-1)
CHAR(65537)
CHAR(1,2)
INTEGER(3)
BIGINT(1)
BOOLEAN(1)
DATE(1)
DOUBLE(1)
DOUBLE PRECISION PRECISION
TIME(13)
TIME(-1)
TIME WITH
TIME WITH ZONE
TIME WITH TIME
TIME WITHOUT TIME
TIMESTAMP(13)
TIMESTAMP(1,2)
TIMESTAMP WITH TIME
TIMESTAMP WITH LOCAL TIME ZONE
INTERVAL
INTERVAL DAY
INTERVAL DAY TO
INTERVAL YEAR TO SECOND
INTERVAL SECOND TO DAY
INTERVAL MONTH TO YEAR
INTEGER INTEGER
INTEGER,
INTEGER)
(INTEGER)
INTEGER;
'INTEGER'
1
INTEGER ARRAY[3]
VARCHAR COLLATE x
s.t
FUNCTION(INTEGER, INTEGER)
x y""".split("\n")
RELS = """UNNEST()
TABLE(f(1))
TABLE(f(TABLE(t)))
t FOR VERSION AS OF 1
t FOR TIMESTAMP AS OF b
t TABLESAMPLE POISSON (1)
t TABLESAMPLE BERNOULLI ()
t MATCH_RECOGNIZE (PATTERN (A) DEFINE A AS TRUE)
t AS u()
a.b.c.d
(t
t, u
t u v
(VALUES)
(SELECT)
t JOIN u
t NATURAL JOIN u ON a
t CROSS JOIN u ON a
(t JOIN u USING ())
'x'
f(1)
()""".split("\n")
ENTRY = ("query", "expr", "type")


def observe(ctx, case, kind, text, tag):
    """parse the text and compare what comes out with the reference"""
    try:
        ref, why = canon(P.REF[kind](text)), None
    except RefError as e:
        ref, why = None, str(e)
    except RecursionError:
        return
    try:
        o = P.parse(kind, text)
    except RecursionError:
        raise
    except Exception as e:
        ctx.count(tag + " rejected")
        ctx.saw("kinds of rejection", exc_key(e))
        if ref is not None:
            ctx.count("rejected though in the dialect (another property)")
        return
    try:
        got = P.read(kind, o)
    except Exception:
        got = None
    if (ref is None or got is not None and not same(got, ref)) and another_reading(kind, text, got):
        ctx.count("another reading of keywords as identifiers")
        return
    if ref is None:
        ctx.violation(f"accepted:{why_key(why)}", case, {"text": text, "reference": why, "tree": repr(o)[:800], "printed": P.show(o) if o is not None else None})
        return
    if got is None:
        ctx.violation(f"no tree:{type(o).__name__}", case, {"text": text, "returned": repr(o)[:300]})
        return
    ctx.count("accepted and compared")
    if not same(got, ref):
        ctx.violation(P.mech_diff("altered", ref, got), case, {"text": text, "difference": diff(ref, got)})


def names_of(m):
    if isinstance(m, str):
        yield m
    elif isinstance(m, tuple):
        for x in m:
            yield from names_of(x)


def another_reading(kind, text, got):
    """The reference takes a word that is both a keyword and a possible identifier for a keyword where both would do. The other readings are those of the texts with
    such words quoted."""
    if got is None:
        return False
    names = set(names_of(got))
    try:
        toks = lexer.lex(text)
    except RefError:
        return False
    words_ = [t for t in toks if t.kind == "word" and t.text in names and words.keyword(t.text) in words.NONRESERVED]
    n = range(len(words_))
    sets = [(k,) for k in n] + [c for s in (2, 3) for c in itertools.combinations(n, s)][:1500]
    if len(words_) <= 8:
        sets += [c for s in range(4, len(words_) + 1) for c in itertools.combinations(n, s)]
    for chosen in sets:
        t = text
        for k in reversed(chosen):
            w = words_[k]
            t = t[:w.pos] + f'"{w.text}"' + t[w.pos + len(w.text):]
        try:
            if same(canon(P.REF[kind](t)), got):
                return True
        except (RefError, RecursionError):
            pass
    return False


def why_key(why):
    import re
    return re.sub(r"Tok\(.*|at .*|'.*", "", why).strip()[:60]


def one(ctx, case):
    if case[0] == "damaged":
        _, kind, text, how = case
        ctx.case((kind, text), sample=f"{how}: {text}"[:300] if ctx.evals % 301 == 1 else None)
        ctx.count("damaged texts")
        ctx.saw("kinds of damage", how)
        return observe(ctx, case, kind, text, "damaged texts")
    if case[0] == "statement":
        return statement(ctx, case)
    _, kind, text, what = case
    # listed constructs: rejected whatever the reference says
    try:
        P.REF[kind](text)
        raise P.SelfCheck(f"the reference accepts {text!r}")
    except (RefError, RecursionError):
        pass
    ctx.case((kind, text), sample=f"unsupported: {text}"[:300] if ctx.evals % 301 == 1 else None)
    ctx.saw("unsupported constructs tried", what)
    try:
        o = P.parse(kind, text)
    except RecursionError:
        raise
    except Exception as e:
        ctx.saw("kinds of rejection", exc_key(e))
        return
    ctx.violation(f"unsupported accepted:{what[:60]}", case, {"text": text, "construct": what, "tree": repr(o)[:800]})


def statement(ctx, case):
    """the grammar's rule for whole statements, most of which aren't queries"""
    from treeno.builder.convert import ConvertVisitor
    from treeno.grammar.parse import AST
    text = case[1]
    try:
        o = ConvertVisitor().visit(AST(text).parser().singleStatement())
    except RecursionError:
        raise
    except Exception as e:
        ctx.count("statements rejected")
        return
    ctx.count("statements read")
    try:
        ref = canon(P.REF["query"](text))
    except RefError as e:
        ctx.violation(f"statement accepted:{why_key(str(e))}", case, {"text": text, "reference": str(e), "tree": repr(o)[:800]})
        return
    try:
        got = P.read("query", o)
    except Exception:
        got = None
    if got is None or not same(got, ref):
        ctx.violation("statement altered", case, {"text": text, "tree": repr(o)[:800]})


VOCAB = sorted(words.KEYWORDS) + [x.lower() for x in sorted(words.KEYWORDS)] + \
    lexer.OPS * 6 + [";", "'s'", '"q"', "1", "2.5", "1E2", "a", "b", "*", "t.a", "`q`", "1x", "X'00'", "U&'x'", "Select", "sum(a)", "'", '"', "--", "/*", "*/", "\\", "#", "!"] * 3


def tokens(text):
    return [t.text for t in lexer.lex(text)]


def damage(r, text, other):
    """-> damaged text, name of the damage"""
    toks = tokens(text)
    how = r.choice(["delete", "delete", "insert", "insert", "replace", "replace", "double", "swap", "cut", "cut front", "append", "join", "character deleted",
                    "character inserted", "character replaced", "quote dropped", "move", "parenthesis", "delete several", "splice", "qualify"])
    i = r.randrange(len(toks))
    if how == "delete":
        del toks[i]
    elif how == "delete several":
        del toks[i:i + r.randint(2, 4)]
    elif how == "insert":
        toks.insert(r.randint(0, len(toks)), r.choice(VOCAB))
    elif how == "replace":
        toks[i] = r.choice(VOCAB)
    elif how == "double":
        toks.insert(i, toks[i])
    elif how == "qualify":
        ws = [k for k, t in enumerate(toks) if t[0].isalpha() or t[0] == '"']
        if ws:
            # names which a qualifier is put in front of: functions' more often than others
            i = r.choice([k for k in ws if k + 1 < len(toks) and toks[k + 1] == "("] * 3 + ws)
        toks[i:i] = [r.choice([toks[i], toks[i], r.choice(ws and [toks[k] for k in ws] or toks), "a", '"A"']), r.choice([".", ".", ".", ".", ","])]
    elif how == "swap":
        j = min(len(toks) - 1, i + r.randint(1, 2))
        toks[i], toks[j] = toks[j], toks[i]
    elif how == "move":
        t = toks.pop(i)
        toks.insert(r.randint(0, len(toks)), t)
    elif how == "cut":
        toks = toks[:i]
    elif how == "cut front":
        toks = toks[i:]
    elif how == "append":
        toks += [r.choice(VOCAB) for _ in range(r.randint(1, 2))]
    elif how == "join":
        toks += r.choice([[], [";"], [","], ["UNION"], ["AND"]]) + tokens(other)
    elif how == "splice":
        o = tokens(other)
        a = r.randrange(len(o))
        toks[i:i + r.randint(0, 2)] = o[a:a + r.randint(1, 4)]
    elif how == "parenthesis":
        ps = [k for k, t in enumerate(toks) if t in "()[]"]
        if ps:
            k = r.choice(ps)
            if r.random() < 0.5:
                del toks[k]
            else:
                toks[k] = r.choice("()[]")
        else:
            toks.insert(i, r.choice("()[]"))
    else:
        s = " ".join(toks)
        k = r.randrange(len(s)) if s else 0
        if how == "character deleted":
            return s[:k] + s[k + 1:], how
        if how == "character inserted":
            return s[:k] + r.choice("'\"`();,.*-/\\?!|<>=[]{}:@#$%^&~ \n0aE_\x00\u00e9\u2028") + s[k:], how
        if how == "character replaced":
            return s[:k] + r.choice("'\"`();,.*-/\\?!|<>=[]{}:@#$%^&~ \n0aE_\u00e9") + s[k + 1:], how
        qs = [k for k, c in enumerate(s) if c in "'\""]
        if qs:
            k = r.choice(qs)
            return s[:k] + s[k + 1:], how
        return s + "'", how
    return " ".join(toks), how


def holes(m, path=()):
    """paths of the sub-expressions (column references), relations (tables), queries and types of a meaning"""
    if not isinstance(m, tuple):
        return
    if m[:1] == ("col",) and len(m) == 3:
        yield "expr", path
    elif m[:1] == ("table",) and len(m) == 2:
        yield "rel", path
    elif len(m) == 6 and m[0] == "query" and path:
        yield "query", path
    elif m[:1] == ("type",) and path:
        yield "type", path
    for i, x in enumerate(m):
        yield from holes(x, path + (i,))


def put(m, path, new):
    if not path:
        return new
    return m[:path[0]] + (put(m[path[0]], path[1:], new),) + m[path[0] + 1:]


MARK = {"expr": ("col", None, "zzhole"), "rel": ("table", ("zzhole",)), "query": ("query", (), ("tableq", ("zzhole",)), (), None, None)}


def in_place(r, m, kind, want, construct):
    """text of m with an unsupported construct in place of one of its parts of that kind; None without such a part"""
    ps = [p for k, p in holes(m) if k == want]
    if not ps:
        return None
    p = r.choice(ps)
    if want == "type":
        # types in texts: a marker type of one word
        text = P.text_of(put(m, p, ("type", "HYPERLOGLOG")), kind, r, False)
        if text.count("HYPERLOGLOG") != 1:
            return None
        return text.replace("HYPERLOGLOG", construct)
    text = P.text_of(put(m, p, MARK[want]), kind, r, False)
    mark = {"query": 'TABLE "zzhole"'}.get(want, '"zzhole"')
    if text.count(mark) != 1:
        return None
    c = construct
    if want == "expr" and r.random() < 0.6:
        c = f"({c})"
    return text.replace(mark, c)


def vary(r, text):
    """the same construct with other names, numbers and strings: identifiers quoted or replaced, letter case, literals"""
    try:
        toks = lexer.lex(text)
    except RefError:
        return None
    out, end = [], 0
    for t in toks:
        x = r.random()
        new = t.text
        if t.kind == "word" and words.keyword(t.text) is None and t.text.upper() not in F.ARITY:
            if x < 0.3:
                new = f'"{t.text}"'
            elif x < 0.5:
                new = r.choice(['b1', '"Some Name"', '"a""b"', "zone", "_x", '"SELECT"', "Year", '""'])
            elif x < 0.6:
                new = t.text.swapcase()
        elif t.kind == "word" and x < 0.3:
            new = t.text.lower() if t.text.isupper() else t.text.upper()
        elif t.text.isdigit() and x < 0.4:
            new = r.choice(["0", "2", "10", "007", "1.0", "99999999999"])
        elif t.text[:1] == "'" and x < 0.4:
            new = r.choice(["''", "'x''y'", "'1'", "U&'a'"])
        out += [text[end:t.pos], new]
        end = t.pos + len(t.text)
    return "".join(out) + text[end:]


def listed(ctx, kind, text, what):
    try:
        P.REF[kind](text)
    except RefError:
        one(ctx, ("unsupported", kind, text, what))
        ctx.count("unsupported in context")
    except RecursionError:
        pass
    else:
        # in this place it means something else: the general comparison applies
        one(ctx, ("damaged", kind, text, "other meaning in context"))


def work(ctx):
    lists = [("expr", x) for x in EXPRS] + [("query", x) for x in QUERIES] + [("type", x) for x in TYPES]
    for i in ctx.shards(len(lists)):
        kind, x = lists[i]
        one(ctx, ("unsupported", kind, x, x))
    for i in ctx.shards(len(QUERIES)):
        one(ctx, ("statement", QUERIES[i]))
    for i in ctx.shards(ctx.n(150, 2000)):
        r = ctx.rng("statement", i)
        one(ctx, ("statement", P.text_of(G.Gen(r, odd=0).query(2), "query", r, True).strip().rstrip(";")))
    # the same texts given to the other entry points
    for i in ctx.shards(len(lists)):
        kind, x = lists[i]
        for k in ENTRY:
            if k != kind:
                one(ctx, ("damaged", k, x, "other entry point"))
    for i in ctx.shards(len(lists) * ctx.n(4, 80)):
        kind, x = lists[i % len(lists)]
        t = vary(ctx.rng("vary", i), x)
        if t is not None:
            ctx.count("unsupported constructs varied")
            listed(ctx, kind, t, x)
    for i, x in enumerate(["", " ", "\n", "--", "/**/", ";", "(", ")", "'", '"', "\x00", ".", "()", "(())", "/*", "-- a\n", "\ufeff", "''", '""']):
        if ctx.mine(i):
            for k in ENTRY:
                one(ctx, ("damaged", k, x, "almost empty"))
    inner = [("expr", x) for x in EXPRS] + [("rel", x) for x in RELS] + [("query", x) for x in QUERIES] + [("type", x) for x in TYPES]
    n = ctx.n(3, 60) * len(inner)
    for i in ctx.shards(n):
        want, x = inner[i % len(inner)]
        r = ctx.rng("context", i)
        what = x
        if r.random() < 0.4:
            x = vary(r, x) or x
        for _ in range(8):
            g = G.Gen(r, odd=0.0)
            if want == "type":
                kind, m = r.choice([("expr", ("cast", g.expr(1), g.type(2))), ("type", ("type", "ARRAY", g.type(1))), ("query", P.in_context(g, ("trycast", g.col(), g.type(1))))])
            elif want == "expr" and r.random() < 0.6:
                kind, m = "expr", g.expr(3)
            elif want == "expr":
                kind, m = "query", P.in_context(g, g.expr(2))
            elif want == "rel":
                kind, m = "query", W.from_(W.relation_random(g, r.randint(0, 3)))
            else:
                kind, m = "query", W.nest_case(g, *r.choice(W.NEST_PAIRS))
            t = in_place(r, m, kind, want, x)
            if t is not None:
                listed(ctx, kind, t, what)
                break
    n = ctx.n(7000, 300000)
    for i in ctx.shards(n):
        r = ctx.rng("damage", i)
        g = G.Gen(r, odd=0.15)

        def some():
            x = r.random()
            if x < 0.3:
                return "query", g.query(1)
            if x < 0.5:
                _, _, m = W.family_case(ctx, r.randrange(W.TOTAL), f"c08/{i}", odd=0.05)
                return "query", m
            if x < 0.88:
                m = g.expr(r.choice([1, 2, 3])) if r.random() < 0.6 else g.call(r.choice(sorted(F.ARITY)), [None] * 9, 1, mods=r.random() < 0.5)
                return "expr", m
            return "type", g.type(2)
        kind, m = some()
        kind2, m2 = some()
        try:
            text, other = P.text_of(m, kind, r, r.random() < 0.3), P.text_of(m2, kind2, r, False)
        except Exception:
            continue
        for _ in range(2):
            t, how = damage(r, text, other)
            if r.random() < 0.25 and t.strip():
                try:
                    t, _ = damage(r, t, other)
                    how += " and more"
                except Exception:
                    pass
            one(ctx, ("damaged", kind, t, how.replace(" and more", "")))
