"""Literals and identifiers survive exactly."""
import itertools
import struct
from decimal import Decimal

from .. import dictionary, gen as G, probe as P, refparse
from ..core import exc_key, exc_text
from ..lexer import RefError
from ..model import canon, same
from ..words import KEYWORDS

ID = "C07"
RULE = ("hostile strings (all one- and two-character combinations of 30 dangerous characters, samples of all of Unicode), all keywords in three letter cases as "
        "identifiers, number spellings and Python values (int, bool, float bit patterns, Decimal) put into every literal or identifier position of queries and "
        "expressions; parsed, built and printed in both modes, values compared with an independent reading. Non-trivial: distinct meanings")
NEED = {"string slots": 14, "identifier slots": 24, "python values": 3000, "texts printed": 8000, "number spellings": 1500, "words of the code": 500}
ASSUMPTIONS = ["integers of more than 4300 digits are outside (limit of Python's own int conversion)",
               "the percentage of TABLESAMPLE prints as a decimal whatever kind of number it was (pinned by an existing test)"]

BAD = ["'", '"', "\\", "\n", "\r", "\t", " ", "-", "/", "*", ";", ",", "(", ")", "%", "_", "{", "}", "`", "\x00", "\x1b", "é", "\u2028", "\u00a0",
       "\U0001F600", "a", "0", "\ufeff", "U", "&"]
T = ("table", ("t",))


def sel(item=("int", 1), frm=None, **k):
    return P.select_of(item, frm, **k)


def q(body, ctes=(), order=()):
    return ("query", ctes, body, order, None, None)


def agg(win=None, order=()):
    return ("call", "SUM", (("col", None, "x"),), (False, order, None, "RESPECT", win))


STR_SLOTS = {
    "bare": lambda g, s: ("expr", ("str", s)),
    "in context": lambda g, s: ("query", P.in_context(g, ("str", s))),
    "operand": lambda g, s: ("expr", g.build(g.r.choice(P.OPS[:-3]), [("str", s)] + [None] * 8)),
    "list": lambda g, s: ("expr", ("in", ("str", s), (("col", None, "a"), ("str", s + s), ("str", s)))),
    "like": lambda g, s: ("expr", ("like", ("col", None, "a"), ("str", s), ("str", s[:1] or "!"))),
    "case": lambda g, s: ("expr", ("case", ("str", s), ((("str", s), ("str", s + "'")),), ("str", "'" + s))),
    "argument": lambda g, s: ("expr", ("call", "REPLACE", (("str", s), ("str", s), ("col", None, "b")), ())),
    "typed": lambda g, s: ("expr", ("typed", g.r.choice(["VARCHAR", "JSON", "CHAR", "UUID", "IPADDRESS", "VARBINARY"]), s)),
    "separator": lambda g, s: ("expr", ("listagg", ("col", None, "a"), s, None, ((("col", None, "b"), "ASC", "LAST"),), False)),
    "filler": lambda g, s: ("expr", ("listagg", ("col", None, "a"), s, (s + "x", True), ((("str", s), "DESC", "LAST"),), True)),
    "array": lambda g, s: ("expr", ("sub", ("array", ("str", s), ("str", s + " ")), ("int", 1))),
    "values": lambda g, s: ("query", q(("values", ("row", ("str", s), ("int", 1)), ("row", ("str", "b"), ("int", 2))))),
    "subquery": lambda g, s: ("query", sel(("inq", ("str", s), sel(("str", s), T, where=("cmp", "=", ("str", s), ("col", None, "c")))))),
    "lambda": lambda g, s: ("expr", ("lambda", ("x",), ("cmp", "<>", ("var", "x"), ("str", s)))),
    "window": lambda g, s: ("query", sel(agg(("win", None, (("str", s),), ((("str", s), "ASC", "FIRST"),), G.DEFAULT_FRAME)))),
}
C = ("col", None, "c")
ID_SLOTS = {
    "column": lambda g, i: ("expr", ("col", None, i)),
    "column table": lambda g, i: ("expr", ("cmp", "<", ("col", i, "c"), ("col", "t", i))),
    "deref": lambda g, i: ("expr", ("deref", ("row", C, ("int", 1)), i)),
    "deref chain": lambda g, i: ("expr", ("deref", ("call", "LOWER", (("deref", ("call", "TRY", (C,), ()), i),), ()), i)),
    "parameter": lambda g, i: ("expr", ("lambda", (i,), ("arith", "+", ("var", i), ("int", 1)))),
    "parameters": lambda g, i: ("expr", ("lambda", (i, i + "2"), ("arith", "+", ("var", i), ("var", i + "2")))),
    "select alias": lambda g, i: ("query", q(("select", "ALL", (("item", C, i), ("item", ("int", 1), i)), T, None, None, None, ()))),
    "table": lambda g, i: ("query", sel(C, ("table", (i,)))),
    "schema": lambda g, i: ("query", sel(C, ("table", (i, "t")))),
    "catalog": lambda g, i: ("query", sel(C, ("table", (i, "s", i)))),
    "table alias": lambda g, i: ("query", sel(C, ("alias", T, i, None))),
    "column alias": lambda g, i: ("query", sel(C, ("alias", ("subq", sel(C)), "u", (i, "z", i)))),
    "cte": lambda g, i: ("query", q(("tableq", (i,)), ((i, None, sel(C)), ("z", (i,), sel(C))))),
    "cte column": lambda g, i: ("query", q(("tableq", ("z",)), (("z", (i, "k"), sel(C)),))),
    "window name": lambda g, i: ("query", sel(agg(("win", i, (), (), None)), T, wins=((i, ("win", None, (C,), (), G.DEFAULT_FRAME)),))),
    "window parent": lambda g, i: ("query", sel(agg(("win", i, (), ((C, "DESC", "LAST"),), None)), T)),
    "using": lambda g, i: ("query", sel(C, ("join", "LEFT", False, ("using", (i, "k")), T, ("table", ("u",))))),
    "join alias": lambda g, i: ("query", sel(C, ("join", "INNER", False, ("on", ("cmp", "=", ("col", i, "a"), ("col", "u", i))), ("alias", T, i, None),
                                                 ("table", ("u",))))),
    "star table": lambda g, i: ("query", q(("select", "ALL", (("star", i),), ("alias", T, i, None), None, None, None, ()))),
    "star columns": lambda g, i: ("query", q(("select", "ALL", (("starals", i, (i, "k")),), T, None, None, None, ()))),
    "table query": lambda g, i: ("query", q(("tableq", ("s", i)))),
    "group": lambda g, i: ("query", sel(C, T, group=("ALL", (("rollup", (("col", None, i), C)), ("gset", (("col", i, i),)))))),
    "order": lambda g, i: ("query", sel(C, T, order=((("col", None, i), "DESC", "FIRST"),))),
    "unnest alias": lambda g, i: ("query", sel(C, ("alias", ("unnest", (("col", None, i),), True), i, (i, "o")))),
    "count star": lambda g, i: ("expr", ("call", "COUNT", (("stararg", i),), ())),
    "cast": lambda g, i: ("expr", ("cast", ("col", i, i), ("type", "BIGINT"))),
}
WIDTHS = [0, 1, 4, 9, 79]


def batch(ms):
    return ("row",) + tuple(ms) if len(ms) > 1 else ms[0]


def one(ctx, case):
    what = case[0]
    if what == "py":
        return py(ctx, case)
    if what == "spelling":
        return spelling(ctx, case)
    _, kind, m0, seed = case
    m = canon(m0)
    r = ctx.rng("layout", seed)
    wild = r.random() < 0.7
    text = P.text_of(m0, kind, r, wild)
    ctx.case(m, sample=text if ctx.evals % 97 == 1 else None)
    modes = ((False, None), (True, None), (True, r.choice(WIDTHS)))
    o = P.check_parse(ctx, kind, m, text, case)
    if o is not None:
        P.check_print(ctx, kind, m, o, case, modes)
    b = P.build(ctx, kind, m0, r, case)
    if b is not None:
        try:
            got = P.read(kind, b)
        except Exception as e:
            ctx.violation(f"built:{exc_key(e)}", case, {"error": exc_text(e)})
            return
        if not same(got, m):
            ctx.violation(P.mech_diff("built", m, got), case, {"got": repr(got)[:300]})
            return
        P.check_print(ctx, kind, m, b, case, modes)


def number_value(text):
    """own reading of an unsigned number"""
    if "E" in text:
        return ("dbl", repr(float(text)))
    if "." in text:
        a, b = text.split(".")
        return ("dec", int(a + b), len(b))
    return ("int", int(text))


TEMPLATES = ["{}", "a + {}", "- {}", "a-{}", "a+--\n{}", "({})", "+{}", "{} * {}", "ARRAY[{},{}]", "a[{}]", "CASE WHEN {} THEN {} END", "{}/*c*/",
             "a BETWEEN {} AND {}", "{}||b", "a IN({},{})", "-(-{})", "a - - {}", "{} IS NULL", "LOWER({})", "{}<>{}", "CAST({} AS DOUBLE)"]


def spelling(ctx, case):
    _, text, template = case
    full = template.replace("{}", text)
    m = canon(refparse.parse_expr(full))
    if template == "{}" and not same(m, number_value(text)):
        raise P.SelfCheck(f"number {text!r} read as {m}")
    ctx.case(("spelling", text, template), sample=full if ctx.evals % 97 == 1 else None)
    ctx.count("number spellings")
    o = P.check_parse(ctx, "expr", m, full, case)
    if o is not None:
        P.check_print(ctx, "expr", m, o, case)


def number_text(r):
    def digits(n):
        return "".join(r.choice("0123456789") for _ in range(n))
    k = r.randrange(6)
    n = r.choice([1, 1, 2, 3, 5, 9, 10, 18, 19, 25, 40])
    if k == 0:
        return r.choice(["0", "00", "007", ""]) + digits(n)
    if k == 1:
        a = r.randint(1, 19)
        return digits(a) + "." + digits(r.randint(0, 38 - a))
    if k == 2:
        return "." + digits(r.randint(1, 38))
    if k == 3:
        return r.choice(["0", "00", "000"]) + digits(2) + "." + digits(3) + r.choice(["", "0", "000"])
    e = r.choice(["", "+", "-"]) + str(r.randint(0, 290))
    return r.choice([digits(min(n, 17)), digits(2) + "." + digits(3), "." + digits(4), digits(1) + "."]) + "E" + e


def py_value(r):
    k = r.randrange(10)
    if k <= 1:
        return r.choice([dictionary.number(r), -dictionary.number(r), 0, 1, -1, 2 ** 31 - 1, 2 ** 31, -2 ** 31, -2 ** 31 - 1, 2 ** 63, -2 ** 63, r.randrange(-10 ** 40, 10 ** 40),
                         r.randrange(-10 ** 6, 10 ** 6), 10 ** r.randint(0, 300)])
    if k <= 4:
        while True:
            f = struct.unpack("d", struct.pack("Q", r.getrandbits(64)))[0]
            if f == f and abs(f) != float("inf"):
                return r.choice([f, f, -0.0, 0.0, float(r.randrange(-10 ** 18, 10 ** 18)), round(r.uniform(-1000, 1000), r.randint(0, 6)), 5e-324, 1e16])
    if k <= 7:
        n = r.randint(1, 38)
        digits = tuple(r.randrange(10) for _ in range(n))
        if not any(digits):
            digits = (1,)
        e = r.randint(-38, 38 - n) if r.random() < 0.5 else -r.randint(0, n)
        d = Decimal((r.randrange(2), digits, e))
        return r.choice([d, d, d, Decimal("0"), Decimal("0.00"), Decimal("-0"), Decimal("1E+5"), Decimal("1E-7")])
    if k == 8:
        return r.choice([True, False])
    return hostile(r)


def fits(v):
    """can a DECIMAL(38) hold it"""
    if not isinstance(v, Decimal):
        return True
    s, d, e = v.as_tuple()
    d = int("".join(map(str, d)))
    digits = len(str(d)) + max(e, 0) if d else 1
    return max(digits, -e) <= 38


def py_uses():
    import treeno.expression as ex
    a = ex.Field("a")
    return {"wrap": lambda v: ex.wrap_literal(v), "+": lambda v: a + v, "r-": lambda v: ex.Divide(left=v, right=a),
            "==": lambda v: a == v, "<": lambda v: a < v, "in": lambda v: ex.InList(a, [v, 1]), "like": lambda v: ex.Like(a, v) if isinstance(v, str) else a != v,
            "between": lambda v: ex.Between(a, v, v), "and": lambda v: a & v, ">": lambda v: a > v, "neg": lambda v: -ex.wrap_literal(v)}


def leaf_of(name, m):
    """the literal inside the meaning of the use"""
    if name in ("wrap",):
        return m
    if name in ("+", "==", "<", ">"):
        return m[3]
    if name in ("r-", "and"):
        return m[2]
    if name == "in":
        return m[2][0]
    if name == "like":
        return m[2] if m[0] == "like" else m[3]
    return m[2]


def right(v, m):
    if isinstance(v, bool):
        return same(m, ("bool", v))
    if isinstance(v, int):
        return same(m, ("int", v))
    if isinstance(v, str):
        return same(m, ("str", v))
    if isinstance(v, float):
        return m[0] == "dbl" and struct.pack("d", float(m[1])) == struct.pack("d", v)
    scale = max(-v.as_tuple().exponent, 0)
    return m[0] == "dec" and m[2] == scale and Decimal((0, tuple(map(int, str(abs(m[1])))), -m[2])) * 1 == abs(v) * 1 and (m[1] < 0) == (v < 0)


def py(ctx, case):
    _, src, use = case
    v = eval(src, {"Decimal": Decimal})
    ctx.case(("py", src, use), sample=src if ctx.evals % 97 == 1 else None)
    ctx.count("python values")
    try:
        o = py_uses()[use](v)
        texts = [P.show(o), P.show(o, True), P.show(o, True, 0)]
    except Exception as e:
        ctx.violation(f"python-{type(v).__name__}:{exc_key(e)}", case, {"value": src, "error": exc_text(e)})
        return
    import decimal
    for t in texts:
        try:
            m = refparse.parse_expr(t)
        except RefError as e:
            ctx.violation(f"python-{type(v).__name__}-invalid", case, {"value": src, "text": t, "error": str(e)})
            return
        ctx.count("texts printed")
        with decimal.localcontext() as c:
            c.prec = 400
            if use != "neg":
                ok = right(v, canon(leaf_of(use, m)))
            elif m[0] == "neg":
                ok = right(v, canon(m[1]))
            else:
                ok = not isinstance(v, (str, bool)) and right(-v, canon(m))
        if not ok:
            ctx.violation(f"python-{type(v).__name__}:{use}", case, {"value": src, "text": t, "read": repr(lit)[:200]})
            return


def hostile(r):
    k = r.randrange(7)
    if k == 6:
        return "".join(dictionary.word(r) for _ in range(r.choice([1, 1, 1, 2])))
    if k == 0:
        return "".join(r.choice(BAD) for _ in range(r.randint(0, 12)))
    if k == 1:
        return "".join(chr(r.choice([r.randrange(0x80), r.randrange(0x800), r.randrange(0xE000, 0x10000), r.randrange(0x10000, 0x110000)]))
                       for _ in range(r.randint(1, 8)))
    if k == 2:
        return "".join(r.choice(G.STR_BITS) for _ in range(r.randint(1, 6)))
    if k == 3:
        return r.choice(["", " "]) + r.choice(sorted(KEYWORDS)) + r.choice(["", " ", "'", "\n"])
    if k == 4:
        return "x" * r.choice([70, 78, 79, 80, 81, 200]) + r.choice(BAD) + "y"
    return r.choice(["%s", "{}", "{0}", "\\'", "''; --", "/*", "*/", "--", "$$", "\\u0041", "NULL", "TRUE", "1", "1.0", "1E0", "X'00'", "U&'", "U&'\\0041'",
                     "DATE '2020-01-01'", "a\nb", "\n", "\n\n  x", "  ", "\t", "a b", "'", '"', "''", '""', "`"])


def ident_ok(x):
    return x not in G.TAGS and x != "" and x + "2" not in G.TAGS


def work(ctx):
    singles = list(BAD) + ["".join(p) for p in itertools.product(BAD, repeat=2)] + [""]
    # all short strings and identifiers, in batches
    size = 15
    lots = [singles[i:i + size] for i in range(0, len(singles), size)]
    for rnd in range(ctx.n(2, 12)):
        for n in ctx.shards(len(lots)):
            one(ctx, ("m", "expr", batch([("str", s) for s in lots[n]]), ("s", n, rnd)))
            one(ctx, ("m", "expr", batch([("col", s if rnd else None, s) for s in lots[n] + ["k"] if ident_ok(s)]), ("i", n, rnd)))
    # every word of the code under test, as a string and as a name, in every operand position
    words = dictionary.words()
    size = 12
    for n in ctx.shards((len(words) + size - 1) // size * ctx.n(2, 20)):
        r = ctx.rng("words", n)
        g = G.Gen(r, odd=0)
        k = n % ((len(words) + size - 1) // size)
        out = []
        for w in words[k * size:(k + 1) * size]:
            x = ("str", w) if not ident_ok(w) or r.random() < 0.5 else r.choice([("col", None, w), ("col", w, "k"), ("col", "t", w)])
            op = r.choice(P.OPS[:-3])
            at = r.randrange(3)
            out.append(g.build(op, [x if j == at else None for j in range(9)] if r.random() < 0.5 else [x] + [None] * 8))
        ctx.count("words of the code", len(out))
        one(ctx, ("m", "expr", batch(out), ("words", n)))
    slots = list(STR_SLOTS)
    for i in ctx.shards(ctx.n(5000, 60000)):
        r = ctx.rng("str", i)
        g = G.Gen(r)
        name = slots[i // 8 % len(slots)]
        ctx.saw("string slots", name)
        kind, m = STR_SLOTS[name](g, hostile(r))
        one(ctx, ("m", kind, m, ("str", i)))
    slots = list(ID_SLOTS)
    words = [w for k in sorted(KEYWORDS) for w in (k, k.lower(), k.capitalize())]
    words = [w for w in words if ident_ok(w)]
    for i in ctx.shards(ctx.n(len(words) + 3000, len(words) * 10 + 40000)):
        r = ctx.rng("id", i)
        g = G.Gen(r)
        name = slots[(i // 8 + r.randrange(3)) % len(slots)]
        x = words[i % len(words)] if i < ctx.n(len(words), len(words) * 10) else hostile(r)
        if not ident_ok(x):
            continue
        ctx.saw("identifier slots", name)
        kind, m = ID_SLOTS[name](g, x)
        one(ctx, ("m", kind, m, ("id", i)))
    for i in ctx.shards(ctx.n(5000, 60000)):
        r = ctx.rng("num", i)
        one(ctx, ("spelling", number_text(r), r.choice(TEMPLATES)))
    uses = None
    for i in ctx.shards(ctx.n(6000, 200000)):
        r = ctx.rng("py", i)
        uses = uses or list(py_uses())
        v = py_value(r)
        if not fits(v):
            continue
        one(ctx, ("py", repr(v), uses[i // 8 % len(uses)] if i % 3 else "wrap"))
    for i in ctx.shards(ctx.n(3000, 30000)):
        r = ctx.rng("lit", i)
        g = G.Gen(r, odd=0.5)
        e = r.choice([g.number, g.interval, g.typed, g.literal])()
        one(ctx, ("m",) + (("query", P.in_context(g, e)) if r.random() < 0.5 else ("expr", e)) + (("lit", i),))
