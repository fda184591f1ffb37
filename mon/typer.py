"""Typing rules of the dialect over meanings, and a generator of well typed expressions. Shares no code with treeno.

A type is a ("type", NAME, ...) meaning; None stands for unknown (also inside of a type); ANY makes no claim.
"""
import re

from . import funcs as F

ANY = "any"
BOOL, BIGINT, INTEGER, DOUBLE, DATE = [("type", n) for n in ("BOOLEAN", "BIGINT", "INTEGER", "DOUBLE", "DATE")]
STRING = ("type", "VARCHAR", None)
DAY = ("type", "INTERVAL", "DAY", "SECOND")
YEAR = ("type", "INTERVAL", "YEAR", "MONTH")
INTS = {"TINYINT": 3, "SMALLINT": 5, "INTEGER": 10, "BIGINT": 19}
UNK = ("type", "UNKNOWN")


def ts(p, tz):
    return ("type", "TIMESTAMP", p, tz)


def prec(p):
    return 3 if p is None else p


def numeric(t):
    return t[1] in INTS or t[1] in ("REAL", "DOUBLE", "DECIMAL")


def join(a, b):
    """the type both can be coerced to; None when there is none or nothing is known"""
    if ANY in (a, b):
        return ANY
    if a is None or b is None:
        return None
    if a == b:
        return a
    x, y = a[1], b[1]
    if x == y and x in ("ARRAY", "MAP", "ROW"):
        return None if len(a) != len(b) else a[:2] + tuple(join(i, j) for i, j in zip(a[2:], b[2:]))
    if numeric(a) and numeric(b):
        for f in ("DOUBLE", "REAL"):
            if f in (x, y):
                return ("type", f)
        if x in INTS and y in INTS:
            return a if INTS[x] > INTS[y] else b
        (p1, s1), (p2, s2) = [(INTS[t[1]], 0) if t[1] in INTS else t[2:] for t in (a, b)]
        s = max(s1, s2)
        p = max(p1 - s1, p2 - s2) + s
        return ("type", "DECIMAL", p, s) if p <= 38 else None
    if {x, y} <= {"VARCHAR", "CHAR"}:
        if x == y == "VARCHAR":
            return ("type", "VARCHAR", None if None in (a[2], b[2]) else max(a[2], b[2]))
        return ("type", "CHAR", max(65536 if t[2] is None else min(t[2], 65536) for t in (a, b)))
    if {x, y} <= {"DATE", "TIME", "TIMESTAMP"} and {x, y} != {"DATE", "TIME"}:
        t = [i for i in (a, b) if i[1] != "DATE"]
        return ("type", x if x == y else "TIMESTAMP", max(prec(i[2]) for i in t), any(i[3] for i in t))
    if {x, y} == {"HYPERLOGLOG", "P4HYPERLOGLOG"}:
        return ("type", "HYPERLOGLOG")
    return None


def loose(t):
    if isinstance(t, tuple):
        if t[:1] == ("type",) and t[1] in ("TIME", "TIMESTAMP"):
            return ("type", t[1], prec(t[2]), t[3])
        return tuple(loose(x) for x in t)
    return t


def partial(e):
    return e is None or isinstance(e, tuple) and e[1] in ("ARRAY", "MAP", "ROW", "QDIGEST") and any(partial(x) for x in e[2:])


def fits(e, got):
    """does the reported type agree with the rules? A type of which a part is unknown may be unknown altogether."""
    if e == ANY:
        return True
    if e is None or got == UNK:
        return got == UNK and (e is None or partial(e)) or e is None and got == UNK
    if partial(e):
        if got[:2] != e[:2] or len(got) != len(e):
            return False
        return all(fits(x, y) if isinstance(x, tuple) or x is None or x == ANY else x == y for x, y in zip(e[2:], got[2:]))
    if ANY in flat(e):
        return got[:2] == e[:2] and len(got) == len(e) and all(fits(x, y) if isinstance(x, tuple) or x == ANY else x == y for x, y in zip(e[2:], got[2:]))
    return loose(e) == loose(got)


def flat(t):
    if isinstance(t, tuple):
        for x in t:
            yield from flat(x)
    else:
        yield t


def common(ms, ty):
    """the common type of several operands: NULL goes with everything"""
    ts_ = [ty(m) for m in ms if m != ("null",)]
    if not ts_ or None in ts_:
        return None if ANY not in ts_ or None in ts_ else ANY
    out = ts_[0]
    for t in ts_[1:]:
        out = join(out, t)
    return out


TIMEY = re.compile(r"^\s*(?:(?P<d>[+-]?\d+-\d+-\d+)\s*)?(?P<t>\d+:\d+(?::\d+(?:\.(?P<f>\d+))?)?)?\s*(?P<z>.*?)\s*$", re.S)


def typed(name, text):
    """the type of NAME 'text'"""
    if name in ("TIME", "TIMESTAMP"):
        m = TIMEY.match(text)
        if not m or not (m["d"] or m["t"]):
            return ANY
        return ("type", name, len(m["f"] or ""), bool(m["z"]))
    if name == "DECIMAL":
        m = re.fullmatch(r"\s*[+-]?(\d*)(?:\.(\d*))?\s*", text)
        if not m or not (m[1] or m[2]):
            return ANY
        s = len(m[2] or "")
        return ("type", "DECIMAL", max(len((m[1] or "").lstrip("0")) + s, 1), s)
    if name == "CHAR":
        return ("type", "CHAR", len(text)) if len(text) <= 65536 else ANY
    if name == "VARCHAR":
        return STRING
    return ("type", name)


def decimal(unscaled, scale):
    digits = len(str(abs(unscaled))) if unscaled else 1
    p = max(digits, scale, 1)
    return ("type", "DECIMAL", p, scale) if p <= 38 else ANY


RETURNS = {}
for _n in "LENGTH LEVENSHTEIN_DISTANCE HAMMING_DISTANCE COUNT COUNT_IF APPROX_DISTINCT BITWISE_AND_AGG BITWISE_OR_AGG DATE_DIFF TO_MILLISECONDS".split():
    RETURNS[_n] = BIGINT
for _n in ("POWER TO_UNIXTIME GEOMETRIC_MEAN CORR COVAR_POP COVAR_SAMP KURTOSIS REGR_INTERCEPT REGR_SLOPE SKEWNESS STDDEV STDDEV_POP STDDEV_SAMP VARIANCE "
           "VAR_POP VAR_SAMP").split():
    RETURNS[_n] = DOUBLE
for _n in ("CHR FROM_UTF8 HUMAN_READABLE_SECONDS LOWER LPAD LTRIM REPLACE RPAD RTRIM SOUNDEX TO_ISO8601 CURRENT_USER CURRENT_CATALOG CURRENT_SCHEMA "
           "CURRENT_PATH").split():
    RETURNS[_n] = STRING
for _n in "BOOL_AND BOOL_OR EVERY LUHN_CHECK".split():
    RETURNS[_n] = BOOL
for _n in "DATE LAST_DAY_OF_MONTH FROM_ISO8601_DATE".split():
    RETURNS[_n] = DATE
RETURNS.update(CODEPOINT=INTEGER, CHECKSUM=("type", "VARBINARY"), TO_UTF8=("type", "VARBINARY"), APPROX_SET=("type", "HYPERLOGLOG"),
               NUMERIC_HISTOGRAM=("type", "MAP", DOUBLE, DOUBLE), TDIGEST_AGG=("type", "TDIGEST"), PARSE_DURATION=DAY,
               FROM_ISO8601_TIMESTAMP=ts(3, True), NOW=ts(3, True), FROM_UNIXTIME=ts(3, True), FROM_ISO8601_TIMESTAMP_NANOS=ts(9, True),
               FROM_UNIXTIME_NANOS=ts(9, True))
SAME_AS = {"SUM": 0, "ARBITRARY": 0, "MAP_UNION": 0, "NULLIF": 0, "TRY": 0, "DATE_TRUNC": 1, "DATE_ADD": 2}


class Typer:
    """ty(meaning); lookup(table, name) gives the type of a column, query(m) the column types of a subquery"""

    def __init__(self, lookup, query=None, read=False):
        self.read = read  # meanings read from trees, where -2147483648 can be a literal (INTEGER) or the negation of one (BIGINT)
        self.lookup = lookup
        self.query = query or self.columns

    def __call__(self, m):
        k = m[0]
        f = getattr(self, "t_" + k, None)
        return f(m) if f else BOOL

    def t_null(self, m):
        return None

    def t_int(self, m):
        if m[1] == -2 ** 31 and self.read:
            return ANY
        return INTEGER if -2 ** 31 <= m[1] < 2 ** 31 else BIGINT

    def t_dec(self, m):
        return decimal(m[1], m[2])

    def t_dbl(self, m):
        return DOUBLE

    def t_str(self, m):
        return ("type", "VARCHAR", len(m[1]))

    def t_col(self, m):
        return self.lookup(m[1], m[2])

    def t_deref(self, m):
        return None

    def t_var(self, m):
        return None

    def t_lambda(self, m):
        return None

    def t_stararg(self, m):
        return ANY

    def t_neg(self, m):
        return self(m[1])

    t_pos = t_neg

    def t_arith(self, m):
        a, b = self(m[2]), self(m[3])
        if ANY in (a, b):
            return ANY
        if a is None or b is None:
            return None
        if m[1] == "-" and (a[1] in ("DATE", "TIMESTAMP") and b[1] in ("DATE", "TIMESTAMP") or a[1] == b[1] == "TIME"):
            return DAY
        if numeric(a) and numeric(b):
            return join(a, b)
        if a == b and a[1] == "INTERVAL" and m[1] in "+-":
            return a
        # date +- interval (see alternatives) and ill typed operands
        return ANY

    def alternatives(self, m):
        """where the rules make no claim: the types which may be reported, unknown among them; None when anything goes"""
        if m[0] == "arith":
            a, b = self(m[2]), self(m[3])
            if ANY in (a, b) or a is None or b is None:
                return None
            if m[1] in "+-" and b[1] == "INTERVAL" and a[1] in ("DATE", "TIME", "TIMESTAMP"):
                return a, UNK
            if m[1] == "+" and a[1] == "INTERVAL" and b[1] in ("DATE", "TIME", "TIMESTAMP"):
                return b, UNK
            if m[1] in "*/" and a[1] == "INTERVAL" and numeric(b):
                return a, UNK
            if m[1] == "*" and b[1] == "INTERVAL" and numeric(a):
                return b, UNK
        if m[0] == "call" and m[1] == "AVG":
            a = self(m[2][0])
            if a is not None and a != ANY and a[1] in ("REAL", "DECIMAL"):
                return a, DOUBLE
        return None

    def t_case(self, m):
        return common([v for _, v in m[2]] + ([m[3]] if m[3] is not None else []), self)

    def t_cast(self, m):
        return m[2]

    t_trycast = t_cast

    def t_typed(self, m):
        return typed(m[1], m[2])

    def t_interval(self, m):
        return YEAR if m[2] in ("YEAR", "MONTH") else DAY

    def t_row(self, m):
        return ("type", "ROW") + tuple(self(x) for x in m[1:])

    def t_array(self, m):
        return ("type", "ARRAY", common(m[1:], self))

    def t_sub(self, m):
        t = self(m[1])
        if t == ANY or t is None:
            return t
        if t[1] == "ARRAY":
            return t[2]
        if t[1] == "MAP":
            return t[3]
        if t[1] == "ROW":
            i = m[2]
            return t[1 + i[1]] if i[0] == "int" and 1 <= i[1] <= len(t) - 2 else None if i[0] != "int" else ANY
        return ANY

    def t_special(self, m):
        n = m[1]
        if n in F.SESSION:
            return STRING
        if n == "CURRENT_DATE":
            return DATE
        return ("type", "TIME" if n in ("CURRENT_TIME", "LOCALTIME") else "TIMESTAMP", prec(m[2]), n.startswith("CURRENT"))

    def t_normalize(self, m):
        return STRING

    t_listagg = t_normalize

    def t_subq(self, m):
        cols = self.query(m[1])
        if cols is None or cols == ANY:
            return cols
        return cols[0] if len(cols) == 1 else ("type", "ROW") + tuple(cols)

    def columns(self, q):
        """column types of a query as far as its own text says, without resolving its relations"""
        b = q[2]
        if b[0] == "select":
            if any(i[0] != "item" for i in b[2]):
                return None
            return [self(i[1]) for i in b[2]]
        if b[0] == "values":
            return self.values(b[1:])
        if b[0] == "setop":
            x, y = self.columns(b[3]), self.columns(b[4])
            if x is None or y is None:
                return None
            return [join(i, j) for i, j in zip(x, y)] if len(x) == len(y) else ANY
        return None

    def values(self, exprs):
        if all(e[0] == "row" for e in exprs) and len({len(e) for e in exprs}) == 1:
            return [common(c, self) for c in zip(*[e[1:] for e in exprs])]
        t = common(exprs, self)
        if t is not None and t != ANY and t[1] == "ROW":
            return list(t[2:])
        return [t]

    def t_call(self, m):
        n, args = m[1], m[2]
        if n in RETURNS:
            return RETURNS[n]
        a = [self(x) for x in args]
        if n in SAME_AS:
            return a[SAME_AS[n]]
        if n in ("MAX", "MIN"):
            return a[0] if len(a) == 1 else ("type", "ARRAY", a[0])
        if n in ("MAX_BY", "MIN_BY"):
            return a[0] if len(a) == 2 else ("type", "ARRAY", a[0])
        if n == "AVG":
            return a[0] if a[0] is None or a[0] == ANY or a[0][1] == "INTERVAL" else ANY if a[0][1] in ("REAL", "DECIMAL") else DOUBLE
        if n == "ARRAY_AGG":
            return ("type", "ARRAY", a[0])
        if n == "HISTOGRAM":
            return ("type", "MAP", a[0], BIGINT)
        if n == "APPROX_MOST_FREQUENT":
            return ("type", "MAP", a[1], BIGINT)
        if n == "MAP_AGG":
            return ("type", "MAP", a[0], a[1])
        if n == "MULTIMAP_AGG":
            return ("type", "MAP", a[0], ("type", "ARRAY", a[1]))
        if n == "QDIGEST_AGG":
            return ("type", "QDIGEST", a[0])
        if n == "APPROX_PERCENTILE":
            p = a[-1]
            if p is None or p == ANY:
                return p
            return ("type", "ARRAY", a[0]) if p[1] == "ARRAY" else a[0]
        if n == "MERGE":
            t = a[0]
            if t is None or t == ANY:
                return t
            return t if t[1] in ("TDIGEST", "QDIGEST") else ("type", "HYPERLOGLOG") if t[1] in ("HYPERLOGLOG", "P4HYPERLOGLOG") else ANY
        if n in ("AT_TIMEZONE", "WITH_TIMEZONE"):
            t = a[0]
            if t is None or t == ANY:
                return t
            return ts(prec(t[2]), True) if t[1] == "TIMESTAMP" else ANY
        if n == "IF":
            return common(args[1:], self)
        if n == "COALESCE":
            return common(args, self)
        if n == "CONCAT":
            if ANY in a:
                return ANY
            if None in a:
                return None
            names = {t[1] for t in a}
            if names == {"ARRAY"}:
                return self.arrays(a)
            if names <= {"VARCHAR", "CHAR"}:
                if names == {"CHAR"}:
                    return ("type", "CHAR", min(65536, sum(t[2] for t in a)))
                return ANY if "CHAR" in names else STRING
            if names == {"VARBINARY"}:
                return ("type", "VARBINARY")
            return ANY
        if n == "REVERSE":
            return STRING if a[0] is not None and a[0] != ANY and a[0][1] in ("VARCHAR", "CHAR") else ANY
        return ANY

    def arrays(self, a):
        out = a[0]
        for t in a[1:]:
            out = join(out, t)
        return out


# -- well typed expressions -----------------------------------------------------
SCALARS = [("num",), ("num",), ("str",), ("bool",), ("dt",), ("time",), ("ivl", DAY), ("ivl", YEAR), ("bin",), ("json",)]


class TG:
    """Generator of well typed meanings. env: the types of its columns; some columns have no known type."""

    def __init__(self, g, unknown=0.15, column=None):
        self.g, self.r = g, g.r
        self.env = {}
        self.unknown = unknown
        self.column = column  # hook: (kind) -> column meaning, or None

    def kind(self, d=1):
        r = self.r
        x = r.random()
        if d <= 0 or x < 0.75:
            return r.choice(SCALARS)
        if x < 0.85:
            return ("arr", self.kind(d - 1))
        if x < 0.93:
            return ("map", r.choice([("num",), ("str",)]), self.kind(d - 1))
        return ("row",) + tuple(self.kind(d - 1) for _ in range(r.randint(1, 3)))

    def type(self, k):
        r = self.r
        n = k[0]
        if n == "num":
            x = r.randrange(8)
            if x < 6:
                return ("type", ["TINYINT", "SMALLINT", "INTEGER", "BIGINT", "REAL", "DOUBLE"][x])
            p = r.randint(1, 18)
            return ("type", "DECIMAL", p, r.randint(0, p))
        if n == "str":
            return r.choice([STRING, ("type", "VARCHAR", r.randint(0, 20)), ("type", "CHAR", r.randint(1, 20))])
        if n == "bool":
            return BOOL
        if n == "dt":
            return r.choice([DATE, ts(r.choice([None, 0, 3, 6, 9, 12]), r.random() < 0.5)])
        if n == "time":
            return ("type", "TIME", r.choice([None, 0, 3, 6, 12]), r.random() < 0.5)
        if n == "ivl":
            return k[1]
        if n == "arr":
            return ("type", "ARRAY", self.type(k[1]))
        if n == "map":
            return ("type", "MAP", self.type(k[1]), self.type(k[2]))
        if n == "row":
            return ("type", "ROW") + tuple(self.type(x) for x in k[1:])
        if n == "hll":
            return ("type", r.choice(["HYPERLOGLOG", "P4HYPERLOGLOG"]))
        if n == "qd":
            return ("type", "QDIGEST", ("type", r.choice(["BIGINT", "DOUBLE", "REAL"])))
        return ("type", {"bin": "VARBINARY", "json": "JSON", "td": "TDIGEST"}[n])

    def col(self, k):
        if self.column is not None:
            c = self.column(k)
            if c is not None:
                return c
        i = len(self.env)
        name = ("col", self.r.choice([None, None, "t", "u"]), f"c{i}")
        self.env[name[1:]] = None if self.r.random() < self.unknown else self.type(k)
        return name

    def leaf(self, k):
        r = self.r
        n = k[0]
        x = r.random()
        if x < 0.5:
            return self.col(k)
        if x < 0.56:
            return ("null",)
        if x < 0.65 or n in ("json", "hll", "qd", "td", "bin") and n != "json":
            return (r.choice(["cast", "trycast"]), self.col(self.kind(0)), self.type(k))
        if n == "num":
            return r.choice([self.g.number, lambda: ("int", r.choice([0, 1, 2 ** 31 - 1, 2 ** 31, -2 ** 31, -2 ** 31 - 1, 2 ** 40])),
                             lambda: ("dec", r.randint(-10 ** r.randint(0, 9), 10 ** r.randint(0, 9)), r.randint(0, 9)),
                             lambda: ("typed", r.choice(["BIGINT", "DOUBLE", "REAL", "SMALLINT", "TINYINT", "INTEGER"]), "1"),
                             lambda: ("typed", "DECIMAL", r.choice(["1", "-2.50", "0.001", "123456789.12", "00.5", "+7."]))])()
        if n == "str":
            return r.choice([lambda: ("str", self.g.text()), lambda: ("typed", r.choice(["VARCHAR", "CHAR"]), "abc"), lambda: ("special", "CURRENT_USER", None)])()
        if n == "bool":
            return ("bool", r.random() < 0.5)
        if n == "dt":
            return r.choice([("typed", "DATE", "2020-01-01"), ("special", "CURRENT_DATE", None), ("special", "CURRENT_TIMESTAMP", r.choice([3, 0, 6, 12])),
                             ("special", "LOCALTIMESTAMP", r.choice([3, 9])), ("call", "NOW", (), ())] +
                            [("typed", "TIMESTAMP", s) for s in ("2020-01-01 10:20:30", "2020-01-01 10:20:30.123456", "2020-01-01 10:20", "2020-01-01",
                                                                 "2020-01-01 10:20:30 UTC", "2020-01-01 10:20:30.5 Europe/Berlin", "2020-01-01 10:20:30.000 +01:00",
                                                                 "-2020-01-01 10:20:30.12", "2020-01-01 10:20:30.123456789012 America/New_York", "2020-01-01 UTC")])
        if n == "time":
            return r.choice([("special", "CURRENT_TIME", 3), ("special", "LOCALTIME", r.choice([3, 6]))] +
                            [("typed", "TIME", s) for s in ("10:20", "10:20:30", "10:20:30.1", "10:20:30.123456 +01:00", "10:20:30-08:00", "10:20+00:00")])
        if n == "ivl":
            if k[1] == YEAR:
                return ("interval", "2", r.choice(["YEAR", "MONTH"]), None) if r.random() < 0.7 else ("interval", "1-2", "YEAR", "MONTH")
            return ("interval", "3", r.choice(["DAY", "HOUR", "MINUTE", "SECOND"]), None) if r.random() < 0.7 else ("interval", "1 2:3:4", "DAY", "SECOND")
        if n == "arr":
            return ("array",) + tuple(self.leaf(k[1]) for _ in range(r.randint(1, 3)))
        if n == "map":
            return ("call", "MAP_AGG", (self.leaf(k[1]), self.leaf(k[2])), ())
        if n == "row":
            return ("row",) + tuple(self.leaf(x) for x in k[1:])
        return ("cast", self.col(("str",)), self.type(k))

    def expr(self, k, d=3):
        r = self.r
        if d <= 0 or r.random() < 0.1:
            return self.leaf(k)
        x = r.random()
        if x < 0.45:
            return self.generic(k, d - 1)
        own = getattr(self, "e_" + k[0], None)
        return own(k, d - 1) if own else self.generic(k, d - 1)

    def generic(self, k, d):
        r = self.r
        e = lambda kk=k: self.expr(kk, d)  # noqa: E731
        x = r.randrange(15)
        mods = lambda: self.mods(d) if r.random() < 0.3 else ()  # noqa: E731
        if x == 0:
            return ("case", None, tuple((e(("bool",)), e()) for _ in range(r.randint(1, 3))), e() if r.random() < 0.7 else None)
        if x == 1:
            kk = self.kind(0)
            return ("case", e(kk), tuple((e(kk), e()) for _ in range(r.randint(1, 2))), e() if r.random() < 0.7 else None)
        if x == 2:
            return ("call", "IF", (e(("bool",)), e()) + ((e(),) if r.random() < 0.7 else ()), ())
        if x == 3:
            return ("call", "COALESCE", tuple(e() for _ in range(r.randint(2, 4))), ())
        if x == 4:
            return ("call", "NULLIF", (e(), e()), ())
        if x == 5:
            return ("call", "TRY", (e(),), ())
        if x == 6:
            return ("call", r.choice(["MAX", "MIN", "ARBITRARY"]), (e(),), mods())
        if x == 7:
            return ("call", r.choice(["MAX_BY", "MIN_BY"]), (e(), e(self.kind(0))), mods())
        if x == 8:
            return ("sub", e(("arr", k)), e(("num",)))
        if x == 9:
            return ("sub", e(("map", ("str",), k)), e(("str",)))
        if x == 10:
            ks = [self.kind(0) for _ in range(r.randint(1, 3))]
            i = r.randrange(len(ks))
            ks[i] = k
            return ("sub", e(("row",) + tuple(ks)), ("int", i + 1))
        if x == 11:
            return (r.choice(["cast", "trycast"]), e(self.kind(1)), self.type(k))
        if x == 12:
            return ("subq", self.query([k], d))
        if x == 13 and k[0] not in ("ivl", "bin", "json"):
            return ("sub", ("array",) + tuple(e() for _ in range(r.randint(1, 3))), ("int", 1))
        return self.leaf(k)

    def mods(self, d):
        r = self.r
        over = None
        if r.random() < 0.5:
            over = ("win", None, (self.leaf(self.kind(0)),), ((self.leaf(self.kind(0)), "ASC", "LAST"),), ("RANGE", ("unbounded", "PRECEDING"), ("current",)))
        return (r.random() < 0.3, (), self.expr(("bool",), min(d, 1)) if over is None else None, "RESPECT", over)

    def query(self, ks, d):
        """a subquery without FROM or over no known relation, with one column per kind"""
        r = self.r
        x = r.random()
        if x < 0.6 or d <= 0:
            body = ("select", "ALL", tuple(("item", self.expr(k, d), r.choice([None, "x"])) for k in ks), None, None, None, None, ())
        elif x < 0.8:
            rows = [tuple(self.expr(k, d - 1) for k in ks) for _ in range(r.randint(1, 3))]
            rowed = len(ks) > 1 or r.random() < 0.3
            body = ("values",) + tuple(("row",) + row if rowed else row[0] for row in rows)
            if len(ks) == 1 and ks[0][0] == "row":
                body = ("values",) + tuple(("row", row[0]) for row in rows)
        else:
            op = r.choice(["UNION", "INTERSECT", "EXCEPT"])
            body = ("setop", op, "DISTINCT", self.query(ks, d - 1), self.query(ks, d - 1))
        return ("query", (), body, (), None, None)

    def call(self, d, name, *kinds):
        agg = name in F.AGG
        return ("call", name, tuple(self.expr(k, d) for k in kinds), self.mods(d) if agg and self.r.random() < 0.3 else ())

    def e_num(self, k, d):
        r, n = self.r, ("num",)
        x = r.randrange(20)
        if x < 7:
            return ("arith", r.choice("+-*/%"), self.expr(n, d), self.expr(n, d))
        if x == 7:
            return (r.choice(["neg", "pos"]), self.expr(n, d))
        if x == 8:
            return self.call(d, r.choice(["LENGTH", "CODEPOINT"]), ("str",))
        if x == 9:
            return self.call(d, r.choice(["LEVENSHTEIN_DISTANCE", "HAMMING_DISTANCE"]), ("str",), ("str",))
        if x == 10:
            return self.call(d, r.choice(["COUNT", "APPROX_DISTINCT"]), self.kind(1))
        if x == 11:
            return self.call(d, r.choice(["SUM", "AVG", "GEOMETRIC_MEAN", "STDDEV", "STDDEV_POP", "STDDEV_SAMP", "VARIANCE", "VAR_POP", "VAR_SAMP", "SKEWNESS",
                                          "BITWISE_AND_AGG", "BITWISE_OR_AGG"]), n)
        if x == 12:
            return self.call(d, r.choice(["CORR", "COVAR_POP", "COVAR_SAMP", "KURTOSIS", "REGR_INTERCEPT", "REGR_SLOPE", "POWER"]), n, n)
        if x == 13:
            return ("call", "DATE_DIFF", (("str", "day"), self.expr(("dt",), d), self.expr(("dt",), d)), ())
        if x == 14:
            return self.call(d, "TO_UNIXTIME", ("dt",))
        if x == 15:
            return self.call(d, "TO_MILLISECONDS", ("ivl", DAY))
        if x == 16:
            return ("call", "APPROX_PERCENTILE", (self.expr(n, d), ) + ((self.expr(n, d),) if r.random() < 0.4 else ()) + (self.expr(n, d),), ())
        if x == 17:
            return self.call(d, "COUNT_IF", ("bool",))
        if x == 18:
            return ("call", "COUNT", (("stararg", None),), ())
        return ("sub", self.call(d, "MAX", n, n), ("int", 1))

    def e_str(self, k, d):
        r, s = self.r, ("str",)
        x = r.randrange(8)
        if x < 3:
            return ("call", "CONCAT", tuple(self.expr(s, d) for _ in range(r.choice([2, 2, 3]))), ())
        if x == 3:
            return self.call(d, r.choice(["LOWER", "LTRIM", "RTRIM", "REVERSE", "SOUNDEX"]), s)
        if x == 4:
            return self.call(d, r.choice(["LPAD", "RPAD"]), s, ("num",), s)
        if x == 5:
            return r.choice([lambda: self.call(d, "CHR", ("num",)), lambda: self.call(d, "FROM_UTF8", ("bin",)), lambda: self.call(d, "TO_ISO8601", ("dt",)),
                             lambda: self.call(d, "HUMAN_READABLE_SECONDS", ("num",)), lambda: self.call(d, "REPLACE", s, s, s)])()
        if x == 6:
            return ("normalize", self.expr(s, d), r.choice(sorted(F.NORMAL_FORMS)))
        return ("listagg", self.expr(s, d), ",", None, ((self.expr(s, d), "ASC", "LAST"),), False)

    def e_bool(self, k, d):
        r = self.r
        kk = self.kind(1)
        e = lambda q=kk: self.expr(q, d)  # noqa: E731
        b = ("bool",)
        x = r.randrange(12)
        if x < 3:
            return ("cmp", r.choice(["=", "<>", "<", "<=", ">", ">="]), e(), e())
        if x == 3:
            return (r.choice(["and", "or"]), e(b), e(b))
        if x == 4:
            return ("not", e(b))
        if x == 5:
            return ("isnull", e())
        if x == 6:
            return ("between", e(), e(), e())
        if x == 7:
            return ("in", e(), tuple(e() for _ in range(r.randint(1, 3))))
        if x == 8:
            return ("like", e(("str",)), e(("str",)), e(("str",)) if r.random() < 0.3 else None)
        if x == 9:
            return ("distinct", e(), e())
        if x == 10:
            return ("inq", e(), self.query([kk], d))
        return r.choice([lambda: self.call(d, "BOOL_AND", b), lambda: self.call(d, "BOOL_OR", b), lambda: self.call(d, "EVERY", b),
                         lambda: self.call(d, "LUHN_CHECK", ("str",))])()

    def e_dt(self, k, d):
        r = self.r
        x = r.randrange(8)
        if r.random() < 0.12:
            return self.shifted(k, d)
        if x < 2:
            return ("call", "DATE_TRUNC", (("str", "day"), self.expr(k, d)), ())
        if x == 2:
            return ("call", "DATE_ADD", (("str", "day"), self.expr(("num",), d), self.expr(k, d)), ())
        if x == 3:
            return self.call(d, r.choice(["DATE", "LAST_DAY_OF_MONTH"]), k)
        if x == 4:
            return self.call(d, r.choice(["FROM_ISO8601_DATE", "FROM_ISO8601_TIMESTAMP", "FROM_ISO8601_TIMESTAMP_NANOS"]), ("str",))
        if x == 5:
            return r.choice([lambda: self.call(d, "FROM_UNIXTIME", ("num",)), lambda: self.call(d, "FROM_UNIXTIME", ("num",), ("str",)),
                             lambda: self.call(d, "FROM_UNIXTIME", ("num",), ("num",), ("num",)), lambda: self.call(d, "FROM_UNIXTIME_NANOS", ("num",))])()
        return ("call", r.choice(["AT_TIMEZONE", "WITH_TIMEZONE"]), (self.expr(k, d), self.expr(("str",), d)), ())

    def shifted(self, k, d):
        """DATE, TIME or TIMESTAMP and an INTERVAL"""
        r = self.r
        a, i = self.expr(k, d), self.expr(("ivl", r.choice([DAY, YEAR])), d)
        return r.choice([("arith", "+", a, i), ("arith", "-", a, i), ("arith", "+", i, a)])

    def e_time(self, k, d):
        return self.shifted(k, d) if self.r.random() < 0.3 else self.generic(k, d)

    def e_ivl(self, k, d):
        r = self.r
        if r.random() < 0.12:
            n = self.expr(("num",), d)
            return r.choice([("arith", "*", self.expr(k, d), n), ("arith", "*", n, self.expr(k, d)), ("arith", "/", self.expr(k, d), n)])
        if k[1] == DAY:
            x = r.randrange(5)
            if x == 0:
                return ("arith", "-", self.expr(("dt",), d), self.expr(("dt",), d))
            if x == 1:
                return ("arith", "-", self.expr(("time",), d), self.expr(("time",), d))
            if x == 2:
                return self.call(d, "PARSE_DURATION", ("str",))
        x = r.randrange(3)
        if x == 0:
            return ("arith", r.choice("+-"), self.expr(k, d), self.expr(k, d))
        if x == 1:
            return self.call(d, r.choice(["AVG", "SUM"]), k)
        return (r.choice(["neg", "pos"]), self.expr(k, d))

    def e_bin(self, k, d):
        x = self.r.randrange(3)
        if x == 0:
            return self.call(d, "TO_UTF8", ("str",))
        if x == 1:
            return self.call(d, "CHECKSUM", self.kind(1))
        return ("call", "CONCAT", tuple(self.expr(k, d) for _ in range(self.r.choice([2, 2, 2, 3, 4]))), ())

    def e_arr(self, k, d):
        r = self.r
        x = r.randrange(7)
        if x < 2:
            return ("array",) + tuple(self.expr(k[1], d) for _ in range(r.randint(1, 3)))
        if x == 2:
            return self.call(d, "ARRAY_AGG", k[1])
        if x == 3:
            return self.call(d, r.choice(["MAX", "MIN"]), k[1], ("num",))
        if x == 4:
            return self.call(d, r.choice(["MAX_BY", "MIN_BY"]), k[1], self.kind(0), ("num",))
        if x == 5 and k[1] == ("num",):
            return ("call", "APPROX_PERCENTILE", (self.expr(("num",), d), self.expr(("arr", ("num",)), d)), ())
        return ("call", "CONCAT", tuple(self.col(k) for _ in range(self.r.choice([2, 2, 2, 3, 4]))), ())

    def e_map(self, k, d):
        r = self.r
        x = r.randrange(5)
        if x == 0 and k[2] == ("num",):
            return r.choice([lambda: self.call(d, "HISTOGRAM", k[1]), lambda: self.call(d, "APPROX_MOST_FREQUENT", ("num",), k[1], ("num",))])()
        if x == 1 and k[1] == k[2] == ("num",):
            return self.call(d, "NUMERIC_HISTOGRAM", ("num",), ("num",))
        if x == 2 and k[2][0] == "arr":
            return self.call(d, "MULTIMAP_AGG", k[1], k[2][1])
        if x == 3:
            return self.call(d, "MAP_UNION", k)
        return self.call(d, "MAP_AGG", k[1], k[2])

    def e_row(self, k, d):
        return ("row",) + tuple(self.expr(x, d) for x in k[1:])

    def digest(self, d):
        """approximate aggregates, whose types no other function takes"""
        return self.r.choice([lambda: self.call(d, "APPROX_SET", self.kind(0)), lambda: self.call(d, "QDIGEST_AGG", ("num",)),
                              lambda: self.call(d, "TDIGEST_AGG", ("num",)), lambda: self.call(d, "MERGE", ("hll",)),
                              lambda: self.call(d, "MERGE", ("qd",)), lambda: self.call(d, "MERGE", ("td",))])()
