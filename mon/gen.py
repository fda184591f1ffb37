"""Workload generator: produces meanings (nested tuples) for the whole modelled dialect, systematically and at random."""
import random

from . import dictionary
from . import funcs as F
from .model import canon

PLAIN = ["a", "b", "c", "d", "x", "y", "z", "col1", "_u", "Foo", "tBl", "id", "total_2"]
ODD = ["SELECT", "from", "order", "Group", "a b", 'q"t', "it's", "x.y", "é", "naïve", "日本", "1st", "a--b", "a/*b*/", "%s",
       "{left}", "{0}", "line\nbreak", "tab\there", "  lead", "trail ", "NULL", "true", "CURRENT_DATE", "count", "\\n", "a;b",
       "ROW", "values", "\U0001F600", "''", '""', "limit", "OFFSET", "x y  z", "a\n  b\n", "FETCH", "window"]
NONRES = ["year", "data", "key", "comment", "TYPE", "schema", "level", "MINUTE"]
# identifiers must never look like a node tag of the meaning vocabulary
TAGS = dictionary.TAGS
assert not TAGS & set(PLAIN + ODD + NONRES)
STR_BITS = ["", "a", "abc", "'", "''", '"', "\\", "\\n", "\n", "\n\n", "\r\n", "\t", " ", "  ", "--", "-- x\n", "/*", "*/", "%", "_", ";",
            "é", "日本語", "\U0001F600", "\u200b", "\x00", "\x07", "{value}", "{left}", "{}", "%s", "%(x)s", "$1", "NULL", "SELECT", "1",
            "U&'", "\\0041", "\u00a0", "''''", "(", ")", ",", "E0", "a\n  b", "x" * 90, "word " * 30, "AND", " OR ", "\n FROM x"]
INTS = [0, 1, 2, 7, 10, 99, 127, 128, 255, 32767, 32768, 2 ** 31 - 1, 2 ** 31, 2 ** 32, 2 ** 53 + 1, 2 ** 63 - 1]
BIGINTS = [2 ** 63, 2 ** 64, 10 ** 30, 12345678901234567890123]
DECS = [(0, 1), (1, 0), (5, 1), (10, 1), (100, 2), (123, 2), (1, 10), (99999, 3), (25, 2), (10 ** 17, 5), (10 ** 37 + 1, 0), (10 ** 37 + 7, 38),
        (12345678901234567890123456789, 10), (0, 5), (5, 0), (700, 0)]
DBLS = [0.0, 1.0, 0.5, 1.5, 3.14159, 1e10, 1e16, 1e22, 1e100, 1.7976931348623157e308, 5e-324, 1e-7, 2.5e-5, 123456.789, 1e15, 100.0,
        9007199254740993.0, 0.1, 0.30000000000000004]
DATE_T = ["2020-01-02", "1999-12-31"]
TIME_T = ["01:02:03", "23:59:59.123", "00:00:00.123456789", "10:11:12.5 UTC", "01:02"]
TS_T = ["2020-01-02 03:04:05", "2020-01-02 03:04:05.678", "2020-01-02", "2020-01-02 03:04:05.123456 UTC",
        "2020-01-02 03:04:05 America/Los_Angeles", "2020-01-02 03:04:05.1 +08:00", "2020-01-02 03:04"]
FIELDS = ["YEAR", "MONTH", "DAY", "HOUR", "MINUTE", "SECOND"]
ARITH = ["+", "-", "*", "/", "%"]
CMP = ["=", "<>", "<", "<=", ">", ">="]
DEFAULT_FRAME = ("RANGE", ("unbounded", "PRECEDING"), ("current",))


class Gen:
    def __init__(self, rng, odd=0.25, typed=True):
        self.r = rng
        self.odd = odd
        self.in_lambda = 0
        self.past = []
        # now and then few different names: what is said about repeated columns, tables and expressions shows only then
        self.vocab = rng.sample(PLAIN, rng.randint(1, 3)) if rng.random() < 0.15 else ()

    # -- leaves ----------------------------------------------------------
    def ch(self, p):
        return self.r.random() < p

    def few(self, lo, hi):
        """a number of things: now and then more than usual"""
        n = self.r.randint(lo, hi)
        return n if lo == hi or self.r.random() > 0.1 else n + self.r.randint(1, 4)

    def ident(self):
        x = self.r.random()
        if self.vocab and self.r.random() < 0.9:
            return self.r.choice(self.vocab)
        if x < self.odd:
            return self.r.choice(ODD) if x < self.odd * 0.8 else dictionary.name(self.r)
        if x < self.odd + 0.08:
            return self.r.choice(NONRES)
        return self.r.choice(PLAIN)

    def parts(self, lo, hi):
        """of a qualified name"""
        return self.idents(*[self.r.randint(lo, hi)] * 2)

    def idents(self, lo=1, hi=3, distinct=False):
        n = self.few(lo, hi)
        if distinct:
            out = []
            while len(out) < n:
                i = self.ident()
                if i not in out:
                    out.append(i)
            return tuple(out)
        return tuple(self.ident() for _ in range(n))

    def text(self):
        if self.ch(0.1):
            return dictionary.word(self.r)
        return "".join(self.r.choice(STR_BITS) for _ in range(self.r.choice([0, 1, 1, 1, 2, 3, 4])))

    def col(self):
        return ("col", self.ident() if self.ch(0.3) else None, self.ident())

    def number(self):
        k = self.r.randrange(3)
        if k == 0:
            x = self.r.random()
            v = (self.r.choice(INTS) if x < 0.7 else self.r.choice(BIGINTS) if x < 0.8 else dictionary.number(self.r) if x < 0.9
                 else self.r.randrange(10 ** self.r.randint(1, 25)))
            return ("int", -v if self.ch(0.25) else v)
        if k == 1:
            u, s = self.r.choice(DECS)
            if self.ch(0.3):
                s = self.r.randint(0, 12)
                u = self.r.randrange(10 ** self.r.randint(1, 20))
            return ("dec", -u if self.ch(0.25) else u, s)
        f = self.r.choice(DBLS)
        if self.ch(0.2):
            f = self.r.uniform(-1, 1) * 10 ** self.r.randint(-300, 300)
        return ("dbl", repr(-f if self.ch(0.25) else f))

    def interval(self):
        a = self.r.choice(FIELDS)
        to = None
        if a == "YEAR":
            v, to = self.r.choice([("3", None), ("3-4", "MONTH"), ("10", None)])
        elif a == "MONTH":
            v = "7"
        elif a == "DAY":
            v, to = self.r.choice([("2", None), ("2 3:04", "MINUTE"), ("2 03:04:05.678", "SECOND"), ("1 2", "HOUR")])
        elif a == "HOUR":
            v, to = self.r.choice([("8", None), ("3:04", "MINUTE"), ("03:04:05.678", "SECOND")])
        elif a == "MINUTE":
            v, to = self.r.choice([("9", None), ("04:05.678", "SECOND"), ("0:01", "SECOND")])
        elif a == "SECOND":
            v = self.r.choice(["5", "0.001", "59.999"])
        else:
            v = self.r.choice(["1", "30", "45"])
        if self.ch(0.12):
            # the grammar takes every pair of fields
            to = self.r.choice(FIELDS)
        return ("interval", ("-" if self.ch(0.3) else "") + v, a, to)

    def typed(self):
        n = self.r.choice(F.LITERAL_TYPES)
        v = {"DATE": DATE_T, "TIME": TIME_T, "TIMESTAMP": TS_T, "DECIMAL": ["1", "-2.50", "0.001", "123456789.12"],
             "BIGINT": ["1", "-5"], "INTEGER": ["1"], "SMALLINT": ["3"], "TINYINT": ["4"], "DOUBLE": ["1.5", "NaN", "Infinity"],
             "REAL": ["1.5"], "BOOLEAN": ["true", "false"]}.get(n)
        return ("typed", n, self.r.choice(v) if v else self.text())

    def literal(self):
        k = self.r.randrange(8)
        if k <= 2:
            return self.number()
        if k <= 4:
            return ("str", self.text())
        if k == 5:
            return self.r.choice([("null",), ("bool", True), ("bool", False)])
        if k == 6:
            return self.typed()
        return self.interval()

    def leaf(self):
        x = self.r.random()
        if x < 0.45:
            return self.col()
        if x < 0.9:
            return self.literal()
        n = self.r.choice(sorted(F.SPECIAL_TIME) + sorted(F.SESSION))
        p = None
        if F.SPECIAL_TIME.get(n):
            p = self.r.choice([3, 3, 0, 6, 12, self.r.randint(0, 12)])
        return ("special", n, p)

    # -- types -------------------------------------------------------------
    def type(self, depth=2):
        k = self.r.randrange(13 if depth > 0 else 9)
        if k <= 3:
            return ("type", self.r.choice(F.PLAIN_TYPES))
        if k == 4:
            p = self.r.randint(1, 38)
            return ("type", "DECIMAL", p, self.r.randint(0, p))
        if k == 5:
            return ("type", "VARCHAR", self.r.choice([None, None, 0, 1, 10, 2 ** 31 - 2, self.r.randrange(2 ** self.r.randint(1, 30))]))
        if k == 6:
            return ("type", "CHAR", self.r.choice([1, 0, 5, 65536, self.r.randint(0, 65536)]))
        if k == 7:
            return ("type", self.r.choice(["TIME", "TIMESTAMP"]), self.r.choice([None, 0, 3, 6, 9, 12, self.r.randint(0, 12)]), self.ch(0.5))
        if k == 8:
            return ("type", "INTERVAL") + self.r.choice([("YEAR", "MONTH"), ("DAY", "SECOND")])
        if k == 9:
            return ("type", "ARRAY", self.type(depth - 1))
        if k == 10:
            return ("type", "MAP", self.type(depth - 1), self.type(depth - 1))
        if k == 11:
            return ("type", "ROW") + tuple(self.type(depth - 1) for _ in range(self.r.randint(1, 4)))
        return ("type", "QDIGEST", ("type", self.r.choice(["BIGINT", "DOUBLE", "REAL"])))

    # -- expressions ---------------------------------------------------------
    def expr(self, d=3):
        if self.past and not self.in_lambda and self.ch(0.06):
            # the same expression once more
            return self.r.choice(self.past)
        if d <= 0 or self.ch(0.08):
            e = self.leaf()
        else:
            name = self.r.choice(self.kinds())
            e = self.build(name, [None] * 9, d)
        if not self.in_lambda and d < 3:
            self.past = self.past[-5:] + [e]
        return e

    def kinds(self):
        if self.in_lambda:
            return [k for k in WEIGHTED if k not in ("subq", "inq")]
        return WEIGHTED

    def build(self, name, holes, d=1):
        """Node of the given kind; holes[i], when given, fills operand i."""
        r = self.r

        def h(i, comp=True):
            if holes[i] is not None:
                return holes[i]
            e = self.expr(d - 1)
            return e if comp or not composite(e) else self.col()

        def rest(n0):
            return tuple(h(i) if i < 9 else self.leaf() for i in range(n0, n0 + (r.randint(0, 2) if r.random() < 0.95 else r.randint(3, 12))))
        if name in ARITH:
            return ("arith", name, h(0, False), h(1, False))
        if name in CMP:
            return ("cmp", name, h(0), h(1))
        if name in ("and", "or"):
            return (name, h(0), h(1))
        if name in ("not", "pos", "neg", "isnull"):
            return (name, h(0))
        if name == "distinct":
            return ("distinct", h(0), h(1))
        if name == "between":
            return ("between", h(0), h(1), h(2))
        if name == "in":
            return ("in", h(0), (h(1),) + rest(2))
        if name == "inq":
            return ("inq", h(0), self.query(d - 1))
        if name == "like":
            return ("like", h(0), h(1), h(2) if holes[2] is not None or self.ch(0.4) else None)
        if name == "case":
            op = h(0) if holes[0] is not None or self.ch(0.4) else None
            whens = ((h(1), h(2)),) + tuple((h(5), h(6)) for _ in range(self.few(0, 2)))
            return ("case", op, whens, h(3) if holes[3] is not None or self.ch(0.6) else None)
        if name in ("cast", "trycast"):
            return (name, h(0), self.type())
        if name in ("row", "array"):
            return (name, h(0)) + ((h(1),) if holes[1] is not None or self.ch(0.7) else ()) + rest(2)
        if name == "sub":
            return ("sub", h(0), h(1))
        if name == "deref":
            e = h(0)
            if e[0] in ("col", "deref"):
                e = ("call", "LOWER", (e,), ())
            return ("deref", e, self.ident())
        if name == "lambda":
            names = self.idents(0, 3, distinct=True)
            self.in_lambda += 1
            body = h(0)
            self.in_lambda -= 1
            from .refparse import bind
            return ("lambda", names, bind(strip_queries(body), set(names)))
        if name == "||":
            return ("call", "CONCAT", (h(0, False), h(1, False)), ())
        if name == "subq":
            return ("subq", self.query(d - 1))
        if name == "normalize":
            return ("normalize", h(0), r.choice(sorted(F.NORMAL_FORMS)))
        if name == "listagg":
            over = None if self.ch(0.5) else (r.choice(["...", self.text()]), self.ch(0.5))
            return ("listagg", h(0), r.choice(["", ",", self.text()]), over, self.order(d - 1, 1, first=holes[1]), self.ch(0.3))
        if name == "scalar":
            return self.call(r.choice(sorted(F.SCALAR)), holes, d)
        if name == "agg":
            return self.call(r.choice(sorted(F.AGG)), holes, d, mods=True)
        if name == "window":
            return self.call(r.choice(sorted(F.AGG)), holes, d, mods=True, over=True)
        if name == "countstar":
            filt = self.expr(d - 1) if self.ch(0.3) else None
            over = self.over(d - 1) if self.ch(0.3) else None
            m = (False, (), filt, "RESPECT", over) if (filt is not None or over is not None) else ()
            return ("call", "COUNT", (("stararg", self.ident() if self.ch(0.3) else None),), m)
        if name in F.ARITY:
            return self.call(name, holes, d, mods=name in F.AGG and self.ch(0.5))
        raise KeyError(name)

    def call(self, name, holes, d, mods=False, over=False, nargs=None):
        lo, hi = F.ARITY[name]
        n = nargs if nargs is not None else self.r.randint(lo, min(hi, lo + (2 if self.ch(0.95) else 6)))
        given = [i for i in range(len(holes)) if holes[i] is not None]
        if given and given[-1] >= n:
            n = min(given[-1] + 1, hi)
        args = [holes[i] if i < len(holes) and holes[i] is not None else self.expr(d - 1) for i in range(n)]
        if name in ("IF", "COALESCE", "CONCAT"):
            # operands must have a common type: columns (of unknown type) go with everything
            first = 1 if name == "IF" else 0
            keep = [i for i in given if i >= first] or ([self.r.randrange(first, n)] if n > first else [])
            args = [a if i < first or i in keep[:1] else self.col() for i, a in enumerate(args)]
        m = ()
        if mods:
            distinct = self.ch(0.3)
            order = self.order(d - 1, 1) if self.ch(0.3) and n else ()
            filt = self.expr(d - 1) if self.ch(0.3) else None
            ov = self.over(d - 1) if over or self.ch(0.3) else None
            nulls = self.r.choice(["RESPECT", "IGNORE"]) if ov is not None else "RESPECT"
            m = (distinct, order, filt, nulls, ov)
            if m == (False, (), None, "RESPECT", None):
                m = ()
        return ("call", name, tuple(args), m)

    def order(self, d, lo=0, hi=3, first=None):
        n = self.few(lo, hi)
        return tuple((first if i == 0 and first is not None else self.expr(d), self.r.choice(["ASC", "DESC"]),
                      self.r.choice(["LAST", "FIRST"])) for i in range(n))

    def bound(self, d, start):
        k = self.r.randrange(3)
        if k == 0:
            return ("unbounded", self.r.choice(["PRECEDING", "FOLLOWING"]))
        if k == 1:
            return ("current",)
        e = self.expr(min(d, 1)) if self.ch(0.5) else ("int", self.r.randint(0, 9))
        return ("bounded", self.r.choice(["PRECEDING", "FOLLOWING"]), e)

    def frame(self, d):
        return (self.r.choice(["RANGE", "ROWS", "GROUPS"]), self.bound(d, True), self.bound(d, False))

    def over(self, d, named=0.25):
        if self.ch(named):
            return ("win", self.ident(), (), (), None)
        return self.window(d)

    def window(self, d):
        parent = self.ident() if self.ch(0.25) else None
        parts = tuple(self.expr(d) for _ in range(self.r.choice([0, 0, 0, 1, 1, 2, 2, 3])))
        order = self.order(d, 0, 2)
        frame = self.frame(d) if self.ch(0.5) else None
        if frame is None and parent is None:
            frame = DEFAULT_FRAME
        if parent is not None and frame == DEFAULT_FRAME:
            frame = None
        return ("win", parent, parts, order, frame)

    # -- queries -----------------------------------------------------------------
    def query(self, d=2, ncols=None, ctes=None, constrain=True):
        r = self.r
        w = ()
        if ctes is None:
            ctes = self.ch(0.2)
        if ctes and d > 0:
            w = tuple((self.ident(), self.idents(1, 2) if self.ch(0.4) else None, self.query(d - 1, ctes=self.ch(0.1)))
                      for _ in range(self.few(1, 2)))
        x = r.random()
        if d > 0 and x < 0.2:
            n = ncols or self.few(1, 3)
            op = r.choice(["UNION", "UNION", "INTERSECT", "EXCEPT"])
            quant = r.choice(["ALL", "DISTINCT"]) if op == "UNION" else "DISTINCT"
            body = ("setop", op, quant, self.query(d - 1, n, ctes=False), self.query(d - 1, n, ctes=False))
        elif x < 0.32:
            body = self.values(d, ncols)
        elif x < 0.4 and ncols is None:
            body = ("tableq", self.parts(1, 3))
        else:
            body = self.select(d, ncols)
        order, offset, limit = (), None, None
        if constrain:
            if self.ch(0.25):
                order = self.order(min(d, 1), 1)
            if self.ch(0.2):
                offset = r.choice([0, 1, 5, 10 ** 6, r.randrange(2 ** r.randint(1, 63))])
            if self.ch(0.25):
                limit = r.choice([0, 0, 1, 10, 2 ** 40, r.randrange(2 ** r.randint(1, 63))])
        return ("query", w, body, order, offset, limit)

    def safe_expr(self, d):
        """An expression of unknown type (goes with everything in a set operation or VALUES column)."""
        if d <= 0 or self.ch(0.5):
            return self.col()
        return ("call", "COALESCE", (self.col(), self.expr(d - 1)), ()) if self.ch(0.5) else ("arith", "+", self.col(), self.number())

    def values(self, d, ncols=None):
        n = ncols or self.few(1, 3)
        rows = self.few(1, 3)
        if rows == 1 and n == 1 and ncols is None:
            return ("values", self.expr(d - 1))
        kinds = [self.r.choice(["num", "str", "unk"]) if ncols is None else "unk" for _ in range(n)]

        def cell(k):
            return {"num": lambda: self.number(), "str": lambda: ("str", self.text()), "unk": lambda: self.safe_expr(d - 1)}[k]()
        out = []
        for _ in range(rows):
            cells = tuple(cell(k) for k in kinds)
            out.append(cells[0] if n == 1 else ("row",) + cells)
        return ("values",) + tuple(out)

    def item(self, d, unk=False):
        e = self.safe_expr(d) if unk else self.expr(d)
        return ("item", e, self.ident() if self.ch(0.4) else None)

    def select(self, d, ncols=None):
        r = self.r
        if ncols:
            items = tuple(self.item(d - 1, unk=True) for _ in range(ncols))
        else:
            items = []
            for _ in range(r.choice([1, 1, 2, 3] * 4 + [9])):
                x = r.random()
                if x < 0.1:
                    items.append(("star", None))
                elif x < 0.18:
                    items.append(("star", self.star_base(d)))
                elif x < 0.24:
                    items.append(("starals", self.star_base(d), self.idents(1, 3)))
                else:
                    items.append(self.item(d - 1))
            items = tuple(items)
        quant = r.choice(["ALL", "ALL", "DISTINCT"])
        frm = self.relation(d) if self.ch(0.75) else None
        where = self.expr(d - 1) if self.ch(0.3) else None
        group = None
        if self.ch(0.25):
            group = (r.choice(["ALL", "ALL", "DISTINCT"]), tuple(self.group(d - 1) for _ in range(self.few(1, 3))))
        having = self.expr(d - 1) if self.ch(0.15) else None
        wins = ()
        if self.ch(0.15):
            wins = tuple((n, self.window(d - 1)) for n in self.idents(1, 2, distinct=True))
        return ("select", quant, items, frm, where, group, having, wins)

    def star_base(self, d):
        if self.ch(0.8):
            return self.ident()
        return ("call", "LOWER", (self.col(),), ()) if self.ch(0.5) else ("sub", self.col(), ("int", 1))

    def group(self, d):
        k = self.r.randrange(6)
        d = min(d, 1)
        if k <= 2:
            return ("gset", (self.expr(d),)) if self.ch(0.7) else ("gset", tuple(self.expr(d) for _ in range(self.r.choice([0, 2, 3]))))
        if k == 3:
            return ("rollup", tuple(self.expr(d) for _ in range(self.few(1, 3))))
        if k == 4:
            return ("cube", tuple(self.expr(d) for _ in range(self.few(1, 3))))
        return ("gsets", tuple(("gset", tuple(self.expr(d) for _ in range(self.few(0, 2)))) for _ in range(self.few(1, 3))))

    def relation(self, d=2):
        r = self.r
        if d <= 0:
            return ("table", self.parts(1, 3))
        x = r.random()
        if x < 0.25:
            return ("table", self.parts(1, 3))
        if x < 0.42:
            rel = self.relation(d - 1)
            return ("alias", rel, self.ident(), self.idents(1, 3) if self.ch(0.3) else None)
        if x < 0.54:
            return ("subq", self.query(d - 1))
        if x < 0.62:
            return ("unnest", tuple(self.expr(d - 1) for _ in range(self.few(1, 2))), self.ch(0.5))
        if x < 0.68:
            return ("lateral", self.query(d - 1))
        if x < 0.76:
            return ("sample", self.relation(d - 1), r.choice(["BERNOULLI", "SYSTEM"]),
                    r.choice([("int", 10), ("int", r.randint(0, 100)), ("dec", 25, 1), ("dec", r.randrange(1000), 3), ("dbl", "0.3"), self.expr(1)]))
        return self.join(d)

    def join(self, d, left=None, right=None):
        r = self.r
        jt = r.choice(["CROSS", "INNER", "LEFT", "RIGHT", "FULL"])
        natural, crit = False, None
        if jt != "CROSS":
            k = r.randrange(5)
            if k == 0:
                natural = True
            elif k <= 2:
                crit = ("on", self.expr(d - 1))
            else:
                crit = ("using", self.idents(1, 3))
        return ("join", jt, natural, crit, left or self.relation(d - 1), right or self.relation(d - 1))


def composite(e):
    """May have an array, row or map type (which doesn't mix with scalars in arithmetic)."""
    k = e[0]
    if k in ("row", "array", "cast", "trycast", "subq", "lambda"):
        return True
    if k == "case":
        return any(composite(v) for _, v in e[2]) or (e[3] is not None and composite(e[3]))
    if k in ("neg", "pos"):
        return composite(e[1])
    if k == "sub":
        return composite(e[1])
    if k == "call":
        return e[1] in F.AGG or any(composite(a) for a in e[2] if a[0] != "stararg") and e[1] in (
            "IF", "COALESCE", "NULLIF", "TRY", "CONCAT", "DATE_ADD")
    return False


def strip_queries(e):
    return e


BIN = ARITH + CMP + ["and", "or", "distinct", "||"]
# operand holes of every expression kind, for the systematic parent x position x child workload
HOLES = {**{k: 2 for k in BIN}, "not": 1, "pos": 1, "neg": 1, "isnull": 1, "between": 3, "in": 3, "inq": 1, "like": 3, "case": 4,
         "cast": 1, "trycast": 1, "row": 2, "array": 2, "sub": 2, "deref": 1, "lambda": 1, "subq": 0, "normalize": 1, "listagg": 2,
         "countstar": 0, "IF": 3, "LOWER": 1, "MAX_BY": 2, "POWER": 2, "COALESCE": 2}
WEIGHTED = (BIN * 2 + ["not", "not", "pos", "neg", "neg", "isnull", "between", "between", "in", "inq", "like", "like", "case", "case", "cast",
                       "trycast", "row", "array", "sub", "sub", "deref", "lambda", "subq", "normalize", "listagg", "scalar", "scalar",
                       "scalar", "agg", "agg", "window", "countstar"])


def pairs():
    """Every (parent, operand position, child) combination of expression kinds."""
    for p in HOLES:
        for i in range(HOLES[p]):
            for c in HOLES:
                if p == "lambda" and c in ("subq", "inq"):
                    continue
                yield p, i, c


CHAINS = [["and"], ["or"], ["and", "or"], ["and", "or", "not"], ["+"], ["*"], ["+", "-"], ["*", "/", "%"], ["-", "*", "neg"], ["||"], ["||", "+"], ["and", "=", "<"], ["or", "distinct", "isnull"]]


def chain(g, n=None):
    """a tree of any shape over four and more leaves with few different operators"""
    r = g.r
    ops = r.choice(CHAINS)
    n = n or r.randint(3, 7)
    few = r.random() < 0.4 and [g.col() for _ in range(r.randint(1, 2))]

    def leaf():
        return r.choice(few) if few else g.col()

    def tree(k):
        if k == 1:
            return leaf() if ops[0] not in ("and", "or") or r.random() < 0.6 else r.choice([("isnull", leaf()), ("cmp", ">", leaf(), ("int", 1)), ("bool", True)])
        op = r.choice(ops)
        if op == "not":
            return ("not", tree(k))
        if op == "isnull":
            return ("isnull", tree(k))
        if op == "neg":
            return ("neg", tree(k))
        x = r.random()
        cut = 1 if x < 0.35 else k - 1 if x < 0.6 else r.randint(1, k - 1)
        a, b = tree(cut), tree(k - cut)
        if op in ("and", "or"):
            return (op, a, b)
        if op == "||":
            return ("call", "CONCAT", (a, b), ())
        if op == "distinct":
            return ("distinct", a, b)
        return ("arith" if op in ARITH else "cmp", op, a, b)
    return tree(n)


def pair_meaning(g, p, i, c, c2=None):
    if p == "lambda":
        g.in_lambda += 1
    holes = [None] * 9
    if c2 is not None:
        holes[g.r.randrange(max(1, HOLES[c]))] = g.build(c2, [None] * 9, 0)
    child = g.build(c, holes, 0) if c != "subq" and c != "inq" else g.build(c, holes, 1)
    if p == "lambda":
        g.in_lambda -= 1
    if p in ARITH + ["||"] and composite(child):
        # keep the other operand untyped
        holes = [None] * 9
        holes[1 - i] = g.col()
        holes[i] = child
        return canon(g.build(p, holes, 0))
    holes = [None] * 9
    holes[i] = child
    return canon(g.build(p, holes, 0))
