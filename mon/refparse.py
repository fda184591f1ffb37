"""Reference parser: SQL text -> meaning (nested tuples). Hand-written recursive descent over the dialect's published
grammar; shares no code with treeno and is the oracle for what a text denotes."""
import re
import sys

from . import funcs as F
from .lexer import RefError, Tok, decode_unicode, lex
from .model import canon_type, mk_and, mk_neg, mk_not, mk_or, norm_interval, type_meaning
from .words import NONRESERVED, keyword

sys.setrecursionlimit(max(sys.getrecursionlimit(), 20000))
FIELDS = ("YEAR", "MONTH", "DAY", "HOUR", "MINUTE", "SECOND")
# words that start a following clause; never taken as an implicit (AS-less) alias
SETENDS = {"HAVING", "WINDOW", "ORDER", "OFFSET", "LIMIT", "FETCH", "UNION", "INTERSECT", "EXCEPT"}


class Parser:
    def __init__(self, sql, statement=False):
        self.toks = lex(sql)
        # one semicolon may end a query
        if statement and self.toks and self.toks[-1].kind == "bad" and self.toks[-1].text == ";":
            self.toks.pop()
        for t in self.toks:
            if t.kind == "bad":
                raise RefError(f"bad character {t.text!r}")
            if t.kind == "qid" and not t.val:
                raise RefError("identifier without characters")
        self.i = 0
        self.memo = {}

    # -- token helpers ------------------------------------------------------
    def peek(self, k=0):
        j = self.i + k
        return self.toks[j] if j < len(self.toks) else Tok("eof", "", None, -1)

    def kw(self, k=0):
        t = self.peek(k)
        return keyword(t.text) if t.kind == "word" else None

    def is_op(self, s, k=0):
        t = self.peek(k)
        return t.kind == "op" and t.text == s

    def accept_op(self, s):
        if self.is_op(s):
            self.i += 1
            return True
        return False

    def expect_op(self, s):
        if not self.accept_op(s):
            raise RefError(f"expected {s} at {self.peek()}")

    def accept(self, *words):
        for k, w in enumerate(words):
            if self.kw(k) != w:
                return False
        self.i += len(words)
        return True

    def expect(self, *words):
        if not self.accept(*words):
            raise RefError(f"expected {words} at {self.peek()}")

    def end(self):
        if self.peek().kind != "eof":
            raise RefError(f"trailing {self.peek()}")

    def is_ident(self, k=0):
        t = self.peek(k)
        if t.kind == "qid":
            return True
        if t.kind == "word":
            w = keyword(t.text)
            return w is None or w in NONRESERVED
        return False

    def ident(self):
        if not self.is_ident():
            raise RefError(f"expected identifier at {self.peek()}")
        t = self.peek()
        self.i += 1
        return t.val if t.kind == "qid" else t.text

    def integer(self):
        t = self.peek()
        if t.kind != "int":
            raise RefError(f"expected integer at {t}")
        self.i += 1
        return t.val

    def is_string(self, k=0):
        return self.peek(k).kind in ("str", "ustr")

    def string(self):
        t = self.peek()
        if t.kind == "str":
            self.i += 1
            return t.val
        if t.kind == "ustr":
            self.i += 1
            esc = "\\"
            if self.kw() == "UESCAPE" and self.peek(1).kind == "str":
                esc = self.peek(1).val
                self.i += 2
            return decode_unicode(t.val, esc)
        raise RefError(f"expected string at {t}")

    def sep(self, fn):
        out = [fn()]
        while self.accept_op(","):
            out.append(fn())
        return tuple(out)

    def attempt(self, name, fn):
        """Backtracking try, memoised per position."""
        key = (name, self.i)
        if key in self.memo:
            ok, val, nxt = self.memo[key]
            if not ok:
                raise RefError(val)
            self.i = nxt
            return val
        start = self.i
        try:
            val = fn()
        except RefError as e:
            self.memo[key] = (False, str(e), start)
            self.i = start
            raise
        self.memo[key] = (True, val, self.i)
        return val

    def tryrule(self, name, fn, follow=None):
        start = self.i
        try:
            val = self.attempt(name, fn)
        except RefError:
            self.i = start
            return None
        if follow is not None and not follow():
            self.i = start
            return None
        return val

    # -- queries ------------------------------------------------------------
    def query(self):
        ctes = ()
        if self.accept("WITH"):
            if self.kw() == "RECURSIVE":
                raise RefError("RECURSIVE not modelled")
            ctes = self.sep(self.named_query)
        q = self.query_no_with()
        return ("query", ctes) + q[2:]

    def named_query(self):
        name = self.ident()
        cols = self.col_aliases() if self.is_op("(") else None
        self.expect("AS")
        self.expect_op("(")
        q = self.query()
        self.expect_op(")")
        return (name, cols, q)

    def col_aliases(self):
        self.expect_op("(")
        c = self.sep(self.ident)
        self.expect_op(")")
        return c

    def query_no_with(self):
        q = self.query_term()
        order, offset, limit = (), None, None
        touched = False
        if self.accept("ORDER", "BY"):
            order, touched = self.sep(self.sort_item), True
        if self.kw() == "OFFSET" and self.peek(1).kind == "int":
            self.i += 1
            offset, touched = self.integer(), True
            if self.kw() in ("ROW", "ROWS"):
                self.i += 1
        if self.kw() == "LIMIT":
            self.i += 1
            touched = True
            if not self.accept("ALL"):
                limit = self.integer()
        elif self.kw() == "FETCH":
            self.i += 1
            if not (self.accept("FIRST") or self.accept("NEXT")):
                raise RefError("FETCH FIRST|NEXT")
            limit, touched = 1, True
            if self.peek().kind == "int":
                limit = self.integer()
            if not (self.accept("ROW") or self.accept("ROWS")):
                raise RefError("FETCH ROWS")
            if self.accept("ONLY"):
                pass
            else:
                raise RefError("WITH TIES not modelled")
        if touched:
            if q[3] or q[4] is not None or q[5] is not None:
                raise RefError("constraints on a constrained parenthesised query not modelled")
            q = ("query", q[1], q[2], order, offset, limit)
        return q

    def query_term(self):
        left = self.intersect_term()
        while self.kw() in ("UNION", "EXCEPT"):
            op = self.kw()
            self.i += 1
            quant = self.set_quant() or "DISTINCT"
            right = self.intersect_term()
            if op == "EXCEPT" and quant == "ALL":
                raise RefError("EXCEPT ALL not modelled")
            left = ("query", (), ("setop", op, quant, left, right), (), None, None)
        return left

    def intersect_term(self):
        left = self.query_primary()
        while self.kw() == "INTERSECT":
            self.i += 1
            quant = self.set_quant() or "DISTINCT"
            if quant == "ALL":
                raise RefError("INTERSECT ALL not modelled")
            right = self.query_primary()
            left = ("query", (), ("setop", "INTERSECT", quant, left, right), (), None, None)
        return left

    def set_quant(self):
        if self.accept("DISTINCT"):
            return "DISTINCT"
        if self.accept("ALL"):
            return "ALL"
        return None

    def query_primary(self):
        if self.accept_op("("):
            q = self.query_no_with()
            self.expect_op(")")
            return q
        w = self.kw()
        if w == "SELECT":
            body = self.select()
        elif w == "TABLE":
            self.i += 1
            body = ("tableq", self.table_name())
        elif w == "VALUES":
            self.i += 1
            body = ("values",) + self.sep(self.expr)
        else:
            raise RefError(f"expected query at {self.peek()}")
        return ("query", (), body, (), None, None)

    def table_name(self):
        parts = [self.ident()]
        while self.accept_op("."):
            parts.append(self.ident())
        if len(parts) > 3:
            raise RefError("too many qualifiers")
        return tuple(parts)

    def sort_item(self):
        e = self.expr()
        d, n = "ASC", "LAST"
        if self.accept("ASC"):
            pass
        elif self.accept("DESC"):
            d = "DESC"
        if self.accept("NULLS"):
            if self.accept("FIRST"):
                n = "FIRST"
            else:
                self.expect("LAST")
        return (e, d, n)

    def select(self):
        self.expect("SELECT")
        quant = "ALL"
        # ALL is non-reserved: it is a quantifier only when an item follows
        if self.accept("DISTINCT"):
            quant = "DISTINCT"
        elif self.kw() == "ALL" and not (self.is_op(",", 1) or self.peek(1).kind == "eof" or self.kw(1) == "FROM"):
            self.i += 1
        items = self.sep(self.select_item)
        frm = where = group = having = None
        windows = ()
        if self.accept("FROM"):
            frm = self.relation()
            if self.is_op(","):
                raise RefError("implicit cross join not modelled")
        if self.accept("WHERE"):
            where = self.expr()
        if self.accept("GROUP", "BY"):
            gq = self.set_quant() or "ALL"
            group = (gq, self.sep(self.group_elem))
        if self.accept("HAVING"):
            having = self.expr()
        if self.kw() == "WINDOW" and self.is_ident(1) and self.kw(2) == "AS":
            self.i += 1
            windows = self.sep(self.window_def)
            if len({w[0] for w in windows}) != len(windows):
                raise RefError("duplicate window")
        return ("select", quant, items, frm, where, group, having, windows)

    def at_clause(self):
        """a clause starts here, rather than an alias named like its keyword"""
        w, n = self.kw(), self.kw(1)
        if w in ("LIMIT", "OFFSET"):
            return self.peek(1).kind == "int" or self.is_op("?", 1) or w == "LIMIT" and n == "ALL"
        if w == "FETCH":
            return n in ("FIRST", "NEXT")
        if w == "WINDOW":
            return self.is_ident(1) and self.kw(2) == "AS"
        if w == "TABLESAMPLE":
            return n in ("BERNOULLI", "SYSTEM")
        if w == "MATCH_RECOGNIZE":
            return self.is_op("(", 1) and not (self.is_ident(2) and (self.is_op(",", 3) or self.is_op(")", 3)))
        return False

    def select_item(self):
        if self.accept_op("*"):
            return ("star", None)
        start = self.i
        e = self.expr()
        if self.is_op(".") and self.is_op("*", 1):
            # must be a bare primary expression
            end = self.i
            self.i = start
            p = self.primary()
            if self.i != end:
                raise RefError("x.* needs a primary expression")
            self.i += 2
            if p[0] == "col":
                if p[1] is not None:
                    raise RefError("a.b.* not modelled")
                p = p[2]
            if self.accept("AS"):
                return ("starals", p, self.col_aliases())
            return ("star", p)
        alias = None
        if self.accept("AS"):
            alias = self.ident()
        elif self.is_ident() and not self.at_clause():
            alias = self.ident()
        return ("item", e, alias)

    def group_elem(self):
        if self.kw() in ("ROLLUP", "CUBE"):
            name = self.kw().lower()
            self.i += 1
            self.expect_op("(")
            if self.is_op(")"):
                raise RefError("empty rollup/cube not modelled")
            ex = self.sep(self.expr)
            self.expect_op(")")
            return (name, ex)
        if self.kw() == "GROUPING" and self.kw(1) == "SETS":
            self.i += 2
            self.expect_op("(")
            sets = self.sep(self.grouping_set)
            self.expect_op(")")
            return ("gsets", sets)
        return self.grouping_set()

    def grouping_set(self):
        def paren():
            self.expect_op("(")
            if self.accept_op(")"):
                return ("gset", ())
            ex = self.sep(self.expr)
            self.expect_op(")")
            return ("gset", ex)

        def follow():
            t = self.peek()
            return t.kind == "eof" or (t.kind == "op" and t.text in ",)") or self.kw() in SETENDS

        if self.is_op("("):
            g = self.tryrule("gset", paren, follow)
            if g is not None:
                return g
        return ("gset", (self.expr(),))

    def window_def(self):
        name = self.ident()
        self.expect("AS")
        self.expect_op("(")
        w = self.window_spec()
        self.expect_op(")")
        return (name, w)

    def window_spec(self):
        """-> ('win', parent, partitions, order, frame)"""
        parent = None
        if self.is_ident() and not (self.kw() in ("PARTITION", "RANGE", "ROWS", "GROUPS", "MEASURES")
                                    and not (self.is_op(")", 1))):
            parent = self.ident()
        parts, order, frame = (), (), None
        if self.accept("PARTITION", "BY"):
            parts = self.sep(self.expr)
        if self.accept("ORDER", "BY"):
            order = self.sep(self.sort_item)
        if self.kw() in ("RANGE", "ROWS", "GROUPS"):
            ft = self.kw()
            self.i += 1
            if self.accept("BETWEEN"):
                a = self.bound()
                self.expect("AND")
                b = self.bound()
            else:
                a = self.bound()
                b = ("current",)
            frame = (ft, a, b)
        if frame is None and parent is None:
            frame = ("RANGE", ("unbounded", "PRECEDING"), ("current",))
        # a referenced window has no frame of its own, so that the default frame says nothing
        if parent is not None and frame == ("RANGE", ("unbounded", "PRECEDING"), ("current",)):
            frame = None
        return ("win", parent, parts, order, frame)

    def bound(self):
        if self.kw() == "UNBOUNDED" and self.kw(1) in ("PRECEDING", "FOLLOWING"):
            d = self.kw(1)
            self.i += 2
            return ("unbounded", d)
        if self.accept("CURRENT", "ROW"):
            return ("current",)
        e = self.expr()
        if self.kw() in ("PRECEDING", "FOLLOWING"):
            d = self.kw()
            self.i += 1
            return ("bounded", d, e)
        raise RefError("frame bound")

    # -- relations ------------------------------------------------------------
    def relation(self):
        left = self.sampled()
        while True:
            if self.accept("CROSS", "JOIN"):
                left = ("join", "CROSS", False, None, left, self.sampled())
                continue
            if self.kw() == "NATURAL":
                self.i += 1
                jt = self.join_type()
                self.expect("JOIN")
                left = ("join", jt, True, None, left, self.sampled())
                continue
            start = self.i
            jt = self.join_type()
            if not self.accept("JOIN"):
                self.i = start
                return left
            right = self.relation()
            if self.accept("ON"):
                crit = ("on", self.expr())
            elif self.accept("USING"):
                crit = ("using", self.col_aliases())
            else:
                raise RefError("join needs criteria")
            left = ("join", jt, False, crit, left, right)

    def join_type(self):
        if self.accept("INNER"):
            return "INNER"
        for w in ("LEFT", "RIGHT", "FULL"):
            if self.accept(w):
                self.accept("OUTER")
                return w
        return "INNER"

    def sampled(self):
        r = self.aliased()
        if self.kw() == "TABLESAMPLE" and self.at_clause():
            self.i += 1
            if self.accept("BERNOULLI"):
                st = "BERNOULLI"
            else:
                self.expect("SYSTEM")
                st = "SYSTEM"
            self.expect_op("(")
            pct = self.expr()
            self.expect_op(")")
            r = ("sample", r, st, pct)
        return r

    def aliased(self):
        r = self.rel_primary()
        alias = None
        if self.accept("AS"):
            alias = self.ident()
        elif self.is_ident() and not self.at_clause():
            alias = self.ident()
        if alias is None:
            return r
        cols = self.col_aliases() if self.is_op("(") else None
        return ("alias", r, alias, cols)

    def rel_primary(self):
        if self.kw() == "UNNEST":
            self.i += 1
            self.expect_op("(")
            ex = self.sep(self.expr)
            self.expect_op(")")
            o = False
            if self.accept("WITH"):
                self.expect("ORDINALITY")
                o = True
            return ("unnest", ex, o)
        if self.kw() == "LATERAL" and self.is_op("(", 1):
            self.i += 2
            q = self.query()
            self.expect_op(")")
            return ("lateral", q)
        if self.kw() == "TABLE":
            raise RefError("table functions not modelled")
        if self.is_op("("):
            def sub():
                self.expect_op("(")
                q = self.query()
                self.expect_op(")")
                return ("subq", q)
            q = self.tryrule("subrel", sub)
            if q is not None:
                return q
            self.expect_op("(")
            r = self.relation()
            self.expect_op(")")
            return r
        parts = self.table_name()
        if self.kw() == "FOR":
            raise RefError("query period not modelled")
        return ("table", parts)

    # -- expressions ------------------------------------------------------------
    def expr(self):
        return self.or_()

    def or_(self):
        a = self.and_()
        while self.accept("OR"):
            a = mk_or(a, self.and_())
        return a

    def and_(self):
        a = self.not_()
        while self.accept("AND"):
            a = mk_and(a, self.not_())
        return a

    def not_(self):
        if self.accept("NOT"):
            return mk_not(self.not_())
        return self.predicated()

    def predicated(self):
        v = self.value()
        t = self.peek()
        if t.kind == "op" and t.text in ("=", "<>", "!=", "<", "<=", ">", ">="):
            self.i += 1
            if self.kw() in ("ALL", "SOME", "ANY") and self.is_op("(", 1):
                raise RefError("quantified comparison not modelled")
            return ("cmp", "<>" if t.text == "!=" else t.text, v, self.value())
        start = self.i
        neg = self.accept("NOT")
        wrap = mk_not if neg else (lambda x: x)
        if self.accept("BETWEEN"):
            lo = self.value()
            self.expect("AND")
            return wrap(("between", v, lo, self.value()))
        if self.accept("IN"):
            def inlist():
                self.expect_op("(")
                ex = self.sep(self.expr)
                self.expect_op(")")
                return ex

            def inq():
                self.expect_op("(")
                q = self.query()
                self.expect_op(")")
                return q
            ex = self.tryrule("inlist", inlist)
            if ex is not None:
                return wrap(("in", v, ex))
            return wrap(("inq", v, inq()))
        if self.accept("LIKE"):
            p = self.value()
            esc = self.value() if self.accept("ESCAPE") else None
            return wrap(("like", v, p, esc))
        if neg:
            self.i = start
            return v
        if self.accept("IS"):
            n = self.accept("NOT")
            w2 = mk_not if n else (lambda x: x)
            if self.accept("NULL"):
                return w2(("isnull", v))
            self.expect("DISTINCT", "FROM")
            return w2(("distinct", v, self.value()))
        return v

    def value(self):
        a = self.additive()
        while self.accept_op("||"):
            a = ("call", "CONCAT", (a, self.additive()), ())
        return a

    def additive(self):
        a = self.multiplicative()
        while self.is_op("+") or self.is_op("-"):
            op = self.peek().text
            self.i += 1
            a = ("arith", op, a, self.multiplicative())
        return a

    def multiplicative(self):
        a = self.unary()
        while self.is_op("*") or self.is_op("/") or self.is_op("%"):
            op = self.peek().text
            self.i += 1
            a = ("arith", op, a, self.unary())
        return a

    def unary(self):
        if self.is_op("-") and self.peek(1).kind in ("int", "dec", "dbl"):
            p = self.primary()
        elif self.accept_op("-"):
            return mk_neg(self.unary())
        elif self.accept_op("+"):
            return ("pos", self.unary())
        else:
            p = self.primary()
        if self.kw() == "AT" and self.kw(1) == "TIME":
            raise RefError("AT TIME ZONE not modelled")
        return p

    def number(self, neg):
        t = self.peek()
        self.i += 1
        if t.kind == "int":
            return ("int", -t.val if neg else t.val)
        if t.kind == "dec":
            whole, _, frac = t.text.partition(".")
            if len((whole + frac).lstrip("0")) > 38:
                raise RefError("decimal literal too long")
            u = int(whole + frac)
            return ("dec", -u if neg else u, len(frac))
        if t.kind == "dbl":
            f = float(("-" if neg else "") + t.text)
            if f in (float("inf"), float("-inf")):
                raise RefError("double out of range")
            return ("dbl", repr(f))
        raise RefError("number")

    def primary(self):
        e = self.primary_head()
        while True:
            if self.accept_op("["):
                ix = self.value()
                self.expect_op("]")
                e = ("sub", e, ix)
            elif self.is_op(".") and self.is_ident(1):
                self.i += 1
                n = self.ident()
                if e[0] == "col":
                    if e[1] is not None:
                        raise RefError("a.b.c not modelled")
                    e = ("col", e[2], n)
                elif e[0] == "deref":
                    raise RefError("a.b.c not modelled")
                else:
                    e = ("deref", e, n)
            else:
                return e

    def primary_head(self):
        t = self.peek()
        if self.is_op("-"):
            self.i += 1
            return self.number(True)
        if t.kind in ("int", "dec", "dbl"):
            return self.number(False)
        if t.kind in ("str", "ustr"):
            return ("str", self.string())
        if t.kind in ("bin", "bqid", "digid"):
            raise RefError(f"{t.kind} not modelled")
        if self.is_op("("):
            return self.paren()
        w = self.kw()
        if w in ("NULL", "TRUE", "FALSE"):
            self.i += 1
            return ("null",) if w == "NULL" else ("bool", w == "TRUE")
        if w == "CASE":
            return self.case()
        if w == "CAST" or (w == "TRY_CAST" and self.is_op("(", 1)):
            self.i += 1
            self.expect_op("(")
            e = self.expr()
            self.expect("AS")
            ty = self.type()
            self.expect_op(")")
            return ("cast" if w == "CAST" else "trycast", e, ty)
        if w == "LISTAGG":
            return self.listagg()
        if w == "NORMALIZE":
            self.i += 1
            self.expect_op("(")
            v = self.value()
            form = "NFC"
            if self.accept_op(","):
                form = self.peek().text
                if self.peek().kind != "word" or form not in F.NORMAL_FORMS:
                    raise RefError("normal form")
                self.i += 1
            self.expect_op(")")
            return ("normalize", v, form)
        if w in F.SPECIAL_TIME:
            self.i += 1
            prec = None
            if F.SPECIAL_TIME[w]:
                prec = 3
                if self.is_op("(") and self.peek(1).kind == "int":
                    self.i += 1
                    prec = self.integer()
                    self.expect_op(")")
                    if prec > 12:
                        raise RefError("precision")
            return ("special", w, prec)
        if w in F.SESSION:
            self.i += 1
            return ("special", w, None)
        if w == "INTERVAL" and (self.is_string(1) or ((self.is_op("+", 1) or self.is_op("-", 1)) and self.is_string(2))):
            start = self.i
            self.i += 1
            neg = False
            if self.is_op("+") or self.is_op("-"):
                neg = self.peek().text == "-"
                self.i += 1
            s = self.string()
            if self.kw() in FIELDS:
                fr = self.kw()
                self.i += 1
                to = None
                if self.kw() == "TO" and self.kw(1) in FIELDS:
                    to = self.kw(1)
                    self.i += 2
                return ("interval", norm_interval(s, neg), fr, to)
            self.i = start
        if w == "DOUBLE" and self.kw(1) == "PRECISION" and self.is_string(2):
            self.i += 2
            return ("typed", "DOUBLE", self.string())
        if w == "ARRAY" and self.is_op("[", 1):
            self.i += 2
            if self.is_op("]"):
                raise RefError("empty array not modelled")
            ex = self.sep(self.expr)
            self.expect_op("]")
            return ("array",) + ex
        if w == "ROW" and self.is_op("(", 1):
            self.i += 2
            ex = self.sep(self.expr)
            self.expect_op(")")
            return ("row",) + ex
        if w in ("EXISTS", "TRIM", "EXTRACT", "GROUPING", "JSON_EXISTS", "JSON_VALUE", "JSON_QUERY", "JSON_OBJECT",
                 "JSON_ARRAY") or (w in ("SUBSTRING", "POSITION") and self.is_op("(", 1)):
            raise RefError(f"{w} not modelled")
        if self.is_ident():
            if self.is_op("->", 1):
                n = self.ident()
                self.i += 1
                return self.lambda_((n,))
            if self.is_string(1):
                n = self.ident().upper()
                if n not in F.LITERAL_TYPES and n != "UNKNOWN":
                    raise RefError("unknown literal type")
                return ("typed", n, self.string())
            if self.is_op("(", 1):
                return self.call()
            if self.kw(1) == "OVER" and (self.is_op("(", 2) or self.peek(2).kind == "qid"):
                raise RefError("measure not modelled")
            if self.is_op(".", 1) and self.is_ident(2) and self.is_op("(", 3):
                raise RefError("qualified function")
            return ("col", None, self.ident())
        raise RefError(f"unexpected {t}")

    def lambda_(self, names):
        if len(set(names)) != len(names):
            raise RefError("duplicate lambda argument")
        body = self.expr()
        return ("lambda", names, bind(body, set(names)))

    def paren(self):
        # lambda with a parenthesised argument list
        j = self.i + 1
        k = j
        names = []
        ok = True
        save = self.i
        self.i = j
        if self.is_op(")"):
            self.i += 1
        else:
            while True:
                if not self.is_ident():
                    ok = False
                    break
                names.append(self.ident())
                if self.accept_op(","):
                    continue
                if not self.accept_op(")"):
                    ok = False
                break
        if ok and self.accept_op("->"):
            return self.lambda_(tuple(names))
        self.i = save
        # subquery
        if self.kw(1) in ("SELECT", "VALUES", "TABLE", "WITH") or self.is_op("(", 1):
            def sub():
                self.expect_op("(")
                q = self.query()
                self.expect_op(")")
                return ("subq", q)
            q = self.tryrule("subexpr", sub)
            if q is not None:
                return q

        def grouped():
            self.expect_op("(")
            ex = self.sep(self.expr)
            self.expect_op(")")
            return ex
        ex = self.attempt("grouped", grouped)
        if len(ex) == 1:
            return ex[0]
        return ("row",) + ex

    def case(self):
        self.expect("CASE")
        operand = None
        if self.kw() != "WHEN":
            operand = self.expr()
        whens = []
        while self.accept("WHEN"):
            c = self.expr()
            self.expect("THEN")
            whens.append((c, self.expr()))
        if not whens:
            raise RefError("CASE without WHEN")
        els = self.expr() if self.accept("ELSE") else None
        self.expect("END")
        return ("case", operand, tuple(whens), els)

    def listagg(self):
        self.expect("LISTAGG")
        self.expect_op("(")
        d = self.set_quant() == "DISTINCT"
        x = self.expr()
        sepa, over = "", None
        if self.accept_op(","):
            sepa = self.string()
        if self.accept("ON"):
            self.expect("OVERFLOW")
            if not self.accept("ERROR"):
                self.expect("TRUNCATE")
                filler = self.string() if self.is_string() else "..."
                if self.accept("WITHOUT"):
                    cnt = False
                else:
                    self.expect("WITH")
                    cnt = True
                self.expect("COUNT")
                over = (filler, cnt)
        self.expect_op(")")
        self.expect("WITHIN")
        self.expect("GROUP")
        self.expect_op("(")
        self.expect("ORDER", "BY")
        order = self.sep(self.sort_item)
        self.expect_op(")")
        return ("listagg", x, sepa, over, order, d)

    def call(self):
        name = self.ident().upper()
        if name not in F.ARITY:
            raise RefError(f"unknown function {name}")
        self.expect_op("(")
        distinct, order, filt, nulls, over = False, (), None, "RESPECT", None
        star = False
        if self.accept_op("*"):
            args, star = (("stararg", None),), True
        elif self.is_ident() and self.is_op(".", 1) and self.is_op("*", 2):
            args, star = (("stararg", self.ident()),), True
            self.i += 2
        elif self.is_op(")"):
            args = ()
        else:
            if self.kw() == "DISTINCT" or (self.kw() == "ALL" and not (self.is_op(")", 1) or self.is_op(",", 1))):
                distinct = self.set_quant() == "DISTINCT"
            if self.kw() == "ORDER":
                raise RefError("ORDER BY without arguments")
            args = self.sep(self.expr)
        if not star and self.accept("ORDER", "BY"):
            order = self.sep(self.sort_item)
        self.expect_op(")")
        if star and name != "COUNT":
            raise RefError("* is only for COUNT")
        if self.kw() == "FILTER" and self.is_op("(", 1):
            self.i += 2
            self.expect("WHERE")
            filt = self.expr()
            self.expect_op(")")
        if not star and self.kw() in ("IGNORE", "RESPECT") and self.kw(1) == "NULLS":
            nulls = self.kw()
            self.i += 2
            if self.kw() != "OVER":
                raise RefError("null treatment needs OVER")
        if self.kw() == "OVER" and (self.is_op("(", 1) or self.is_ident(1)):
            self.i += 1
            if self.accept_op("("):
                over = self.window_spec()
                self.expect_op(")")
            else:
                over = ("win", self.ident(), (), (), None)
        lo, hi = F.ARITY[name]
        if not lo <= len(args) <= hi:
            raise RefError(f"wrong number of arguments for {name}")
        if name not in F.AGG and (distinct or order or filt is not None or over is not None):
            raise RefError(f"modifier on scalar function {name}")
        mods = ()
        if distinct or order or filt is not None or over is not None or nulls != "RESPECT":
            mods = (distinct, order, filt, nulls, over)
        return ("call", name, args, mods)

    # -- types ------------------------------------------------------------
    def type(self):
        t = self.type_head()
        while self.kw() == "ARRAY":
            self.i += 1
            if self.is_op("["):
                raise RefError("sized array not modelled")
            t = canon_type("ARRAY", (t,))
        return t

    def type_head(self):
        w = self.kw()
        if w == "ROW" and self.is_op("(", 1):
            self.i += 2
            fs = self.sep(self.row_field)
            self.expect_op(")")
            return canon_type("ROW", fs)
        if w == "INTERVAL" and self.kw(1) in FIELDS:
            a = self.kw(1)
            self.i += 2
            b = None
            if self.accept("TO"):
                b = self.kw()
                self.i += 1
            return canon_type("INTERVAL", (a, b))
        if w in ("TIMESTAMP", "TIME"):
            self.i += 1
            p = None
            if self.accept_op("("):
                p = self.integer()
                self.expect_op(")")
            tz = False
            if self.accept("WITHOUT", "TIME", "ZONE"):
                pass
            elif self.accept("WITH", "TIME", "ZONE"):
                tz = True
            return canon_type(w, (p, tz))
        if w == "DOUBLE" and self.kw(1) == "PRECISION":
            self.i += 2
            return canon_type("DOUBLE", ())
        name = self.ident().upper()
        if self.is_op("<"):
            raise RefError("legacy type not modelled")
        params = ()
        if self.accept_op("("):
            params = self.sep(self.type_param)
            self.expect_op(")")
        return type_meaning(name, params)

    def row_field(self):
        t = self.type()
        if not (self.is_op(",") or self.is_op(")")):
            raise RefError("named row fields not modelled")
        return t

    def type_param(self):
        if self.peek().kind == "int":
            return self.integer()
        return self.type()


def bind(node, names):
    """Unqualified column references to a lambda's arguments are variables. Subqueries keep their own scope rules and
    are not entered."""
    if isinstance(node, tuple):
        if node and node[0] == "col" and len(node) == 3 and node[1] is None and node[2] in names:
            return ("var", node[2])
        if node and node[0] == "query":
            return node
        return tuple(bind(c, names) for c in node)
    return node


def parse_query(sql):
    p = Parser(sql, True)
    q = p.query()
    p.end()
    return q


def parse_expr(sql):
    p = Parser(sql)
    e = p.expr()
    p.end()
    return e


def parse_type(sql):
    p = Parser(sql)
    t = p.type()
    p.end()
    return t
