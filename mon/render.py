"""Meaning -> SQL text in a random spelling: layout, comments, keyword case, redundant parentheses, noise words."""
import re

from . import funcs as F
from .words import keyword

L_OR, L_AND, L_NOT, L_PRED, L_CONCAT, L_ADD, L_MUL, L_UNARY, L_PRIM = range(9)
NEG_FORMS = ("between", "in", "inq", "like", "isnull", "distinct")


class K(str):
    """A keyword token (its letter case is free)."""


class Ident(str):
    pass


class Renderer:
    same_tree = False  # keep to spellings which the parser need not remember

    def __init__(self, rng=None, style="plain", parens=0.0, noise=0.0, comments=0.0, case="upper", quote=None):
        self.r = rng
        self.style, self.parens, self.noise, self.comments, self.case, self.quote = style, parens, noise, comments, case, quote

    @classmethod
    def wild(cls, rng):
        return cls(rng, rng.choice(["plain", "tight", "lines", "mixed"]), rng.choice([0, 0.1, 0.3]), rng.choice([0.2, 0.5, 0.8]),
                   rng.choice([0, 0, 0.15]), rng.choice(["upper", "lower", "mixed"]), rng.choice([None, 1.0, 0.5]))

    def ch(self, p):
        return self.r is not None and p > 0 and self.r.random() < p

    def n(self):
        return self.ch(self.noise)

    def pick(self, a):
        return self.r.choice(a) if self.r is not None else a[0]

    # -- tokens --------------------------------------------------------------
    def k(self, *words):
        return [K(w) for w in words]

    def id(self, name, implicit=False):
        """identifier token; implicit: an alias without AS, which must not look like a clause"""
        ok = re.fullmatch(r"[A-Za-z_][A-Za-z0-9_]*", name) is not None
        if ok:
            w = keyword(name)
            from .words import NONRESERVED
            if w is not None and (implicit or w not in NONRESERVED or w not in ("YEAR", "DATA", "KEY", "COMMENT", "TYPE", "SCHEMA", "LEVEL",
                                                                              "MINUTE")):
                ok = False
        if ok and not self.ch(0.5 if self.quote is None else self.quote) and self.r is not None:
            return [Ident(name)]
        return [Ident('"' + name.replace('"', '""') + '"')]

    def string(self, s):
        if self.n() and self.ch(0.3) and "\x00" not in s:
            esc = self.pick(["\\", "!", "#"])
            body = []
            for c in s:
                if c == esc:
                    body.append(esc * 2)
                elif c == "'":
                    body.append("''")
                elif self.ch(0.3) and ord(c) < 0x10000:
                    body.append(f"{esc}{ord(c):04X}")
                elif self.ch(0.2):
                    body.append(f"{esc}+{ord(c):06x}")
                else:
                    body.append(c)
            out = ["U&'" + "".join(body) + "'"]
            if esc != "\\" or self.ch(0.2):
                out += self.k("UESCAPE") + ["'" + esc + "'"]
            return out
        return ["'" + s.replace("'", "''") + "'"]

    def text(self, toks):
        out = []
        prev = None
        for t in toks:
            s = str(t)
            if isinstance(t, K):
                if self.case == "lower" and s not in F.NORMAL_FORMS:
                    s = s.lower()
                elif self.case == "mixed" and s not in F.NORMAL_FORMS and self.ch(0.5):
                    s = s.lower()
            if prev is not None:
                out.append(self.gap(prev, s))
            out.append(s)
            prev = s
        return "".join(out)

    def gap(self, a, b):
        wordish = re.compile(r"[A-Za-z0-9_'\"`.&]")
        need = bool(wordish.match(a[-1]) and wordish.match(b[0]))
        if a == "." or b == ".":
            need = False
        if a == "-" and b.startswith("-"):
            need = True
        if a + b in ("<>", "<=", ">=", "->", "=>", "||", "!="):
            need = True
        if self.ch(self.comments):
            if a == "." or b == ".":
                return ""
            return self.pick([" /* c */ ", " -- note 'x\n", " /* a\n b -- */", " --\n", " /**/ "])
        if self.style == "plain":
            tight = a in ("(", "[", ".") or b in (")", "]", ",", ".", "[") or (b == "(")
            return " " if need or not tight else ""
        if self.style == "tight":
            return " " if need else ""
        if self.style == "lines":
            return "\n" if need or self.ch(0.7) else ""
        return self.pick([" ", "  ", "\t", "\n", "\r\n", " \n  "]) if need or self.ch(0.5) else ""

    # -- expressions -----------------------------------------------------------
    def e(self, m, lvl=0):
        toks, l = self.expr(m)
        if l < lvl or self.ch(self.parens):
            toks = ["("] + toks + [")"]
            if self.ch(self.parens * 0.3):
                toks = ["("] + toks + [")"]
        return toks

    def list(self, ms, fn=None):
        out = []
        for i, m in enumerate(ms):
            if i:
                out.append(",")
            out += (fn or self.e)(m)
        return out

    def num(self, m):
        if m[0] == "int":
            s = str(abs(m[1]))
            if self.n() and self.ch(0.1):
                s = "00" + s
            neg = m[1] < 0
        elif m[0] == "dec":
            d = str(abs(m[1])).rjust(m[2], "0")
            whole, frac = (d[:-m[2]], d[-m[2]:]) if m[2] else (d, "")
            if whole in ("", "0") and frac and self.n():
                whole = ""
            elif whole == "":
                whole = "0"
            s = whole + "." + frac
            neg = m[1] < 0
        else:
            s = m[1].upper().lstrip("-")
            if "E" not in s:
                s += "E0"
            elif self.n():
                s = s.replace("E+", "E").replace("E0", "E") if not s.endswith("E0") else s
            neg = m[1].startswith("-")
        return (["-"] if neg else []) + [s]

    def expr(self, m):
        """-> tokens, level"""
        k = m[0]
        if k in ("int", "dec", "dbl"):
            return self.num(m), L_PRIM
        if k == "null":
            return self.k("NULL"), L_PRIM
        if k == "bool":
            return self.k("TRUE" if m[1] else "FALSE"), L_PRIM
        if k == "str":
            return self.string(m[1]), L_PRIM
        if k == "col":
            if m[1] is None:
                return self.id(m[2]), L_PRIM
            return self.id(m[1]) + ["."] + self.id(m[2]), L_PRIM
        if k == "var":
            return self.id(m[1]), L_PRIM
        if k == "deref":
            return self.primary(m[1]) + ["."] + self.id(m[2]), L_PRIM
        if k == "sub":
            return self.primary(m[1]) + ["["] + self.e(m[2], L_CONCAT) + ["]"], L_PRIM
        if k == "neg":
            t = self.e(m[1], L_UNARY)
            if t[0][0].isdigit() or t[0][0] == ".":
                t = ["("] + t + [")"]
            return ["-"] + t, L_UNARY
        if k == "pos":
            return ["+"] + self.e(m[1], L_UNARY), L_UNARY
        if k == "arith":
            l = L_ADD if m[1] in "+-" else L_MUL
            return self.e(m[2], l) + [m[1]] + self.e(m[3], l + 1), l
        if k == "cmp":
            if m[1] == "<>" and not self.same_tree and self.n() and self.ch(0.2):
                return self.k("NOT") + self.e(("cmp", "=", m[2], m[3]), L_NOT), L_NOT
            op = "!=" if m[1] == "<>" and self.n() else m[1]
            return self.e(m[2], L_CONCAT) + [op] + self.e(m[3], L_CONCAT), L_PRED
        if k in ("and", "or"):
            l = L_AND if k == "and" else L_OR
            out = self.e(m[1], l)
            for x in m[2:]:
                out = out + self.k(k.upper()) + self.e(x, l + 1)
            return out, l
        if k == "not":
            x = m[1]
            if x[0] in NEG_FORMS and not self.n():
                return self.pred(x, True), L_PRED
            return self.k("NOT") + self.e(x, L_NOT), L_NOT
        if k in NEG_FORMS:
            return self.pred(m, False), L_PRED
        if k == "case":
            out = self.k("CASE")
            if m[1] is not None:
                out += self.e(m[1])
            for c, v in m[2]:
                out += self.k("WHEN") + self.e(c) + self.k("THEN") + self.e(v)
            if m[3] is not None:
                out += self.k("ELSE") + self.e(m[3])
            return out + self.k("END"), L_PRIM
        if k in ("cast", "trycast"):
            return self.k("CAST" if k == "cast" else "TRY_CAST") + ["("] + self.e(m[1]) + self.k("AS") + self.type(m[2]) + [")"], L_PRIM
        if k == "typed":
            if m[1] == "DOUBLE" and self.n():
                name = self.k("DOUBLE", "PRECISION")
            else:
                name = self.fname(m[1])
            return name + self.string(m[2]), L_PRIM
        if k == "interval":
            v = m[1]
            sign = []
            if self.n():
                if v.startswith("-"):
                    sign, v = self.pick([(["-"], v[1:]), (["-"], "+" + v[1:]), (["+"], v)])
                else:
                    sign, v = self.pick([(["+"], v), ([], "+" + v), (["-"], "-" + v)])
            return self.k("INTERVAL") + sign + ["'" + v.replace("'", "''") + "'"] + self.k(m[2]) + (
                self.k("TO", m[3]) if m[3] else []), L_PRIM
        if k == "row":
            if len(m) == 2 or self.n():
                return self.k("ROW") + ["("] + self.list(m[1:]) + [")"], L_PRIM
            return ["("] + self.list(m[1:]) + [")"], L_PRIM
        if k == "array":
            return self.k("ARRAY") + ["["] + self.list(m[1:]) + ["]"], L_PRIM
        if k == "lambda":
            if len(m[1]) == 1 and not self.n():
                head = self.id(m[1][0])
            else:
                head = ["("] + self.list(m[1], self.id) + [")"]
            return head + ["->"] + self.e(m[2]), -1
        if k == "subq":
            return ["("] + self.q(m[1]) + [")"], L_PRIM
        if k == "special":
            p = []
            if F.SPECIAL_TIME.get(m[1]) and (m[2] != 3 or self.n()):
                p = ["(", str(m[2]), ")"]
            return self.k(m[1]) + p, L_PRIM
        if k == "normalize":
            f = [] if m[2] == "NFC" and not self.same_tree and self.n() else [","] + self.k(m[2])
            return self.k("NORMALIZE") + ["("] + self.e(m[1], L_CONCAT) + f + [")"], L_PRIM
        if k == "listagg":
            out = self.k("LISTAGG") + ["("] + self.quant("DISTINCT" if m[5] else "ALL", "ALL") + self.e(m[1])
            if m[2] != "" or self.n():
                out += [","] + self.string(m[2])
            if m[3] is not None:
                out += self.k("ON", "OVERFLOW", "TRUNCATE")
                if m[3][0] != "..." or self.n():
                    out += self.string(m[3][0])
                out += self.k("WITH" if m[3][1] else "WITHOUT", "COUNT")
            elif self.n():
                out += self.k("ON", "OVERFLOW", "ERROR")
            out += [")"] + self.k("WITHIN", "GROUP") + ["("] + self.order(m[4]) + [")"]
            return out, L_PRIM
        if k == "call":
            return self.call(m)
        raise KeyError(k)

    def primary(self, m):
        t = self.e(m, L_PRIM)
        if m[0] in ("int", "dec", "dbl") and t[0] != "(":
            t = ["("] + t + [")"]
        return t

    def pred(self, m, neg):
        k = m[0]
        no = self.k("NOT") if neg else []
        v = self.e(m[1], L_CONCAT)
        if k == "isnull":
            return v + self.k("IS") + no + self.k("NULL")
        if k == "distinct":
            return v + self.k("IS") + no + self.k("DISTINCT", "FROM") + self.e(m[2], L_CONCAT)
        if k == "between":
            return v + no + self.k("BETWEEN") + self.e(m[2], L_CONCAT) + self.k("AND") + self.e(m[3], L_CONCAT)
        if k == "in":
            return v + no + self.k("IN") + ["("] + self.list(m[2]) + [")"]
        if k == "inq":
            return v + no + self.k("IN") + ["("] + self.q(m[2], wrap=False) + [")"]
        out = v + no + self.k("LIKE") + self.e(m[2], L_CONCAT)
        if m[3] is not None:
            out += self.k("ESCAPE") + self.e(m[3], L_CONCAT)
        return out

    def fname(self, name):
        if self.case == "upper" or self.r is None:
            return [Ident(name)]
        return [Ident(self.pick([name, name.lower(), name.capitalize(), name]))]

    def quant(self, q, default):
        if q != default or self.n():
            return self.k(q)
        return []

    def call(self, m):
        _, name, args, mods = m
        if name == "CONCAT" and len(args) == 2 and not mods and self.pick([True, self.r is None or not self.n()]):
            return self.e(args[0], L_CONCAT) + ["||"] + self.e(args[1], L_ADD), L_CONCAT
        distinct, order, filt, nulls, over = mods or (False, (), None, "RESPECT", None)
        out = self.fname(name) + ["("]
        if args and args[0][0] == "stararg":
            out += (self.id(args[0][1]) + ["."] if args[0][1] is not None else []) + ["*"]
            star = True
        else:
            star = False
            if args and (distinct or (name in F.AGG and self.n() and self.ch(0.3))):
                out += self.k("DISTINCT" if distinct else "ALL")
            out += self.list(args)
            if order:
                out += self.order(order)
        out += [")"]
        if filt is not None:
            out += self.k("FILTER") + ["("] + self.k("WHERE") + self.e(filt) + [")"]
        if over is not None:
            if not star and (nulls != "RESPECT" or self.n()):
                out += self.k(nulls, "NULLS")
            out += self.k("OVER")
            if over[1] is not None and over[2:] == ((), (), None) and not self.n():
                out += self.id(over[1])
            else:
                out += ["("] + self.win(over) + [")"]
        return out, L_PRIM

    def sort(self, o):
        out = self.e(o[0])
        if o[1] == "DESC" or self.n():
            out += self.k(o[1])
        if o[2] == "FIRST" or self.n():
            out += self.k("NULLS", o[2])
        return out

    def order(self, terms):
        return self.k("ORDER", "BY") + self.list(terms, self.sort)

    def win(self, w):
        _, parent, parts, order, frame = w
        out = []
        if parent is not None:
            out += self.id(parent)
        if parts:
            out += self.k("PARTITION", "BY") + self.list(parts)
        if order:
            out += self.order(order)
        if frame is not None and not (parent is None and frame == ("RANGE", ("unbounded", "PRECEDING"), ("current",)) and self.n()):
            if frame[2] == ("current",) and self.n():
                out += self.k(frame[0]) + self.bound(frame[1])
            else:
                out += self.k(frame[0], "BETWEEN") + self.bound(frame[1]) + self.k("AND") + self.bound(frame[2])
        return out

    def bound(self, b):
        if b[0] == "unbounded":
            return self.k("UNBOUNDED", b[1])
        if b[0] == "current":
            return self.k("CURRENT", "ROW")
        return self.e(b[2]) + self.k(b[1])

    # -- types -----------------------------------------------------------------
    def type(self, t):
        n = t[1]
        if n in ("TIME", "TIMESTAMP"):
            out = self.k(n)
            if t[2] is not None:
                out += ["(", str(t[2]), ")"]
            if t[3]:
                out += self.k("WITH", "TIME", "ZONE")
            elif self.n():
                out += self.k("WITHOUT", "TIME", "ZONE")
            return out
        if n == "INTERVAL":
            return self.k("INTERVAL", t[2], "TO", t[3])
        if n == "ROW":
            return self.k("ROW") + ["("] + self.list(t[2:], self.type) + [")"]
        if n == "ARRAY":
            if self.n():
                return self.type(t[2]) + self.k("ARRAY")
            return self.fname("ARRAY") + ["("] + self.type(t[2]) + [")"]
        if n == "DOUBLE" and self.n():
            return self.k("DOUBLE", "PRECISION")
        out = self.fname(n)
        if n == "DECIMAL":
            if t[3] == 0 and self.n():
                if t[2] == 38 and self.n():
                    return out
                return out + ["(", str(t[2]), ")"]
            return out + ["(", str(t[2]), ",", str(t[3]), ")"]
        if n == "CHAR" and t[2] == 1 and self.n():
            return out
        if n in ("VARCHAR", "CHAR"):
            return out if t[2] is None else out + ["(", str(t[2]), ")"]
        if len(t) > 2:
            return out + ["("] + self.list(t[2:], self.type) + [")"]
        return out

    # -- queries ---------------------------------------------------------------
    def q(self, q, wrap=True):
        _, ctes, body, order, offset, limit = q
        out = []
        if ctes:
            out += self.k("WITH") + self.list(ctes, self.cte)
        b = self.body(body)
        bare = not order and offset is None and limit is None
        if wrap and self.ch(self.parens * 0.7):
            b = ["("] + b + [")"]
        if order:
            b += self.order(order)
        if offset is not None:
            b += self.k("OFFSET") + [str(offset)] + (self.k(self.pick(["ROW", "ROWS"])) if self.n() else [])
        if limit is not None:
            if self.n() and self.ch(0.5):
                b += self.k("FETCH", self.pick(["FIRST", "NEXT"])) + ([] if limit == 1 and self.n() else [str(limit)]) + self.k(
                    self.pick(["ROW", "ROWS"]), "ONLY")
            else:
                b += self.k("LIMIT") + [str(limit)]
        elif self.n() and self.ch(0.2) and not bare:
            b += self.k("LIMIT", "ALL")
        return out + b

    def cte(self, c):
        out = self.id(c[0])
        if c[1] is not None:
            out += ["("] + self.list(c[1], self.id) + [")"]
        return out + self.k("AS") + ["("] + self.q(c[2]) + [")"]

    def operand(self, q, level):
        """operand of a set operation; level 0: UNION/EXCEPT left, 1: their right or INTERSECT left, 2: INTERSECT right"""
        _, ctes, body, order, offset, limit = q
        assert not ctes
        simple = not order and offset is None and limit is None
        if simple and body[0] == "setop":
            have = 1 if body[1] == "INTERSECT" else 0
            simple = have >= level
        if simple and self.r is not None and self.ch(0.6):
            return self.q(q, wrap=False)
        return ["("] + self.q(q) + [")"]

    def body(self, b):
        k = b[0]
        if k == "select":
            return self.select(b)
        if k == "values":
            return self.k("VALUES") + self.list(b[1:])
        if k == "tableq":
            return self.k("TABLE") + self.parts(b[1])
        _, op, quant, l, r = b
        lv = 1 if op == "INTERSECT" else 0
        return self.operand(l, lv) + self.k(op) + self.quant(quant, "DISTINCT") + self.operand(r, lv + 1)

    def parts(self, ps):
        out = []
        for i, p in enumerate(ps):
            if i:
                out.append(".")
            out += self.id(p)
        return out

    def select(self, b):
        _, quant, items, frm, where, group, having, wins = b
        out = self.k("SELECT") + self.quant(quant, "ALL") + self.list(items, self.item)
        if frm is not None:
            out += self.k("FROM") + self.rel(frm, 0)
        if where is not None:
            out += self.k("WHERE") + self.e(where)
        if group is not None:
            out += self.k("GROUP", "BY") + self.quant(group[0], "ALL") + self.list(group[1], self.group)
        if having is not None:
            out += self.k("HAVING") + self.e(having)
        if wins:
            out += self.k("WINDOW") + self.list(wins, lambda w: self.id(w[0]) + self.k("AS") + ["("] + self.win(w[1]) + [")"])
        return out

    def item(self, i):
        if i[0] == "star":
            return (self.star_base(i[1]) + ["."] if i[1] is not None else []) + ["*"]
        if i[0] == "starals":
            return self.star_base(i[1]) + [".", "*"] + self.k("AS") + ["("] + self.list(i[2], self.id) + [")"]
        out = self.e(i[1])
        if i[2] is not None:
            out += self.alias(i[2])
        return out

    def alias(self, a):
        if self.n() or self.r is None:
            return self.k("AS") + self.id(a)
        return self.id(a, implicit=True)

    def star_base(self, b):
        if isinstance(b, str):
            return self.id(b)
        return self.primary(b)

    def group(self, g):
        if g[0] == "gset":
            if len(g[1]) == 1:
                x = g[1][0]
                t = self.e(x)
                if x[0] == "row" and t[0] == "(":
                    return ["("] + t + [")"]
                return t
            return ["("] + self.list(g[1]) + [")"]
        if g[0] == "gsets":
            return self.k("GROUPING", "SETS") + ["("] + self.list(g[1], self.group) + [")"]
        return self.k(g[0].upper()) + ["("] + self.list(g[1]) + [")"]

    # relation levels: 0 relation, 1 sampled, 2 aliased, 3 primary
    def rel(self, r, lvl):
        t, l = self.relation(r)
        if l < lvl or (r[0] != "subq" and self.ch(self.parens * 0.5)):
            t = ["("] + t + [")"]
        return t

    def relation(self, r):
        k = r[0]
        if k == "table":
            return self.parts(r[1]), 3
        if k == "subq":
            return ["("] + self.q(r[1]) + [")"], 3
        if k == "lateral":
            return self.k("LATERAL") + ["("] + self.q(r[1]) + [")"], 3
        if k == "unnest":
            return self.k("UNNEST") + ["("] + self.list(r[1]) + [")"] + (self.k("WITH", "ORDINALITY") if r[2] else []), 3
        if k == "alias":
            return self.rel(r[1], 3) + self.alias(r[2]) + (["("] + self.list(r[3], self.id) + [")"] if r[3] is not None else []), 2
        if k == "sample":
            return self.rel(r[1], 2) + self.k("TABLESAMPLE", r[2]) + ["("] + self.e(r[3]) + [")"], 1
        _, jt, natural, crit, l, rr = r
        left = self.rel(l, 0)
        jw = self.k("JOIN")
        if jt == "INNER":
            jw = (self.k("INNER") if self.n() else []) + jw
        elif jt == "CROSS":
            jw = self.k("CROSS") + jw
        else:
            jw = self.k(jt) + (self.k("OUTER") if self.n() else []) + jw
        if natural:
            jw = self.k("NATURAL") + jw
        if jt == "CROSS" or natural:
            return left + jw + self.rel(rr, 1), 0
        right = self.rel(rr, 0 if self.n() else 1)
        c = self.k("ON") + self.e(crit[1]) if crit[0] == "on" else self.k("USING") + ["("] + self.list(crit[1], self.id) + [")"]
        return left + jw + right + c, 0


def render(m, kind, rr=None):
    rr = rr or Renderer()
    toks = {"expr": rr.e, "query": rr.q, "type": rr.type, "rel": lambda x: rr.rel(x, 0)}[kind](m)
    return rr.text(toks)
