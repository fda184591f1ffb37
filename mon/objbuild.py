"""Meaning -> treeno tree, built through the public Python API (constructors, builders and overloaded operators).

Builder(rng): with a generator, the API spelling is varied (positional/keyword, operators/constructors, raw Python values).
Not every meaning is expressible the same way; the object always has exactly the meaning given.
"""
import importlib
import operator
from decimal import Decimal

import treeno.datatypes.builder as dt
import treeno.expression as ex
import treeno.relation as rel
from treeno import groupby as gb, orderby as ob, window as wi
from treeno.base import SetQuantifier
from treeno.functions import aggregate, string as fstring

from . import funcs as F
from .objmodel import FUNC_ARGS

ARITH = {"+": ex.Add, "-": ex.Minus, "*": ex.Multiply, "/": ex.Divide, "%": ex.Modulus}
CMP = {"=": ex.Equal, "<>": ex.NotEqual, "<": ex.LessThan, "<=": ex.LessThanOrEqual, ">": ex.GreaterThan, ">=": ex.GreaterThanOrEqual}
PYOP = {"+": operator.add, "-": operator.sub, "*": operator.mul, "/": operator.truediv, "%": operator.mod, "=": operator.eq,
        "<>": operator.ne, "<": operator.lt, "<=": operator.le, ">": operator.gt, ">=": operator.ge}
FN = {n: getattr(importlib.import_module("treeno.functions." + m), c) for n, (m, c) in F.CLASS.items()}
PLAIN = {"BOOLEAN": dt.boolean, "INTEGER": dt.integer, "TINYINT": dt.tinyint, "SMALLINT": dt.smallint, "BIGINT": dt.bigint, "REAL": dt.real,
         "DOUBLE": dt.double, "VARBINARY": dt.varbinary, "JSON": dt.json, "DATE": dt.date, "IPADDRESS": dt.ip, "UUID": dt.uuid,
         "HYPERLOGLOG": dt.hll, "P4HYPERLOGLOG": dt.p4hll, "TDIGEST": dt.tdigest, "UNKNOWN": dt.unknown}


class Builder:
    types = None  # (table, name) -> type of the columns, when known

    def __init__(self, rng=None):
        self.r = rng
        self.calls = 0

    def flip(self, p=0.5):
        return self.r is not None and self.r.random() < p

    # -- literals ----------------------------------------------------------
    def pyval(self, m):
        """Python value of a literal meaning that can be auto-wrapped, or None"""
        k = m[0]
        if k in ("bool", "int", "str"):
            return m[1]
        if k == "dec":
            return Decimal((int(m[1] < 0), tuple(map(int, str(abs(m[1])))), -m[2]))
        if k == "dbl":
            return float(m[1])
        return None

    def arg(self, m):
        """operand of a constructor that wraps Python values itself"""
        v = self.pyval(m)
        if v is not None and self.flip():
            return v
        return self.expr(m)

    def args(self, ms):
        return [self.arg(m) for m in ms]

    def expr(self, m):
        self.calls += 1
        k = m[0]
        if k == "null":
            return ex.NULL
        v = self.pyval(m)
        if v is not None:
            return ex.wrap_literal(v)
        if k == "neg" and self.r is not None and not self.flip():
            return -self.expr(m[1])
        if k in ("neg", "pos"):
            if self.flip():
                x = self.expr(m[1])
                return +x if k == "pos" else -x
            return (ex.Negative if k == "neg" else ex.Positive)(self.arg(m[1]))
        if k == "col":
            kw = {}
            if self.types is not None and self.types.get(m[1:]) is not None:
                kw["data_type"] = self.type(self.types[m[1:]])
            return ex.Field(m[2], m[1], **kw) if not self.flip() else ex.Field(name=m[2], table=m[1], **kw)
        if k == "var":
            return ex.Lambda.Variable(m[1])
        if k == "deref":
            return ex.Field(m[2], self.expr(m[1]))
        if k in ("arith", "cmp"):
            cls = (ARITH if k == "arith" else CMP)[m[1]]
            if self.flip():
                return PYOP[m[1]](self.expr(m[2]), self.arg(m[3]))
            if self.flip():
                return cls(left=self.arg(m[2]), right=self.arg(m[3]))
            return cls(self.arg(m[2]), self.arg(m[3]))
        if k in ("and", "or"):
            cls = ex.And if k == "and" else ex.Or
            xs = m[1:]
            # any association of the same operator is the same meaning
            if len(xs) > 2 and self.flip(0.4):
                cut = self.r.randrange(1, len(xs))
            else:
                cut = len(xs) - 1
            lo = xs[0] if cut == 1 else (k,) + xs[:cut]
            hi = xs[-1] if cut == len(xs) - 1 else (k,) + xs[cut:]
            if self.flip():
                return (operator.and_ if k == "and" else operator.or_)(self.expr(lo), self.arg(hi))
            return cls(self.arg(lo), self.arg(hi))
        if k == "not":
            return ~self.expr(m[1]) if self.flip() else ex.Not(self.arg(m[1]))
        if k == "isnull":
            return ex.IsNull(self.arg(m[1]))
        if k == "distinct":
            return ex.DistinctFrom(self.arg(m[1]), self.arg(m[2]))
        if k == "between":
            return ex.Between(self.arg(m[1]), self.arg(m[2]), self.arg(m[3]))
        if k == "in":
            return ex.InList(self.arg(m[1]), self.args(m[2]))
        if k == "inq":
            return ex.InQuery(self.arg(m[1]), self.query(m[2]))
        if k == "like":
            if m[3] is None:
                return ex.Like(self.arg(m[1]), self.arg(m[2]))
            return ex.Like(self.arg(m[1]), self.arg(m[2]), self.arg(m[3]))
        if k == "case":
            kw = {}
            if m[1] is not None:
                kw["value"] = self.arg(m[1])
            if m[3] is not None:
                kw["else_"] = ex.Else(self.arg(m[3]))
            return ex.Case([ex.When(self.arg(c), self.arg(v)) for c, v in m[2]], **kw)
        if k in ("cast", "trycast"):
            return (ex.Cast if k == "cast" else ex.TryCast)(self.arg(m[1]), data_type=self.type(m[2]))
        if k == "typed":
            return ex.TypeConstructor(m[2], m[1].lower() if self.flip() else m[1])
        if k == "interval":
            return ex.Interval(m[1], m[2]) if m[3] is None else ex.Interval(m[1], m[2], m[3])
        if k == "row":
            return ex.RowConstructor([self.expr(x) for x in m[1:]])
        if k == "array":
            return ex.Array(self.args(m[1:]))
        if k == "sub":
            return ex.Subscript(self.expr(m[1]), self.arg(m[2]))
        if k == "lambda":
            from .refparse import bind
            if self.flip():
                return ex.Lambda([ex.Lambda.Variable(n) for n in m[1]], self.expr(m[2]))
            if any(n[0] == "col" and n[1] is None and n[2] in m[1] for n in _nodes(m[2])) or _has_query(m[2]):
                return ex.Lambda([ex.Lambda.Variable(n) for n in m[1]], self.expr(m[2]))
            return ex.Lambda.from_generic_expr([ex.Lambda.Variable(n) for n in m[1]], self.expr(unbind(m[2], set(m[1]))))
        if k == "subq":
            return self.query(m[1])
        if k == "special":
            cls = FN[m[1]]
            if m[2] is None or (m[2] == 3 and self.flip()):
                return cls()
            return cls(m[2])
        if k == "normalize":
            if m[2] == "NFC" and self.flip():
                return fstring.Normalize(self.arg(m[1]))
            return fstring.Normalize(self.arg(m[1]), fstring.NormalForm[m[2]])
        if k == "listagg":
            kw = {}
            if m[2] != "" or self.flip():
                kw["separator"] = m[2]
            if m[3] is not None:
                ci = aggregate.CountIndication.WITH_COUNT if m[3][1] else aggregate.CountIndication.WITHOUT_COUNT
                kw["overflow_filler"] = aggregate.OverflowFiller(ci) if m[3][0] == "..." and self.flip() else aggregate.OverflowFiller(ci, m[3][0])
            if m[5]:
                kw["distinct"] = True
            return aggregate.ListAgg(self.arg(m[1]), orderby=self.order(m[4]), **kw)
        if k == "call":
            return self.call(m)
        raise KeyError(k)

    def call(self, m):
        _, name, args, mods = m
        cls = FN[name]
        kw = {}
        if mods:
            distinct, order, filt, nulls, over = mods
            if distinct:
                kw["distinct"] = True
            if order:
                kw["orderby"] = self.order(order)
            if filt is not None:
                kw["filter_"] = self.expr(filt)
            if over is not None:
                kw["window"] = self.window(over)
            if nulls != "RESPECT" or self.flip(0.2):
                kw["null_treatment"] = wi.NullTreatment[nulls]
        if args and args[0][0] == "stararg":
            return cls(ex.Star(args[0][1]) if args[0][1] else ex.Star(), **kw)
        spec = FUNC_ARGS.get(name, ("value",))
        if spec and spec[-1].endswith("*"):
            return cls(self.args(args), **kw)
        if name == "CONCAT":
            return cls(self.args(args), **kw)
        # APPROX_PERCENTILE's optional argument sits in the middle
        req = [s for s in spec if not s.endswith("?")]
        nopt = len(args) - len(req)
        named, i = [], 0
        for s in spec:
            if s.endswith("?"):
                if nopt > 0:
                    nopt -= 1
                    named.append((s[:-1], args[i]))
                    i += 1
            else:
                named.append((s, args[i]))
                i += 1
        if name == "FROM_UNIXTIME" and len(args) == 3:
            return cls(self.arg(args[0]), hours=self.arg(args[1]), minutes=self.arg(args[2]))
        assert i == len(args), (name, args)
        if name == "POWER" and self.flip():
            return self.expr(args[0]) ** self.arg(args[1])
        # keyword arguments, or positional where the class lists them in the same order
        if self.flip() or name == "APPROX_PERCENTILE" or not spec:
            for n, a in named:
                kw[n] = self.arg(a)
            return cls(**kw)
        return cls(*[self.arg(a) for _, a in named], **kw)

    def order(self, terms):
        out = []
        for e, d, n in terms:
            kw = {}
            if d != "ASC" or self.flip():
                kw["order_type"] = ob.OrderType[d]
            if n != "LAST" or self.flip():
                kw["null_order"] = ob.NullOrder[n]
            out.append(ob.OrderTerm(self.expr(e), **kw))
        return out

    def window(self, w):
        _, parent, parts, order, frame = w
        kw = {}
        if parent is not None:
            kw["parent_window"] = parent
        if parts:
            kw["partitions"] = [self.expr(p) for p in parts]
        if order:
            kw["orderby"] = self.order(order)
        if frame is not None:
            if frame[0] != "RANGE" or self.flip():
                kw["frame_type"] = wi.FrameType[frame[0]]
            if frame[1] != ("unbounded", "PRECEDING") or self.flip():
                kw["start_bound"] = self.bound(frame[1])
            if frame[2] != ("current",) or self.flip():
                kw["end_bound"] = self.bound(frame[2])
        return wi.Window(**kw)

    def bound(self, b):
        if b[0] == "current":
            return wi.CurrentFrameBound()
        if b[0] == "unbounded":
            return wi.UnboundedFrameBound(wi.BoundType[b[1]])
        return wi.BoundedFrameBound(wi.BoundType[b[1]], self.arg(b[2]))

    # -- types ---------------------------------------------------------------
    def type(self, t):
        n = t[1]
        if n in PLAIN:
            return PLAIN[n]()
        if n in ("TIME", "TIMESTAMP"):
            kw = {}
            if t[2] is not None:
                kw["precision"] = t[2]
            if t[3] or self.flip(0.3):
                kw["timezone"] = t[3]
            return (dt.time if n == "TIME" else dt.timestamp)(**kw)
        if n == "INTERVAL":
            return dt.interval(from_interval=t[2], to_interval=t[3])
        if n == "ROW":
            return dt.row(dtypes=[self.type(x) for x in t[2:]])
        if n == "DECIMAL":
            if t[2] == 38 and t[3] == 0 and self.flip():
                return dt.decimal()
            return dt.decimal(precision=t[2]) if t[3] == 0 and self.flip() else dt.decimal(precision=t[2], scale=t[3])
        if n == "VARCHAR":
            return dt.varchar() if t[2] is None else dt.varchar(max_chars=t[2])
        if n == "CHAR":
            return dt.char() if t[2] == 1 and self.flip() else dt.char(max_chars=t[2])
        if n == "ARRAY":
            return dt.array(dtype=self.type(t[2]))
        if n == "MAP":
            return dt.map_(from_dtype=self.type(t[2]), to_dtype=self.type(t[3]))
        if n == "QDIGEST":
            return dt.qdigest(dtype=self.type(t[2]))
        raise KeyError(n)

    # -- queries ---------------------------------------------------------------
    def query(self, q):
        self.calls += 1
        _, ctes, body, order, offset, limit = q
        kw = {}
        if ctes:
            kw["with_"] = [rel.AliasedRelation(self.query(c[2]), c[0]) if c[1] is None else
                           rel.AliasedRelation(self.query(c[2]), c[0], list(c[1])) for c in ctes]
        if order:
            kw["orderby"] = self.order(order)
        if offset is not None:
            kw["offset"] = offset
        if limit is not None:
            kw["limit"] = limit
        k = body[0]
        if k == "select":
            _, quant, items, frm, where, group, having, wins = body
            if frm is not None:
                kw["from_"] = self.rel(frm)
            if where is not None:
                kw["where"] = self.expr(where)
            if group is not None:
                gs = [self.group(g) for g in group[1]]
                kw["groupby"] = gb.GroupBy(gs) if group[0] == "ALL" and self.flip() else gb.GroupBy(gs, SetQuantifier[group[0]])
            if having is not None:
                kw["having"] = self.expr(having)
            if wins:
                kw["window"] = {n: self.window(w) for n, w in wins}
            if quant != "ALL" or self.flip():
                kw["select_quantifier"] = SetQuantifier[quant]
            return rel.SelectQuery(select=[self.item(i) for i in items], **kw)
        if k == "values":
            return rel.ValuesQuery([self.expr(e) for e in body[1:]], **kw)
        if k == "tableq":
            return rel.TableQuery(self.rel(("table", body[1])), **kw)
        _, op, quant, l, r = body
        cls = {"UNION": rel.UnionQuery, "INTERSECT": rel.IntersectQuery, "EXCEPT": rel.ExceptQuery}[op]
        if quant != "DISTINCT" or self.flip():
            kw["set_quantifier"] = SetQuantifier[quant]
        return cls(self.query(l), self.query(r), **kw)

    def item(self, i):
        if i[0] == "star":
            return ex.Star() if i[1] is None else ex.Star(self.star_base(i[1]))
        if i[0] == "starals":
            return ex.AliasedStar(ex.Star(self.star_base(i[1])), list(i[2]))
        e = self.expr(i[1])
        return e if i[2] is None else ex.AliasedValue(e, i[2])

    def star_base(self, b):
        return b if isinstance(b, str) else self.expr(b)

    def group(self, g):
        if g[0] == "gset":
            return gb.GroupingSet([self.expr(e) for e in g[1]])
        if g[0] == "gsets":
            return gb.GroupingSetList([self.group(x) for x in g[1]])
        return (gb.Rollup if g[0] == "rollup" else gb.Cube)([self.expr(e) for e in g[1]])

    def rel(self, r):
        self.calls += 1
        k = r[0]
        if k == "table":
            p = r[1]
            kw = dict(zip(("name", "schema", "catalog"), reversed(p)))
            return rel.Table(**kw)
        if k == "alias":
            return rel.AliasedRelation(self.rel(r[1]), r[2]) if r[3] is None else rel.AliasedRelation(self.rel(r[1]), r[2], list(r[3]))
        if k == "subq":
            return self.query(r[1])
        if k == "unnest":
            xs = [self.expr(e) for e in r[1]]
            return rel.Unnest(xs) if not r[2] and self.flip() else rel.Unnest(xs, with_ordinality=r[2])
        if k == "lateral":
            return rel.Lateral(self.query(r[1]))
        if k == "sample":
            return rel.TableSample(self.rel(r[1]), rel.SampleType[r[2]], self.expr(r[3]))
        _, jt, natural, crit, l, rr = r
        jtype = rel.JoinType["OUTER" if jt == "FULL" and "OUTER" in rel.JoinType.__members__ else jt]
        kw = {}
        if natural:
            kw["natural"] = True
        if crit is not None:
            kw["criteria"] = rel.JoinOnCriteria(self.expr(crit[1])) if crit[0] == "on" else rel.JoinUsingCriteria(list(crit[1]))
        return rel.Join(self.rel(l), self.rel(rr), rel.JoinConfig(jtype, **kw))


def _nodes(m):
    if isinstance(m, tuple):
        if m and isinstance(m[0], str):
            yield m
        for c in m:
            yield from _nodes(c)


def _has_query(m):
    return any(n[0] in ("subq", "inq") for n in _nodes(m))


def unbind(m, names):
    if isinstance(m, tuple):
        if len(m) == 2 and m[0] == "var" and m[1] in names:
            return ("col", None, m[1])
        if m and m[0] == "lambda" and set(m[1]) & names:
            names = names - set(m[1])
        return tuple(unbind(c, names) for c in m)
    return m
