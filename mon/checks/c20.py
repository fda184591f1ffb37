"""The library's own work grows moderately with nesting and length."""
import copy
import os
import sys

from .. import funcs as F, gen as G, objbuild, probe as P, treewalk as T, workload as W
from ..core import exc_text
from ..model import canon
from . import c15

ID = "C20"
RULE = ("towers: every operator in every operand position, every function in every argument and modifier, every clause, relation, set operation and type constructor, "
        "plugged into itself and into one another to a depth and to three times that depth; chains of CTEs which use the one before twice; operators and functions of operands of nested types; lists of a length and of "
        "three times that length; long contents of literals and names. Every step (parse, build, print, pretty print, compare, traverse, resolve, treeify) runs under a "
        "monitor which counts the functions the library (and copy and attr on its behalf) starts, and stops a step which needs more than the allowed multiple. "
        "Non-trivial: distinct towers whose larger size was measured for at least three steps")
NEED = {"steps measured": 3000, "function starts observed": 3000000, "constructs nested": 130, "wide lists": 20, "chains of CTEs": 4, "operators of nested types": 60}
ASSUMPTIONS = ["the generated ANTLR parser's own work is not counted, only bounded by the time limit of a case",
               "work is measured as functions started: three times the depth or length may take up to 30 times the work (a polynomial of degree 3.1)",
               "RecursionError is Python's limit, not a violation"]
FACTOR = 30
PER_NODE = 100


class Blowup(BaseException):
    pass


class Meter:
    """counts the functions started while it's on"""
    def __init__(self):
        self.n, self.cap, self.on = 0, None, False
        self.mon = sys.monitoring
        self.tool = next(t for t in (3, 4, 1) if self.mon.get_tool(t) is None)
        self.mon.use_tool_id(self.tool, "work")
        self.mon.register_callback(self.tool, self.mon.events.PY_START, self.start)

    def start(self, code, offset):
        f = code.co_filename
        if not (("/treeno/" in f and "/gen/" not in f and "/mon/" not in f) or f.endswith(("/copy.py", "/attr/_make.py", "/attr/_funcs.py")) or "attrs generated" in f):
            return self.mon.DISABLE
        if self.on:
            self.n += 1
            if self.cap is not None and self.n > self.cap:
                self.on = False
                raise Blowup

    def measure(self, f, cap=None):
        """-> (result, functions started)"""
        self.n, self.cap = 0, cap
        self.mon.set_events(self.tool, self.mon.events.PY_START)
        self.on = True
        try:
            r = f()
        finally:
            self.on = False
            self.mon.set_events(self.tool, 0)
        return r, self.n


METER = None


def size(m):
    return 1 + sum(size(x) for x in m if isinstance(x, tuple)) if isinstance(m, tuple) else 1


def steps(kind, m, text, seed):
    """name -> function of the results of the earlier steps"""
    from treeno.base import Sql
    from treeno.cli import treeify
    from treeno.relation import Query, Schema

    def other(o):
        return copy.deepcopy(o)
    out = []
    if text is not None:
        out.append(("parse", lambda s: s.__setitem__("o", P.parse(kind, text))))
    if m is not None:
        out.append(("build", lambda s: s.__setitem__("b", getattr(objbuild.Builder(__import__("random").Random(seed)), kind)(m))))

    def tree(s):
        o = s.get("o")
        return s["b"] if o is None else o
    if kind == "type":
        from treeno.datatypes.conversions import common_supertype
        out += [("print", lambda s: str(tree(s))), ("compare", lambda s: tree(s) == s["twin"]), ("supertype", lambda s: common_supertype(tree(s), s["twin"]))]
        return out, tree, other
    out += [("print", lambda s: str(tree(s))), ("pretty", lambda s: P.show(tree(s), True)),
            ("compare", lambda s: tree(s).equals(s["twin"])), ("traverse", lambda s: visit(tree(s))), ("treeify", lambda s: treeify(tree(s)))]
    out.append(("resolve", lambda s: s["twin"].resolve(Schema.empty_schema()) if isinstance(s["twin"], Query) else None))
    return out, tree, other


def loosen(t):
    """another type of the same shape"""
    ps = t.parameters
    for k in ("dtypes", "dtype", "from_dtype", "to_dtype"):
        for x in (ps[k] if k == "dtypes" else [ps[k]]) if k in ps else []:
            if x.type_name == "BIGINT":
                x.type_name = "INTEGER"
            loosen(x)


def visit(o):
    c15.REC = c15.REC or c15.recorder()
    v = c15.REC()
    v.visit(o)
    return len(v.log)


def run(kind, m, text, seed, caps, first=False):
    """step -> functions started, up to the first step which goes beyond its cap or fails; and what stopped it"""
    out, s = {}, {}
    todo, tree, other = steps(kind, m, text, seed)
    if first:
        todo = todo[:1]
    for name, f in todo:
        if name in ("compare", "resolve", "supertype"):
            try:
                s["twin"] = other(tree(s))
                if name == "supertype":
                    loosen(s["twin"])
            except RecursionError:
                return out, None
        try:
            _, out[name] = METER.measure(lambda: f(s), caps.get(name))
        except Blowup:
            return out, (name, "blowup")
        except RecursionError:
            return out, None
        except Exception as e:
            return out, (name, exc_text(e))
    return out, None


def grow(ctx, case, kind, small, large, seed, parse=None):
    """small and large: meanings; parse: the pair of smaller meanings which are parsed, if not these"""
    global METER
    if METER is None:
        METER = Meter()
        sys.setrecursionlimit(40000)
    measured = 0
    for (a, b), use in ([((small, large), "build")] + [(p, "parse") for p in ([parse] if parse else [])]):
        texts = (None, None)
        if use == "parse":
            try:
                texts = tuple(P.text_of(x, kind) for x in (a, b))
            except Exception:
                continue
            if len(texts[1]) > 6000:
                ctx.count("too long to parse")
                continue
        ms = (None, None) if use == "parse" else (a, b)
        base, stop = run(kind, ms[0], texts[0], seed, {})
        if stop:
            ctx.count("not supported")
            continue
        # there are many ways to build a tree, and they don't do the same work
        if "build" in base:
            base["build"] = max([base["build"]] + [run(kind, ms[0], None, seed + i, {}, first=True)[0].get("build", 0) for i in range(1, 5)])
        caps = {k: max(FACTOR * n, PER_NODE * (4 if k == "build" else 1) * size(b)) for k, n in base.items()}
        got, stop = run(kind, ms[1], texts[1], seed, caps)
        for k, n in got.items():
            ctx.count("steps measured")
            ctx.count("function starts observed", n)
            ctx.saw("growth factors", round(n / max(1, base.get(k, 1))))
            ctx.saw("steps", use + ":" + k)
        measured += len(got)
        if stop and stop[1] == "blowup":
            ctx.violation(f"work:{stop[0]}:{case[1]}", case, {"step": stop[0], "functions started for the smaller": base[stop[0]], "allowed for the larger": caps[stop[0]],
                                                           "size of the smaller": size(a), "size of the larger": size(b),
                                                           "text of the smaller": (texts[0] or str(a))[:300]})
            return
    ctx.case(canon(small), nontrivial=measured >= 3, sample={"tower": case[1], "size": size(large), "steps": measured} if ctx.evals % 20 == 0 else None)


# --- towers ---

def holes(m, kinds, path=()):
    """paths of the nodes of these kinds"""
    if not isinstance(m, tuple):
        return
    if m and m[0] in kinds and path:
        yield path
        return
    if m and m[0] in ("typed", "interval", "type", "str", "normalize", "special"):
        return
    for i, x in enumerate(m):
        yield from holes(x, kinds, path + (i,))


def plug(m, path, child):
    if not path:
        return child
    i = path[0]
    return m[:i] + (plug(m[i], path[1:], child),) + m[i + 1:]


def nodes_on(m, path):
    """kinds of the nodes on the way to the hole, with the positions"""
    out = []
    for i in path:
        if m and isinstance(m[0], str):
            out.append(f"{m[0]}{':' + m[1] if m[0] in ('call', 'cmp', 'arith') else ''}[{i}]")
        m = m[i]
    return out


def tower(contexts, depth, leaf):
    """contexts: (meaning, path) cycled, innermost last"""
    m = leaf
    for k in range(depth):
        c, path = contexts[(depth - 1 - k) % len(contexts)]
        m = plug(c, path, m)
    return m


def op_contexts():
    return [("op", name, i) for name in P.OPS for i in range(G.HOLES[name])]


def mk_op(g, name, i):
    hs = [None] * 9
    for k in range(G.HOLES[name]):
        if name == "case" and k in (0, 3) and k != i or name == "like" and k == 2 and k != i:
            continue
        hs[k] = g.col()
    mark = ("col", None, "~hole~")
    hs[i] = mark
    return g.build(name, hs, 0), mark


def find(m, mark, path=()):
    if m == mark:
        return path
    if isinstance(m, tuple):
        for i, x in enumerate(m):
            p = find(x, mark, path + (i,))
            if p is not None:
                return p
    return None


def context(ctx, r, spec):
    """-> kind, meaning, path of the hole, or None"""
    g = G.Gen(r, odd=0)
    k = spec[0]
    if k == "op":
        m, mark = mk_op(g, *spec[1:])
        p = find(m, mark)
        return ("expr", m, p) if p else None
    if k == "fn":
        m = g.call(spec[1], [None] * 9, 0, mods=spec[1] in F.AGG and spec[2] > 0, over=spec[2] > 1 and r.random() < 0.7)
    elif k == "clause":
        m = ("subq", P.in_context(g, g.col()))
    elif k == "expr":
        m = g.expr(spec[1])
    elif k == "rel":
        m = W.relation_node(g, spec[1], ("table", ("t",)))
        hs = list(holes(m, ("table",)))
        if not hs and m[0] in ("subq", "lateral"):
            return None
        return ("rel", m, r.choice(hs)) if hs else None
    elif k == "query":
        mark = ("query", (), ("tableq", ("~hole~",)), (), None, None)
        m = W.nest(g, spec[1], mark)
        p = find(m, mark) or find(m, mark[2])
        return ("query", m, p if find(m, mark) else p[:-1]) if p else None
    elif k == "type":
        mark = ("type", "BIGINT")
        d = ("type", "DATE")
        m = {"ARRAY": ("type", "ARRAY", mark), "VALUES": ("type", "MAP", d, mark), "KEYS": ("type", "MAP", mark, d), "ROW": ("type", "ROW", mark),
             "ROW2": ("type", "ROW", d, mark), "ROW3": ("type", "ROW", mark, d, d)}[spec[1]]
        return "type", m, find(m, mark)
    hs = list(holes(m, ("col",)))
    return ("expr", m, r.choice(hs)) if hs else None


REL = [("rel", k) for k in W.REL_PARENTS] + [("rel", k) for k in ("subq", "lateral")]
TYPE = [("type", k) for k in ("ARRAY", "VALUES", "KEYS", "ROW", "ROW2", "ROW3")]
QUERY = [("query", k) for k in W.NEST]


def specs(ctx):
    """the towers of one tier: lists of one or two context specifications of the same kind"""
    ops = op_contexts()
    out = [[s] for s in ops]
    out += [[("fn", f, v)] for f in sorted(F.ARITY) for v in ((0, 1, 2) if f in F.AGG else (0,))]
    out += [[("clause",)]] * 30
    out += [[s] for s in REL + QUERY + TYPE]
    out += [[a, b] for a in TYPE for b in TYPE if a != b]
    r = ctx.rng("specs")
    out += [[a, b] for a in QUERY for b in r.sample(QUERY, ctx.n(3, 10))]
    out += [[a, b] for a in REL for b in r.sample(REL, ctx.n(1, 8))]
    out += [r.sample(ops, 2) for _ in range(ctx.n(60, 1500))]
    out += [[("expr", r.choice([1, 1, 2]))] for _ in range(ctx.n(60, 1500))]
    out += [[r.choice(ops), r.choice([("clause",), ("fn", r.choice(sorted(F.ARITY)), 2), ("expr", 1)])] for _ in range(ctx.n(60, 1500))]
    return out


LEAF = {"type": ("type", "BIGINT"), "expr": ("col", None, "x"), "rel": ("table", ("t",)), "query": ("query", (), ("tableq", ("t",)), (), None, None)}


def wrap(kind, m):
    """as something which is parsed as a whole"""
    return ("query", W.from_(m)) if kind == "rel" else (kind, m)


def do_tower(ctx, case):
    _, name, spec, seed = case
    r = ctx.rng("tower", seed)
    cs = [context(ctx, r, tuple(s)) for s in spec]
    if not all(cs) or len({c[0] for c in cs}) != 1:
        ctx.count("no hole")
        return
    kind = cs[0][0]
    towers = [wrap(kind, tower([c[1:] for c in cs], d, LEAF[kind])) for d in (8, 24, 5, 15)]
    for c in cs:
        for n in nodes_on(*c[1:]):
            ctx.saw("constructs nested", n)
    kind = towers[0][0]
    grow(ctx, case, kind, towers[0][1], towers[1][1], seed, parse=(towers[2][1], towers[3][1]))


def do_wide(ctx, case):
    _, name, seed = case
    out = []
    for n in (10, 30):
        g = G.Gen(ctx.rng("wide", name, seed), odd=0)
        out.append((W._wide_expr(name) if name in W.WIDE_EXPRS else W._wide_query(name))(g, n))
    ctx.saw("wide lists", name)
    grow(ctx, case, "expr" if name in W.WIDE_EXPRS else "query", *out, seed, parse=tuple(out))


def chain(form, n):
    """named queries each of which uses the one before twice"""
    def item(x):
        return ("item", x, None)

    def prev(i, alias=None):
        t = ("table", (f"q{i - 1}",))
        return ("alias", t, alias, None) if alias else t

    def sel(x, frm, where=None):
        return ("query", (), ("select", "ALL", (("item", x, "x"),), frm, where, None, None, ()), (), None, None)
    x = ("col", None, "x")
    qs = [("q0", None, sel(("int", 1), None))]
    for i in range(1, n):
        if form == "union":
            q = ("query", (), ("setop", "UNION", "ALL", sel(x, prev(i)), sel(x, prev(i))), (), None, None)
        elif form == "join":
            q = sel(("col", "a", "x"), ("join", "CROSS", False, None, prev(i, "a"), prev(i, "b")))
        elif form == "using":
            q = sel(x, ("join", "INNER", False, ("using", ("x",)), prev(i, "a"), prev(i, "b")))
        elif form == "scalar":
            q = sel(("arith", "+", ("subq", sel(x, prev(i))), ("subq", sel(x, prev(i)))), None)
        elif form == "where":
            q = sel(x, prev(i), ("inq", x, sel(x, prev(i))))
        else:
            q = sel(x, ("alias", ("subq", ("query", (), ("setop", "EXCEPT", "DISTINCT", ("query", (), ("tableq", (f"q{i - 1}",)), (), None, None),
                                                         ("query", (), ("tableq", (f"q{i - 1}",)), (), None, None)), (), None, None)), "a", ("x",)))
        qs.append((f"q{i}", None, q))
    return ("query", tuple(qs), ("tableq", (f"q{n - 1}",)), (), None, None)


CHAINS = ["union", "join", "using", "scalar", "where", "table"]


def do_chain(ctx, case):
    ctx.saw("chains of CTEs", case[1])
    a, b = chain(case[1], 8), chain(case[1], 24)
    grow(ctx, case, "query", a, b, 0, parse=(a, b))


LONG = ["1", " ", "a", "0:", "-1", "1-", ".", "9.", "'", "\\", "\\u", "--", "/*", "*/", "\n", "+", "{}", "%s", ",", "(", ")", "é", "a ", "1:1:1.", "\"", "_", "E", "0x"]


def do_long(ctx, case):
    """long contents of literals and names"""
    _, unit, n = case
    out = []
    for k in (n // 3, n):
        s = unit * k
        name = ("col", None, s)
        out.append(("row", ("str", s), name, ("call", "CONCAT", (("str", s), name), ()), ("like", name, ("str", s), ("str", "!"))) +
                   tuple(("typed", t, s) for t in ("TIMESTAMP", "TIME", "VARCHAR", "CHAR")))
    ctx.saw("long contents", unit)
    grow(ctx, case, "expr", *out, 0, parse=None)
    grow(ctx, case, "expr", *out, 0, parse=tuple(out))


SHAPES = {"ARRAY": lambda t: ("type", "ARRAY", t), "ROW": lambda t: ("type", "ROW", t), "MAP": lambda t: ("type", "MAP", ("type", "DATE"), t), "ROW2": lambda t: ("type", "ROW", ("type", "DATE"), t),
          "value": None}


def typed(shape, depth, leaf):
    """a value of a deeply nested type"""
    if shape == "value":
        m = ("cast", ("null",), ("type", leaf))
        for _ in range(depth):
            m = ("array", m)
        return m
    t = ("type", leaf)
    for _ in range(depth):
        t = SHAPES[shape](t)
    return ("cast", ("null",), t)


def do_typed(ctx, case):
    """operands of deeply nested types"""
    _, name, what, op, shape, i = case
    out = []
    for d in (8, 24, 5, 15):
        g = G.Gen(ctx.rng("typed", i), odd=0)
        hs = [typed(shape, d, "INTEGER" if k % 2 else "BIGINT") for k in range(9)]
        out.append(g.build(op, hs, 0) if what == "op" else g.call(op, hs, 0, mods=False, over=False))
    ctx.saw("operators of nested types", op)
    grow(ctx, case, "expr", out[0], out[1], i, parse=(out[2], out[3]))


def one(ctx, case):
    {"tower": do_tower, "wide": do_wide, "chain": do_chain, "long": do_long, "typed": do_typed}[case[0]](ctx, case)


def work(ctx):
    for i, c in enumerate(CHAINS):
        if ctx.mine(i):
            one(ctx, ("chain", c))
    wide = (W.WIDE_EXPRS + W.WIDE_QUERIES) * ctx.n(1, 10)
    for i in ctx.shards(len(wide)):
        one(ctx, ("wide", wide[i], i))
    for i in ctx.shards(len(LONG)):
        one(ctx, ("long", LONG[i], ctx.n(900, 9000)))
    todo = [("op", o, s) for o in P.OPS for s in SHAPES] + [("fn", f, s) for k, f in enumerate(sorted(F.ARITY)) for s in (list(SHAPES) if not ctx.quick else [sorted(SHAPES)[(k + ctx.seed) % len(SHAPES)], "value"])]
    for i in ctx.shards(len(todo)):
        one(ctx, ("typed", "typed:" + ":".join(todo[i][1:]), *todo[i], i))
    todo = specs(ctx)
    for i in ctx.shards(len(todo)):
        one(ctx, ("tower", "/".join(":".join(map(str, s)) for s in todo[i]), todo[i], i))
