"""Systematic query workloads shared by the checks: (label, meaning) cases by index, deterministic in the seed."""
import itertools

from . import gen as G

CLAUSES = ["with", "distinct", "from", "where", "group", "having", "window", "order", "offset", "limit"]
N_SUBSETS = 1 << len(CLAUSES)


def clause_subset(g, bits):
    has = {c for k, c in enumerate(CLAUSES) if bits >> k & 1}
    r = g.r
    ctes = ()
    if "with" in has:
        ctes = tuple((g.ident(), g.idents(1, 2) if g.ch(0.5) else None, g.query(1, ctes=False)) for _ in range(g.few(1, 3)))
    frm = g.relation(r.choice([0, 1, 2])) if "from" in has else None
    group = (r.choice(["ALL", "DISTINCT"]), tuple(g.group(1) for _ in range(g.few(1, 3)))) if "group" in has else None
    wins = tuple((n, g.window(1)) for n in g.idents(1, 3, distinct=True)) if "window" in has else ()
    items = g.select(1)[2]
    body = ("select", "DISTINCT" if "distinct" in has else "ALL", items, frm, g.expr(1) if "where" in has else None, group,
            g.expr(1) if "having" in has else None, wins)
    return ("query", ctes, body, g.order(1, 1) if "order" in has else (), r.choice([0, 1, 7]) if "offset" in has else None,
            r.choice([0, 1, 100]) if "limit" in has else None)


JOINS = [("CROSS", False, None)] + [(t, n, c) for t in ("INNER", "LEFT", "RIGHT", "FULL") for n, c in
                                    ((True, None), (False, "on"), (False, "using"))]
REL_LEAVES = ["table", "table3", "subq", "unnest", "unnestord", "lateral", "values"]
REL_PARENTS = ["alias", "aliascols", "sample"] + [("join",) + j + (side,) for j in JOINS for side in (0, 1)]
REL_NODES = REL_LEAVES + ["alias", "aliascols", "sample"] + [("join",) + j for j in JOINS]


def relation_node(g, kind, child=None, side=0):
    if kind == "table":
        return ("table", g.idents(1, 1))
    if kind == "table3":
        return ("table", g.parts(2, 3))
    if kind == "subq":
        return ("subq", g.query(1))
    if kind == "values":
        return ("subq", ("query", (), g.values(1), (), None, None))
    if kind in ("unnest", "unnestord"):
        return ("unnest", tuple(g.expr(1) for _ in range(g.few(1, 2))), kind == "unnestord")
    if kind == "lateral":
        return ("lateral", g.query(1))
    child = child or ("table", g.parts(1, 2))
    if kind == "alias":
        return ("alias", child, g.ident(), None)
    if kind == "aliascols":
        return ("alias", child, g.ident(), g.idents(1, 3))
    if kind == "sample":
        return ("sample", child, g.r.choice(["BERNOULLI", "SYSTEM"]), g.r.choice([("int", 10), ("dec", 5, 1), g.col()]))
    _, jt, natural, crit = kind[:4]
    if len(kind) > 4:
        side = kind[4]
    other = ("table", g.idents(1, 1)) if g.ch(0.7) else relation_node(g, g.r.choice(REL_LEAVES))
    c = None
    if crit == "on":
        c = ("on", g.expr(1))
    elif crit == "using":
        c = ("using", g.idents(1, 3))
    return ("join", jt, natural, c) + ((child, other) if side == 0 else (other, child))


RELATION_PAIRS = [(p, c) for p in REL_PARENTS for c in REL_NODES]


def relation_pair(g, p, c):
    return relation_node(g, p, relation_node(g, c, side=g.r.randrange(2)))


def relation_random(g, depth):
    """joins, samples and aliases nested at random"""
    if depth <= 0:
        return relation_node(g, g.r.choice(REL_LEAVES[:3]))
    return relation_node(g, g.r.choice(REL_PARENTS), relation_random(g, depth - 1))


def from_(rel, items=(("star", None),)):
    return ("query", (), ("select", "ALL", items, rel, None, None, None, ()), (), None, None)


SETOPS = [("UNION", "DISTINCT"), ("UNION", "ALL"), ("INTERSECT", "DISTINCT"), ("EXCEPT", "DISTINCT")]


def setop_shapes(n):
    """all binary trees with n operators"""
    if n == 0:
        return [None]
    out = []
    for k in range(n):
        for l in setop_shapes(k):
            for r in setop_shapes(n - 1 - k):
                out.append((l, r))
    return out


def _ops(shape):
    return 0 if shape is None else 1 + _ops(shape[0]) + _ops(shape[1])


SETOP_TREES = [(s, ops) for n in (1, 2, 3) for s in setop_shapes(n) for ops in itertools.product(SETOPS, repeat=n)]


def setop_tree(g, shape, ops, constrained=0.15):
    ops = list(ops)

    def leaf():
        k = g.r.randrange(4)
        if k == 0:
            body = ("values", ("row", g.col(), ("int", 1)))
        elif k == 1:
            body = ("tableq", g.parts(1, 2))
        else:
            body = ("select", "ALL", (("item", g.col(), None), ("item", ("int", g.r.randint(0, 9)), None)), ("table", ("t",)) if g.ch(0.5) else None,
                    None, None, None, ())
        return body

    def con(body):
        order, off, lim = (), None, None
        if g.ch(constrained):
            k = g.r.randrange(1, 8)
            order = g.order(0, 1) if k & 1 else ()
            off = g.r.choice([0, 2]) if k & 2 else None
            lim = g.r.choice([0, 3]) if k & 4 else None
        return ("query", (), body, order, off, lim)

    def mk(s):
        if s is None:
            return con(leaf())
        op, q = ops.pop()
        return con(("setop", op, q, mk(s[0]), mk(s[1])))
    q = mk(shape)
    if g.ch(0.15):
        q = ("query", ((g.ident(), None, g.query(0)),)) + q[2:]
    return q


BOUNDS = [("unbounded", "PRECEDING"), ("unbounded", "FOLLOWING"), ("current",), ("bounded", "PRECEDING"), ("bounded", "FOLLOWING")]
FRAMES = [(t, a, b) for t in ("RANGE", "ROWS", "GROUPS") for a in BOUNDS for b in BOUNDS]
WINDOW_CASES = [(f, parent, parts, order) for f in FRAMES + [None] for parent in (0, 1) for parts in (0, 1) for order in (0, 1)]


def window_case(g, f, parent, parts, order):
    if f is not None:
        f = (f[0],) + tuple(b + (g.expr(1),) if b[0] == "bounded" else b for b in f[1:])
    par = g.ident() if parent else None
    if f is None and not parent:
        f = G.DEFAULT_FRAME
    if parent and f == G.DEFAULT_FRAME:
        f = None
    w = ("win", par, tuple(g.expr(1) for _ in range(g.few(1, 2))) if parts else (), g.order(1, 1) if order else (), f)
    if g.ch(0.5) and w[2:] != ((), (), None):
        return ("query", (), ("select", "ALL", (("item", ("int", 1), None),), ("table", ("t",)), None, None, None, ((g.ident(), w),)), (), None, None)
    return ("query", (), ("select", "ALL", (("item", ("call", "SUM", (g.col(),), (False, (), None, "RESPECT", w)), None),), None, None, None, None,
                          ()), (), None, None)


LIMITS = [(o, l) for o in (None, 0, 1, 2 ** 31, 2 ** 63) for l in (None, 0, 1, 2 ** 31, 2 ** 63)]
BODIES = ["select", "values", "tableq", "setop"]


def limit_case(g, body, off, lim, order):
    b = {"select": lambda: g.select(1), "values": lambda: g.values(1), "tableq": lambda: ("tableq", g.parts(1, 3)),
         "setop": lambda: ("setop", "UNION", "ALL", g.query(0, 1, ctes=False), g.query(0, 1, ctes=False))}[body]()
    return ("query", (), b, g.order(1, 1) if order else (), off, lim)


LIMIT_CASES = [(b, o, l, s) for b in BODIES for o, l in LIMITS for s in (0, 1)]
NEST = ["cte", "from", "fromalias", "join", "inq", "scalar", "setleft", "setright", "lateral", "exists_in_having"]
NEST_PAIRS = [(p, c, b) for p in NEST for c in NEST for b in BODIES]


def nest(g, kind, q):
    noctes = ("query", ()) + q[2:]
    if kind == "cte":
        return ("query", ((g.ident(), g.idents(1, 2) if g.ch(0.3) else None, q),), g.select(0), (), None, g.r.choice([None, 0]))
    if kind == "from":
        return from_(("subq", q))
    if kind == "fromalias":
        return from_(("alias", ("subq", q), g.ident(), g.idents(1, 2) if g.ch(0.5) else None))
    if kind == "join":
        return from_(("join", "LEFT", False, ("on", g.expr(1)), ("table", ("t",)), ("subq", q)))
    if kind == "inq":
        return ("query", (), ("select", "ALL", (("item", g.col(), None),), ("table", ("t",)), ("inq", g.col(), q), None, None, ()), (), None, None)
    if kind == "scalar":
        return ("query", (), ("select", "ALL", (("item", ("cmp", "=", g.col(), ("subq", q)), g.ident()),), None, None, None, None, ()), (), None, None)
    if kind == "lateral":
        return from_(("join", "CROSS", False, None, ("table", ("t",)), ("lateral", q)))
    if kind == "exists_in_having":
        return ("query", (), ("select", "ALL", (("item", g.col(), None),), None, None, None, ("not", ("inq", g.col(), q)), ()), (), None, None)
    other = g.query(0, 1, ctes=False)
    l, r = (noctes, other) if kind == "setleft" else (other, noctes)
    op, quant = g.r.choice(SETOPS)
    return ("query", (), ("setop", op, quant, l, r), (), None, None)


def nest_case(g, p, c, body):
    q = ("query", (), {"select": lambda: g.select(1, 1), "values": lambda: g.values(1, 1), "tableq": lambda: ("tableq", g.parts(1, 3)),
                       "setop": lambda: ("setop", "EXCEPT", "DISTINCT", g.query(0, 1, ctes=False), g.query(0, 1, ctes=False))}[body](),
         g.order(0, 0, 1), g.r.choice([None, 0, 1]), g.r.choice([None, 0, 1]))
    return nest(g, p, nest(g, c, q))


DEFAULT_FRAME = ("RANGE", ("unbounded", "PRECEDING"), ("current",))


def _select(items=(("star", None),), where=None, group=None, having=None, windows=(), source=None, order=(), ctes=()):
    return ("query", ctes, ("select", "ALL", tuple(items), source, where, group, having, windows), order, None, None)


def _wide_expr(name):
    """an expression one of whose lists is long"""
    def f(g, n):
        r = g.r
        e = [g.expr(r.choice([0, 0, 0, 1])) for _ in range(n)]
        c = g.col()
        if name == "in":
            return ("in", c, tuple(e))
        if name == "array":
            return ("array",) + tuple(g.col() for _ in e)
        if name == "row":
            return ("row",) + tuple(e)
        if name == "case":
            return ("case", r.choice([None, c]), tuple(zip(e[::2], e[1::2])), r.choice([None, c]))
        if name in ("and", "or"):
            return (name,) + tuple(("cmp", r.choice(["=", "<", "<>"]), g.col(), x) for x in e)
        if name == "arith":
            out = c
            for x in e:
                out = ("arith", r.choice(["+", "-", "*", "/", "%"]), out, g.col() if r.random() < 0.7 else ("int", r.randint(0, 99)))
            return out
        if name == "concat":
            out = c
            for _ in e:
                out = ("call", "CONCAT", (out, g.col()), ())
            return out
        if name == "subscript":
            out = c
            for _ in e[:30]:
                out = ("sub", out, g.col())
            return out
        return g.call(name, [None] * 9, 1, nargs=n)
    return f


def _wide_query(name):
    """a query one of whose lists is long"""
    def f(g, n):
        r = g.r
        e = [g.expr(r.choice([0, 0, 0, 1])) for _ in range(n)]
        if name == "items":
            return _select(("item", x, r.choice([None, g.ident()])) for x in e)
        if name == "where":
            return _select(where=_wide_expr(r.choice(["and", "or", "in"]))(g, n))
        if name == "groups":
            return _select((("item", g.col(), None),), group=("ALL", tuple(("gset", (x,)) for x in e)))
        if name == "rollup":
            return _select((("item", g.col(), None),), group=("ALL", ((r.choice(["rollup", "cube"]), tuple(e)),)))
        if name == "gsets":
            return _select((("item", g.col(), None),), group=("ALL", (("gsets", tuple(("gset", (x, g.col())) for x in e)),)))
        if name == "windows":
            return _select(windows=tuple((f"w{i}", ("win", None, (x,), (), DEFAULT_FRAME)) for i, x in enumerate(e)), source=("table", ("t",)))
        if name == "partition":
            return _select((("item", ("call", "SUM", (g.col(),), (False, (), None, "RESPECT", ("win", None, tuple(e), (), DEFAULT_FRAME))), None),))
        if name == "order":
            return _select(order=tuple((x, r.choice(["ASC", "DESC"]), r.choice(["FIRST", "LAST"])) for x in e))
        if name == "rows":
            return ("query", (), ("values",) + tuple(("int", r.randint(0, 9)) for _ in e), (), None, None)
        if name == "columns":
            return ("query", (), ("values",) + tuple(("row",) + tuple(("int", r.randint(0, 9)) for _ in e) for _ in range(2)), (), None, None)
        if name == "aliases":
            return from_(("alias", ("table", g.parts(1, 3)), g.ident(), tuple(f"c{i}" for i in range(n))))
        if name == "using":
            return from_(("join", "INNER", False, ("using", tuple(f"c{i}" for i in range(n))), ("table", ("a",)), ("table", ("b",))))
        if name == "joins":
            rel = ("table", ("t0",))
            for i in range(n):
                rel = ("join", r.choice(["INNER", "LEFT", "CROSS"]), False, None, rel, ("table", (f"t{i + 1}",)))
                rel = rel[:3] + ((("on", g.col()) if rel[1] != "CROSS" else None),) + rel[4:]
            return from_(rel)
        if name == "unnest":
            return from_(("unnest", tuple(g.col() for _ in e), r.random() < 0.5))
        if name == "ctes":
            return _select(ctes=tuple((f"q{i}", None, ("query", (), ("tableq", (f"t{i}",)), (), None, None)) for i in range(n)), source=("table", ("q1",)))
        op = r.choice(["UNION", "INTERSECT", "EXCEPT"])
        q = ("query", (), ("tableq", ("t0",)), (), None, None)
        for i in range(n):
            q = ("query", (), ("setop", op, "DISTINCT", q, ("query", (), ("tableq", (f"t{i + 1}",)), (), None, None)), (), None, None)
        return q
    return f


WIDE_EXPRS = ["in", "array", "row", "case", "and", "or", "arith", "concat", "subscript", "CONCAT", "COALESCE"]
WIDE_QUERIES = ["items", "where", "groups", "rollup", "gsets", "windows", "partition", "order", "rows", "columns", "aliases", "using", "joins", "unnest", "ctes", "setop"]


SIZES = [7, 9, 12, 17, 24, 33, 40]


def wide_expr(g, i):
    return _wide_expr(WIDE_EXPRS[i % len(WIDE_EXPRS)])(g, g.r.choice(SIZES))


def wide_case(g, i):
    n = g.r.choice(SIZES)
    if i < len(WIDE_EXPRS):
        return _select((("item", wide_expr(g, i), None),))
    return _wide_query(WIDE_QUERIES[i - len(WIDE_EXPRS)])(g, n)


FAMILIES = [("clauses", N_SUBSETS, lambda g, i: clause_subset(g, i)),
            ("relations", len(RELATION_PAIRS), lambda g, i: from_(relation_pair(g, *RELATION_PAIRS[i]))),
            ("setops", len(SETOP_TREES), lambda g, i: setop_tree(g, *SETOP_TREES[i])),
            ("windows", len(WINDOW_CASES), lambda g, i: window_case(g, *WINDOW_CASES[i])),
            ("limits", len(LIMIT_CASES), lambda g, i: limit_case(g, *LIMIT_CASES[i])),
            ("nesting", len(NEST_PAIRS), lambda g, i: nest_case(g, *NEST_PAIRS[i])),
            ("wide", len(WIDE_EXPRS) + len(WIDE_QUERIES), lambda g, i: wide_case(g, i))]
TOTAL = sum(n for _, n, _ in FAMILIES)


def family_case(ctx, k, salt="", odd=0.1):
    """k-th systematic case (rounds beyond TOTAL repeat with other contents) -> family, rng, meaning"""
    rnd, i = divmod(k, TOTAL)
    for name, n, fn in FAMILIES:
        if i < n:
            r = ctx.rng("family", salt, name, i, rnd)
            return name, r, fn(G.Gen(r, odd=odd), i)
        i -= n
    raise IndexError


def spread(ctx, total, quick, thorough, salt):
    """indices of a workload: a random subset when the tier can't afford all of it, several rounds when it can"""
    want = ctx.n(quick, thorough)
    if want >= total:
        yield from ctx.shards(want)
        return
    order = list(range(total))
    ctx.rng("spread", salt).shuffle(order)
    for k in ctx.shards(want):
        yield order[k]
