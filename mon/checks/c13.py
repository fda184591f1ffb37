"""Printing, resolving and traversing have no side effects."""
import copy
import enum
import hashlib
import operator
import os
import pickle
import random

from .. import funcs as F, gen as G, objbuild, probe as P, scope as S, scopegen, treewalk as T, typer as Y, workload as W
from ..core import exc_key, exc_text
from .. import core
from . import c12, c15

ID = "C13"
RULE = ("histories of library operations over a pool of live trees, schemas, options and types (printing in every mode, repr, comparing, visiting, resolving, imputing "
        "fields, composing with Python operators and constructors, live trees put in the place of columns and tables of new trees of every kind, merging schemas, coercing types, copying, parsing other valid and broken texts, building): after every "
        "operation every live object must have the content it had (snapshot of all attributes; only resolve may impute data types), and a repeated operation must give the "
        "result it gave. A tree which was used before one of its attributes is edited must behave like one which wasn't. Second monitor: the digest of everything the library computes for an input (tree, texts, schema, types, comparisons) in a process of its own must "
        "equal its digests at random points of a long history over many inputs. Non-trivial: distinct histories (sequences of operations) and distinct inputs")
NEED = {"operations": 2500, "live objects compared": 15000, "kinds of operation": 24, "edited trees compared": 60, "grafts": 60, "digests compared": 400, "repeated results compared": 250}
ASSUMPTIONS = ["resolving a tree imputes data types in it; that isn't a change of the SQL it denotes", "all trees which share nodes are resolved with one and the same schema",
               "the digests in fresh processes are taken in forks of a process which has parsed two fixed texts"]
FN_NAMES = F.ARITY
OPS = [operator.add, operator.sub, operator.mul, operator.truediv, operator.mod, operator.pow, operator.eq, operator.ne, operator.lt, operator.le, operator.gt, operator.ge,
       operator.and_, operator.or_]
BROKEN = ["SELECT", "SELECT a FROM", "SELECT 1 FROM t WHERE", "1 +", "SELECT ((1)", "SELECT 'a", "SELECT a FROM t LIMIT x", "x ->", "CAST(1 AS NOPE)", "SELECT `a`", "(", "",
          "SELECT CURRENT_TIMESTAMP(13)", "INTERVAL '1' MONTH TO SECOND", "SELECT 1 INTERSECT ALL SELECT 2", "SUM(", "NOSUCH(1)", "SELECT a FROM t MATCH_RECOGNIZE (PATTERN (A))"]


# ---- digests of single inputs

def digest(task):
    """everything the library computes for an input, as a list of (step, result)"""
    out = []

    def step(name, f):
        try:
            v = f()
        except RecursionError:
            raise
        except Exception as e:
            v = ("raised", type(e).__name__, str(e)[:200] if name != "parse" else "")
        out.append((name, v if isinstance(v, str) else repr(v)))
        return v
    kind, how, m, cat, seed = task
    o = None
    if how == "text":
        def parse():
            nonlocal o
            o = P.parse(kind, m)
            return T.snapshot(o)
        step("parse", parse)
    else:
        def build():
            nonlocal o
            o = getattr(objbuild.Builder(random.Random(seed)), kind)(m)
            return T.snapshot(o)
        step("build", build)
    if o is None:
        return out
    step("str", lambda: P.show(o))
    for spaces in (4, 2, 0):
        step(f"pretty{spaces}", lambda: P.show(o, True, spaces))
    step("repr", lambda: hashlib.sha1(repr(o).encode("utf8", "surrogatepass")).hexdigest())
    if how == "text":
        def again():
            p = P.parse(kind, m)
            return p.equals(o), o.equals(p), p.equals(copy.deepcopy(o))
        step("parse again", again)
    if kind == "query":
        schema = c12.schema_of(cat, objbuild.Builder(random.Random(seed)))
        step("resolve", lambda: c12.describe(o.resolve(schema).fields))
        step("resolved", lambda: T.snapshot(o))
        step("resolve again", lambda: c12.describe(o.resolve(schema).fields))
        step("data type", lambda: str(o.data_type))
    if kind == "expr":
        from treeno.datatypes.resolve import resolve_fields
        schema = c12.schema_of(cat, objbuild.Builder(random.Random(seed)))
        step("impute", lambda: T.snapshot(resolve_fields(o, schema)))
    step("str after", lambda: P.show(o))
    return out


def task_of(r, seed):
    x = r.random()
    g = G.Gen(r, odd=0.1)
    cat = ()
    if x < 0.4:
        sg = scopegen.SG(G.Gen(r, odd=0.03))
        kind, m, cat = "query", sg.full(S.Env(sg.cat), r.choice([1, 2])), sg.cat
    elif x < 0.55:
        kind, m = "query", g.query(r.choice([1, 2]))
    elif x < 0.75:
        tg = Y.TG(g)
        kind, m = "expr", tg.expr(tg.kind(2), 2)
    elif x < 0.9:
        kind, m = "expr", g.expr(3)
    elif x < 0.95:
        kind, m = "type", g.type(2)
    else:
        return (r.choice(["expr", "query", "type"]), "text", r.choice(BROKEN), (), seed)
    if r.random() < 0.6:
        return (kind, "text", P.text_of(m, kind, r, True), cat, seed)
    return (kind, "api", m, cat, seed)


def relative(r, m):
    """a meaning which only differs in letter case, or in the kind or value of literals: what a careless cache would mix up"""
    if not isinstance(m, tuple):
        return m
    if len(m) > 1 and m[0] == "int" and isinstance(m[1], int) and r.random() < 0.5:
        return r.choice([("dec", m[1] * 10, 1), ("dbl", repr(float(m[1] % 1000))), ("bool", bool(m[1] % 2)), ("int", m[1] + 1), ("str", str(m[1]))])
    if len(m) == 2 and m[0] == "str" and r.random() < 0.5:
        return ("str", m[1].swapcase())
    if len(m) == 2 and m[0] == "bool":
        return ("int", int(m[1]))
    if len(m) == 3 and m[0] == "col" and r.random() < 0.3:
        return ("col", m[1], m[2].swapcase())
    if len(m) > 1 and m[0] in ("type", "call", "typed", "interval", "special", "cmp", "arith"):
        return m[:2] + tuple(relative(r, x) for x in m[2:])
    return tuple(relative(r, x) for x in m)


def family_of(r, seed, n):
    """n related inputs"""
    out = [task_of(r, seed)]
    kind, how, m, cat, _ = out[0]
    if isinstance(m, str):
        for i in range(1, n):
            t = m if i % 2 else "".join(c.swapcase() if r.random() < 0.1 and kind != "type" else c for c in m)
            out.append((kind, "text", t, other_catalog(r, cat), seed + i))
        return out
    for i in range(1, n):
        out.append((kind, "api", m if i % 3 == 0 or kind == "type" else relative(r, m), other_catalog(r, cat), seed + i))
    return out


def other_catalog(r, cat):
    """the same tables with other types"""
    if r.random() < 0.3:
        return cat
    tg = Y.TG(G.Gen(r))
    return tuple((parts, cols and tuple((c, tg.type(tg.kind(1))) for c, _ in cols)) for parts, cols in cat if r.random() < 0.9)


def in_child(f):
    """result of f() in a forked process"""
    rd, wr = os.pipe()
    pid = os.fork()
    if pid == 0:
        code = 1
        try:
            os.close(rd)
            core.arm()
            data = pickle.dumps(f())
            with os.fdopen(wr, "wb") as w:
                w.write(data)
            code = 0
        except core.Hang:
            code = 7
        except BaseException:
            import traceback
            traceback.print_exc()
        finally:
            os._exit(code)
    os.close(wr)
    with os.fdopen(rd, "rb") as fh:
        data = fh.read()
    status = os.waitpid(pid, 0)[1]
    if os.waitstatus_to_exitcode(status) == 7:
        raise core.Hang
    if not data:
        raise RuntimeError("a child process of the monitor ended without a result")
    return pickle.loads(data)


def confusables(r, seed):
    """inputs which are equal, hash alike, print alike or start alike in Python or in SQL, though they are different"""
    n = r.choice([0, 1, 2, 10])
    values = [("int", n), ("dbl", repr(float(n))), ("dec", n, 0), ("dec", n * 10, 1), ("dec", n * 100, 2), ("bool", bool(n)), ("str", str(n)), ("str", f"{n}.0")]
    w = r.choice(["a", "Ab", "x y"])
    names = [("col", None, w), ("col", None, w.swapcase()), ("col", w, w), ("deref", ("call", "LOWER", (("col", None, w),), ()), w), ("str", w), ("str", w.swapcase()),
             ("lambda", (w,), ("var", w)), ("lambda", (w,), ("col", None, w.swapcase()))]
    types = [("type", "VARCHAR", None), ("type", "VARCHAR", n), ("type", "CHAR", n or 1), ("type", "DECIMAL", 10, n), ("type", "DECIMAL", 10 + n, 0), ("type", "TIME", n, False),
             ("type", "TIME", n, True), ("type", "TIMESTAMP", n, True), ("type", "TIME", None, False)]
    out = []
    for m in values:
        out += [("expr", "api", m), ("expr", "api", ("arith", r.choice("+-*/"), m, r.choice(values[:5]))), ("expr", "api", ("array", m)),
                ("query", "api", ("query", (), ("values", m), (), None, None))]
    out += [("expr", "api", m) for m in names] + [("expr", "api", ("cast", r.choice(names[:3]), t)) for t in types] + [("type", "api", t) for t in types]
    out = [t if r.random() < 0.6 else (t[0], "text", P.text_of(t[2], t[0], r, True)) for t in out]
    tg = Y.TG(G.Gen(r))
    cat = (((w,), ((w, tg.type(tg.kind(1))), ("k", None))),)
    q = ("query", (), ("select", "ALL", (("item", ("col", None, w), None), ("star", None)), ("table", (w,)), None, None, None, ()), (), None, None)
    out = [(a, b, c, (), seed) for a, b, c in out] + [("query", "api", q, x, seed) for x in (cat, (((w,), ((w, tg.type(tg.kind(1))),)),), ())]
    r.shuffle(out)
    return out


def digests(ctx, case):
    _, seed, ntasks, rounds = case
    r = ctx.rng("digests", seed)
    tasks = []
    if seed % 3 == 1:
        tasks = confusables(r, seed)
        ntasks = ntasks * 2
    while len(tasks) < ntasks:
        tasks += family_of(ctx.rng("task", seed, len(tasks)), seed * 1000 + len(tasks), 3)
    tasks = tasks[:ntasks]
    fresh = [in_child(lambda t=t: digest(t)) for t in tasks]
    order = [i for _ in range(rounds) for i in range(ntasks)]
    r.shuffle(order)

    def history():
        return [digest(tasks[i]) for i in order]
    got = in_child(history)
    for t in tasks:
        ctx.case((t[0], t[2], t[3]), sample=f"digest of {t[2]}"[:300] if t[4] % 37 == 1 else None)
    for n, (i, d) in enumerate(zip(order, got)):
        ctx.count("digests compared")
        ctx.count("steps compared", len(d))
        if d != fresh[i]:
            a, b = next((p, q) for p, q in zip(fresh[i] + [None], d + [None]) if p != q)
            ctx.violation(f"depends on the history:{(a or b)[0]}", case,
                          {"input": repr(tasks[i][2])[:500], "operations before": n, "step": (a or b)[0], "alone": str(a)[:800], "in the history": str(b)[:800]})
            return


# ---- histories over live objects

class Grafter(objbuild.Builder):
    """builds trees with live ones in the place of columns and tables"""
    exprs, rels = (), ()

    def expr(self, m):
        if m[0] == "col" and self.exprs and self.r.random() < 0.5:
            return self.r.choice(self.exprs)
        return super().expr(m)

    def rel(self, m):
        if m[0] == "table" and self.rels and self.r.random() < 0.5:
            return self.r.choice(self.rels)
        return super().rel(m)


class Item:
    """a live tree, its schema, what is known about it"""

    def __init__(self, o, kind, schema, family):
        self.o, self.kind, self.schema, self.family = o, kind, schema, family
        self.results = {}
        self.full = T.snapshot(o)
        self.bare = T.snapshot(o, types=False)


def other_value(r, v):
    """another value for an attribute of a node, or None"""
    from treeno import expression as E
    from treeno.base import Sql
    if isinstance(v, E.Value):
        return E.Field("edited") if r.random() < 0.5 else E.wrap_literal(r.choice([7, "edited", True]))
    if isinstance(v, str):
        return v + "x"
    if isinstance(v, bool):
        return not v
    if isinstance(v, int):
        return v + 1
    if isinstance(v, list) and v and not isinstance(v[0], Sql):
        return v[::-1] if len(v) > 1 else None
    if isinstance(v, list) and v:
        return [v[-1]] + v[1:] if len(v) > 1 else v + v
    if isinstance(v, enum.Enum):
        return r.choice([m for m in type(v) if m is not v] or [None])
    return None


class Changed(Exception):
    pass


class History:
    def __init__(self, ctx, case):
        self.ctx, self.case = ctx, case
        self.seed, self.nops = case[1], case[2]
        self.r = ctx.rng("history", self.seed)
        self.items, self.log, self.n = [], [], 0
        self.families = []
        for i in range(2):
            sg = scopegen.SG(G.Gen(self.r, odd=0.05))
            schema = c12.schema_of(sg.cat, objbuild.Builder(self.r))
            self.families.append((sg, schema, T.snapshot(schema)))
        from treeno.base import PrintMode, PrintOptions
        self.options = [PrintOptions(), PrintOptions(mode=PrintMode.PRETTY), PrintOptions(mode=PrintMode.PRETTY, spaces=2), PrintOptions(PrintMode.DEFAULT, 0)]
        self.option_reprs = [repr(o) for o in self.options]
        self.types = [objbuild.Builder(self.r).type(G.Gen(self.r).type(2)) for _ in range(4)]
        self.type_snaps = [T.snapshot(t) for t in self.types]
        self.coerced = {}
        for _ in range(5):
            self.new()

    def fail(self, mech, detail):
        self.ctx.violation(mech, self.case, {"operations": self.log[-6:], "number": len(self.log), **detail})
        raise Changed

    def add(self, o, kind, family):
        if len(self.items) >= 12:
            self.items.pop(self.r.randrange(len(self.items)))
        self.items.append(Item(o, kind, self.families[family][1], family))

    def new(self):
        r = self.r
        self.n += 1
        fam = r.randrange(2)
        sg = self.families[fam][0]
        sg.size = 0
        x = r.random()
        if x < 0.45:
            kind, m = "query", sg.full(S.Env(sg.cat), r.choice([1, 2]))
        elif x < 0.6:
            kind, m = "rel", sg.relation(S.Env(sg.cat), 2)
        elif x < 0.7:
            kind, m = "query", G.Gen(r, odd=0.05).query(1)
        else:
            kind, m = "expr", G.Gen(r, odd=0.05).expr(2)
        try:
            if r.random() < 0.5:
                o = objbuild.Builder(r).rel(m) if kind == "rel" else getattr(objbuild.Builder(r), kind)(m)
            elif kind == "rel":
                o = P.parse("query", P.text_of(W.from_(m), "query", r, True)).from_
            else:
                o = P.parse(kind, P.text_of(m, kind, r, True))
        except Exception:
            self.ctx.count("trees not made (another property)")
            return "new"
        self.add(o, kind, fam)
        return "new"

    def result(self, item, key, value):
        """a repeated operation gives the same result"""
        if key in item.results:
            self.ctx.count("repeated results compared")
            if item.results[key] != value:
                self.fail(f"another result the second time:{key[0]}", {"operation": repr(key), "first": str(item.results[key])[:800], "now": str(value)[:800]})
        item.results[key] = value

    def attempt(self, f):
        try:
            return f()
        except RecursionError:
            raise
        except Exception as e:
            return ("raised", type(e).__name__, str(e)[:200])

    # operations: each returns its name
    def op_print(self, it):
        i = self.r.randrange(len(self.options))
        self.result(it, ("print", i), self.attempt(lambda: it.o.sql(self.options[i])))
        return f"print {i}"

    def op_str(self, it):
        self.result(it, ("print", 0), self.attempt(lambda: str(it.o)))
        return "str"

    def op_repr(self, it):
        repr(it.o)
        return "repr"

    def op_equals(self, it):
        other = self.r.choice(self.items)
        a, b = self.attempt(lambda: it.o.equals(other.o)), self.attempt(lambda: other.o.equals(it.o))
        if a is not b or a is not (it.full == other.full if it is other else a):
            self.fail("equals", {"answers": [repr(a), repr(b)], "trees": [repr(it.o)[:300], repr(other.o)[:300]]})
        self.attempt(lambda: it.o.assert_equals(other.o))
        self.attempt(lambda: it.o.equals(self.r.choice([None, 1, "x", self.types[0]])))
        return "equals"

    def op_visit(self, it):
        c15.REC = c15.REC or c15.recorder()
        v = c15.REC()
        e = self.attempt(lambda: v.visit(it.o))
        self.result(it, ("visit",), (e, [n for n, _ in v.log]))
        return "visit"

    def op_plain_visit(self, it):
        from treeno.visitor import TreenoVisitor
        self.attempt(lambda: TreenoVisitor().visit(it.o))
        self.attempt(lambda: it.o.visit(TreenoVisitor()))
        return "standard visitor"

    def op_resolve(self, it):
        if it.kind == "expr":
            return self.op_impute(it)
        mine = {id(n) for n in T.walk(it.o)}
        shared = [x for x in self.items if x is it or any(id(n) in mine for n in T.walk(x.o))]
        out = self.attempt(lambda: it.o.resolve(it.schema))
        what = out if isinstance(out, tuple) else (c12.describe(out.fields), sorted(out.relation_ids))
        if isinstance(out, tuple):
            self.ctx.count("resolve raised")
        self.result(it, ("resolve",), what)
        for x in shared:
            bare = T.snapshot(x.o, types=False)
            if bare != x.bare:
                self.fail("resolve changed a tree", {"resolved": repr(it.o)[:500], "changed": repr(x.o)[:500]})
            x.full = T.snapshot(x.o)
        return "resolve"

    def op_impute(self, it):
        from treeno.datatypes.resolve import resolve_fields
        if it.kind != "expr":
            return self.op_resolve(it)
        self.result(it, ("impute",), self.attempt(lambda: T.snapshot(resolve_fields(it.o, it.schema))))
        return "resolve_fields"

    def op_copy(self, it):
        c = copy.deepcopy(it.o)
        if T.snapshot(c) != it.full:
            self.fail("copy differs", {"tree": repr(it.o)[:500], "copy": repr(c)[:500]})
        if self.r.random() < 0.5:
            self.add(c, it.kind, it.family)
        return "deepcopy"

    def op_compose(self, it):
        """Python operators over live trees"""
        from treeno.expression import Value
        es = [x for x in self.items if isinstance(x.o, Value) and x.kind == "expr" and x.family == it.family]
        if not es:
            return self.new()
        a, b = self.r.choice(es), self.r.choice(es)
        f = self.r.choice(OPS)
        rhs = b.o if self.r.random() < 0.7 else self.r.choice([1, -2, 0, "it's", 2.5, True, None])
        if self.r.random() < 0.2:
            f = self.r.choice([operator.neg, operator.pos, operator.invert])
            o = self.attempt(lambda: f(a.o))
        else:
            o = self.attempt(lambda: f(a.o, rhs))
        if isinstance(o, Value):
            self.add(o, "expr", it.family)
        return f"operator {f.__name__}"

    def op_wrap(self, it):
        """live trees as parts of new ones"""
        from treeno import expression as E, relation as R
        r = self.r
        same = [x for x in self.items if x.family == it.family]
        es, rs, qs = [[x.o for x in same if x.kind == k] for k in ("expr", "rel", "query")]
        E_ = lambda: r.choice(es) if es else E.Field("a")
        Q_ = lambda: r.choice(qs)
        makers = [("select", "query", lambda: R.SelectQuery(select=[E_(), E_()], from_=r.choice(rs) if rs else None, where=E_() if r.random() < 0.5 else None)),
                  ("aliased value", "expr2", lambda: R.SelectQuery(select=[E.AliasedValue(E_(), "z")])),
                  ("in list", "expr", lambda: E.InList(E_(), [E_(), E_()])),
                  ("array", "expr", lambda: E.Array([E_()])),
                  ("row", "expr", lambda: E.RowConstructor([E_(), E_()])),
                  ("between", "expr", lambda: E.Between(E_(), E_(), E_())),
                  ("case", "expr", lambda: E.Case([E.When(E_(), E_()), E.When(E_(), E_())], E.Else(E_())))]
        if qs:
            makers += [("alias", "rel", lambda: R.AliasedRelation(Q_(), "q1")), ("lateral", "rel", lambda: R.Lateral(Q_())),
                       ("with", "query", lambda: R.SelectQuery(select=[E.Star()], from_=R.Table("q2"), with_=[R.AliasedRelation(Q_(), "q2")])),
                       ("union", "query", lambda: R.UnionQuery(Q_(), Q_())), ("intersect", "query", lambda: R.IntersectQuery(Q_(), Q_())),
                       ("from query", "query", lambda: R.SelectQuery(select=[E.Star()], from_=Q_())), ("exists", "expr", lambda: E.InList(E_(), [Q_()]))]
        if len(rs) > 1:
            makers += [("join", "rel", lambda: R.Join(r.choice(rs), r.choice(rs), R.JoinConfig(join_type=R.JoinType.CROSS)))]
        name, kind, f = r.choice(makers)
        o = self.attempt(f)
        if isinstance(o, tuple):
            self.ctx.count("wrappers refused")
        else:
            self.ctx.saw("wrappers", name)
            self.add(o, "query" if kind == "expr2" else kind, it.family)
        return "wrap " + name

    def op_graft(self, it):
        """live trees as parts of new ones of every kind"""
        r = self.r
        b = Grafter(r)
        same = [x for x in self.items if x.family == it.family]
        b.exprs, b.rels = [x.o for x in same if x.kind == "expr"], [x.o for x in same if x.kind == "rel"]
        g = G.Gen(r, odd=0.0)
        kind, m = r.choice([lambda: ("expr", g.expr(2)), lambda: ("rel", W.relation_random(g, 2)), lambda: ("query", g.query(1)),
                            lambda: ("expr", g.call(r.choice(sorted(FN_NAMES)), [None] * 9, 1, mods=True))])()
        o = self.attempt(lambda: getattr(b, kind)(m))
        if isinstance(o, tuple):
            self.ctx.count("grafts refused")
        else:
            self.ctx.count("grafts")
            self.add(o, kind, it.family)
        return "graft"

    def op_lambda(self, it):
        """a function over a live expression and over some of its columns"""
        from treeno import expression as E
        es = [x for x in self.items if x.kind == "expr" and x.family == it.family]
        if not es:
            return self.new()
        e = self.r.choice(es)
        names = sorted({n.name for n in T.walk(e.o) if type(n) is E.Field and n.table is None and isinstance(n.name, str)})
        chosen = self.r.sample(names, min(len(names), self.r.choice([1, 1, 2]))) or ["x"]
        o = self.attempt(lambda: E.Lambda.from_generic_expr([E.Lambda.Variable(n) for n in chosen], e.o))
        if not isinstance(o, tuple):
            self.ctx.count("lambdas over live trees")
            self.add(o, "expr", it.family)
        return "lambda"

    def op_edit(self, it):
        """Nodes are plain objects: what is printed, compared or resolved is what they contain now. The same tree built twice, one of them used before both are changed
        in the same way."""
        r = self.r
        sg = self.families[it.family][0]
        sg.size = 0
        kind, m = ("query", sg.full(S.Env(sg.cat), 1)) if r.random() < 0.5 else ("expr", G.Gen(r, odd=0.0).expr(2))
        seed = r.random()
        pair = [self.attempt(lambda: getattr(objbuild.Builder(random.Random(seed)), kind)(m)) for _ in range(2)]
        if isinstance(pair[0], tuple):
            return "edit"
        used = pair[0]

        def use(o):
            out = [self.attempt(lambda: o.sql(p)) for p in self.options[:2]] + [self.attempt(lambda: o.equals(copy.deepcopy(o)))]
            if kind == "query":
                x = self.attempt(lambda: o.resolve(it.schema))
                out.append(x if isinstance(x, tuple) else c12.describe(x.fields))
            return out
        # (resolving would impute types, which stay when their node is edited)
        from treeno.visitor import TreenoVisitor
        for f in r.sample([lambda: str(used), lambda: used.sql(self.options[1]), lambda: used.equals(pair[1]), lambda: pair[1].equals(used), lambda: repr(used),
                           lambda: TreenoVisitor().visit(used), lambda: str(used.data_type)], r.randint(1, 4)):
            self.attempt(f)
        nodes = [list(T.walk(o)) for o in pair]
        slots = [(i, name, v) for i, n in enumerate(nodes[0]) for name, v in T.fields(n) if name != "data_type"]
        if not slots:
            return "edit"
        i, name, v = r.choice(slots)
        new = other_value(r, v)
        if new is None or i >= len(nodes[1]) or nodes[0][i] is nodes[1][i] or type(nodes[0][i]) is not type(nodes[1][i]):
            return "edit"
        for n in nodes:
            setattr(n[i], name, copy.deepcopy(new))
        self.ctx.count("edited trees compared")
        self.ctx.saw("edited slots", f"{type(nodes[0][i]).__name__}.{name}")
        if self.attempt(lambda: pair[0].equals(pair[1])) is not True:
            self.fail(f"stale after an edit:equals:{type(nodes[0][i]).__name__}.{name}", {"tree": repr(used)[:600]})
        a, b = [use(o) for o in pair]
        if a != b:
            self.fail(f"stale after an edit:{type(nodes[0][i]).__name__}.{name}", {"used before": str(a)[:800], "fresh": str(b)[:800], "slot": name, "value": repr(new)[:200]})
        return "edit"

    def op_merge(self, it):
        a, b = self.families[0][1], self.families[1][1]
        self.attempt(lambda: self.r.choice([a, b]).merge(self.r.choice([a, b])))
        return "merge schemas"

    def op_coerce(self, it):
        from treeno.datatypes.conversions import common_supertype
        i, j = self.r.randrange(len(self.types)), self.r.randrange(len(self.types))
        v = self.attempt(lambda: str(common_supertype(self.types[i], self.types[j])))
        if self.coerced.setdefault((i, j), v) != v:
            self.fail("another result the second time:common_supertype", {"types": [str(self.types[i]), str(self.types[j])], "first": self.coerced[i, j], "now": v})
        [str(t) for t in self.types]
        return "common_supertype"

    def op_broken(self, it):
        for kind in ("expr", "query", "type"):
            self.attempt(lambda: P.parse(kind, self.r.choice(BROKEN)))
        return "broken text"

    def op_reparse(self, it):
        """the text of a live tree, parsed now"""
        text = it.results.get(("print", 0))
        if isinstance(text, str) and it.kind in ("query", "expr"):
            kind = "query" if it.kind == "expr" and text.startswith("SELECT") else it.kind
            self.result(it, ("parsed",), self.attempt(lambda: T.snapshot(P.parse(kind, text))))
            return "parse its text"
        return self.op_str(it)

    def check(self, op):
        ctx = self.ctx
        for x in self.items:
            ctx.count("live objects compared")
            if T.snapshot(x.o) != x.full:
                self.fail(f"changed a tree:{op.split()[0]}", {"operation": op, "was": str(x.full)[:900], "is": str(T.snapshot(x.o))[:900]})
        for _, schema, snap in self.families:
            if T.snapshot(schema) != snap:
                self.fail(f"changed a schema:{op.split()[0]}", {"operation": op, "was": str(snap)[:600], "is": str(T.snapshot(schema))[:600]})
        if [repr(o) for o in self.options] != self.option_reprs:
            self.fail(f"changed print options:{op.split()[0]}", {"operation": op, "options": [repr(o) for o in self.options]})
        if [T.snapshot(t) for t in self.types] != self.type_snaps:
            self.fail(f"changed a type:{op.split()[0]}", {"operation": op})

    def run(self):
        names = sorted(n for n in dir(self) if n.startswith("op_"))
        try:
            for _ in range(self.nops):
                if not self.items or self.r.random() < 0.12:
                    op = self.new()
                else:
                    name = self.r.choice(names + ["op_resolve", "op_resolve", "op_print", "op_wrap", "op_compose"])
                    op = getattr(self, name)(self.r.choice(self.items))
                self.log.append(op)
                self.ctx.count("operations")
                self.ctx.saw("kinds of operation", op)
                self.check(op)
            # at the end everything still gives what it gave
            for it in self.items:
                for key in sorted(it.results, key=repr):
                    f = {"print": lambda: it.o.sql(self.options[key[1]])}.get(key[0])
                    if f:
                        self.result(it, key, self.attempt(f))
                    elif key[0] == "resolve":
                        self.op_resolve(it)
        except Changed:
            pass


def one(ctx, case):
    if case[0] == "digests":
        return digests(ctx, case)
    h = History(ctx, case)
    h.run()
    ctx.case(tuple(h.log), sample=" | ".join(h.log[:25]) if case[1] % 11 == 1 else None)


def work(ctx):
    # the digests come first: this process, of which the others are forks, hasn't used the library yet
    for i in ctx.shards(ctx.n(24, 300)):
        one(ctx, ("digests", i, 12 if ctx.quick else 25, 3))
    for i in ctx.shards(ctx.n(192, 2500)):
        one(ctx, ("history", i, 60 if ctx.quick else 120))
