"""Visitors reach every node exactly once."""
from collections import Counter

from .. import funcs as F, gen as G, objbuild, probe as P, treewalk as T, workload as W
from ..core import exc_key, exc_text
from ..model import canon

ID = "C15"
RULE = ("trees of every query family, every operator pair and every function with every modifier, built or parsed, and subtrees of them, traversed by a recording "
        "subclass of the standard visitor whose handlers call each node's visit; the multiset of visited nodes is compared with an independent walk over the "
        "nodes' attributes; and every registered node class is dispatched by the standard visitor. Non-trivial: distinct trees of more than one node")
NEED = {"nodes visited": 200000, "node classes visited": 150, "child slots visited": 210, "handlers dispatched": 150}
ASSUMPTIONS = ["data types are annotations of nodes, not nodes of the tree", "nodes are found in public attributes, also inside lists and dictionaries"]


def recorder():
    from treeno.visitor import TreenoVisitor

    class Recorder(TreenoVisitor):
        def __init__(self):
            self.log = []

        def visit(self, node):
            self.target = node
            return super().visit(node)

    def handler(name):
        def f(self, node):
            self.log.append((name, node))
            node.visit(self)
        return f
    for c in T.node_classes():
        setattr(Recorder, "visit_" + c.__name__, handler(c.__name__))
    return Recorder


REC = None


def traverse(ctx, o, case, tag):
    global REC
    REC = REC or recorder()
    v = REC()
    try:
        v.visit(o)
    except Exception as e:
        ctx.violation(f"raised:{exc_key(e)}", case, {"tree": repr(o)[:500], "error": exc_text(e)})
        return
    want = Counter(id(n) for n in T.walk(o))
    got = Counter(id(n) for _, n in v.log)
    ctx.count("nodes visited", len(v.log))
    for name, n in v.log:
        if name != type(n).__name__:
            ctx.violation(f"dispatch:{type(n).__name__}", case, {"node": type(n).__name__, "handler": name})
            return
        ctx.saw("node classes visited", type(n).__module__ + "." + type(n).__qualname__)
    if want != got:
        names = {id(n): n for n in T.walk(o)}
        for n in v.log:
            names.setdefault(id(n[1]), n[1])
        slot = {}
        for n in T.walk(o):
            for path, c in T.child_nodes(n):
                slot[id(c)] = type(n).__name__ + "." + path[0]
        missing = [slot.get(k, "?") + ":" + type(names[k]).__name__ for k in (want - got)]
        extra = [type(names[k]).__name__ for k in (got - want)]
        ctx.violation(f"missed:{sorted(missing)[0]}" if missing else f"extra:{sorted(extra)[0]}", case,
                      {"missed": sorted(missing)[:10], "visited too often": sorted(extra)[:10], "tree": str(type(o))})
        return
    for n in T.walk(o):
        for path, c in T.child_nodes(n):
            ctx.saw("child slots visited", type(n).__name__ + "." + path[0])
    ctx.count(tag)


def one(ctx, case):
    kind, m0, seed = case
    if kind == "dispatch":
        return dispatch(ctx, case)
    if isinstance(seed, str):
        try:
            o = P.parse(kind, seed)
        except Exception:
            return
    else:
        try:
            o = getattr(objbuild.Builder(ctx.rng("api", seed)), kind)(m0)
        except Exception:
            return
    nodes = list(T.walk(o))
    ctx.case(canon(m0), nontrivial=len(nodes) > 1, sample=f"{type(o).__name__} tree with {len(nodes)} nodes" if ctx.evals % 50 == 1 else None)
    traverse(ctx, o, case, "trees traversed")
    r = ctx.rng("sub", seed)
    for n in r.sample(nodes, min(3, len(nodes))):
        traverse(ctx, n, case, "subtrees traversed")
    # nodes of more than one parent are visited once for each
    done = [T.share(o, r) for _ in range(r.choice([0, 1, 1, 4]))]
    if any(done):
        traverse(ctx, o, case, "trees with shared nodes traversed")


def dispatch(ctx, case):
    """the standard visitor, with and without handlers overridden"""
    from treeno.visitor import TreenoVisitor
    for c in sorted(T.node_classes(), key=lambda c: c.__name__):
        node = c.__new__(c)
        ctx.count("dispatch checks")
        try:
            TreenoVisitor().visit(node)
        except Exception as e:
            ctx.violation(f"no handler:{c.__name__}", case, {"class": c.__name__, "error": exc_text(e)})
            continue
        calls = []

        class V(TreenoVisitor):
            pass
        for d in T.node_classes():
            setattr(V, "visit_" + d.__name__, (lambda name: lambda self, n: (calls.append((name, n)), name)[1])(d.__name__))
        r = V().visit(node)
        if len(calls) != 1 or calls[0][0] != c.__name__ or calls[0][1] is not node or r != c.__name__:
            ctx.violation(f"dispatch:{c.__name__}", case, {"class": c.__name__, "handlers": [n for n, _ in calls], "returned": r})
        ctx.saw("handlers dispatched", c.__name__)


def work(ctx):
    if ctx.shard == 0:
        one(ctx, ("dispatch", None, 0))
    for k in ctx.shards(W.TOTAL * ctx.n(2, 20)):
        fam, r, m = W.family_case(ctx, k, "c15")
        one(ctx, ("query", m, k))
    fns = sorted(F.ARITY) * ctx.n(12, 100)
    for i in ctx.shards(len(fns)):
        r = ctx.rng("fn", i)
        g = G.Gen(r)
        f = fns[i]
        m = g.call(f, [None] * 9, 2, mods=f in F.AGG, over=r.random() < 0.7)
        one(ctx, ("expr", m, i if r.random() < 0.7 else P.text_of(m, "expr", r, True)))
    pairs = P.pair_cases()
    for i in ctx.shards(len(pairs) * ctx.n(1, 10)):
        m = G.pair_meaning(G.Gen(ctx.rng("pair", i), odd=0.05), *pairs[i % len(pairs)])
        one(ctx, ("expr", m, i))
    for i in ctx.shards(ctx.n(4000, 60000)):
        r = ctx.rng("random", i)
        g = G.Gen(r)
        kind, m = r.choice([("expr", g.expr(4)), ("query", g.query(4)), ("rel", W.relation_random(g, 5)), ("query", g.query(3))])
        one(ctx, (kind, m, i))
    for i in ctx.shards(ctx.n(1200, 20000)):
        r = ctx.rng("parsed", i)
        m = G.Gen(r).query(3)
        one(ctx, ("query", m, P.text_of(m, "query", r, True)))
