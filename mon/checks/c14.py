"""Structural equality is exact."""
import copy
from decimal import Decimal
from enum import Enum

import attr

from .. import funcs as F, gen as G, objbuild, probe as P, treewalk as T, workload as W
from ..core import exc_key, exc_text

ID = "C14"
RULE = ("trees of all query families, operators, functions, relations and types, built through the API or parsed. Equal side: two independent builds or parses "
        "and deep copies must be equal in both directions. Unequal side: a copy with exactly one difference (one attribute of one node at any depth changed: node "
        "kind, operand, list order and length, name, letter case, enum option, literal value or python type, absent part added, data type name or "
        "parameter) must be unequal in both directions, and assert_equals must say so; pools of small trees are compared all against all with an "
        "attribute-by-attribute snapshot as the oracle. Non-trivial: distinct (tree, difference) pairs")
NEED = {"equal pairs": 3000, "single differences": 15000, "slots mutated": 200, "node classes mutated": 130, "all-against-all comparisons": 50000,
        "kinds of difference": 25}
ASSUMPTIONS = ["the content of a node is its public attributes", "an absent optional list and an empty one are not told apart by any test here"]


def content(v):
    """public attributes only"""
    from treeno.base import Sql
    from treeno.datatypes.types import DataType
    if isinstance(v, DataType):
        return ("T", type(v).__name__, v.type_name, content(v.parameters))
    if isinstance(v, Sql):
        return (type(v).__module__, type(v).__qualname__) + tuple((n, content(x)) for n, x in T.fields(v))
    if isinstance(v, (list, tuple)):
        return ("L",) + tuple(content(x) for x in v)
    if isinstance(v, dict):
        return ("D",) + tuple((content(k), content(x)) for k, x in v.items())
    return (type(v).__name__, repr(v))


def siblings(v):
    """other node classes with the same attributes"""
    from treeno.base import Sql
    names = [a.name for a in attr.fields(type(v))]
    return sorted((c for c in T.node_classes() if c.__module__.startswith("treeno") and c is not type(v) and [a.name for a in attr.fields(c)] == names),
                  key=lambda c: c.__qualname__)


SPECIAL = {}


def special(cls):
    """a user's own kind of node, derived from cls"""
    if cls not in SPECIAL:
        SPECIAL[cls] = type(cls)("Special" + cls.__name__, (cls,), {"__module__": "user"})
    return SPECIAL[cls]


def namesake(cls):
    """a user's own kind of node with the name of another one"""
    if ("same name", cls) not in SPECIAL:
        SPECIAL["same name", cls] = type(cls)(cls.__name__, (cls,), {"__module__": "user"})
    return SPECIAL["same name", cls]


def variants(r, v):
    """[(kind of difference, other value)]: each differs from v in content"""
    from treeno.base import Sql
    from treeno.datatypes.types import DataType
    from treeno.expression import Field, Literal, Negative
    from treeno.relation import Table
    from treeno.datatypes.builder import bigint
    out = []
    if v is None:
        return [("none to node", Literal(1, data_type=bigint())), ("none to text", "x"), ("none to number", 0), ("none to false", False), ("none to empty text", "")]
    if isinstance(v, bool):
        return [("flip", not v), ("bool to int", int(v)), ("bool to none", None)]
    if isinstance(v, Enum):
        return [("option", m) for m in type(v) if m is not v] + [("option to none", None)]
    if isinstance(v, int):
        return ([("number", v + 1), ("number sign", -v) if v else ("number", 5), ("int to float", float(v)) if abs(v) < 2**53 else ("number", v - 1),
                 ("int to decimal", Decimal(v)), ("int to text", str(v))] + ([("int to bool", bool(v))] if v in (0, 1) else []))
    if isinstance(v, Decimal):
        return [("decimal scale", Decimal(format(v, "f") + ("0" if "." in format(v, "f") else ".0"))), ("decimal sign", v.copy_negate()),
                ("decimal to float", float(v))]
    if isinstance(v, float):
        import math
        return [("float ulp", math.nextafter(v, math.inf if v < 1e308 else 0)), ("float sign", -v), ("float to text", repr(v))]
    if isinstance(v, str):
        out = [("text longer", v + "x"), ("text space", v + " "), ("text to bytes", v.encode("utf8", "surrogatepass"))]
        if v.swapcase() != v:
            out.append(("text case", v.swapcase()))
        if v:
            out.append(("text cut", v[:-1]))
            out.append(("text first", chr(ord(v[0]) + 1) + v[1:]))
        if v.isdigit():
            out.append(("text to int", int(v)))
        return out
    if isinstance(v, DataType):
        def ty(name, params):
            d = copy.copy(v)
            d.type_name, d.parameters = name, params
            return d
        out = [("type name", ty("BIGINT" if v.type_name != "BIGINT" else "INTEGER", {} if r.random() < 0.5 else v.parameters))]
        for k in v.parameters:
            for what, x in variants(r, v.parameters[k]):
                if what not in ("none to node", "none to text", "none to false", "none to empty text", "bool to int", "int to bool", "int to float",
                                "int to decimal", "bool to none"):
                    out.append(("type parameter: " + what, ty(v.type_name, {**v.parameters, k: x})))
        return out
    if isinstance(v, (list, tuple)):
        mk = type(v)
        if v:
            out += [("shorter", mk(v[:-1])) if len(v) > 1 else ("emptied", mk(())), ("repeated", mk(list(v) + [v[-1]]))]
            if len(v) > 1 and content(mk(reversed(list(v)))) != content(v):
                out.append(("order", mk(reversed(list(v)))))
            if len(v) > 1:
                out.append(("first dropped", mk(v[1:])))
        return out
    if isinstance(v, dict):
        if v:
            ks = list(v)
            if isinstance(ks[0], str):
                out.append(("key renamed", {k if k is not ks[-1] else k + "x": x for k, x in v.items()}))
            out.append(("entry dropped", {k: v[k] for k in ks[:-1]}) if len(ks) > 1 else ("entries emptied", {}))
            if len(ks) > 1:
                out.append(("entry order", {k: v[k] for k in reversed(ks)}))
        return out
    if isinstance(v, Sql):
        out += [("kind", _as(v, c)) for c in r.sample(siblings(v), min(2, len(siblings(v))))]
        out.append(("derived kind", _as(v, special(type(v)))))
        out.append(("kind of the same name", _as(v, namesake(type(v)))))
        out += [("node to none", None), ("node to text", "x"), ("node wrapped", Negative(Literal(1, data_type=bigint()))), ("other node", r.choice([Field("zzz9"), Table("zzz9")]))]
        kids = [c for _, c in T.child_nodes(v)]
        if kids:
            out.append(("node to its part", r.choice(kids)))
        return out
    return out


def _as(v, c):
    n = copy.copy(v)
    n.__class__ = c
    return n


def sites(o):
    """(number of the node in walk order, path from the node) of every value in the tree"""
    for i, n in enumerate(T.walk(o)):
        for name, v in T.fields(n):
            yield from _sites(i, n, (name,), v)


def _sites(i, n, path, v):
    from treeno.base import Sql
    yield i, n, path, v
    if isinstance(v, (list, tuple)):
        for k, x in enumerate(v):
            yield from _sites(i, n, path + (k,), x)
    elif isinstance(v, dict):
        for k, x in v.items():
            yield from _sites(i, n, path + (k,), x)


def put(v, path, new):
    """v with the part at path replaced"""
    if not path:
        return new
    if isinstance(v, dict):
        return {k: put(x, path[1:], new) if k == path[0] else x for k, x in v.items()}
    return type(v)(put(x, path[1:], new) if k == path[0] else x for k, x in enumerate(v))


def mutated(o, i, path, new):
    t = copy.deepcopy(o)
    n = next(x for k, x in enumerate(T.walk(t)) if k == i)
    setattr(n, path[0], put(getattr(n, path[0]), path[1:], new))
    return t


def equal(ctx, case, a, b, what):
    """a.equals(b), checked for symmetry; None after a violation"""
    try:
        x, y = a.equals(b), b.equals(a)
    except Exception as e:
        ctx.violation(f"raised:{exc_key(e)}", case, {"what": what, "trees": [repr(a)[:400], repr(b)[:400]], "error": exc_text(e)})
        return None
    if x is not True and x is not False or x != y:
        ctx.violation("asymmetric", case, {"what": what, "trees": [repr(a)[:400], repr(b)[:400]], "answers": [repr(x)[:100], repr(y)[:100]]})
        return None
    try:
        a.assert_equals(b)
        said = True
    except AssertionError:
        said = False
    if said != x:
        ctx.violation("assert_equals", case, {"what": what, "equals": x, "assert_equals": said})
        return None
    return x


def make(ctx, kind, m, seed):
    if isinstance(seed, str):
        return P.parse(kind, seed)
    return getattr(objbuild.Builder(ctx.rng("api", seed)), kind)(m)


def one(ctx, case):
    kind, m, seed, nmut = case
    if kind == "pool":
        return pool(ctx, case)
    try:
        o, o2 = make(ctx, kind, m, seed), make(ctx, kind, m, seed)
    except Exception:
        ctx.count("trees not made (another property)")
        return
    if content(o) != content(o2):
        if isinstance(seed, str):
            ctx.violation("parsed twice", case, {"text": seed, "trees": [repr(o)[:400], repr(o2)[:400]]})
        return
    for what, other in (("itself", o), ("an independent copy", o2), ("a deep copy", copy.deepcopy(o))):
        r = equal(ctx, case, o, other, what)
        if r is None:
            return
        ctx.count("equal pairs")
        if not r:
            ctx.violation(f"copy unequal:{type(o).__name__}", case, {"what": what, "tree": repr(o)[:600]})
            return
    for junk in (None, "x", 1, object(), [o], str(o) if kind != "rel" else "t", type(o)):
        try:
            if o.equals(junk) is not False:
                ctx.violation("equals a non-tree", case, {"other": repr(junk)[:100]})
                return
        except Exception as e:
            ctx.violation(f"raised:{exc_key(e)}", case, {"other": repr(junk)[:100], "error": exc_text(e)})
            return
    r = ctx.rng("mutations", kind, repr(m), repr(seed))
    base = content(o)
    ss = list(sites(o))
    # rare slots first
    ss.sort(key=lambda s: (ctx.__dict__.setdefault("_slots", {}).get((type(s[1]).__name__, s[2][0]), 0), r.random()))
    for i, n, path, v in ss[:nmut]:
        vs = variants(r, v)
        if not vs:
            continue
        slot = (type(n).__name__, path[0])
        ctx._slots[slot] = ctx._slots.get(slot, 0) + 1
        # rare kinds of difference first
        seen = ctx.__dict__.setdefault("_kinds", {})
        what, new = min(vs, key=lambda w: (seen.get((slot, w[0]), 0), r.random()))
        seen[(slot, what)] = seen.get((slot, what), 0) + 1
        t = mutated(o, i, path, new)
        if content(t) == base:
            continue
        got = equal(ctx, case, o, t, what)
        if got is None:
            return
        ctx.count("single differences")
        ctx.saw("slots mutated", ".".join(slot))
        ctx.saw("node classes mutated", type(n).__name__)
        ctx.saw("kinds of difference", what)
        ctx.case((base, i, path, what, repr(new)), sample=f"{type(n).__name__}.{'.'.join(map(str, path))}: {what}" if ctx.evals % 499 == 1 else None)
        if got:
            ctx.violation(f"difference unnoticed:{type(n).__name__}.{path[0]}:{what}", case,
                          {"node": type(n).__name__, "attribute": str(path), "difference": what, "values": [repr(v)[:200], repr(new)[:200]]})
            return


def pool(ctx, case):
    """small trees, all against all"""
    r = ctx.rng("pool", case[2])
    g = G.Gen(r, odd=0)
    trees = []
    leaf = [("int", 1), ("int", 0), ("bool", True), ("bool", False), ("dec", 10, 1), ("dec", 1, 0), ("dbl", "1.0"), ("str", "1"), ("str", ""), ("null",), ("col", None, "a"),
            ("col", "a", "a"), ("col", None, "A"), ("neg", ("int", 1)), ("int", -1), ("row", ("int", 1)), ("array", ("int", 1)), ("interval", "1", "DAY", None)]
    for _ in range(40):
        p = r.choice(P.OPS)
        holes = [r.choice(leaf[:6] if r.random() < 0.5 else leaf) for _ in range(9)]
        m = r.choice(leaf) if r.random() < 0.5 else g.build(p, holes, 0)
        x = r.random()
        try:
            b = objbuild.Builder(ctx.rng("poolb", case[2], len(trees)))
            if x < 0.7:
                trees.append(b.expr(m))
            elif x < 0.8:
                trees.append(b.query(P.select_of(m)))
            else:
                trees.append(P.parse("expr", P.text_of(m, "expr", r, True)))
        except Exception:
            continue
    trees += [copy.deepcopy(t) for t in trees[:6]]
    cs = [content(t) for t in trees]
    ctx.case(("pool", case[2]), nontrivial=len(set(cs)) > 5)
    for i, a in enumerate(trees):
        for j, b in enumerate(trees):
            if j < i:
                continue
            got = equal(ctx, case, a, b, "pool")
            if got is None:
                return
            ctx.count("all-against-all comparisons")
            if got != (cs[i] == cs[j]):
                ctx.violation(f"pool:{type(a).__name__}:{type(b).__name__}", case, {"trees": [repr(a)[:500], repr(b)[:500]], "equals": got})
                return


def work(ctx):
    n = ctx.n(10, 40)
    for k in ctx.shards(ctx.n(90, 2000)):
        one(ctx, ("pool", None, k, 0))
    for k in ctx.shards(W.TOTAL * ctx.n(1, 8)):
        fam, r, m = W.family_case(ctx, k, "c14")
        one(ctx, ("query", m, k if r.random() < 0.8 else P.text_of(m, "query", r, False), n))
    fns = sorted(F.ARITY) * ctx.n(4, 40)
    for i in ctx.shards(len(fns)):
        r = ctx.rng("fn", i)
        m = G.Gen(r).call(fns[i], [None] * 9, 2, mods=fns[i] in F.AGG, over=r.random() < 0.7)
        one(ctx, ("expr", m, i if r.random() < 0.7 else P.text_of(m, "expr", r, False), n))
    pairs = P.pair_cases()
    for i in ctx.shards(len(pairs) * ctx.n(1, 6)):
        one(ctx, ("expr", G.pair_meaning(G.Gen(ctx.rng("pair", i), odd=0.05), *pairs[i % len(pairs)]), i, n // 2))
    for i in ctx.shards(ctx.n(500, 15000)):
        r = ctx.rng("random", i)
        g = G.Gen(r)
        kind, m = r.choice([("expr", g.expr(3)), ("query", g.query(3)), ("rel", W.relation_random(g, 4))])
        one(ctx, (kind, m, i, n))
