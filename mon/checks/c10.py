"""Common supertypes obey lattice laws."""
import itertools

from .. import funcs as F, gen as G, probe as P
from ..core import exc_key, exc_text
from ..objbuild import Builder

ID = "C10"
RULE = ("common_supertype run on every ordered pair of a universe of types (every parameterless type, decimals, strings, times, intervals, nested types), on all "
        "pairs of DECIMALs, on structured pairs of random nested types and on triples: compared with a reference lattice position by position, with both "
        "argument orders, repeated, and with the laws of least upper bounds. Non-trivial: distinct pairs of different types")
NEED = {"pairs": 40000, "triples": 30000, "pairs with a common supertype": 10000, "pairs without one": 10000, "kinds of pair": 400}
ASSUMPTIONS = ["the library's own coercion order is the specification: integers widen, integers and decimals go to REAL or DOUBLE, VARCHAR goes to CHAR (capped at "
               "65536), DATE and TIME go to TIMESTAMP, P4HYPERLOGLOG goes to HYPERLOGLOG", "a TIME or TIMESTAMP without precision counts as precision 3",
               "nothing can be said about a pair with the unknown type, so its supertype is unknown"]

INT = {"TINYINT": 3, "SMALLINT": 5, "INTEGER": 10, "BIGINT": 19}
NONE = None  # no common supertype
UNK = ("type", "UNKNOWN")


def prec(p):
    return 3 if p is None else p


def top(a, b):
    """the least common supertype of two flat types, or None"""
    x, y = a[1], b[1]
    if UNK in (a, b):
        return None
    if a == b:
        return a
    num = [n in INT or n in ("REAL", "DOUBLE", "DECIMAL") for n in (x, y)]
    if all(num):
        for f in ("DOUBLE", "REAL"):
            if f in (x, y):
                return ("type", f)
        if x in INT and y in INT:
            return a if INT[x] > INT[y] else b
        (p1, s1), (p2, s2) = [(INT[t[1]], 0) if t[1] in INT else t[2:] for t in (a, b)]
        s = max(s1, s2)
        p = max(p1 - s1, p2 - s2) + s
        return ("type", "DECIMAL", p, s) if p <= 38 else None
    if {x, y} <= {"VARCHAR", "CHAR"}:
        if x == y == "VARCHAR":
            return ("type", "VARCHAR", None if None in (a[2], b[2]) else max(a[2], b[2]))
        return ("type", "CHAR", max(65536 if t[2] is None else min(t[2], 65536) for t in (a, b)))
    if {x, y} <= {"DATE", "TIME", "TIMESTAMP"}:
        if {x, y} == {"DATE", "TIME"}:
            return None
        ts = [t for t in (a, b) if t[1] != "DATE"]
        ps = [t[2] for t in ts]
        p = None if all(q is None for q in ps) else max(prec(q) for q in ps)
        return ("type", x if x == y else "TIMESTAMP", p, any(t[3] for t in ts))
    if {x, y} == {"HYPERLOGLOG", "P4HYPERLOGLOG"}:
        return ("type", "HYPERLOGLOG")
    return None


def expected(a, b):
    """the supertype with None at each position that has none"""
    if a == b and UNK not in (a, b):
        return a
    if a[1] == b[1] and a[1] in ("ARRAY", "MAP", "ROW"):
        if len(a) != len(b):
            return None
        return a[:2] + tuple(expected(x, y) for x, y in zip(a[2:], b[2:]))
    return top(a, b)


def loose(t):
    """type up to the default precision"""
    if isinstance(t, tuple):
        if t[:1] == ("type",) and t[1] in ("TIME", "TIMESTAMP"):
            return ("type", t[1], prec(t[2]), t[3])
        return tuple(loose(x) for x in t)
    return t


def fits(e, got):
    """does the answer agree with the expectation? Unknown is right only where there is no supertype, or around such a place."""
    if e is None:
        return got == UNK
    if got == UNK:
        return has_none(e)
    if has_none(e):
        return got[:2] == e[:2] and len(got) == len(e) and all(fits(x, y) if isinstance(x, tuple) or x is None else x == y for x, y in zip(e[2:], got[2:]))
    return loose(e) == loose(got)


def has_none(e):
    return e is None or (isinstance(e, tuple) and e[1] in ("ARRAY", "MAP", "ROW", "QDIGEST") and any(has_none(x) for x in e[2:]))


_B = Builder()


def build(m):
    return UNKNOWN() if m == UNK else _B.type(m)


def UNKNOWN():
    from treeno.datatypes.builder import unknown
    return unknown()


def read(t):
    if t.type_name == "UNKNOWN":
        return UNK
    m = P.read("type", t)
    return m


def sup(x, y):
    """('type', meaning) / ('typeerror',) / ('crash', text)"""
    from treeno.datatypes.conversions import common_supertype
    try:
        t = common_supertype(x, y)
    except TypeError as e:
        return ("typeerror", exc_text(e))
    except Exception as e:
        return ("crash", exc_text(e), exc_key(e))
    try:
        return ("ok", read(t), t)
    except Exception as e:
        return ("crash", "unreadable result: " + exc_text(e), "unreadable")


def one(ctx, case):
    (pair if len(case) == 2 else triple)(ctx, case)


def pair(ctx, case):
    a, b = case
    x, y = build(a), build(b)
    before = repr(x), repr(y)
    ab, ba = sup(x, y), sup(y, x)
    ctx.count("pairs")
    kind = f"{a[1]}/{b[1]}"
    if (repr(x), repr(y)) != before:
        ctx.violation(f"arguments-changed:{kind}", case, {"before": before, "after": [repr(x), repr(y)]})
        return
    e = expected(a, b)
    if a != b:
        ctx.case((a, b), sample=f"{x} , {y} -> {ab[1]}" if ctx.evals % 9973 == 1 else None)
    else:
        ctx.case((a, b), nontrivial=False)
    ctx.saw("kinds of pair", kind)
    for r in (ab, ba):
        if r[0] == "crash":
            ctx.violation(f"failed:{r[-1]}", case, {"error": r[1]})
            return
    if (ab[0] == "typeerror") != (ba[0] == "typeerror") or (ab[0] == "ok" and loose(ab[1]) != loose(ba[1])):
        ctx.violation(f"order:{kind}", case, {"ab": ab[1], "ba": ba[1]})
        return
    if ab[0] == "typeerror":
        ctx.count("pairs without one")
        if not has_none(e):
            ctx.violation(f"typeerror:{kind}", case, {"expected": repr(e), "error": ab[1]})
        return
    ctx.count("pairs with a common supertype" if not has_none(e) else "pairs without one")
    if not fits(e, ab[1]):
        ctx.violation(f"supertype:{kind}", case, {"expected": repr(e), "got": repr(ab[1])})
        return
    if a == b and ab[1] != a:
        ctx.violation(f"idempotence:{kind}", case, {"got": repr(ab[1])})
        return
    again = sup(x, build(b))
    if again[:2] != ab[:2]:
        ctx.violation(f"repeat:{kind}", case, {"first": ab[1], "second": again[1]})
        return
    if not has_none(e):
        # an upper bound absorbs what it bounds
        for side in (x, y):
            r = sup(ab[2], side)
            if r[0] != "ok" or loose(r[1]) != loose(ab[1]):
                ctx.violation(f"absorption:{kind}", case, {"supertype": repr(ab[1]), "with": repr(side), "gives": r[1]})
                return


def triple(ctx, case):
    a, b, c = case
    x, y, z = build(a), build(b), build(c)
    ctx.count("triples")
    ab, bc = sup(x, y), sup(y, z)
    ctx.case((a, b, c), nontrivial=len({a, b, c}) == 3)
    for r in (ab, bc):
        if r[0] == "crash":
            ctx.violation(f"failed:{r[-1]}", case, {"error": r[1]})
            return
    if ab[0] != "ok" or bc[0] != "ok" or "UNKNOWN" in repr((ab[1], bc[1])):
        return
    l, r = sup(ab[2], z), sup(x, bc[2])
    for v in (l, r):
        if v[0] == "crash":
            ctx.violation(f"failed:{v[-1]}", case, {"error": v[1]})
            return
    if l[0] == "ok" and r[0] == "ok" and "UNKNOWN" not in repr((l[1], r[1])):
        ctx.count("associations compared")
        if loose(l[1]) != loose(r[1]):
            ctx.violation(f"association:{a[1]}/{b[1]}/{c[1]}", case, {"left": repr(l[1]), "right": repr(r[1])})


FLAT = ([("type", n) for n in F.PLAIN_TYPES] + [UNK] + [("type", "DECIMAL", p, s) for p, s in
                                                       [(1, 0), (1, 1), (3, 0), (3, 1), (4, 1), (5, 0), (5, 5), (10, 0), (10, 2), (18, 9), (19, 0), (19, 1), (20, 1), (38, 0),
                                                        (38, 10), (38, 19), (38, 37), (38, 38), (37, 36)]]
        + [("type", "VARCHAR", n) for n in (None, 0, 1, 5, 65535, 65536, 65537, 2 ** 31 - 2)] + [("type", "CHAR", n) for n in (0, 1, 5, 255, 65535, 65536)]
        + [("type", k, p, z) for k in ("TIME", "TIMESTAMP") for p in (None, 0, 1, 3, 6, 9, 12) for z in (False, True)]
        + [("type", "INTERVAL", "YEAR", "MONTH"), ("type", "INTERVAL", "DAY", "SECOND")]
        + [("type", "QDIGEST", ("type", n)) for n in ("BIGINT", "DOUBLE", "REAL")])
INNER = [("type", "INTEGER"), ("type", "BIGINT"), ("type", "DECIMAL", 5, 2), ("type", "DATE"), ("type", "TIMESTAMP", 3, False), ("type", "VARCHAR", 3),
         ("type", "CHAR", 4), ("type", "BOOLEAN"), UNK]
NESTED = ([("type", "ARRAY", t) for t in INNER] + [("type", "ROW", t) for t in INNER] + [("type", "ROW", s, t) for s in INNER[:5] for t in INNER[:7]]
          + [("type", "MAP", s, t) for s in INNER[:5] for t in INNER[4:]] + [("type", "ARRAY", ("type", "ARRAY", t)) for t in INNER[:4]])
UNIVERSE = FLAT + NESTED
SMALL = [t for t in FLAT if t != UNK][::2] + NESTED[::9]


def variant(r, t):
    """a type related to t: same shape, some leaves replaced"""
    if t[1] in ("ARRAY", "MAP", "ROW"):
        if r.random() < 0.06:
            return r.choice(FLAT)
        kids = [variant(r, x) for x in t[2:]]
        if t[1] == "ROW" and r.random() < 0.05:
            kids.append(r.choice(INNER))
        return t[:2] + tuple(kids)
    if r.random() < 0.4:
        return t
    fam = [f for f in FLAT if (f[1] == t[1]) or (f[1] in INT and t[1] in INT) or {f[1], t[1]} <= {"DATE", "TIMESTAMP"} or {f[1], t[1]} <= {
        "DECIMAL", "INTEGER", "DOUBLE"} or {f[1], t[1]} <= {"CHAR", "VARCHAR"}]
    return r.choice(fam) if fam and r.random() < 0.9 else r.choice(FLAT)


def work(ctx):
    n = len(UNIVERSE)
    for i in ctx.shards(n):
        for b in UNIVERSE:
            one(ctx, (UNIVERSE[i], b))
    decs = [("type", "DECIMAL", p, s) for p in range(1, 39) for s in range(p + 1)]
    step = 1 if not ctx.quick else 12
    for i in ctx.shards(len(decs)):
        for j in range(i % step, len(decs), step):
            one(ctx, (decs[i], decs[j]))
    for k, (kind, z) in enumerate(itertools.product(("TIME", "TIMESTAMP"), (False, True))):
        for p in ctx.shards(14):
            for q, z2 in itertools.product([None] + list(range(13)), (False, True)):
                for kind2 in ("TIME", "TIMESTAMP"):
                    one(ctx, (("type", kind, ([None] + list(range(13)))[p], z), ("type", kind2, q, z2)))
    for i in ctx.shards(ctx.n(20000, 600000)):
        r = ctx.rng("nested", i)
        a = G.Gen(r).type(3)
        one(ctx, (a, variant(r, a)))
    m = len(SMALL)
    total = m ** 3
    want = ctx.n(60000, 2000000)
    if want >= total:
        for i in ctx.shards(m):
            for b, c in itertools.product(SMALL, SMALL):
                one(ctx, (SMALL[i], b, c))
    else:
        for i in ctx.shards(want):
            k = ctx.rng("tri", i // 1000).randrange(total) + i * 7919
            k %= total
            one(ctx, (SMALL[k // m // m], SMALL[k // m % m], SMALL[k % m]))
