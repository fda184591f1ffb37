"""Data types parse, print and validate exactly."""
from .. import funcs as F, gen as G, probe as P, refparse
from ..core import exc_key, exc_text
from ..lexer import RefError
from ..model import canon, canon_type, same

ID = "C09"
RULE = ("every parameterless type, all 780 DECIMALs, boundary lengths, all precisions and zones, nested types to depth 4: written in random spelling, parsed, "
        "built through the builders and the constructor, printed and re-parsed, standalone and in casts; random type texts and constructor parameters, judged "
        "valid or invalid by an independent table, must be accepted exactly when valid. Non-trivial: distinct types and distinct rejected specifications")
NEED = {"types": 4000, "rejected texts": 400, "rejected constructions": 400, "accepted texts": 150, "accepted constructions": 150}
ASSUMPTIONS = ["types the library deliberately rejects (named row fields, legacy ARRAY<>/MAP<>) count as unsupported, not as invalid"]

BASES = ([("type", n) for n in F.PLAIN_TYPES] + [("type", "DECIMAL", p, s) for p in range(1, 39) for s in range(0, p + 1)]
         + [("type", "VARCHAR", n) for n in (None, 0, 1, 2, 9, 10, 255, 65535, 65536, 65537, 2 ** 31 - 2)]
         + [("type", "CHAR", n) for n in (0, 1, 2, 10, 255, 65535, 65536)]
         + [("type", k, p, z) for k in ("TIME", "TIMESTAMP") for p in [None] + list(range(13)) for z in (False, True)]
         + [("type", "INTERVAL", "YEAR", "MONTH"), ("type", "INTERVAL", "DAY", "SECOND")])
WRAPS = [lambda t: t, lambda t: ("type", "ARRAY", t), lambda t: ("type", "ROW", t), lambda t: ("type", "ROW", ("type", "INTEGER"), t, t),
         lambda t: ("type", "MAP", t, ("type", "DATE")), lambda t: ("type", "MAP", ("type", "VARCHAR", None), t), lambda t: ("type", "QDIGEST", t),
         lambda t: ("type", "ARRAY", ("type", "ARRAY", t)), lambda t: ("type", "MAP", ("type", "ROW", t), ("type", "ARRAY", t))]


def ctor(m, r):
    """DataType(...) with the name in some letter case and every parameter spelled out"""
    from treeno.datatypes.types import DataType
    n, p = m[1], m[2:]
    name = r.choice([n, n.lower(), n.capitalize()])
    if n in ("TIME", "TIMESTAMP"):
        kw = {"timezone": p[1]}
        if p[0] is not None:
            kw["precision"] = p[0]
    elif n == "INTERVAL":
        kw = {"from_interval": p[0], "to_interval": p[1]}
    elif n == "ROW":
        kw = {"dtypes": [ctor(x, r) for x in p]}
    elif n == "DECIMAL":
        kw = {"scale": p[1], "precision": p[0]}
    elif n in ("VARCHAR", "CHAR"):
        kw = {} if p[0] is None else {"max_chars": p[0]}
    elif n in ("ARRAY", "QDIGEST"):
        kw = {"dtype": ctor(p[0], r)}
    elif n == "MAP":
        kw = {"to_dtype": ctor(p[1], r), "from_dtype": ctor(p[0], r)}
    else:
        kw = {}
    return DataType(name, kw) if kw or r.random() < 0.5 else DataType(type_name=name)


def one(ctx, case):
    return {"type": good, "text": text_case, "api": api_case}[case[0]](ctx, case)


def good(ctx, case):
    _, m0, seed = case
    m = canon(m0)
    r = ctx.rng("good", seed)
    text = P.text_of(m0, "type", r, r.random() < 0.8)
    ctx.case(m, sample=text if ctx.evals % 97 == 1 else None)
    ctx.count("types")
    objs = {}
    objs["parsed"] = P.check_parse(ctx, "type", m, text, case)
    objs["builder"] = P.build(ctx, "type", m0, r, case)
    try:
        objs["constructor"] = ctor(m0, r)
    except Exception as e:
        ctx.violation(f"constructor:{exc_key(e)}", case, {"error": exc_text(e)})
    for how, cast in (("cast", "CAST"), ("trycast", "TRY_CAST")):
        if r.random() < 0.5:
            full = f"{cast}(x AS {text})"
            o = P.check_parse(ctx, "expr", (how, ("col", None, "x"), m), full, case)
            if o is not None:
                P.check_print(ctx, "expr", (how, ("col", None, "x"), m), o, case)
                objs["in " + how] = o.data_type
    objs = {k: o for k, o in objs.items() if o is not None}
    for how, o in objs.items():
        try:
            got = P.read("type", o)
            shown = P.show(o)
        except Exception as e:
            ctx.violation(f"{how}:{exc_key(e)}", case, {"text": text, "error": exc_text(e)})
            return
        if not same(got, m):
            ctx.violation(f"{how}:{m[1]}", case, {"text": text, "read": repr(got)[:300]})
            return
        if not P.check_print(ctx, "type", m, o, case):
            return
        try:
            again = P.parse("type", shown)
            ok = again.equals(o) and o.equals(again) and again == o and P.show(again) == shown
        except Exception as e:
            ctx.violation(f"reparse:{exc_key(e)}", case, {"text": shown, "error": exc_text(e)})
            return
        if not ok:
            ctx.violation(f"reparse-unequal:{m[1]}", case, {"text": shown, "from": how})
            return
    names = sorted(objs)
    for k in names[1:]:
        if not (objs[names[0]] == objs[k] and objs[k].equals(objs[names[0]])):
            ctx.violation(f"unequal:{m[1]}", case, {"text": text, "between": [names[0], k]})
            return


# -- texts -----------------------------------------------------------------------
def rand_text(r, d=2):
    """type-like text, valid or not"""
    k = r.randrange(12)
    if k == 0:
        return r.choice(["TIME", "TIMESTAMP"]) + r.choice(["", "(3)", "(0)", "(12)", "(13)", "(99)", "()", "(BIGINT)", "(1,2)"]) + r.choice(
            ["", "", " WITH TIME ZONE", " WITHOUT TIME ZONE", " WITH ZONE", " TIME ZONE"])
    if k == 1:
        return f"INTERVAL {r.choice(G.FIELDS)} TO {r.choice(G.FIELDS)}" if r.random() < 0.8 else "INTERVAL " + r.choice(G.FIELDS)
    if k == 2:
        return r.choice(["ROW()", "ROW", "ARRAY", "MAP", "QDIGEST", "DOUBLE PRECISION", "PRECISION", "FOO", "INT", "STRING", "NUMERIC", "BIGINT ARRAY ARRAY",
                         "ROW(,)", "ROW(BIGINT,)", "ARRAY()", "MAP()", "DECIMAL()", "VARCHAR()", "CHAR()", "BIGINT()", "", "(BIGINT)", "BIGINT BIGINT"])
    name = r.choice(F.PLAIN_TYPES + ["DECIMAL"] * 8 + ["VARCHAR", "CHAR"] * 5 + ["ARRAY", "MAP", "QDIGEST", "ROW"] * 4 + ["NOTATYPE", "UNKNOWN"])
    n = r.choice([0, 1, 1, 1, 2, 2, 3])
    if n == 0:
        return name
    ps = []
    kind = r.random()
    for _ in range(n):
        if kind < 0.5:
            ps.append(str(r.choice([0, 1, 2, 5, 10, 37, 38, 39, 65536, 65537, 2 ** 31 - 2, 2 ** 31 - 1, 2 ** 40])))
        elif kind < 0.9 and d > 0:
            ps.append(rand_text(r, d - 1))
        else:
            ps.append(r.choice(["1", "BIGINT", "-1", "1.5", "'a'", "1E0", "NULL", "DATE", "*"]))
    return f"{name}({','.join(ps)})" + r.choice([""] * 12 + [" ARRAY", ")", " x", "(1)", "[]"])


def text_case(ctx, case):
    _, text, how = case
    if "UNKNOWN" in text:
        how = "type"  # the type of NULL is not something to cast to
    try:
        m = canon(refparse.parse_type(text))
    except RefError:
        m = None
    full = text if how == "type" else how.replace("{}", text)
    kind = "type" if how == "type" else "expr"
    if m is not None and kind == "expr":
        m = canon(refparse.parse_expr(full))
    ctx.case(("text", full), sample=full if ctx.evals % 97 == 1 else None)
    try:
        o = P.parse(kind, full)
    except Exception as e:
        if m is not None:
            ctx.violation(f"text-rejected:{exc_key(e)}", case, {"text": full, "error": exc_text(e)})
        else:
            ctx.count("rejected texts")
        return
    ctx.count("accepted texts")
    if m is None:
        ctx.violation("text-accepted", case, {"text": full, "as": repr(o)[:300]})
        return
    got = P.read(kind, o)
    if not same(got, m):
        ctx.violation(P.mech_diff("text", m, got), case, {"text": full, "read": repr(got)[:300]})


# -- constructor parameters --------------------------------------------------------
PARAM = {"DECIMAL": ("precision", "scale"), "VARCHAR": ("max_chars",), "CHAR": ("max_chars",), "TIME": ("precision", "timezone"),
         "TIMESTAMP": ("precision", "timezone"), "ARRAY": ("dtype",), "MAP": ("from_dtype", "to_dtype"), "ROW": ("dtypes",),
         "INTERVAL": ("from_interval", "to_interval"), "QDIGEST": ("dtype",)}
ALL_PARAMS = sorted({p for ps in PARAM.values() for p in ps}) + ["bogus", "Precision"]
INTS = [-1, 0, 1, 2, 5, 12, 13, 37, 38, 39, 65536, 65537, 2 ** 31 - 2, 2 ** 31 - 1, 2 ** 40]


def rand_params(r):
    name = r.choice(F.PLAIN_TYPES + list(PARAM) * 6 + ["NOTATYPE", ""])
    own = PARAM.get(name, ())
    params = {}
    for p in own:
        if r.random() < 0.8:
            params[p] = rand_value(r, p)
    if r.random() < 0.12:
        params[r.choice(ALL_PARAMS)] = rand_value(r, r.choice(ALL_PARAMS))
    return name, tuple(params.items())


def rand_value(r, p):
    x = r.random()
    if x < 0.15:
        return r.choice(["1", None, 1.5, True, False, 1, "BIGINT", ("type", "BIGINT"), ("list",), "", "MONTH", "SECOND"])
    if p in ("precision", "scale", "max_chars"):
        return r.choice(INTS)
    if p == "timezone":
        return r.choice([True, False])
    if p in ("dtype", "from_dtype", "to_dtype"):
        return r.choice([("type", "BIGINT"), ("type", "ARRAY", ("type", "DATE"))])
    if p == "dtypes":
        return r.choice([("list", ("type", "BIGINT")), ("list", ("type", "BIGINT"), ("type", "DATE")), ("list",), ("list", 3), ("list", ("type", "DATE"), None)])
    return r.choice(["YEAR", "DAY", "MONTH", "SECOND", "HOUR", "year", "day"])


def is_type(v):
    return isinstance(v, tuple) and v[:1] == ("type",)


def judge(name, params):
    """meaning of the constructed type, or None when the specification is invalid"""
    p = dict(params)
    own = PARAM.get(name)
    if own is None:
        return ("type", name) if name in F.PLAIN_TYPES and not p else None
    if set(p) - set(own):
        return None

    def integer(k, default):
        v = p.get(k, default)
        if k in p and type(v) is not int:
            raise RefError(k)
        return v
    try:
        if name == "DECIMAL":
            return canon_type(name, (integer("precision", 38), integer("scale", 0)))
        if name in ("VARCHAR", "CHAR"):
            n = integer("max_chars", None)
            return canon_type(name, () if n is None else (n,))
        if name in ("TIME", "TIMESTAMP"):
            z = p.get("timezone", False)
            if type(z) is not bool:
                return None
            return canon_type(name, (integer("precision", None), z))
        if name == "INTERVAL":
            return canon_type(name, (p.get("from_interval"), p.get("to_interval")))
    except RefError:
        return None
    if set(p) != set(own):
        return None
    if name == "ROW":
        v = p["dtypes"]
        if not (isinstance(v, tuple) and v[:1] == ("list",) and len(v) > 1 and all(is_type(x) for x in v[1:])):
            return None
        return ("type", "ROW") + v[1:]
    vs = [p[k] for k in own]
    return ("type", name) + tuple(vs) if all(is_type(v) for v in vs) else None


def make(ctx, v):
    from ..objbuild import Builder
    if is_type(v):
        return Builder().type(v)
    if isinstance(v, tuple):
        return [make(ctx, x) for x in (v[1:] if v[:1] == ("list",) else v)]
    return v


def api_case(ctx, case):
    from treeno.datatypes import builder as dt
    from treeno.datatypes.types import DataType
    _, name, params, how = case
    m = judge(name, params)
    kw = {k: make(ctx, v) for k, v in params}
    ctx.case(("api", name, params), sample=repr(case)[:120] if ctx.evals % 97 == 1 else None)
    try:
        fn = getattr(dt, {"MAP": "map_"}.get(name, name.lower()), None) if how == "builder" and name in PARAM else None
        o = fn(**kw) if fn is not None else DataType(name, kw)
    except Exception as e:
        if m is not None:
            ctx.violation(f"api-rejected:{exc_key(e)}", case, {"error": exc_text(e)})
        else:
            ctx.count("rejected constructions")
        return
    ctx.count("accepted constructions")
    if m is None:
        ctx.violation(f"api-accepted:{name}", case, {"as": repr(o)[:300]})
        return
    if set(kw) != set(dict(params)):
        ctx.violation("api-changes-argument", case, {"after": sorted(kw)})
        return
    got = P.read("type", o)
    if not same(got, canon(m)):
        ctx.violation(f"api:{name}", case, {"read": repr(got)[:300]})
        return
    P.check_print(ctx, "type", canon(m), o, case)


def work(ctx):
    combos = [(b, w) for b in range(len(BASES)) for w in range(len(WRAPS))]
    combos.sort(key=lambda c: (c[1] != 0))
    for rnd in range(ctx.n(1, 6)):
        # quick: every base type plain, and a third of the nested ones
        for k in ctx.shards(len(combos)):
            b, w = combos[k]
            if ctx.quick and w and (b + w) % 3:
                continue
            one(ctx, ("type", WRAPS[w](BASES[b]), ("e", k, rnd)))
    # towers of types of one and several parts
    unary = [w for w in WRAPS[1:] if w is not WRAPS[6]]
    for k in ctx.shards(ctx.n(600, 20000)):
        r = ctx.rng("tower", k)
        t = r.choice(BASES)
        for _ in range(r.choice([2, 2, 2, 3, 3, 4, 6])):
            t = r.choice(unary[:2] if r.random() < 0.4 else unary)(t)
        ctx.count("towers of types")
        one(ctx, ("type", t, ("w", k)))
    for i in ctx.shards(ctx.n(2500, 60000)):
        g = G.Gen(ctx.rng("t", i))
        one(ctx, ("type", g.type(g.r.choice([2, 3, 4])), ("r", i)))
    for i in ctx.shards(ctx.n(4000, 80000)):
        r = ctx.rng("text", i)
        one(ctx, ("text", rand_text(r), r.choice(["type", "type", "CAST(x AS {})", "TRY_CAST((1, 2) AS {})", "CAST(NULL AS ARRAY({}))",
                                                  "CAST(x AS ROW(BIGINT, {}))"])))
    for i in ctx.shards(ctx.n(8000, 200000)):
        r = ctx.rng("api", i)
        name, params = rand_params(r)
        one(ctx, ("api", name, params, r.choice(["builder", "ctor"])))
