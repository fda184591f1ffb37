"""Function calls keep name, arguments and modifiers."""
import itertools

from .. import funcs as F, gen as G, probe as P, refparse
from ..core import exc_key, exc_text
from ..lexer import RefError
from ..model import canon, same

ID = "C19"
RULE = ("every registered function with every argument count from two below to two above the allowed ones; every aggregate with every combination of DISTINCT, "
        "ORDER BY, FILTER, null treatment and OVER (named, empty, inline with parent, partitions, order and frame); LISTAGG, NORMALIZE and date/time functions "
        "with all their options: parsed in random spelling, built through constructors and from_args, printed in both modes; invalid counts and modifiers must be "
        "rejected by parser and constructors. Non-trivial: distinct calls")
NEED = {"calls": 6000, "functions": 85, "rejected texts": 500, "rejected constructions": 300, "modifier combinations": 56, "from_args calls": 500}
ASSUMPTIONS = ["the function table is transcribed from the documentation (mon/funcs.py), its argument order from the same source"]

OVERS = ["none", "named", "empty", "inline"]
COMBOS = [(d, o, f, ov, n) for d in (0, 1) for o in (0, 1) for f in (0, 1) for ov in OVERS for n in ((0, 1) if ov != "none" else (0,))]


def args_for(g, name, n, depth):
    if name in ("IF", "COALESCE", "CONCAT"):
        return g.call(name, [None] * 9, depth, nargs=n)[2]
    return tuple(("col", None, f"a{i}") if depth == 0 else g.expr(depth) for i in range(n))


def combo_mods(g, c, depth):
    d, o, f, ov, n = c
    over = None
    if ov == "named":
        over = ("win", g.ident(), (), (), None)
    elif ov == "empty":
        over = ("win", None, (), (), G.DEFAULT_FRAME)
    elif ov == "inline":
        over = g.window(depth)
    m = (bool(d), g.order(depth, 1) if o else (), g.expr(depth) if f else None, "IGNORE" if n else "RESPECT", over)
    return () if m == (False, (), None, "RESPECT", None) else m


def from_args(ctx, m, r, case):
    """the same call through the positional constructor"""
    from ..objbuild import FN, Builder
    _, name, args, mods = m
    b = Builder(r)
    kw = {}
    whole = b.call(("call", name, args, mods)) if mods else None
    for k in ("distinct", "orderby", "filter_", "window", "null_treatment"):
        if whole is not None:
            kw[k] = getattr(whole, k)
    try:
        o = FN[name].from_args(*[b.arg(a) for a in args], **kw)
        got = P.read("expr", o)
    except Exception as e:
        ctx.violation(f"from_args:{exc_key(e)}:{name}", case, {"error": exc_text(e)})
        return
    ctx.count("from_args calls")
    if not same(got, canon(m)):
        ctx.violation(f"from_args:{name}", case, {"got": repr(got)[:300]})


def one(ctx, case):
    return {"call": call, "reject": reject, "api": api, "expr": expr, "text": text_case}[case[0]](ctx, case)


def call(ctx, case):
    _, m, seed = case
    ctx.saw("functions", m[1])
    expr(ctx, case)
    if not (m[2] and m[2][0][0] == "stararg"):
        from_args(ctx, m, ctx.rng("from_args", seed), case)


def expr(ctx, case):
    _, m0, seed = case
    m = canon(m0)
    r = ctx.rng("expr", seed)
    text = P.text_of(m0, "expr", r, r.random() < 0.8)
    ctx.case(m, sample=text if ctx.evals % 97 == 1 else None)
    ctx.count("calls")
    o = P.check_parse(ctx, "expr", m, text, case)
    if o is not None:
        P.check_print(ctx, "expr", m, o, case)
    b = P.build(ctx, "expr", m0, r, case)
    if b is None:
        return
    try:
        got = P.read("expr", b)
    except Exception as e:
        ctx.violation(f"built:{exc_key(e)}", case, {"error": exc_text(e)})
        return
    if not same(got, m):
        ctx.violation(P.mech_diff("built", m, got), case, {"got": repr(got)[:300]})
        return
    P.check_print(ctx, "expr", m, b, case)
    if o is not None and not (o.equals(b) and b.equals(o)) and "LISTAGG" not in text.upper():
        ctx.count("parsed and built trees that differ in annotations")


def reject(ctx, case):
    """text that must not parse"""
    _, text = case
    try:
        refparse.parse_expr(text)
    except RefError:
        pass
    else:
        raise P.SelfCheck(f"meant to be invalid: {text!r}")
    ctx.case(("reject", text), sample=text if ctx.evals % 97 == 1 else None)
    try:
        o = P.parse("expr", text)
    except Exception:
        ctx.count("rejected texts")
        return
    ctx.violation("accepted-text:" + text.split("(")[0], case, {"text": text, "as": repr(o)[:300]})


def text_case(ctx, case):
    """text whose validity the reference decides"""
    _, text = case
    try:
        m = canon(refparse.parse_expr(text))
    except RefError:
        return reject(ctx, ("reject", text))
    ctx.case(("text", text))
    ctx.count("calls")
    o = P.check_parse(ctx, "expr", m, text, case)
    if o is not None:
        P.check_print(ctx, "expr", m, o, case)


def api(ctx, case):
    """construction that must be refused (at the latest when printed)"""
    from treeno import expression as ex, orderby as ob, window as wi
    from ..objbuild import FN
    _, name, n, mod, how = case
    a = [ex.Field(f"a{i}") for i in range(n)]
    kw = {"distinct": {"distinct": True}, "orderby": {"orderby": [ob.OrderTerm(ex.Field("o"))]}, "filter": {"filter_": ex.Field("f") == 1},
          "window": {"window": wi.Window()}, "nulls": {"null_treatment": wi.NullTreatment.IGNORE}, None: {}, "bogus": {"bogus": 1}}[mod]
    ctx.case(("api", name, n, mod, how))
    try:
        if how == "from_args":
            o = FN[name].from_args(*a, **kw)
        elif name in ("COALESCE", "CONCAT"):
            o = FN[name](a, **kw)
        else:
            o = FN[name](*a, **kw)
        t = str(o)
    except Exception:
        ctx.count("rejected constructions")
        return
    ctx.violation(f"accepted-construction:{name}:{mod or 'count'}", case, {"prints": t})


def work(ctx):
    names = sorted(F.ARITY)
    jobs = []
    for name in names:
        lo, hi = F.ARITY[name]
        for n in range(lo, min(hi, lo + 4) + 1):
            for d in (0, 1, 2):
                jobs.append(("good", name, n, (0, 0, 0, "none", 0), d))
            if name in F.AGG:
                for c in COMBOS:
                    jobs.append(("good", name, n, c, 0))
        for n in range(max(0, lo - 2), min(hi, 8) + 3):
            if not lo <= n <= hi:
                jobs.append(("count", name, n))
    for c in COMBOS:
        if not c[0] and not c[1] and not c[4]:
            for t in (None, "t"):
                jobs.append(("star", t, c))
    for k in ctx.shards(len(jobs) * ctx.n(2, 10)):
        j = jobs[k % len(jobs)]
        r = ctx.rng("job", k)
        g = G.Gen(r)
        if j[0] == "good":
            _, name, n, c, d = j
            d = d or (1 if r.random() < 0.25 else 0)
            ctx.saw("modifier combinations", c)
            one(ctx, ("call", ("call", name, args_for(g, name, n, d), combo_mods(g, c, min(d, 1)) if n or not c[1] else ()), k))
        elif j[0] == "star":
            one(ctx, ("call", ("call", "COUNT", (("stararg", j[1]),), combo_mods(g, j[2], 1)), k))
        else:
            _, name, n = j
            one(ctx, ("reject", f"{r.choice([name, name.lower()])}({', '.join('a' * 1 + str(i) for i in range(n))})"))
            if name in F.AGG and n:
                one(ctx, ("reject", f"{name}({', '.join('a' + str(i) for i in range(n))}) OVER ()"))
            if not (name in ("COALESCE", "CONCAT")):
                one(ctx, ("api", name, n, None, "ctor"))
            if not (name == "FROM_UNIXTIME" and n > 3):
                one(ctx, ("api", name, n, None, "from_args"))
    # modifiers on functions which take none, and modifiers of no function
    bad = ["({a}) OVER ()", "({a}) OVER w", "({a}) FILTER (WHERE f)", "(DISTINCT {a})", "({a} ORDER BY o)", "({a}) IGNORE NULLS OVER ()", "({a}) WITHIN GROUP (ORDER BY o)",
           "({a}) FILTER (f)", "({a}) OVER (PARTITION o)", "({a}) IGNORE NULLS", "(*)", "(DISTINCT)", "({a},)", "(,{a})", "({a}", "{a})", "({a}) OVER", "({a}) OVER ()()",
           "({a}) OVER () FILTER (WHERE f)", "(DISTINCT ALL {a})", "({a} ORDER BY)", "({a}) RESPECT OVER ()", "({a} FILTER (WHERE f))", "(ORDER BY o)", "({a})({a})",
           "({a}) OVER (ROWS 1)", "({a}) OVER (ORDER BY o PARTITION BY p)", "({a}) OVER (ROWS BETWEEN CURRENT ROW)", "(ALL DISTINCT {a})"]
    jobs = [(n, b) for n in names for b in bad]
    for k in ctx.shards(len(jobs)):
        if ctx.quick and k % 3 == 0:
            continue
        name, b = jobs[k]
        n = F.ARITY[name][0]
        text = name + b.replace("{a}", ", ".join(f"a{i}" for i in range(n)))
        one(ctx, ("text", text))
    jobs = [(n, m) for n in sorted(F.SCALAR) for m in ("distinct", "orderby", "filter", "window", "nulls", "bogus")] + [(n, m) for n in sorted(F.AGG) for m in (
        "nulls", "bogus")]
    for k in ctx.shards(len(jobs)):
        name, mod = jobs[k]
        one(ctx, ("api", name, F.ARITY[name][0], mod, "ctor"))
        one(ctx, ("api", name, F.ARITY[name][0], mod, "from_args"))
    # constructs with options of their own
    fill = [None, ("...", True), ("...", False), ("x'", True), ("", False)]
    jobs = list(itertools.product(["", ",", "'; --", "..."], fill, (1, 2), (False, True), (0, 1)))
    for k in ctx.shards(len(jobs) * ctx.n(1, 5)):
        s, f, n, d, deep = jobs[k % len(jobs)]
        g = G.Gen(ctx.rng("listagg", k))
        ctx.saw("functions", "LISTAGG")
        one(ctx, ("expr", ("listagg", g.expr(deep), s, f, g.order(deep, n, n), d), ("l", k)))
    for k, f in enumerate(sorted(F.NORMAL_FORMS) * 4):
        if ctx.mine(k):
            ctx.saw("functions", "NORMALIZE")
            one(ctx, ("expr", ("normalize", G.Gen(ctx.rng("norm", k)).expr(k % 3), f), ("n", k)))
    specials = [(n, p) for n, has in sorted(F.SPECIAL_TIME.items()) for p in (range(13) if has else [None])] + [(n, None) for n in sorted(F.SESSION)]
    for k in ctx.shards(len(specials) * 3):
        n, p = specials[k % len(specials)]
        ctx.saw("functions", n)
        one(ctx, ("expr", ("special", n, p), ("s", k)))
    more = ["CURRENT_DATE()", "CURRENT_DATE(3)", "CURRENT_TIME()", "CURRENT_TIME(13)", "LOCALTIME(-1)", "LOCALTIMESTAMP(1.0)", "CURRENT_TIMESTAMP('3')",
            "CURRENT_USER()", "CURRENT_SCHEMA(1)", "NORMALIZE()", "NORMALIZE(a, NFX)", "NORMALIZE(a, 'NFC')", "NORMALIZE(a, NFC, NFD)", "LISTAGG(a)", "LISTAGG(a, b) WITHIN GROUP (ORDER BY c)",
            "LISTAGG(a, ',')", "LISTAGG(a) WITHIN GROUP ()", "LISTAGG() WITHIN GROUP (ORDER BY a)", "LISTAGG(a, 'x', 'y') WITHIN GROUP (ORDER BY a)",
            "LISTAGG(a ON OVERFLOW TRUNCATE) WITHIN GROUP (ORDER BY a)", "LISTAGG(a ON OVERFLOW) WITHIN GROUP (ORDER BY a)",
            "LISTAGG(a) WITHIN GROUP (ORDER BY a) OVER ()", "LISTAGG(a) WITHIN GROUP (ORDER BY a) FILTER (WHERE b)", "LISTAGG(a ORDER BY b)", "LISTAGG(*) WITHIN GROUP (ORDER BY a)",
            "COUNT(*, a)", "COUNT(DISTINCT *)", "COUNT(* ORDER BY a)", "COUNT(*) IGNORE NULLS OVER ()", "COUNT(a.b.*)", "SUM(t.*)", "NOSUCHFUNCTION(a)", "s.SUM(a)", "\"SUM\"(a)",
            "FIRST_VALUE(a) OVER ()", "RANK() OVER ()", "TRIM(a)", "SUBSTRING(a FROM 1)", "ABS(a)", "SUM(a) FILTER (WHERE b) FILTER (WHERE c)"]
    for k in ctx.shards(len(more)):
        if more[k].startswith('"'):
            one(ctx, ("text", more[k]))
        else:
            one(ctx, ("reject", more[k]))
