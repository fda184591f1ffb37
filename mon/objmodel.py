"""What a treeno tree says, read through its public attributes -> meaning (same vocabulary as refparse)."""
from decimal import Decimal

from .funcs import SQL_NAME
from .model import canon_type, mk_and, mk_neg, mk_not, mk_or, norm_interval, num_key


class Unreadable(Exception):
    """The object is not a tree of known nodes with well-formed contents."""


ARITH = {"Add": "+", "Minus": "-", "Multiply": "*", "Divide": "/", "Modulus": "%"}
CMP = {"Equal": "=", "NotEqual": "<>", "GreaterThan": ">", "GreaterThanOrEqual": ">=", "LessThan": "<",
       "LessThanOrEqual": "<="}
# Attributes of each function class in the order the documentation lists the arguments
FUNC_ARGS = {
    "MAX": ("value", "num_values?"), "MIN": ("value", "num_values?"), "MAX_BY": ("value", "max_by", "num_values?"),
    "MIN_BY": ("value", "min_by", "num_values?"), "APPROX_PERCENTILE": ("value", "weight?", "percentage"),
    "APPROX_MOST_FREQUENT": ("buckets", "value", "capacity"), "NUMERIC_HISTOGRAM": ("buckets", "value", "weight?"),
    "QDIGEST_AGG": ("value", "weight?", "accuracy?"), "TDIGEST_AGG": ("value", "weight?"),
    "MAP_AGG": ("key", "value"), "MULTIMAP_AGG": ("key", "value"), "APPROX_DISTINCT": ("key", "epsilon?"),
    "REPLACE": ("string", "search", "replace?"), "FROM_UTF8": ("binary", "replace?"),
    "LPAD": ("string", "size", "pad_string"), "RPAD": ("string", "size", "pad_string"), "CONCAT": ("values*",),
    "COALESCE": ("values*",), "HAMMING_DISTANCE": ("string1", "string2"), "LEVENSHTEIN_DISTANCE": ("string1", "string2"),
    "CHR": ("number",), "IF": ("condition", "true_value", "false_value?"), "NULLIF": ("value1", "value2"),
    "TRY": ("expr",), "POWER": ("x", "p"), "AT_TIMEZONE": ("value", "zone"), "WITH_TIMEZONE": ("value", "zone"),
    "FROM_UNIXTIME": ("value", "zone?", "hours?", "minutes?"), "NOW": (), "DATE_TRUNC": ("unit", "value"),
    "DATE_ADD": ("unit", "value", "timestamp"), "DATE_DIFF": ("unit", "timestamp1", "timestamp2"),
}
for _n in ("CORR", "COVAR_POP", "COVAR_SAMP", "KURTOSIS", "REGR_INTERCEPT", "REGR_SLOPE"):
    FUNC_ARGS[_n] = ("y", "x")
for _n in ("CODEPOINT", "LENGTH", "LOWER", "LTRIM", "LUHN_CHECK", "REVERSE", "RTRIM", "SOUNDEX", "TO_UTF8"):
    FUNC_ARGS[_n] = ("string",)


def _seq(x):
    if not isinstance(x, (list, tuple)):
        raise Unreadable(f"expected a list, got {type(x).__name__}")
    return x


def _name(x):
    if type(x) is not str:
        raise Unreadable(f"expected a name, got {x!r}")
    return x


def _intval(x):
    if type(x) is not int:
        raise Unreadable(f"expected an integer, got {x!r}")
    return x


def _enum(x):
    return x.name


def expr(o):
    if o is None:
        raise Unreadable("missing expression")
    cls = type(o).__name__
    h = HANDLERS.get(cls)
    if h is not None:
        return h(o)
    if cls in ARITH:
        return ("arith", ARITH[cls], expr(o.left), expr(o.right))
    if cls in CMP:
        return ("cmp", CMP[cls], expr(o.left), expr(o.right))
    if is_query(o):
        return ("subq", query(o))
    fn = SQL_NAME.get(cls)
    if fn is not None:
        return call(o, fn)
    raise Unreadable(f"unexpected node {cls}")


def literal(o):
    v = o.value
    if v is None:
        return ("null",)
    if type(v) is bool:
        return ("bool", v)
    if type(v) is int:
        return ("int", v)
    if type(v) is str:
        return ("str", v)
    if type(v) is float:
        return ("dbl", repr(v))
    if isinstance(v, Decimal):
        s, digits, exp = v.as_tuple()
        if not isinstance(exp, int):
            raise Unreadable("non-finite decimal")
        u = int("".join(map(str, digits)) or "0")
        if exp > 0:
            u, exp = u * 10 ** exp, 0
        return ("dec", -u if s else u, -exp)
    raise Unreadable(f"literal of {type(v).__name__}")


def field(o):
    t = o.table
    if t is None or isinstance(t, str):
        return ("col", t or None, _name(o.name))
    return ("deref", expr(t), _name(o.name))


def dtype(t):
    n, p = t.type_name, t.parameters
    if n in ("TIME", "TIMESTAMP"):
        return canon_type(n, (p.get("precision"), bool(p.get("timezone", False))))
    if n == "INTERVAL":
        return canon_type(n, (p["from_interval"], p["to_interval"]))
    if n == "ROW":
        return canon_type(n, tuple(dtype(x) for x in _seq(p["dtypes"])))
    if n == "DECIMAL":
        return canon_type(n, (_intval(p["precision"]), _intval(p["scale"])))
    if n in ("VARCHAR", "CHAR"):
        return canon_type(n, (_intval(p["max_chars"]),) if "max_chars" in p else ())
    if n in ("ARRAY", "QDIGEST"):
        return canon_type(n, (dtype(p["dtype"]),))
    if n == "MAP":
        return canon_type(n, (dtype(p["from_dtype"]), dtype(p["to_dtype"])))
    if p:
        raise Unreadable(f"parameters on {n}")
    return ("type", n)


def case(o):
    return ("case", None if o.value is None else expr(o.value),
            tuple((expr(w.condition), expr(w.value)) for w in _seq(o.branches)),
            None if o.else_ is None else expr(o.else_.value))


def order(terms):
    return tuple((expr(t.value), _enum(t.order_type), _enum(t.null_order)) for t in _seq(terms or ()))


def frame_bound(b):
    n = type(b).__name__
    if n == "UnboundedFrameBound":
        return ("unbounded", _enum(b.bound_type))
    if n == "CurrentFrameBound":
        return ("current",)
    if n == "BoundedFrameBound":
        return ("bounded", _enum(b.bound_type), expr(b.offset))
    raise Unreadable(n)


DEFAULT_FRAME = ("RANGE", ("unbounded", "PRECEDING"), ("current",))


def window(w):
    if w is None:
        return None
    frame = (_enum(w.frame_type), frame_bound(w.start_bound), frame_bound(w.end_bound))
    parent = w.parent_window or None
    # The tree has no way to say "no frame"; with a parent window the default one stands for it.
    if parent is not None and frame == DEFAULT_FRAME:
        frame = None
    return ("win", parent, tuple(expr(e) for e in _seq(w.partitions or ())), order(w.orderby), frame)


def call(o, fn):
    spec = FUNC_ARGS.get(fn, ("value",))
    args = []
    for a in spec:
        if a.endswith("*"):
            args.extend(expr(x) for x in _seq(getattr(o, a[:-1])))
        elif a.endswith("?"):
            v = getattr(o, a[:-1])
            if v is not None:
                args.append(expr(v))
        else:
            v = getattr(o, a)
            if type(v).__name__ == "Star":
                args.append(("stararg", v.table))
            else:
                args.append(expr(v))
    mods = ()
    if hasattr(o, "window"):
        m = (bool(o.distinct), order(o.orderby), None if o.filter_ is None else expr(o.filter_),
             _enum(o.null_treatment), window(o.window))
        if m != (False, (), None, "RESPECT", None):
            mods = m
    return ("call", fn, tuple(args), mods)


def listagg(o):
    over = None
    f = o.overflow_filler
    if f is not None:
        over = (f.filler, f.count_indication.name == "WITH_COUNT")
    if o.filter_ is not None or o.window is not None or _enum(o.null_treatment) != "RESPECT":
        raise Unreadable("LISTAGG modifiers")
    return ("listagg", expr(o.value), o.separator, over, order(o.orderby), bool(o.distinct))


def lam(o):
    return ("lambda", tuple(_name(v.name) for v in _seq(o.inputs)), expr(o.expr))


HANDLERS = {
    "Literal": literal,
    "Field": field,
    "Variable": lambda o: ("var", _name(o.name)),
    "Lambda": lam,
    "Positive": lambda o: ("pos", expr(o.value)),
    "Negative": lambda o: mk_neg(expr(o.value)),
    "Not": lambda o: mk_not(expr(o.value)),
    "And": lambda o: mk_and(expr(o.left), expr(o.right)),
    "Or": lambda o: mk_or(expr(o.left), expr(o.right)),
    "IsNull": lambda o: ("isnull", expr(o.value)),
    "DistinctFrom": lambda o: ("distinct", expr(o.left), expr(o.right)),
    "Between": lambda o: ("between", expr(o.value), expr(o.lower), expr(o.upper)),
    "Array": lambda o: ("array",) + tuple(expr(x) for x in _seq(o.values)),
    "RowConstructor": lambda o: ("row",) + tuple(expr(x) for x in _seq(o.values)),
    "InList": lambda o: ("in", expr(o.value), tuple(expr(x) for x in _seq(o.exprs))),
    "InQuery": lambda o: ("inq", expr(o.value), query(o.query)),
    "Like": lambda o: ("like", expr(o.value), expr(o.pattern), None if o.escape is None else expr(o.escape)),
    "TypeConstructor": lambda o: ("typed", o.type_name, _name(o.value)),
    "Interval": lambda o: ("interval", norm_interval(o.value), o.from_interval, o.to_interval),
    "Cast": lambda o: ("cast", expr(o.expr), dtype(o.data_type)),
    "TryCast": lambda o: ("trycast", expr(o.expr), dtype(o.data_type)),
    "Subscript": lambda o: ("sub", expr(o.value), expr(o.index)),
    "Case": case,
    "ListAgg": listagg,
    "Normalize": lambda o: ("normalize", expr(o.string), "NFC" if o.normal_form is None else o.normal_form.name),
    "CurrentDate": lambda o: ("special", "CURRENT_DATE", None),
    "CurrentTime": lambda o: ("special", "CURRENT_TIME", _intval(o.precision)),
    "CurrentTimestamp": lambda o: ("special", "CURRENT_TIMESTAMP", _intval(o.precision)),
    "LocalTime": lambda o: ("special", "LOCALTIME", _intval(o.precision)),
    "LocalTimestamp": lambda o: ("special", "LOCALTIMESTAMP", _intval(o.precision)),
    "CurrentUser": lambda o: ("special", "CURRENT_USER", None),
    "CurrentCatalog": lambda o: ("special", "CURRENT_CATALOG", None),
    "CurrentSchema": lambda o: ("special", "CURRENT_SCHEMA", None),
    "CurrentPath": lambda o: ("special", "CURRENT_PATH", None),
}


def is_query(o):
    return any(c.__name__ == "Query" for c in type(o).__mro__)


def relation(o):
    n = type(o).__name__
    if is_query(o):
        return ("subq", query(o))
    if n == "Table":
        return ("table", tuple(x for x in (o.catalog, o.schema, _name(o.name)) if x is not None))
    if n == "AliasedRelation":
        return ("alias", relation(o.relation), _name(o.alias),
                None if o.column_aliases is None else tuple(_name(c) for c in _seq(o.column_aliases)))
    if n == "Unnest":
        return ("unnest", tuple(expr(a) for a in _seq(o.arrays)), bool(o.with_ordinality))
    if n == "Lateral":
        return ("lateral", query(o.subquery))
    if n == "TableSample":
        p = expr(o.percentage)
        if p[0] in ("dbl", "dec"):
            p = num_key(p)
        return ("sample", relation(o.relation), _enum(o.sample_type), p)
    if n == "Join":
        c = o.config
        jt = {"OUTER": "FULL"}.get(_enum(c.join_type), _enum(c.join_type))
        crit = None
        if c.criteria is not None:
            if type(c.criteria).__name__ == "JoinOnCriteria":
                crit = ("on", expr(c.criteria.constraint))
            else:
                crit = ("using", tuple(_name(x) for x in _seq(c.criteria.column_names)))
        return ("join", jt, bool(c.natural), crit, relation(o.left_relation), relation(o.right_relation))
    raise Unreadable(f"relation {n}")


def item(o):
    n = type(o).__name__
    if n == "Star":
        return ("star", star_table(o.table))
    if n == "AliasedStar":
        return ("starals", star_table(o.star.table), tuple(_name(a) for a in _seq(o.aliases)))
    if n == "AliasedValue":
        return ("item", expr(o.value), _name(o.alias))
    return ("item", expr(o), None)


def star_table(t):
    if t is None or isinstance(t, str):
        return t or None
    return expr(t)


def group(g):
    n = type(g).__name__
    if n == "GroupingSet":
        return ("gset", tuple(expr(v) for v in _seq(g.values)))
    if n == "Rollup":
        return ("rollup", tuple(expr(v) for v in _seq(g.values)))
    if n == "Cube":
        return ("cube", tuple(expr(v) for v in _seq(g.values)))
    if n == "GroupingSetList":
        return ("gsets", tuple(group(x) for x in _seq(g.groups)))
    raise Unreadable(f"group {n}")


def query(o):
    n = type(o).__name__
    if n == "SelectQuery":
        g = None
        if o.groupby is not None:
            g = (_enum(o.groupby.groupby_quantifier), tuple(group(x) for x in _seq(o.groupby.groups)))
        wins = tuple((_name(k), window(w)) for k, w in (o.window or {}).items())
        body = ("select", _enum(o.select_quantifier), tuple(item(i) for i in _seq(o.select)),
                None if o.from_ is None else relation(o.from_), None if o.where is None else expr(o.where),
                g, None if o.having is None else expr(o.having), wins)
    elif n in ("UnionQuery", "ExceptQuery", "IntersectQuery"):
        body = ("setop", n[:-5].upper(), _enum(o.set_quantifier), query(o.left_query), query(o.right_query))
    elif n == "ValuesQuery":
        body = ("values",) + tuple(expr(e) for e in _seq(o.exprs))
    elif n == "TableQuery":
        body = ("tableq", relation(o.table)[1])
    else:
        raise Unreadable(f"query {n}")
    ctes = []
    for w in o.with_ or ():
        ctes.append((_name(w.alias), None if w.column_aliases is None else tuple(_name(c) for c in w.column_aliases),
                     query(w.relation)))
    return ("query", tuple(ctes), body, order(o.orderby),
            None if o.offset is None else _intval(o.offset), None if o.limit is None else _intval(o.limit))


def meaning(o):
    """Meaning of any tree: query, relation or expression."""
    if is_query(o):
        return query(o)
    if type(o).__name__ == "DataType":
        return dtype(o)
    if any(c.__name__ == "Relation" for c in type(o).__mro__):
        return relation(o)
    return expr(o)
