"""Canonical meanings: the vocabulary the monitors compare in (nested tuples). See DESIGN.md for the node list."""
from .funcs import PLAIN_TYPES
from .lexer import RefError

CMP_NEG = {"=": "<>", "<>": "="}


def mk_and(a, b):
    return ("and",) + (a[1:] if a[0] == "and" else (a,)) + (b[1:] if b[0] == "and" else (b,))


def mk_or(a, b):
    return ("or",) + (a[1:] if a[0] == "or" else (a,)) + (b[1:] if b[0] == "or" else (b,))


def mk_not(x):
    if x[0] == "cmp" and x[1] in CMP_NEG:
        return ("cmp", CMP_NEG[x[1]], x[2], x[3])
    return ("not", x)


def mk_neg(x):
    """The sign of a number is part of the number."""
    if x[0] == "int" and x[1] >= 0:
        return ("int", -x[1])
    if x[0] == "dec" and x[1] >= 0:
        return ("dec", -x[1], x[2])
    if x[0] == "dbl" and not x[1].startswith("-"):
        return ("dbl", repr(-float(x[1])))
    return ("neg", x)


def norm_interval(s, neg=False):
    """Only one sign: the one outside of the quotes is folded into the text."""
    if s.startswith("+"):
        s = s[1:]
    if neg:
        s = s[1:] if s.startswith("-") else "-" + s
    return s


def canon_type(name, params):
    """('type', NAME, params...) with defaults filled in; RefError when the parameters are invalid."""
    if name in ("TIME", "TIMESTAMP"):
        p, tz = params
        if p is not None and not 0 <= p <= 12:
            raise RefError("precision")
        return ("type", name, p, tz)
    if name == "INTERVAL":
        if params not in (("YEAR", "MONTH"), ("DAY", "SECOND")):
            raise RefError("interval type")
        return ("type", name) + params
    if name == "ROW":
        if not params:
            raise RefError("empty row")
        return ("type", name) + tuple(params)
    if name == "DECIMAL":
        p, s = (tuple(params) + (38, 0)[len(params):])
        if not (1 <= p <= 38 and 0 <= s <= p):
            raise RefError("decimal range")
        return ("type", name, p, s)
    if name == "VARCHAR":
        n = params[0] if params else None
        if n is not None and not 0 <= n < 2 ** 31 - 1:
            raise RefError("varchar range")
        return ("type", name, n)
    if name == "CHAR":
        n = params[0] if params else 1
        if not 0 <= n <= 65536:
            raise RefError("char range")
        return ("type", name, n)
    return ("type", name) + tuple(params)


def type_meaning(name, params):
    """A generic type NAME(params) as written in SQL."""
    def is_t(x):
        return isinstance(x, tuple)
    ints = all(isinstance(p, int) for p in params)
    types = all(is_t(p) for p in params)
    n = len(params)
    if name in PLAIN_TYPES or name == "UNKNOWN":
        if n:
            raise RefError("parameters on a plain type")
        return ("type", name)
    if name == "DECIMAL" and ints and n <= 2:
        return canon_type(name, params)
    if name in ("VARCHAR", "CHAR") and ints and n <= 1:
        return canon_type(name, params)
    if name in ("ARRAY", "QDIGEST") and types and n == 1:
        return canon_type(name, params)
    if name == "MAP" and types and n == 2:
        return canon_type(name, params)
    raise RefError(f"bad type {name}")


def canon(m):
    """Rebuilds a meaning bottom-up through the canonicalising constructors (for meanings made by the generator)."""
    if not isinstance(m, tuple):
        return m
    if not m or not isinstance(m[0], str):
        return tuple(canon(c) for c in m)
    k = m[0]
    if len(m) == 2 and isinstance(m[1], bool):
        return m  # a boolean, or the filler of an overflowing LISTAGG
    if all(isinstance(x, str) for x in m) and not (k == "interval" and len(m) == 4 and m[2].isupper()):
        return m  # among them lists of names
    if k in ("str", "bool", "int", "dbl", "typed", "var", "special", "type"):
        return m if k != "type" else ("type", m[1]) + tuple(canon(c) for c in m[2:])
    m = (k,) + tuple(canon(c) for c in m[1:])
    if k == "and":
        r = m[1]
        for x in m[2:]:
            r = mk_and(r, x)
        return r
    if k == "or":
        r = m[1]
        for x in m[2:]:
            r = mk_or(r, x)
        return r
    if k == "not" and len(m) == 2:
        return mk_not(m[1])
    if k == "neg" and len(m) == 2:
        return mk_neg(m[1])
    if k == "dec":
        return m
    if k == "interval":
        return ("interval", norm_interval(m[1])) + m[2:]
    if k == "sample":
        p = m[3]
        if p[0] == "dbl":
            p = num_key(p)
        elif p[0] == "dec":
            p = num_key(p)
        return m[:3] + (p,)
    return m


def num_key(p):
    from decimal import Decimal
    if p[0] == "dbl":
        d = Decimal(repr(float(p[1])))
    else:
        d = Decimal(p[1]).scaleb(-p[2]) if abs(p[1]) < 10 ** 27 else Decimal(f"{p[1]}E-{p[2]}")
    return ("num", str(d.normalize()))


def walk(m):
    if isinstance(m, tuple):
        yield m
        for c in m:
            yield from walk(c)


def diff(a, b, path=()):
    """First place where two meanings differ (for reports)."""
    if isinstance(a, tuple) and isinstance(b, tuple) and len(a) == len(b):
        for i, (x, y) in enumerate(zip(a, b)):
            if x != y or type(x) is not type(y):
                return diff(x, y, path + (i,))
        return None
    if a == b and type(a) is type(b):
        return None
    return {"at": list(path), "expected": repr(a)[:300], "got": repr(b)[:300]}


def same(a, b):
    """Exact comparison (True is not 1)."""
    if isinstance(a, tuple) and isinstance(b, tuple):
        return len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    return type(a) is type(b) and a == b
