"""Scoping rules of SQL over meanings: the output columns of queries and relations. Shares no code with treeno.

Types as in typer: None is unknown, ANY makes no claim (the query is invalid at that point).
"""
from . import typer as Y

ANY = Y.ANY
STATS = {"outer": 0}


class Col:
    __slots__ = ("name", "type", "rel", "many")

    def __init__(self, name, type, rel=None, many=False):
        self.name, self.type, self.rel, self.many = name, type, rel, many

    def of(self, rel):
        return Col(self.name, self.type, rel, self.many)

    def __repr__(self):
        return f"{self.rel}.{self.name}:{'*' if self.many else self.type}"


def low(x):
    return None if x is None else x.lower()


class Scope:
    """columns which expressions can refer to; ids: names of the relations; up: the scope of the enclosing query"""

    def __init__(self, cols=(), ids=(), up=None):
        self.cols, self.ids, self.up = list(cols), set(ids), up

    def many(self, rel=False):
        return any(c.many and (rel is False or c.rel in (None, rel)) for c in self.cols)

    def find(self, table, name):
        """the column, or None if it can't be known, or ANY if there's no such column or it is ambiguous"""
        t, n = low(table), low(name)
        s = self
        while s is not None:
            m = [c for c in s.cols if low(c.name) == n and not c.many and (t is None or c.rel == t)]
            if len(m) == 1:
                if s is not self:
                    STATS["outer"] += 1
                return m[0]
            if m:
                return ANY
            if t is not None:
                if t in s.ids:
                    return None if s.many(t) else ANY
                if any(low(c.name) == t for c in s.cols):
                    return None
            if s.many():
                return None
            s = s.up
        return ANY

    def star(self, table):
        """the columns of a star; None if nothing is known of them"""
        if table is None:
            return self.cols or None
        if not isinstance(table, str):
            return None
        s = self
        while s is not None:
            if low(table) in s.ids:
                return [c for c in s.cols if c.rel == low(table)] or ([Col(None, None, low(table), True)] if s.many() else None)
            s = s.up
        return None


class Env:
    """tables: [(parts, [(name, type)] or None)] with parts from catalog to name; ctes: {name: [Col]}; outer: Scope of the enclosing query"""

    def __init__(self, tables, ctes=None, outer=None):
        self.tables, self.ctes, self.outer = tables, ctes or {}, outer

    def inside(self, outer):
        return Env(self.tables, self.ctes, outer)

    def with_cte(self, name, cols):
        return Env(self.tables, {**self.ctes, low(name): cols}, self.outer)

    def table(self, parts):
        parts = tuple(map(low, parts))
        if len(parts) == 1 and parts[0] in self.ctes:
            return [c.of(parts[0]) for c in self.ctes[parts[0]]]
        found = []
        for p, cols in self.tables:
            p = tuple(map(low, p))
            k = min(len(p), len(parts))
            if p[-k:] == parts[-k:] and cols:
                found.append((p, cols))
        exact = [f for f in found if f[0] == parts]
        found = exact or found
        if len(found) == 1:
            return [Col(n, t, parts[-1]) for n, t in found[0][1]]
        return [Col(None, None, parts[-1], True)]


def typer(scope, env):
    def lookup(table, name):
        c = scope.find(table, name)
        return c if c is None or c == ANY else c.type

    def sub(q):
        cols = query(q, env.inside(scope))
        return None if any(c.many for c in cols) else [c.type for c in cols]
    return Y.Typer(lookup, sub)


def rename(cols, names):
    at = [i for i, c in enumerate(cols) if c.many]
    rel = cols[0].rel if cols else None
    if not at:
        if len(cols) != len(names):
            return [Col(n, ANY, rel) for n in names]
        types = [c.type for c in cols]
    else:
        pre, post = cols[:at[0]], cols[at[-1] + 1:]
        k = len(names) - len(pre) - len(post)
        types = [ANY] * len(names) if k < 0 else [c.type for c in pre] + [None] * k + [c.type for c in post]
    return [Col(n, t, rel) for n, t in zip(names, types)]


def unnested(t):
    if t is None or t == ANY or t[1] not in ("ARRAY", "MAP"):
        return [Col(None, None, None, True)]
    if t[1] == "MAP":
        return [Col(None, t[2]), Col(None, t[3])]
    if t[2] is None or t[2] == ANY:
        return [Col(None, None, None, True)]
    return [Col(None, x) for x in t[2][2:]] if t[2][1] == "ROW" else [Col(None, t[2])]


def lateral_kind(m):
    return m[0] in ("unnest", "lateral") or m[0] == "alias" and lateral_kind(m[1])


def relation(m, env, lateral=None):
    """(columns, relation ids); lateral: Scope which UNNEST and LATERAL see"""
    if lateral is None:
        lateral = Scope(up=env.outer)
    k = m[0]
    if k == "table":
        return env.table(m[1]), {low(m[1][-1])}
    if k == "alias":
        cols, _ = relation(m[1], env, lateral)
        cols = [c.of(low(m[2])) for c in cols]
        return (rename(cols, m[3]) if m[3] else cols), {low(m[2])}
    if k == "subq":
        return [c.of(None) for c in query(m[1], env)], set()
    if k == "lateral":
        return [c.of(None) for c in query(m[1], env.inside(lateral))], set()
    if k == "unnest":
        ty = typer(lateral, env)
        return [c for e in m[1] for c in unnested(ty(e))] + ([Col(None, Y.BIGINT)] if m[2] else []), set()
    if k == "sample":
        return relation(m[1], env, lateral)
    _, jt, natural, crit, l, r = m
    lc, li = relation(l, env, lateral)
    rc, ri = relation(r, env, Scope(lc, li, env.outer) if lateral_kind(r) else lateral)
    ids = li | ri
    names = []
    if natural:
        if any(c.many for c in lc + rc):
            return [Col(None, None, None, True)], ids
        names = [c.name for c in lc if c.name is not None and any(low(d.name) == low(c.name) for d in rc)]
    elif crit and crit[0] == "using":
        names = crit[1]
    out = []
    for n in names:
        sides = [[c for c in s if low(c.name) == low(n) and not c.many] for s in (lc, rc)]
        if any(len(x) > 1 for x in sides) or any(not x and not any(c.many for c in s) for x, s in zip(sides, (lc, rc))):
            t = ANY
        elif not all(sides):
            t = None
        else:
            t = Y.join(sides[0][0].type, sides[1][0].type)
        out.append(Col(n, t))
    used = {low(n) for n in names}
    return out + [c for c in lc + rc if low(c.name) not in used or c.name is None], ids


def with_env(q, env):
    for name, cols, sub in q[1]:
        got = query(sub, env)
        env = env.with_cte(name, rename(got, cols) if cols else got)
    return env


def scope_of(body, env):
    """the scope of the expressions of a SELECT"""
    cols, ids = relation(body[3], env) if body[3] is not None else ([], set())
    return Scope(cols, ids, env.outer)


def item_name(i):
    if i[2] is not None:
        return i[2]
    return i[1][2] if i[1][0] in ("col", "deref") else None


def query(q, env):
    """the output columns of a query"""
    env = with_env(q, env)
    b = q[2]
    k = b[0]
    if k == "select":
        scope = scope_of(b, env)
        ty = typer(scope, env)
        out = []
        for i in b[2]:
            if i[0] == "item":
                out.append(Col(item_name(i), ty(i[1])))
                continue
            cols = scope.star(i[1])
            cols = [Col(None, None, None, True)] if cols is None else cols
            out.extend(rename(cols, i[2]) if i[0] == "starals" else cols)
        return [c.of(None) for c in out]
    if k == "values":
        return [Col(None, t) for t in typer(Scope(up=env.outer), env).values(b[1:])]
    if k == "tableq":
        return [c.of(None) for c in env.table(b[1])]
    _, _, _, l, r = b
    lc, rc = query(l, env), query(r, env)
    if any(c.many for c in lc + rc):
        return [Col(c.name, None, None, c.many) for c in lc]
    if len(lc) != len(rc):
        return [Col(c.name, ANY) for c in lc]
    return [Col(x.name, Y.join(x.type, y.type)) for x, y in zip(lc, rc)]
