"""Generator of valid queries over a catalog of tables: every column reference is resolvable and well typed."""
from . import scope as S, typer as Y

NAMES = ["t", "u", "v", "Orders", "s", "x y", "w", "k"]
COLS = ["a", "b", "c", "d", "Amount", "e f", "select", "k", "n"]


def kind_of(t):
    """the generator's kind of a type; None when no expression of that kind is generated"""
    if t is None or t == Y.ANY:
        return None
    n = t[1]
    if Y.numeric(t):
        return ("num",)
    if n in ("VARCHAR", "CHAR"):
        return ("str",)
    if n in ("DATE", "TIMESTAMP"):
        return ("dt",)
    if n in ("ARRAY", "MAP", "ROW"):
        ks = tuple(kind_of(x) for x in t[2:])
        return None if None in ks else ({"ARRAY": "arr", "MAP": "map", "ROW": "row"}[n],) + ks
    return {"BOOLEAN": ("bool",), "TIME": ("time",), "INTERVAL": ("ivl", t), "VARBINARY": ("bin",), "JSON": ("json",)}.get(n)


def catalog(r, tg):
    """[(parts, columns)]: tables, some with the same name in several schemas"""
    out = []
    for name in r.sample(NAMES, r.randint(2, 5)):
        for _ in range(2 if r.random() < 0.12 else 1):
            parts = (name,)
            if r.random() < 0.4:
                parts = (r.choice(["s1", "S2"]),) + parts
                if r.random() < 0.4:
                    parts = ("cat",) + parts
            if any(S.low(p[-1]) == S.low(name) and (len(p) == 1 or len(parts) == 1 or tuple(map(S.low, p)) == tuple(map(S.low, parts))) for p, _ in out):
                continue
            cols = None
            if r.random() < 0.8:
                cols = tuple((c, None if r.random() < 0.05 else tg.type(tg.kind(2))) for c in r.sample(COLS, r.randint(1, 5)))
                if r.random() < 0.08:
                    # more columns than most
                    cols += tuple((f"x{i}", tg.type(tg.kind(1))) for i in range(r.choice([6, 12, 30])))
            out.append((parts, cols))
    return tuple(out)


class SG(Y.TG):
    def __init__(self, g, cat=None):
        super().__init__(g)
        g.vocab = ()
        self.column = self.pick
        self.cat = catalog(self.r, self) if cat is None else cat
        self.env = S.Env(self.cat)
        self.envs = [self.env]
        self.scope = S.Scope()
        self.size = 0
        self.env = {}

    def kind(self, d=1):
        """rather the kinds of columns in scope"""
        r = self.r
        s = getattr(self, "scope", None)
        if s is not None and r.random() < 0.55:
            while s.up is not None and (not s.cols or r.random() < 0.3):
                s = s.up
            ks = [k for k in (kind_of(c.type) for c in s.cols if c.name is not None and not c.many) if k and (d > 0 or k[0] not in ("arr", "map", "row"))]
            if ks:
                return r.choice(ks)
        return super().kind(d)

    def columns(self):
        return self.g.few(1, 3) if self.r.random() > 0.03 else self.r.choice([8, 14, 20])

    # -- references
    def pick(self, k):
        r = self.r
        s, up = self.scope, 0
        cands, vague = [], []
        while s is not None:
            for c in s.cols:
                if c.many:
                    if c.rel:
                        vague.append(("col", c.rel, r.choice(["q1", "q2"])))
                    continue
                if c.name is None:
                    continue
                refs = [("col", None, c.name)] + ([("col", c.rel, c.name)] if c.rel else [])
                for ref in refs:
                    f = self.scope.find(ref[1], ref[2])
                    if f is c:
                        if c.type is None:
                            vague.append(ref)
                        elif kind_of(c.type) == k:
                            cands.extend([ref] * (3 if up else 1))
                    elif f is None:
                        vague.append(ref)
            s, up = s.up, up + 1
        if vague and (r.random() < 0.08 or not cands and r.random() < 0.3):
            m = r.choice(vague)
        elif cands:
            m = r.choice(cands)
        else:
            return ("cast", ("null",), self.type(k)) if r.random() < 0.9 else ("null",)
        if r.random() < 0.1:
            m = ("col", self.recase(m[1]), self.recase(m[2]))
        return m

    def recase(self, s):
        return None if s is None else self.r.choice([s.upper(), s.lower(), s.swapcase()])

    def within(self, scope, f):
        old, self.scope = self.scope, scope
        try:
            return f()
        finally:
            self.scope = old

    def item_alias(self, e):
        """a name for a select item, at times that of the column in another spelling"""
        r = self.r
        if e[0] == "col" and r.random() < 0.25:
            return r.choice([e[2], self.recase(e[2]), self.recase(e[2]), e[1] or e[2]])
        return r.choice([None, r.choice(COLS)])

    # -- queries
    def query(self, ks, d):
        """a subquery in an expression"""
        env = self.envs[-1].inside(self.scope)
        return self.full(env, d, ks)

    def full(self, env, d, ks=None, named=True):
        """a query; ks: the kinds of its columns"""
        r = self.r
        self.size += 1
        if self.size > 14:
            d = 0
        ctes = []
        for _ in range(r.choice([0, 0, 1, 2]) if d > 1 and named else 0):
            name = r.choice(NAMES)
            if name.lower() in {c[0].lower() for c in ctes}:
                continue
            q = self.full(env, d - 1)
            cols = self.names_for(S.query(q, env), 0.4)
            ctes.append((name, cols, q))
            env = S.with_env((None, (ctes[-1],)), env)
        x = r.random()
        if ks is None and x < 0.12 or d <= 0 and x < 0.1:
            body = None
            if ks is None:
                body = ("tableq", self.table_parts(env))
            if body is None:
                body = self.values(env, ks, d)
        elif x < 0.22:
            body = self.values(env, ks, d)
        elif x < 0.36 and d > 0:
            if ks is None and r.random() < 0.25:
                q = self.full(env, d - 1, named=False)
                body = ("setop", r.choice(["UNION", "INTERSECT", "EXCEPT"]), "DISTINCT", q, q)
            else:
                ks = ks or [self.kind(1) for _ in range(self.columns())]
                body = ("setop", r.choice(["UNION", "INTERSECT", "EXCEPT"]), "DISTINCT", self.full(env, d - 1, ks, False), self.full(env, d - 1, ks, False))
                if body[1] == "UNION" and r.random() < 0.5:
                    body = body[:2] + ("ALL",) + body[3:]
        else:
            body = self.select(env, d, ks)
        return ("query", tuple(ctes), body, (), None, r.choice([None, None, 5]))

    def names_for(self, cols, p):
        """column aliases for columns"""
        r = self.r
        if r.random() > p:
            return None
        n = len(cols) + (r.randint(0, 2) if any(c.many for c in cols) else 0)
        return tuple(r.sample(COLS, n)) if n <= len(COLS) and n else None

    def values(self, env, ks, d):
        r = self.r
        ks = ks or [self.kind(1) for _ in range(self.columns())]

        def make():
            rowed = len(ks) > 1 or r.random() < 0.3 or ks[0][0] == "row"
            rows = [tuple(self.expr(k, min(d, 1)) for k in ks) for _ in range(self.columns())]
            return ("values",) + tuple(("row",) + x if rowed else x[0] for x in rows)
        return self.inside_env(env, S.Scope(up=env.outer), make)

    def inside_env(self, env, scope, f):
        self.envs.append(env)
        try:
            return self.within(scope, f)
        finally:
            self.envs.pop()

    def select(self, env, d, ks):
        r = self.r
        rel = self.relation(env, d) if r.random() < 0.85 else None
        scope = S.Scope(*(S.relation(rel, env) if rel is not None else ([], set())), up=env.outer)

        def make():
            items = []
            ed = r.choice([0, 1, 2]) if d > 0 else r.choice([0, 1])
            for k in ks if ks is not None else range(self.g.few(1, 4)):
                x = r.random()
                if ks is None and rel is not None and x < 0.3:
                    ids = sorted({c.rel for c in scope.cols if c.rel} & scope.ids)
                    base = r.choice(ids) if ids and r.random() < 0.5 else None
                    items.append(("star", base))
                    if base is not None and r.random() < 0.3:
                        names = self.names_for(scope.star(base) or [S.Col(None, None, None, True)], 1)
                        if names:
                            items[-1] = ("starals", base, names)
                    continue
                k = self.kind(1) if ks is None else k
                if ks is None and r.random() < 0.4:
                    # a plain column of whatever kind
                    s = scope
                    while s.up is not None and s.up.cols and (not s.cols or r.random() < 0.5):
                        s = s.up
                    named = [c for c in s.cols if c.name is not None and not c.many]
                    if named:
                        c = r.choice(named)
                        refs = [x for x in [("col", None, c.name), ("col", c.rel, c.name)] if scope.find(x[1], x[2]) is c]
                        if refs:
                            e = r.choice(refs)
                            items.append(("item", e, self.item_alias(e) if r.random() < 0.7 else None))
                            continue
                e = self.expr(k, ed)
                items.append(("item", e, self.item_alias(e)))
            where = self.expr(("bool",), 1) if r.random() < 0.25 else None
            group = ("ALL", (("gset", (self.expr(self.kind(0), 0),)),)) if r.random() < 0.12 else None
            having = self.expr(("bool",), 1) if r.random() < 0.08 else None
            return ("select", r.choice(["ALL", "DISTINCT"]), tuple(items), rel, where, group, having, ())
        return self.inside_env(env, scope, make)

    # -- relations
    def table_parts(self, env):
        r = self.r
        x = r.random()
        if x < 0.25 and env.ctes:
            return (r.choice(sorted(env.ctes)),)
        if x < 0.85:
            parts = r.choice(self.cat)[0]
            y = r.random()
            if y < 0.2 and len(parts) > 1:
                parts = parts[1:]
            elif y < 0.3 and len(parts) < 3:
                parts = (r.choice(["s1", "S2", "other"]) if len(parts) == 1 else "cat",) + parts
            if r.random() < 0.15:
                parts = tuple(map(self.recase, parts))
            return parts
        return (r.choice(NAMES + ["nowhere"]),)

    def relation(self, env, d, lateral=None):
        r = self.r
        if lateral is None:
            lateral = S.Scope(up=env.outer)
        x = r.random()
        if d <= 0 or x < 0.2:
            m = ("table", self.table_parts(env))
            if r.random() < 0.3:
                m = self.alias(m, env, lateral)
            return m
        if x < 0.32:
            m = ("subq", self.full(env, d - 1))
            return self.alias(m, env, lateral) if r.random() < 0.8 else m
        if x < 0.4:
            m = ("subq", ("query", (), self.values(env, None, 1), (), None, None))
            return self.alias(m, env, lateral) if r.random() < 0.9 else m
        if x < 0.5:
            m = self.unnest(env, lateral)
            return self.alias(m, env, lateral) if r.random() < 0.85 else m
        if x < 0.56:
            m = ("lateral", self.full(env.inside(lateral), d - 1))
            return self.alias(m, env, lateral) if r.random() < 0.8 else m
        if x < 0.62:
            return ("sample", self.relation(env, d - 1, lateral), "SYSTEM", ("int", 10))
        if x < 0.7:
            return self.alias(self.relation(env, d - 1, lateral), env, lateral)
        return self.join(env, d, lateral)

    def alias(self, m, env, lateral):
        if m[0] == "alias":
            return m
        cols, _ = S.relation(m, env, lateral)
        return ("alias", m, self.r.choice(NAMES), self.names_for(cols, 0.6 if m[0] in ("unnest", "subq") else 0.25))

    def unnest(self, env, lateral):
        r = self.r

        def make():
            out = []
            for _ in range(r.choice([1, 1, 1, 2, 3])):
                k = r.choice([("arr", self.kind(1)), ("arr", ("row", self.kind(0), self.kind(0))), ("map", ("str",), self.kind(0)), None])
                if k is None:
                    ks = [kind_of(c.type) for c in lateral.cols if c.type not in (None, Y.ANY) and c.type[1] in ("ARRAY", "MAP")]
                    k = r.choice([x for x in ks if x] or [("arr", ("num",))])
                out.append(self.expr(k, r.choice([0, 0, 1])))
            return ("unnest", tuple(out), r.random() < 0.3)
        return self.inside_env(env, lateral, make)

    def join(self, env, d, lateral):
        r = self.r
        left = self.relation(env, d - 1, lateral)
        lc, li = S.relation(left, env, lateral)
        ls = S.Scope(lc, li, env.outer)
        x = r.random()
        if x < 0.3:
            right = self.unnest(env, ls) if r.random() < 0.6 else ("lateral", self.full(env.inside(ls), d - 1))
            if r.random() < 0.85:
                right = self.alias(right, env, ls)
            rl = ls
        else:
            right = self.relation(env, d - 1, lateral)
            rl = ls if S.lateral_kind(right) else lateral
        rc, ri = S.relation(right, env, rl)
        if li & ri:
            # the same relation twice: give one of them another name
            free = [n for n in NAMES + ["r1", "r2", "r3"] if n.lower() not in li | ri]
            right = ("alias", right[1] if right[0] == "alias" else right, r.choice(free), None)
            rc, ri = S.relation(right, env, rl)
        jt = r.choice(["CROSS", "INNER", "LEFT", "RIGHT", "FULL"])
        if jt == "CROSS":
            return ("join", jt, False, None, left, right)
        x = r.random()
        if x < 0.35:
            def uniq(cols):
                out = {}
                for c in cols:
                    if c.name is not None and not c.many:
                        out.setdefault(c.name.lower(), []).append(c)
                return {n: v[0] for n, v in out.items() if len(v) == 1}
            a, b = uniq(lc), uniq(rc)
            both = [n for n in a if n in b and (None in (a[n].type, b[n].type) or Y.join(a[n].type, b[n].type) is not None)]
            if any(c.many for c in rc):
                both += [n for n in a if n not in {S.low(c.name) for c in rc}]
            if both:
                return ("join", jt, False, ("using", tuple(r.sample(both, r.randint(1, min(2, len(both)))))), left, right)
        if x < 0.45:
            return ("join", jt, True, None, left, right)
        scope = S.Scope(lc + rc, li | ri, env.outer)
        on = self.inside_env(env, scope, lambda: self.expr(("bool",), 1))
        return ("join", jt, False, ("on", on), left, right)
