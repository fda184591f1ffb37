"""Results do not depend on threads or hash seeds."""
import hashlib
import os
import pickle
import random
import subprocess
import sys
import threading

from .. import core, gen as G, objbuild, probe as P, scope as S, scopegen, treewalk as T
from . import c12, c13, c15

ID = "C18"
RULE = ("groups of related and unrelated inputs; for each the digest of everything the library computes (tree, equality, every printed form, schema, types, errors) is taken "
        "alone in a process. First monitor: 2 to 5 threads handle the inputs at once; a scheduler passes the turn on at randomly chosen lines or bytecode instructions of the "
        "library (and lines of the parser runtime and generated parser), or the interpreter switches on its own at very short intervals; every digest must be the one taken alone. Second monitor: processes "
        "of their own with other hash seeds and other orders of the inputs must compute the same digests. Non-trivial: distinct schedules and distinct inputs per hash seed")
NEED = {"digests in threads": 250, "switches inside the library": 6000, "places switched at": 500, "distinct schedules": 24, "digests under other hash seeds": 400, "hash seeds": 8}
ASSUMPTIONS = ["threads work on inputs and trees of their own", "schedules switch at lines or bytecode instructions of Python code, as CPython with its global lock can"]
WARM = False
TOOL = 3


class Turns:
    """Only the thread whose turn it is runs. The turn is passed on after randomly many events (lines or instructions) in the code under test."""

    def __init__(self, n, r, mean, runtime):
        self.n, self.r, self.mean = n, r, mean
        self.events = [threading.Event() for _ in range(n)]
        self.who = {}
        self.alive = set(range(n))
        self.left = 1
        self.switches, self.places, self.stalls = 0, set(), 0
        self.h = hashlib.blake2b(digest_size=8)
        self.scope = (os.path.join(core.REPO, "treeno") + os.sep,) + ((os.sep + "antlr4" + os.sep,) if runtime else ())
        self.skip = () if runtime else (os.sep + "gen" + os.sep,)
        self.ok = {}

    def inside(self, code):
        f = code.co_filename
        if f not in self.ok:
            self.ok[f] = any(s in f for s in self.scope) and not any(s in f for s in self.skip)
        return self.ok[f]

    def event(self, code, where):
        if not self.inside(code):
            return sys.monitoring.DISABLE
        me = self.who.get(threading.get_ident())
        if me is None:
            return
        self.left -= 1
        if self.left > 0 or self.stalls > 3:
            return
        self.left = 1 + int(self.r.expovariate(1 / self.mean))
        others = sorted(self.alive - {me})
        if not others:
            return
        to = self.r.choice(others)
        self.switches += 1
        self.places.add((os.path.basename(code.co_filename), code.co_name, where))
        self.h.update(f"{code.co_name}:{where}>{to};".encode())
        self.pass_on(me, to)

    def pass_on(self, me, to):
        self.events[me].clear()
        self.events[to].set()
        if not self.events[me].wait(3):
            # the thread whose turn it is waits for something this thread has (a lock): both go on
            self.stalls += 1

    def start(self, me):
        self.who[threading.get_ident()] = me
        self.events[me].wait(5)

    def end(self, me):
        self.alive.discard(me)
        self.who.pop(threading.get_ident(), None)
        if self.alive:
            self.events[self.r.choice(sorted(self.alive))].set()


# every construct which holds several things: nothing may depend on the order of a set or of the addresses in memory
WIDE = """
query: SELECT a, b, c, d, e FROM t
query: SELECT a AS z, b AS y, c AS x, d AS w FROM t ORDER BY a, b, c, d, e
query: SELECT t.*, u.*, v.* FROM t CROSS JOIN u CROSS JOIN v CROSS JOIN w
query: SELECT t.* AS (a, b, c, d, e) FROM t
query: SELECT 1 FROM t JOIN u USING (c1, c2, c3, c4, c5)
query: SELECT 1 FROM t AS x (c5, c4, c3, c2, c1)
query: SELECT 1 FROM UNNEST(a, b, c, d, e) WITH ORDINALITY
query: SELECT 1 FROM a JOIN b ON a.x = b.x LEFT JOIN c ON b.y = c.y FULL JOIN d ON c.z = d.z CROSS JOIN e
query: WITH a AS (SELECT 1), b AS (SELECT 2), c AS (SELECT 3), d (p, q, r) AS (SELECT 4, 5, 6), e AS (SELECT * FROM a) SELECT * FROM a, b
query: WITH a AS (SELECT 1 AS k), b AS (SELECT 2 AS l), c AS (SELECT 3 AS m) SELECT * FROM c CROSS JOIN b CROSS JOIN a
query: SELECT 1 FROM t GROUP BY a, b, c, d, e
query: SELECT 1 FROM t GROUP BY (a, b, c), d, (e, f)
query: SELECT 1 FROM t GROUP BY ROLLUP (a, b, c, d, e)
query: SELECT 1 FROM t GROUP BY CUBE (a, b, c, d, e)
query: SELECT 1 FROM t GROUP BY GROUPING SETS ((a, b), (c), (), (d, e), (a, c, e))
query: SELECT SUM(x) OVER w1, SUM(x) OVER w2, SUM(x) OVER w3 FROM t WINDOW w1 AS (PARTITION BY a, b, c, d), w2 AS (w1 ORDER BY e, f, g), w3 AS (w2 ROWS 3 PRECEDING)
query: SELECT SUM(x) OVER (PARTITION BY a, b, c, d, e ORDER BY f, g DESC, h NULLS FIRST, i) FROM t
query: VALUES (1, 'a', 1.5, DATE '2020-01-01', TRUE), (2, 'bb', 2.25, DATE '2020-01-02', FALSE), (3, 'ccc', 10.125, NULL, NULL)
query: SELECT 1 UNION SELECT 2 UNION ALL SELECT 3 INTERSECT SELECT 4 EXCEPT SELECT 5
query: SELECT 1 AS a, 'x' AS b, 2.5 AS c UNION SELECT 2.5, 'yyy', 1 UNION SELECT 1E0, 'z', 3
query: SELECT a, b FROM t WHERE a = 1 AND b = 2 AND c = 3 AND d = 4 OR e = 5 OR f = 6 OR g = 7
query: SELECT 1 FROM a TABLESAMPLE BERNOULLI (10) CROSS JOIN b TABLESAMPLE SYSTEM (20) CROSS JOIN LATERAL (SELECT a.x)
expr: a IN (e, d, c, b, a, 5, 4, 3, 2, 1)
expr: ARRAY[e, d, c, b, a]
expr: ARRAY[1, 2.5, 3E0, 100000000000]
expr: ROW(e, d, c, b, a)
expr: (e, d, c, b, a)
expr: (e, d, c, b, a) -> a + b + c + d + e
expr: COALESCE(e, d, c, b, a)
expr: CONCAT(e, d, c, b, a)
expr: CASE x WHEN e THEN 1 WHEN d THEN 2.5 WHEN c THEN 3E0 WHEN b THEN 4 ELSE 5 END
expr: CASE WHEN e THEN 'a' WHEN d THEN 'bb' WHEN c THEN 'ccc' WHEN b THEN 'dddd' END
expr: ARRAY_AGG(DISTINCT x ORDER BY e, d DESC, c NULLS FIRST, b, a) FILTER (WHERE y)
expr: LISTAGG(x, ',') WITHIN GROUP (ORDER BY e, d, c, b, a)
expr: GREATEST(e, d, c, b, a)
expr: REPLACE(a, b, c)
expr: LPAD(a, b, c)
expr: APPROX_PERCENTILE(a, b, c)
expr: DATE_DIFF(a, b, c)
expr: CAST(x AS ROW(BIGINT, VARCHAR(3), DECIMAL(10,2), ARRAY(DATE), MAP(INTEGER, TIMESTAMP(6) WITH TIME ZONE)))
type: ROW(BIGINT, VARCHAR(3), DECIMAL(10,2), ARRAY(DATE), MAP(INTEGER, TIMESTAMP(6) WITH TIME ZONE))
type: DECIMAL(10, 2)
type: TIMESTAMP(6) WITH TIME ZONE
""".strip().splitlines()
WIDE = [tuple(x.split(": ", 1)) for x in WIDE]


def tasks_of(seed, n):
    tasks = []
    while len(tasks) < n:
        tasks += c13.family_of(random.Random(f"c18/{seed}/{len(tasks)}"), seed * 1000 + len(tasks), 3)
    return tasks[:n]


def guarded(t):
    try:
        return c13.digest(t)
    except Exception as e:
        return [("failed", core.exc_text(e))]


def dense(r, seed):
    """an input of many small parts, so that threads which take turns every few lines are in the middle of them"""
    g = G.Gen(r, odd=0.05)
    if r.random() < 0.6:
        m = ("row",) + tuple(g.build(r.choice(P.OPS), [None] * 9) for _ in range(6))
        return ("expr", "text", P.text_of(m, "expr", r, False), (), seed)
    sg = scopegen.SG(G.Gen(r, odd=0.03))
    return ("query", "text", P.text_of(sg.full(S.Env(sg.cat), 2), "query", r, False), sg.cat, seed)


def prepared(task, what):
    """-> a function which does one thing with the input, and gives its result as a list of (step, result)"""
    kind, _, text, cat, seed = task
    if what == "parse":
        return lambda: [("parse", repr(T.snapshot(P.parse(kind, text))))]
    o = P.parse(kind, text)
    if what == "print":
        return lambda: [("print", P.show(o)), ("pretty", P.show(o, True)), ("narrow", P.show(o, True, 1)), ("print again", P.show(o))]
    if what == "compare":
        p = P.parse(kind, text)
        Recorder = c15.recorder()

        def visit():
            v = Recorder()
            v.visit(o)
            return repr([type(x).__name__ for x in v.log])
        return lambda: [("equals", repr((o.equals(p), p.equals(o), p.equals(o)))), ("visit", visit()), ("repr", repr(o))]
    schema = c12.schema_of(cat, objbuild.Builder(random.Random(seed)))
    if kind == "query":
        return lambda: [("resolve", repr(c12.describe(o.resolve(schema).fields))), ("resolved", repr(T.snapshot(o)))]
    from treeno.datatypes.resolve import resolve_fields
    return lambda: [("impute", repr(T.snapshot(resolve_fields(o, schema))))]


def done(f):
    try:
        return f()
    except Exception as e:
        return [("failed", core.exc_text(e))]


def in_threads(tasks, nthreads, mode, seed, what=None):
    """-> digests of the tasks handled in several threads, what was observed"""
    if what:
        fs = [prepared(t, what) for t in tasks]
        handle = lambda i: done(fs[i])  # noqa: E731
    else:
        handle = lambda i: guarded(tasks[i])  # noqa: E731
    r = random.Random(f"threads/{seed}")
    order = list(range(len(tasks)))
    r.shuffle(order)
    parts = [order[k::nthreads] for k in range(nthreads)]
    out = {}
    how, mean = mode
    turns = None
    old = sys.getswitchinterval()
    mon = sys.monitoring
    if how == "free":
        sys.setswitchinterval(mean)
        gate = threading.Barrier(nthreads)
        active, overlaps = set(), set()

        def body(k):
            gate.wait(30)
            for i in parts[k]:
                active.add(i)
                overlaps.update((min(i, j), max(i, j)) for j in list(active) if j != i)
                out[i] = handle(i)
                active.discard(i)
    else:
        turns = Turns(nthreads, r, mean, how == "runtime")
        kind = mon.events.INSTRUCTION if how == "instructions" else mon.events.LINE

        def body(k):
            turns.start(k)
            try:
                for i in parts[k]:
                    out[i] = handle(i)
            finally:
                turns.end(k)
        mon.use_tool_id(TOOL, "turns")
        mon.register_callback(TOOL, kind, turns.event)
        mon.set_events(TOOL, kind)
    threads = [threading.Thread(target=body, args=(k,)) for k in range(nthreads)]
    try:
        for t in threads:
            t.start()
        if turns:
            turns.events[0].set()
        for t in threads:
            t.join()
    finally:
        if turns:
            mon.set_events(TOOL, 0)
            mon.register_callback(TOOL, kind, None)
            mon.free_tool_id(TOOL)
        sys.setswitchinterval(old)
    if turns:
        return out, dict(switches=turns.switches, places=turns.places, schedule=turns.h.hexdigest(), stalls=turns.stalls)
    return out, dict(overlaps=len(overlaps))


def compare(ctx, case, tasks, alone, got, mech, detail):
    for i, d in sorted(got.items()):
        if d != alone[i]:
            a, b = next((p, q) for p, q in zip(alone[i] + [None], d + [None]) if p != q)
            ctx.violation(f"{mech}:{(a or b)[0]}", case, {"input": repr(tasks[i][2])[:500], **detail, "step": (a or b)[0], "alone": str(a)[:800], "then": str(b)[:800]})
            return


def one(ctx, case):
    if case[0] in ("threads", "dense"):
        _, seed, ntasks, nthreads, mode = case[:5]
        what = None
        # one process does nothing but this input
        if case[0] == "dense":
            what = case[5]
            tasks = [dense(random.Random(f"dense/{seed}/{i}"), seed * 100 + i) for i in range(ntasks)]
            alone = c13.in_child(lambda: [done(prepared(t, what)) for t in tasks])
            ctx.count("dense: " + what)
        else:
            tasks = tasks_of(seed, ntasks)
            alone = [c13.in_child(lambda t=t: guarded(t)) for t in tasks]
        # the repetitions only matter where the interpreter switches on its own
        for rep in range(2 if mode[0] == "free" else 1):
            got, seen = c13.in_child(lambda: in_threads(tasks, nthreads, mode, f"{seed}/{rep}", what))
            ctx.case((case, seen.get("schedule"), rep), sample=f"{nthreads} threads, {mode[0]}: {len(tasks)} inputs, {seen.get('switches', 'free')} switches")
            ctx.count("digests in threads", len(got))
            ctx.count("steps in threads", sum(map(len, got.values())))
            ctx.count("switches inside the library", seen.get("switches", 0))
            ctx.count("overlapping pairs of inputs", seen.get("overlaps", 0))
            ctx.count("turns not taken up", seen.get("stalls", 0))
            for p in seen.get("places", ()):
                ctx.saw("places switched at", p)
            if "schedule" in seen:
                ctx.saw("distinct schedules", seen["schedule"])
            compare(ctx, case, tasks, alone, got, "threads" + (" dense" if what else ""), {"threads": nthreads, "mode": mode})
            if len(got) != len(tasks):
                raise RuntimeError("a thread of the monitor ended early")
        return
    _, seed, ntasks, hashes = case
    tasks = tasks_of(seed, ntasks)
    wide = [(kind, "text", text, (), seed) for kind, text in WIDE]
    alone = [c13.in_child(lambda t=t: guarded(t)) for t in tasks] + c13.in_child(lambda: [guarded(t) for t in wide])
    tasks += wide
    for h in hashes:
        order = list(range(len(tasks)))
        random.Random(f"{seed}/{h}").shuffle(order)
        ctx.saw("hash seeds", h)
        p = subprocess.run([sys.executable, "-B", "-X", "pycache_prefix=/nonexistent-pycache", "-m", "mon.checks.c18"], input=pickle.dumps((core.REPO, [(i, tasks[i]) for i in order])), stdout=subprocess.PIPE,
                           stderr=subprocess.PIPE, cwd=core.ROOT, env={**os.environ, "PYTHONHASHSEED": str(h), "PYTHONPATH": core.REPO})
        if p.returncode:
            raise RuntimeError(p.stderr.decode()[-2000:])
        got = pickle.loads(p.stdout)
        for i in got:
            ctx.case((tasks[i][0], tasks[i][2], tasks[i][3], h))
        ctx.count("digests under other hash seeds", len(got))
        compare(ctx, case, tasks, alone, got, "hash seed or order", {"hash seed": h})


def work(ctx):
    # cold caches in every child: nothing has been parsed before
    n = ctx.n(6, 120)
    for i in ctx.shards(n * 8):
        k = i // 8
        r = ctx.rng("schedule", i)
        mode = [("lines", r.choice([10, 60, 300])), ("runtime", r.choice([100, 1000, 5000])), ("instructions", r.choice([20, 200, 1000])), ("lines", r.choice([40, 1000])),
                ("free", r.choice([1e-6, 2e-5]))][k % 5]
        one(ctx, ("threads", ctx.seed * 100000 + i, r.choice([6, 8, 10]) if mode[0] != "runtime" else 5, r.choice([2, 2, 3, 5]), mode))
    n = ctx.n(15, 400)
    for i in ctx.shards(n * 8):
        r = ctx.rng("dense", i)
        how = ("lines", r.choice([1, 3, 10, 10, 20, 40])) if r.random() < 0.7 else ("instructions", r.choice([10, 60, 200])) if r.random() < 0.8 else ("free", 1e-6)
        one(ctx, ("dense", ctx.seed * 100000 + i, 8, r.choice([2, 3, 4]), how, ["parse", "parse", "print", "compare", "resolve"][i // 8 % 5]))
    n = ctx.n(8, 80)
    for i in ctx.shards(n):
        r = ctx.rng("hash", i)
        one(ctx, ("hash", ctx.seed * 100000 + 50000 + i, 30, [0, 1 + i, r.randrange(2 ** 32)][:ctx.n(2, 3)] if i % 2 else [r.randrange(2 ** 32), r.randrange(2 ** 32)]))


def child():
    repo, tasks = pickle.loads(sys.stdin.buffer.read())
    core.REPO = repo
    core.load_treeno()
    import treeno.builder.convert  # noqa: F401
    out = {i: guarded(t) for i, t in tasks}
    sys.stdout.buffer.write(pickle.dumps(out))


if __name__ == "__main__":
    child()
