"""The library neither relies on nor changes the process around it, and retains nothing."""
import builtins
import contextlib
import copyreg
import decimal
import gc
import io
import locale
import logging
import os
import pickle
import random
import re
import signal
import subprocess
import sys
import tempfile
import threading
import time
import warnings

from .. import core, gen as G, objbuild, probe as P
from . import c12, c13

ID = "C21"
RULE = ("random queries, expressions and types (valid and broken, parsed and built): everything the library computes for them (tree, texts, parse tree, equality, resolution, types, traversal) is computed "
        "once in a plain process, and again inside hostile surroundings (decimal contexts which round, trap or print differently, no or failing standard streams, an empty environment, a deleted working "
        "directory, warnings as errors, a collector which runs all the time or never, another clock, other random numbers, a deep stack, a tracer; interpreters without assertions, without docstrings, in "
        "development mode, with another encoding): the results must be the same. Around each operation, also on inputs at the limits of the interpreter (many digits, deep nesting), a monitor compares the state of the interpreter. After a batch of marked inputs whose results were "
        "dropped, a scan of all live objects must not find the marks of most of an earlier batch, nor more of the library's nodes and types than before the batch. Non-trivial: distinct inputs, each in several surroundings")
NEED = {"operations between two states": 2000, "results compared": 5000, "stress": 20, "surroundings": 20, "marked inputs": 1600, "objects scanned": 20000}
ASSUMPTIONS = ["the parser's own caches (shared by all uses of the ANTLR runtime) may grow with the number of distinct constructs", "a cache of 250 inputs or fewer counts as bounded",
               "importing the library isn't an operation", "without assertions only inputs which are accepted are compared"]
MARK = re.compile(r"mark(\d+)~")


# --- everything the library computes for an input, as named steps ---

def extra(task):
    """what c13's digest doesn't do"""
    kind, how, m, cat, seed = task
    out = []

    def step(name, f):
        try:
            v = f()
        except RecursionError:
            raise
        except Exception as e:
            v = ("raised", type(e).__name__)
        out.append((name, v if isinstance(v, str) else repr(v)))
    from treeno.cli import treeify
    from treeno.datatypes.conversions import common_supertype
    from treeno.grammar.parse import AST, tree
    if how == "text":
        o = None
        with contextlib.suppress(Exception):
            o = P.parse(kind, m)
        step("antlr", lambda: tree(AST(m), getattr(AST(m), {"expr": "expression"}.get(kind, kind))()))
    else:
        o = None
        with contextlib.suppress(Exception):
            o = getattr(objbuild.Builder(random.Random(seed)), kind)(m)
    if o is None:
        return out
    if kind == "type":
        step("supertype", lambda: str(common_supertype(o, o)))
        step("hash", lambda: hash(o) == hash(o))
    else:
        step("tree", lambda: treeify(o).pformat() if hasattr(treeify(o), "pformat") else str(treeify(o)))
        step("equals", lambda: o.equals(o))
    return out


def everything(task):
    return c13.digest(task) + extra(task)


# --- the state of the interpreter ---

def state():
    c = decimal.getcontext()
    return {
        "recursion limit": sys.getrecursionlimit(),
        "random numbers": hash(random.getstate()),
        "decimal context": (c.prec, c.rounding, c.Emin, c.Emax, c.capitals, c.clamp, tuple(sorted(k.__name__ for k, v in c.traps.items() if v))),
        "warning filters": [repr(f) for f in warnings.filters],
        "standard streams": (id(sys.stdin), id(sys.stdout), id(sys.stderr)),
        "hooks": (sys.displayhook, sys.excepthook, sys.gettrace(), sys.getprofile(), threading.excepthook, sys.unraisablehook, builtins.__import__),
        "path": (list(sys.path), len(sys.meta_path), len(sys.path_hooks)),
        "environment": dict(os.environ),
        "working directory": cwd(),
        "locale": locale.setlocale(locale.LC_ALL),
        "signal handlers": [signal.getsignal(s) for s in (signal.SIGINT, signal.SIGTERM, signal.SIGALRM, signal.SIGPROF, signal.SIGPIPE, signal.SIGUSR1)],
        "threads": sorted(t.name for t in threading.enumerate()),
        "open files": sorted(os.listdir("/proc/self/fd")),
        "collector": (gc.isenabled(), gc.get_threshold(), gc.get_debug()),
        "builtins": (len(vars(builtins)), sorted(vars(builtins))),
        "logging": (logging.root.level, list(logging.root.handlers), logging.root.disabled),
        "switch interval": sys.getswitchinterval(),
        "digits": sys.get_int_max_str_digits(),
        "time zone": time.tzname,
        "pickling": len(copyreg.dispatch_table),
    }


def cwd():
    try:
        return os.getcwd()
    except OSError:
        return None


class Shown(io.TextIOBase):
    """a standard stream which only remembers that it was used"""
    def __init__(self):
        self.text = ""

    def writable(self):
        return True

    def write(self, s):
        self.text += s
        return len(s)


class Broken(Shown):
    def write(self, s):
        raise OSError("this stream can't be written to")


# --- surroundings ---

@contextlib.contextmanager
def swap(obj, **kw):
    old = {k: getattr(obj, k) for k in kw}
    for k, v in kw.items():
        setattr(obj, k, v)
    try:
        yield
    finally:
        for k, v in old.items():
            setattr(obj, k, v)


@contextlib.contextmanager
def gone():
    """a working directory which doesn't exist any more"""
    old = os.getcwd()
    d = tempfile.mkdtemp(prefix="verif-gone-")
    os.chdir(d)
    os.rmdir(d)
    try:
        yield
    finally:
        os.chdir(old)


@contextlib.contextmanager
def environ(**kw):
    old = dict(os.environ)
    os.environ.clear()
    os.environ.update(kw)
    try:
        yield
    finally:
        os.environ.clear()
        os.environ.update(old)


@contextlib.contextmanager
def collector(on, threshold):
    was, old = gc.isenabled(), gc.get_threshold()
    gc.enable() if on else gc.disable()
    gc.set_threshold(*threshold)
    try:
        yield
    finally:
        gc.set_threshold(*old)
        gc.enable() if was else gc.disable()


@contextlib.contextmanager
def strict():
    with warnings.catch_warnings():
        warnings.simplefilter("error")
        yield


@contextlib.contextmanager
def seeded(n):
    old = random.getstate()
    random.seed(n)
    try:
        yield
    finally:
        random.setstate(old)


@contextlib.contextmanager
def traced():
    old = sys.gettrace()
    sys.settrace(lambda *_: None)
    try:
        yield
    finally:
        sys.settrace(old)


def dec(**kw):
    return decimal.localcontext(decimal.Context(**{"prec": 28, "traps": [], **kw}))


D = decimal
AROUND = {
    "one digit": lambda: dec(prec=1, rounding=D.ROUND_UP),
    "three digits, no exact results": lambda: dec(prec=3, traps=[D.Inexact, D.Rounded, D.Clamped, D.Subnormal]),
    "small exponents": lambda: dec(prec=5, Emax=2, Emin=-2, traps=[D.Overflow, D.Underflow]),
    "clamped exponents": lambda: dec(prec=28, Emax=20, Emin=-20, clamp=1),
    "many digits": lambda: dec(prec=500, rounding=D.ROUND_FLOOR),
    "all signals": lambda: dec(prec=9, traps=[D.Inexact, D.Rounded, D.InvalidOperation, D.DivisionByZero]),
    "no streams": lambda: swap(sys, stdout=None, stderr=None, stdin=None),
    "failing streams": lambda: swap(sys, stdout=Broken(), stderr=Broken()),
    "no environment": environ,
    "odd environment": lambda: environ(LANG="tr_TR.UTF-8", LC_ALL="tr_TR.UTF-8", TZ="Asia/Kathmandu", COLUMNS="7", LINES="1", TERM="dumb", NO_COLOR="1", HOME="/nonexistent", PATH="", DEBUG="1", PYTHONOPTIMIZE="2"),
    "no working directory": gone,
    "warnings as errors": strict,
    "eager collector": lambda: collector(True, (40, 2, 2)),
    "no collector": lambda: collector(False, (700, 10, 10)),
    "clock": lambda: swap(time, time=lambda: 0.0, monotonic=lambda: 0.0, perf_counter=lambda: 0.0),
    "random numbers": lambda: seeded(0),
    "tracer": traced,
    "deep stack": None,
}


def deeper(n, f):
    return deeper(n - 1, f) if n else f()


def task_of(r, seed, most=1500):
    """an input of moderate length (the surroundings make the parser slow)"""
    while True:
        t = c13.task_of(r, seed)
        if len(str(t[2])) <= most:
            return t


def inside(name, task):
    if name == "deep stack":
        return deeper(900, lambda: everything(task))
    with AROUND[name]():
        return everything(task)


INTERPRETERS = {
    "no assertions": (["-O"], {}),
    "no assertions or docstrings": (["-OO"], {}),
    "development mode": (["-X", "dev"], {}),
    "warnings as errors from the start": (["-W", "error"], {}),
    "another encoding": (["-X", "utf8=0"], {"LC_ALL": "C", "LANG": "C", "PYTHONCOERCECLOCALE": "0", "PYTHONIOENCODING": "ascii"}),
    "bytes warnings": (["-bb"], {}),
    "debugging memory": ([], {"PYTHONMALLOC": "debug"}),
}


# --- inputs at the limits of the interpreter ---

STRESS = [
    ("integer of many digits", lambda: "9" * 5000),
    ("negative integer of many digits", lambda: "-" + "9" * 5000),
    ("decimal of many digits", lambda: "9" * 3000 + "." + "1" * 3000),
    ("double out of range", lambda: "1E999999"),
    ("precision of many digits", lambda: "DECIMAL(" + "1" * 4999 + ")"),
    ("limit of many digits", lambda: "SELECT 1 LIMIT " + "1" * 4999),
    ("parentheses", lambda: "(" * 700 + "1" + ")" * 700),
    ("operators", lambda: "1" + " + 1" * 900),
    ("NOTs", lambda: "NOT " * 900 + "a"),
    ("minuses", lambda: "- " * 900 + "a"),
    ("calls", lambda: "ABS(" * 500 + "1" + ")" * 500),
    ("subqueries", lambda: "SELECT * FROM (" * 200 + "SELECT 1" + ")" * 200),
    ("set operations", lambda: "SELECT 1" + " UNION SELECT 1" * 500),
    ("joins", lambda: "SELECT 1 FROM a" + " CROSS JOIN b" * 500),
    ("arrays of types", lambda: "ARRAY(" * 700 + "DATE" + ")" * 700),
    ("a long string", lambda: "'" + "x" * 200000 + "'"),
    ("a long name", lambda: '"' + "x" * 200000 + '"'),
    ("many columns", lambda: "SELECT " + ", ".join(f"c{i}" for i in range(2000))),
    ("NUL", lambda: "'a\0b'"),
    ("half of a pair", lambda: "'\ud800'"),
    ("half of a pair as a name", lambda: '"\udfff"'),
    ("a broken escape", lambda: "U&'\\D8'"),
    ("nothing", lambda: ""),
    ("bytes", lambda: b"1"),
    ("no text", lambda: None),
]


# --- retention ---

def marked(task, n):
    """the input with names, literals and types which no other input has"""
    kind, how, m, cat, seed = task
    mark, k = f"mark{n}~", 1000000 + n
    if how == "text":
        own = f"'{mark}', \"{mark}\", {k}, {k}.5, {k}.25E0, CAST(NULL AS VARCHAR({k}))"
        return kind, how, {"expr": f"ROW(({m}), {own})", "query": f"SELECT *, {own} FROM ({m}) AS \"{mark}\"", "type": f'ROW("{mark}" {m}, y VARCHAR({k}))'}[kind], cat, seed
    own = (("str", mark), ("col", None, mark), ("int", k), ("dec", k * 10 + 5, 1), ("dbl", f"{k}.25"))
    if kind == "expr":
        m = ("row", m) + own
    elif kind == "query":
        m = ("query", (), ("select", None, (("star", None),) + tuple(("item", x, None) for x in own), ("alias", ("subq", m), mark, None), None, None, None, None), None, None, None)
    return kind, how, m, cat, seed


def live():
    """-> numbers of the marks in live objects, number of live nodes, types and schemas of the library, objects scanned"""
    gc.collect()
    marks, nodes = set(), {}
    objs = gc.get_objects()
    for o in objs:
        t = type(o)
        if t.__module__.partition(".")[0] == "treeno" and "gen" not in t.__module__.split("."):
            nodes[t.__name__] = nodes.get(t.__name__, 0) + 1
    n = len(objs)
    # containers of plain values aren't tracked by the collector, so these are only found through what refers to them
    todo, done = [objs[i:i + 5000] for i in range(0, n, 5000)], set()
    while todo:
        more = []
        for r in gc.get_referents(*todo.pop()):
            if type(r) is str:
                if "mark" in r:
                    marks.update(MARK.findall(r))
            elif isinstance(r, (dict, tuple)) and not gc.is_tracked(r) and id(r) not in done:
                done.add(id(r))
                more.append(r)
        if more:
            todo.append(more)
    return marks, nodes, n


def small(r, g, kind, seed):
    m = g.expr(2) if kind == "expr" else g.query(1) if kind == "query" else g.type(2)
    return (kind, "text", P.text_of(m, kind, r, False), (), seed) if r.random() < 0.9 else (kind, "api", m, (), seed)


def batch(seed, lo, n):
    """the main operations on n marked inputs"""
    from treeno.cli import treeify
    for i in range(lo, lo + n):
        if i % 50 == 0:
            core.arm()   # the time limit is for a single input
        r = random.Random(f"{seed}/{i}")
        g = G.Gen(r, odd=0.1)
        t = task_of(r, seed + i, 600) if i % 9 == 0 else small(r, g, ["expr", "query", "expr", "type"][i % 4], seed + i)
        kind, how, m, cat, s = marked(t, i)
        with contextlib.suppress(Exception):
            o = P.parse(kind, m) if how == "text" else getattr(objbuild.Builder(random.Random(s)), kind)(m)
            repr(o), P.show(o), hash(o) if kind == "type" else (P.show(o, True), o.equals(o), treeify(o))
            if kind == "query" and i % 2:
                o.resolve(c12.schema_of(cat, objbuild.Builder(random.Random(s)))).fields


def retained(ctx, case):
    _, seed, n = case
    gc.unfreeze()   # what was made on import is scanned as well
    batch(seed, n, n)   # fills the caches, if there are any
    before = live()
    batch(seed, 2 * n, n)
    after = live()
    first = {m for m in after[0] if n <= int(m) < 2 * n}
    ctx.count("marked inputs", 2 * n)
    ctx.count("objects scanned", after[2])
    ctx.count("marks found", len(after[0]))
    ctx.case(case, sample={"inputs": n, "objects scanned": after[2], "marks of the inputs before them": len(first), "library objects before": sum(before[1].values()), "after": sum(after[1].values())})
    if len(first) > 0.5 * n:
        ctx.violation("inputs retained", case, {"inputs": n, "of which are still in memory after as many others": len(first)})
    grown = {k: v - before[1].get(k, 0) for k, v in after[1].items() if v - before[1].get(k, 0) > 0.5 * n}
    if grown:
        ctx.violation("objects retained:" + ",".join(sorted(grown)), case, {"inputs": n, "objects more than before": grown})
    gc.freeze()


# --- cases ---

def first_difference(a, b):
    for x, y in zip(a, b):
        if x != y:
            return x[0], {"step": x[0], "plain": x[1][:300], "here": y[1][:300] if y[0] == x[0] else y[0]}
    return ("number of steps", {"plain": [x[0] for x in a], "here": [x[0] for x in b]}) if len(a) != len(b) else None


def one(ctx, case):
    if case[0] == "retention":
        return retained(ctx, case)
    if case[0] == "interpreter":
        return interpreter(ctx, case)
    _, task, names = case
    plain = None
    out, err = Shown(), Shown()
    low = sys.getrecursionlimit()
    if case[0] == "stress":
        kind, i = task
        task = (kind, "text", STRESS[i][1](), (), 0)
        ctx.saw("stress", STRESS[i][0])
        sys.setrecursionlimit(2500)
    try:
        with swap(sys, stdout=out, stderr=err):
            before = state()
            try:
                # laying out a large tree as text takes long, in a library which isn't checked here
                plain = (c13.digest if case[0] == "stress" else everything)(task)
            except RecursionError:
                ctx.count("too deep")
            after = state()
    finally:
        sys.setrecursionlimit(low)
    ctx.count("operations between two states", len(plain or [1]))
    for k in before:
        ctx.saw("kinds of state", k)
        if before[k] != after[k]:
            ctx.violation("changes " + k, case, {"before": str(before[k])[-300:], "after": str(after[k])[-300:]})
    if out.text or err.text:
        ctx.violation("writes to a standard stream", case, {"stdout": out.text[:300], "stderr": err.text[:300]})
    if plain is None or case[0] == "stress":
        ctx.case(case)
        return
    for name in names:
        ctx.saw("surroundings", name)
        try:
            got = inside(name, task)
        except RecursionError:
            ctx.count("too deep")
            continue
        ctx.count("results compared", len(got))
        d = first_difference(plain, got)
        if d:
            ctx.violation(f"depends on {name}:{d[0]}", case, {"surroundings": name, **d[1]})
    ctx.case((task[0], task[2]), nontrivial=len(plain) > 3, sample={"input": str(task[2])[:160], "surroundings": names, "steps": len(plain)})


def guarded(t):
    try:
        return everything(t)
    except Exception as e:
        return [("failed", core.exc_text(e))]


def interpreter(ctx, case):
    _, name, seed, n = case
    flags, env = INTERPRETERS[name]
    tasks = [task_of(random.Random(f"i/{seed}/{i}"), seed + i) for i in range(n)]
    plain = c13.in_child(lambda: [guarded(t) for t in tasks])
    p = subprocess.run([sys.executable, "-B", *flags, "-X", "pycache_prefix=/nonexistent-pycache", "-m", "mon.checks.c21"], input=pickle.dumps((core.REPO, tasks)), stdout=subprocess.PIPE,
                       stderr=subprocess.PIPE, cwd=core.ROOT, env={**os.environ, **env, "PYTHONPATH": core.REPO})
    if p.returncode:
        text = p.stderr.decode("utf8", "replace")
        if "/treeno/" in text.split("Traceback")[-1]:
            ctx.violation(f"fails under {name}", case, {"stderr": text[-600:]})
            return
        raise RuntimeError(text[-2000:])
    got = pickle.loads(p.stdout)
    ctx.saw("surroundings", name)
    for t, a, b in zip(tasks, plain, got):
        if "-O" in flags or "-OO" in flags:
            if any(x[1].startswith("('raised'") or x[0] == "failed" for x in a):
                continue
        ctx.count("results compared", len(b))
        ctx.case((name, t[0], t[2]))
        d = first_difference(a, b)
        if d:
            ctx.violation(f"depends on {name}:{d[0]}", case, {"surroundings": name, "input": str(t[2])[:300], **d[1]})


def work(ctx):
    names = sorted(set(AROUND) - {"tracer"})
    for i in ctx.shards(8):
        one(ctx, ("retention", ctx.seed * 1000000 + i * 20000, ctx.n(240, 1500)))
    for i in ctx.shards(len(INTERPRETERS) * ctx.n(1, 12)):
        one(ctx, ("interpreter", sorted(INTERPRETERS)[i % len(INTERPRETERS)], ctx.seed * 1000000 + i * 1000, 40))
    for i in ctx.shards(len(STRESS) * 3):
        one(ctx, ("stress", (["query", "expr", "type"][i % 3], i // 3), []))
    n = ctx.n(480, 20000)
    for i in ctx.shards(n):
        r = ctx.rng("around", i)
        slow = i % 40 == 7
        one(ctx, ("around", task_of(r, i, 300 if slow else 1500), [names[i % len(names)], "tracer" if slow else names[(i * 7 + i // len(names)) % len(names)]]))


def child():
    repo, tasks = pickle.loads(sys.stdin.buffer.read())
    core.REPO = repo
    core.load_treeno()
    import treeno.builder.convert  # noqa: F401
    sys.stdout.buffer.write(pickle.dumps([guarded(t) for t in tasks]))


if __name__ == "__main__":
    child()
