"""Runner: forks workers that drive the real code, merges what the monitors observed, writes evidence, prints verdicts."""
import ast
import gc
import hashlib
import importlib
import json
import os
import pickle
import random
import resource
import signal
import sys
import tempfile
import time
import traceback

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("TREENO_REPO", "/repo")
sys.dont_write_bytecode = True


MEMORY = 4 << 30
FIRST = os.environ.get("VERIF_FIRST")   # with this set (for trying many changes of the code), all workers end at the first violation


def load_treeno():
    """Imports the code under test from the working tree (never from stale bytecode) and warms the parser's caches."""
    sys.pycache_prefix = os.path.join(tempfile.gettempdir(), "nonexistent-pycache")
    sys.path.insert(0, REPO)
    sys.setrecursionlimit(20000)
    import treeno
    assert os.path.realpath(treeno.__file__).startswith(os.path.realpath(REPO) + os.sep), treeno.__file__


def warm():
    from treeno.builder.convert import expression_from_sql, query_from_sql
    try:
        query_from_sql("WITH a AS (SELECT 1 FROM x) SELECT a, b.c, f.* FROM t AS q JOIN (SELECT 2) z ON a = 1 WHERE x BETWEEN 1 AND 2 "
                       "AND NOT y LIKE 'a' GROUP BY 1, ROLLUP(a) ORDER BY 1 DESC LIMIT 3")
        expression_from_sql("CASE WHEN a AND b OR c THEN SUM(x + 1 * 2) OVER (PARTITION BY y ORDER BY z) ELSE CAST(a AS DECIMAL(3,2)) END")
    except Exception:
        pass


class Stop(Exception):
    pass


class Hang(BaseException):
    """No answer within the time a single case may take (cases take milliseconds, the slowest a few seconds)."""


CPU_LIMIT, WALL_LIMIT = 90, 300


def on_alarm(*_):
    raise Hang


def arm(on=True):
    signal.setitimer(signal.ITIMER_PROF, CPU_LIMIT if on else 0)
    signal.setitimer(signal.ITIMER_REAL, WALL_LIMIT if on else 0)


def watch(mod, ctx):
    """Every case of the check gets its own time limit."""
    signal.signal(signal.SIGPROF, on_alarm)
    signal.signal(signal.SIGALRM, on_alarm)
    inner = mod.one

    def one(c, case):
        ctx.current = case
        t = time.time()
        arm()
        r = inner(c, case)
        ctx.slowest = max(ctx.slowest, time.time() - t)
        return r
    mod.one = one


class Ctx:
    """What a worker records."""

    def __init__(self, pid, tier, seed, shard, nshards, deadline):
        self.pid, self.tier, self.seed, self.shard, self.nshards, self.deadline = pid, tier, seed, shard, nshards, deadline
        self.evals = 0
        self.counts = {}
        self.distinct = set()
        self.violations = {}
        self.nviol = 0
        self.samples = []
        self.truncated = False
        self.seen = {}
        self.current = ("no case",)
        self.slowest = 0.0
        self.flag = None

    @property
    def quick(self):
        return self.tier == "quick"

    def n(self, quick, thorough):
        """size of a workload in this tier"""
        return quick if self.quick else thorough

    def rng(self, *key):
        return random.Random(f"{self.seed}/{'/'.join(map(str, key))}")

    def mine(self, i):
        if time.time() > self.deadline:
            self.truncated = True
            raise Stop
        if self.flag and os.path.exists(self.flag):
            raise Stop
        return i % self.nshards == self.shard

    def shards(self, n):
        """this worker's part of range(n)"""
        for i in range(n):
            if self.mine(i):
                yield i

    def case(self, key, sample=None, nontrivial=True):
        if self.flag and os.path.exists(self.flag):
            raise Stop
        self.evals += 1
        if nontrivial:
            self.distinct.add(hashlib.blake2b(repr(key).encode("utf-8", "surrogatepass"), digest_size=8).digest())
        if sample is not None and len(self.samples) < 3 and self.evals % 7 == 1:
            self.samples.append(sample if isinstance(sample, (str, dict)) else repr(sample))

    def count(self, name, n=1):
        self.counts[name] = self.counts.get(name, 0) + n

    def saw(self, group, item):
        """distinct observed states/events of a kind"""
        self.seen.setdefault(group, set()).add(item)

    def violation(self, mech, case, detail):
        """mech: identifies the failing mechanism; case: what to replay; smallest case kept per mechanism"""
        self.nviol += 1
        size = len(repr(case))
        old = self.violations.get(mech)
        if old is None or size < old[0]:
            self.violations[mech] = (size, case, detail)
        if self.flag and mech not in known(self.pid):
            open(self.flag, "w").close()
        if self.nviol > 400 or self.flag:
            raise Stop


def exc_key(e):
    """Where in the code under test an exception came from."""
    where = "?"
    for f in traceback.extract_tb(e.__traceback__):
        if "/treeno/" in f.filename and "/gen/" not in f.filename:
            where = os.path.basename(f.filename) + ":" + f.name
    return f"{type(e).__name__}@{where}"


def where_now():
    """the innermost places of the code under test in the traceback being handled"""
    tb = traceback.extract_tb(sys.exc_info()[2])
    return [f"{os.path.basename(f.filename)}:{f.lineno}:{f.name}" for f in tb if "/treeno/" in f.filename][-6:]


def exc_text(e):
    tb = [f"{os.path.basename(f.filename)}:{f.lineno}:{f.name}" for f in traceback.extract_tb(e.__traceback__)[-4:]]
    return f"{type(e).__name__}: {str(e)[:300]} [{' < '.join(reversed(tb))}]"


def known(pid):
    """findings listed for a property: {mechanism: description}"""
    out = {}
    p = os.path.join(ROOT, "known_findings.txt")
    if os.path.exists(p):
        for line in open(p, encoding="utf-8"):
            line = line.strip()
            if line.startswith("finding: "):
                parts = dict(x.split("=", 1) for x in line[9:].split(" ", 2)[:2])
                if parts.get("property") == pid:
                    out[parts["key"]] = line[9:].split(" ", 2)[2]
    return out


def run(pid, tier, seed, nprocs=None):
    start = time.time()
    load_treeno()
    mod = importlib.import_module(f"mon.checks.{pid.lower()}")
    budget = float(os.environ.get("VERIF_BUDGET", "560" if tier == "quick" else "3300"))
    deadline = start + budget
    try:
        importlib.import_module("treeno.builder.convert")
    except Exception as e:
        print(f"cannot import the code under test: {exc_text(e)}")
        return 2
    if getattr(mod, "WARM", True):
        warm()
    gc.collect()
    gc.freeze()
    gc.set_threshold(100000, 20, 100)
    nprocs = nprocs or min(8, os.cpu_count() or 1)
    if getattr(mod, "SINGLE", False):
        nprocs = 1
    tmp = tempfile.mkdtemp(prefix="verif-")
    pids = []
    sys.stdout.flush()
    for s in range(nprocs):
        child = os.fork()
        if child == 0:
            code = 0
            ctx = Ctx(pid, tier, seed, s, nprocs, deadline)
            ctx.flag = os.path.join(tmp, "stop") if FIRST else None
            err = None
            try:
                resource.setrlimit(resource.RLIMIT_AS, (MEMORY, MEMORY))
                watch(mod, ctx)
                arm()
                mod.work(ctx)
                arm(False)
            except Stop:
                arm(False)
            except Hang:
                arm(False)
                ctx.nviol += 1
                ctx.violations["no answer"] = (0, ctx.current, {"no answer within": f"{CPU_LIMIT} s of computing, {WALL_LIMIT} s altogether", "at": where_now()})
            except BaseException as e:
                err = "".join(traceback.format_exception(e))[-3000:]
                code = 1
            d = dict(evals=ctx.evals, counts=ctx.counts, distinct=ctx.distinct, violations=ctx.violations, nviol=ctx.nviol,
                     samples=ctx.samples, slowest=ctx.slowest, truncated=ctx.truncated, seen=ctx.seen, err=err)
            with open(os.path.join(tmp, str(s)), "wb") as f:
                pickle.dump(d, f)
            sys.stdout.flush()
            os._exit(code)
        pids.append(child)
    status = [os.waitpid(p, 0)[1] for p in pids]
    ctx = Ctx(pid, tier, seed, 0, 1, deadline)
    errs = []
    for s in range(nprocs):
        f = os.path.join(tmp, str(s))
        if not os.path.exists(f):
            errs.append(f"worker {s} ended with status {status[s]}")
            if status[s] & 127 in (signal.SIGSEGV, signal.SIGABRT, signal.SIGBUS):
                ctx.nviol += 1
                ctx.violations["interpreter crashed"] = (0, ("worker", s), {"signal": status[s] & 127})
            continue
        d = pickle.load(open(f, "rb"))
        os.unlink(f)
        ctx.evals += d["evals"]
        ctx.nviol += d["nviol"]
        ctx.slowest = max(ctx.slowest, d["slowest"])
        ctx.distinct |= d["distinct"]
        ctx.truncated |= d["truncated"]
        ctx.samples += d["samples"]
        for k, v in d["counts"].items():
            ctx.count(k, v)
        for k, v in d["seen"].items():
            ctx.seen.setdefault(k, set()).update(v)
        for k, v in d["violations"].items():
            if k not in ctx.violations or v[0] < ctx.violations[k][0]:
                ctx.violations[k] = v
        if d["err"]:
            errs.append(d["err"])
    if os.path.exists(os.path.join(tmp, "stop")):
        os.unlink(os.path.join(tmp, "stop"))
    os.rmdir(tmp)
    if hasattr(mod, "finish"):
        mod.finish(ctx)
    return report(mod, ctx, errs, start)


def report(mod, ctx, errs, start):
    pid = ctx.pid
    kn = known(pid)
    new = {m: v for m, v in ctx.violations.items() if m not in kn}
    for m, d in kn.items():
        print(f"KNOWN-FINDING: property={pid} {d}")
    rng = random.Random(ctx.seed)
    samples = ctx.samples if len(ctx.samples) <= 8 else rng.sample(ctx.samples, 8)
    observed = {k: ctx.counts[k] for k in sorted(ctx.counts)}
    for k, v in ctx.seen.items():
        observed[f"distinct {k}"] = len(v)
    ev = {
        "property": pid, "tier": ctx.tier, "seed": ctx.seed, "level": "exploration",
        "coverage": {"evaluations": ctx.evals, "distinct_nontrivial": len(ctx.distinct), "rule": mod.RULE,
                     "samples": samples or ["none"], "observed": observed, "stopped_at_time_limit": ctx.truncated, "slowest_case_s": round(ctx.slowest, 2),
                     "worker_errors": len(errs)},
        "assumptions": getattr(mod, "ASSUMPTIONS", []), "wall_s": round(time.time() - start, 2), "violations": len(new),
    }
    os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
    with open(os.path.join(ROOT, "evidence", f"{pid}.json"), "w") as f:
        json.dump(ev, f, indent=1, ensure_ascii=True)
    code = 0
    if new:
        out = os.path.join(ROOT, "out", pid)
        os.makedirs(out, exist_ok=True)
        for i, (m, (size, case, detail)) in enumerate(sorted(new.items(), key=lambda kv: kv[1][0])[:8]):
            path = os.path.join(out, f"{i}.json")
            with open(path, "w") as f:
                json.dump({"property": pid, "mechanism": m, "case": repr(case), "detail": detail}, f, indent=1, default=repr)
            print(f"-- {m}: {str(detail)[:1500]}")
            print(f"VIOLATION property={pid} replay={os.path.relpath(path, ROOT)}")
        code = 1
    print(f"{pid} {ctx.tier}: {ctx.evals} evaluations, {len(ctx.distinct)} distinct, {len(new)} violations, {time.time() - start:.1f}s"
          + (" (stopped at the time limit)" if ctx.truncated else ""))
    need = getattr(mod, "NEED", {})
    for k, v in need.items():
        have = ctx.counts.get(k, len(ctx.seen.get(k, ())))
        if have < v and not ctx.truncated and not code:
            errs.append(f"inconclusive: the monitor observed {k} only {have} times (needs {v})")
    if errs and not code:
        for e in errs[:3]:
            print(e)
        return 3
    return code


def replay(path):
    d = json.load(open(path))
    load_treeno()
    mod = importlib.import_module(f"mon.checks.{d['property'].lower()}")
    case = ast.literal_eval(d["case"])
    ctx = Ctx(d["property"], "quick", 1, 0, 1, time.time() + 600)
    watch(mod, ctx)
    try:
        mod.one(ctx, case)
    except Hang:
        ctx.violation("no answer", case, where_now())
    arm(False)
    for m, (_, c, detail) in ctx.violations.items():
        print(f"-- {m}: {detail}")
    print("reproduced" if ctx.violations else "not reproduced")
    return 1 if ctx.violations else 0


def main():
    a = sys.argv[1:]
    if a[0] == "--replay":
        sys.exit(replay(a[1]))
    tier = os.environ.get("VERIF_TIER", "quick")
    if len(a) > 1:
        tier = a[1]
    sys.exit(run(a[0], tier, int(os.environ.get("VERIF_SEED", "1"))))


if __name__ == "__main__":
    main()
