"""The command line agrees with the library."""
import os
import subprocess
import sys
from collections import Counter
from io import StringIO

from .. import core, funcs as F, gen as G, lexer, probe as P, scope as S, treewalk as T, typer as Y, workload as W
from ..core import exc_key, exc_text
from ..model import canon, same
from . import c12

ID = "C16"
RULE = ("every command (format, tree, antlr-tree, schema) and construct kind (query, expression, type) on generated valid texts (all query families, operators, functions, "
        "types, odd literals and identifiers) and on broken ones (cut, swapped and deleted tokens, unsupported constructs), run in process through click's runner and, for a "
        "sample, as real processes: exit status, standard output and standard error are compared with what the library computes, with an independent drawing of "
        "the tree's attributes, with the grammar tree's own tokens, and the columns with an independent scope resolver. Non-trivial: distinct (command, kind, text)")
NEED = {"format": 400, "tree": 300, "antlr-tree": 250, "schema": 250, "rejected": 250, "as a process": 16, "node classes drawn": 100, "columns listed": 300,
        "columns without a name": 30, "unknown columns": 30}
ASSUMPTIONS = ["antlr-tree accepts what the grammar accepts", "a part with its default option isn't drawn in trees", "texts that start with a dash follow --",
               "queries whose columns can't be typed because the query is ill typed are rejected by every command that resolves"]
KINDS = {"query": "query", "expr": "expression", "type": "type"}
RUNNER = None


def invoke(args):
    """-> exit status, standard output, what went wrong"""
    global RUNNER
    from typer.testing import CliRunner
    from treeno.cli import app
    RUNNER = RUNNER or CliRunner(mix_stderr=False)
    r = RUNNER.invoke(app, args)
    return r.exit_code, r.stdout_bytes.decode("utf8"), exc_text(r.exception) if r.exception else ""


def process(args):
    env = dict(os.environ, PYTHONDONTWRITEBYTECODE="1", PYTHONIOENCODING="utf8", PYTHONUTF8="1")
    code = "import sys; sys.path.insert(0, sys.argv.pop(1)); sys.setrecursionlimit(20000); from treeno.cli import app; app()"
    r = subprocess.run([sys.executable, "-B", "-X", "pycache_prefix=/nonexistent-pycache", "-c", code, core.REPO] + args, capture_output=True, env=env,
                       timeout=300)
    return r.returncode, r.stdout.decode("utf8"), r.stderr.decode("utf8", "replace")[-300:]


def drawn(v, ctx):
    """independent construction of the drawing's content from the attributes of the tree"""
    from nltk.tree import Tree
    from treeno.base import DefaultableEnum, Sql
    from treeno.datatypes.types import DataType
    if isinstance(v, (list, tuple, dict)):
        if isinstance(v, dict):
            return Tree("<dict>", [Tree(k, [drawn(x, ctx)]) for k, x in v.items()])
        return Tree(f"<{type(v).__name__}>", [drawn(x, ctx) for x in v])
    if isinstance(v, DataType) or not isinstance(v, Sql):
        return str(v)
    ctx.saw("node classes drawn", type(v).__qualname__)
    return Tree(type(v).__name__, [Tree(n, [drawn(x, ctx)]) for n, x in T.fields(v)
                                   if not (x is None or isinstance(x, DefaultableEnum) and x == type(x).default() or isinstance(x, (list, tuple, dict)) and not x)])


def picture(t):
    if isinstance(t, str):
        return t + "\n"
    s = StringIO()
    t.pretty_print(stream=s)
    return s.getvalue() + "\n"


def grammar_tree(kind, text):
    """the grammar's tree and its tokens in order"""
    from antlr4.ParserRuleContext import ParserRuleContext
    from antlr4.tree.Tree import ErrorNode
    from nltk.tree import Tree
    from treeno.grammar.parse import AST
    from treeno.grammar.gen.SqlBaseParser import SqlBaseParser
    ast = AST(text)
    node = {"query": ast.query, "expr": ast.expression, "type": ast.type}[kind]()
    leaves = []

    def mk(n):
        if isinstance(n, ParserRuleContext):
            return Tree(SqlBaseParser.ruleNames[n.getRuleIndex()], [mk(c) for c in n.getChildren()])
        assert not isinstance(n, ErrorNode)
        leaves.append(n.getText())
        return n.getText()
    return mk(node), leaves


def attempt(f):
    try:
        return f(), None
    except RecursionError:
        raise
    except Exception as e:
        return None, e


def expect(ctx, command, kind, text):
    """what the library computes: (standard output or None if it's rejected, something else that's wrong or None)"""
    from treeno.base import PrintMode, PrintOptions
    from treeno.relation import Schema
    if command == "antlr-tree":
        r, e = attempt(lambda: grammar_tree(kind, text))
        if e:
            return None, None
        t, leaves = r
        toks = [x.text for x in lexer.lex(text)]
        leaves = [x for x in leaves if x not in ("<EOF>", ";")]
        if leaves != [x for x in toks if x != ";"]:
            return picture(t), {"tokens of the text": toks, "tokens of the tree": leaves}
        return picture(t), None
    o, e = attempt(lambda: P.parse(kind, text))
    if e:
        return None, None
    if kind == "query":
        schema, e = attempt(lambda: o.resolve(Schema.empty_schema()))
        if e:
            return None, None
    if command == "format":
        return o.sql(PrintOptions(PrintMode.PRETTY)) + "\n", None
    if command == "tree":
        return picture(drawn(o, ctx)), None
    lines = []
    for f in schema.fields:
        n = "<none>" if f.name is None else f.name
        t = "<unknown>" if f.data_type.type_name == "UNKNOWN" else str(f.data_type)
        ctx.count("columns listed")
        ctx.count("columns without a name", f.name is None)
        ctx.count("unknown columns", t == "<unknown>")
        lines.append(f"{n} - {t}")
    return "\n".join(lines) + "\n", None


def one(ctx, case):
    command, kind, text, m, how = case
    dashes = ["--"] if text.startswith("-") else []
    args = [command] + ([KINDS[kind]] if command != "schema" else []) + dashes + [text]
    want, wrong = expect(ctx, command, kind, text)
    status, out, err = (process if how == "process" else invoke)(args)
    ctx.case((command, kind, text), sample=f"treeno {' '.join(args)}"[:300] if ctx.evals % 101 == 1 else None)
    if how == "process":
        ctx.count("as a process")
    info = {"arguments": args, "status": status, "output": out[:1500], "error": err[:300]}
    if wrong:
        ctx.violation(f"{command}:tokens", case, {**info, **wrong})
        return
    if want is None:
        ctx.count("rejected")
        if status == 0:
            ctx.violation(f"{command}:rejected input exits with 0", case, info)
        elif out:
            ctx.violation(f"{command}:prints a result for rejected input", case, info)
        elif m is not None and command != "schema" and not (kind == "query" and "supertype" in err):
            ctx.violation(f"{command}:rejects a valid {kind}", case, info)
        return
    ctx.count(command)
    if status != 0:
        ctx.violation(f"{command}:fails on valid input", case, info)
    elif out != want:
        ctx.violation(f"{command}:output", case, {**info, "library": want[:1500]})
    elif m is not None:
        independent(ctx, case, command, kind, m, out, info)


def independent(ctx, case, command, kind, m, out, info):
    """the same, judged by the meaning which the text was made from"""
    if command == "format":
        got, e = attempt(lambda: P.denotes(kind, m, out))
        if e or not same(got, canon(m)):
            ctx.violation("format:meaning", case, {**info, "error": repr(e)})
    if command == "schema":
        cols = S.query(m, S.Env(()))
        names = "\n".join("<none>" if c.name is None else c.name for c in cols)
        if "\n" in out[:-1].replace("\n", "", len(cols) - 1) or any(c.name and ("\n" in c.name or " - " in c.name) for c in cols):
            return
        lines = out[:-1].split("\n")
        ctx.count("column lists compared with the scope resolver")
        if len(lines) != len(cols):
            ctx.violation("schema:number of columns", case, {**info, "rule": repr(cols)})
            return
        for line, c in zip(lines, cols):
            n, t = line.rsplit(" - ", 1)
            if n.lower() != (c.name or "<none>").lower() or (t == "<unknown>") and c.type is not None and c.type != Y.ANY:
                ctx.violation("schema:column", case, {**info, "line": line, "rule": repr(c), "names": names})
                return


def broken(r, text):
    """a text with its tokens damaged"""
    try:
        toks = [t.text for t in lexer.lex(text)]
    except Exception:
        return text + "("
    k = r.randrange(7)
    i = r.randrange(len(toks))
    if k == 0:
        toks = toks[:i]
    elif k == 1:
        del toks[i]
    elif k == 2:
        toks.insert(i, r.choice(["(", ")", ",", "SELECT", "FROM", "'", "1", "AS", "?", "WHERE", "`a`"]))
    elif k == 3:
        j = r.randrange(len(toks))
        toks[i], toks[j] = toks[j], toks[i]
    elif k == 4:
        toks.append(r.choice([")", "x y", "; SELECT 1", "LIMIT", ",", "'", "--", "FOR UPDATE"]))
    elif k == 6:
        return text + r.choice([";", ";;", "; ;", ";\n;", " ; -- ;\n ;", ".", "/*", "/* ;", "\\", "\n)", ")", "'", '"', ";--", " --\n;;"])
    else:
        toks[i] = r.choice(["?", "SELECT", ")", "EXISTS (SELECT 1)", "x AT TIME ZONE 'y'", "GROUPING(a)", "a.b.c", "CURRENT_TIMESTAMP(13)", "NOSUCH(1)"])
    return " ".join(toks)


def work(ctx):
    def run(kind, m, key, process=False, commands=None):
        r = ctx.rng(*key)
        text = P.text_of(m, kind, r, True)
        if "\0" in text:
            return
        try:
            text.encode("utf8")
        except UnicodeEncodeError:
            return
        commands = commands or [r.choice(["format", "tree", "antlr-tree", "schema"])]
        for c in commands:
            if c == "schema" and kind != "query":
                c = "tree"
            one(ctx, (c, kind, text, m, "process" if process else "call"))
        if r.random() < 0.3:
            b = broken(r, text)
            if b.strip() != text.strip():
                one(ctx, (r.choice(["format", "tree", "antlr-tree", "schema"] if kind == "query" else ["format", "tree", "antlr-tree"]), kind, b, None, "call"))

    n = ctx.n(1200, W.TOTAL * 4)
    for k in ctx.shards(n):
        fam, r, m = W.family_case(ctx, k * W.TOTAL // n if ctx.quick else k, "c16", odd=0.15)
        run("query", m, ("text", k))
    # columns of every kind of name, without a name and without a type
    for i in ctx.shards(ctx.n(120, 3000)):
        r = ctx.rng("names", i)
        g = G.Gen(r, odd=1.0)
        items = []
        for _ in range(r.choice([1, 1, 2, 4])):
            name = r.choice([" ", "   ", "\t", "\u00a0", "\u3000", "-", " - ", "<none>", "<unknown>", "none", "0", "[red]", "[/]", "\x1b[31m", "%", "{}", "$(x)", g.ident(), g.ident(), g.ident()])
            name = r.choice([name, name, name, None])
            items.append(("item", r.choice([("int", 1), ("null",), ("str", " "), ("col", None, g.ident()), ("cast", ("null",), g.type(1))]), name))
        m = ("query", (), ("select", "ALL", tuple(items), None, None, None, None, ()), (), None, None)
        ctx.count("odd names of columns", len(items))
        run("query", m, ("nametext", i), commands=["schema", r.choice(["tree", "format"])])
    fns = sorted(F.ARITY) * ctx.n(3, 40)
    for i in ctx.shards(len(fns)):
        m = G.Gen(ctx.rng("fn", i), odd=0.1).call(fns[i], [None] * 9, 1, mods=fns[i] in F.AGG)
        run("expr", m, ("fntext", i))
    for i in ctx.shards(ctx.n(900, 20000)):
        r = ctx.rng("random", i)
        g = G.Gen(r, odd=0.3)
        kind, m = r.choice([("expr", g.expr(2)), ("query", g.query(1)), ("type", g.type(2)), ("query", g.query(2))])
        run(kind, m, ("rtext", i))
    for i in ctx.shards(ctx.n(24, 160)):
        r = ctx.rng("process", i)
        g = G.Gen(r, odd=0.3)
        kind, m = [("query", g.query(1)), ("expr", g.expr(2)), ("query", g.query(1)), ("type", g.type(1))][i % 4]
        if i % 8 >= 6:
            text = broken(r, P.text_of(m, kind, r, True))
            if "\0" not in text and text.encode("utf8", "ignore").decode() == text:
                one(ctx, (["format", "tree", "antlr-tree"][i % 3], kind, text, None, "process"))
        else:
            run(kind, m, ("ptext", i), True, [["format", "tree", "antlr-tree", "schema"][i // 2 % 4]])
