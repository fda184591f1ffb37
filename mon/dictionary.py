"""Words and numbers which occur in the code under test, as a dictionary for the generators: whatever the code treats specially is in there."""
import ast
import os
import re
from functools import lru_cache

from .core import REPO

TAGS = {"and", "or", "not", "neg", "dec", "interval", "sample", "str", "bool", "int", "dbl", "typed", "var", "special", "type", "col", "query"}


@lru_cache(None)
def _read():
    words, ints = set(), set()
    for folder, dirs, files in os.walk(os.path.join(REPO, "treeno")):
        dirs[:] = sorted(d for d in dirs if d not in ("gen", "__pycache__"))
        for f in sorted(files):
            if not f.endswith(".py"):
                continue
            try:
                tree = ast.parse(open(os.path.join(folder, f), encoding="utf-8").read())
            except (SyntaxError, ValueError, OSError):
                continue
            docs = {id(n.body[0].value) for n in ast.walk(tree)
                    if isinstance(n, (ast.Module, ast.ClassDef, ast.FunctionDef)) and n.body and isinstance(n.body[0], ast.Expr)}
            for n in ast.walk(tree):
                if isinstance(n, ast.Constant) and id(n) not in docs:
                    if isinstance(n.value, str):
                        s = n.value
                        if len(s) <= 40:
                            words.add(s)
                        words.update(re.findall(r"[A-Za-z_][A-Za-z_0-9]*|\{\w*\}|[^\w\s]+", s))
                    elif isinstance(n.value, int) and not isinstance(n.value, bool):
                        ints.update((n.value, n.value + 1, abs(n.value - 1)))
                elif isinstance(n, ast.Attribute):
                    words.update((n.attr, "{" + n.attr + "}"))
                elif isinstance(n, ast.arg):
                    words.update((n.arg, "{" + n.arg + "}"))
                elif isinstance(n, ast.ClassDef):
                    words.add(n.name)
    words = sorted(w for w in words if w and w.isprintable() or w.isspace())
    special = [w for w in words if not re.fullmatch(r"\w+", w)]
    return words, special or words, sorted(i for i in ints if 0 <= i < 2 ** 64)


def words():
    return _read()[0]


def word(r):
    words, special, _ = _read()
    w = r.choice(special if r.random() < 0.5 else words)
    k = r.randrange(8)
    return w.upper() if k == 0 else w.lower() if k == 1 else w + r.choice(special) if k == 2 else w


def name(r):
    """a word which can be a name without looking like a tag of a meaning"""
    while True:
        w = word(r)
        if w and w not in TAGS and w + "2" not in TAGS:
            return w


def number(r):
    return r.choice(_read()[2] or [0])


