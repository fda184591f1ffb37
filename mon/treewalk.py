"""Attribute walks over real trees, independent of the code's own traversal, comparison and printing."""
import functools
import inspect
from abc import ABC

import attr
from treeno.base import Sql
from treeno.datatypes.types import DataType


@functools.lru_cache(None)
def node_classes():
    """the library's node classes of which there are instances"""
    out, todo = set(), [Sql]
    while todo:
        for c in todo.pop().__subclasses__():
            todo.append(c)
            if c.__module__.startswith("treeno.") and ABC not in c.__bases__ and not inspect.isabstract(c):
                out.add(c)
    return out


def fields(node):
    """public attributes of a node: its content"""
    return [(a.name, getattr(node, a.name)) for a in attr.fields(type(node)) if not a.name.startswith("_")]


def parts(v, path=()):
    """(path, node) of the nodes directly inside a value; data types are annotations of nodes, not nodes of the tree"""
    if isinstance(v, DataType):
        return
    if isinstance(v, Sql):
        yield path, v
    elif isinstance(v, (list, tuple)):
        for i, x in enumerate(v):
            yield from parts(x, path + (i,))
    elif isinstance(v, dict):
        for k, x in v.items():
            yield from parts(x, path + (k,))


def child_nodes(node):
    for name, v in fields(node):
        yield from parts(v, (name,))


def walk(node):
    """every node occurrence of a tree, the root included"""
    stack = [node]
    while stack:
        n = stack.pop()
        yield n
        stack.extend(c for _, c in child_nodes(n))


def share(root, r):
    """Makes one node of a tree the child of two parents, in place of another node of its class; says whether it did."""
    spots = {}
    for n in walk(root):
        for path, c in child_nodes(n):
            spots.setdefault(type(c), []).append((n, path, c))
    pairs = [v for v in spots.values() if len(v) > 1]
    if not pairs:
        return False
    (_, _, a), (parent, path, b) = r.sample(r.choice(pairs), 2)
    if a is b or any(x is parent for x in walk(a)) or any(x is a for x in walk(b)):
        return False

    def put(v, path):
        if not path:
            return a
        if isinstance(v, dict):
            return {k: put(x, path[1:]) if k == path[0] else x for k, x in v.items()}
        return type(v)(put(x, path[1:]) if i == path[0] else x for i, x in enumerate(v))
    setattr(parent, path[0], put(getattr(parent, path[0]), path[1:]))
    return True


def snapshot(v, types=True):
    """Everything observable about a value as nested tuples: used to notice any change to a tree, schema or option."""
    if isinstance(v, DataType):
        return ("T", v.type_name, snapshot(v.parameters)) if types else "T"
    if isinstance(v, Sql):
        out = [type(v).__module__ + "." + type(v).__qualname__]
        for a in attr.fields(type(v)):
            if a.name in ("_column_schema",):
                continue
            x = getattr(v, a.name)
            if not types and a.name == "data_type":
                continue
            out.append((a.name, snapshot(x, types)))
        # attributes which aren't fields may be bookkeeping (a cache of the class itself); that they don't change the behaviour shows elsewhere
        extra = sorted(n for n in set(vars(v)) - {a.name for a in attr.fields(type(v))} if not n.startswith("_")) if hasattr(v, "__dict__") else []
        out.extend((n, snapshot(getattr(v, n), types)) for n in extra if n != "data_type" or types)
        return tuple(out)
    if isinstance(v, (list, tuple)):
        return ("L",) + tuple(snapshot(x, types) for x in v)
    if isinstance(v, dict):
        return ("D",) + tuple((repr(k), snapshot(x, types)) for k, x in v.items())
    if isinstance(v, (set, frozenset)):
        return ("S",) + tuple(sorted(map(repr, v)))
    if type(v).__name__ in ("Schema", "SchemaField"):
        return (type(v).__name__,) + tuple((a.name, id(getattr(v, a.name)) if a.name == "source" else snapshot(getattr(v, a.name), types))
                                           for a in attr.fields(type(v)))
    return (type(v).__name__, repr(v))
