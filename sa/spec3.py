"""Specifications are written as Python text and translated to the same syntax-tree form as the repository's code."""
import ast
from .front import Node

def conv(n, file):
    if isinstance(n, list): return [conv(x, file) for x in n]
    if not isinstance(n, ast.AST): return n
    ln = getattr(n, "lineno", 0)
    t = type(n).__name__
    if t == "Constant":
        v = n.value
        if v is None or isinstance(v, bool): return Node("Name", {"id": repr(v)}, ln, file)
        if isinstance(v, str): return Node("Str", {"s": v}, ln, file)
        return Node("Num", {"n": v}, ln, file)
    if t == "Subscript":
        s = n.slice
        sl = conv(s, file) if isinstance(s, ast.Slice) else Node("Index", {"value": conv(s, file)}, ln, file)
        return Node("Subscript", {"value": conv(n.value, file), "slice": sl}, ln, file)
    if t == "arguments":
        return Node("arguments", {"args": [Node("Name", {"id": a.arg}, ln, file) for a in n.args], "vararg": n.vararg.arg if n.vararg else None,
                                  "kwarg": n.kwarg.arg if n.kwarg else None, "defaults": conv(n.defaults, file)}, ln, file)
    if t == "Call":
        return Node("Call", {"func": conv(n.func, file), "args": conv(n.args, file), "keywords": conv(n.keywords, file), "starargs": None, "kwargs": None}, ln, file)
    if t == "Try":
        return Node("TryExcept", {"body": conv(n.body, file), "orelse": conv(n.orelse, file), "handlers": [Node("ExceptHandler", {"type": conv(h.type, file), "name": Node("Name", {"id": h.name}, ln, file) if h.name else None, "body": conv(h.body, file)}, ln, file) for h in n.handlers]}, ln, file)
    if t == "Raise":
        return Node("Raise", {"type": conv(n.exc, file) if n.exc else None, "inst": None, "tback": None}, ln, file)
    d = {}
    for f in n._fields:
        d[f] = conv(getattr(n, f, None), file)
    return Node(t, d, ln, file)

def load_spec(path, name):
    src = open(path).read()
    return conv(ast.parse(src), "spec/" + name + ".py")
