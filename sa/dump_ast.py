# Run by Jython: parse Python-2 sources (never import or execute them) and dump their syntax trees as JSON.
import ast, json, sys

def conv(n):
    if isinstance(n, ast.AST):
        d = {"_t": n.__class__.__name__}
        for f in (n._fields or ()):
            try:
                d[f] = conv(getattr(n, f))
            except AttributeError:
                d[f] = None
        ln = getattr(n, "lineno", None)
        if isinstance(ln, (int, long)):
            d["lineno"] = int(ln)
        return d
    if isinstance(n, (list, tuple)):
        return [conv(x) for x in n]
    if n is None or isinstance(n, bool):
        return n
    if isinstance(n, (int, long)):
        return {"_n": "int", "v": str(int(n))}
    if isinstance(n, float):
        return {"_n": "float", "v": repr(n)}
    if isinstance(n, unicode):
        return n
    if isinstance(n, str):
        return n.decode("latin-1")
    if repr(n) == "DictComp":  # not an ast.AST in Jython, reachable through Java only
        from java.beans import Expression
        k = Expression(n, "getInternalKey", []).getValue()
        return {"_t": "DictComp", "key": conv(k), "value": conv(Expression(n, "getInternalValue", []).getValue()),
                "generators": [conv(g) for g in Expression(n, "getInternalGenerators", []).getValue()],
                "lineno": int(k.lineno)}
    return {"_n": "other", "v": repr(n)}

out = {}
for spec in open(sys.argv[1]).read().splitlines():
    name, path = spec.split("\t")
    src = open(path, "rb").read().replace("\r\n", "\n")
    if not src.endswith("\n"):
        src += "\n"
    try:
        out[name] = conv(ast.parse(src, path))
    except SyntaxError, e:
        out[name] = {"_error": str(e)}
f = open(sys.argv[2], "wb")
f.write(json.dumps(out))
f.close()
