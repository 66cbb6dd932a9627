"""C11: sign matrices served from memory and disk."""
import os.path
from ..registry import check
from ..check import *
from ..terms import *

def inv3(R):
    n = len(R)
    A = [[Fraction(x) for x in r] + [Fraction(int(i == j)) for j in range(n)] for i, r in enumerate(R)]
    for c in range(n):
        p = next((r for r in range(c, n) if A[r][c] != 0), None)
        if p is None: return None
        A[c], A[p] = A[p], A[c]
        A[c] = [x / A[c][c] for x in A[c]]
        for r in range(n):
            if r != c: A[r] = [x - A[r][c] * y for x, y in zip(A[r], A[c])]
    return tuple(tuple(r[n:]) for r in A)

def rows(t):
    """rows of a matrix literal"""
    if not (isinstance(t, Term) and t.op == "list"): return None
    out = []
    for s in t.args[0]:
        if s[0] != "one" or not (isinstance(s[1], Term) and s[1].op == "list"): return None
        r = s[1].args[0]
        if not all(x[0] == "one" and is_num(x[1]) for x in r): return None
        out.append(tuple(Fraction(x[1]) for x in r))
    return tuple(out) if out and all(len(r) == len(out) for r in out) else None

class Disk(object):
    def __init__(self, files=None): self.files = dict(files or {}); self.open = {}; self.asked = set()

def hooks(disk):
    """matrices as tensor powers of a small one; files as a map from path to the value last written there"""
    def matrix(I, args, kw, node):
        if len(args) != 1: return NotImplemented
        t = I.freeze(args[0])
        if isinstance(t, Term) and t.op in ("mat", "kron", "inv"): return t
        R = rows(t)
        return T("mat", R, 1) if R else NotImplemented
    def kron(I, args, kw, node):
        r = None
        for a in args:
            t = I.freeze(a)
            if not isinstance(t, Term): return NotImplemented
            if r is None: r = t
            elif r.op == t.op == "mat" and r.args[0] == t.args[0]: r = T("mat", r.args[0], r.args[1] + t.args[1])
            else: r = T("kron", r, t)
        return r
    def inv(I, v, args, kw, node):
        if isinstance(v, Term) and v.op == "mat":
            R = inv3(v.args[0])
            return T("mat", R, v.args[1]) if R else NotImplemented
        if isinstance(v, Term) and v.op == "inv": return v.args[0]
        return T("inv", v)
    def tr(I, v, node=None):
        if isinstance(v, Term) and v.op == "mat": return T("mat", tuple(zip(*v.args[0])), v.args[1])
        return NotImplemented
    def path(x, node):
        if isinstance(x, Term) and x.op == "join" and all(isinstance(y, str) for y in x.args): x = os.path.join(*x.args)
        if not isinstance(x, str): raise Und("file name not known", node)
        return os.path.normpath(x)
    def isfile(I, args, kw, node): p = path(args[0], node); disk.asked.add(p); return p in disk.files
    def opn(I, args, kw, node):
        p = path(args[0], node); mode = args[1] if len(args) > 1 else kw.get("mode", "r")
        if "r" in mode and p not in disk.files: raise RaiseX("IOError", None, node)
        if "w" in mode: disk.files[p] = T("emptyfile")
        f = T("file", p, mode); return f
    def fpath(t, node):
        if isinstance(t, Term) and t.op == "file": return t.args[0], t.args[1]
        raise Und("file not known", node)
    def dump(I, args, kw, node):
        p, m = fpath(args[1], node)
        disk.files[p] = I.freeze(args[0]); return None
    def load(I, args, kw, node):
        p, m = fpath(args[0], node)
        return I.thaw(disk.files[p])
    def nop(I, args, kw, node): return None
    return {"sympy.Matrix": matrix, "*.Matrix": matrix, "*.TensorProduct": kron, "method:inv": lambda I, v, a, k, n: inv(I, v, a, k, n) if isinstance(v, Term) else NotImplemented,
            "attr:T": lambda I, v, n: None if tr(I, v) is NotImplemented else tr(I, v), "method:transpose": lambda I, v, a, k, n: tr(I, v), "os.path.isfile": isfile, "os.path.exists": isfile, "builtin:open": opn, "open": opn, "io.open": opn, "pickle.dump": dump, "pickle.load": load, "cPickle.dump": dump, "cPickle.load": load,
            "os.makedirs": nop, "os.mkdir": nop, "os.path.isdir": lambda I, a, k, n: True, "time.time": lambda I, a, k, n: 0}

KINDS = ("get_matrix", "get_matrix_inverse")

def process(ctx, disk, reqs):
    """abstract run of one process answering the requests; [("return", value) | ("raise", class)]"""
    I = ctx.interp(handlers=hooks(disk)); I.unroll = 9
    out = []
    def go():
        for k, n in reqs:
            f = I.func("matrix_of_signs", k)
            out.append(attempt(I, lambda: I.call(f, [n])))
            if out[-1][0] == "return": out[-1] = ("return", resolved(I, I.freeze(out[-1][1])))
        return None
    res = I.explore(go)
    ctx.done(I)
    if len(res) != 1: raise Und("several paths for one history")
    return out

@check("C11")
def c11(ctx):
    I = ctx.interp(handlers=hooks(Disk())); where = "vts/matrix_of_signs.py"
    fs = [I.func("matrix_of_signs", k) for k in KINDS]
    if None in fs: return ctx.missing("vts/matrix_of_signs.py:get_matrix, get_matrix_inverse")
    try: base = process(ctx, Disk(), [(KINDS[0], 1)])[0]
    except (Und, HoistX, RecursionError) as e: return ctx.und("matrices are served", where, "analysis: %s" % e)
    if base[0] != "return" or not isinstance(base[1], Term) or base[1].op != "mat": return ctx.und("matrices are served", where, "matrix for one polynomial not recognised: %s" % (render(base[1])[:200],))
    R = base[1].args[0]; RI = inv3(R)
    def want(k, n): return T("mat", R if k == KINDS[0] else RI, n)
    ALL = [(k, n) for n in range(1, 6) for k in KINDS]
    cnt = [0]
    def judge(rule, disk, hist, reqs, got):
        for (k, n), (kind, v) in zip(reqs, got):
            cnt[0] += 1
            w = want(k, n)
            if kind == "return" and v is w: continue
            inst = "%s: %s(%d) gives %s, expected the %s of size %d" % (hist, k, n, name(v) if kind == "return" else "exception %s" % v, "inverse" if k == KINDS[1] else "matrix", n)
            if kind == "return" and not (isinstance(v, Term) and v.op in ("mat", "kron", "emptyfile", "dict") or is_const(v)): ctx.und(rule, where, inst); return False
            ctx.refuted(rule, floc(I.func("matrix_of_signs", k)), "a request is answered with a value that is not the one of its size and kind", inst); return False
        return True
    def name(v):
        if isinstance(v, Term) and v.op == "mat": return "%s of size %d" % ("the matrix" if v.args[0] == R else "the inverse" if v.args[0] == RI else "a different matrix", v.args[1])
        return render(v)[:120]
    def run(rule, hists, detail):
        """hists: lists of processes, each (initial files or None, requests)"""
        try:
            for h in hists:
                files = {}
                for n, (extra, reqs) in enumerate(h):
                    d = Disk(extra if extra is not None else files)
                    got = process(ctx, d, reqs)
                    if not judge(rule, d, "; new process; ".join(", ".join("%s(%d)" % q for q in r) for _, r in h[:n + 1]), reqs, got): return
                    files = d.files
            ctx.proved(rule, where, detail)
        except (Und, HoistX, RecursionError) as e: ctx.und(rule, where, "analysis: %s" % e)
    run("every history of requests in one process", [[(None, list(h))] for h in [[a] for a in ALL] + [[a, b] for a in ALL for b in ALL]] +
        [[(None, ALL + ALL)], [(None, ALL[::-1] + ALL)], [(None, [(k, n) for k in KINDS for n in (5, 3, 4, 2, 1, 5)])]], "all requests and pairs of requests, then all sizes upwards and downwards")
    run("every pair of processes sharing the disk", [[(None, [a]), (None, [b] + [c for c in ALL if c != b])] for a in ALL for b in ALL], "a process asks any size and kind, a later one asks all sizes and kinds in turn")
    # files left by any earlier subset of completed requests
    try:
        d = Disk(); process(ctx, d, ALL); full = d.files
        names = sorted(full)
        run("any single stored file, or all but one", [[({f: full[f]}, [q])] for f in names for q in ALL] + [[({g: full[g] for g in names if g != f}, [q])] for f in names for q in ALL], "%d files" % len(names))
    except (Und, HoistX, RecursionError) as e: ctx.und("stored files", where, "analysis: %s" % e)
    rule = "sizes that are not supported are rejected"
    try:
        ok = True
        d = Disk(); process(ctx, d, ALL); left = d.files
        for k in KINDS:
            for stored, pre in ((False, []), (False, ALL), (True, [])):
                for n in (0, -1, 6, 7, 8, Fraction(5, 2), "2", None):
                    got = process(ctx, Disk(dict(left)) if stored else Disk(), pre + [(k, n)])[-1]; cnt[0] += 1
                    if got[0] != "raise":
                        ctx.refuted(rule, floc(I.func("matrix_of_signs", k)), "an unsupported size is served", "%s(%r) gives %s" % (k, n, name(got[1]))); ok = False; break
        if ok: ctx.proved(rule, where, "%d requests" % cnt[0])
    except (Und, HoistX, RecursionError) as e: ctx.und(rule, where, "analysis: %s" % e)
