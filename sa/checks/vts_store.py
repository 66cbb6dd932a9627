"""C05: what is stored is read back.  File effects are collected as a map path -> content, summarised by the loops that produce it."""
from ..registry import check
from ..check import *
from ..terms import *
from ..interp import DictObj, TupV, FuncVal, RaiseX, InstObj, ExtVal
import os as _os

class FileErr(Exception): pass

# ---- meaning of file operations on a virtual tree {path: "dir" | (serialisation, mode, value)}
def norm_path(p):
    if not isinstance(p, str): raise CantEval("path")
    return _os.path.normpath(p)
def s_join(M, a):
    if not all(isinstance(x, str) for x in a): raise CantEval("path")
    return "/".join(a)
def s_cat(M, a):
    if not all(isinstance(x, str) for x in a): raise CantEval("string")
    return "".join(a)
def s_add(M, a): return s_cat(M, a)
def walk(M, a):
    top = norm_path(a[0]); fs = M.fs
    out = []
    def go(d):
        if fs.get(d) != "dir": return
        ds = sorted(x for x in fs if fs[x] == "dir" and _os.path.dirname(x) == d); files = sorted(_os.path.basename(x) for x in fs if fs[x] != "dir" and _os.path.dirname(x) == d)
        out.append((d, [_os.path.basename(x) for x in ds], files))
        for x in ds: go(x)
    go(top)
    return out
def s_file(M, a): return ("handle", norm_path(a[0]), a[1] if len(a) > 1 else "r")
def load(M, a):
    h = a[0]
    if not (isinstance(h, tuple) and h[0] == "handle"): raise CantEval("handle")
    c = M.fs.get(h[1])
    if c is None or c == "dir": raise FileErr("no file %s" % h[1])
    if "r" not in h[2] or c[0] != "pickle": raise FileErr("%s is not readable as a pickle (mode %s)" % (h[1], h[2]))
    if ("b" in h[2]) != ("b" in c[1]): raise FileErr("%s was written in mode %s and is read in mode %s" % (h[1], c[1], h[2]))
    return c[2]
def m_read(M, a):
    h = a[0]
    if not (isinstance(h, tuple) and h[0] == "handle"): raise CantEval("handle")
    c = M.fs.get(h[1])
    if c is None or c == "dir": raise FileErr("no file %s" % h[1])
    return c[2]
def m_scan(M, a):
    t = a[1]
    if not isinstance(t, str): raise CantEval("text")
    return [("result", t, k) and (("parsed", t, k), k, k + 1) for k in range(M.rnd(("scan", t), 3))]
FSI = {"join": s_join, "cat": s_cat, "sadd": s_add, "ext:os.walk": walk, "file": s_file, "ext:pickle.load": load, "ext:cPickle.load": load, "mcall:read": m_read, "mcall:scanString": m_scan,
       "ext:os.listdir": lambda M, a: [x for d, ds, fs in walk(M, a)[:1] for x in ds + fs]}
FORBID = ("mcall", "ext", "attr", "str", "num", "call", "smeth", "fmt")

def model(env, fs, seed=0):
    M = Model(dict(env), seed, FORBID, FSI); M.fs = fs
    return M

class Fs(object):
    """effects on files, recorded in an analysed dictionary"""
    def __init__(self, exists=False): self.exists = exists
    def handlers(self):
        def makedirs(I, args, kw, node):
            if self.exists:
                e = T("exc", "OSError$EEXIST")
                raise RaiseX("OSError", e, node)
            I.setitem(I.fs, args[0], "dir", node)
        def dump(I, args, kw, node):
            f = args[1]
            if not (isinstance(f, Term) and f.op == "file"): raise Und("pickle target", node)
            I.setitem(I.fs, f.args[0], TupV(["pickle", f.args[1] if len(f.args) > 1 else "r", args[0]]), node)
        def errno(I, v, n=None):
            if isinstance(v, Term) and v.op == "exc" and v.args[0] == "OSError$EEXIST": return ExtVal("errno.EEXIST")
            return None
        return {"attr:errno": errno, "os.makedirs": makedirs, "os.mkdir": makedirs, "pickle.dump": dump, "cPickle.dump": dump}

@check("C05")
def c05(ctx):
    src = T("sym", "collections", "dict")
    # --- writer
    writer = None
    W = {}
    for exists in (False, True):
        fs = Fs(exists)
        I = ctx.interp(opaque=["examples_parser.examples_preformat_uni"], handlers=fs.handlers())
        f = I.func("examples_parser", "write_sympy_parseable_examples")
        if f is None or I.func("examples_parser", "examples_preformat_uni") is None: ctx.missing("vts/examples_parser.py:write_sympy_parseable_examples"); return
        where = floc(f)
        out = T("call", "examples_parser.examples_preformat_uni")
        def run():
            I.fs = DictObj([])
            try: I.call(f, [])
            except RaiseX as e: return ("raise", str(e.cls))
            return ("return", resolved(I, I.freeze(I.fs)))
        try: outs = I.explore(run); ctx.done(I)
        except (Und, HoistX) as e: ctx.und("writer", where, "analysis: %s" % e); ctx.done(I); continue
        W[exists] = (I, outs, out)
    for exists, (I, outs, out) in W.items():
        rule = "storing when the directories %s: no collection, file or example is left out" % ("exist already" if exists else "do not exist yet")
        bad = und = None
        for t in range(60):
            r = random.Random(t)
            dirs = {d: {n: ["ex%d" % r.randint(0, 9999) for _ in range(size(r, 2))] for n in ["f1", "f.3", "f.4"][:r.randint(0, 3)]} for d in ["Metitarski", "HidingProblems"][:r.randint(0, 2)]}
            done = False
            for o in outs:
                M = model({out: dirs}, {})
                try:
                    if not all(M.truth(M.ev(l)) for l in o.lits): continue
                    done = True
                    if o.value[0] == "raise":
                        if dirs: bad = bad or ("the writer raises %s" % o.value[1], show(dirs))
                        continue
                    got = M.ev(o.value[1])
                except CantEval as e: und = und or str(e); continue
                want = {}
                for d in dirs:
                    for n in dirs[d]: want[("Examples/%s/%s.pkl" % (d, n))] = dirs[d][n]
                files = {norm_path(k): v for k, v in got.items() if v != "dir"}
                vals = sorted(str(v[2]) for v in files.values() if isinstance(v, tuple))
                if vals != sorted(str(v) for v in want.values()): bad = bad or ("stored contents are %s" % vals, show(dirs))
        if bad: ctx.refuted(rule, where, bad[0], bad[1])
        elif und: ctx.und(rule, where, und)
        else:
            s = I.func("spec_examples", "stored")
            sp = I.explore(lambda: resolved(I, I.freeze(I.call(s, [out, "Examples"]))))
            ok = len(outs) == 1 and len(sp) == 1 and outs[0].value[0] == "return" and (outs[0].value[1] is sp[0].value or exists)
            (ctx.proved if ok else ctx.und)(rule, where, "summary %s" % render(outs[0].value)[:300])
    if False not in W: return
    IW, wouts, wsrc = W[False]
    # --- source collections
    I = ctx.interp(opaque=["examples_parser.parse_files_from_dir"])
    f = I.func("examples_parser", "parse_example_dirs")
    colls = None
    if f is not None:
        try:
            outs = I.explore(lambda: resolved(I, I.freeze(I.call(f, [])))); ctx.done(I)
            t = outs[0].value
            if len(outs) == 1 and t.op == "dict" and all(e[0] == "kv" and isinstance(e[1], str) for e in t.args[0]): colls = [(e[1], e[2]) for e in t.args[0]]
        except (Und, HoistX) as e: ctx.und("source collections", floc(f), str(e))
    if colls is None: ctx.und("source collections", "vts/examples_parser.py:parse_example_dirs", "not a fixed set of collections")
    else:
        rule = "every source collection is parsed from its own directory of the repository"
        bad = None; und = None
        M = model({}, {})
        from .. import front
        for name, t in colls:
            if isinstance(t, Term) and t.op == "call" and t.args[0] == "examples_parser.parse_files_from_dir":
                try: p = M.ev(t.args[1])
                except CantEval as e: und = str(e); continue
                full = _os.path.normpath(_os.path.join("/repo", "vts", p))
                last = _os.path.basename(p)
                if last.lower() != name.lower(): bad = bad or "collection %s is parsed from %s" % (name, p)
                elif not _os.path.isdir(full) and front.REPO == "/repo": bad = bad or "collection %s is parsed from %s, which does not exist" % (name, p)
            else: und = "collection %s is %s" % (name, render(t)[:100])
        if bad: ctx.refuted(rule, floc(f), bad, bad)
        elif und: ctx.und(rule, floc(f), und)
        else: ctx.proved(rule, floc(f), ", ".join(n for n, t in colls))
    # --- readers on what the writer stored
    names = sorted(set([n for n, t in colls] if colls else []) | {"Metitarski", "HidingProblems"})
    for fn, kind in (("unpickle_dirs_gen", "list"), ("unpickle_dirs", "dict")):
        I = ctx.interp()
        f = I.func("examples_parser", fn)
        if f is None: ctx.missing("vts/examples_parser.py:%s" % fn); continue
        rule = "%s yields every stored file of every stored collection, unchanged" % fn
        try:
            outs = I.explore(lambda: attempt(I, lambda: I.call(f, [])), lambda o, m: setattr(o, "fz", (o.value[0], resolved(I, I.freeze(o.value[1])) if o.value[0] == "return" else o.value[1]) if o.kind == "normal" else ("raise", o.value)))
        except (Und, HoistX) as e: ctx.und(rule, floc(f), "analysis: %s" % e); ctx.done(I); continue
        ctx.done(I)
        bad = und = None; n = 0
        for t in range(60):
            r = random.Random(1000 + t)
            dirs = {d: {x: ["ex%d" % r.randint(0, 9999) for _ in range(size(r, 2))] for x in r.choice([["f1", "f.3", "f.4"], ["F1", "f1", "aB.Txt"]])[:r.randint(0, 3)]} for d in names}
            try:
                fs = None
                for o in wouts:
                    M = model({wsrc: dirs}, {})
                    if o.value[0] == "return" and all(M.truth(M.ev(l)) for l in o.lits): fs = {norm_path(k): v for k, v in M.ev(o.value[1]).items()}
                if fs is None: continue
                for p in list(fs):
                    q = _os.path.dirname(p)
                    while q: fs.setdefault(q, "dir"); q = _os.path.dirname(q)
                for o in outs:
                    M = model({}, fs, t)
                    if not all(M.truth(M.ev(l)) for l in o.lits): continue
                    n += 1
                    if o.fz[0] == "raise": bad = bad or ("raises %s" % o.fz[1], show(fs)); continue
                    got = M.ev(o.fz[1])
                    if kind == "list":
                        want = sorted(str(v) for d in dirs.values() for v in d.values()); have = sorted(str(v) for v in got)
                    else:
                        want = {d: sorted(str(v) for v in dirs[d].values()) for d in dirs}; have = {d: sorted(str(v) for v in got.get(d, {}).values()) for d in dirs}
                    if want != have: bad = bad or ("stored %s but the reader yields %s" % (want, have), show(sorted(fs)))
            except FileErr as e: bad = bad or (str(e), show(sorted(fs)))
            except CantEval as e: und = und or str(e)
            if bad: break
        if bad: ctx.refuted(rule, floc(f), bad[0], bad[1]); continue
        sp = I.func("spec_examples", "load_all" if kind == "list" else "load_dirs")
        try:
            so = I.explore(lambda: resolved(I, I.freeze(I.call(sp, [I.thaw(T("list", (("one", "Metitarski"), ("one", "HidingProblems")))), "Examples"]))))
            eq = len(so) == 1 and len(outs) == 1 and (so[0].value is outs[0].fz[1] or same_t(I, so[0].value, outs[0].fz[1]))
        except (Und, HoistX) as e: eq = False
        if eq: ctx.proved(rule, floc(f), "summary equals the specification for every directory content")
        else: ctx.und(rule, floc(f), und or "no counterexample in %d instances; normal form %s" % (n, render(outs[0].fz)[:200]))
    # --- parsing of the source files
    I = ctx.interp()
    D = T("sym", "dir", "str")
    f = I.func("examples_parser", "parse_files_from_dir"); s = I.func("spec_examples", "parsed_dir")
    if f is None: return ctx.missing("vts/examples_parser.py:parse_files_from_dir")
    tree = {"src": "dir", "src/a": ("text", "r", "A"), "src/b.txt": ("text", "r", "B"), "src/sub": "dir", "src/sub/c": ("text", "r", "CCC"), "src/sub/D.Tptp": ("text", "r", "DD"), "src/e": ("text", "r", "E1")}
    class FM(Model): pass
    FM.fs = tree
    import sa.check as ck
    old = ck.Model
    ck.Model = FM
    try:
        equiv(ctx, I, "the examples of a file are all results of scanning that file's text, under the file's name", floc(f), lambda: I.call(f, [D]), lambda: I.call(s, [D]), lambda r: {D: r.choice(["src", "src/sub", "none"])}, interp=FSI, forbid=FORBID)
    finally: ck.Model = old
