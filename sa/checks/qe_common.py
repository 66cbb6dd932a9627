"""Polynomials and sign tables for the elimination procedures.

A polynomial in the eliminated variable x and parameters is represented by its value at a point where the powers of the variables are
far apart, so that sums and products of representatives represent sums and products.  The algebra back end handed to the procedures
answers with the mathematical meaning of each operation (C17 relates the real back ends to it).  Signs in tables are unknowns; reading
one splits the analysis into one path for each sign."""
import itertools, random
from functools import lru_cache
from ..check import *
from ..terms import *
from ..model import Model, CantEval, soft
from ..symval import MP
from ..interp import Bound, PyFn, InstObj, ClassVal, DictObj, ListObj, SetObj, TupV, Builtin, RaiseX, Dead, Und, HoistX, One

import sys; sys.set_int_max_str_digits(0)
X = "x"; PAR = ("a", "b", "c")
B = 10 ** 7; E = 8
def idx(m):
    d = dict(m); k = 0
    for v in (X,) + PAR:
        e = d.pop(v, 0)
        if e >= E: raise Und("degree")
        k = k * E + e
    if d: raise Und("variable")
    return k
def enc(p):
    r = 0
    for m, c in p.d.items():
        if c.denominator != 1: raise Und("coefficient")
        r += int(c) * B ** idx(m)
    return r
@lru_cache(None)
def dec(n):
    if isinstance(n, bool) or not isinstance(n, int):
        if isinstance(n, Fraction) and n.denominator == 1: n = int(n)
        else: raise Und("polynomial %r" % (n,))
    d = {}; k = 0
    while n:
        n, c = divmod(n, B)
        if c > B // 2: c -= B; n += 1
        if c:
            j = k; m = []
            for v in reversed((X,) + PAR):
                j, e = divmod(j, E)
                if e: m.append((v, e))
            if j: raise Und("degree")
            d[tuple(sorted(m))] = c
        k += 1
    return MP(d)
def poly(text):
    """token of a polynomial written in Python syntax"""
    env = {v: MP.var(v) for v in (X,) + PAR}
    r = eval(text.replace("^", "**"), {"__builtins__": {}}, env)
    return enc(r if isinstance(r, MP) else MP.const(r))

NEG = -1000
@lru_cache(None)
def deg(n):
    p = dec(n)
    return NEG if not p.d else p.degree(X)
@lru_cache(None)
def lc(n):
    p = dec(n); return enc(p.coeff(X, p.degree(X)))
@lru_cache(None)
def lt(n):
    p = dec(n); return enc(p.coeff(X, p.degree(X)) * MP.var(X) ** p.degree(X))
def tail(n): return n - lt(n)
@lru_cache(None)
def diff(n): return enc(dec(n).diff(X))
@lru_cache(None)
def hasvar(n): return bool(dec(n).syms())
def isconst(n): return deg(n) <= 0
@lru_cache(None)
def ls(n):
    p = dec(n)
    return 0 if not p.d else int(p.d[max(p.d, key=idx)])
@lru_cache(None)
def pdiv(f, g):
    p, q = dec(f), dec(g)
    if not q.d: raise RaiseX("ZeroDivisionError", None, None)
    if deg(f) < deg(g): return 0, f
    N = p.degree(X) - q.degree(X) + 1; l = q.coeff(X, q.degree(X)); quo = MP({})
    while p.d and p.degree(X) >= q.degree(X):
        c = p.coeff(X, p.degree(X)) * MP.var(X) ** (p.degree(X) - q.degree(X))
        p = p * l - c * q; quo = quo * l + c; N -= 1
        if q.degree(X) == 0 and not p.d: break
    return enc(quo * l ** max(N, 0)), enc(p * l ** max(N, 0))
def fac(n): return 1 if n <= 1 else n * fac(n - 1)
def sgn(n): return (n > 0) - (n < 0)
def rem(f, g): return pdiv(f, g)[1]

def closure(ps):
    """all polynomials needed: derivatives, tails, pairwise remainders"""
    done = {0}; todo = list(ps)
    while todo:
        h = todo.pop(0)
        if h in done: continue
        new = [tail(h), diff(h)]
        for q in done:
            if deg(q) > 0:
                if deg(q) <= deg(h): new.append(rem(h, q))
                if deg(q) >= deg(h) > 0: new.append(rem(q, h))
        if len(done) > 60: raise Und("closure")
        done.add(h); todo += [n for n in new if n not in done]
    return sorted(done, key=lambda n: (deg(n), str(show_poly(n))))
@lru_cache(None)
def show_poly(n):
    p = dec(n)
    if not p.d: return "0"
    def mono(m): return "*".join("%s^%d" % (v, e) if e > 1 else v for v, e in m)
    return " + ".join(("%s*%s" % (c, mono(m)) if c != 1 else mono(m)) if m else str(c) for m, c in sorted(p.d.items(), key=lambda z: -idx(z[0])))

def numb(I, a):
    if isinstance(a, Term):
        fs = [x for x in syms(a) if x in I.few]
        if fs: return subst(a, {x: I.narrow(x) for x in fs})
    return a
ALG = T("sym", "algebra")
def algebra():
    def one(f):
        def h(I, v, args, kw, node):
            if v is not ALG: return NotImplemented
            vals = [numb(I, a) for a in list(args) + list(kw.values())]
            if not all(isinstance(a, (int, Fraction)) and not isinstance(a, bool) for a in vals): raise Und("operation on an unknown polynomial", node)
            r = f(*vals)
            return TupV(r) if isinstance(r, tuple) else r
        return h
    def sign(n):
        p = dec(n)
        if p.syms(): raise Und("sign of a polynomial")
        return sgn(int(p.cval()))
    def div(f, g):
        if g == poly("x"):
            p = dec(f); t = p.coeff(X, 0); q = MP({})
            for k in range(1, p.degree(X) + 1): q = q + p.coeff(X, k) * MP.var(X) ** (k - 1)
            return enc(q), enc(t)
        raise Und("division")
    ops = {"LT": lt, "LC": lc, "LS": ls, "degree": deg, "p_tail": tail, "has_variable": hasvar, "pseudo_div": pdiv, "derivative": diff, "zero": lambda: 0, "e_var": lambda: poly("x"), "sign": sign, "div": div}
    return {"method:" + k: one(f) for k, f in ops.items()}

def quiet(mod, cls):
    return {"fn:%s.%s.%s" % (mod, cls, f): (lambda I, f, a, k, n: None) for f in ("pprint_diagram", "pprint_clause")}

def machine(ctx, mod, cls, extra=None, deadline=None):
    """analyser and an instance of the procedure class over the abstract algebra"""
    h = algebra(); h.update(quiet(mod, cls)); h.update(extra or {})
    I = ctx.interp(handlers=h, deadline=deadline); I.deep = 12; I.unroll = 12
    c = I.module(mod).f.get(cls) if I.module(mod) else None
    if not isinstance(c, ClassVal): return I, None
    return I, I.instantiate(c, [ALG], {}, None)

def cell(I, name, vals=(-1, 0, 1)):
    s = T("sym", name, "int"); I.few[s] = vals
    return s

def plain(I, v):
    """value of the analysis as a Python structure; tables as dictionaries, signs known on the path replaced"""
    if isinstance(v, TupV): return tuple(plain(I, x) for x in v.items)
    if isinstance(v, DictObj):
        if not all(e[0] == "kv" for e in v.f["ents"]): raise Und("table")
        return {plain(I, e[1]): plain(I, e[2]) for e in v.f["ents"]}
    if isinstance(v, (ListObj, SetObj)):
        segs = v.f["segs"]
        if not all(s[0] == "one" for s in segs): raise Und("list")
        r = [plain(I, s[1]) for s in segs]
        return r if isinstance(v, ListObj) else frozenset(r)
    if isinstance(v, Term):
        if v.op in ("tup", "list", "dict", "setc", "set"): return plain(I, I.thaw(v))
        return subst(v, I.S.get("fewv", {}))
    return v

def unknowns(v, out=None):
    out = set() if out is None else out
    if isinstance(v, dict):
        for k, x in v.items(): unknowns(k, out); unknowns(x, out)
    elif isinstance(v, (list, tuple, set, frozenset)):
        for x in v: unknowns(x, out)
    elif isinstance(v, Term): out |= {s for s in syms(v)}
    return out
def fill(v, env):
    if isinstance(v, dict): return {fill(k, env): fill(x, env) for k, x in v.items()}
    if isinstance(v, (list, tuple)): return type(v)(fill(x, env) for x in v)
    if isinstance(v, (set, frozenset)): return frozenset(fill(x, env) for x in v)
    if isinstance(v, Term):
        return Model(dict(env), 0, ("mcall", "attr", "ext", "call", "toint", "num", "app"), {}).ev(v)
    return v

def joint(ctx, I, rule, where, setup, impl, spec, view, limit=6000, show=None):
    """setup() -> input; per path of spec(input), impl(input): the views agree, whatever the signs not looked at"""
    bad = []; n = [0]
    def go():
        st = setup()
        s = attempt(I, lambda: spec(st)); 
        i = attempt(I, lambda: impl(st))
        return (s, i)
    def cap(o, m):
        if o.kind != "normal":
            raise Und("analysis left the procedure by %s" % o.kind)
        n[0] += 1
        (sk, sv), (ik, iv) = o.value
        if sk == "return": sv = view(plain(I, sv))
        if ik == "return": iv = view(plain(I, iv))
        if (sk, sv) == (ik, iv): return
        if len(bad) < 40: bad.append(((sk, sv), (ik, iv), dict(I.S.get("fewv", {})), o.lits))
    try: I.explore(go, cap, limit)
    except (Und, HoistX, RecursionError) as e:
        ctx.done(I)
        if not bad: return ctx.und(rule, where, "analysis: %s" % e)
    else: ctx.done(I)
    if not bad: return ctx.proved(rule, where, "%d paths agree" % n[0])
    rng = random.Random(7); why = ""
    for s, i, known, lits in bad:
        if s[0] == "raise" and s[1] in ("NameError", "AttributeError"): why = "specification: %s" % (s[1],); continue
        us = sorted(unknowns(s) | unknowns(i) | {y for l in lits for y in syms(l)}, key=lambda t: t.uid)
        if any(u not in I.few and u not in known for u in us): why = "unknown value"; continue
        for t in range(40):
            env = {u: known[u] if u in known else rng.choice(I.few[u]) for u in us}
            try:
                M = Model(dict(env), 0, ("mcall", "attr", "ext", "call"), {})
                if not all(M.truth(M.ev(l)) for l in lits): continue
                a, b = fill(s, env), fill(i, env)
            except (CantEval, RecursionError) as e: why = str(e); continue
            if soft(a) or soft(b): why = "uninterpreted operation"; continue
            if a != b:
                return ctx.refuted(rule, where, "expected %s, the code gives %s" % (pp(a), pp(b)), "%s; signs: %s" % (show or "", ", ".join("%s = %s" % (k.args[0], v) for k, v in sorted(env.items(), key=lambda z: str(z[0].args[0]))) or "none"))
            if not us: break
    return ctx.und(rule, where, "differs on %d paths without a distinguishing instance (%s)" % (len(bad), why))

def pp(v):
    def go(x):
        if isinstance(x, dict): return "{" + ", ".join("%s: %s" % (go(k), go(y)) for k, y in x.items()) + "}"
        if isinstance(x, (list, tuple)): return ("[%s]" if isinstance(x, list) else "(%s)") % ", ".join(map(go, x))
        if isinstance(x, frozenset): return "{%s}" % ", ".join(sorted(map(go, x)))
        if isinstance(x, int) and not isinstance(x, bool) and abs(x) >= B // 2: return show_poly(x)
        if isinstance(x, Term): return render(x)
        return repr(x)
    return go(v)[:700]
