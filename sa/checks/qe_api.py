"""C17: the algebra back ends of the elimination procedures."""
import itertools
from ..registry import check
from ..check import *
from ..terms import *
from ..interp import Bound, FuncVal, ClassVal, RaiseX, Und
from ..front import Node
from ..live import kids
from ..symval import MP, INTERP, SYMOPS, PolyV, mp, name as sym_name, simp_poly, gens, x_LC, x_LT
from ..model import CantEval

# ------------------------------------------------------------------ meaning of the computer-algebra operations, for instances
def order(p, vs):
    "terms by the powers of the given variables, in order; ties by their sum"
    return [sum((MP({m: c}) for m, c in p.d.items() if tuple(dict(m).get(v, 0) for v in vs) == k), MP({})) for k in sorted({tuple(dict(m).get(v, 0) for v in vs) for m in p.d}, reverse=True)], vs
def lc_many(M, a):
    p = mp(a[0])
    if len(a) > 1 and isinstance(a[1], (set, frozenset, list, tuple)):
        vs = sorted(sym_name(v) for v in a[1]); ts, _ = order(p, vs)
        if not ts: return Fraction(0)
        t = ts[0]; d = {}
        for m, c in t.d.items():
            k = tuple(x for x in m if x[0] not in vs); d[k] = d.get(k, 0) + c
        return simp_poly(MP(d))
    return x_LC(M, a)
def division(M, a, pseudo=False):
    p, q = mp(a[0]), mp(a[1]); v = gens(a[2] if len(a) > 2 else None, p * q)
    if not q.d: raise CantEval("division by zero")
    l = q.coeff(v, q.degree(v)); n = q.degree(v)
    if not pseudo and not l.isconst(): raise CantEval("division by a polynomial")
    quo = MP({}); r = p; k = max(p.degree(v) - n + 1, 0)
    if p.degree(v) < n: return (Fraction(0), simp_poly(p))
    while r.d and r.degree(v) >= n:
        c = r.coeff(v, r.degree(v)) * MP.var(v) ** (r.degree(v) - n)
        if pseudo: r = r * l - c * q; quo = quo * l + c
        else: c = c / l.cval(); r = r - c * q; quo = quo + c
        k -= 1
        if n == 0 and not r.d: break
    if pseudo: r = r * l ** max(k, 0); quo = quo * l ** max(k, 0)
    return (simp_poly(quo), simp_poly(r))
MEAN = dict(INTERP)
MEAN.update({"ext:sympy.LC": lc_many, "ext:sympy.div": division, "ext:sympy.pdiv": lambda M, a: division(M, a, True), "ext:sympy.prem": lambda M, a: division(M, a, True)[1],
             "ext:sympy.pquo": lambda M, a: division(M, a, True)[0], "ext:sympy.rem": lambda M, a: division(M, a)[1], "ext:sympy.quo": lambda M, a: division(M, a)[0]})
def some_poly(r, scalar=False):
    if scalar: return Fraction(r.randint(-3, 3))
    p = MP({})
    for k in range(r.randint(1, 3)): p = p + MP.const(r.choice([-2, -1, 1, 3])) * MP.var("x") ** r.randint(0, 3) * MP.var("a") ** r.randint(0, 1) * MP.var("t") ** r.choice([0, 0, 1])
    return simp_poly(p) if p.d else Fraction(2)
def some(r, variables, args, name=""):
    e = {}
    vs = ["x", "a"]
    for k, v in enumerate(variables): e[v] = MP.var(vs[k])
    ps = [some_poly(r, name == "sign") for _ in range(2)]
    for a in args: e[a] = r.choice(ps)
    return e

# operations with their number of arguments
OPS = {"LT": 1, "LC": 1, "LS": 1, "degree": 1, "div": 2, "p_tail": 1, "e_var": 0, "has_variable": 1, "pseudo_div": 2, "derivative": 1, "zero": 0, "sign": 1}
PLAIN, CACHED = ("sympywrapper", "SympyWrapper"), ("cachedsympywrapper", "CachedSympyWrapper")

def requested(mods):
    """operations the procedures ask for, with the call"""
    out = []
    def walk(n, mod):
        if n._t == "Call" and n.func._t == "Attribute" and n.func.value._t == "Attribute" and n.func.value.attr == "_algebra":
            out.append((n.func.attr, len(n.args), len(n.d.get("keywords") or []), n))
        elif n._t == "Attribute" and n.value._t == "Attribute" and n.value.attr == "_algebra":
            out.append((n.attr, None, 0, n))
        for k in kids(n): walk(k, mod)
    for m in ("muchnik", "cohenhorm"):
        if m in mods: walk(mods[m], m)
    return out

def make(I, which, v):
    mod, cls = which
    c = I.module(mod).f.get(cls) if I.module(mod) else None
    return I.instantiate(c, [v], {}, None) if isinstance(c, ClassVal) else None
def ask(I, o, name, args):
    return I.call(I.getattr(o, name), args)

@check("C17")
def c17_arity(ctx):
    for mod, cls in (PLAIN, CACHED):
        I = ctx.interp()
        v = T("sym", "variable"); o = make(I, (mod, cls), v)
        if o is None: ctx.missing("highschool_qe/%s.py:%s" % (mod, cls)); continue
        seen = {}
        for name, n, kw, node in requested(ctx.mods): seen.setdefault((name, n), []).append((kw, node))
        for name, n in OPS.items(): seen.setdefault((name, n), [])
        for (name, n), uses in sorted(seen.items(), key=str):
            rule = "%s answers %s%s" % (cls, name, "" if n is None else " with %d argument%s" % (n, "" if n == 1 else "s"))
            f = o.cls.find(name)
            where = loc(uses[0][1]) if uses else "highschool_qe/%s.py:%s" % (mod, cls)
            if f is None: ctx.refuted(rule, where, "%s has no operation %s" % (cls, name)); continue
            if not isinstance(f, FuncVal): ctx.und(rule, where, "not a plain method"); continue
            if n is None: ctx.proved(rule, floc(f)); continue
            a = f.node.args; most = len(a.args) - 1; least = most - len(a.d.get("defaults") or [])
            if a.d.get("vararg"): most = 99
            if any(kw for kw, _ in uses): ctx.und(rule, where, "keyword arguments"); continue
            # the base class refuses every operation
            own = f.qual.split(".")[-2] if "." in f.qual else ""
            if least <= n <= most: ctx.proved(rule, floc(f))
            else: ctx.refuted(rule, where, "%s takes %d arguments" % (f.qual, most))
        ctx.done(I)

@check("C17")
def c17_plain(ctx):
    for name, n in OPS.items():
        I = ctx.interp()
        v = T("sym", "variable"); args = [T("sym", "pq"[k]) for k in range(n)]
        o = make(I, PLAIN, v); s = I.func("spec_algebra", name)
        if o is None: return ctx.missing("highschool_qe/sympywrapper.py:SympyWrapper")
        f = o.cls.find(name)
        equiv(ctx, I, "SympyWrapper.%s is that operation with respect to the eliminated variable" % name, floc(f) if isinstance(f, FuncVal) else "highschool_qe/sympywrapper.py",
              lambda: ask(I, make(I, PLAIN, v), name, args), lambda: I.call(s, [v] + args), lambda r: some(r, [v], args, name), interp=MEAN, forbid=SYMOPS)

@check("C17")
def c17_cached(ctx):
    """after any earlier operation on any arguments the caching back end answers as the plain one, also when another back end for another variable was used"""
    for first, n1 in list(OPS.items()) + [(None, 0)]:
        for name, n in OPS.items():
            if ctx.tier != "thorough" and first is not None and (n1 == 0 or n == 0): continue
            I = ctx.interp(); I.unroll = I.deep = 6
            v, w = T("sym", "variable"), T("sym", "other variable")
            a1 = [T("sym", "rs"[k]) for k in range(n1)]; args = [T("sym", "pq"[k]) for k in range(n)]
            if make(I, CACHED, v) is None: return ctx.missing("highschool_qe/cachedsympywrapper.py:CachedSympyWrapper")
            f = make(I, CACHED, v).cls.find(name)
            def impl():
                o = make(I, CACHED, v)
                if first:
                    other = make(I, CACHED, w)
                    ask(I, other, first, a1); ask(I, o, first, a1)
                return TupV([ask(I, o, name, args), ask(I, o, name, args)])
            def spec():
                o = make(I, PLAIN, v)
                r = ask(I, o, name, args)
                return TupV([r, r])
            def alike(I, x, y):
                if same(I, x, y): return True
                x, y = resolved(I, I.freeze(x)), resolved(I, I.freeze(y))
                # arguments equal on this path are interchangeable
                for r, p in itertools.product(a1 + [w], args + [v]):
                    if I.facts.decide(eq_any(r, p)) is True: x, y = subst(x, {r: p}), subst(y, {r: p})
                return same_t(I, x, y)
            equiv(ctx, I, "caching back end: %s%s" % (name, " after %s" % first if first else " asked twice"), floc(f) if isinstance(f, FuncVal) else "highschool_qe/cachedsympywrapper.py", impl, spec,
                  lambda r: some(r, [v, w], a1 + args, "sign" if "sign" in (name, first) else ""), same_fn=alike, interp=MEAN, forbid=SYMOPS)

@check("C17")
def c17_cached_related(ctx):
    """the same with arguments that are related to each other: equal, opposite, constant, the variable itself, and asked before the other way round"""
    p, v, w = T("sym", "p"), T("sym", "variable"), T("sym", "other variable")
    one = [p, v, pneg(p), pneg(v), 0, 1, -1, 3]
    two = [(p, pneg(p)), (pneg(p), p), (p, p), (p, v), (v, p), (p, 1), (p, -1), (p, 3), (v, v), (v, pneg(v)), (pmul(p, p), p), (p, pmul(p, p)), (padd(p, 1), p), (3, p)]
    for name, n in OPS.items():
        for args in [[a] for a in one if isinstance(a, Term) or name not in ("LS", "has_variable")] if n == 1 else [list(t) for t in two] if n == 2 else []:
            for before in [None] + [b for b in ([[pneg(args[0])], [padd(args[0], 1)]] if n == 1 else [args[::-1], [args[0], args[0]], [pneg(args[0]), args[1]], [args[0], pneg(args[1])]]) if b != args]:
                I = ctx.interp(); I.unroll = I.deep = 6
                I.handlers["builtin:str"] = lambda I_, a, k, nd: render(a[0]) if len(a) == 1 and isinstance(a[0], Term) else NotImplemented
                if make(I, CACHED, v) is None: return
                f = make(I, CACHED, v).cls.find(name)
                def impl():
                    o = make(I, CACHED, v)
                    if before:
                        try: ask(I, o, name, before)
                        except RaiseX: pass
                    return ask(I, o, name, args)
                def alike(I, x, y):
                    if same(I, x, y): return True
                    # a polynomial equal to its opposite is 0
                    for a, b in zip(before or (), args):
                        for z in (p, v):
                            if a == pneg(b) and z in syms(b) and I.facts.decide(eq_any(a, b)) is True: x, y = subst(resolved(I, I.freeze(x)), {z: 0}), subst(resolved(I, I.freeze(y)), {z: 0})
                    return same_t(I, x, y)
                sh = lambda l: ", ".join(render(a) if isinstance(a, Term) else str(a) for a in l)
                equiv(ctx, I, "caching back end: %s(%s)%s" % (name, sh(args), " after %s(%s)" % (name, sh(before)) if before else ""), floc(f) if isinstance(f, FuncVal) else "highschool_qe/cachedsympywrapper.py", impl, lambda: ask(I, make(I, PLAIN, v), name, args),
                      lambda r: some(r, [v, w], [p], "sign" if name == "sign" else ""), same_fn=alike, interp=MEAN, forbid=SYMOPS)
