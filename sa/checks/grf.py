"""C20, C23, C24, C25: the geometric relevance filter."""
from ..registry import check
from ..check import *
from ..terms import *
from ..interp import Bound, PyFn, InstObj, ClassVal, DictObj, ListObj, TupV, ExtVal, MISSING
from .vts_checker import lsym
from .qe_common import plain
TRUTH = (False, True, None)
OPS = (">", "<", "<=", ">=", "=", "!=")
FORBID = ("mcall", "attr", "ext", "call", "num", "str")

VARS = tuple(T("sym", "x%d" % i) for i in range(6))
def sage(I, mod="grf", **more):
    """names Sage provides: coercion into a ring keeps the polynomial; a ring of n variables has n generators"""
    m = I.module(mod)
    if m is None: return None
    I.handlers.update({"call:ring": lambda I_, f, a, k, n: a[0], "call:sageQQ": lambda I_, f, a, k, n: a[0], "index:sageQQ": lambda I_, v, i, n: T("ring", 1)})
    def gens(I_, v, a, k, n):
        if isinstance(v, Term) and v.op == "ring" and isinstance(v.args[0], int): return TupV(VARS[:v.args[0]])
        return NotImplemented
    I.handlers["method:gens"] = gens
    def polyring(I_, a, k, n):
        c = [x for x in list(a) + list(k.values()) if isinstance(x, int) and not isinstance(x, bool)]
        if len(c) != 1: raise Und("polynomial ring", n)
        return T("ring", c[0])
    g = {"true": True, "false": False, "parent": PyFn(lambda I_, a, k, n: RING, "parent"), "QQ": T("sageQQ"), "PolynomialRing": PyFn(polyring, "PolynomialRing"),
         "floor": PyFn(lambda I_, a, k, n: rounded(I_, "floor", a[0]), "floor"), "ceil": PyFn(lambda I_, a, k, n: rounded(I_, "ceil", a[0]), "ceil")}
    g.update(more)
    for n, v in g.items():
        if m.f.get(n) is None or n in more: m.f[n] = v
    return m

def rounded(I, which, v):
    if isinstance(v, (int, Fraction)) and not isinstance(v, bool):
        import math
        return math.floor(v) if which == "floor" else math.ceil(v)
    return T("app", which, I.freeze(v))

P = T("sym", "point", "dict"); Q = T("sym", "earlier point", "dict")
def cls(I, name, mod="grf"):
    c = I.module(mod).f.get(name) if I.module(mod) else None
    return c if isinstance(c, ClassVal) else None

RING = PyFn(lambda I_, a, k, n: a[0], "ring")
def poly_handlers():
    def variables(I, v, a, k, n): return T("app", "variables", I.freeze(v), "list")
    def substitute(I, v, a, k, n):
        if len(a) == 1 and same(I, a[0], P): return v          # a polynomial stands for its value at the point
        if len(a) == 1 and same(I, a[0], Q): return T("app", "other", I.freeze(v))
        return NotImplemented
    def reduce(I, v, a, k, n): return T("app", "reduced", I.freeze(v), I.freeze(a[0]))
    return {"method:variables": variables, "method:substitute": substitute, "method:subs": substitute, "method:reduce": reduce, "method:parent": lambda I, v, a, k, n: RING}

@check("C20")
def c20(ctx):
    c20_atom(ctx); c20_negate(ctx); c20_goal(ctx)

def c20_atom(ctx):
    l, r = T("sym", "lhs"), T("sym", "rhs")
    for op, history in [(o, h) for o in OPS + ("==", ">>", "") for h in (False, True)]:
        I = ctx.interp(handlers=poly_handlers()); sage(I)
        c = cls(I, "RCF_Atom"); s = I.func("spec_grf", "atom_value")
        if c is None: return ctx.missing("GRF/grf.sage:RCF_Atom")
        V = T("app", "variables", psub(l, r), "list")
        ev = c.find("eval_on_dict")
        def gen(q):
            names = ["x%d" % i for i in range(4)]
            return {T("app", "other", psub(l, r)): q.randint(-1, 1), Q: {n: q.randint(-3, 3) for n in q.sample(names, q.randint(1, 4))}, l: q.randint(-2, 2), r: q.randint(-2, 2), V: q.sample(names, q.randint(0, 3)), P: {n: q.randint(-3, 3) for n in q.sample(names, q.randint(1, 4))}}
        def impl():
            a = I.instantiate(c, [l, op, r], {}, None)
            if history: I.call(I.getattr(a, "eval_on_dict"), [Q])
            return I.call(I.getattr(a, "eval_on_dict"), [P])
        equiv(ctx, I, "an atom with relation '%s' is true exactly when left minus right stands in it to 0; undefined without a value for one of its variables%s" % (op, ", also after an evaluation elsewhere" if history else ""), floc(ev), impl,
              lambda: I.call(s, [l, op, r, V, P, None]), gen, forbid=FORBID, raise_ok=lambda a, b: True, assume=[sg(length(P), (1,)), sg(length(Q), (1,))])
    # reduction by a basis and change of ring
    for op in OPS:
        I = ctx.interp(handlers=poly_handlers()); sage(I)
        c = cls(I, "RCF_Atom"); s = I.func("spec_grf", "atom_value")
        if any(c.find(m) in (None, MISSING) for m in ("quotient_ring_inject", "update_ring")): return ctx.missing("GRF/grf.sage:RCF_Atom.quotient_ring_inject, update_ring")
        B = lsym("basis"); red = T("app", "reduced", psub(l, r), B)
        V = T("app", "variables", red, "list")
        def impl2():
            a = I.instantiate(c, [l, op, r], {}, None)
            I.call(I.getattr(a, "quotient_ring_inject"), [B]); I.call(I.getattr(a, "update_ring"), [RING])
            return I.call(I.getattr(a, "eval_on_dict"), [P])
        def gen2(q):
            names = ["x%d" % i for i in range(4)]
            return {l: q.randint(-2, 2), r: q.randint(-2, 2), T("app", "variables", psub(l, r), "list"): q.sample(names, q.randint(0, 3)), B: [1], red: q.randint(-1, 1), V: q.sample(names, q.randint(0, 3)), P: {n: q.randint(-3, 3) for n in q.sample(names, q.randint(1, 4))}}
        equiv(ctx, I, "an atom with relation '%s' reduced by a basis compares the reduced polynomial, with that polynomial's variables" % op, floc(c.find("quotient_ring_inject")), impl2,
              lambda: I.call(s, [red, op, 0, V, P, None]), gen2, forbid=FORBID, raise_ok=lambda a, b: True, assume=[sg(length(P), (1,)), sg(length(B), (1,))])

def atom(I, op, poly=None):
    """an atom with the given relation over an unknown polynomial"""
    a = I.instantiate(cls(I, "RCF_Atom"), [poly if poly is not None else T("sym", "poly"), op, 0], {}, None)
    return a

def c20_negate(ctx):
    p = T("sym", "poly")
    for op, history in [(o, h) for o in OPS for h in (False, True)]:
        I = ctx.interp(handlers=poly_handlers()); sage(I)
        c = cls(I, "RCF_Atom"); s = I.func("spec_grf", "atom_value"); neg = I.func("spec_grf", "negated")
        if c is None: return
        V = T("app", "variables", p, "list")
        def gen(q):
            names = ["x%d" % i for i in range(3)]
            return {T("app", "other", p): q.randint(-1, 1), Q: {n: q.randint(-3, 3) for n in q.sample(names, q.randint(1, 3))}, p: q.randint(-1, 1), V: q.sample(names, q.randint(0, 2)), P: {n: q.randint(-3, 3) for n in q.sample(names, q.randint(1, 3))}}
        def impl():
            a = atom(I, op, p)
            if history: I.call(I.getattr(a, "eval_on_dict"), [Q])
            for _ in range(1 + 2 * history): I.call(I.getattr(a, "negate"), [])
            return I.call(I.getattr(a, "eval_on_dict"), [P])
        equiv(ctx, I, "negating an atom with relation '%s' %s gives the complementary relation on the same polynomial" % (op, " three times after an evaluation" if history else ""), floc(c.find("negate")), impl,
              lambda: I.call(s, [p, I.call(neg, [op]), 0, V, P, None]), gen, forbid=FORBID, raise_ok=lambda a, b: True, assume=[sg(length(P), (1,)), sg(length(Q), (1,))])

def goal_with(I, hyps):
    g = I.instantiate(cls(I, "RCF_Goal"), [], {"main_goal": T("sym", "goal"), "goal_hyps": hyps}, None)
    return g

def c20_goal(ctx):
    H = lsym("hyps"); G = T("sym", "goal")
    # truth values of the parts: true, false or undefined
    I = ctx.interp(); sage(I)
    c = cls(I, "RCF_Goal"); s = I.func("spec_grf", "goal_value")
    if c is None: return ctx.missing("GRF/grf.sage:RCF_Goal")
    w = floc(c.find("eval_on_dict"))
    for n in range(5):
        vals = {}
        def ev(I_, v, a, k, nd):
            if v not in vals: return NotImplemented
            return TRUTH[I_.narrow(vals[v])]
        I = ctx.interp(handlers={"method:eval_on_dict": ev}); sage(I)
        parts = [T("sym", "g")] + [T("sym", "h%d" % i) for i in range(n)]
        for x in parts:
            vals[x] = T("sym", "truth of " + x.args[0]); I.few[vals[x]] = (0, 1, 2)
        s = I.func("spec_grf", "goal_value")
        hl = lambda: I.thaw(T("list", tuple(("one", x) for x in parts[1:])))
        def impl():
            g = I.instantiate(cls(I, "RCF_Goal"), [], {"main_goal": parts[0], "goal_hyps": hl()}, None)
            r = I.call(I.getattr(g, "eval_on_dict"), [P]); return r
        equiv(ctx, I, "a goal with %d hypotheses is true exactly when its conclusion is true or a hypothesis is definitely false" % n, w, impl, lambda: I.call(s, [parts[0], hl(), P]),
              lambda q: {vals[x]: q.choice((0, 1, 2)) for x in parts}, forbid=FORBID)
    I = ctx.interp(); sage(I); s = I.func("spec_grf", "goal_value")
    def impl2():
        g = I.instantiate(cls(I, "RCF_Goal"), [], {"main_goal": G, "goal_hyps": H}, None)
        return I.call(I.getattr(g, "eval_on_dict"), [P])
    equiv(ctx, I, "a goal with any number of hypotheses is true exactly when its conclusion is true or a hypothesis is definitely false", w, impl2, lambda: I.call(s, [G, H, P]), None)

# ------------------------------------------------------------------ projection
class Herbrand(object):
    """polynomials as terms of a free algebra, named by numbers; different terms are different polynomials"""
    def __init__(self): self.num = {}; self.term = {}; self.degs = {}; self.alike = False
    def tok(self, *key):
        if key not in self.num:
            n = 100003 + 1009 * len(self.num); self.num[key] = n; self.term[n] = key
        return self.num[key]
    def known(self, n): return isinstance(n, int) and not isinstance(n, bool) and n in self.term
    def show(self, n):
        if isinstance(n, Term): return render(n)
        if not self.known(n): return repr(n)
        k = self.term[n]
        return k[1] if k[0] == "poly" else "%s(%s)" % (k[0], ", ".join("{%s}" % ",".join(sorted(map(self.show, x))) if isinstance(x, frozenset) else self.show(x) for x in k[1:]))
    def handlers(self):
        def res(I, a, n):
            if len(a) == 2: a = list(a) + [None]
            if len(a) != 3 or not all(self.known(x) for x in a[:2]): raise Und("resultant", n)
            return self.tok("resultant", frozenset(a[:2]), a[2])
        def disc(I, a, n):
            if len(a) not in (1, 2) or not self.known(a[0]): raise Und("discriminant", n)
            return self.tok("discriminant", a[0], a[1] if len(a) > 1 else None)
        def coef(I, a, n):
            c = I.thaw(a[1]) if len(a) > 1 and isinstance(a[1], Term) else a[1] if len(a) > 1 else None
            if len(a) == 2 and isinstance(c, DictObj) and len(c.f["ents"]) == 1 and c.f["ents"][0][0] == "kv": a = [a[0], c.f["ents"][0][1], c.f["ents"][0][2]]
            if len(a) != 3 or not self.known(a[0]): raise Und("coefficient", n)
            if a[0] in self.degs: lead = a[2] == self.degs[a[0]]
            else: lead = self.known(a[2]) and self.term[a[2]] == ("degree", a[0], a[1])
            return self.tok("leading coefficient", a[0], a[1]) if lead else self.tok("coefficient", *a)
        def degree(I, a, n): return self.degs[a[0]] if a[0] in self.degs else self.tok("degree", *a)
        h = {}
        for m, f in (("resultant", res), ("discriminant", disc), ("coefficient", coef), ("degree", degree)):
            h["method:" + m] = (lambda f: lambda I, v, a, kw, n: f(I, [v] + list(a) + list(kw.values()), n) if self.known(v) else NotImplemented)(f)
            h["*." + m] = (lambda f: lambda I, a, kw, n: f(I, list(a) + list(kw.values()), n))(f)
        return h

def factory(I, n):
    c = cls(I, "QE_Factory")
    return I.instantiate(c, [n], {}, None)
def method(I, o, name, args=(), kw=None): return I.call(I.getattr(o, name), list(args), kw or {})

def project(H, ps, v):
    """what one projection step has to contribute"""
    ps = sorted(set(ps))
    if H.degs:   # without what is constant or contributed by a leading coefficient anyway
        d = H.degs
        return frozenset([H.tok("resultant", frozenset((p, q)), v) for i, p in enumerate(ps) for q in ps[i + 1:] if d[p] and d[q]] + [H.tok("discriminant", p, v) for p in ps if d[p] > 1] + [H.tok("leading coefficient", p, v) for p in ps])
    return frozenset([H.tok("resultant", frozenset((p, q)), v) for i, p in enumerate(ps) for q in ps[i + 1:]] + [H.tok("discriminant", p, v) for p in ps] + [H.tok("leading coefficient", p, v) for p in ps])

@check("C23")
def c23(ctx):
    c23_step(ctx); c23_filter(ctx); c23_order(ctx); c23_phase(ctx); c23_sectors(ctx); c23_cells(ctx); c23_lift(ctx)

def proj_machine(ctx, extra=None):
    H = Herbrand(); h = H.handlers()
    h["method:is_constant"] = lambda I, v, a, k, n: False if H.known(v) else NotImplemented
    # leading terms and the like may coincide for different polynomials
    def of(k): return lambda I, v, a, kw, n: H.tok(k, *((0 if H.alike and H.term[v][0] == "poly" else v,) + tuple(a))) if H.known(v) else NotImplemented
    for k in ("lt", "lm", "lc", "monomials", "coefficients", "constant_coefficient", "content"): h["method:" + k] = of(k)
    for k, up in (("total_degree", 1), ("number_of_terms", 2)):
        h["method:" + k] = (lambda k, up: lambda I, v, a, kw, n: H.degs[v] + up if v in H.degs else of(k)(I, v, a, kw, n))(k, up)
    h["method:variables"] = lambda I, v, a, k, n: TupV(VARS[:2]) if H.known(v) else NotImplemented
    h.update(extra or {})
    I = ctx.interp(handlers=h); sage(I); I.deep = 8; I.unroll = 8
    return H, I

def run(ctx, I, rule, where, go, judge):
    """judge(value) -> None when as required, else a description; exceptions count as failures"""
    bad = []; n = [0]
    def cap(o, m):
        n[0] += 1
        if o.kind != "normal": raise Und("left by %s" % o.kind)
        k, v = o.value
        r = "raises %s" % (v,) if k == "raise" else judge(plain(I, v))
        if r and not r.startswith("?"):
            few = I.S.get("fewv", {})
            soft = [c for c in o.lits if subst(c, few) is not True]
            if soft: r = "? on a path the analysis cannot decide: %s" % render(soft[0])[:200]
        if r: bad.append((r, dict(I.S.get("fewv", {}))))
    try: I.explore(lambda: attempt(I, go), cap, 4000)
    except (Und, HoistX, RecursionError) as e:
        ctx.done(I)
        if not bad: return ctx.und(rule, where, "analysis: %s" % e)
    else: ctx.done(I)
    if not bad: return ctx.proved(rule, where, "%d paths" % n[0])
    if bad[0][0].startswith("?"): 
        hard = [b for b in bad if not b[0].startswith("?")]
        if not hard: return ctx.und(rule, where, bad[0][0][1:])
        bad = hard
    return ctx.refuted(rule, where, bad[0][0], ", ".join("%s = %s" % (k.args[0] if k.op == "sym" else render(k), v) for k, v in sorted(bad[0][1].items(), key=lambda z: str(z[0]))) or "the given shape")

def short_of(H, want, got):
    """what is missing from a projection set"""
    if not isinstance(got, (list, frozenset, tuple)): return "? the set is %r" % (got,)
    miss = [x for x in want if x not in got]
    if not miss: return None
    if not all(H.known(x) for x in got): return "? some members are not understood: %s" % ", ".join(H.show(x) for x in got if not H.known(x))[:200]
    return "missing: %s; computed: %s" % (", ".join(sorted(map(H.show, miss)))[:400], ", ".join(sorted(map(H.show, got)))[:300])

def c23_step(ctx):
    import itertools
    for n, i, k in [(2, 1, 0), (2, 1, 1), (2, 1, 2), (2, 1, 3), (3, 1, 2), (3, 2, 1), (3, 2, 2), (3, 2, 3), (3, 2, 4), (4, 2, 2)]:
        for perm in ((0, 1, 2, 3), (2, 0, 3, 1), (1, 0, 2, 3)):
          for degs in (None, (2, 3, 2, 3), (3, 3, 3, 3), (1, 2, 1, 4), (0, 2, 0, 1), (5, 2, 7, 5)):
            if degs and (k == 0 or perm[0] == 1 or n == 4): continue
            perm = [p for p in perm if p < n]
            H, I = proj_machine(ctx)
            c = cls(I, "QE_Factory")
            if c is None or c.find("bm_proj") is MISSING: return ctx.missing("GRF/grf.sage:QE_Factory.bm_proj")
            ps = [H.tok("poly", "p%d" % j) for j in range(k)]
            if degs: H.alike = True; H.degs = dict(zip(ps, degs))
            def go():
                q = factory(I, n)
                I.w(q.f, "proj_ord", I.thaw(I.freeze(ListObj([("one", VARS[j]) for j in perm]))))
                I.setitem(q.f["proj_sets"], i, ListObj([("one", p) for p in ps + ps[:1]]), None)
                method(I, q, "bm_proj", [i])
                return q.f["proj_sets"]
            want = project(H, ps, VARS[perm[i]])
            run(ctx, I, "a projection step from %s polynomials at level %d of %d in the order %s contributes all resultants, discriminants and leading coefficients" % (k if not degs else "%d lookalike (degrees %s)" % (k, ",".join(map(str, degs[:k]))), i, n, ",".join("x%d" % j for j in perm)),
                floc(c.find("bm_proj")), go, lambda v: short_of(H, want, v.get(i - 1)) or (None if v.get(i) is not None and set(ps) <= set(v[i]) else "level %d lost a polynomial" % i))

def c23_filter(ctx):
    import itertools
    KINDS = ("constant", "power", "power of another", "monomial in two variables", "sum", "sum in one variable")
    for n in (0, 1, 2, 3):
        for ks in itertools.combinations_with_replacement(KINDS, n):
            names = ["%s %d" % (k, j) for j, k in enumerate(ks)]
            H = Herbrand(); toks = [H.tok("poly", x) for x in names]; kind = dict(zip(toks, ks))
            vs = {"constant": (), "power": VARS[:1], "power of another": VARS[1:2], "monomial in two variables": VARS[:2], "sum": VARS[:2], "sum in one variable": VARS[:1]}
            K = lambda f: lambda I, v, a, k, n: f(v) if H.known(v) and v in kind else NotImplemented
            h = {"method:is_constant": K(lambda v: kind[v] == "constant"), "method:lt": K(lambda v: v if kind[v] in KINDS[:4] else H.tok("lt", v)), "method:variables": K(lambda v: TupV(vs[kind[v]])),
                 "method:nvariables": K(lambda v: len(vs[kind[v]])), "method:is_monomial": K(lambda v: T("app", "unknown", v)), "method:is_univariate": K(lambda v: len(vs[kind[v]]) <= 1)}
            I = ctx.interp(handlers=h); sage(I)
            c = cls(I, "QE_Factory")
            if c is None or c.find("filter_proj_set") is MISSING: return ctx.missing("GRF/grf.sage:QE_Factory.filter_proj_set")
            def go(): return method(I, factory(I, 3), "filter_proj_set", [ListObj([("one", t) for t in toks])])
            def judge(v):
                if not isinstance(v, (list, frozenset, tuple)): return "? %r" % (v,)
                for t in toks:
                    if kind[t] == "constant" or t in v or (kind[t].startswith("power") and vs[kind[t]][0] in v): continue
                    if any(not H.known(x) and x not in VARS for x in v): return "? unknown member"
                    return "the filter drops a polynomial that is a %s" % kind[t]
            run(ctx, I, "filtering %s drops only constants" % (", ".join(ks) or "nothing"), floc(c.find("filter_proj_set")), go, judge)

def c23_order(ctx):
    for n in (1, 2, 3):
        cells = [T("sym", "rank of x%d" % j, "int") for j in range(n)]
        def stats(I, f, a, k, nd):
            for j in range(n): I.setitem(a[0].f["var_stats"], VARS[j], TupV([I.narrow(cells[j]), 0, 0]), nd)
        I = ctx.interp(handlers={"fn:grf.ProjOrd.compute_stats": stats}); sage(I)
        c = cls(I, "ProjOrd")
        if c is None or c.find("compute_proj_ord") is MISSING: return ctx.missing("GRF/grf.sage:ProjOrd.compute_proj_ord")
        for x in cells: I.few[x] = (0, 1, 2)[:n]
        def go():
            o = I.instantiate(c, [], {"polys": ListObj([]), "variables": TupV(VARS[:n])}, None)
            return method(I, o, "compute_proj_ord")
        def judge(v):
            if not isinstance(v, (list, tuple)): return "? %r" % (v,)
            return None if len(v) == n and set(v) == set(VARS[:n]) else "? order unknown" if not all(x in VARS for x in v) else "the order %s is not an order of the %d variables" % ([render(x) for x in v], n)
        run(ctx, I, "the elimination order of %d variables contains each exactly once, whatever their ranks" % n, floc(c.find("compute_proj_ord")), go, judge)

def c23_phase(ctx):
    import itertools
    for n, k in [(1, 1), (1, 2), (2, 1), (2, 2), (3, 1), (3, 2), (4, 1)]:
        for again in (False, True):
            perms = list(itertools.permutations(range(n)))[:6]
            cell = T("sym", "order", "int")
            H, I = proj_machine(ctx, {"fn:grf.ProjOrd.compute_proj_ord": lambda I, f, a, kw, nd: ListObj([("one", VARS[j]) for j in perms[I.narrow(cell)]])})
            I.few[cell] = tuple(range(len(perms)))
            c = cls(I, "QE_Factory")
            if c is None or c.find("projection_phase") is MISSING: return ctx.missing("GRF/grf.sage:QE_Factory.projection_phase")
            ps = [H.tok("poly", "p%d" % j) for j in range(k)]; late = H.tok("poly", "later")
            if again and n > 2: continue
            def go():
                q = factory(I, n)
                method(I, q, "install_polys", ps)
                method(I, q, "projection_phase")
                if again:
                    method(I, q, "install_polys", [late]); method(I, q, "projection_phase")
                return TupV([q.f["proj_sets"], q.f["proj_ord"]])
            def judge(v):
                sets, order = v
                if not isinstance(sets, dict): return "? %r" % (sets,)
                top = ps + ([late] if again else [])
                if n - 1 not in sets: return "no polynomials at level %d" % (n - 1)
                r = short_of(H, top, sets[n - 1])
                if r: return r
                if not (isinstance(order, (list, tuple)) and len(order) == n and all(x in VARS for x in order)): return "? order %r" % (order,)
                for l in range(n - 1, 0, -1):
                    if l - 1 not in sets: return "level %d is never projected" % l
                    r = short_of(H, project(H, [x for x in sets[l]], order[l]), sets[l - 1])
                    if r: return r
            run(ctx, I, "%d polynomials in %d variables: every level is projected along its variable%s" % (k, n, ", also after another polynomial is added" if again else ""), floc(c.find("projection_phase")), go, judge)

# ------------------------------------------------------------------ sampling
def pick(I, l, u):
    if all(isinstance(x, (int, Fraction)) and not isinstance(x, bool) for x in (l, u)): return Fraction(2 * l + 5 * u, 7)
    raise Und("random choice")
def sampling(I):
    """random numbers lie in the asked range; conversions are exact"""
    I.handlers.update({"random.uniform": lambda I_, a, k, n: pick(I_, a[0], a[1]), "method:exact_rational": lambda I_, v, a, k, n: v})
    sage(I, RR=PyFn(lambda I_, a, k, n: a[0], "RR"))

def uncovered(roots, rational, S):
    """a cell of the line without a sample point"""
    if not isinstance(S, (list, tuple)) or not all(isinstance(x, (int, Fraction)) and not isinstance(x, bool) for x in S): return "? sample points %r" % (S,)
    R = sorted(set(roots))
    if not S: return "there is no sample point"
    if not R: return None
    sh = lambda x: str(Fraction(x)) if x in rational else "the irrational root near %s" % float(x)
    if not any(s < R[0] for s in S): return "no sample point left of the first root %s among %s" % (sh(R[0]), [str(s) for s in S])
    if not any(s > R[-1] for s in S): return "no sample point right of the last root %s among %s" % (sh(R[-1]), [str(s) for s in S])
    for a, b in zip(R, R[1:]):
        if not any(a < s < b for s in S): return "no sample point between %s and %s among %s" % (sh(a), sh(b), [str(s) for s in S])
    for r in R:
        if r in rational and not any(s == r for s in S): return "no sample point at the root %s among %s" % (sh(r), [str(s) for s in S])

IRR = Fraction(41421, 100000)
def c23_sectors(ctx):
    """isolating intervals as (lower, upper, root)"""
    F = Fraction
    shapes = {"no root": [], "one irrational root": [(0, 1, IRR)], "one rational root": [(2, 2, F(2))], "two separate intervals": [(-1, 0, -IRR), (1, 2, 1 + IRR)],
              "two touching intervals": [(-1, 0, -IRR), (0, 1, IRR)], "a point and an interval": [(-1, -1, F(-1)), (0, 1, IRR)], "three points": [(-2, -2, F(-2)), (0, 0, F(0)), (5, 5, F(5))],
              "four intervals": [(-3, -2, -2 - IRR), (F(-1, 2), F(-1, 4), -IRR), (F(1, 3), F(1, 2), IRR), (7, 7, F(7))]}
    for name, iv in shapes.items():
        for turn in (0, 1, 2):
            for k in (1, 2):
                l = iv if turn == 0 else iv[::-1] if turn == 1 else iv[1:] + iv[:1]
                I = ctx.interp(); sampling(I)
                c = cls(I, "QE_Factory")
                if c is None or c.find("sector_sps") is MISSING: return ctx.missing("GRF/grf.sage:QE_Factory.sector_sps")
                def go():
                    return method(I, factory(I, 2), "sector_sps", [ListObj([("one", TupV([TupV([a, b]), 1 + j]) ) for j, (a, b, r) in enumerate(l)])], {"num_sps": k})
                run(ctx, I, "%s, order %d, %d points per cell: a sample point in every cell of the line" % (name, turn, k), floc(c.find("sector_sps")), go,
                    lambda v: uncovered([r for a, b, r in iv], [r for a, b, r in iv if r.denominator == 1], v))
    for op in ("<", ">", "=", None):
        I = ctx.interp(); sampling(I)
        c = cls(I, "QE_Factory")
        h = T("sym", "ambient"); I.handlers.update({"attr:poly": lambda I_, v, n=None: VARS[0] if v is h else None, "attr:op": lambda I_, v, n=None: op if v is h else None})
        def go():
            return method(I, factory(I, 2), "sector_sps", [ListObj([])], {"ambient_hyps": ListObj([("one", h)] if op else []), "cur_var": VARS[0]})
        run(ctx, I, "without roots there is a sample point, whatever the ambient hypotheses (%s)" % op, floc(c.find("sector_sps")), go, lambda v: uncovered([], [], v))

def c23_cells(ctx):
    """polynomials by their real roots: a root is a prime, a polynomial the product of its roots"""
    F = Fraction
    R = {2: (F(-2), True), 3: (F(0), True), 5: (F(3), True), 7: (-1 - IRR, False), 11: (1 + IRR, False), 13: (F(1, 2) + IRR / 10, False), 17: (None, False)}
    def fac(n):
        out = []
        for p in R:
            m = 0
            while n % p == 0: n //= p; m += 1
            if m: out.append((p, m))
        if n != 1: raise Und("polynomial")
        return out
    fams = [[], [3], [7], [17], [7 * 11], [3 * 7 * 11], [3, 7 * 11], [2 * 5, 3], [7 * 11, 13], [3 * 13], [3 * 3 * 13, 5], [2 * 17, 11], [2 * 3 * 5], [3, 3 * 5], [7 * 11 * 11, 2 * 2], [13, 5 * 13], [17, 3], [3, 7 * 11, 2 * 13]]
    for fam in fams:
        style = T("sym", "isolation", "int")
        def roots(I, v, a, k, n):
            return ListObj([("one", TupV([R[p][0], m])) for p, m in fac(v) if R[p][1]]) if isinstance(v, int) else NotImplemented
        def intervals(I, v, a, k, n):
            if not isinstance(v, int): return NotImplemented
            rs = sorted(((R[p][0], R[p][1], m) for p, m in fac(v) if R[p][0] is not None), key=lambda z: z[0])
            st = I.narrow(style); out = []
            for j, (r, rat, m) in enumerate(rs):
                lo = (rs[j - 1][0] + r) / 2 if j else r - 10; hi = (rs[j + 1][0] + r) / 2 if j + 1 < len(rs) else r + 10
                if st == 0: lo, hi = r - (r - lo) / 100, r + (hi - r) / 100
                if rat and st != 2: lo = hi = r
                out.append(("one", TupV([TupV([lo, hi]), m])))
            return ListObj(out)
        I = ctx.interp(handlers={"method:univariate_polynomial": lambda I, v, a, k, n: v, "method:roots": roots, "method:real_root_intervals": intervals,
                                 "method:degree": lambda I, v, a, k, n: sum(m for p, m in fac(v)) if isinstance(v, int) else NotImplemented})
        sampling(I); I.few[style] = (0, 1, 2)
        c = cls(I, "QE_Factory")
        if c is None or c.find("iso_root_intvls") is MISSING: return ctx.missing("GRF/grf.sage:QE_Factory.iso_root_intvls")
        def go():
            q = factory(I, 1); l = method(I, q, "iso_root_intvls", [ListObj([("one", p) for p in fam])])
            return method(I, q, "sector_sps", [l])
        real = [R[p] for n in fam for p, m in fac(n) if R[p][0] is not None]
        name = "; ".join("*".join("(x%s)" % ("^2+1" if R[p][0] is None else "-%s" % (R[p][0] if R[p][1] else "irrational %.3f" % float(R[p][0])) if not m > 1 else "-%s)^(%d" % (R[p][0], m)) for p, m in fac(n)) for n in fam) or "nothing"
        run(ctx, I, "the roots of %s: a sample point in every cell of the line" % name, floc(c.find("iso_root_intvls")), go,
            lambda v: uncovered([r for r, rat in real], [r for r, rat in real if rat], v))

# ------------------------------------------------------------------ lifting
def c23_lift(ctx):
    import itertools
    for n, base, per, goal in [(1, 2, 0, True), (2, 1, 2, True), (2, 2, 2, True), (2, 0, 2, True), (3, 1, 2, True), (3, 2, 1, True), (3, 2, 2, True), (4, 1, 1, True), (1, 2, 0, False), (2, 2, 2, False), (3, 2, 1, False)]:
        for perm in list(itertools.permutations(range(n)))[:: 1 if n < 3 else 2][:4]:
            c23_lift_one(ctx, n, base, per, perm, goal)
    for n, per, goal in [(1, 1, True), (1, 2, True), (1, 2, False), (2, 1, True), (2, 2, True), (2, 2, False), (3, 1, True), (3, 1, False), (3, 2, True)]:
        for perm in list(itertools.permutations(range(n)))[:: 1 if n < 3 else 2][:3]:
            c23_lift_one(ctx, n, None, per, perm, goal)

def c23_lift_one(ctx, n, base, per, perm, with_goal):
    order = [VARS[j] for j in perm]
    H, I = None, None
    def point(d):
        d = I.thaw(d) if isinstance(d, Term) else d
        if not isinstance(d, DictObj) or not all(e[0] == "kv" for e in d.f["ents"]): raise Und("point")
        return frozenset((e[1], plain(I, e[2])) for e in d.f["ents"])
    def truth(p):
        """whether the goal is decided true over the cell of this point"""
        k = T("sym", "goal over " + ",".join(sorted("%s=%s" % (render(v), H.show(s)) for v, s in p)))
        I.few[k] = (0, 1)
        return I.narrow(k) == 1
    def at(p, pt): return H.tok("at", p, pt)
    def samples(fam, m): return [H.tok("sample %d" % j, fam) for j in range(m)]
    def ev(I_, f, a, k, nd): return truth(point(a[1]))
    def subst_(I_, v, a, k, nd): return at(v, point(a[0])) if H.known(v) else NotImplemented
    def isolate(I_, f, a, k, nd): return H.tok("roots", frozenset(plain(I_, a[1])))
    def sectors(I_, f, a, k, nd): return ListObj([("one", s) for s in samples(a[1] if len(a) > 1 else k["root_intvls"], per)])
    whole = base is None
    H, I = proj_machine(ctx, {"fn:grf.ProjOrd.compute_proj_ord": lambda I, f, a, kw, nd: ListObj([("one", v) for v in order]), "fn:grf.RCF_Goal.eval_on_dict": ev, "method:substitute": subst_, "method:subs": subst_, "fn:grf.QE_Factory.iso_root_intvls": isolate, "fn:grf.QE_Factory.sector_sps": sectors})
    c = cls(I, "QE_Factory")
    if c is None or c.find("lifting_phase") is MISSING: return ctx.missing("GRF/grf.sage:QE_Factory.lifting_phase")
    sets = [[H.tok("poly", "p%d at level %d" % (j, l)) for j in range(1 + l % 2)] for l in range(n)]
    bases = [] if whole else samples(H.tok("base"), base)
    def expected(sets):
        cells = [[s] for s in (samples(H.tok("roots", frozenset(sets[0])), per) if whole else bases)]
        for l in range(1, n):
            nxt = []
            for s in cells:
                pt = frozenset(zip(order, s))
                if with_goal and truth(pt): continue
                nxt += [s + [x] for x in samples(H.tok("roots", frozenset(at(p, pt) for p in sets[l])), per)]
            cells = nxt
        return frozenset(frozenset(zip(order, s)) for s in cells)
    def go():
        q = factory(I, n)
        kw = {"goal": goal_with(I, ListObj([]))} if with_goal else {}
        if whole:
            method(I, q, "install_polys", [H.tok("poly", "p%d" % j) for j in range(2)])
            method(I, q, "sample_pt_dicts", [], kw)
            made = plain(I, q.f["proj_sets"])
            if not isinstance(made, dict) or set(made) != set(range(n)) or not all(H.known(p) for l in made for p in made[l]): raise Und("projection sets")
            return TupV([Box(expected(made)), q.f["final_sp_dicts"]])
        I.w(q.f, "proj_ord", ListObj([("one", v) for v in order]))
        for l in range(n): I.setitem(q.f["proj_sets"], l, ListObj([("one", p) for p in sets[l]]), None)
        I.setitem(q.f["cell_sps"], 0, ListObj([("one", s) for s in bases]), None)
        want = expected(sets)
        method(I, q, "lifting_phase", [], kw)
        return TupV([Box(want), q.f["final_sp_dicts"]])
    def judge(v):
        want, got = v[0].v, v[1]
        if not isinstance(got, (list, tuple)) or not all(isinstance(d, dict) for d in got): return "? %r" % (got,)
        got = frozenset(frozenset(d.items()) for d in got)
        sh = lambda p: "{%s}" % ", ".join("%s: %s" % (render(v), H.show(s)) for v, s in sorted(p, key=str))
        miss, extra = want - got, got - want
        if not all(H.known(s) and v in VARS for p in got for v, s in p): return "? unknown points"
        if miss: return "missing point: %s; points: %s" % (sh(next(iter(miss)))[:300], " ".join(map(sh, got))[:300])
        if any(len(p) != n for p in extra): return "a point without a coordinate for each variable: %s" % sh(next(iter(extra)))[:300]
        if extra and any(v for p in extra for v in [len(p)]): return "? further points %s" % " ".join(map(sh, extra))[:200]
    if whole:
        return run(ctx, I, "sample points of two polynomials in %d variables (%d samples each, order %s, %s): the base cells and their extensions, except where the goal is true" %
            (n, per, ",".join(render(v) for v in order), "with a goal" if with_goal else "no goal given"), floc(c.find("sample_pt_dicts")), go, judge)
    run(ctx, I, "lifting %d cells through %d levels (%d samples each, order %s, %s): every cell is extended unless the goal is true there, coordinates paired with their variables" %
        (base, n, per, ",".join(render(v) for v in order), "with a goal" if with_goal else "no goal given"), floc(c.find("lifting_phase")), go, judge)
