"""Obligations, joint analysis of an implementation and its specification, reporting."""
import random, traceback
from .terms import *
from .terms import rebuild
from .interp import *
from .model import Model, CantEval, hk, U, RelV, soft

class Ob(object):
    """one proof obligation: status is proved | refuted | undecided"""
    def __init__(self, rule, where, status, detail="", instance=None):
        self.rule = rule; self.where = where; self.status = status; self.detail = detail; self.instance = instance
    def as_dict(self):
        d = {"rule": self.rule, "where": self.where, "status": self.status}
        if self.detail: d["detail"] = self.detail[:1200]
        if self.instance: d["instance"] = self.instance[:1200]
        return d

class Ctx(object):
    def __init__(self, mods, tier="quick", seed=1):
        self.mods = mods; self.tier = tier; self.seed = seed
        self.obs = []
        self.functions = set(); self.paths = 0; self.loops = 0
        self.anchors_missing = []
        import time
        self.t0 = time.time()
    def missing(self, what):
        self.anchors_missing.append(what); self.und("anchor", what, "not found in the source")
    def interp(self, deadline=None, **k):
        import time
        left = max(10, (600 if self.tier != "thorough" else 3000) - (time.time() - self.t0))
        self.budget = min(left, (deadline or 40) if self.tier != "thorough" else max(240, deadline or 0))
        set_deadline(self.budget)
        I = Interp(self.mods, **k)
        return I
    def done(self, I):
        self.functions |= I.stats["functions"]; self.paths += I.stats["paths"]; self.loops += I.stats["loops"]
    def add(self, rule, where, status, detail="", instance=None):
        o = Ob(rule, where, status, detail, instance); self.obs.append(o); return o
    def proved(self, rule, where, detail=""): return self.add(rule, where, "proved", detail)
    def refuted(self, rule, where, detail="", instance=None): return self.add(rule, where, "refuted", detail, instance)
    def und(self, rule, where, detail=""): return self.add(rule, where, "undecided", detail)

def loc(node):
    if node is None: return "?"
    return "%s:%s" % (node.file, node.lineno)
def floc(f):
    if isinstance(f, Bound): f = f.fn
    if isinstance(f, FuncVal): return "%s:%s %s" % (f.node.file, f.node.lineno, f.qual)
    return repr(f)

def attempt(I, fn):
    """result of fn() as a comparable pair"""
    try:
        return ("return", fn())
    except RaiseX as e:
        return ("raise", e.cls if isinstance(e.cls, str) else getattr(e.cls, "name", str(e.cls)))

def resolved(I, t, seen=()):
    """references to objects replaced by what the objects hold at this point"""
    def go(x, seen):
        if isinstance(x, tuple): return tuple(go(y, seen) for y in x)
        if isinstance(x, frozenset): return frozenset(go(y, seen) for y in x)
        if not isinstance(x, Term) or not any(y.op == "ref" for y in subterms(x)): return x
        if x.op == "ref":
            o = x.args[0].v
            if id(o) in seen: return x
            return go(I.freeze(o), seen + (id(o),))
        return rebuild(x, lambda y: go(y, seen))
    def top(x):
        if isinstance(x, Term):
            if x in I.S["shadow"] and isinstance(I.S["shadow"][x], Obj): return I.freeze(I.S["shadow"][x])
            if x.op == "tup": return T("tup", *[top(y) for y in x.args])
        return x
    return go(top(t), seen)

def same(I, a, b):
    """True when equal under the path facts, None when not shown"""
    fa, fb = resolved(I, I.freeze(a)), resolved(I, I.freeze(b))
    if any(x.op == "count" for x in subterms((fa, fb))):
        if same_t(I, fa, fb): return True
        fa, fb = counted(fa), counted(fb)
    return same_t(I, fa, fb)

def settled(I, c):
    d = I.facts.decide(c)
    if d is None and isinstance(c, Term) and c.op == "sg":
        K = frozenset(x for x in (-1, 0, 1) if I.facts.decide(sg(c.args[0], (x,))) is not False)
        if K <= frozenset(c.args[1]): return True
        if not K & frozenset(c.args[1]): return False
    return d

def recount(I, t):
    """conditions on list elements that the path facts settle"""
    def guard(bv, lo, hi, g):
        if g is True: return True
        k = T("sym", "elem$%d" % (1 + bdepth((bv, g))), "int")
        m = I.mark()
        try:
            try: I.assume(sg(psub(k, lo), (0, 1)), log=False); I.assume(sg(psub(hi, k), (1,)), log=False)
            except Dead: return False
            return settled(I, subst(g, {bv: k}))
        finally: I.undo(m)
    def go(x):
        if isinstance(x, (tuple, frozenset)): return type(x)(go(y) for y in x)
        if not isinstance(x, Term) or not any(y.op in ("count", "list") for y in subterms(x)): return x
        if x.op in ("count", "list") and len(x.args) == 1 and len(x.args[0]) == 1 and x.args[0][0][0] == "star":
            _, bv, lo, hi, cases = x.args[0][0]
            if len(cases) == 1 and len(cases[0][1]) == 1 and cases[0][1][0][0] == "one":
                d = guard(bv, lo, hi, cases[0][0])
                if d is False: return 0 if x.op == "count" else T("list", ())
                if d is True:
                    if x.op == "count": return go(psub(hi, lo)) if I.facts.signs_of(psub(hi, lo)) <= frozenset((0, 1)) else x
                    x = T("list", (Star(bv, lo, hi, ((True, cases[0][1]),)),))
        if x.op == "at":
            l = go(x.args[0]); i = go(x.args[1])
            if isinstance(l, Term) and l.op == "list" and len(l.args[0]) == 1 and I.plain_star(l.args[0][0]):
                _, bv, lo, hi, cases = l.args[0][0]
                return go(subst(cases[0][1][0][1], {bv: padd(lo, i)}))
            return T("at", l, i)
        return rebuild(x, go)
    return go(t)

def infeasible(I):
    """the conditions gathered along the path contradict one another"""
    for l in I.S["log"]:
        if isinstance(l, Term) and l.op == "all" and isinstance(l.args[3], Term) and l.args[3].op == "sg" and I.facts.signs_of(psub(l.args[2], l.args[1])) == frozenset((1,)):
            m = I.mark()
            try:
                k = T("sym", "elem$%d" % (1 + bdepth(l)), "int")
                I.assume(sg(psub(k, l.args[1]), (0, 1)), log=False); I.assume(sg(psub(l.args[2], k), (1,)), log=False)
                e = subst(l.args[3].args[0], {l.args[0]: k})
                if all(I.facts.decide(sg(e, (x,))) is False for x in (-1, 0, 1)): return True
            except Dead: return True
            finally: I.undo(m)
    for l in I.S["log"]:
        if isinstance(l, Term) and any(y.op == "count" for y in subterms(l)):
            r = recount(I, l)
            if r is False or isinstance(r, Term) and r is not l and settled(I, r) is False: return True
            if l.op == "sg" and tuple(l.args[1]) == (0,):
                # every element counted: the condition holds of all
                for c in subterms(l.args[0]):
                    if c.op == "count" and len(c.args) == 1 and len(c.args[0]) == 1 and c.args[0][0][0] == "star":
                        _, bv, lo, hi, cases = c.args[0][0]
                        if len(cases) != 1 or len(cases[0][1]) != 1 or cases[0][1][0][0] != "one": continue
                        if not is_num(psub(padd(l.args[0], c), psub(hi, lo))) and not is_num(padd(psub(l.args[0], c), psub(hi, lo))): continue
                        if l.args[0] is not psub(psub(hi, lo), c) and l.args[0] is not psub(c, psub(hi, lo)): continue
                        m = I.mark()
                        try:
                            try: I.assume(T("all", bv, lo, hi, cases[0][0]), log=False)
                            except Dead: return True
                            for x in I.S["log"]:
                                if isinstance(x, Term) and x.op == "ex" and x.args[1] is lo and x.args[2] is hi:
                                    k = I.skolem(x); 
                                    if settled(I, subst(cases[0][0], {bv: k})) is False: return True
                        except Dead: return True
                        finally: I.undo(m)
    return False

def counted(t):
    """number of elements of a list by a rule, as a sum"""
    def go(x):
        if isinstance(x, (tuple, frozenset)): return type(x)(go(y) for y in x)
        if not isinstance(x, Term): return x
        if x.op == "count" and len(x.args) == 1:
            r = 0
            for s in x.args[0]:
                if s[0] == "one": r = padd(r, 1)
                elif s[0] == "pre": r = padd(r, length(s[1]))
                elif all(y[0] == "one" for g, ys in s[4] for y in ys): r = padd(r, T("sum", s[1], s[2], s[3], frozenset((g, len(ys)) for g, ys in s[4] if ys)))
                else: break
            else: return rebuild(r, go) if isinstance(r, Term) else r
        return rebuild(x, go)
    return go(t)

def same_t(I, a, b):
    if a is b: return True
    if isinstance(a, Box) or isinstance(b, Box): return True if isinstance(a, Box) and isinstance(b, Box) and a.v is b.v else None
    if is_const(a) and is_const(b):
        if isinstance(a, bool) != isinstance(b, bool): return None
        return True if a == b and (isinstance(a, str) == isinstance(b, str)) else None
    if is_bool(a) and is_bool(b):
        da, db = I.facts.decide(a), I.facts.decide(b)
        if da is not None and da == db: return True
        return None
    if arith_ok(a) and arith_ok(b) and a is not None and b is not None and not isinstance(a, str) and not isinstance(b, str) and not is_bool(a) and not is_bool(b):
        try:
            d = psub(a, b)
            if is_num(d): return True if d == 0 else None
            if I.facts.signs_of(d) == frozenset((0,)): return True
        except Exception: pass
    if isinstance(a, Term) and isinstance(b, Term):
        if a.op == b.op and a.op in ("tup", "rel", "at", "attr", "call", "ext", "app", "inst", "mcall", "file", "join", "toint", "str", "popped", "kindof", "tuplist", "len") and len(a.args) == len(b.args):
            if all(same_t(I, x, y) for x, y in zip(a.args, b.args)): return True
        if a.op == "dict" and b.op == "dict" and len(a.args[0]) == len(b.args[0]):
            if all(x[0] == y[0] and (x[0] in ("kv", "base", "pre") and all(same_t(I, p, q) for p, q in zip(x[1:], y[1:])) or x is y or x == y) for x, y in zip(a.args[0], b.args[0])): return True
        if a.op in ("list", "set", "count") and b.op == a.op and len(a.args) == len(b.args):
            sa, sb = a.args[0], b.args[0]
            if any(x[0] == "pre" for x in sa) != any(x[0] == "pre" for x in sb): sa, sb = I.expand_pre(sa), I.expand_pre(sb)
            if len(sa) == len(sb) and all(same_seg(I, x, y) for x, y in zip(sa, sb)): return True
        elif "list" in (a.op, b.op):
            # a plain listing of a term
            for x, y in ((a, b), (b, a)):
                if x.op == "list" and y.op != "list":
                    if len(x.args[0]) == 1 and same_seg(I, x.args[0][0], I.star_of_term(y)): return True
        if a.op == "ite" :
            pass
    if isinstance(a, tuple) and isinstance(b, tuple) and len(a) == len(b):
        return True if all(same_t(I, x, y) for x, y in zip(a, b)) else None
    return None

def same_seg(I, x, y):
    if x[0] != y[0]: return False
    if x[0] in ("one", "pre"): return bool(same_t(I, x[1], y[1]))
    _, b1, l1, h1, c1 = x
    _, b2, l2, h2, c2 = y
    if not (same_t(I, l1, l2) and same_t(I, h1, h2)): return False
    nb = T("b", 1 + max(bdepth(c1), bdepth(c2), b1.args[0], b2.args[0]))
    k = T("sym", "elem$%d" % nb.args[0], "int")
    m = I.mark()
    try:
        try:
            I.assume(sg(psub(k, l1), (0, 1)), log=False); I.assume(sg(psub(h1, k), (1,)), log=False)
        except Dead: return True
        c1 = subst(c1, {b1: k}); c2 = subst(c2, {b2: k})
        if len(c1) != len(c2): return False
        for (g1, s1), (g2, s2) in zip(sorted(c1, key=lambda c: str(c[1])), sorted(c2, key=lambda c: str(c[1]))):
            if not (g1 is g2 or I.facts.decide(b_or(b_and(g1, g2), b_and(b_not(g1), b_not(g2)))) is True): return False
            if len(s1) != len(s2) or not all(same_seg(I, p, q) for p, q in zip(s1, s2)): return False
        return True
    finally: I.undo(m)

def values_equal(x, y):
    return hk(x) == hk(y) or (isinstance(x, (int, Fraction, float)) and isinstance(y, (int, Fraction, float)) and not isinstance(x, bool) and not isinstance(y, bool) and x == y)

def equiv(ctx, I, rule, where, impl, spec, gen=None, same_fn=same, veq=values_equal, assume=(), n=None, interp=None, forbid=(), seed=0, raise_ok=None):
    """joint analysis of two thunks; per path: equal by normal form, else refuted by an instance, else undecided.
    gen(rng) -> {sym: value} valuations of the free symbols satisfying the stated assumptions"""
    def go():
        for a in assume: I.assume(a, log=False)
        s = attempt(I, spec)
        i = attempt(I, impl)
        return (s, i)
    def cap(o, m):
        o.eq = None
        if o.kind == "normal":
            (sk, sv), (ik, iv) = o.value
            if sk == ik:
                o.eq = True if sk == "raise" and (raise_ok is None or raise_ok(sv, iv)) else (bool(same_fn(I, sv, iv)) if sk == "return" else None)
            if not o.eq and infeasible(I): o.eq = True
            if not o.eq and sk == ik == "return" and same_fn is same:
                x, y = resolved(I, I.freeze(sv)), resolved(I, I.freeze(iv))
                x2, y2 = recount(I, x), recount(I, y)
                if (x2 is not x or y2 is not y) and same_t(I, x2, y2): o.eq = True
            o.pair = ((sk, resolved(I, I.freeze(sv)) if sk == "return" else sv), (ik, resolved(I, I.freeze(iv)) if ik == "return" else iv))
            o.facts_snapshot = None
    try:
        outs = I.explore(go, cap)
    except (Und, HoistX, RecursionError) as e:
        ctx.done(I)
        if gen is not None:
            r = apart(ctx, I, rule, where, impl, spec, gen, veq, assume, n, interp, forbid, seed, raise_ok)
            if r is not None: return r
        return ctx.und(rule, where, "analysis: %s" % e)
    ctx.done(I)
    bad = [o for o in outs if not o.eq]
    if not bad:
        return ctx.proved(rule, where, "%d paths agree in normal form" % len(outs))
    # refutation by instance
    if gen is not None:
        cant = None
        rng = random.Random(1234 + seed)
        for t in range(n or 400):
            env = gen(rng)
            if env is None: continue
            try:
                for o in bad:
                    M = Model(dict(env), t, forbid, interp)
                    try:
                        if not all(M.truth(M.ev(l)) for l in o.lits): continue
                    except CantEval as e:
                        cant = str(e); continue
                    (sk, sv), (ik, iv) = o.pair
                    if sk == "raise" and sv in ("NameError", "AttributeError"): cant = "specification: %s" % sv; continue
                    if sk != ik:
                        return ctx.refuted(rule, where, "specification %ss %s but the code %ss %s on the path %s" % (sk, render(sv), ik, render(iv), render(b_and(*o.lits)) if o.lits else "(all)"),
                                           show_env(env))
                    if sk == "raise": continue
                    try:
                        x, y = M.ev(sv), M.ev(iv)
                    except CantEval as e:
                        cant = str(e); continue
                    if not veq(x, y):
                        if soft(x) or soft(y): cant = "uninterpreted operation"; continue
                        return ctx.refuted(rule, where, "expected %s, the code computes %s on the path %s" % (render(sv)[:400], render(iv)[:400], render(b_and(*o.lits))[:300] if o.lits else "(all)"),
                                           "%s: expected %s, summary gives %s" % (show_env(env), show(x), show(y)))
            except RecursionError: cant = "recursion"
        return ctx.und(rule, where, "normal forms differ on %d of %d paths; no distinguishing instance%s; e.g. expected %s, code %s" % (len(bad), len(outs), " (%s)" % cant if cant else "", render(bad[0].pair[0])[:300], render(bad[0].pair[1])[:300]))
    return ctx.und(rule, where, "normal forms differ on %d of %d paths: expected %s, code %s" % (len(bad), len(outs), render(bad[0].pair[0])[:300], render(bad[0].pair[1])[:300]))

def apart(ctx, I, rule, where, impl, spec, gen, veq, assume, n, interp, forbid, seed, raise_ok):
    """implementation and specification summarised one by one; can only refute"""
    sums = []
    for th in (spec, impl):
        set_deadline(ctx.budget)
        I.reset_deadline() if hasattr(I, "reset_deadline") else None
        def go():
            for a in assume: I.assume(a, log=False)
            return attempt(I, th)
        def cap(o, m):
            if o.kind == "normal":
                k, v = o.value; o.pair = (k, resolved(I, I.freeze(v)) if k == "return" else v)
        try: sums.append(I.explore(go, cap))
        except (Und, HoistX, RecursionError) as e:
            return ctx.und(rule, where, "analysis of the %s alone: %s" % ("specification" if not sums else "code", e))
    rng = random.Random(1234 + seed); cant = None; tried = 0
    for t in range(n or 400):
        env = gen(rng)
        if env is None: continue
        got = []
        try:
            for outs in sums:
                M = Model(dict(env), t, forbid, interp)
                hit = None
                for o in outs:
                    try:
                        if all(M.truth(M.ev(l)) for l in o.lits): hit = (o, (o.pair[0], M.ev(o.pair[1]) if o.pair[0] == "return" else o.pair[1])); break
                    except CantEval as e: cant = str(e); hit = None; break
                got.append(hit)
        except RecursionError: cant = "recursion"; continue
        except CantEval as e: cant = str(e); continue
        if len(got) < 2 or got[0] is None or got[1] is None: continue
        tried += 1
        (so, (sk, x)), (io, (ik, y)) = got
        if sk == "raise" and x in ("NameError", "AttributeError"): cant = "specification: %s" % x; continue
        if sk != ik:
            return ctx.refuted(rule, where, "specification %ss but the code %ss %s on the path %s" % (sk, ik, render(y)[:300], render(b_and(*io.lits))[:300] if io.lits else "(all)"), show_env(env))
        if sk == "raise" or veq(x, y): continue
        if soft(x) or soft(y): cant = "uninterpreted operation"; continue
        return ctx.refuted(rule, where, "the code computes %s on the path %s" % (render(io.pair[1])[:400], render(b_and(*io.lits))[:300] if io.lits else "(all)"),
                           "%s: expected %s, summary gives %s" % (show_env(env), show(x), show(y)))
    return ctx.und(rule, where, "too large for a joint analysis; summaries agree on %d instances%s" % (tried, " (%s)" % cant if cant else ""))

def size(r, n):
    """a small size, now and then a larger one"""
    return r.randint(0, n + 5) if r.random() < .12 else r.randint(0, n)

def show(v):
    return repr(v)[:300]
def show_env(env):
    return "; ".join("%s = %s" % (k.args[0] if isinstance(k, Term) and k.op == "sym" else k, show(v)) for k, v in env.items())
