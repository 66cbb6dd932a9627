"""C25: sample points."""
import itertools
from ..registry import check
from ..check import *
from ..terms import *
from ..interp import Bound, PyFn, InstObj, ClassVal, DictObj, ListObj, TupV, MISSING
from .qe_common import plain
from .grf import sage, cls, VARS, method, run
from .grf_select import items, lst, Module, algebra, atom, decider

@check("C25")
def c25(ctx):
    c25_order(ctx); c25_perturb(ctx); c25_ball(ctx); c25_search(ctx)

def point(vs, base=10): return DictObj([("kv", "x%d" % j, base + 7 * j) for j in vs])
def counter(I):
    c = DictObj([]); c.f["n"] = 0
    def nxt():
        n = c.f["n"]; I.w(c.f, "n", n + 1)
        return n
    return nxt

def c25_order(ctx):
    keys = [(0,), (0, 1), (1, 0), (2, 0), (0, 1, 2), (2, 1, 0), (1, 2, 0), (3,), (3, 4)]
    hists = [(k,) for k in keys] + list(itertools.product(keys, repeat=2)) + [h for h in itertools.product(keys, repeat=3) if len(set(map(len, h))) > 1 or h[0] != h[1]][::9]
    where = None
    for h, same in [(h, False) for h in hists] + [(h, True) for h in hists[:30]]:
        I = ctx.interp(); I.unroll = I.deep = 8
        c = cls(I, "VarOrder", "local_search")
        if c is None or any(c.find(x) is MISSING for x in ("dict2vect", "vect2dict")): return ctx.missing("GRF/local_search.py:VarOrder")
        def go():
            out = []
            for n, k in enumerate(h):
                p = point(k, 100 * (n + 1)) if not same else DictObj([("kv", "x%d" % j, 0) for j in k])
                v = I.call(I.getattr(c, "dict2vect"), [p], {}); v2 = lst(*[x + 1 for x in items(I, v)])
                out.append(TupV([v, p, I.call(I.getattr(c, "vect2dict"), [v], {}), I.call(I.getattr(c, "vect2dict"), [v2], {})]))
            return TupV(out)
        def judge(v):
            for n, (vec, p, back, moved) in enumerate(v):
                if not isinstance(vec, (list, tuple)) or not isinstance(back, dict) or not isinstance(moved, dict): return "? %r" % (v,)
                sh = lambda d: "{%s}" % ", ".join("%s: %s" % (render(a) if isinstance(a, Term) else a, b) for a, b in d.items())
                if sorted(vec) != sorted(p.values()): return "the vector of %s is %s" % (sh(p), vec)
                if back != p: return "problem %d: %s becomes %s" % (n + 1, sh(p), sh(back))
                if moved != {a: b + 1 for a, b in p.items()}: return "problem %d: increasing every coordinate of %s gives %s" % (n + 1, sh(p), sh(moved))
        run(ctx, I, "points%s over %s become vectors and the same points again" % (" with every coordinate zero" if same else "", " then ".join("(%s)" % ",".join("x%d" % j for j in k) for k in h)), floc(c.find("vect2dict")), go, judge)

def chance(I, cells=True):
    """random numbers: the ends and the middle of the range asked for"""
    nxt = counter(I)
    def between(lo, hi, n):
        lo, hi = [Fraction(str(x)) if isinstance(x, float) else x for x in (lo, hi)]
        if not all(isinstance(x, (int, Fraction)) and not isinstance(x, bool) for x in (lo, hi)): raise Und("range", n)
        k = nxt()
        if not cells: return lo + (Fraction(hi) - lo) * ((k * 37) % 97 + 1) / 98
        s = T("sym", "random number %d" % k, "int"); I.few[s] = (0, 1, 2)
        return lo + (Fraction(hi) - lo) * I.narrow(s) / 2
    def choice(I_, a, k, n):
        l = items(I_, a[0])
        if not l: raise RaiseX("IndexError")
        s = T("sym", "choice %d" % nxt(), "int"); I.few[s] = tuple(range(len(l)))
        return l[I.narrow(s)]
    I.handlers.update({"random.uniform": lambda I_, a, k, n: between(a[0], a[1], n), "random.random": lambda I_, a, k, n: between(0, 1, n), "random.choice": choice,
                       "random.seed": lambda I_, a, k, n: None})

def moved(old, new, e):
    if not isinstance(new, dict) or not all(isinstance(x, (int, Fraction)) for x in new.values()): return "? %r" % (new,)
    sh = lambda d: "{%s}" % ", ".join("%s: %s" % (render(a) if isinstance(a, Term) else a, b) for a, b in d.items())
    if set(new) != set(old): return "the point %s becomes %s" % (sh(old), sh(new))
    for k in old:
        if abs(new[k] - old[k]) > e: return "a coordinate moves by %s, more than %s: %s becomes %s" % (abs(new[k] - old[k]), e, sh(old), sh(new))

PLACES = [(-20, -13, -6), (0, 0, 5), (3, 3, 3), (1, -1, 0), (Fraction(1, 3), 2, Fraction(-7, 2)), (10 ** 6, -10 ** 6, 1)]
def place(vs, at): return DictObj([("kv", "x%d" % j, v) for j, v in zip(range(vs), at)])
def coords(at): return "(%s)" % ", ".join(map(str, at))

def c25_perturb(ctx):
    for n in (1, 2, 3):
        for e in (Fraction(1, 100), 2, 0, 1, Fraction(3, 2), 50)[: 6 if n < 3 else 3]:
            for at in PLACES[: 6 if n < 3 else 2]:
                for what in ("perturb", "perturb_dict"):
                    I = ctx.interp(); I.unroll = I.deep = 8; chance(I)
                    f = I.func("local_search", what)
                    if f is None: ctx.missing("GRF/local_search.py:" + what); continue
                    p = lambda: place(n, at) if what == "perturb_dict" else lst(*at[:n])
                    def go():
                        a = p(); r = I.call(f, [a, e], {})
                        return TupV([p(), a, r])
                    def judge(v):
                        p0, a, r = [dict(enumerate(x)) if isinstance(x, (list, tuple)) else x for x in v]
                        if a != p0: return "the original point is changed"
                        return moved(p0, r, e)
                    run(ctx, I, "%s moves each coordinate of %s by at most %s" % (what, coords(at[:n]), e), floc(f), go, judge)

def c25_ball(ctx):
    for n, k, at in [(1, 0, PLACES[0]), (1, 1, PLACES[0]), (1, 2, PLACES[0]), (2, 1, PLACES[0]), (2, 2, PLACES[0]), (3, 1, PLACES[0]), (1, 3, PLACES[0]), (2, 1, PLACES[1]), (2, 1, PLACES[2]), (2, 2, PLACES[3]), (2, 1, PLACES[4]), (2, 1, PLACES[5])]:
        for e in (Fraction(1, 100), 2, Fraction(3, 2))[: 3 if at is not PLACES[0] else 2]:
            M = Module(2); I = ctx.interp(); I.unroll = I.deep = 8; algebra(I, M); chance(I)
            c = cls(I, "RCF_GD_Decide")
            if c is None or c.find("k_sample_points_in_ball") is MISSING: return ctx.missing("GRF/grf.sage:RCF_GD_Decide.k_sample_points_in_ball")
            def go():
                d = I.instantiate(c, [n], {}, None)
                return TupV([place(n, at), method(I, d, "k_sample_points_in_ball", [place(n, at), k, e])])
            def judge(v):
                p0, l = v
                if not isinstance(l, (list, tuple)): return "? %r" % (l,)
                if len(l) < k: return "%d points asked for, %d returned" % (k, len(l))
                for r in l:
                    x = moved(p0, r, e)
                    if x: return x
            run(ctx, I, "%d points in a ball of radius %s around %s" % (k, e, coords(at[:n])), floc(c.find("k_sample_points_in_ball")), go, judge)

def c25_search(ctx):
    for n, hyps in [(1, 0), (1, 1), (2, 1), (1, 2), (3, 1)]:
        for cap in (1, 2)[: 2 if hyps == 1 and n == 1 else 1]:
            M = Module(hyps + 2); I = ctx.interp(); I.unroll = I.deep = 8; algebra(I, M); chance(I, False); nxt = counter(I)
            hp = [M.gen(j) for j in range(hyps)]; g = M.gen(hyps)
            sh = lambda d: "{%s}" % ", ".join("%s: %s" % (a, b) for a, b in sorted(d.items(), key=str))
            def fewer(name):
                def h(I_, a, k, nd):
                    return NotImplemented if not a or not all(isinstance(x, int) for x in a) or a[-1] < 10 else I_.call_builtin(name, list(a[:-1]) + [cap], {}, nd)
                return h
            def fsolve(I_, a, k, nd):
                v = items(I_, a[1]); r = [Fraction(1000 + 50 * nxt() + j) for j in range(len(v))]
                I_.w(log.f, "found", log.f["found"] + (tuple(r),))
                return lst(*r)
            def ev(I_, f, a, k, nd):
                p = I_.getattr(a[0], "poly"); d = plain(I_, a[1])
                if not isinstance(d, dict): raise Und("point")
                s = T("sym", "goal at " + sh(d) if p == g else "H%d" % hp.index(p) if p in hp else "?", "int"); I_.few[s] = (0, 1)
                if p == g: I_.w(log.f, "asked", log.f["asked"] + ((tuple(sorted(d.items(), key=str)), I_.narrow(s)),))
                return I_.narrow(s) == 1
            log = DictObj([]); log.f["found"] = log.f["asked"] = ()
            def value(I_, v, a, k, nd):
                if not M.known(v): return NotImplemented
                d = plain(I_, a[0]); s = T("sym", "value of %s" % v, "int"); I_.few[s] = (0, 1)
                return I_.narrow(s)
            def near(I_, f, a, k, nd):
                e = a[1] if len(a) > 1 else k["e"]
                r = [x + Fraction(str(e)) / (nxt() + 2) for x in items(I_, a[0])]
                I_.w(log.f, "found", log.f["found"] + (tuple(r),))
                return lst(*r)
            I.handlers.update({"fn:local_search.perturb": near, "builtin:xrange": fewer("xrange"), "builtin:range": fewer("range"), "*.fsolve": fsolve, "fn:grf.RCF_Atom.eval_on_dict": ev, "method:substitute": value, "math.copysign": lambda I_, a, k, nd: a[0] if a[1] > 0 else -a[0]})
            f = I.func("local_search", "local_search_sampling")
            if f is None: return ctx.missing("GRF/local_search.py:local_search_sampling")
            vs = tuple(range(n))
            def go():
                d = decider(I, [atom(I, ">", p) for p in hp], atom(I, ">", g))
                I.w(d.f, "num_vars", n)
                r = I.call(f, [d, point(vs, -20), None], {})
                return TupV([Box(log.f["found"]), Box(log.f["asked"]), point(vs, -20), r])
            def judge(v):
                found, asked, p0, l = v[0].v, v[1].v, v[2], v[3]
                if not isinstance(l, (list, tuple)) or not all(isinstance(x, dict) for x in l): return "? %r" % (l,)
                if not any(x == p0 for x in l): return "the original point %s is not in the sample" % sh(p0)
                for x in l:
                    if set(x) != set(p0): return "the sample contains the point %s of a problem in %s" % (sh(x), ",".join("x%d" % j for j in vs))
                truth = dict(asked)
                for p, t in asked:
                    if not t and dict(p) not in l: return "the goal fails at the candidate %s, which is not in the sample" % sh(dict(p))
                for r in found:
                    p = [x for x in list(map(dict, truth)) + list(l) if sorted(x.values()) == sorted(r)]
                    if not p: return "the candidate with coordinates (%s) is neither kept nor found to satisfy the goal" % ", ".join(map(str, r))
            run(ctx, I, "sampling around a point with %d coordinates and %d hidden hypotheses (series of %d) keeps the point and the candidates at which the goal fails" % (n, hyps, cap), floc(f), go, judge)
