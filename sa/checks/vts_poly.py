from ..registry import check
from ..check import *
from ..terms import *

def lists(rng, *syms, maxlen=4, elem=None):
    el = elem or (lambda: rng.randint(-3, 3))
    big = rng.random() < .2
    return {s: [el() for _ in range(rng.randint(0, maxlen + (7 if big else 0)))] for s in syms}
def upto0(x, y):
    """same list up to trailing zeros when nothing else is in it"""
    if values_equal(x, y): return True
    return isinstance(x, list) and isinstance(y, list) and not any(x) and not any(y)

@check("C13")
def c13(ctx):
    p, q, x = T("sym", "p", "list"), T("sym", "q", "list"), T("sym", "x")
    def one(rule, fn, sp, args, gen):
        I = ctx.interp()
        f = I.func("uni_vts", fn); s = I.func("spec_poly", sp)
        if f is None: ctx.missing("vts/uni_vts.py:%s" % fn); return
        equiv(ctx, I, rule, floc(f), lambda: I.call(f, args), lambda: I.call(s, args), gen, veq=upto0)
    one("derivative[i] = (i+1)*p[i+1]", "derivative", "derivative", [p], lambda r: lists(r, p))
    one("value(p, x) = sum p[i]*x^i", "evaluate_poly", "value", [p, x], lambda r: dict(lists(r, p), **{}) | {x: r.choice([0, 1, -1, 2, -2, Fraction(1, 2), 3])})
    one("product[k] = sum p[j]*q[k-j]", "multiply", "product", [p, q], lambda r: lists(r, p, q))

@check("C13")
def c13_sized(ctx):
    """short lists of every length, entries unknown"""
    x = T("sym", "x")
    def one(rule, fn, sp, shapes, more=()):
        for shape in shapes:
            I = ctx.interp(); I.unroll = I.deep = 12
            f = I.func("uni_vts", fn); s = I.func("spec_poly", sp)
            if f is None: return
            es = [[T("sym", "%s%d" % (n, j), "int") for j in range(k)] for n, k in zip("pq", shape)]
            args = lambda: [I.thaw(T("list", tuple(("one", e) for e in l))) for l in es] + list(more)
            gen = lambda r: dict({e: r.randint(-3, 3) for l in es for e in l}, **{}) | {x: r.choice([0, 1, -1, 2, -2, Fraction(1, 2), 3])}
            equiv(ctx, I, "%s for %s" % (rule, " and ".join("%d entries" % k for k in shape)), floc(f), lambda: I.call(f, args()), lambda: I.call(s, args()), gen, veq=upto0)
    one("derivative", "derivative", "derivative", [(k,) for k in range(7)])
    one("value", "evaluate_poly", "value", [(k,) for k in range(7)], [x])
    one("product", "multiply", "product", [(a, b) for a in range(4) for b in range(4)] + [(5, 2), (2, 5), (4, 4)])
