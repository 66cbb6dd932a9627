"""C04, C12: univariate reduction and coefficient conversion."""
from ..registry import check
from ..check import *
from ..terms import *
from .. import symval
from ..symval import MP
from .vts_checker import lsym, all_kinds, RELS
FORBID = ("mcall", "ext", "attr", "toint", "str", "num", "call")

def rpoly(r, names, deg=3, rat=True, terms=None):
    p = MP({})
    for _ in range(size(r, 4) if terms is None else terms):
        t = MP.const(Fraction(r.choice([-3, -2, -1, 1, 2, 3, 6]), r.choice([1, 1, 1, 2, 3, 4, 6]) if rat else 1))
        for n in names: t = t * MP.var(n) ** r.choice([0, 0, 1, 1, 2, deg])
        p = p + t
    return p

def norm(v):
    return v.cval() if isinstance(v, MP) and v.isconst() else v

@check("C04")
def c04(ctx):
    A = lsym("relations")
    I = ctx.interp()
    f = I.func("examples_parser", "make_univariate"); s = I.func("spec_isym", "univariate")
    if f is None: ctx.missing("vts/examples_parser.py:make_univariate")
    else:
        def gen(r):
            out = []
            for _ in range(size(r, 3)):
                vs = r.choice([["x"], ["y"], ["x", "y"], ["y", "z"], ["x", "y", "z"], []])
                out.append(RelV(r.choice(RELS), rpoly(r, vs), rpoly(r, r.choice([vs, [], ["w"]]))))
            if out and r.random() < .4: out.append(r.choice(out))
            return {A: out}
        def veq(x, y):
            if not (isinstance(x, list) and isinstance(y, list)) or len(x) != len(y): return False
            return all(isinstance(b, RelV) and a.kind == b.kind and norm(a.lhs) == norm(b.lhs) and norm(a.rhs) == norm(b.rhs) for a, b in zip(x, y))
        equiv(ctx, I, "entry i is a comparison of the same kind of (left minus right, all variables replaced by x) with 0", floc(f), lambda: I.call(f, [A]), lambda: I.call(s, [A]),
              gen, veq=veq, assume=[all_kinds(A, RELS)], interp=symval.INTERP, forbid=FORBID)
    I = ctx.interp(opaque=["examples_parser.make_univariate", "examples_parser.parse_example_dirs"])
    f = I.func("examples_parser", "examples_preformat_uni"); s = I.func("spec_examples", "preformat")
    if f is None or I.func("examples_parser", "parse_example_dirs") is None or I.func("examples_parser", "make_univariate") is None:
        return ctx.missing("vts/examples_parser.py:examples_preformat_uni")
    src = T("call", "examples_parser.parse_example_dirs")
    def gen2(r):
        def ex(): return {"antecedent": {"fmls": r.randint(1, 10 ** 6)}, "succedent": {"fmls": r.randint(1, 10 ** 6)}}
        return {src: {d: {n: [ex() for _ in range(size(r, 3))] for n in ["f1", "f2", "f3"][:r.randint(0, 3)]} for d in ["A", "B"][:r.randint(0, 2)]}}
    equiv(ctx, I, "every example of every file keeps its place; antecedent and succedent stay apart", floc(f), lambda: I.call(f, []), lambda: I.call(s, [src]), gen2,
          interp={"call:examples_parser.make_univariate": lambda M, a: ("uni", a[0])}, forbid=("mcall", "ext", "attr", "str", "num"))

def upto(x, y):
    """same list up to one positive factor"""
    if not isinstance(x, list) or not isinstance(y, list): return False
    if len(x) != len(y): return not any(x) and not any(y) and max(len(x), len(y)) <= 1
    try: x = [Fraction(norm(v)) for v in x]; y = [Fraction(norm(v)) for v in y]
    except TypeError: return False
    k = [(a, b) for a, b in zip(x, y) if a != 0]
    if not k: return not any(y)
    f = k[0][1] / k[0][0]
    return f > 0 and all(b == f * a for a, b in zip(x, y))

@check("C12")
def c12(ctx):
    A, P = lsym("coefficients"), T("sym", "poly")
    def one(rule, fn, sp, args, gen, veq, **k):
        I = ctx.interp()
        f = I.func("isym", fn); s = I.func("spec_isym", sp)
        if f is None: return ctx.missing("vts/isym.py:%s" % fn)
        return equiv(ctx, I, rule, floc(f), lambda: I.call(f, args), lambda: I.call(s, args), gen, veq=veq, interp=symval.INTERP, forbid=FORBID, raise_ok=lambda a, b: True, **k)
    def coef(r):
        return r.choice([0, 0, r.randint(-9, 9), Fraction(r.randint(-9, 9), r.choice([1, 2, 3, 4, 6])), Fraction(r.randint(-9, 9), 5)])
    class Irr(object):
        def __repr__(self): return "irrational"
    def gen1(r):
        l = [coef(r) for _ in range(size(r, 5))]
        k = r.random()
        if k < .15:        # many different denominators
            l = [Fraction(r.choice([-1, 1]) * (q + 1), q) for q in r.sample((2, 3, 5, 7, 11, 13, 17, 19, 4, 9), r.randint(4, 9))]
        elif k < .25: l = [r.choice([-1, 1]) * r.choice([10 ** 10 + 7, 2 ** 31, 2 ** 33 + 1, 2 ** 63, 3]) * r.choice([1, Fraction(1, 3)]) for _ in range(r.randint(1, 4))]
        elif k < .3: l = [0] * r.randint(1, 3) + l + [0] * r.randint(0, 2)
        if r.random() < .25 and l: l[r.randrange(len(l))] = Irr()
        return {A: l}
    bv = T("b", 1)
    one("all coefficients scaled by one positive factor; a coefficient that is neither integer nor rational is rejected", "convert_rationals_to_ints", "scaled", [A], gen1, upto,
        assume=[b_all(bv, 0, length(A), kd(at(A, bv), ["int", "Integer", "Ratio", "other"]))])
    def gen2(r):
        k = r.random()
        if k < .1: return {P: r.randint(-3, 3)}
        if k < .25: return {P: Fraction(r.randint(-5, 5), r.choice([1, 2, 3]))}
        if k < .35: return {P: rpoly(r, ["x", "y"], terms=3)}
        v = r.choice(["x", "t"])
        if k < .5:         # all powers up to a high one, with different denominators or large coefficients
            d = r.randint(4, 9); p = MP({})
            for j in range(d + 1):
                c = r.choice([Fraction(r.choice([-1, 1]), (2, 3, 5, 7, 11, 13, 17, 19, 23, 29)[j]), Fraction(r.choice([-7, 7])), Fraction(r.choice([-1, 1]) * (2 ** 33 + 1)), Fraction(0)])
                p = p + MP.const(c) * MP.var(v) ** j
            return {P: p} if p.syms() else None
        p = rpoly(r, [v], deg=r.choice([3, 4, 5]), rat=r.random() < .7)
        return {P: p} if p.syms() else None
    one("entry i of the converted polynomial carries the coefficient of the i-th power", "convert", "convert", [P], gen2, upto)
    one("converting back pairs entry i with the i-th power", "convert_back", "back", [A], lambda r: {A: [coef(r) for _ in range(size(r, 5))]}, lambda x, y: norm(x) == norm(y))
