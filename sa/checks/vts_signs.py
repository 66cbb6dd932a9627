"""C07-C10: sign tables, signed remainders, sign counts, root descriptions."""
from ..registry import check
from ..check import *
from ..terms import *
from ..model import Obj as MObj
from ..symval import roots
from .vts_checker import lsym
from .vts_decide import ipoly, pval, sgn, pder, pkey, rat, mkroots, Z3

FB = ("mcall", "attr", "ext", "call", "toint", "num")

@check("C07")
def c07(ctx):
    A = [lsym(n) for n in ("le", "lt", "eq", "ne")]
    I = ctx.interp(deadline=90)
    f = I.func("uni_vts", "sign_conditions_lookup"); s = I.func("spec_vts", "accepted"); kf = I.func("uni_vts", "make_poly_hashabel")
    if f is None or kf is None: return ctx.missing("vts/uni_vts.py:sign_conditions_lookup, make_poly_hashabel")
    P = lsym("asked")
    # groups of polynomials that a careless key would confuse
    groups = [[[1, 12], [11, 2], [1, 1, 2], [112], [-1, 12], [1, -12]], [[1], [-1], [1, 0], [0, 1], [1, 0, 0]], [[2, 1], [1, 2], [-1, 2], [1, -2], [-1, -2], [2, 4], [-2, -4]],
              [[3, 0, 1], [0, 3, 1], [1, 0, 3], [3, 1], [-3, 0, -1]], [[1, 2, 3, 4], [1, 2, 3, 5], [1, 2, 3], [1, 2, 4, 4], [2, 2, 3, 4], [4, 3, 2, 1], [1, 2, 3, -4], [1, 2, 3, 4, 5, 6], [1, 2, 3, 4, 5, 7], [1, 2, 3, 9, 5, 7]],
              [[1, 1], [10, 10], [10, 1], [1, 10], [100, 1], [1, 11]], [[123456789, 1], [123456788, 1], [123456789, 2], [223456789, 1], [1, 123456789]], [[3], [-3], [30], [0, 3], [1, 3], [3, 3]],
              [[1, 2] * 7, [1, 2] * 6 + [1, 3], [1, 2] * 6, [2] + [2] * 13, [1, 2] * 10, [1, 2] * 9 + [5, 2], [1, 2] * 3 + [7] + [1, 2] * 3 + [2]]]
    def gen(r):
        g = r.choice(groups); ps = [r.choice(g) for _ in range(r.randint(1, 3))]
        env = {a: [list(r.choice(ps)) for _ in range(r.choice([0, 0, 1, 1, 2, 3]))] for a in A}
        known = [p for a in A for p in env[a]]
        if not known: return None
        env[P] = list(r.choice(known)); return env
    # the table as its users see it: the entry under the key of an asked polynomial that occurs in the constraints
    def impl(): return I.index(I.call(f, A), I.call(kf, [P]))
    def spec(): return I.index(I.call(s, A), I.call(I.func("spec_vts", "key"), [P]))
    equiv(ctx, I, "the signs accepted for a polynomial are those permitted by every kind it occurs under, and by nothing else", floc(f), impl, spec, gen, forbid=FB, n=1200)

# ------------------------------------------------------------------ C08
def strip(p):
    p = list(p)
    while p and p[-1] == 0: p.pop()
    return p
def prem(f, g):
    """remainder of f by g, rational"""
    f, g = strip(f), list(g)
    if not g or g[-1] == 0: raise CantEval("division by zero")
    f = [Fraction(c) for c in f]
    while len(f) >= len(g):
        c = f[-1] / g[-1]; d = len(f) - len(g)
        f = [x - (c * g[i - d] if i >= d else 0) for i, x in enumerate(f)]
        f = strip(f[:-1])
    return f
def remseq(p, q):
    out = [list(p)]
    while strip(q):
        q = strip(q); out.append(q); p, q = q, [-c for c in prem(p, q)]
    return out
def changes(vs):
    vs = [v for v in vs if v != 0]
    return sum(1 for a, b in zip(vs, vs[1:]) if a * b < 0)
def cindex(p, q):
    s = [strip(x) for x in remseq(p, q)]
    return changes([x[-1] * (-1) ** (len(x) - 1) for x in s]) - changes([x[-1] for x in s])
def pmul(p, q):
    r = [0] * max(0, len(p) + len(q) - 1)
    for i, a in enumerate(p):
        for j, b in enumerate(q): r[i + j] += a * b
    return r
def isp(x): return isinstance(x, (list, tuple)) and all(isinstance(c, (int, Fraction)) and not isinstance(c, bool) for c in x)
def need(*ps):
    if not all(isp(p) for p in ps): raise CantEval("not a coefficient list")
def along(p, q):
    """positive multiples of each other"""
    if not isp(p) or not isp(q): return values_equal(p, q)
    if q and q[-1] == 0: return False       # a remainder is given without leading zeros
    p = strip(p)
    if len(p) != len(q): return False
    return not p or (p[-1] * q[-1] > 0 and all(a * q[-1] == b * p[-1] for a, b in zip(p, q)))
def alongs(x, y):
    return isinstance(x, (list, tuple)) and isinstance(y, (list, tuple)) and len(x) == len(y) and all(along(a, b) for a, b in zip(x, y))
def mfun(f):
    def g(M, a):
        need(*a); return f(*a)
    return g
SREM = {"call:uni_vts.signed_pseudo_remainder": mfun(prem), "call:uni_vts.signed_remainder_sequence": mfun(remseq), "call:uni_vts.signed_remainder_cauchy_index": mfun(cindex),
        "call:uni_vts.multiply": mfun(pmul), "call:uni_vts.derivative": mfun(pder)}

def once(I, qual):
    """one unfolding of a recursive function; inner applications stay opaque"""
    def rec(I, g, args, kw, node):
        if I.S.get("once", 0) == 0 and not kw:
            I.w(I.S, "once", 1)
            return NotImplemented
        return T("call", qual, *[I.freeze(a) for a in args])
    I.handlers["fn:" + qual] = rec
def within(I, th):
    I.w(I.S, "once", 1)
    try: return th()
    finally: I.w(I.S, "once", 0)

def cpoly(r, n=4, hi=4):
    d = size(r, n)
    p = [r.randint(-hi, hi) for _ in range(d)]
    if p and p[-1] == 0: p[-1] = r.choice([-2, -1, 1, 3])
    return p

@check("C08")
def c08_srem(ctx):
    F, G = lsym("f"), lsym("g")
    I = ctx.interp()
    f = I.func("uni_vts", "signed_pseudo_remainder"); s = I.func("spec_vts", "srem")
    if f is None: return ctx.missing("vts/uni_vts.py:signed_pseudo_remainder")
    once(I, "uni_vts.signed_pseudo_remainder")
    def gen(r):
        p = cpoly(r, r.choice([4, 4, 8]))
        if r.random() < .15: p = p + [0]
        q = cpoly(r)
        if r.random() < .3: p = pmul(p, q) or p
        if p and r.random() < .3: p = [p[0] + r.choice([-1, 0, 1, 2])] + p[1:]
        return {F: p, G: q} if p or q else None
    equiv(ctx, I, "a remainder step cancels the leading term and scales the dividend by a positive factor", floc(f),
          lambda: I.call(f, [F, G]), lambda: within(I, lambda: I.call(s, [F, G, f])), gen, veq=along, interp=SREM, forbid=FB, n=1500)

@check("C08")
def c08_seq(ctx):
    F, G = lsym("p"), lsym("q")
    I = ctx.interp(opaque=["uni_vts.signed_pseudo_remainder"])
    f = I.func("uni_vts", "signed_remainder_sequence"); s = I.func("spec_vts", "remainders"); rm = I.func("uni_vts", "signed_pseudo_remainder")
    if f is None or rm is None: return ctx.missing("vts/uni_vts.py:signed_remainder_sequence")
    once(I, "uni_vts.signed_remainder_sequence")
    def gen(r):
        q = cpoly(r) or [1]; p = cpoly(r)
        if r.random() < .4: p = pmul(p, q) or p
        return {F: p or [2], G: q}
    equiv(ctx, I, "the sequence is its two inputs followed by the negated remainders", floc(f),
          lambda: I.call(f, [F, G]), lambda: within(I, lambda: I.call(s, [F, G, rm, f])), gen, veq=lambda x, y: alongs(x, y), interp=SREM, forbid=FB, n=1000)

@check("C08")
def c08_index(ctx):
    F, G = lsym("p"), lsym("q")
    I = ctx.interp(opaque=["uni_vts.signed_remainder_sequence"])
    f = I.func("uni_vts", "signed_remainder_cauchy_index"); s = I.func("spec_vts", "cauchy"); sq = I.func("uni_vts", "signed_remainder_sequence")
    if f is None or sq is None: return ctx.missing("vts/uni_vts.py:signed_remainder_cauchy_index")
    def gen(r):
        p = ipoly(r, 4); q = pmul(pder(p), ipoly(r, 3)) if r.random() < .6 else cpoly(r)
        return {F: p, G: q}
    equiv(ctx, I, "the root count is the sign changes at minus infinity less those at plus infinity over the non-zero entries", floc(f),
          lambda: I.call(f, [F, G]), lambda: I.call(s, [F, G, sq]), gen, interp=SREM, forbid=FB, n=1000)

@check("C08")
def c08_taq(ctx):
    F, G = lsym("p"), lsym("q")
    names = ["signed_remainder_cauchy_index", "multiply", "derivative"]
    I = ctx.interp(opaque=["uni_vts." + n for n in names])
    f = I.func("uni_vts", "tarski_query"); s = I.func("spec_vts", "taq"); fs = [I.func("uni_vts", n) for n in names]
    if f is None or None in fs: return ctx.missing("vts/uni_vts.py:tarski_query")
    def gen(r):
        return {F: ipoly(r, 4), G: ipoly(r, 3) if r.random() < .7 else cpoly(r) or [1]}
    equiv(ctx, I, "the query counts over the polynomial and its derivative times the queried polynomial", floc(f),
          lambda: I.call(f, [F, G]), lambda: I.call(s, [F, G] + fs), gen, interp=SREM, forbid=FB, n=600)

# ------------------------------------------------------------------ C09
from .vts_matrix import hooks, Disk, inv3
def enumeration(ctx):
    """powers by row and signs by column of the matrix for one polynomial; None when it is not a sign matrix"""
    I = ctx.interp(handlers=hooks(Disk())); I.unroll = 9
    g = I.func("matrix_of_signs", "get_matrix")
    if g is None: return None
    got = []
    def go(): got.append(attempt(I, lambda: I.call(g, [1])))
    try: I.explore(go)
    except (Und, HoistX): return None
    ctx.done(I)
    k, v = got[-1]; v = I.freeze(v) if k == "return" else None
    if not (isinstance(v, Term) and v.op == "mat" and v.args[1] == 1 and len(v.args[0]) == 3): return None
    R = v.args[0]
    for r in R:
        if sorted(r) == [-1, 0, 1]:
            cols = tuple(int(x) for x in r)
            want = {0: (1, 1, 1), 1: cols, 2: tuple(c * c for c in cols)}
            pw = [next((k for k in (0, 1, 2) if tuple(want[k]) == tuple(x)), None) for x in R]
            if sorted(x for x in pw if x is not None) == [0, 1, 2]: return cols, tuple(pw), R
    return "bad", R

def mprod(polies, pw):
    if not polies: return [[1]]
    rest = mprod(polies[1:], pw)
    return [q if k == 0 else pmul(q, polies[0]) if k == 1 else pmul(q, pmul(polies[0], polies[0])) for k in pw for q in rest]

class Mat(object):
    """matrix instance"""
    def __init__(self, rows): self.r = [list(x) for x in rows]
    def isconst(self): return False
    def __mul__(self, o):
        if not isinstance(o, Mat): return Mat([[x * o for x in r] for r in self.r])
        a, b = self, o
        if len(a.r[0]) != len(b.r): a, b = b, a         # products of symbols are kept in normal order
        if len(a.r[0]) != len(b.r): raise CantEval("shapes")
        return Mat([[sum(x * y for x, y in zip(r, c)) for c in zip(*b.r)] for r in a.r])
    def __rmul__(self, k): return self * k
    def __add__(self, o):
        if not isinstance(o, Mat): return self if o == 0 else (_ for _ in ()).throw(CantEval("sum"))
        return Mat([[x + y for x, y in zip(p, q)] for p, q in zip(self.r, o.r)])
    __radd__ = __add__
    def __pow__(self, e):
        if e == 1: return self
        raise CantEval("power")
    def entry(self, i): f = [x for r in self.r for x in r]; return f[i]
def mkron(a, b): return [[x * y for x in r for y in s] for r in a for s in b]

@check("C09")
def c09_encoding(ctx):
    e = enumeration(ctx); where = "vts/matrix_of_signs.py"
    rule = "the matrix for one polynomial has the rows p^0, p^1, p^2 over the signs of p"
    if e is None: return ctx.und(rule, where, "matrix for one polynomial not recognised")
    if e[0] == "bad": return ctx.refuted(rule, where, "rows %s" % (e[1],), "get_matrix(1)")
    ctx.proved(rule, where, "signs by column %s, powers by row %s" % (e[0], e[1]))
    cols, pw, R = e
    names = ["multiply"]
    # products
    P = lsym("polies")
    I = ctx.interp(opaque=["uni_vts.multiply"])
    f = I.func("uni_vts", "make_product_list"); s = I.func("spec_vts", "products"); mul = I.func("uni_vts", "multiply")
    if f is None or mul is None: ctx.missing("vts/uni_vts.py:make_product_list")
    else:
        once(I, "uni_vts.make_product_list")
        def gen(r): return {P: [cpoly(r, 2, 3) or [2] for _ in range(r.randint(0, 3))]}
        def veq(x, y): return isinstance(x, list) and isinstance(y, list) and len(x) == len(y) and all(isp(a) and isp(b) and strip(a) == strip(b) for a, b in zip(x, y))
        def mp(M, a):
            need(*a[0]); return mprod(a[0], pw)
        equiv(ctx, I, "products are listed in the order of the matrix rows, first polynomial slowest", floc(f), lambda: I.call(f, [P]), lambda: within(I, lambda: I.call(s, [P, TupV(list(pw)), mul, f])), gen, veq=veq,
              interp=dict(SREM, **{"call:uni_vts.make_product_list": mp}), forbid=FB, n=300)
    # reading
    D, C = T("sym", "description"), lsym("counts")
    I = ctx.interp(deadline=90)
    f = I.func("uni_vts", "pick_sign_of_goal"); s = I.func("spec_vts", "pick")
    off = DictObj([("kv", c, i) for i, c in enumerate(cols)])
    def digits(r, n):
        out = 0
        for c in r: out = out * 3 + cols.index(c)
        return out
    def gen(r):
        n = r.randint(1, 4)
        x = r.randint(-3, 3); ps = []
        while len(ps) < n:
            p = cpoly(r, 3, 3) or [1]
            if p not in ps: ps.append(p)
        if n > 1 and r.random() < .3: ps[-1] = list(r.choice(ps[:-1]))       # the goal may be a polynomial whose sign is known
        sg_ = [sgn(pval(p, x)) for p in ps]
        cnt = [0] * 3 ** n
        mode = r.random()
        if mode < .5: cnt = [r.choice([0, 1, 1, 2]) for _ in cnt]
        base = digits(sg_[:-1] + [cols[0]], n)
        for k in range(3): cnt[base + k] = 0
        if r.random() < .9: cnt[base + cols.index(sg_[-1])] = 1
        if r.random() < .15: cnt[base + r.randrange(3)] = r.choice([1, 2, -1])
        return {P: ps, D: MObj("DiscDerSigns", point=x, all_polies=ps[:-1], origin=[-x, 1]), C: cnt}
    def m_sign(M, a): need(a[1]); return sgn(pval(a[1], a[0].d["point"]))
    if f is None: ctx.missing("vts/uni_vts.py:pick_sign_of_goal")
    else:
        equiv(ctx, I, "the goal's sign is the one counted once at the position of the known signs; anything else is an error", floc(f), lambda: I.call(f, [P, D, C]), lambda: I.call(s, [P, D, C, off]), gen,
              interp={"mcall:get_sign": m_sign, "mcall:get_all_polies": lambda M, a: a[0].d["all_polies"]}, forbid=("mcall", "attr", "ext", "call"), n=800)
    # assembling
    names = ["make_product_list", "tarski_query", "pick_sign_of_goal", "check_powers"]
    G = lsym("goal")
    I = ctx.interp(opaque=["uni_vts." + n for n in names] + ["matrix_of_signs.get_matrix_inverse", "matrix_of_signs.get_matrix"])
    f = I.func("uni_vts", "evaluate_single_on_sign_assignment"); s = I.func("spec_vts", "single")
    fs = [I.func("matrix_of_signs", "get_matrix_inverse")] + [I.func("uni_vts", n) for n in names[:3]]
    if f is None or None in fs: return ctx.missing("vts/uni_vts.py:evaluate_single_on_sign_assignment")
    def gen(r):
        o = ipoly(r, 3); rs = roots(o)
        if not rs: return None
        x = rat(r.choice(rs))
        ps = []
        d = o
        while len(d) > 2 and len(ps) < 2:
            d = pder(d)
            if r.random() < .7: ps.append(d)
        same_ = [y for y in rs if all(sgn(pval(p, y)) == sgn(pval(p, x)) for p in ps)]
        if len(same_) != 1: return None
        return {D: MObj("DiscDerSigns", point=x, all_polies=ps, origin=o), G: goal(r, o, ps)}
    def goal(r, o, ps):
        k = r.random()
        if k < .15: return list(o)
        if k < .25: return [o[0] + r.choice([-1, 1, 2])] + o[1:]         # close to the polynomial whose roots are described
        if k < .3: return [r.choice([-1, 2]) * c for c in o]
        if k < .35: return o[:-1] + [o[-1] + 1 or 1]
        if k < .45 and ps: return list(r.choice(ps))
        return cpoly(r, 3, 3) or [1]
    def msize(k): return lambda M, a: Mat(minv(a[0]) if k else mmat(a[0]))
    def mmat(n): return [list(map(Fraction, r)) for r in R] if n == 1 else mkron(mmat(n - 1), mmat(1))
    def minv(n): return [list(r) for r in inv3(R)] if n == 1 else mkron(minv(n - 1), minv(1))
    def mtaq(M, a): need(*a); return cindex(a[0], pmul(pder(a[0]), a[1]))
    def mpick(M, a):
        ps, d, c = a
        if not isinstance(c, Mat): raise CantEval("counts")
        i = 0
        for p in ps[:-1]: i = i * 3 + cols.index(sgn(pval(p, d.d["point"])))
        v = [c.entry(i * 3 + k) for k in range(3)]
        return cols[v.index(1)] if sorted(v) == [0, 0, 1] else ("error", tuple(v))
    def mmatrix(M, a):
        if not (isinstance(a[0], list) and all(isinstance(x, list) for x in a[0])): raise CantEval("matrix")
        return Mat(a[0])
    equiv(ctx, I, "root counts of the products, solved with the inverse for as many polynomials, are read at the goal", floc(f), lambda: I.call(f, [D, G]), lambda: I.call(s, [D, G] + fs), gen,
          interp={"mcall:get_sign": m_sign, "mcall:get_all_polies": lambda M, a: list(a[0].d["all_polies"]), "call:matrix_of_signs.get_matrix_inverse": msize(1), "call:matrix_of_signs.get_matrix": msize(0), "call:uni_vts.tarski_query": mtaq,
                  "call:uni_vts.pick_sign_of_goal": mpick, "call:uni_vts.make_product_list": lambda M, a: mprod(a[0], pw), "ext:sympy.Matrix": mmatrix}, forbid=("mcall", "attr", "ext", "call"), n=400)

# ------------------------------------------------------------------ C10
def obs(v):
    """what users see of a list of descriptions: points and recorded signs"""
    out = []
    if not isinstance(v, list): return v
    for o in v:
        if not hasattr(o, "d"): return v
        out.append((o.d.get("point"), tuple(sorted((k, hk(sorted(map(repr, x)))) for k, x in o.d.items() if isinstance(x, list))), tuple(sorted((k, hk(x)) for k, x in o.d.items() if isinstance(x, dict)))))
    return sorted(out, key=repr)

@check("C10")
def c10_descriptions(ctx):
    Rs, P = lsym("roots"), lsym("poly")
    I = ctx.interp(deadline=90, opaque=["uni_vts.derivative", "uni_vts.evaluate_poly"])
    f = I.func("uni_vts", "get_discri_der_signs"); s = I.func("spec_vts", "descriptions"); cls = I.module("uni_vts").f.get("DiscDerSigns")
    fs = [I.func("uni_vts", n) for n in ("derivative", "evaluate_poly")]
    if f is None or None in fs or not isinstance(cls, ClassVal): return ctx.missing("vts/uni_vts.py:get_discri_der_signs, DiscDerSigns")
    def rec(I, g, args, kw, node):
        # induction hypothesis: one description per root of the smaller group
        if I.S.get("once", 0) == 0 and not kw:
            I.w(I.S, "once", 1); return NotImplemented
        if len(args) != 2: return NotImplemented
        fr = I.freeze(args[0]); fp = I.freeze(args[1])
        bv = T("b", 1 + bdepth((fr, fp)))
        o = I.instantiate(cls, [at(fr, bv)], {}, node)
        I.w(o.f, "told apart by", args[1])
        return ListObj([Star(bv, 0, I.length(args[0]), [(True, (One(I.freeze(o)),))])])
    I.handlers["fn:uni_vts.get_discri_der_signs"] = rec
    def gen(r):
        # groups are split by one derivative after another, so the roots of a group need not be roots of the polynomial at hand
        p = ipoly(r, r.choice([2, 3, 5, 7]))
        rs = [rat(x) for x in roots(p) or []]
        k = r.random()
        if k < .4: rs += [x for x in r.sample(range(-3, 4), r.randint(0, 3))]
        if k < .3: rs += [rat(x) for x in roots(pder(p)) or []]
        rs = sorted(set(rs))
        if r.random() < .3: rs = [x for x in rs if r.random() < .8]
        return {Rs: rs, P: p}
    def veq(x, y): return values_equal(obs(x), obs(y))
    equiv(ctx, I, "each root gets one description, told apart by the true sign of the next derivative, recorded when it separates", floc(f), lambda: I.call(f, [Rs, P]), lambda: within(I, lambda: I.call(s, [Rs, P, cls] + fs + [f])), gen, veq=veq,
          interp=dict(SREM, **{"call:uni_vts.evaluate_poly": lambda M, a: (need(a[0]), pval(a[0], a[1]))[1]}), forbid=FB, n=1500)

ADD = (("add_zer_poly", 0), ("add_pos_poly", 1), ("add_neg_poly", -1))
@check("C10")
def c10_class(ctx):
    for i, (m1, s1) in enumerate(ADD):
        for m2, s2 in ADD:
            I = ctx.interp()
            cls = I.module("uni_vts").f.get("DiscDerSigns")
            if not isinstance(cls, ClassVal): return ctx.missing("vts/uni_vts.py:DiscDerSigns")
            P, Q, X = lsym("p"), lsym("q"), T("sym", "point")
            def impl():
                o = I.instantiate(cls, [X], {}, None)
                I.call(I.getattr(o, m1), [P]); I.call(I.getattr(o, m2), [Q])
                return TupV([I.call(I.getattr(o, "get_sign"), [P]), I.call(I.getattr(o, "get_sign"), [Q]), I.call(I.getattr(o, "get_all_polies"), []), I.getattr(o, "point")])
            def spec():
                # different coefficients have different texts
                kf = I.func("spec_vts", "key"); I.assume(b_not(I.eq_cond(I.call(kf, [P]), I.call(kf, [Q]))), log=False)
                return TupV([s1, s2, ListObj([One(P), One(Q)]), X])
            def gen(r):
                p, q = cpoly(r, 3, 2), cpoly(r, 3, 2)
                if r.random() < .3: q = p[:-1] + [12]; p = p[:-1] + [1, 2]
                if r.random() < .2: q = [-c for c in p]
                return {P: p, Q: q, X: 3} if p != q else None
            def veq(x, y): return values_equal(x[:2] + x[3:], y[:2] + y[3:]) and isinstance(y[2], (list, tuple)) and sorted(map(repr, x[2])) == sorted(map(repr, y[2]))
            from ..terms import b_not
            equiv(ctx, I, "signs recorded by %s then %s are read back" % (m1, m2), "vts/uni_vts.py DiscDerSigns", impl, spec, gen, veq=veq, assume=[b_not(I.eq_cond(P, Q))], forbid=FB, n=200)

@check("C10")
def c10_apart(ctx):
    I = ctx.interp()
    cls = I.module("uni_vts").f.get("DiscDerSigns")
    if not isinstance(cls, ClassVal): return ctx.missing("vts/uni_vts.py:DiscDerSigns")
    P = lsym("p"); X, Y = T("sym", "x"), T("sym", "y")
    def impl():
        o, q = I.instantiate(cls, [X], {}, None), I.instantiate(cls, [Y], {}, None)
        I.call(I.getattr(o, "add_neg_poly"), [P]); I.call(I.getattr(q, "add_pos_poly"), [P])
        return TupV([I.call(I.getattr(o, "get_sign"), [P]), I.call(I.getattr(q, "get_sign"), [P]), I.getattr(o, "point"), I.getattr(q, "point"), I.length(I.call(I.getattr(o, "get_all_polies"), []))])
    equiv(ctx, I, "descriptions of different roots do not share what is recorded", "vts/uni_vts.py DiscDerSigns", impl, lambda: TupV([-1, 1, X, Y, 1]), lambda r: {P: cpoly(r, 3, 2), X: r.randint(-3, 0), Y: r.randint(1, 4)}, forbid=FB, n=50)
