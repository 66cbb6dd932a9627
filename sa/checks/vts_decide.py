"""C06: the two univariate decision procedures."""
from ..registry import check
from ..check import *
from ..terms import *
from .. import symval
from ..symval import Eps, roots
from .vts_checker import lsym

def rat(x): return int(x) if isinstance(x, Fraction) and x.denominator == 1 else x

def ipoly(r, deg=3, pool=None):
    """integer coefficient list, non-zero leading entry, real roots all rational"""
    p = [r.choice([-2, -1, 1, 1, 1, 3])]
    for _ in range(r.randint(0, deg)):
        if r.random() < .15: f = [r.choice([1, 2]), 0, 1]
        else: f = r.choice([[-a, 1] for a in (pool or (-2, -1, 0, 1, 2, 3))] + [[1, 2]])
        q = [0] * (len(p) + len(f) - 1)
        for i, a in enumerate(p):
            for j, b in enumerate(f): q[i + j] += a * b
        p = q
    return p

def mkroots(M, a):
    rs = roots(a[0]) if isinstance(a[0], (list, tuple)) else None
    if rs is None: raise CantEval("roots")
    return [rat(x) for x in rs]
Z3 = {"ext:z3rcf.MkRoots": mkroots, "ext:z3rcf.MkInfinitesimal": lambda M, a: Eps({1: 1})}

def problems(A):
    def prod(r, rts):
        p = [r.choice([-1, 1])]
        for a in rts: p = [x + y for x, y in zip([0] + p, [-a * c for c in p] + [0])]
        return p
    def gen(r):
        if r.random() < .4:
            # few roots shared by many polynomials, or many roots
            rts = r.sample((-1, 0, 1, 2), 2)
            ps = [prod(r, [r.choice(rts)]) for _ in range(2)] + [prod(r, rts), prod(r, r.sample((-2, -1, 0, 1, 2, 3), r.choice([1, 1, 3, 4, 5, 6])))]
            return {s: [list(r.choice(ps)) for _ in range(k)] for s, k in zip(A, r.choice([(1, 1, 0, 1), (1, 1, 0, 1), (1, 1, 0, 2), (2, 1, 0, 1), (1, 2, 0, 1), (1, 0, 0, 1), (0, 1, 0, 1), (1, 1, 1, 1), (1, 1, 0, 0), (0, 1, 1, 0), (2, 0, 0, 1)]))}
        pool = r.choice([(-1, 0, 1), (0, 1), (-2, 3), None])
        ps = [ipoly(r, r.choice([1, 2, 3]), pool) for _ in range(4)]
        env = {}
        w = r.choice([(1, 1, 1, 1), (2, 1, 0, 0), (0, 2, 0, 1), (0, 1, 1, 1), (1, 0, 1, 0), (0, 0, 0, 2), (1, 0, 0, 0), (0, 1, 0, 0), (0, 0, 1, 0), (0, 0, 0, 1)])
        for s, k in zip(A, w): env[s] = [list(r.choice(ps)) for _ in range(r.randint(0, k) if k < 2 else k)]
        return env
    return gen

@check("C06")
def c06_ts(ctx):
    A = [lsym(n) for n in ("le", "lt", "eq", "ne")]
    I = ctx.interp(merge=True)
    f = I.func("uni_vts", "internal_ts"); s = I.func("spec_vts", "ts")
    if f is None: return ctx.missing("vts/uni_vts.py:internal_ts")
    equiv(ctx, I, "satisfiable exactly when some root of = / <=, point right of a root of < / !=, or minus infinity meets every constraint", floc(f),
          lambda: I.call(f, A), lambda: I.call(s, A), problems(A), interp=Z3, forbid=("mcall", "attr", "ext"), n=1500)

def pval(p, x): return sum(c * x ** i for i, c in enumerate(p))
def sgn(v): return (v > 0) - (v < 0)
def pder(p): return [i * c for i, c in enumerate(p)][1:]
def pkey(p): return tuple(str(c) for c in p)
ERR = ("no description",)
def described(d):
    """point of a root description whose origin is set and vanishes there"""
    o = getattr(d, "d", None)
    if not isinstance(o, dict) or not isinstance(o.get("origin"), list) or not isinstance(o.get("point"), (int, Fraction)): return None
    return o["point"] if pval(o["origin"], o["point"]) == 0 else None
def m_single(M, a):
    x = described(a[0])
    return ERR if x is None else sgn(pval(a[1], x))
def m_close(M, a):
    x = described(a[0]); p = a[1]
    if x is None: return ERR
    while p:
        s = sgn(pval(p, x))
        if s: return s
        p = pder(p)
    return 0
def m_table(M, a):
    d = {}
    for ps, allowed in zip(a, ({-1, 0}, {-1}, {0}, {-1, 1})):
        for p in ps: d[pkey(p)] = d.get(pkey(p), {-1, 0, 1}) & allowed
    return d
VTS_INTERP = dict(Z3, **{"call:uni_vts.evaluate_single_on_sign_assignment": m_single, "call:uni_vts.e_close_evaluate_single_on_sign_assignment": m_close, "call:uni_vts.sign_conditions_lookup": m_table})

def describe(I, f, args, kw, node):
    """assumed here, decided by C10: one description per root, each holding its root"""
    fr = I.freeze(args[0]); cls = I.module("uni_vts").f["DiscDerSigns"]
    bv = T("b", 1 + bdepth((fr, I.freeze(args[1]))))
    o = I.instantiate(cls, [at(fr, bv)], {}, node)
    return ListObj([Star(bv, 0, length(fr), [(True, (One(I.freeze(o)),))])])

@check("C06")
def c06_vts(ctx):
    A = [lsym(n) for n in ("le", "lt", "eq", "ne")]
    names = ["sign_conditions_lookup", "evaluate_single_on_sign_assignment", "e_close_evaluate_single_on_sign_assignment"]
    I = ctx.interp(deadline=120, merge=True, opaque=["uni_vts." + n for n in names], handlers={"fn:uni_vts.get_discri_der_signs": describe})
    f = I.func("uni_vts", "internal_vts"); s = I.func("spec_vts", "vts")
    need = [I.func("uni_vts", n) for n in [names[0], "get_discri_der_signs"] + names[1:]]
    if f is None or None in need or "DiscDerSigns" not in I.module("uni_vts").f: return ctx.missing("vts/uni_vts.py:internal_vts and the functions it rests on")
    equiv(ctx, I, "satisfiable exactly when the signs at some root of = / <=, right of some root of < / !=, or at minus infinity are all accepted", floc(f),
          lambda: I.call(f, A), lambda: I.call(s, A + need), problems(A), interp=VTS_INTERP, forbid=("mcall", "attr", "ext", "call"), n=1500)

@check("C06")
def c06_close(ctx):
    names = ["evaluate_single_on_sign_assignment", "derivative"]
    D, P = T("sym", "description"), lsym("poly")
    I = ctx.interp(opaque=["uni_vts." + n for n in names])
    f = I.func("uni_vts", "e_close_evaluate_single_on_sign_assignment"); s = I.func("spec_vts", "close_sign")
    if f is None or I.func("uni_vts", "derivative") is None: return ctx.missing("vts/uni_vts.py:e_close_evaluate_single_on_sign_assignment")
    # one unfolding; the recursive call is an opaque application of the same function
    def rec(I, g, args, kw, node):
        if I.S.get("close_depth", 0) == 0:
            I.w(I.S, "close_depth", 1)
            return NotImplemented
        return T("call", "uni_vts.e_close_evaluate_single_on_sign_assignment", *[I.freeze(a) for a in args])
    I.handlers["fn:uni_vts.e_close_evaluate_single_on_sign_assignment"] = rec
    def impl(): return I.call(f, [D, P])
    def spec():
        I.w(I.S, "close_depth", 1)
        try: return I.call(s, [D, P, I.func("uni_vts", names[0]), f, I.func("uni_vts", "derivative")])
        finally: I.w(I.S, "close_depth", 0)
    def gen(r):
        from ..model import Obj as MObj
        o = ipoly(r, 3); rs = roots(o)
        if not rs: return None
        q = o if r.random() < .4 else ipoly(r, 4)
        return {D: MObj("DiscDerSigns", origin=o, point=rat(r.choice(rs))), P: q if r.random() > .1 else []}
    equiv(ctx, I, "just right of a root a polynomial has the sign of its first derivative (itself included) that does not vanish there", floc(f), impl, spec, gen,
          interp=dict(VTS_INTERP, **{"call:uni_vts.derivative": lambda M, a: pder(a[0])}), forbid=("mcall", "attr", "ext", "call"))

# ------------------------------------------------------------------ small problems of every shape, all combinations of signs
SHAPES = [  # polynomials by kind (numbers name polynomials), number of roots of each
    ("0", "", "", "", (1,)), ("", "0", "", "", (1,)), ("", "", "0", "", (2,)), ("", "", "", "0", (1,)), ("", "", "", "", ()),
    ("0", "", "", "", (0,)), ("", "0", "", "", (0,)), ("", "", "0", "", (0,)), ("", "", "", "0", (0,)),
    ("", "0", "", "", (5,)), ("0", "", "", "", (5,)), ("", "", "", "01", (4, 0)), ("0", "1", "", "", (4, 0)), ("", "", "01", "", (0, 4)), ("0", "", "", "1", (1, 1)), ("", "0", "", "1", (1, 1)), ("0", "", "1", "", (1, 1)),
    ("", "0", "1", "", (1, 1)), ("01", "", "", "", (1, 1)), ("", "01", "", "", (1, 1)), ("", "", "01", "", (1, 1)), ("", "", "", "01", (1, 1)), ("0", "0", "", "", (2,)), ("0", "", "", "0", (2,)), ("", "0", "", "0", (2,)), ("", "", "0", "0", (2,)),
    ("0", "", "0", "", (2,)), ("0", "1", "", "0", (1, 0)), ("0", "1", "", "0", (1, 1)), ("0", "1", "2", "3", (0, 0, 0, 1)), ("0", "1", "2", "3", (1, 0, 0, 0)), ("0", "1", "2", "3", (0, 1, 0, 0)), ("0", "1", "2", "3", (0, 0, 1, 0)), ("0", "1", "2", "3", (0, 0, 0, 0)),
    ("00", "1", "", "", (1, 1)), ("", "00", "", "11", (1, 1)), ("012", "", "", "", (0, 0, 1)), ("", "012", "", "", (0, 0, 1)), ("", "", "", "012", (0, 1, 0)),
]
LEADS = [[1, 1], [2, 0, -1], [3], [-5, 1, 0, 2], [7, 1, 1, 1, -3], [1, 0, 0, 0, 0, 1], [-4], [9, -1], [1, 2, 3, 4, 5, 6, -7], [8, 0, 0, -8], [6, 1, 0, 0, 6], [2, 0, 0, 0, 1, -2]]
ALLOWED = ((-1, 0), (-1,), (0,), (-1, 1))

def small(ctx, fn, rule, wire):
    from .grf import run
    from ..interp import DictObj, TupV
    for k, sh in enumerate(SHAPES):
        for first in range(0, len(LEADS), 12 if fn == "internal_ts" else 4):
            I = ctx.interp(); I.unroll = I.deep = 8
            f = I.func("uni_vts", fn)
            if f is None: return
            names = sorted(set("".join(sh[:4])))
            P = {}
            for j, n in enumerate(names):
                pool = [l for l in LEADS[(first + k) % len(LEADS):] + LEADS[:(first + k) % len(LEADS)] if len(l) > sh[4][j] and l not in P.values()]
                P[n] = pool[0]
            none = any(set.intersection(*[set(ok) for l, ok in zip(sh[:4], ALLOWED) if n in l]) == set() for n in names)
            num = {tuple(P[n]): n for n in names}
            def name(v):
                from .qe_common import plain
                l = plain(I, v)
                n = num.get(tuple(l)) if isinstance(l, (list, tuple)) and all(isinstance(c, int) for c in l) else None
                if n is None: raise Und("polynomial %r" % (l,))
                return n
            def mk(l): return I.thaw(T("list", tuple(("one", e) for e in l)))
            point = {T("sym", "root %d of p%s" % (j + 1, n)): (n, j) for n, c in zip(names, sh[4]) for j in range(c)}
            eps = T("sym", "infinitesimal")
            def rts(I_, a, kw, nd):
                n = name(a[0]); return mk([t for t, (m, j) in sorted(point.items(), key=lambda z: z[1]) if m == n])
            for q in ("MkRoots", "z3rcf.MkRoots", "*.MkRoots"): I.handlers[q] = rts
            for q in ("MkInfinitesimal", "z3rcf.MkInfinitesimal", "*.MkInfinitesimal"): I.handlers[q] = lambda I_, a, kw, nd: eps
            def cell(n, where):
                if len(P[n]) == 1: return 1 if P[n][0] > 0 else -1
                own = where.endswith(" of p" + n)
                if own and where.startswith("at"): return 0
                s = T("sym", "sign of p%s %s" % (n, where), "int"); I.few[s] = (-1, 1) if own else (-1, 0, 1)
                return I.narrow(s)
            wire(I, name, cell, point, eps)
            def go(): return I.call(f, [mk([mk(P[n]) for n in l]) for l in sh[:4]])
            pts = ["at root %d of p%s" % (j + 1, n) for l in (sh[0], sh[2]) for n in sorted(set(l)) for j in range(sh[4][names.index(n)])] + \
                  ["just right of root %d of p%s" % (j + 1, n) for l in (sh[1], sh[3]) for n in sorted(set(l)) for j in range(sh[4][names.index(n)])]
            def judge(v):
                if not isinstance(v, bool): return "? %r" % (v,)
                seen = {s.args[0]: x for s, x in I.S.get("fewv", {}).items()}
                def meets(w):
                    """do all constraints hold there, as far as signs were looked at"""
                    unknown = False
                    if none: return False
                    for l, ok in zip(sh[:4], ALLOWED):
                        for n in l:
                            x = (1 if P[n][-1] > 0 else -1) * (-1) ** (len(P[n]) - 1) if w == "at minus infinity" else (1 if P[n][0] > 0 else -1) if len(P[n]) == 1 else 0 if w.startswith("at") and w.endswith(" of p" + n) else seen.get("sign of p%s %s" % (n, w))
                            if x is None: unknown = True
                            elif x not in ok: return False
                    return None if unknown else True
                if fn == "internal_ts" and "sign of p%s at minus infinity" % (names or "0")[0] in seen: return "? minus infinity"
                all_ = [(w, meets(w)) for w in pts + ["at minus infinity"]]
                if v and not any(m for w, m in all_):
                    if any(m is None for w, m in all_ if w in pts): return "'satisfiable' is answered although no candidate point was shown to meet every constraint" 
                    return "'satisfiable' is answered although no candidate point meets every constraint"
                if not v and any(m is not False for w, m in all_): return "'unsatisfiable' is answered although the constraints %s %s" % ("hold" if [m for w, m in all_ if m] else "were not refuted", [w for w, m in all_ if m is not False][0])
            show = "; ".join("p%s = %s, %d roots" % (n, P[n], c) for n, c in zip(names, sh[4])) + "; " + ", ".join("p%s %s 0" % (n, k) for l, k in zip(sh[:4], ("<=", "<", "=", "!=")) for n in l)
            run(ctx, I, "%s [%s]" % (rule, show), floc(f), go, judge)

@check("C06")
def c06_small(ctx):
    from ..interp import TupV
    def vts(I, name, cell, point, eps):
        D = I.module("uni_vts").f.get("DiscDerSigns")
        def desc(I_, f, a, kw, nd):
            from .grf_select import items, lst
            return lst(*[I_.instantiate(D, [t], {}, nd) for t in items(I_, a[0])])
        def at_(d, I_):
            t = I_.getattr(d, "point"); o = name(I_.getattr(d, "origin"))
            if t not in point: raise Und("point")
            n, j = point[t]
            if o != n: return "root of p%s taken for a root of p%s" % (n, o)
            return "root %d of p%s" % (j + 1, n)
        I.handlers["fn:uni_vts.get_discri_der_signs"] = desc
        I.handlers["fn:uni_vts.evaluate_single_on_sign_assignment"] = lambda I_, f, a, kw, nd: cell(name(a[1]), "at " + at_(a[0], I_))
        I.handlers["fn:uni_vts.e_close_evaluate_single_on_sign_assignment"] = lambda I_, f, a, kw, nd: cell(name(a[1]), "just right of " + at_(a[0], I_))
    small(ctx, "internal_vts", "satisfiable exactly when one candidate point meets every constraint", vts)
    def ts(I, name, cell, point, eps):
        def ev(I_, f, a, kw, nd):
            n = name(a[0]); t = a[1]
            if t in point: w = "at root %d of p%s" % (point[t][1] + 1, point[t][0])
            else:
                w = None
                for s, (m, j) in point.items():
                    if t == padd(s, eps): w = "just right of root %d of p%s" % (j + 1, m)
                if w is None and isinstance(t, Term) and syms(t) == {eps}:
                    l = LEADS[[i for i, q in enumerate(LEADS) if name_of(q, name) == n][0]]
                    return (1 if l[-1] > 0 else -1) * (-1) ** (len(l) - 1)
                if w is None: raise Und("point %s" % (render(t) if isinstance(t, Term) else t))
            return cell(n, w)
        I.handlers["fn:uni_vts.evaluate_poly"] = ev
    small(ctx, "internal_ts", "satisfiable exactly when one candidate point meets every constraint (term substitution)", ts)

def name_of(q, name):
    try: return name(q)
    except Und: return None
