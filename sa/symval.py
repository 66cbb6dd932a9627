"""Meaning of the computer-algebra operations that appear in summaries: exact multivariate polynomials over the rationals."""
from fractions import Fraction
from math import gcd
from .model import CantEval, RelV, hk

class MP(object):
    """polynomial: {monomial (sorted tuple of (name, exp)): coefficient}"""
    __slots__ = ("d",)
    def __init__(self, d): self.d = {m: Fraction(c) for m, c in d.items() if c != 0}
    @staticmethod
    def var(n): return MP({((n, 1),): 1})
    @staticmethod
    def const(c): return MP({(): c})
    def key(self): return tuple(sorted(self.d.items(), key=lambda x: (str(x[0]), x[1])))
    def __hash__(self):
        if self.isconst(): return hash(self.cval())
        return hash(self.key())
    def isconst(self): return all(m == () for m in self.d)
    def cval(self): return self.d.get((), Fraction(0))
    def __eq__(self, o):
        if isinstance(o, (int, Fraction)) and not isinstance(o, bool): return self.isconst() and self.cval() == o
        return isinstance(o, MP) and self.d == o.d
    def __ne__(self, o): return not self == o
    def __repr__(self):
        if not self.d: return "0"
        return " + ".join("%s%s" % (c, "".join("*%s^%d" % v if v[1] != 1 else "*%s" % v[0] for v in m)) for m, c in sorted(self.d.items(), key=lambda x: (-sum(e for _, e in x[0]), str(x[0]))))
    def __add__(self, o):
        o = mp(o); d = dict(self.d)
        for m, c in o.d.items(): d[m] = d.get(m, 0) + c
        return MP(d)
    __radd__ = __add__
    def __neg__(self): return MP({m: -c for m, c in self.d.items()})
    def __sub__(self, o): return self + (-mp(o))
    def __rsub__(self, o): return mp(o) - self
    def __mul__(self, o):
        o = mp(o); d = {}
        for m, c in self.d.items():
            for n, k in o.d.items():
                mm = dict(m)
                for v, e in n: mm[v] = mm.get(v, 0) + e
                t = tuple(sorted((v, e) for v, e in mm.items() if e))
                d[t] = d.get(t, 0) + c * k
        return MP(d)
    __rmul__ = __mul__
    def __truediv__(self, o):
        o = mp(o)
        if o.isconst() and o.cval() != 0: return MP({m: c / o.cval() for m, c in self.d.items()})
        raise CantEval("division by a polynomial")
    def __rtruediv__(self, o): return mp(o) / self
    def __pow__(self, e):
        e = int(e)
        if e < 0:
            if self.isconst(): return MP.const(self.cval() ** e)
            raise CantEval("negative power")
        r = MP.const(1)
        for _ in range(e): r = r * self
        return r
    def syms(self): return sorted({v for m in self.d for v, e in m})
    def degree(self, v): return max([dict(m).get(v, 0) for m in self.d] or [0])
    def coeff(self, v, k):
        d = {}
        for m, c in self.d.items():
            mm = dict(m)
            if mm.get(v, 0) == k:
                mm.pop(v, None); d[tuple(sorted(mm.items()))] = c
        return MP(d)
    def terms(self):
        return [MP({m: c}) for m, c in sorted(self.d.items(), key=lambda x: (-sum(e for _, e in x[0]), str(x[0])))]
    def diff(self, v):
        r = MP({})
        for k in range(1, self.degree(v) + 1): r = r + self.coeff(v, k) * k * MP.var(v) ** (k - 1)
        return r
    def subs(self, mapping):
        """sequential or simultaneous: refused when it makes a difference"""
        r = MP({})
        for m, c in self.d.items():
            t = MP.const(c)
            for v, e in m: t = t * (mp(mapping[v]) if v in mapping else MP.var(v)) ** e
            r = r + t
        return r

def mp(v):
    if isinstance(v, MP): return v
    if isinstance(v, bool): raise CantEval("boolean as polynomial")
    if isinstance(v, (int, Fraction)): return MP.const(v)
    raise CantEval("polynomial %r" % (v,))
def simp(v):
    """constants back to numbers (sympy numbers are Fractions)"""
    if isinstance(v, MP) and v.isconst(): return v.cval()
    return v
def name(v):
    if isinstance(v, MP) and len(v.d) == 1:
        (m, c), = v.d.items()
        if c == 1 and len(m) == 1 and m[0][1] == 1: return m[0][0]
    if isinstance(v, str): return v
    raise CantEval("symbol %r" % (v,))
def only(p):
    s = p.syms()
    if len(s) > 1: raise CantEval("several symbols")
    return s[0] if s else "x"

class PolyV(object):
    """sympy.Poly object"""
    def __init__(self, p, v): self.p = p; self.v = v
    def __eq__(self, o): return isinstance(o, PolyV) and (o.p, o.v) == (self.p, self.v)
    def __hash__(self): return hash((self.p, self.v))

def m_subs(M, a):
    p = mp(a[0]); d = {}
    if len(a) == 3: pairs = [(a[1], a[2])]
    elif isinstance(a[1], dict): pairs = list(a[1].items())
    elif isinstance(a[1], (list, tuple, set, frozenset)): pairs = list(a[1])
    else: raise CantEval("subs")
    for k, v in pairs:
        if not (isinstance(k, MP)): raise CantEval("subs key")
        if name(k) not in d: d[name(k)] = simp(v) if isinstance(v, MP) else v
    # replacement of x by x is harmless; anything chained is refused
    for k, v in d.items():
        if isinstance(v, MP):
            for s in v.syms():
                if s in d and not (d[s] == MP.var(s)) : raise CantEval("chained substitution")
    return simp_poly(p.subs(d))
def simp_poly(p): return Fraction(p.cval()) if p.isconst() else p
def m_ident(M, a): return simp_poly(mp(a[0]))
def m_leadterm(M, a):
    p = mp(a[0]); v = name(a[1])
    ks = [dict(m).get(v, 0) for m in p.d]
    if not ks: raise CantEval("leadterm of 0")
    k = min(ks)
    return (simp_poly(p.coeff(v, k)), Fraction(k))
def m_terms(M, a): return [simp_poly(t) for t in mp(a[0]).terms()] or [Fraction(0)]
def m_coeff(M, a):
    p = mp(a[0])
    if len(a) == 3: return simp_poly(p.coeff(name(a[1]), int(a[2])))
    if isinstance(a[1], MP): return simp_poly(p.coeff(name(a[1]), 1))
    raise CantEval("coeff")
def gens(a, p):
    return name(a) if a is not None else only(p)
def x_degree(M, a):
    if isinstance(a[0], PolyV): return a[0].p.degree(a[0].v)
    p = mp(a[0]); return p.degree(gens(a[1] if len(a) > 1 else None, p))
def x_poly(M, a):
    if isinstance(a[0], list):
        v = name(a[1]); cs = a[0]; p = MP({})
        for i, c in enumerate(reversed(cs)): p = p + mp(c) * MP.var(v) ** i
        return PolyV(p, v)
    p = mp(a[0]); return PolyV(p, gens(a[1] if len(a) > 1 else None, p))
def coeffs(P): return [simp_poly(P.p.coeff(P.v, k)) for k in range(P.p.degree(P.v), -1, -1)]
def m_all_coeffs(M, a): return coeffs(a[0]) if isinstance(a[0], PolyV) else None
def m_as_expr(M, a): return simp_poly(a[0].p) if isinstance(a[0], PolyV) else m_ident(M, a)
def m_nth(M, a): return simp_poly(a[0].p.coeff(a[0].v, int(a[1])))
def m_degree(M, a):
    if isinstance(a[0], PolyV): return a[0].p.degree(a[0].v)
    raise CantEval("degree")
def x_LC(M, a):
    P = a[0] if isinstance(a[0], PolyV) else PolyV(mp(a[0]), gens(a[1] if len(a) > 1 else None, mp(a[0])))
    return simp_poly(P.p.coeff(P.v, P.p.degree(P.v)))
def x_LT(M, a):
    P = a[0] if isinstance(a[0], PolyV) else PolyV(mp(a[0]), gens(a[1] if len(a) > 1 else None, mp(a[0])))
    k = P.p.degree(P.v); return simp_poly(P.p.coeff(P.v, k) * MP.var(P.v) ** k)
def x_diff(M, a): return simp_poly(mp(a[0]).diff(gens(a[1] if len(a) > 1 else None, mp(a[0]))))
def m_dict(M, a):
    p = mp(a[0]); return {simp_poly(MP({m: 1})): Fraction(c) for m, c in p.d.items()}
def num1(v):
    v = simp(v)
    if isinstance(v, bool) or not isinstance(v, (int, Fraction)): raise CantEval("number %r" % (v,))
    return Fraction(v)
def x_lcm(M, a):
    if len(a) == 1: 
        r = Fraction(1)
        for x in a[0]: r = x_lcm(M, [r, x])
        return r
    x, y = num1(a[0]), num1(a[1])
    if x.denominator != 1 or y.denominator != 1: raise CantEval("lcm of fractions")
    x, y = int(x), int(y)
    return Fraction(0) if x == 0 or y == 0 else Fraction(abs(x * y) // gcd(x, y))
def x_gcd(M, a):
    x, y = num1(a[0]), num1(a[1])
    if x.denominator != 1 or y.denominator != 1: raise CantEval("gcd of fractions")
    return Fraction(gcd(int(x), int(y)))
def x_symbol(M, a):
    if isinstance(a[0], str) and a[0].isidentifier(): return MP.var(a[0])
    raise CantEval("symbol")
def x_num(M, a):
    v = a[0]
    if isinstance(v, str):
        try: return Fraction(v)
        except ValueError: raise CantEval("numeral")
    return simp_poly(mp(v))
def x_rat(M, a): return num1(a[0]) / num1(a[1]) if len(a) == 2 else x_num(M, a)
def a_free(M, v): return frozenset(MP.var(s) for s in mp(v).syms())
def a_q(M, v): return num1(v).denominator
def a_p(M, v): return num1(v).numerator
def x_numer(M, a): return Fraction(num1(a[0]).numerator)
def x_denom(M, a): return Fraction(num1(a[0]).denominator)
def x_sign(M, a): v = num1(a[0]); return Fraction((v > 0) - (v < 0))

INTERP = {"mcall:subs": m_subs, "mcall:expand": m_ident, "mcall:simplify": m_ident, "mcall:leadterm": m_leadterm, "mcall:as_ordered_terms": m_terms, "mcall:coeff": m_coeff,
          "mcall:xreplace": m_subs, "mcall:all_coeffs": m_all_coeffs, "mcall:as_expr": m_as_expr, "mcall:nth": m_nth, "mcall:degree": m_degree, "mcall:as_poly": x_poly, "mcall:LC": x_LC,
          "mcall:as_coefficients_dict": m_dict, "mcall:diff": x_diff,
          "ext:sympy.expand": m_ident, "ext:sympy.simplify": m_ident, "ext:sympy.factor": m_ident, "ext:sympy.degree": x_degree, "ext:sympy.Poly": x_poly, "ext:sympy.poly": x_poly, "ext:sympy.LC": x_LC, "ext:sympy.LT": x_LT, "ext:sympy.LM": None,
          "ext:sympy.diff": x_diff, "ext:sympy.lcm": x_lcm, "ext:sympy.ilcm": x_lcm, "ext:sympy.gcd": x_gcd, "ext:sympy.Symbol": x_symbol, "ext:sympy.symbols": x_symbol, "ext:sympy.Integer": x_num, "ext:sympy.Rational": x_rat, "ext:fractions.gcd": x_gcd, "ext:sympy.igcd": x_gcd,
          "ext:sympy.S": x_num, "ext:sympy.sympify": x_num, "ext:sympy.numer": x_numer, "ext:sympy.denom": x_denom, "ext:sympy.sign": x_sign, "attr:free_symbols": a_free, "attr:q": a_q, "attr:p": a_p}
INTERP = {k: v for k, v in INTERP.items() if v}
SYMOPS = ("mcall", "ext", "attr", "at", "toint", "str", "call")   # refused when they have no meaning above

class Eps(object):
    """finite Laurent polynomial in one positive infinitesimal"""
    def __init__(self, d): self.d = {k: Fraction(v) for k, v in d.items() if v}
    def isconst(self): return all(k == 0 for k in self.d)
    def cval(self):
        v = self.d.get(0, Fraction(0)); return int(v) if v.denominator == 1 else v
    def sgn(self):
        if not self.d: return 0
        v = self.d[min(self.d)]; return (v > 0) - (v < 0)
    @staticmethod
    def of(x): return x if isinstance(x, Eps) else Eps({0: x})
    def __add__(self, o):
        o = Eps.of(o); d = dict(self.d)
        for k, v in o.d.items(): d[k] = d.get(k, 0) + v
        return Eps(d)
    __radd__ = __add__
    def __mul__(self, o):
        o = Eps.of(o); d = {}
        for k, v in self.d.items():
            for l, w in o.d.items(): d[k + l] = d.get(k + l, 0) + v * w
        return Eps(d)
    __rmul__ = __mul__
    def __pow__(self, n):
        if n < 0:
            if len(self.d) != 1: raise ValueError("inverse of a sum")
            (k, v), = self.d.items(); return Eps({-k: 1 / v}) ** (-n)
        r = Eps({0: 1})
        for _ in range(n): r = r * self
        return r
    def __neg__(self): return self * -1
    def __sub__(self, o): return self + (-Eps.of(o))
    def __rsub__(self, o): return Eps.of(o) - self
    def __truediv__(self, o): return self * Eps.of(o) ** -1
    def __rtruediv__(self, o): return Eps.of(o) * self ** -1
    def __eq__(self, o):
        return isinstance(o, (Eps, int, Fraction)) and Eps.of(o).d == self.d
    def __hash__(self): return hash(frozenset(self.d.items()))
    def __repr__(self): return " + ".join("%s*eps^%d" % (v, k) for k, v in sorted(self.d.items())) or "0"

def roots(poly):
    """distinct real roots of an integer polynomial given as coefficient list; None unless all of them are rational"""
    p = [Fraction(c) for c in poly]
    while p and p[-1] == 0: p.pop()
    if not p: return None
    out = set()
    den = 1
    for c in p: den = den * c.denominator
    p = [int(c * den) for c in p]
    if p[0] == 0:
        out.add(Fraction(0))
        while p[0] == 0: p = p[1:]
    if len(p) == 1: return sorted(out)
    def divs(n): return [d for d in range(1, abs(n) + 1) if n % d == 0]
    q = p; found = True
    while found and len(q) > 1:
        found = False
        for a in divs(q[0]):
            for b in divs(q[-1]):
                for r in (Fraction(a, b), Fraction(-a, b)):
                    if sum(c * r ** i for i, c in enumerate(q)) == 0:
                        out.add(r); found = True
                        # synthetic division by (b x - a)
                        n = len(q) - 1; res = [Fraction(0)] * n; rem = Fraction(q[n])
                        for i in range(n - 1, -1, -1):
                            res[i] = rem; rem = q[i] + rem * r
                        l = 1
                        for c in res: l = l * c.denominator // __import__("math").gcd(l, c.denominator)
                        q = [int(c * l) for c in res]
                        break
                if found: break
            if found: break
    if len(q) == 1: return sorted(out)
    if len(q) == 3 and q[1] * q[1] - 4 * q[0] * q[2] < 0: return sorted(out)
    return None
