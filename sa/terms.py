"""Abstract values: interned terms, polynomials over terms, sign / kind / finite-domain predicates.

Everything the analysis knows about a value is one of
  * a Python constant (number, string, bool, None),
  * a Term (interned, comparable by identity).
Numeric terms are kept in polynomial normal form, comparisons in sign normal form.
"""
from fractions import Fraction
import time

class Und(Exception):
    """the analysis cannot decide this construct"""
    def __init__(self, why, node=None):
        Exception.__init__(self, "%s%s" % (why, " at %s:%s" % (node.file, node.lineno) if node is not None else ""))
class Clock:
    calls = 0; deadline = None
    @staticmethod
    def check():
        if Clock.deadline is not None and time.time() > Clock.deadline: raise Und("analysis budget exceeded")
def set_deadline(seconds): Clock.deadline = time.time() + seconds if seconds else None

class Term(object):
    __slots__ = ("op", "args", "uid", "_sy", "_re")
    def __init__(self, op, args, uid):
        self.op = op; self.args = args; self.uid = uid; self._sy = None; self._re = None
    def __repr__(self):
        if self._re is None:
            self._re = render(self)
        return self._re
    def __reduce__(self):
        raise TypeError
    def __copy__(self): return self
    def __deepcopy__(self, m): return self

_intern = {}

def _key(a):
    # distinguish 1 / True / 1.0
    if isinstance(a, tuple):
        return tuple(_key(x) for x in a)
    if isinstance(a, bool) or isinstance(a, float):
        return (type(a).__name__, a)
    return a

def T(op, *args):
    Clock.calls += 1
    if not Clock.calls & 4095 and Clock.deadline is not None and time.time() > Clock.deadline: raise Und("analysis budget exceeded")
    k = (op, _key(args))
    t = _intern.get(k)
    if t is None:
        t = Term(op, args, len(_intern) + 1)
        _intern[k] = t
    return t

def is_num(v):
    return isinstance(v, (int, Fraction, float)) and not isinstance(v, bool)

def is_const(v):
    return v is None or isinstance(v, (int, float, Fraction, str, bool))

# ---------------------------------------------------------------- symbols
def syms(t):
    """set of leaf symbols ('sym','bv' terms) a value depends on"""
    if isinstance(t, Term):
        if t._sy is None:
            if t.op in ("sym", "b"):
                t._sy = frozenset((t,))
            else:
                s = set()
                for a in t.args:
                    s |= syms(a)
                t._sy = frozenset(s)
        return t._sy
    if isinstance(t, tuple) or isinstance(t, frozenset):
        s = set()
        for a in t:
            s |= syms(a)
        return s
    return frozenset()

def subterms(t, acc=None):
    if acc is None:
        acc = set()
    if isinstance(t, Term):
        if t in acc:
            return acc
        acc.add(t)
        for a in t.args:
            subterms(a, acc)
    elif isinstance(t, (tuple, frozenset)):
        for a in t:
            subterms(a, acc)
    return acc

def ops(t):
    return {x.op for x in subterms(t)}

# ---------------------------------------------------------------- sorts / domains
INT_OPS = {"first", "len", "count", "b", "par", "maxz", "fdiv", "mod", "deg", "index", "intv", "lxi", "lxn", "acci"}
def is_int(v):
    if isinstance(v, bool):
        return False
    if isinstance(v, int):
        return True
    if isinstance(v, Term):
        if v.op in INT_OPS:
            return True
        if v.op == "sym" and len(v.args) > 1 and v.args[1] == "int":
            return True
        if v.op == "sign":
            return True
        if v.op == "pow":
            return is_int(v.args[0]) and is_int(v.args[1])
        if v.op == "ite":
            return is_int(v.args[1]) and is_int(v.args[2])
        if v.op == "sum":
            return all(is_int(x) for g, x in v.args[3])
        if v.op == "poly":
            for m, c in v.args[0]:
                if not isinstance(c, int) and not (len(m) == 1 and m[0][0].op == "pow"):
                    return False
                for a, e in m:
                    if e < 0 or not is_int(a):
                        return False
            return True
    return False

def nonneg_atom(t):
    return isinstance(t, Term) and (t.op in ("len", "count", "par", "maxz", "absv") or
                                    (t.op == "pow" and is_num(t.args[0]) and t.args[0] > 0) or
                                    (t.op == "sym" and len(t.args) > 2 and t.args[2] == "nonneg"))

def domain(t):
    if isinstance(t, Term):
        if t.op == "par":
            return (0, 1)
        if t.op == "sign":
            return (-1, 0, 1)
        if t.op == "sym" and len(t.args) > 1 and isinstance(t.args[1], tuple) and t.args[1][0] == "dom":
            return t.args[1][1:]
        if t.op == "fd":          # fd(name-term, v1, v2, ...): opaque finite-domain value
            return t.args[1:]
    return None

# ---------------------------------------------------------------- polynomials
def to_poly(v):
    if is_num(v):
        if isinstance(v, float):
            v = Fraction(v)
        if isinstance(v, Fraction) and v.denominator == 1:
            v = int(v)
        return {(): v} if v != 0 else {}
    if isinstance(v, bool):
        return {(): int(v)} if v else {}
    if isinstance(v, Term):
        if v.op == "poly":
            return dict(v.args[0])
        return {((v, 1),): 1}
    raise ValueError(v)

def from_poly(d):
    d = {m: c for m, c in d.items() if c != 0}
    if not d:
        return 0
    if len(d) == 1:
        (m, c), = d.items()
        if m == ():
            return int(c) if isinstance(c, Fraction) and c.denominator == 1 else c
        if c == 1 and len(m) == 1 and m[0][1] == 1:
            return m[0][0]
    items = []
    for m, c in d.items():
        if isinstance(c, Fraction) and c.denominator == 1:
            c = int(c)
        items.append((m, c))
    items.sort(key=lambda mc: mkey(mc[0]))
    return T("poly", tuple(items))

def mkey(m):
    return (-sum(abs(e) for a, e in m), tuple((a.uid, e) for a, e in m))

def mono_mul(m1, m2):
    d = {}
    for a, e in m1 + m2:
        d[a] = d.get(a, 0) + e
    out = []
    for a, e in d.items():
        if e == 0:
            continue
        if a.op == "par" and e > 1:
            e = 1
        if a.op == "sign" and e > 2:
            e = 2 if e % 2 == 0 else 1
        out.append((a, e))
    # merge powers of one base:  base**e1 * base**e2, base**e1 * base
    out.sort(key=lambda ae: ae[0].uid)
    return tuple(out)

def padd(a, b):
    p = to_poly(a)
    for m, c in to_poly(b).items():
        p[m] = p.get(m, 0) + c
    return from_poly(p)

def pmul(a, b):
    r = {}
    pb = to_poly(b)
    for m1, c1 in to_poly(a).items():
        for m2, c2 in pb.items():
            m = mono_mul(m1, m2)
            r[m] = r.get(m, 0) + c1 * c2
    v = from_poly(r)
    return _merge_pows(v)

def _merge_pows(v):
    if not isinstance(v, Term) or v.op != "poly":
        return v
    changed = False; r = {}
    for m, c in v.args[0]:
        bases = {}
        plain = []
        for a, e in m:
            if a.op == "pow":
                bases.setdefault(a.args[0], []).append((a.args[1], e))
            else:
                plain.append((a, e))
        need = any(len(x) > 1 or x[0][1] != 1 for x in bases.values()) or any(a in bases for a, e in plain)
        if not need:
            r[m] = r.get(m, 0) + c; continue
        changed = True
        rest = 1
        acc = {}
        for a, e in plain:
            if a in bases:
                acc[a] = padd(acc.get(a, 0), e)
            else:
                rest = _pm_raw(rest, from_poly({((a, e),): 1}))
        for b, lst in bases.items():
            for ex, e in lst:
                acc[b] = padd(acc.get(b, 0), pmul(ex, e))
        for b, ex in acc.items():
            rest = _pm_raw(rest, ppow(b, ex))
        for m2, c2 in to_poly(rest).items():
            r[m2] = r.get(m2, 0) + c * c2
    return from_poly(r) if changed else v

def _pm_raw(a, b):
    r = {}
    pb = to_poly(b)
    for m1, c1 in to_poly(a).items():
        for m2, c2 in pb.items():
            m = mono_mul(m1, m2)
            r[m] = r.get(m, 0) + c1 * c2
    return from_poly(r)

def pneg(a):
    return pmul(-1, a) if not is_num(a) else -a

def psub(a, b):
    return padd(a, pneg(b))

def ppow(a, n):
    if is_num(a) and is_num(n):
        if isinstance(n, int):
            if isinstance(a, int) and n < 0:
                return Fraction(1) / (Fraction(a) ** -n) if a != 0 else T("pow", a, n)
            return a ** n
        return T("pow", a, n)
    if isinstance(n, int) and not isinstance(n, bool):
        if n == 0:
            return 1
        if n > 0 and n <= 12:
            r = 1
            for _ in range(n):
                r = pmul(r, a)
            return r
        if n < 0 and n >= -12:
            return pdiv(1, ppow(a, -n))
        return T("pow", a, n)
    if a == 1 and is_num(a):
        return 1
    if a == -1 and is_num(a) and is_int(n):
        return psub(1, pmul(2, parity(n)))
    if isinstance(a, Term) and a.op == "pow":
        return ppow(a.args[0], pmul(a.args[1], n))
    if isinstance(a, int) and a > 1 and isinstance(n, Term) and n.op == "poly":
        d = dict(n.args[0]); k = d.pop((), 0)
        if isinstance(k, int) and k != 0 and abs(k) < 30:
            return pmul(Fraction(a) ** k, T("pow", a, from_poly(d)))
    return T("pow", a, n)

def content(p):
    """positive rational content"""
    from math import gcd
    num, den = 0, 1
    for c in p.values():
        f = Fraction(c)
        num = gcd(num, abs(f.numerator))
        den = den * f.denominator // gcd(den, f.denominator)
    return Fraction(num, den) if num else Fraction(1)

def pdiv(a, b):
    """exact quotient (numbers, field elements)"""
    if is_num(b):
        if b == 0:
            return T("div0", a)
        if is_num(a):
            r = Fraction(a) / Fraction(b)
            return int(r) if r.denominator == 1 else r
        return pmul(Fraction(1) / Fraction(b), a)
    pb = to_poly(b)
    if len(pb) == 1:
        (m, c), = pb.items()
        inv = {tuple((x, -e) for x, e in m): Fraction(1) / Fraction(c)}
        return pmul(a, from_poly(inv)) if not (is_num(a) and a == 0) else 0
    k = content(pb)
    bb = from_poly({m: c / k for m, c in pb.items()})
    if a is bb:
        return int(1 / k) if (1 / k).denominator == 1 else 1 / k
    return pmul(pmul(Fraction(1) / k, a), from_poly({((bb, -1),): 1}))

def floordiv(a, b):
    if is_num(a) and is_num(b):
        if b == 0:
            return T("div0", a)
        return a // b
    if is_num(b) and b == 1:
        return a
    # c**e1 / c**e2
    ba, ea = _as_pow(a); bb, eb = _as_pow(b)
    if ba is not None and ba == bb:
        return ppow(ba, psub(ea, eb))
    if is_num(b) and is_num(a) is False:
        p = to_poly(a)
        if all(isinstance(c, int) and c % b == 0 for c in p.values()):
            return from_poly({m: c // b for m, c in p.items()})
    return T("fdiv", a, b)

def _as_pow(v):
    if isinstance(v, Term) and v.op == "pow":
        return v.args
    if isinstance(v, int) and v > 1:
        return v, 1
    if isinstance(v, Term) and v.op == "poly" and len(v.args[0]) == 1:
        m, c = v.args[0][0]
        if len(m) == 1 and m[0][0].op == "pow" and m[0][1] == 1:
            base, e = m[0][0].args
            k = 0
            c = Fraction(c)
            if isinstance(base, int) and base > 1 and c > 0:
                while c.denominator == 1 and c.numerator % base == 0:
                    c /= base; k += 1
                while c.denominator % base == 0:
                    c *= base; k -= 1
                if c == 1:
                    return base, padd(e, k)
    return None, None

def pmod(a, b):
    if is_num(a) and is_num(b):
        return a % b if b != 0 else T("div0", a)
    if b == 2 and is_int(a):
        return parity(a)
    return T("mod", a, b)

# parity as polynomial over GF(2)
def _gf2(v):
    """set of square-free monomials (frozensets of atoms)"""
    out = set()
    for m, c in to_poly(v).items():
        if not isinstance(c, int):
            return None
        if c % 2 == 0:
            continue
        prod = {frozenset()}
        for a, e in m:
            if e < 0:
                return None
            if a.op == "par":
                f = set(a.args[0])
            elif a.op == "pow" and isinstance(a.args[0], int) and a.args[0] % 2 == 1:
                f = {frozenset()}
            else:
                f = {frozenset((a,))}
            nxt = set()
            for x in prod:
                for y in f:
                    nxt ^= {x | y}
            prod = nxt
        out ^= prod
    return out

def parity(v):
    if is_num(v):
        return v % 2
    s = _gf2(v)
    if s is None:
        return T("mod", v, 2)
    neg = frozenset() in s
    s = s - {frozenset()}
    if not s:
        return 1 if neg else 0
    p = T("par", frozenset(s))
    return psub(1, p) if neg else p

# ---------------------------------------------------------------- predicates
SGN = frozenset((-1, 0, 1))

def sign_const(c):
    return (c > 0) - (c < 0)

def sg(p, S):
    """predicate: sign(p) in S"""
    S = frozenset(S)
    if not S:
        return False
    if S == SGN:
        return True
    if isinstance(p, bool):
        p = int(p)
    if is_num(p):
        return sign_const(p) in S
    d = to_poly(p)
    k = content(d)
    lead = min(d.items(), key=lambda mc: mkey(mc[0]))
    if lead[1] < 0:
        k = -k
        S = frozenset(-s for s in S)
    if k != 1:
        d = {m: Fraction(c) / k for m, c in d.items()}
        p = from_poly(d)
    if isinstance(p, Term) and p.op == "sign":
        return sg(p.args[0], S)
    p, S = int_shift(p, S)
    # nonneg atoms
    if isinstance(p, Term) and nonneg_atom(p):
        if p.op == "pow":
            return 1 in S
        if S == frozenset((0, 1)):
            return True
        if S == frozenset((-1,)):
            return False
        S = S - {-1}
        if S == frozenset((0,)):
            S = frozenset((-1, 0))
            S = frozenset((0,))
    # single finite-domain atom
    ats = poly_atoms(p)
    if len(ats) == 1 and domain(ats[0]) is not None:
        a = ats[0]
        vals = frozenset(v for v in domain(a) if sign_const(eval_poly(p, {a: v})) in S)
        return dom(a, vals)
    return T("sg", p, S)

_GE, _LT, _GT, _LE = frozenset((0, 1)), frozenset((-1,)), frozenset((1,)), frozenset((-1, 0))
def int_shift(p, S):
    """one canonical form per linear integer inequality:  q+c >= 0 / q+c < 0, except  q > 0 / q <= 0"""
    if S not in (_GE, _LT, _GT, _LE) or not isinstance(p, Term) or not is_int(p): return p, S
    c0 = 0
    if p.op == "poly":
        for m, c in p.args[0]:
            if m == (): c0 = c
            elif len(m) != 1 or m[0][1] != 1: return p, S
    if S in (_GT, _LE):
        if c0 == 0: return p, S
        p = psub(p, 1); S = _GE if S == _GT else _LT; c0 -= 1
    if c0 == -1:
        p = padd(p, 1); S = _GT if S == _GE else _LE
    return p, S

def sg_base(p):
    """(base, flip) of p up to a positive factor, without integer shifting"""
    d = to_poly(p); k = content(d)
    lead = min(d.items(), key=lambda mc: mkey(mc[0]))
    f = 1
    if lead[1] < 0: k = -k; f = -1
    if k != 1: p = from_poly({m: Fraction(c) / k for m, c in d.items()})
    if isinstance(p, Term) and p.op == "sign": 
        b, f2 = sg_base(p.args[0]) if not is_num(p.args[0]) else (p, 1)
        return b, f * f2
    return p, f

def dom(a, vals):
    full = frozenset(domain(a))
    vals = frozenset(vals) & full
    if not vals:
        return False
    if vals == full:
        return True
    if a.op == "sign":
        return sg(a.args[0], vals)
    return T("dom", a, vals)

def poly_atoms(p):
    s = []
    if isinstance(p, Term):
        if p.op != "poly":
            return [p]
        for m, c in p.args[0]:
            for a, e in m:
                if a not in s:
                    s.append(a)
    return s

def eval_poly(p, env):
    """substitute numbers for atoms"""
    r = 0
    for m, c in to_poly(p).items():
        t = c
        for a, e in m:
            if a in env:
                v = env[a]
                t = pmul(t, ppow(v, e))
            else:
                t = pmul(t, from_poly({((a, e),): 1}))
        r = padd(r, t)
    return r

def sign_of(v):
    """abstract sign(v)"""
    if is_num(v):
        return sign_const(v)
    if isinstance(v, Term) and v.op == "sign":
        return v
    if isinstance(v, Term) and v.op == "poly":
        its = v.args[0]
        if len(its) == 1:
            m, c = its[0]
            r = sign_const(c)
            for a, e in m:
                s = sign_of(a)
                r = pmul(r, s if e % 2 else pmul(s, s))
            return r
        d = dict(its); k = content(d)
        if min(its, key=lambda mc: mkey(mc[0]))[1] < 0:
            return pmul(-1, T("sign", from_poly({m: -Fraction(c) / k for m, c in d.items()})))
        v = from_poly({m: Fraction(c) / k for m, c in d.items()})
    if isinstance(v, Term) and (v.op == "par"):
        return v
    return T("sign", v)

# kinds: what class a value belongs to
KINDS = ("Le", "Lt", "Eq", "Ne", "Ge", "Gt", "True", "False", "int", "long", "Integer", "Ratio", "Float", "float",
         "str", "list", "tuple", "set", "dict", "none", "func", "other")
KSET = frozenset(KINDS)
CLASS_KINDS = {
    "sympy.Le": ("Le",), "sympy.Lt": ("Lt",), "sympy.Eq": ("Eq",), "sympy.Ne": ("Ne",), "sympy.Ge": ("Ge",), "sympy.Gt": ("Gt",),
    "sympy.LessThan": ("Le",), "sympy.StrictLessThan": ("Lt",), "sympy.Equality": ("Eq",), "sympy.Unequality": ("Ne",),
    "sympy.GreaterThan": ("Ge",), "sympy.StrictGreaterThan": ("Gt",),
    "sympy.Rel": ("Le", "Lt", "Eq", "Ne", "Ge", "Gt"), "sympy.Relational": ("Le", "Lt", "Eq", "Ne", "Ge", "Gt"),
    "sympy.Rational": ("Integer", "Ratio"), "sympy.Integer": ("Integer",), "sympy.Float": ("Float",),
    "sympy.Number": ("Integer", "Ratio", "Float"),
    "int": ("int",), "long": ("long",), "float": ("float",), "str": ("str",), "list": ("list",), "tuple": ("tuple",),
    "set": ("set",), "dict": ("dict",), "bool": ("True", "False"),
}

def kd(t, ks):
    ks = frozenset(ks)
    if not ks:
        return False
    if ks == KSET:
        return True
    if is_const(t):
        return const_kind(t) in ks
    if isinstance(t, Term):
        if t.op == "rel":
            return t.args[0] in ks
        if t.op in ("list", "tup", "set"):
            return {"list": "list", "tup": "tuple", "set": "set"}[t.op] in ks
    return T("kd", t, ks)

def const_kind(v):
    if v is None: return "none"
    if v is True: return "True"
    if v is False: return "False"
    if isinstance(v, int): return "int"
    if isinstance(v, str): return "str"
    if isinstance(v, Fraction): return "Ratio"
    return "float"

def b_not(c):
    if isinstance(c, bool):
        return not c
    if c.op == "not":
        return c.args[0]
    if c.op == "sg":
        p, S = c.args
        R = SGN - S
        if isinstance(p, Term) and nonneg_atom(p):
            R = R - {-1}
            if not R:
                return False
        return sg(p, R)
    if c.op == "dom":
        return dom(c.args[0], frozenset(domain(c.args[0])) - c.args[1])
    if c.op == "kd":
        return kd(c.args[0], KSET - c.args[1])
    if c.op == "and":
        return b_or(*[b_not(x) for x in c.args[0]])
    if c.op == "or":
        return b_and(*[b_not(x) for x in c.args[0]])
    if c.op == "all":
        return T("ex", c.args[0], c.args[1], c.args[2], b_not(c.args[3]))
    if c.op == "ex":
        return T("all", c.args[0], c.args[1], c.args[2], b_not(c.args[3]))
    return T("not", c)

def _lit_key(c):
    """(base, set) for literals over one base, else None"""
    if c.op == "sg": return ("sg", c.args[0]), c.args[1]
    if c.op == "dom": return ("dom", c.args[0]), c.args[1]
    if c.op == "kd": return ("kd", c.args[0]), c.args[1]
    if c.op == "not": return ("b", c.args[0]), frozenset((False,))
    return ("b", c), frozenset((True,))

def _mk(base, S):
    if base[0] == "sg": return sg(base[1], S)
    if base[0] == "dom": return dom(base[1], S)
    if base[0] == "kd": return kd(base[1], S)
    if S == frozenset((True,)): return base[1]
    if S == frozenset((False,)): return T("not", base[1])
    return bool(S)

def b_and(*cs):
    lits = {}
    rest = set()
    todo = list(cs)
    while todo:
        c = todo.pop()
        if c is True:
            continue
        if c is False:
            return False
        if c.op == "and":
            todo.extend(c.args[0]); continue
        if c.op == "or":
            rest.add(c); continue
        base, S = _lit_key(c)
        if base in lits:
            S = lits[base] & S
            if not S:
                return False
        lits[base] = S
    out = set()
    for base, S in lits.items():
        m = _mk(base, S)
        if m is False:
            return False
        if m is not True:
            out.add(m)
    # absorb disjunctions
    for c in rest:
        keep = []
        sat = False
        for d in c.args[0]:
            if d in out:
                sat = True; break
            if d.op not in ("and", "or"):
                base, S = _lit_key(d)
                if base in lits:
                    if lits[base] <= S:
                        sat = True; break
                    if not (lits[base] & S):
                        continue
            keep.append(d)
        if sat:
            continue
        if not keep:
            return False
        if len(keep) == 1:
            return b_and(*(list(out) + keep + [x for x in rest if x is not c]))
        out.add(T("or", frozenset(keep)))
    if not out:
        return True
    if len(out) == 1:
        return next(iter(out))
    return T("and", frozenset(out))

def b_or(*cs):
    r = b_and_dual([b_not(c) for c in cs])
    return r

def b_and_dual(negs):
    # or = not and not, computed without infinite recursion
    lits = {}; rest = set()
    todo = [b_not(c) if not isinstance(c, bool) else (not c) for c in negs]
    flat = []
    while todo:
        c = todo.pop()
        if c is True:
            return True
        if c is False:
            continue
        if c.op == "or":
            todo.extend(c.args[0]); continue
        flat.append(c)
    for c in flat:
        if c.op == "and":
            rest.add(c); continue
        base, S = _lit_key(c)
        lits[base] = lits.get(base, frozenset()) | S
    out = set()
    for base, S in lits.items():
        m = _mk(base, S)
        if base[0] == "b" and S == frozenset((True, False)):
            return True
        if m is True:
            return True
        if m is not False:
            out.add(m)
    # conjunction merging: (A and l) or (A and not l) = A
    conj = set(rest)
    changed = True
    while changed:
        changed = False
        lst = list(conj)
        for i in range(len(lst)):
            for j in range(i + 1, len(lst)):
                m = _merge_conj(lst[i], lst[j])
                if m is not None:
                    conj.discard(lst[i]); conj.discard(lst[j])
                    if m is True:
                        return True
                    if m.op == "and":
                        conj.add(m)
                    else:
                        return b_or(*(list(out) + list(conj) + [m]))
                    changed = True
                    break
            if changed:
                break
    keep = set()
    for c in conj:
        parts = c.args[0]
        if any(p in out for p in parts):
            continue
        # unit l1 or (not l1 and X)  =  l1 or X
        np = []
        for p in parts:
            if p.op not in ("and", "or"):
                base, S = _lit_key(p)
                if base in lits:
                    nb = b_not(_mk(base, lits[base]))
                    if nb is p or (nb is not True and nb is not False and _lit_key(nb)[1] <= S):
                        continue
            np.append(p)
        if len(np) != len(parts):
            return b_or(*(list(out) + list(keep) + [x for x in conj if x is not c and x not in keep] + [b_and(*np)]))
        keep.add(c)
    out |= keep
    if not out:
        return False
    if len(out) == 1:
        return next(iter(out))
    return T("or", frozenset(out))

def _merge_conj(c1, c2):
    a, b = set(c1.args[0]), set(c2.args[0])
    if a <= b:
        return c1
    if b <= a:
        return c2
    da, db = a - b, b - a
    if len(da) == 1 and len(db) == 1:
        x, y = next(iter(da)), next(iter(db))
        if x.op not in ("and", "or") and y.op not in ("and", "or"):
            bx, sx = _lit_key(x); by, sy = _lit_key(y)
            if bx == by:
                m = _mk(bx, sx | sy)
                if bx[0] == "b" and len(sx | sy) == 2:
                    m = True
                r = b_and(*(list(a & b) + [m]))
                return r
    return None

def b_all(bv, lo, hi, body):
    if isinstance(body, bool):
        if body:
            return True
        return sg(psub(hi, lo), (-1, 0))
    if body.op == "and" :
        return b_and(*[b_all(bv, lo, hi, x) for x in body.args[0]])
    if bv not in syms(body):
        return b_or(body, sg(psub(hi, lo), (-1, 0)))
    return T("all", bv, lo, hi, body)

def b_ex(bv, lo, hi, body):
    return b_not(b_all(bv, lo, hi, b_not(body)))

# ---------------------------------------------------------------- substitution
def subst(t, env):
    """env: Term -> value; rebuilds through the smart constructors"""
    if not env:
        return t
    memo = {}
    keys = frozenset(env)
    ksy = set()
    for k in keys:
        ksy |= syms(k)
    def go(x):
        if isinstance(x, tuple):
            return tuple(go(y) for y in x)
        if isinstance(x, frozenset):
            return frozenset(go(y) for y in x)
        if not isinstance(x, Term):
            return x
        if x in env:
            return env[x]
        if not (syms(x) & ksy):
            return x
        r = memo.get(x)
        if r is None:
            r = rebuild(x, go)
            memo[x] = r
        return r
    return go(t)

def rebuild(x, go):
    op, a = x.op, x.args
    if op == "poly":
        r = 0
        for m, c in a[0]:
            t = c
            for a_, e in m:
                n = go(a_)
                t = pmul(t, ppow(n, e)) if arith_ok(n) else T("badmul", t, n, e)
                if isinstance(t, Term) and t.op == "badmul":
                    return T("bad", x)
            r = padd(r, t)
        return r
    if op == "sg": return sg(go(a[0]), a[1]) if arith_ok(go(a[0])) else T("bad", x)
    if op == "dom":
        n = go(a[0])
        if is_num(n): return n in a[1]
        if domain(n) is not None: return dom(n, a[1])
        ats = poly_atoms(n)
        if ats and all(domain(z) is not None for z in ats):
            # rebuild as disjunction of equalities
            return b_or(*[sg(psub(n, v), (0,)) for v in a[1]])
        return b_or(*[sg(psub(n, v), (0,)) for v in a[1]])
    if op == "kd": return kd(go(a[0]), a[1])
    if op == "not": return b_not(go(a[0]))
    if op == "and": return b_and(*[go(y) for y in a[0]])
    if op == "or": return b_or(*[go(y) for y in a[0]])
    if op in ("all", "ex"):
        return (b_all if op == "all" else b_ex)(go(a[0]) if isinstance(go(a[0]), Term) else a[0], go(a[1]), go(a[2]), go(a[3]))
    if op == "sign": return sign_of(go(a[0]))
    if op == "par":
        r = 0
        for m in a[0]:
            t = 1
            for a_ in m:
                t = pmul(t, go(a_))
            r = padd(r, t)
        return parity(r)
    if op == "pow": return ppow(go(a[0]), go(a[1]))
    if op == "fdiv": return floordiv(go(a[0]), go(a[1]))
    if op == "mod": return pmod(go(a[0]), go(a[1]))
    if op == "eqo": return eqo(go(a[0]), go(a[1]))
    if op == "maxz": return maxz(go(a[0]))
    if op == "at": return at(go(a[0]), go(a[1]))
    if op == "len": return length(go(a[0]))
    return T(op, *[go(y) for y in a])

def arith_ok(v):
    return is_num(v) or isinstance(v, bool) or (isinstance(v, Term) and v.op not in NONARITH)

NONARITH = {"list", "tup", "set", "dict", "sg", "dom", "kd", "not", "and", "or", "all", "ex", "eqo", "bad", "fmt", "truth", "inst", "func", "in"}
BOOLOPS = {"sg", "dom", "kd", "not", "and", "or", "all", "ex", "eqo", "truth", "in", "bsym", "cmpo", "isfile", "lxe", "lxb", "accb", "pred"}

def is_bool(v):
    return isinstance(v, bool) or (isinstance(v, Term) and (v.op in BOOLOPS or (v.op == "sym" and len(v.args) > 1 and v.args[1] == "bool")))

def eqo(a, b):
    if a is b:
        return True
    if is_const(a) and is_const(b):
        return a == b
    for x, y in ((a, b), (b, a)):
        if isinstance(y, bool):
            return kd(x, ("True",) if y else ("False",))
        if y is None:
            return kd(x, ("none",))
    if isinstance(a, Term) and isinstance(b, Term):
        if a.op in ("list", "tup", "fmt") and a.op == b.op and a.op == "tup" and len(a.args) != len(b.args):
            return False
        if a.op == "tup" and b.op == "tup":
            return b_and(*[eq_any(x, y) for x, y in zip(a.args, b.args)])
        if a.uid > b.uid:
            a, b = b, a
    elif isinstance(b, Term):
        a, b = b, a
    return T("eqo", a, b)

def eq_any(a, b):
    if a is b:
        return True
    if is_const(a) and is_const(b):
        return a == b
    if isinstance(a, (str, bool)) or isinstance(b, (str, bool)) or a is None or b is None:
        return eqo(a, b)
    if arith_ok(a) and arith_ok(b):
        return sg(psub(a, b), (0,))
    return eqo(a, b)

def maxz(v):
    if is_num(v):
        return max(0, v)
    if nonneg_atom(v):
        return v
    return T("maxz", v)

def at(t, i):
    return T("at", t, i)

def length(t):
    if isinstance(t, str):
        return len(t)
    if isinstance(t, Term):
        if t.op == "tup":
            return len(t.args)
        if t.op == "list" and all(s[0] == "one" for s in t.args[0]):
            return len(t.args[0])
    return T("len", t)

# ---------------------------------------------------------------- rendering
def render(t, depth=0):
    if not isinstance(t, Term):
        if isinstance(t, tuple):
            return "(" + ", ".join(render(x, depth) for x in t) + ")"
        if isinstance(t, frozenset):
            return "{" + ", ".join(sorted(render(x, depth) for x in t)) + "}"
        return repr(t) if not isinstance(t, Fraction) else str(t)
    if depth > 12:
        return "..."
    d = depth + 1
    op, a = t.op, t.args
    if op == "sym": return str(a[0])
    if op == "b": return "i%s" % (a[0],)
    if op == "poly":
        out = []
        for m, c in a[0]:
            s = "*".join(render(x, d) + ("" if e == 1 else "**%s" % e) for x, e in m)
            if not m: s = str(c)
            elif c == -1: s = "-" + s
            elif c != 1: s = "%s*%s" % (c, s)
            out.append(s)
        return "(" + " + ".join(out) + ")"
    if op == "sg":
        n = {(-1,): "<0", (0,): "==0", (1,): ">0", (-1, 0): "<=0", (0, 1): ">=0", (-1, 1): "!=0"}[tuple(sorted(a[1]))]
        return render(a[0], d) + n
    if op == "dom": return "%s in {%s}" % (render(a[0], d), ",".join(map(str, sorted(a[1]))))
    if op == "kd":
        if len(a[1]) > len(KSET) // 2:
            return "%s not %s" % (render(a[0], d), "/".join(sorted(KSET - a[1])))
        return "%s is %s" % (render(a[0], d), "/".join(sorted(a[1])))
    if op == "not": return "not(" + render(a[0], d) + ")"
    if op == "and": return "(" + " and ".join(sorted(render(x, d) for x in a[0])) + ")"
    if op == "or": return "(" + " or ".join(sorted(render(x, d) for x in a[0])) + ")"
    if op in ("all", "ex"): return "%s %s in [%s,%s): %s" % (op, render(a[0], d), render(a[1], d), render(a[2], d), render(a[3], d))
    if op == "at": return "%s[%s]" % (render(a[0], d), render(a[1], d))
    if op == "attr": return "%s.%s" % (render(a[0], d), a[1])
    if op == "eqo": return "(%s is-equal %s)" % (render(a[0], d), render(a[1], d))
    return "%s(%s)" % (op, ", ".join(render(x, d) for x in a))
