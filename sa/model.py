"""Instances of summaries: evaluates the normal forms computed by the analysis (never repository code) under a valuation
of their free symbols.  Used only to refute an equation between two normal forms by exhibiting a valuation."""
import random
from fractions import Fraction
from .terms import *
from .terms import syms
from .interp import Box, FuncVal, ClassVal, ExtVal, Builtin

class CantEval(Exception): pass

class U(object):
    """value of an uninterpreted operation"""
    __slots__ = ("key",)
    def __init__(self, key): self.key = key
    def __hash__(self): return hash(self.key)
    def __eq__(self, o): return isinstance(o, U) and o.key == self.key
    def __repr__(self): return "?%s" % (self.key,)
HARD = {"call", "app", "at", "attr", "func"}
def soft(v):
    """depends on an operation whose meaning is fixed but not modelled: such values neither prove nor refute anything"""
    if isinstance(v, U): return v.key[0] not in HARD or any(soft(x) for x in v.key[1:])
    if isinstance(v, (list, tuple, set, frozenset)): return any(soft(x) for x in v)
    if isinstance(v, dict): return any(soft(k) or soft(x) for k, x in v.items())
    if isinstance(v, RelV): return soft(v.lhs) or soft(v.rhs)
    if isinstance(v, Obj): return soft(v.d)
    return False
class RelV(object):
    __slots__ = ("kind", "lhs", "rhs")
    def __init__(self, kind, lhs, rhs): self.kind = kind; self.lhs = lhs; self.rhs = rhs
    def key(self): return ("rel", self.kind, self.lhs, self.rhs)
    def __hash__(self): return hash(self.key())
    def __eq__(self, o): return isinstance(o, RelV) and o.key() == self.key()
    def __repr__(self): return "%s(%s, %s)" % (self.kind, self.lhs, self.rhs)
class Obj(object):
    def __init__(self, cls, **kw): self.cls = cls; self.d = kw
    def __hash__(self): return hash((self.cls, tuple(sorted(self.d.items(), key=str))))
    def __eq__(self, o): return isinstance(o, Obj) and (self.cls, self.d) == (o.cls, o.d)
    def __repr__(self): return "%s%r" % (self.cls, self.d)

def hk(v):
    """hashable"""
    if isinstance(v, list): return ("L",) + tuple(hk(x) for x in v)
    if isinstance(v, tuple): return ("T",) + tuple(hk(x) for x in v)
    if isinstance(v, (set, frozenset)): return frozenset(hk(x) for x in v)
    if isinstance(v, dict): return ("D", frozenset((hk(k), hk(x)) for k, x in v.items()))
    if isinstance(v, bool): return ("B", v)
    return v

UNINT = {"call", "app", "ext", "attr", "bi", "str", "fmt", "cat", "clsof", "meth", "smeth", "toint", "tofloat", "truth", "in", "eqo", "kindof", "keys", "cmpo", "method",
         "join", "file", "tuplist", "sjoin", "kw", "unk2"}

STRM = {"split", "join", "lower", "upper", "strip", "lstrip", "rstrip", "replace", "startswith", "endswith", "title", "isdigit", "isalpha", "find", "partition", "rsplit", "rpartition", "zfill", "capitalize"}
SETM = {"intersection", "union", "difference", "symmetric_difference", "issubset", "issuperset", "isdisjoint", "copy"}
import os.path as _op
def _strs(a):
    if not all(isinstance(x, str) for x in a): raise CantEval("string")
BASE_INTERP = {"ext:os.path.basename": lambda M, a: (_strs(a), _op.basename(a[0]))[1], "ext:os.path.dirname": lambda M, a: (_strs(a), _op.dirname(a[0]))[1], "ext:os.path.splitext": lambda M, a: (_strs(a), _op.splitext(a[0]))[1],
               "ext:os.path.split": lambda M, a: (_strs(a), _op.split(a[0]))[1], "ext:os.path.normpath": lambda M, a: (_strs(a), _op.normpath(a[0]))[1], "cat": lambda M, a: (_strs(a), "".join(a))[1]}

CACHED = {"list", "set", "dict", "fold", "count", "sum", "call", "pred", "lookup", "asset"}
FREE = {}
class Model(object):
    def __init__(self, env, seed=0, forbid=(), interp=None):
        self.env = env; self.seed = seed; self.forbid = set(forbid); self.interp = dict(BASE_INTERP, **(interp or {}))
        self.memo = {}; self.vals = {}
    def rnd(self, key, n):
        k = (repr(key), self.seed)
        if k not in self.memo:
            self.memo[k] = random.Random(repr(k)).random()
        return int(self.memo[k] * n)
    def num(self, v):
        if isinstance(v, bool): return int(v)
        if isinstance(v, (int, Fraction)): return v
        if isinstance(v, float): return Fraction(v)
        if isinstance(v, U):
            if "num" in self.forbid or soft(v): raise CantEval("number of an uninterpreted value")
            return self.rnd(("num", v.key), 7) - 3
        if hasattr(v, "isconst"): return v.cval() if v.isconst() else v
        raise CantEval("number %r" % (v,))
    def truth(self, v):
        if isinstance(v, bool): return v
        if v is None: return False
        if isinstance(v, U):
            if soft(v): raise CantEval("truth of an uninterpreted value")
            return bool(self.rnd(("truth", v.key), 2))
        if isinstance(v, (int, Fraction, float)): return v != 0
        if isinstance(v, (str, list, tuple, set, frozenset, dict)): return len(v) > 0
        if isinstance(v, (RelV, Obj)): return True
        if hasattr(v, "isconst"): return v.cval() != 0 if v.isconst() else True
        raise CantEval("truth")
    def kind(self, v):
        if isinstance(v, RelV): return v.kind
        if isinstance(v, bool): return "True" if v else "False"
        if v is None: return "none"
        if isinstance(v, int): return "int"
        if isinstance(v, Fraction): return "Integer" if v.denominator == 1 else "Ratio"
        if hasattr(v, "isconst"): return self.kind(v.cval()) if v.isconst() else "other"
        if isinstance(v, str): return "str"
        if isinstance(v, float): return "float"
        for t, k in ((list, "list"), (tuple, "tuple"), ((set, frozenset), "set"), (dict, "dict")):
            if isinstance(v, t): return k
        if isinstance(v, U): raise CantEval("kind")
        return "other"
    def idx(self, c, k):
        if isinstance(c, (list, tuple, str)):
            if isinstance(k, U): return self.unint("at", c, k)
            n = self.num(k)
            if not (isinstance(n, int) or n.denominator == 1): raise CantEval("index")
            n = int(n)
            if -len(c) <= n < len(c): return c[n]
            raise CantEval("index out of range")
        if isinstance(c, (set, frozenset)):
            n = self.num(k); c = sorted(c, key=repr)
            if 0 <= n < len(c): return c[int(n)]
            raise CantEval("index out of range")
        if isinstance(c, dict):
            for kk, v in c.items():
                if kk == k or hk(kk) == hk(k): return v
            if isinstance(k, int) and not isinstance(k, bool) and 0 <= k < len(c) and all(isinstance(x, str) for x in c): return list(c)[k]   # k-th key of an iteration
            raise CantEval("missing key")
        if isinstance(c, U): return self.unint("at", c, k)
        raise CantEval("index of %r" % (c,))
    def unint(self, op, *a):
        return U((op,) + tuple(hk(x) for x in a))
    def ev(self, t, b=None):
        if t.__class__ is Term and t.op in CACHED:
            fs = FREE.get(t)
            if fs is None: fs = FREE[t] = sorted((x for x in subterms(t) if x.op in ("b", "acc", "acci", "accb", "sym")), key=lambda x: x.uid)
            if b:
                try: key = (t, tuple((x, hk(b[x])) for x in fs if x in b))
                except TypeError: return self.ev1(t, b)
            else: key = (t, ())
            r = self.vals.get(key, self)
            if r is self:
                try: r = (True, self.ev1(t, b))
                except CantEval as e: r = (False, e)
                try: self.vals[key] = r
                except TypeError: pass
            if r[0]: return list(r[1]) if isinstance(r[1], list) else r[1]
            raise r[1]
        return self.ev1(t, b)
    def ev1(self, t, b=None):
        try: return self._ev(t, b)
        except (TypeError, KeyError, ValueError, IndexError, ZeroDivisionError, AttributeError, OverflowError) as e:
            raise CantEval("%s: %s" % (type(e).__name__, e))
    def _ev(self, t, b=None):
        b = b or {}
        if isinstance(t, tuple): return tuple(self.ev(x, b) for x in t)
        if not isinstance(t, Term): return t
        op, a = t.op, t.args
        if op == "b":
            if t in b: return b[t]
            raise CantEval("unbound %r" % (t,))
        if op == "sym":
            if t in b: return b[t]
            if t in self.env: return self.env[t]
            raise CantEval("no value for %r" % (t,))
        if t in self.env: return self.env[t]
        if op == "poly":
            r = 0; sy = False
            for m, c in a[0]:
                v = Fraction(c)
                for x, e in m:
                    n = self.num(self.ev(x, b))
                    sy = sy or isinstance(n, Fraction)
                    if e < 0 and n == 0: raise CantEval("division by zero")
                    v = v * (n if hasattr(n, "isconst") else Fraction(n)) ** e
                r = r + v
            if hasattr(r, "isconst"): return r.cval() if r.isconst() else r
            return int(r) if r.denominator == 1 and not sy else r
        if op == "sg":
            try: n = self.num(self.ev(a[0], b))
            except CantEval:
                # an equation of values that are not numbers
                if set(a[1]) not in ({0}, {-1, 1}) or a[0].op != "poly": raise
                ms = a[0].args[0]
                if sorted(c for m, c in ms) != [-1, 1] or any(len(m) != 1 or m[0][1] != 1 for m, c in ms): raise
                x, y = [self.ev(m[0][0], b) for m, c in ms]
                if isinstance(x, U) or isinstance(y, U) or soft(x) or soft(y): raise
                return (hk(x) == hk(y)) == (0 in a[1])
            if hasattr(n, "sgn"): return n.sgn() in a[1]
            if hasattr(n, "isconst"):
                if a[1] == (0,) or a[1] == frozenset((0,)): return False
                if set(a[1]) == {-1, 1}: return True
                raise CantEval("sign of a polynomial")
            return ((n > 0) - (n < 0)) in a[1]
        if op == "dom": return self.num(self.ev(a[0], b)) in a[1]
        if op == "kd": return self.kind(self.ev(a[0], b)) in a[1]
        if op == "not": return not self.truth(self.ev(a[0], b))
        if op in ("and", "or"):
            exc = None      # strong Kleene: operands are unordered, one may guard another
            for x in sorted(a[0], key=self._cost):
                try: v = self.truth(self.ev(x, b))
                except CantEval as e: exc = e; continue
                if v == (op == "or"): return v
            if exc is not None: raise exc
            return op == "and"
        if op in ("all", "ex", "first"):
            lo, hi = self.num(self.ev(a[1], b)), self.num(self.ev(a[2], b))
            for k in range(int(lo), int(hi)):
                b2 = dict(b); b2[a[0]] = k
                v = self.truth(self.ev(a[3], b2))
                if op == "all" and not v: return False
                if op == "ex" and v: return True
                if op == "first" and v: return k
            if op == "first": raise CantEval("no first index")
            return op == "all"
        if op == "at": return self.idx(self.ev(a[0], b), self.ev(a[1], b))
        if op == "len":
            v = self.ev(a[0], b)
            if isinstance(v, U):
                if soft(v): raise CantEval("length of an uninterpreted value")
                return self.rnd(("len", v.key), 4)
            return len(v)
        if op == "count":
            xs = self.segs(a[0], b)
            return len(set(map(hk, xs))) if len(a) > 1 else len(xs)
        if op == "sum":
            lo, hi = self.num(self.ev(a[1], b)), self.num(self.ev(a[2], b))
            r = 0
            for k in range(int(lo), int(hi)):
                b2 = dict(b); b2[a[0]] = k
                for g, x in a[3]:
                    if self.truth(self.ev(g, b2)): r += self.num(self.ev(x, b2))
            return r
        if op == "ind": return self.num(self.ev(a[1], b)) if self.truth(self.ev(a[0], b)) else 0
        if op == "ite": return self.ev(a[1], b) if self.truth(self.ev(a[0], b)) else self.ev(a[2], b)
        if op == "fold" and len(a) == 5:
            bv, lo, hi, init, cs = a
            acc = self.ev(init, b)
            # the accumulator is the unique acc(depth) symbol of the cases
            accs = {x for x in subterms(cs) if x.op == "acc" and x.args == (bv.args[0],)}
            for k in range(int(self.num(self.ev(lo, b))), int(self.num(self.ev(hi, b)))):
                b2 = dict(b); b2[bv] = k
                for x in accs: b2[x] = acc
                for g, x in cs:
                    if self.truth(self.ev(g, b2)): acc = self.ev(x, b2); break
            return acc
        if op in ("acc", "acci", "accb"):
            if t in b: return b[t]
            raise CantEval("unbound accumulator")
        if op in ("lx", "lxi", "lxb", "lxn", "lxe"):
            ex, k, st = self.run_lx(a[0], b)
            if op == "lxe": return ex
            if op == "lxn": return k
            v = st[a[1]]
            if isinstance(v, Term): raise CantEval("value not set by the loop")
            return v
        if op == "undef": return t
        if op == "pred":
            b2 = dict(b)
            for q, x in zip(a[0], a[2:]): b2[q] = self.ev(x, b)
            return self.truth(self.ev(a[1].v, b2))
        if op == "sign":
            n = self.num(self.ev(a[0], b))
            return n.sgn() if hasattr(n, "sgn") else (n > 0) - (n < 0)
        if op == "pow":
            x, e = self.num(self.ev(a[0], b)), self.num(self.ev(a[1], b))
            if e < 0 and x == 0: raise CantEval("pow")
            if hasattr(x, "isconst"): return x ** int(e)
            r = Fraction(x) ** int(e); return int(r) if r.denominator == 1 and not isinstance(x, Fraction) else r
        if op == "fdiv": 
            x, e = self.num(self.ev(a[0], b)), self.num(self.ev(a[1], b))
            if e == 0: raise CantEval("div")
            return x // e
        if op == "mod":
            x, e = self.num(self.ev(a[0], b)), self.num(self.ev(a[1], b))
            if e == 0: raise CantEval("mod")
            return x % e
        if op == "par":
            r = 0
            for m in a[0]:
                v = 1
                for x in m: v *= self.num(self.ev(x, b))
                r += v
            return r % 2
        if op == "maxz": return max(0, self.num(self.ev(a[0], b)))
        if op in ("list",): return self.segs(a[0], b)
        if op == "set": return set_(self.segs(a[0], b))
        if op == "setc": return set(a[0])
        if op == "inter":
            v = self.ev(a[0], b)
            if not isinstance(v, (set, frozenset, list, tuple)): raise CantEval("set")
            return {x for x in v if x in a[1]}
        if op == "asset": return set_(self.ev(a[0], b))
        if op == "tuplist":
            v = self.ev(a[0], b)
            if isinstance(v, list): return tuple(v)
        if op == "sjoin" and len(a) == 2:
            sp, v = self.ev(a[0], b), self.ev(a[1], b)
            if isinstance(sp, str) and isinstance(v, (list, tuple)) and all(isinstance(x, str) for x in v): return sp.join(v)
        if op == "sortedl" and len(a) == 1:
            v = self.ev(a[0], b)
            if isinstance(v, (list, tuple, set, frozenset)) and (all(isinstance(x, str) for x in v) or all(isinstance(x, (int, Fraction)) and not isinstance(x, bool) for x in v)): return sorted(v)
            raise CantEval("sorted")
        if op == "tup": return tuple(self.ev(x, b) for x in a)
        if op == "dict":
            d = {}
            self.ents(a[0], b, d)
            return d
        if op == "eqo":
            x, y = self.ev(a[0], b), self.ev(a[1], b)
            if hk(x) == hk(y): return True
            if soft(x) or soft(y): raise CantEval("equality of uninterpreted values")
            return False
        if op == "in":
            c = self.ev(a[1], b); x = self.ev(a[0], b)
            if isinstance(c, (list, tuple, set, frozenset)): return hk(x) in [hk(y) for y in c]
            if isinstance(c, dict): return hk(x) in [hk(y) for y in c]
            if soft(x) or soft(c) or not isinstance(c, U): raise CantEval("membership")
            return bool(self.rnd(("in", hk(x), hk(c)), 2))
        if op == "keys":
            v = self.ev(a[0], b)
            if isinstance(v, dict): return list(v)
            return self.unint("keys", v)
        if op == "truth": return self.truth(self.ev(a[0], b))
        if op == "rel":
            k = a[0]
            if isinstance(k, Term) and k.op == "kindof": k = self.kind(self.ev(k.args[0], b))
            return RelV(k, self.ev(a[1], b), self.ev(a[2], b))
        if op == "attr":
            v = self.ev(a[0], b)
            if isinstance(v, RelV) and a[1] in ("lhs", "rhs"): return getattr(v, a[1])
            if isinstance(v, Obj) and a[1] in v.d: return v.d[a[1]]
            if "attr:" + str(a[1]) in self.interp: return self.interp["attr:" + a[1]](self, v)
            if "attr" in self.forbid: raise CantEval("attribute %s" % (a[1],))
            return self.unint("attr", v, a[1])
        if op == "clsof": return ("cls", self.kind(self.ev(a[0], b)))
        if op == "inst": return Obj(a[0], **{k: self.ev(v, b) for k, v in a[2]})
        if op == "func": return U(("func", id(a[0].v)))
        if op == "toint":
            v = self.ev(a[0], b)
            if isinstance(v, (int, Fraction)): return int(v)
            if "toint" in self.forbid: raise CantEval("toint")
            return self.unint("toint", v)
        if op == "str":
            v = self.ev(a[0], b)
            return str(v) if isinstance(v, (int, str)) and not isinstance(v, bool) else self.unint("str", v)
        if op == "lookup":
            d = {}
            self.ents(a[0], b, d)
            return self.idx(d, self.ev(a[1], b))
        if op == "popped":
            v = self.ev(a[0], b)
            if isinstance(v, (set, frozenset)) and v and len(a) == 1: return sorted(v, key=repr)[0]
            if isinstance(v, list) and v: return self.idx(v, self.ev(a[1], b) if len(a) > 1 else -1)
            raise CantEval("popped")
        if op in ("mcall", "smeth") and isinstance(a[0 if op == "smeth" else 1], str):
            mn = a[0 if op == "smeth" else 1]; rv = self.ev(a[1 if op == "smeth" else 0], b)
            if isinstance(rv, str) and mn == "__getslice__":
                lo, hi = self.ev(a[2], b), self.ev(a[3], b)
                if isinstance(lo, int) and isinstance(hi, int): return rv[lo:hi]
                raise CantEval("string slice")
            if isinstance(rv, str) and mn in STRM: 
                av = [self.ev(x, b) for x in a[2:]]
                if all(isinstance(x, (str, int)) or (mn == "join" and isinstance(x, list) and all(isinstance(y, str) for y in x)) for x in av): return getattr(rv, mn)(*av)
                raise CantEval("string method")
            if isinstance(rv, (list, tuple)) and mn in ("index", "count") and len(a) == 3:
                x = hk(self.ev(a[2], b)); ys = [hk(y) for y in rv]
                if soft(rv) or soft(x): raise CantEval("list method")
                if mn == "count": return ys.count(x)
                if x not in ys: raise CantEval("not in list")
                return ys.index(x)
            if isinstance(rv, (set, frozenset)) and mn in SETM:
                av = [self.ev(x, b) for x in a[2:]]
                if all(isinstance(x, (set, frozenset, list, tuple, dict)) for x in av) and not soft(rv) and not soft(av): return getattr(set(rv), mn)(*[set(x) for x in av])
                raise CantEval("set method")
        if op == "index" and len(a) == 2:
            l, x = self.ev(a[0], b), self.ev(a[1], b)
            if isinstance(l, (list, tuple)) and not soft(l) and not soft(x):
                ys = [hk(y) for y in l]
                if hk(x) in ys: return ys.index(hk(x))
                raise CantEval("not in list")
        if op == "fmt":
            f = self.ev(a[0], b); v = [self.ev(x, b) for x in a[1:]]
            if len(v) == 1 and isinstance(v[0], tuple): v = list(v[0])
            if isinstance(f, str) and all(isinstance(x, (str, int, float)) for x in v): return f % tuple(v)
        if op == "mcall" and isinstance(a[1], str) and "mcall:" + a[1] in self.interp:
            return self.interp["mcall:" + a[1]](self, [self.ev(a[0], b)] + [self.ev(x, b) for x in a[2:]])
        h = self.interp.get(op) or (op in ("call", "ext", "bi") and self.interp.get(op + ":" + str(a[0])))
        if h: return h(self, [self.ev(x, b) for x in (a[1:] if op in ("call", "ext", "bi") else a)])
        if op in UNINT and op not in self.forbid:
            return U((op,) + tuple(hk(self.ev(x, b)) if isinstance(x, (Term, tuple)) else x for x in a))
        raise CantEval("opaque %s" % op)
    def run_lx(self, L, b):
        """evaluates the recurrence that summarises a loop"""
        bv, lo, hi, inits, cases = L.args
        key = ("lx", L, tuple((x, hk(b[x])) for x in sorted(syms(L), key=lambda z: z.uid) if x in b), tuple((x, hk(v)) for x, v in sorted(b.items(), key=lambda z: z[0].uid) if x.op.startswith("acc") and x.args[0] != bv.args[0]))
        if key in self.memo: return self.memo[key]
        d = bv.args[0]
        state = [self.ev(x, b) for x in inits]
        k = int(self.num(self.ev(lo, b))); h = None if hi is None else int(self.num(self.ev(hi, b)))
        res = None
        steps = 0
        while h is None or k < h:
            steps += 1
            if steps > 400: raise CantEval("loop too long")
            b2 = dict(b); b2[bv] = k
            for n, v in enumerate(state):
                for o in ("acc", "acci", "accb"): b2[T(o, d, n)] = v
            for kind, lits, ws in cases:
                if all(self.truth(self.ev(l, b2)) for l in lits):
                    if kind not in ("normal", "continue"): res = (True, k, state)
                    else:
                        new = [(n, self.ev(w, b2)) for n, w in ws]
                        state = list(state)
                        for n, w in new: state[n] = w
                    break
            else: raise CantEval("no case of the loop applies")
            if res: break
            k += 1
        if res is None: res = (False, k, state)
        self.memo[key] = res
        return res
    def _cost(self, t):
        return (len(subterms(t)) if isinstance(t, Term) else 0, getattr(t, "uid", 0))
    def ents(self, es, b, d):
        for e in es:
            if e[0] == "kv": d[hkey(self.ev(e[1], b))] = self.ev(e[2], b)
            elif e[0] in ("base", "pre"):
                v = self.ev(e[1], b)
                if not isinstance(v, dict): raise CantEval("dict base")
                d.update(v)
            else:
                _, bv, lo, hi, cases = e
                for k in range(int(self.num(self.ev(lo, b))), int(self.num(self.ev(hi, b)))):
                    b2 = dict(b); b2[bv] = k
                    for c in cases:
                        if not self.truth(self.ev(c[0], b2)): continue
                        if e[0] == "nstar": self.ents(c[1], b2, d)
                        else: d[hkey(self.ev(c[1], b2))] = self.ev(c[2], b2)
    def segs(self, segs, b):
        out = []
        for s in segs:
            if s[0] == "one": out.append(self.ev(s[1], b))
            elif s[0] == "pre":
                v = self.ev(s[1], b)
                if not isinstance(v, (list, tuple)): raise CantEval("sequence")
                out += list(v)
            else:
                _, bv, lo, hi, cases = s
                for k in range(int(self.num(self.ev(lo, b))), int(self.num(self.ev(hi, b)))):
                    b2 = dict(b); b2[bv] = k
                    for g, inner in cases:
                        if self.truth(self.ev(g, b2)): out += self.segs(inner, b2)
        return out

def set_(xs):
    out = []
    for x in xs:
        if hk(x) not in [hk(y) for y in out]: out.append(x)
    try: return set(out)
    except TypeError: return frozenset(hk(x) for x in out)
def hkey(k):
    try: hash(k); return k
    except TypeError: return hk(k)
