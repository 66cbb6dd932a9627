"""Path facts: signs of polynomials, finite domains, kinds, linear integer constraints (polyhedra), quantified facts."""
from .terms import *

def linear_int(p):
    """{atom: coef}, const   if p is a linear polynomial over integer atoms"""
    if not is_int(p):
        return None
    d = {}; k = 0
    for m, c in to_poly(p).items():
        if m == ():
            k = c
        elif len(m) == 1 and m[0][1] == 1:
            d[m[0][0]] = Fraction(c)
        else:
            return None
    return d, Fraction(k)

def fm_infeasible(cons, limit=400):
    """cons: list of ({atom: coef}, const) meaning sum + const >= 0.  Fourier-Motzkin; True if infeasible."""
    cons = [(dict(d), k) for d, k in cons]
    while True:
        vs = {}
        for d, k in cons:
            if not d:
                if k < 0:
                    return True
            for a in d:
                vs[a] = vs.get(a, 0) + 1
        cons = [c for c in cons if c[0]]
        if not vs:
            return False
        # pick var with fewest products
        best = None
        for a in vs:
            p = sum(1 for d, k in cons if d.get(a, 0) > 0); n = sum(1 for d, k in cons if d.get(a, 0) < 0)
            sc = p * n - p - n
            if best is None or sc < best[0]:
                best = (sc, a)
        a = best[1]
        pos = [c for c in cons if c[0].get(a, 0) > 0]; neg = [c for c in cons if c[0].get(a, 0) < 0]
        rest = [c for c in cons if c[0].get(a, 0) == 0]
        for d1, k1 in pos:
            for d2, k2 in neg:
                f1, f2 = -d2[a], d1[a]
                d = {}
                for x, c in d1.items(): d[x] = d.get(x, 0) + c * f1
                for x, c in d2.items(): d[x] = d.get(x, 0) + c * f2
                d = {x: c for x, c in d.items() if c != 0}
                rest.append((d, k1 * f1 + k2 * f2))
        seen = set(); cons = []
        for d, k in rest:
            key = (frozenset(d.items()), k)
            if key not in seen:
                seen.add(key); cons.append((d, k))
        if len(cons) > limit:
            return False

QMEMO = {}; QKEYS = {}
class Facts(object):
    """all mutations go through a writer w(dict, key, value) so that they can be undone"""
    def __init__(self, w):
        self.w = w
        self.signs = {}; self.doms = {}; self.kinds = {}; self.bools = {}; self.quant = {}
        self.clauses = {}

    # ---- sign information
    def signs_of(self, p, depth=0):
        if isinstance(p, bool): p = int(p)
        if is_num(p):
            return frozenset((sign_const(p),))
        base, flip = sg_base(p)
        known = frozenset(flip * x for x in self.signs.get(base, SGN))
        if len(known) == 1:
            return known
        st = self._struct(p, depth)
        known = known & st
        if len(known) > 1 and depth < 2 and is_int(p):
            known = self._linear(p, known)
        if len(known) > 1:
            ats = poly_atoms(p)
            if ats and len(ats) <= 4 and all(domain(a) is not None for a in ats):
                vals = set()
                self._enum(p, ats, vals)
                known = known & frozenset(vals)
        return known

    def _enum(self, p, ats, vals):
        def rec(i, q):
            if is_num(q):
                vals.add(sign_const(q)); return
            if i == len(ats):
                vals.update(SGN); return
            for v in self.dom_of(ats[i]):
                rec(i + 1, eval_poly(q, {ats[i]: v}))
        rec(0, p)

    def _struct(self, p, depth):
        if depth > 4:
            return SGN
        if not isinstance(p, Term):
            return SGN
        if p.op == "poly":
            tot = None
            for m, c in p.args[0]:
                s = frozenset((sign_const(c),))
                for a, e in m:
                    sa = self.signs_of(a, depth + 1)
                    if e % 2 == 0:
                        sa = frozenset(x * x for x in sa)
                    s = frozenset(x * y for x in s for y in sa)
                if tot is None:
                    tot = s
                else:
                    r = set()
                    for x in tot:
                        for y in s:
                            if x == 0: r.add(y)
                            elif y == 0 or x == y: r.add(x)
                            else: r |= SGN
                    tot = frozenset(r)
                if tot == SGN:
                    return SGN
            return tot
        if nonneg_atom(p):
            return frozenset((1,)) if p.op == "pow" else frozenset((0, 1))
        if p.op == "sign":
            return self.signs_of(p.args[0], depth + 1)
        if domain(p) is not None:
            return frozenset(sign_const(v) for v in self.dom_of(p))
        if p.op == "maxz":
            s = self.signs_of(p.args[0], depth + 1)
            return frozenset(0 if x < 0 else x for x in s)
        return SGN

    def _linear(self, p, known):
        q = linear_int(p)
        if q is None:
            return known
        d, k = q
        atoms = set(d)
        cons = []
        pool = []
        for t, S in self.signs.items():
            l = linear_int(t)
            if l is not None and l[0]:
                pool.append((l, S))
        # relevant closure
        changed = True; used = set()
        while changed:
            changed = False
            for i, ((dd, kk), S) in enumerate(pool):
                if i not in used and atoms & set(dd):
                    used.add(i); atoms |= set(dd); changed = True
        for i in used:
            (dd, kk), S = pool[i]
            neg = {a: -c for a, c in dd.items()}
            if S == frozenset((0,)):
                cons.append((dd, kk)); cons.append((neg, -kk))
            elif S <= frozenset((0, 1)):
                cons.append((dd, kk - (0 if 0 in S else 1)))
            elif S <= frozenset((-1, 0)):
                cons.append((neg, -kk - (0 if 0 in S else 1)))
        for a in list(atoms):
            if nonneg_atom(a):
                cons.append(({a: Fraction(1)}, Fraction(0)))
            if a.op == "maxz":
                l = linear_int(a.args[0])
                if l:
                    dd = {x: -c for x, c in l[0].items()}; dd[a] = dd.get(a, 0) + 1
                    cons.append((dd, -l[1]))
            dm = domain(a)
            if dm is not None:
                vs = self.dom_of(a)
                cons.append(({a: Fraction(1)}, Fraction(-min(vs)))); cons.append(({a: Fraction(-1)}, Fraction(max(vs))))
        if len(cons) > 60:
            return known
        neg = {a: -c for a, c in d.items()}
        out = set()
        for s in known:
            if s == 1: extra = [(d, k - 1)]
            elif s == -1: extra = [(neg, -k - 1)]
            else: extra = [(d, k), (neg, -k)]
            if not fm_infeasible(cons + extra):
                out.add(s)
        return frozenset(out)

    def dom_of(self, a):
        if a.op == "sign":
            s = self.signs_of(a.args[0]); return tuple(s)
        v = self.doms.get(a)
        return tuple(v) if v is not None else domain(a)

    def kinds_of(self, t):
        k = self.kinds.get(t, KSET)
        if isinstance(t, Term) and t.op == "rel" and isinstance(t.args[0], Term):
            k = k & self.kinds_of(t.args[0].args[0])
        return k

    # ---- decide / assume
    def decide(self, c, depth=0):
        if isinstance(c, bool):
            return c
        op = c.op
        if op == "sg":
            known = self.signs_of(c.args[0])
            if not known:
                return None
            if known <= c.args[1]: return True
            if not (known & c.args[1]): return False
            return self._quant(c, depth)
        if op == "dom":
            known = frozenset(self.dom_of(c.args[0]))
            if known <= c.args[1]: return True
            if not (known & c.args[1]): return False
            return self._quant(c, depth)
        if op == "kd":
            known = self.kinds_of(c.args[0])
            if known <= c.args[1]: return True
            if not (known & c.args[1]): return False
            return self._quant(c, depth)
        if op == "not":
            r = self.decide(c.args[0], depth)
            return None if r is None else (not r)
        if op in ("and", "or"):
            if c in self.bools: return self.bools[c]
            n = b_not(c)
            if n in self.bools: return not self.bools[n]
        if op == "and":
            un = False
            for x in c.args[0]:
                r = self.decide(x, depth)
                if r is False: return False
                if r is None: un = True
            return None if un else True
        if op == "or":
            un = False
            for x in c.args[0]:
                r = self.decide(x, depth)
                if r is True: return True
                if r is False: continue
                un = True
            return None if un else False
        if c in self.bools:
            return self.bools[c]
        if op in ("all", "ex"):
            n = b_not(c)
            if n in self.bools:
                return not self.bools[n]
            # empty / trivial range
            e = self.signs_of(psub(c.args[2], c.args[1]))
            if not (1 in e):
                return op == "all"
            r = self.decide(c.args[3], depth + 1) if depth < 2 else None
            if r is True and op == "all": return True
            if r is False and op == "ex": return False
            if op == "ex" and depth < 1:
                # known witness indices
                for k in list(self.quant.get("wit", ())):
                    b = subst(c.args[3], {c.args[0]: k})
                    if self.decide(b, depth + 1) is True and self.in_range(k, c.args[1], c.args[2]):
                        return True
            if op == "all" and depth < 1:
                for k in list(self.quant.get("wit", ())):
                    b = subst(c.args[3], {c.args[0]: k})
                    if self.decide(b, depth + 1) is False and self.in_range(k, c.args[1], c.args[2]):
                        return False
        return self._quant(c, depth)

    def in_range(self, k, lo, hi):
        return self.signs_of(psub(k, lo)) <= frozenset((0, 1)) and self.signs_of(psub(hi, k)) <= frozenset((1,))

    def _quant(self, c, depth):
        """instantiate universally quantified facts at the integer symbols of c"""
        if depth > 1:
            return None
        alls = self.quant.get("all", ())
        if not alls:
            return None
        idx = None
        nc = b_not(c)
        cs = frozenset(x for x in syms(c) if not (len(x.args) > 1 and x.args[1] == "int"))
        for (bv, lo, hi, body) in alls:
            if not cs <= syms(body): continue
            if idx is None:
                idx = set()
                for st in subterms(c):
                    if st.op == "sym" and len(st.args) > 1 and st.args[1] == "int":
                        idx.add(st)
                    if st.op == "at" and (is_int(st.args[1])):
                        idx.add(st.args[1])
            for k in idx:
                qk = (body, bv, k)
                b = QMEMO.get(qk)
                if b is None: b = QMEMO[qk] = subst(body, {bv: k})
                if b is True:
                    continue
                v = None
                if b is c: v = True
                elif not isinstance(b, bool) and b_not(b) is c: v = False
                elif not isinstance(b, bool) and b.op in ("sg", "dom", "kd") and c.op == b.op and b.args[0] is c.args[0]:
                    if b.args[1] <= c.args[1]: v = True
                    elif not (b.args[1] & c.args[1]): v = False
                elif not isinstance(b, bool) and b.op == "or":
                    ds = QKEYS.get(b)
                    if ds is None:
                        ds = QKEYS[b] = frozenset(b.args[0]) | frozenset((x.op, x.args[0]) for x in b.args[0] if x.op in ("sg", "dom", "kd"))
                    if not (c in ds or nc in ds or (c.op in ("sg", "dom", "kd") and (c.op, c.args[0]) in ds)): continue
                    rest = []
                    for x in b.args[0]:
                        if self.decide(x, depth + 1) is False:
                            continue
                        rest.append(x)
                    r = b_or(*rest) if rest else False
                    if r is c: v = True
                    elif not isinstance(r, bool) and b_not(r) is c: v = False
                    elif not isinstance(r, bool) and r.op in ("sg", "dom", "kd") and c.op == r.op and r.args[0] is c.args[0]:
                        if r.args[1] <= c.args[1]: v = True
                        elif not (r.args[1] & c.args[1]): v = False
                if v is not None and self.in_range(k, lo, hi):
                    return v
        return None

    def assume(self, c):
        """record c; False if contradictory"""
        d = self.decide(c)
        if d is True:
            return True
        if d is False:
            return False
        op = c.op
        if op == "and":
            for x in c.args[0]:
                if not self.assume(x):
                    return False
            return True
        if op == "sg":
            p, S = c.args
            known = self.signs.get(p, SGN) & S
            if not known:
                return False
            self.w(self.signs, p, known)
            if is_int(p) or True:
                return self._consistent(p)
            return True
        if op == "dom":
            a = c.args[0]
            known = frozenset(self.dom_of(a)) & c.args[1]
            if not known: return False
            self.w(self.doms, a, known)
            return True
        if op == "kd":
            t = c.args[0]
            while isinstance(t, Term) and t.op == "rel" and isinstance(t.args[0], Term):
                t = t.args[0].args[0]
            known = self.kinds.get(t, KSET) & c.args[1]
            if not known: return False
            self.w(self.kinds, t, known)
            return True
        if op == "not":
            self.w(self.bools, c.args[0], False)
            return True
        if op == "or":
            # unit propagation against what is known
            rest = [x for x in c.args[0] if self.decide(x) is not False]
            if not rest: return False
            if len(rest) == 1: return self.assume(rest[0])
            self.w(self.bools, c, True)
            cl = self.clauses.get("c", ())
            self.w(self.clauses, "c", cl + (c,))
            return True
        self.w(self.bools, c, True)
        if op == "all":
            self.w(self.quant, "all", self.quant.get("all", ()) + (c.args,))
        return True

    def _consistent(self, p):
        # polynomial facts of the same atoms: is any recorded linear fact now impossible?
        if not is_int(p):
            return bool(self._struct(p, 0) & self.signs.get(p, SGN))
        known = self.signs.get(p, SGN)
        r = self._linear(p, known) & self._struct(p, 0)
        return bool(r)
