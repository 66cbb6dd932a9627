"""Univariate decision procedures, as specified: candidate points, and what is required of them."""
import z3rcf
import sympy

def value(poly, point):
    return sum([c * point ** i for i, c in enumerate(poly)])

def sat(point, le, lt, eq, ne):
    for p in le:
        if not value(p, point) <= 0:
            return False
    for p in lt:
        if not value(p, point) < 0:
            return False
    for p in eq:
        if not value(p, point) == 0:
            return False
    for p in ne:
        if not value(p, point) != 0:
            return False
    return True

def ts(le, lt, eq, ne):
    for p in eq + le:
        for r in z3rcf.MkRoots(p):
            if sat(r, le, lt, eq, ne):
                return True
    eps = z3rcf.MkInfinitesimal('eps')
    for p in lt + ne:
        for r in z3rcf.MkRoots(p):
            if sat(r + eps, le, lt, eq, ne):
                return True
    return sat(-1 / eps, le, lt, eq, ne)

def key(poly):
    return tuple([str(c) for c in poly])

def at_root(d, polies, table, single):
    for q in polies:
        if not single(d, q) in table[key(q)]:
            return False
    return True

def vts(le, lt, eq, ne, lookup, describe, single, close):
    table = lookup(le, lt, eq, ne)
    polies = le + lt + eq + ne
    for p in le + eq:
        ds = describe(z3rcf.MkRoots(p), p)
        for d in ds:
            d.origin = p
        for d in ds:
            if at_root(d, polies, table, single):
                return True
    for p in lt + ne:
        ds = describe(z3rcf.MkRoots(p), p)
        for d in ds:
            d.origin = p
        for d in ds:
            if at_root(d, polies, table, close):
                return True
    for q in polies:
        v = q[-1] * (-1) ** ((len(q) - 1) % 2)
        s = -1 if v < 0 else 1 if v > 0 else 0
        if not s in table[key(q)]:
            return False
    return True

def close_sign(d, poly, single, rec, der):
    if poly == []:
        return 0
    s = single(d, poly)
    if s != 0:
        return s
    return rec(d, der(poly))

def accepted(le, lt, eq, ne):
    table = {}
    for p in le + lt + eq + ne:
        table[key(p)] = {-1, 0, 1}
    for p in le:
        table[key(p)] = table[key(p)].intersection({-1, 0})
    for p in lt:
        table[key(p)] = table[key(p)].intersection({-1})
    for p in eq:
        table[key(p)] = table[key(p)].intersection({0})
    for p in ne:
        table[key(p)] = table[key(p)].intersection({-1, 1})
    return table

def srem(f, g, rec):
    if f == []:
        return []
    if g == []:
        raise Exception("division by the zero polynomial")
    if f[-1] == 0:
        return rec(f[:-1], g)
    if len(f) < len(g):
        return f
    a, b = g[-1], f[-1]
    if a < 0:
        a, b = -a, -b
    shifted = [0] * (len(f) - len(g)) + g
    step = [a * c - b * d for c, d in zip(f, shifted)]
    return rec(step[:-1], g)

def remainders(p, q, srem, rec):
    r = srem(p, q)
    if r == []:
        return [p, q]
    return [p] + rec(q, [-c for c in r])

def changes(vs):
    vs = [v for v in vs if v != 0]
    n = 0
    for a, b in zip(vs[:-1], vs[1:]):
        if a * b < 0:
            n += 1
    return n

def cauchy(p, q, seq):
    if q == []:
        return 0
    s = seq(p, q)
    return changes([e[-1] * (-1) ** ((len(e) - 1) % 2) for e in s]) - changes([e[-1] for e in s])

def taq(p, q, cauchy, mul, der):
    return cauchy(p, mul(der(p), q))

def products(polies, powers, mul, rec):
    if polies == []:
        return [[1]]
    rest = rec(polies[1:])
    head = polies[0]
    square = mul(head, head)
    out = []
    for k in powers:
        for q in rest:
            if k == 0:
                out.append(q)
            if k == 1:
                out.append(mul(q, head))
            if k == 2:
                out.append(mul(q, square))
    return out

def pick(polies, d, counts, off):
    shift = 0
    total = 3 ** len(polies)
    for p in polies[:-1]:
        shift += total // 3 ** (polies.index(p) + 1) * off[d.get_sign(p)]
    sign = None
    for s in off:
        n = counts[shift + off[s]]
        if n == 1:
            if sign is not None:
                raise Exception("ambiguous")
            sign = s
        if n not in [0, 1]:
            raise Exception("impossible")
    if sign is None:
        raise Exception("missing")
    return sign

def single(d, goal, inverse, products, taq, pick):
    if goal == d.origin:
        return 0
    polies = d.get_all_polies() + [goal]
    inv = inverse(len(polies))
    column = sympy.Matrix([[taq(d.origin, q)] for q in products(polies)])
    return pick(polies, d, inv * column)

def descriptions(roots, poly, cls, der, val, rec):
    if len(roots) == 0:
        return []
    if len(roots) == 1:
        return [cls(roots[0])]
    d = der(poly)
    zero, pos, neg = [], [], []
    for r in roots:
        v = val(d, r)
        if v > 0:
            pos.append(r)
        elif v < 0:
            neg.append(r)
        else:
            zero.append(r)
    out = []
    if len(zero) > 0:
        ds = rec(zero, d)
        if len(zero) != len(roots):
            for x in ds:
                x.add_zer_poly(d)
        out += ds
    if len(pos) > 0:
        ds = rec(pos, d)
        if len(pos) != len(roots):
            for x in ds:
                x.add_pos_poly(d)
        out += ds
    if len(neg) > 0:
        ds = rec(neg, d)
        if len(neg) != len(roots):
            for x in ds:
                x.add_neg_poly(d)
        out += ds
    return out
