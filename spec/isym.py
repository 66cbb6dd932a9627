"""Coefficient conversion and univariate reduction, as specified."""
import sympy

def scaled(coefs):
    if len([c for c in coefs if isinstance(c, int)]) + len([c for c in coefs if isinstance(c, sympy.Rational)]) != len(coefs):
        raise Exception("neither integer nor rational")
    f = 1
    for c in coefs:
        if isinstance(c, sympy.Rational):
            f = sympy.lcm(f, c.q)
    return [int(f * c) if isinstance(f * c, sympy.Integer) else f * c for c in coefs]

def convert(poly):
    if isinstance(poly, int):
        if poly == 0:
            return []
        return [poly]
    names = poly.free_symbols
    if len(names) == 0:
        return scaled([poly])
    if len(names) > 1:
        raise Exception("several variables")
    x = names.pop()
    terms = [t.leadterm(x) for t in poly.expand().as_ordered_terms()]
    table = {int(p): c for (c, p) in terms}
    n = int(terms[0][1])
    return scaled([table[i] if i in table else 0 for i in range(n + 1)])

def back(coefs):
    return sum([c * sympy.Symbol('x') ** i for i, c in enumerate(coefs)])

def univariate(relations):
    out = []
    x = sympy.Symbol('x')
    for r in relations:
        d = r.lhs - r.rhs
        out.append(r.__class__(d.subs([(v, x) for v in d.free_symbols]).expand(), 0))
    return out
