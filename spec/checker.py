"""Refutation clauses and their hand-over, as specified."""
import sympy
import isym
import checker

def less(r):
    if isinstance(r, sympy.Ge):
        return sympy.Le(-r.lhs, -r.rhs)
    if isinstance(r, sympy.Gt):
        return sympy.Lt(-r.lhs, -r.rhs)
    return r

def negation(r):
    if isinstance(r, sympy.Ge):
        return sympy.Lt(r.lhs, r.rhs)
    if isinstance(r, sympy.Gt):
        return sympy.Le(r.lhs, r.rhs)
    if isinstance(r, sympy.Le):
        return sympy.Gt(r.lhs, r.rhs)
    if isinstance(r, sympy.Lt):
        return sympy.Ge(r.lhs, r.rhs)
    if isinstance(r, sympy.Eq):
        return sympy.Ne(r.lhs, r.rhs)
    if isinstance(r, sympy.Ne):
        return sympy.Eq(r.lhs, r.rhs)
    raise KeyError(r)

def negations(rs):
    return [negation(r) for r in rs]

def lesses(rs):
    return [less(r) for r in rs]

def clauses(ante, succ):
    a = [r for r in ante if not (r == True)]
    s = [r for r in succ if not (r == True)]
    if len(a) == 0 or len(s) == 0:
        raise Exception("nothing left")
    neg = [less(negation(r)) for r in s]
    return [[less(r) for r in a] + [x] for x in neg]

def by_kind(formula):
    for r in formula:
        if not isinstance(r, (sympy.Le, sympy.Lt, sympy.Eq, sympy.Ne)):
            raise Exception("other kind")
    return {"le": [r.lhs for r in formula if isinstance(r, sympy.Le)],
            "lt": [r.lhs for r in formula if isinstance(r, sympy.Lt)],
            "eq": [r.lhs for r in formula if isinstance(r, sympy.Eq)],
            "ne": [r.lhs for r in formula if isinstance(r, sympy.Ne)]}

def satisfiable(clause, vts):
    m = checker.make_relation_map(clause)
    if vts:
        return isym.vts(m["le"], m["lt"], m["eq"], m["ne"])
    return isym.ts(m["le"], m["lt"], m["eq"], m["ne"])

def report(files, vts):
    out = {}
    for fi, f in enumerate(files):
        if fi > 2:
            break
        for ei, e in enumerate(f):
            ante, succ = e
            bad = False
            for clause in checker.vts_preformat(ante, succ):
                if satisfiable(clause, vts):
                    bad = True
            if bad:
                out[(fi, ei)] = False
    return out
