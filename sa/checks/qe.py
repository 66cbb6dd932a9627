"""C14-C16: sign tables of the elimination procedures."""
from ..registry import check
from .qe_common import *
from .qe_common import cell

# ------------------------------------------------------------------ tables
def psign(I, n, pre="", vals=(-1, 0, 1)):
    """sign of a polynomial in the parameters: products of parameters have the product of their signs"""
    p = dec(n)
    if not p.d: return 0
    common = {v: min(dict(m).get(v, 0) for m in p.d) for v in PAR}
    core = MP({tuple((v, e - common.get(v, 0)) for v, e in m if e - common.get(v, 0)): c for m, c in p.d.items()})
    k = 1
    if len(vals) == 3:
        lead = core.d[max(core.d, key=idx)]; k = sgn(lead)
    r = k
    for v, e in common.items():
        if e: r = pmul(r, ppow(cell(I, pre + "sign(%s)" % v, vals), 1 if e % 2 else 2))
    if not core.isconst():
        core = MP({m: c / abs(core.d[max(core.d, key=idx)]) * k for m, c in core.d.items()})
        r = pmul(r, cell(I, pre + "sign(%s)" % repr(core), vals))
    return r
def const_row(I, n, cols, pre="", vals=(-1, 0, 1)):
    """sign of a polynomial without x: the same in every column"""
    s = psign(I, n, pre, vals)
    return {c: s for c in cols}
def free_row(I, n, cols, pre="", vals=(-1, 0, 1)):
    return {c: cell(I, pre + "sign(%s at %s)" % (show_poly(n), c), vals) for c in cols}
def diagram(rows, tup=True):
    """muchnik: rows of (sign, polynomial); otherwise rows of signs"""
    return DictObj([("kv", p, DictObj([("kv", c, TupV([s, p]) if tup else s) for c, s in r.items()])) for p, r in rows.items()], Builtin("dict") if tup else None)

def columns(v):
    """what a sign table says: the columns in order, each with the sign of every row"""
    if not isinstance(v, dict): return v
    cols = sorted({c for r in v.values() for c in r})
    def s(x): return x[0] if isinstance(x, tuple) else x
    return [{p: s(r[c]) if c in r else "missing" for p, r in v.items()} for c in cols]

def between(I, row, left, right, mid, others):
    """sign between two known neighbours; new columns when there is a root"""
    l, r = rd(I, row[left]), rd(I, row[right])
    if l == r == 0: return None
    if l * r < 0: return [(left, mid, l), 0, (mid, right, r)]
    return l or r
def rd(I, v): return numb(I, v)
def is0(I, v): return I.branch(sg(v, (0,))) if isinstance(v, Term) else v == 0

def at_roots(I, p, rows, roots_of, col, lookup, coef):
    """sign of p at a column from the pseudo-remainders by the polynomials vanishing there"""
    out = set()
    for q in roots_of:
        v = lookup(rem(p, q), col)
        if coef is not None and coef(q, col) < 0 and (deg(p) - deg(q) + 1) % 2: v = -v
        out.add(v)
    if len(out) > 1: raise Dead()        # no such real polynomials
    return out.pop()

def proper(I, rows, zs, c):
    """those with a leading coefficient; without it a polynomial agrees with its tail"""
    out = []
    for q in zs:
        if not is0(I, rows[lcrow(q)][c]): out.append(q)
        elif not is0(I, rows[tail(q)][c]) or is0(I, rows[tail(q)][0]): raise Dead()
    if not out: raise Dead()
    return out

REAL = [
    # polynomial added, other polynomials, the polynomial vanishing at each root column, polynomials that vanish identically
    ("a*x+b", [], [], []), ("x+b", [], [], []), ("-x+b", [], [], []), ("-3*x^3+a", [], [], []), ("a*x^2+b", [], [], []),
    ("a*x^2+b*x+c", [], ["2*a*x+b"], []), ("x^2+b*x+c", [], ["2*x+b"], []), ("x^2+b*x+c", [], ["2*x+b"], ["b*x+c"]), ("a*x^2+c", [], ["2*a*x"], []),
    ("-x^2+c", ["x+a"], ["x+a"], []), ("-x^2+c", ["-x+a"], ["-x+a"], []), ("x^2+b", ["a*x+1"], ["a*x+1"], []), ("x^3+b", ["a*x+1"], ["a*x+1"], []), ("a*x+1", ["b*x+c"], ["b*x+c"], []),
    ("x^2+b", ["a*x+1"], ["2*x", "a*x+1"], []), ("x^2+b", ["a*x+1"], ["a*x+1", "2*x"], []), ("x^3+a*x", ["x+b"], ["x+b", "3*x^2+a"], []), ("x^3+b", ["a*x+1"], ["a*x+1", "3*x^2", "a*x+1"], []),
    ("x^3+a", ["b*x^2+1"], ["b*x^2+1"], []),
    ("-x^2+c", ["-x+a", "x-a"], [("-x+a", "x-a")], []), ("x^2+c", ["-x+a", "-2*x+2*a", "-3*x+3*a"], [("-x+a", "-2*x+2*a", "-3*x+3*a")], []), ("-x^3+c", ["-x+a", "-2*x+2*a", "-3*x+3*a"], [("-x+a", "-2*x+2*a", "-3*x+3*a")], []),
    ("x^2+c", ["x+a", "2*x+2*a", "b*x+a*b"], [("x+a", "2*x+2*a", "b*x+a*b")], []),
]
def muchnik_rows(I, p, others, zs, gone, vals=(-1, 0, 1), real=True):
    """table of everything the polynomial needs, without its own row: parameter signs and the signs at roots of others are unknown"""
    need = closure([p] + others); n = 2 * len(zs) + 3 if real else len(zs) + 1
    cols = [0] + [k / (n - 1) for k in range(1, n - 1)] + [1.0] if real else list(range(n))
    roots = {cols[2 * k + 2 if real else k + 1]: q if isinstance(q, list) else [q] for k, q in enumerate(zs)}
    rows = {}
    for j, q in enumerate(need):
        if q == p or deg(q) > deg(p) or (deg(q) == deg(p) and q not in others): continue
        if isconst(q): rows[q] = const_row(I, q, cols, vals=vals); continue
        if q in gone: rows[q] = {c: 0 for c in cols}; continue
        rows[q] = {}
        for k, c in enumerate(cols):
            if q in roots.get(c, ()): v = 0
            elif c in roots and (any(q == rem(p, z) for z in roots[c]) or not real and deg(q) < deg(p)): v = cell(I, "sign(%s at %s)" % (show_poly(q), c), vals)
            else: v = cell(I, "sign(%s at %s)" % (show_poly(q), c), (-1, 1)) if real else 1
            rows[q][c] = v
    return rows, cols

def lcrow(q): return lc(q) * fac(deg(q))
def real_spec(I, p, rows, cols):
    rows = {q: dict(r) for q, r in rows.items()}
    s = rd(I, rows[lcrow(p)][cols[0]])
    if s == 0:
        rows[p] = dict(rows[tail(p)]); return rows
    row = {cols[0]: s * (-1) ** deg(p), cols[-1]: s}
    inner = cols[1:-1]
    open_ = []
    for k, c in enumerate(inner):
        zs = [q for q in rows if not isconst(q) and is0(I, rows[q][c]) and not is0(I, rows[q][cols[0]])]
        if bool(zs) != (k % 2 == 1): raise Dead()       # tables alternate between roots and points between roots
        if zs:
            zs = proper(I, rows, zs, c)
            row[c] = at_roots(I, p, rows, zs, c, lambda r, c: rd(I, rows[r][c]), lambda q, c: rd(I, rows[lcrow(q)][c]))
        else: open_.append((k, c))
    for k, c in open_:
        l, r = cols[k], cols[k + 2]
        b = between(I, row, l, r, c, rows)
        if b is None: raise RaiseX("DiagramExc", None, None)
        if isinstance(b, list):
            x, y = (l + c) / 2, (c + r) / 2
            row[x], row[c], row[y] = b[0][2], 0, b[2][2]
            for q in rows: rows[q][x] = rows[q][y] = rows[q][c]
        else: row[c] = b
    rows[p] = row
    return rows

def todict(rows): return DictObj([("kv", p, DictObj([("kv", c, s) for c, s in r.items()])) for p, r in rows.items()])

@check("C16")
def c16_real(ctx):
    for text, others, zs, gone in REAL:
        I, m = machine(ctx, "muchnik", "Muchniker", deadline=60)
        f = m and m.cls.find("real_extend")
        if not isinstance(f, FuncVal): return ctx.missing("highschool_qe/muchnik.py:Muchniker.real_extend")
        p = poly(text); st = {}
        rows, cols = muchnik_rows(I, p, [poly(t) for t in others], [[poly(t) for t in ((z,) if isinstance(z, str) else z)] for z in zs], [poly(t) for t in gone])
        def setup(): return rows
        joint(ctx, I, "real table extended by %s; known roots: %s%s" % (text, ", ".join(z if isinstance(z, str) else " = ".join(z) for z in zs) or "none", "; vanishing: " + ", ".join(gone) if gone else ""), floc(f), setup,
              lambda r: I.call(Bound(m, "real_extend", f), [diagram(r), ListObj([One(p)])]), lambda r: todict(real_spec(I, p, r, cols)), columns, show="%s added to %s" % (text, ", ".join(map(show_poly, rows))))

WHOLE = [["a*x+b"], ["a*x^2+b"], ["x^2+a*x+b"], ["a*x+1", "x+b"], ["-x^2+a"], ["x^2-1", "x+a"], ["x^3+a"], ["a*x^2+b*x+1"]]
@check("C16")
def c16_real_whole(ctx):
    for ps in WHOLE:
        I, m = machine(ctx, "muchnik", "Muchniker", deadline=60)
        f = m and m.cls.find("real_extend")
        if not isinstance(f, FuncVal): return ctx.missing("highschool_qe/muchnik.py:Muchniker.real_extend")
        need = closure([poly(t) for t in ps])
        cols = [0, 0.5, 1.0]
        def setup(): return {q: const_row(I, q, cols) for q in need if isconst(q)}
        todo = [q for q in need if not isconst(q)]
        def spec(rows):
            for p in todo: rows = real_spec(I, p, rows, sorted(rows[0]))
            return todict(rows)
        joint(ctx, I, "real table of %s built from the signs of its parameters" % ", ".join(ps), floc(f), setup,
              lambda r: I.call(Bound(m, "real_extend", f), [diagram(r), ListObj([One(p) for p in todo])]), spec, columns, limit=20000, show="polynomials %s" % ", ".join(map(show_poly, need)))

# ------------------------------------------------------------------ complex tables
def ccolumns(v):
    """generic column first, then the root columns in any order"""
    if not isinstance(v, dict): return v
    cols = columns(v)
    return [cols[0], sorted(cols[1:], key=lambda c: [(p, str(v)) for p, v in sorted(c.items())])] if cols else cols
def complex_spec(I, p, rows, cols):
    rows = {q: dict(r) for q, r in rows.items()}
    if is0(I, rows[lcrow(p)][0]):
        rows[p] = dict(rows[tail(p)]); return rows
    row = {0: 1}; found = 0
    for c in cols[1:]:
        zs = [q for q in rows if not isconst(q) and is0(I, rows[q][c]) and not is0(I, rows[q][0])]
        zs = proper(I, rows, zs, c)
        row[c] = at_roots(I, p, rows, zs, c, lambda r, c: rd(I, rows[r][c]), None)
        if row[c] == 0:
            d = p; found += 1
            for k in range(deg(p)):
                d = diff(d)
                if not is0(I, rows[d][c]): break
                found += 1
    if found > deg(p): raise Dead()
    for k in range(deg(p) - found):
        for q in rows: rows[q][len(cols) + k] = 0 if is0(I, rows[q][0]) else 1
        row[len(cols) + k] = 0
    rows[p] = row
    return rows

COMPLEX = [("a*x+b", [], [], []), ("a*x^2+b", [], [], []), ("x^2+b*x+c", [], ["2*x+b"], []), ("a*x^2+b*x+c", [], ["2*a*x+b"], []), ("a*x^2+c", [], ["2*a*x"], []), ("x^2+b", ["a*x+1"], ["a*x+1", "2*x"], []),
           ("x^3+a", ["x+b"], ["x+b", "3*x^2"], []), ("x^2+b*x+c", [], ["2*x+b"], ["b*x+c"]), ("a*x+1", ["b*x+c"], ["b*x+c"], []), ("x^2+a", ["x+b"], ["x+b", "x+b"], [])]
@check("C16")
def c16_complex(ctx):
    for text, others, zs, gone in COMPLEX:
        I, m = machine(ctx, "muchnik", "Muchniker", deadline=60)
        f = m and m.cls.find("complex_extend")
        if not isinstance(f, FuncVal): return ctx.missing("highschool_qe/muchnik.py:Muchniker.complex_extend")
        p = poly(text)
        rows, cols = muchnik_rows(I, p, [poly(t) for t in others], [poly(t) for t in zs], [poly(t) for t in gone], vals=(0, 1), real=False)
        joint(ctx, I, "complex table extended by %s; known roots: %s%s" % (text, ", ".join(zs) or "none", "; vanishing: " + ", ".join(gone) if gone else ""), floc(f), lambda: rows,
              lambda r: I.call(Bound(m, "complex_extend", f), [diagram(r), ListObj([One(p)])]), lambda r: todict(complex_spec(I, p, r, cols)), ccolumns, show="%s added to %s" % (text, ", ".join(map(show_poly, rows))))
    for ps in WHOLE:
        I, m = machine(ctx, "muchnik", "Muchniker", deadline=60)
        f = m.cls.find("complex_extend")
        need = closure([poly(t) for t in ps]); todo = [q for q in need if not isconst(q)]
        def spec(rows):
            for p in todo: rows = complex_spec(I, p, rows, sorted(rows[0]))
            return todict(rows)
        joint(ctx, I, "complex table of %s built from its parameters" % ", ".join(ps), floc(f), lambda: {q: const_row(I, q, [0], vals=(0, 1)) for q in need if isconst(q)},
              lambda r: I.call(Bound(m, "complex_extend", f), [diagram(r), ListObj([One(p) for p in todo])]), spec, ccolumns, limit=20000, show="polynomials %s" % ", ".join(map(show_poly, need)))

# ------------------------------------------------------------------ Cohen-Hoermander tables
F = Fraction
def segrow(I, q, cols, roots, tag=""):
    """signs of a polynomial with the given roots: one unknown sign on each interval between its roots"""
    row = {}; seg = 0
    for c in cols:
        if c in roots: row[c] = 0; seg += 1
        else: row[c] = cell(I, "%ssign(%s, interval %d)" % (tag, show_poly(q), seg), (-1, 1))
    return row
def ch_input(I, p, pols, zs, drop=()):
    """table over pols and the remainders of p, and the context; zs: polynomial vanishing at each root column"""
    n = 2 * len(zs) + 3
    cols = [F(k, n - 1) for k in range(n)]
    roots = {q: [cols[2 * k + 2] for k, z in enumerate(zs) if z == q] for q in zs}
    rows = {}; con = {}
    rems = [rem(p, q) for q in pols if deg(q) > 0]
    for q in list(pols) + rems + list(zs):
        if q == 0 or q in rows or deg(q) < 0: continue
        if isconst(q): rows[q] = {c: psign(I, q) for c in cols}
        elif q in pols or q in zs and q not in rems: rows[q] = segrow(I, q, cols, roots.get(q, []))
        else: rows[q] = {c: 0 if c in roots.get(q, ()) else cell(I, "sign(%s at %s)" % (show_poly(q), c)) for c in cols}
    for q in [p] + list(pols) + rems:
        for k in [lc(q)] + ([q] if isconst(q) else []):
            if hasvar(k): con[k] = psign(I, k)
    return rows, cols, con, roots
def ch_value(I, n, rows, c, con):
    if deg(n) > 0: return rows[n][c]
    return psign(I, n)
def condensed(I, rows, cols, keep, con):
    """columns of the table when only these rows are kept: roots, one point between neighbours, both infinities"""
    rts = [c for k, c in enumerate(cols) if 0 < k < len(cols) - 1 and any(deg(q) > 0 and is0(I, rows[q][c]) and not is0(I, rows[q][cols[0]]) for q in keep)]
    out = [cols[0], cols[1]]
    for c in rts: out += [c, cols[cols.index(c) + 1]]
    out.append(cols[-1])
    return out, rts
def ch_spec(I, m, p, pols, rows, cols, con):
    s = rd(I, psign(I, lc(p)))
    if deg(p) > 0 and s == 0: raise Dead()
    cs, rts = condensed(I, rows, cols, pols, con)
    out = {q: {c: ch_value(I, q, rows, c if k != 1 else cols[0], con) for k, c in enumerate(cs)} for q in pols}
    row = {cs[0]: s * (-1) ** max(deg(p), 0), cs[-1]: s}
    if deg(p) == 0:
        out[p] = {c: s for c in cs}; return out
    for c in rts:
        zs = [q for q in pols if deg(q) > 0 and is0(I, rows[q][c]) and not is0(I, rows[q][cols[0]])]
        if any(is0(I, psign(I, lc(q))) for q in zs): raise Dead()
        row[c] = at_roots(I, p, rows, zs, c, lambda r, c: rd(I, ch_value(I, r, rows, c, con)), lambda q, c: rd(I, psign(I, lc(q))))
    for k, c in enumerate(cs):
        if c in row: continue
        b = between(I, row, cs[k - 1], cs[k + 1], c, rows)
        if b is None: return I.getattr(m, "BOTTOM")
        if isinstance(b, list):
            x, y = (cs[k - 1] + c) / 2, (c + cs[k + 1]) / 2
            row[x], row[c], row[y] = b[0][2], 0, b[2][2]
            for q in out: out[q][x] = out[q][y] = out[q][c]
        else: row[c] = b
    out[p] = row
    return out

def todict_(v): return todict(v) if isinstance(v, dict) else v
def context(con): return DictObj([("kv", k, v) for k, v in con.items()])
CH = [
    # polynomial added, kept rows, roots of the table
    ("a*x+b", ["a"], []), ("x+b", ["1"], []), ("-2*x+b", ["0", "-2"], []), ("b", ["a"], []), ("b", ["x+a"], ["x+a"]), ("-3", ["x+a", "c"], ["x+a"]),
    ("x^2+b*x+c", ["2*x+b"], ["2*x+b"]), ("a*x^2+c", ["2*a*x"], ["2*a*x"]), ("x^2+c", ["-x+a"], ["-x+a"]), ("-x^2+c", ["a*x+1"], ["a*x+1"]), ("x^3+b", ["a*x+1"], ["a*x+1"]), ("a*x+1", ["b*x+c"], ["b*x+c"]), ("-a*x+1", ["b", "-x+c"], ["-x+c"]),
    ("x^2+b", ["a*x+1", "2*x"], ["a*x+1", "2*x"]), ("x^2+b", ["2*x", "a*x+1"], ["a*x+1", "2*x"]), ("x^3+b", ["a*x+1", "3*x^2"], ["a*x+1", "3*x^2", "a*x+1"]),
    ("x^3+a*x", ["3*x^2+a"], ["3*x^2+a", "6*a*x", "3*x^2+a"]), ("x^3+a", ["b*x^2+1"], ["-1*b*x+a*b^2", "b*x^2+1"]), ("x^2+b", ["a*x+1", "0", "2"], ["x+c", "a*x+1", "x+c"]),
]
@check("C16")
def c16_single(ctx):
    for text, pols, zs in CH:
        I, m = machine(ctx, "cohenhorm", "CohenHormander", deadline=60)
        f = m and m.cls.find("extend_single_table")
        if not isinstance(f, FuncVal): return ctx.missing("highschool_qe/cohenhorm.py:CohenHormander.extend_single_table")
        p = poly(text); ps = [poly(t) for t in pols]
        rows, cols, con, roots = ch_input(I, p, ps, [poly(t) for t in zs])
        joint(ctx, I, "single table over %s (roots: %s) extended by %s" % (", ".join(pols), ", ".join(zs) or "none", text), floc(f), lambda: None,
              lambda _: I.call(Bound(m, "extend_single_table", f), [todict(rows), context(con), p, ListObj([One(q) for q in ps])]),
              lambda _: todict_(ch_spec(I, m, p, ps, rows, cols, con)), columns, show="%s added to %s" % (text, ", ".join(map(show_poly, rows))))

COPY = [(["x+a"], ["x+a"], ["x+a", "x+b"]), (["x+a", "x+b"], ["x+a", "x+b"], ["x+b", "x+a", "x+b"]), (["x+a"], ["x+a", "x+b", "a*x+c"], ["x+b", "x+a", "x+b", "a*x+c"]), (["x+b", "c", "-2"], ["x+b", "x+a"], ["x+a", "x+b", "x+a"]), (["a"], ["x+b"], ["x+b"]), (["x^2+a"], ["x^2+a", "x"], ["x^2+a", "x", "x^2+a"]), (["x+a"], ["x+a"], [])]
@check("C16")
def c16_copy(ctx):
    for keep, have, zs in COPY:
        for order in (0, 1):
            I, m = machine(ctx, "cohenhorm", "CohenHormander")
            f = m and m.cls.find("copy_table")
            if not isinstance(f, FuncVal): return ctx.missing("highschool_qe/cohenhorm.py:CohenHormander.copy_table")
            ks = [poly(t) for t in keep]; hs = [poly(t) for t in have][::-1 if order else 1]; z = [poly(t) for t in zs]
            n = 2 * len(z) + 3; cols = [F(k, n - 1) for k in range(n)]
            rows = {q: segrow(I, q, cols, [cols[2 * k + 2] for k, y in enumerate(z) if y == q]) for q in hs}
            con = {q: psign(I, q) for q in ks if isconst(q) and hasvar(q)}
            def spec(_):
                cs, rts = condensed(I, rows, cols, [q for q in ks if q in rows], con)
                return todict({q: {c: ch_value(I, q, rows, c, con) for c in cs} for q in ks})
            joint(ctx, I, "table over %s (roots: %s) reduced to %s" % (", ".join(have), ", ".join(zs), ", ".join(keep)), floc(f), lambda: None,
                  lambda _: I.call(Bound(m, "copy_table", f), [todict(rows), ListObj([One(q) for q in ks]), context(con)]), spec, columns, show="rows %s" % ", ".join(map(show_poly, rows)))

def sound_ext(I, m, p, pols, rows, cols, con): return ch_spec(I, m, p, pols, rows, cols, con)
@check("C16")
def c16_vanishing(ctx):
    """the leading coefficient of the added polynomial is zero in the context"""
    rule = "a polynomial whose leading coefficient vanishes gets the signs of its tail (Cohen-Hoermander)"
    I, m = machine(ctx, "cohenhorm", "CohenHormander")
    f = m and m.cls.find("extend_single_table")
    if not isinstance(f, FuncVal): return ctx.missing("highschool_qe/cohenhorm.py:CohenHormander.extend_single_table")
    p, q, A, Bp = poly("a*x+b"), poly("x+c"), poly("a"), poly("b")
    cols = [F(k, 4) for k in range(5)]
    rows = {q: segrow(I, q, cols, [cols[2]]), rem(p, q): {c: cell(I, "sign(%s)" % show_poly(rem(p, q))) for c in cols}}
    sb = psign(I, Bp)
    con = {A: 0, Bp: sb, rem(p, q): sb}
    joint(ctx, I, rule, floc(f), lambda: None, lambda _: I.call(Bound(m, "extend_single_table", f), [todict(rows), context(con), p, ListObj([One(q)])]),
          lambda _: todict({q: dict(rows[q]), p: {c: sb for c in cols}}), columns, show="a*x + b with a = 0 added to x + c")

# ------------------------------------------------------------------ C14: splitting
def marks(I, ds):
    """every branch is written to; what each then holds"""
    for k, d in enumerate(ds):
        rows = [e[2] for e in d.f["ents"] if e[0] == "kv"]
        for r in rows:
            if isinstance(r, DictObj): I.setitem(r, "mark", k, None)
        I.setitem(d, "mark", k, None)
def elems(v):
    if not isinstance(v, ListObj) or not all(s[0] == "one" for s in v.f["segs"]): raise Und("list of cases")
    return [s[1] for s in v.f["segs"]]
SPLIT = [[], ["a"], ["a", "b"], ["a*b+1", "c", "a^2"]]
@check("C14")
def c14_full(ctx):
    for name, vals, cols in (("_c_full_assignment", (0, 1), (0,)), ("_r_full_assignment", (-1, 0, 1), (0, 0.5, 1.0))):
        for start in (1, 2):
            for texts in SPLIT:
                I, m = machine(ctx, "muchnik", "Muchniker")
                f = m and m.cls.find(name)
                if not isinstance(f, FuncVal): return ctx.missing("highschool_qe/muchnik.py:Muchniker.%s" % name)
                ps = [poly(t) for t in texts]
                base = [{q: {c: cell(I, "case %d sign(%s)" % (k, q), vals) for c in cols} for q in (0, 2)} for k in range(start)]
                def out(ds): return sorted(({(p, c): (e[0] if isinstance(e, tuple) else e) for p, r in d.items() if isinstance(r, dict) for c, e in r.items() if c != "mark"} for d in ds), key=repr_)
                def repr_(d): return sorted((show_poly(p), str(c), str(v)) for (p, c), v in d.items())
                where = floc(f); arg = lambda: [ListObj([One(diagram(b)) for b in base]), ListObj([One(p) for p in ps])]
                def spec(_):
                    res = []
                    for b in base:
                        for vs in itertools.product(vals, repeat=len(ps)):
                            d = {q: dict(r) for q, r in b.items()}
                            for p, v in zip(ps, vs): d[p] = {c: v for c in cols}
                            res.append(diagram(d))
                    return ListObj([One(d) for d in res])
                joint(ctx, I, "%s over %d parameter coefficients, %d tables: every combination of signs once" % (name, len(ps), start), where, lambda: None, lambda _: I.call(Bound(m, name, f), arg()), spec, out, show=", ".join(texts))
                if not ps: continue
                def apart(_):
                    ds = elems(I.call(Bound(m, name, f), arg())); marks(I, ds)
                    return ListObj([One(d) for d in ds])
                def seen(ds): return [all(r == k if p == "mark" else r.get("mark") == k for p, r in d.items()) for k, d in enumerate(ds)]
                joint(ctx, I, "%s over %d parameter coefficients, %d tables: writing to one case changes no other" % (name, len(ps), start), where, lambda: None, apart,
                      lambda _: ListObj([One(DictObj([("kv", "mark", k)])) for k in range(start * len(vals) ** len(ps))]), seen, show=", ".join(texts))
@check("C14")
def c14_copy(ctx):
    I, m = machine(ctx, "muchnik", "Muchniker")
    f = m and m.cls.find("_diagram_copy")
    if not isinstance(f, FuncVal): return
    rows = {p: {c: cell(I, "sign(%s at %s)" % (p, c)) for c in (0, 0.5, 1.0)} for p in (0, 3, poly("a"))}
    def impl(_):
        d = diagram(rows); e = I.call(Bound(m, "_diagram_copy", f), [d]); e2 = I.call(Bound(m, "_diagram_copy", f), [d])
        keep = [I.freeze(d), I.freeze(e2)]
        # extension writes rows and entries, and looks rows up before they exist
        I.setitem(I.index(e, 3), 0.25, TupV([0, 3]), None); I.setitem(I.index(e, poly("b")), 0, TupV([1, poly("b")]), None)
        return TupV([d, e2, e])
    def spec(_):
        d = diagram(rows); e2 = diagram(rows); e = diagram(dict(rows, **{}) )
        r = {p: dict(x) for p, x in rows.items()}; r[3][0.25] = 0; r[poly("b")] = {0: 1}
        return TupV([d, e2, diagram(r)])
    joint(ctx, I, "a copied table has the same entries and is written to on its own", floc(f), lambda: None, impl, spec, lambda v: [columns_(x) for x in v], show="three rows")
def columns_(v): return {p: {c: x[0] for c, x in r.items()} for p, r in v.items()} if isinstance(v, dict) else v

# --- leading coefficients
def expand(con, polies):
    """all cases: (context, reduced polynomial of each)"""
    out = [(dict(con), {})]
    for p in polies:
        new = []
        for c, mp in out:
            q = p; todo = [(c, p)]
            while todo:
                k, q = todo.pop(0); l = lc(q)
                if not hasvar(l): new.append((k, dict(mp, **{}) | {p: q})); continue
                for s in ((k[l],) if l in k else (-1, 0, 1)):
                    k2 = dict(k); k2[l] = s
                    if s: new.append((k2, mp | {p: q}))
                    else: todo.append((k2, tail(q)))
        out = new
    return out
def cases(v):
    """contexts with the polynomials that remain and what each polynomial became"""
    if not isinstance(v, list): return v
    return sorted(([sorted((show_poly(k), s) for k, s in c.items()), sorted(show_poly(p) for p in set(ps)), sorted((show_poly(k), show_poly(x)) for k, x in mp.items())] for c, ps, mp in v), key=repr)
EXPAND = [([], {}), (["2"], {}), (["x+a"], {}), (["a*x+b"], {}), (["a*x+b"], {"a": 0}), (["a*x+b"], {"a": -1}), (["a*x+b"], {"b": 1}), (["a*x^2+b*x+c"], {}), (["a*x^2+b*x+1"], {}), (["a*x+b", "c"], {}), (["c", "a*x+b"], {}), (["a*x+1", "b*x+a"], {}),
          (["a*x^2+x", "a*x+b", "3"], {}), (["a*x+b", "a*x+c"], {}), (["x", "a*x", "b"], {"b": 0}), (["a*x+b", "b", "x+1"], {}), (["0", "a"], {})]
@check("C14")
def c14_expand(ctx):
    for texts, con in EXPAND:
        I, m = machine(ctx, "cohenhorm", "CohenHormander")
        f = m and m.cls.find("expand_context")
        if not isinstance(f, FuncVal): return ctx.missing("highschool_qe/cohenhorm.py:CohenHormander.expand_context")
        ps = [poly(t) for t in texts]; cn = {poly(k): v for k, v in con.items()}
        def view(v):
            return cases([(c, x, {k: y for k, y in mp.items() if k in ps}) for c, x, mp in v]) if isinstance(v, list) else v
        def impl(_): return I.call(Bound(m, "expand_context", f), [context(cn), ListObj([One(p) for p in ps]), DictObj([])])
        def spec(_): return ListObj([One(TupV([context(c), ListObj([One(q) for q in mp.values()]), DictObj([("kv", k, y) for k, y in mp.items()])])) for c, mp in expand(cn, ps)])
        tag = "%s%s" % (", ".join(texts) or "nothing", " knowing %s" % con if con else "")
        joint(ctx, I, "cases for the leading coefficients of %s: every sign once, known signs kept" % tag, floc(f), lambda: None, impl, spec, view, show=tag)
        def apart(_):
            r = elems(impl(None))
            for k, t in enumerate(r): I.setitem(t.items[0], "mark", k, None); I.list_append(t.items[1], k + 100)
            return ListObj([One(t) for t in r])
        joint(ctx, I, "cases for the leading coefficients of %s do not share contexts" % tag, floc(f), lambda: None, apart, lambda _: ListObj([One(TupV([DictObj([("kv", "mark", k)]), ListObj([One(k + 100)]), DictObj([])])) for k in range(len(expand(cn, ps)))]),
              lambda v: [(c.get("mark"), [x for x in ps_ if 100 <= x < 10000]) for c, ps_, mp in v], show=tag)

INITIAL = [("5", {}), ("-2", {}), ("0", {}), ("a", {}), ("a", {"a": -1}), ("a", {"a": 0, "b": 1}), ("a", {"b": 1}), ("a*b+1", {"a": 1})]
@check("C14")
def c14_initial(ctx):
    for text, con in INITIAL:
        I, m = machine(ctx, "cohenhorm", "CohenHormander")
        f = m and m.cls.find("get_initial_table")
        if not isinstance(f, FuncVal): return ctx.missing("highschool_qe/cohenhorm.py:CohenHormander.get_initial_table")
        p = poly(text); cn = {poly(k): v for k, v in con.items()}
        def impl(_): return I.call(Bound(m, "get_initial_table", f), [p, context(cn)])
        def spec(_):
            ss = [sgn(p)] if not hasvar(p) else [cn[p]] if p in cn else [-1, 0, 1]
            return ListObj([One(TupV([todict({p: {F(0): s, F(1, 2): s, F(1): s}}), context(dict(cn, **{}) | ({p: s} if hasvar(p) else {}))])) for s in ss])
        def view(v): return sorted(([columns(t), sorted((show_poly(k), s) for k, s in c.items())] for t, c in v), key=repr) if isinstance(v, list) else v
        tag = text + (" knowing %s" % con if con else "")
        joint(ctx, I, "table of the constant %s: one case for each possible sign" % tag, floc(f), lambda: None, impl, spec, view, show=tag)
        n = 3 if hasvar(p) and p not in cn else 1
        def apart(_):
            r = elems(impl(None))
            for k, t in enumerate(r):
                I.setitem(t.items[1], "mark", k, None); I.setitem(t.items[0], "mark", k, None)
            return ListObj([One(TupV([I.index(t.items[0], "mark"), I.index(t.items[1], "mark")])) for t in r])
        joint(ctx, I, "cases of the constant %s do not share tables or contexts" % tag, floc(f), lambda: None, apart, lambda _: ListObj([One(TupV([k, k])) for k in range(n)]), lambda v: v, show=tag)

# ------------------------------------------------------------------ one step of the Cohen-Hoermander recursion
STEP = [["a", "b"], ["a", "b", "c"], ["x+a"], ["x^2+a*x+b"], ["x+a", "x^2-1"], ["x+a", "b"], ["x^3+a", "x"], ["a*b+1", "x+c"], ["a", "2"], ["x+b", "-x^2+a", "4"]]
# with some signs fixed beforehand
KNOWN = [(["a", "2"], {"a": 0}), (["a", "b"], {"a": -1}), (["a", "b"], {"a": 0}), (["a", "b"], {"b": 0}), (["a", "b"], {"a": 0, "b": 1}), (["a", "b", "3"], {"c": 0}), (["x+a", "b"], {"b": 0}), (["a*x+b"], {"a": 1}), (["x^2+a*x+b"], {"a": 0}), (["b*x^2+a"], {"b": -1, "a": 0})]
def stub_table(I, goal, con):
    """some table for the goal in the context; constants that are not known yet are added to the context"""
    goal = sorted(set(goal), key=lambda q: (deg(q), show_poly(q)))
    con = dict(con); tag = "[%s] " % ", ".join("%s:%s" % (show_poly(k), v) for k, v in sorted(con.items(), key=lambda z: show_poly(z[0])) if not isinstance(v, Term))
    nc = [q for q in goal if deg(q) > 0]
    n = 2 * len(nc) + 3; cols = [F(k, n - 1) for k in range(n)]
    rows = {}
    for q in goal:
        if isconst(q):
            if hasvar(q) and q not in con: con[q] = cell(I, tag + "sign(%s)" % show_poly(q))
            rows[q] = {c: con[q] if hasvar(q) else sgn(q) for c in cols}
        else: rows[q] = segrow(I, q, cols, [cols[2 * nc.index(q) + 2]], tag)
    return rows, cols, con
def step_spec(I, m, polys, con):
    top = max(deg(p) for p in polys)
    p = [q for q in polys if deg(q) == top][0]
    need = [q for q in polys if q != p] + ([diff(p)] if diff(p) != 0 else [])
    res = []
    for c, mp in expand(con, need):
        pols = list(mp.values())
        goal = [q for q in pols + [rem(p, q) for q in pols if deg(q) > 0] if q != 0]
        if goal: rows, cols, c2 = stub_table(I, goal, c)
        else: rows, cols, c2 = {}, [F(0), F(1, 2), F(1)], dict(c)   # everything vanished, which is a case like any other
        l = lc(p)
        more = [c2]
        if deg(p) == 0 and hasvar(l) and l not in c2: more = [dict(c2) | {l: s} for s in (-1, 0, 1)]
        for c3 in more:
            def val(n): return c3[n] if hasvar(n) else sgn(n)
            t = ch_ext(I, m, p, pols, rows, cols, val)
            if not isinstance(t, dict): continue
            for q in need:
                if q not in t: t[q] = t[mp[q]]
            # only the roots of the polynomials asked for
            cs = sorted(t[p]); keep = {q: t[q] for q in polys}
            res.append((keep, c3))
    return res
def ch_ext(I, m, p, pols, rows, cols, val):
    def look(n, c): return rd(I, rows[n][c] if deg(n) > 0 else val(n))
    s = rd(I, val(lc(p)))
    if deg(p) > 0 and s == 0: raise Und("vanishing leading coefficient")
    rts = [c for k, c in enumerate(cols) if 0 < k < len(cols) - 1 and any(deg(q) > 0 and is0(I, rows[q][c]) for q in pols)]
    cs = [cols[0], cols[1]]
    for c in rts: cs += [c, cols[cols.index(c) + 1]]
    cs.append(cols[-1])
    out = {q: {c: look(q, c if k != 1 else cols[0]) for k, c in enumerate(cs)} for q in pols}
    if deg(p) == 0: out[p] = {c: s for c in cs}; return out
    row = {cs[0]: s * (-1) ** deg(p), cs[-1]: s}
    for c in rts:
        vs = set()
        for q in pols:
            if deg(q) > 0 and is0(I, rows[q][c]):
                v = look(rem(p, q), c)
                if rd(I, val(lc(q))) < 0 and (deg(p) - deg(q) + 1) % 2: v = -v
                vs.add(v)
        if len(vs) > 1: raise Dead()
        row[c] = vs.pop()
    for k, c in enumerate(cs):
        if c in row: continue
        b = between(I, row, cs[k - 1], cs[k + 1], c, rows)
        if b is None: return None
        if isinstance(b, list):
            x, y = (cs[k - 1] + c) / 2, (c + cs[k + 1]) / 2
            row[x], row[c], row[y] = b[0][2], 0, b[2][2]
            for q in out: out[q][x] = out[q][y] = out[q][c]
        else: row[c] = b
    out[p] = row
    return out
def reduced(t):
    """columns of a table that matter: roots of its rows and one point between"""
    cs = columns(t)
    if not cs: return cs
    live = [p for p in cs[0] if cs[0][p] != 0 and deg(p) > 0]
    out = [cs[0]]; pend = None
    for c in cs[1:-1]:
        if any(c[p] == 0 for p in live):
            if pend is not None: out.append(pend)
            pend = None; out.append(c)
        else: pend = c
    if pend is not None: out.append(pend)
    return out + [cs[-1]]

@check("C14")
def c14_step(ctx):
    for texts in STEP + KNOWN:
        given = {}
        if isinstance(texts, tuple): texts, given = texts[0], {poly(k): v for k, v in texts[1].items()}
        polys = [poly(t) for t in texts]
        def rec(I, f, args, kw, node):
            if I.S.get("once", 0) == 0: I.w(I.S, "once", 1); return NotImplemented
            try: goal = [q for q in plain(I, args[1])]; con = plain(I, args[2])
            except (Und, TypeError, IndexError): raise Und("recursive call", node)
            rows, cols, c2 = stub_table(I, goal, con)
            return ListObj([One(TupV([todict(rows), context(c2)]))])
        I, m = machine(ctx, "cohenhorm", "CohenHormander", {"fn:cohenhorm.CohenHormander._real_table": rec}, deadline=60)
        f = m and m.cls.find("_real_table")
        if not isinstance(f, FuncVal): return ctx.missing("highschool_qe/cohenhorm.py:CohenHormander._real_table")
        def impl(_):
            try: return I.call(Bound(m, "_real_table", f), [ListObj([One(p) for p in polys]), context(given)])
            finally: I.w(I.S, "once", 0)
        def spec(_): return ListObj([One(TupV([todict(t), context(c)])) for t, c in step_spec(I, m, polys, given)])
        def view(v):
            return sorted(([[sorted((show_poly(p), str(s)) for p, s in c.items()) for c in reduced(t)], sorted((show_poly(k), str(s)) for k, s in c.items())] for t, c in v), key=repr) if isinstance(v, list) else v
        tag = ", ".join(texts) + "".join(" with %s %s" % (show_poly(k), {-1: "< 0", 0: "= 0", 1: "> 0"}[v]) for k, v in given.items())
        joint(ctx, I, "one step of the recursion over %s: every case once, rows of the polynomials asked for" % tag, floc(f), lambda: None, impl, spec, view, limit=9000, show=tag)

# ------------------------------------------------------------------ C15: which cases are answered, and where their parameters are put
def verdict(v):
    """answers as a set of cases, each position a set of polynomials"""
    return sorted((tuple(tuple(sorted(show_poly(p) for p in part)) for part in case) for case in v), key=repr) if isinstance(v, list) else v
ANSWER = [
    # per sign required: the input polynomials
    {0: ["x+a"], 1: [], -1: []}, {0: [], 1: ["x+a"], -1: []}, {0: [], 1: [], -1: ["x+a"]}, {0: ["a"], 1: ["x+b"], -1: []}, {0: ["x+a"], 1: ["b"], -1: ["c"]},
    {0: [], 1: ["x+a"], -1: ["x+b"]}, {0: ["x+a", "x+b"], 1: [], -1: []}, {0: [], 1: ["a", "x+b"], -1: []}, {0: [], 1: [], -1: ["a", "x+b"]}, {0: ["x+a", "0"], 1: ["2"], -1: ["-1"]}, {0: ["x+a"], 1: ["0"], -1: []}, {0: [], 1: [], -1: []}]
def rows_for(I, polys, consts, cols, tag, vals):
    rows = {}
    for p in sorted(set(polys) | set(consts) | {0}, key=lambda p: (deg(p), show_poly(p))):
        if isconst(p):
            s = (sgn(p) if len(vals) == 3 else int(p != 0)) if not hasvar(p) else cell(I, "%s sign(%s)" % (tag, show_poly(p)), vals)
            rows[p] = {c: s for c in cols}
        else: rows[p] = {c: cell(I, "%s sign(%s at %s)" % (tag, show_poly(p), c), vals) for c in cols}
    return rows
def fits(I, rows, conds, cols):
    """some column meets every condition"""
    for c in cols:
        if all(rd(I, rows[p][c]) == want for want, ps in conds for p in ps): return True
    return False
def c15_muchnik(ctx, real):
    name = "real_full" if real else "complex_full"; vals = (-1, 0, 1) if real else (0, 1)
    for A in ANSWER:
        parts = {k: [poly(t) for t in v] for k, v in A.items()}
        conds = [(-1, parts[-1]), (0, parts[0]), (1, parts[1])] if real else [(0, parts[0]), (1, parts[1] + parts[-1])]
        asked = [p for _, ps in conds for p in ps]
        consts = sorted({p for p in asked if isconst(p)} | {poly("a")} | ({poly("a*b")} if len(asked) < 2 else set()), key=show_poly)
        inv = [p for p in consts if hasvar(p)]
        cols = [0, 0.5, 1.0] if real else [0, 1, 2]
        ext = "real_extend" if real else "complex_extend"; full = "_r_full_assignment" if real else "_c_full_assignment"
        nd = 2 if any(isconst(p) and hasvar(p) for p in asked) and len(asked) == 2 or not asked else 1
        def rows_k(I, k): return rows_for(I, asked, consts, cols, "case %d:" % k, vals)
        def invalid(I, k): return real and k == 0 and nd == 2 and rd(I, cell(I, "case 0 is invalid", (0, 1))) == 1
        def seq(I, f, args, kw, node): return ListObj([One(p) for p in sorted(set(asked) | set(consts) | {0}, key=lambda p: (deg(p), show_poly(p)))])
        def assign(I, f, args, kw, node):
            out = []
            for k in range(nd):
                rows = rows_k(I, k); d = diagram({p: {c: v for c, v in r.items() if c in ((0, 0.5, 1.0) if real else (0,))} for p, r in rows.items() if isconst(p)})
                out.append(One(d))
            return ListObj(out)
        def extend(I, f, args, kw, node):
            # the diagrams are extended in the order they were made
            k = I.S.get("turn", 0); I.w(I.S, "turn", k + 1)
            if k >= nd: raise Und("extended again", node)
            if invalid(I, k):
                cls = I.module("muchnik").f.get("DiagramExc")
                raise RaiseX(cls, None, node)
            return diagram(rows_k(I, k))
        h = {"fn:muchnik.Muchniker.muchnik_sequence": seq, "fn:muchnik.Muchniker." + full: assign, "fn:muchnik.Muchniker." + ext: extend}
        I, m = machine(ctx, "muchnik", "Muchniker", h, deadline=60)
        f = m and m.cls.find(name)
        if not isinstance(f, FuncVal): return ctx.missing("highschool_qe/muchnik.py:Muchniker." + name)
        def impl(_):
            I.w(I.S, "turn", 0)
            L = lambda ps: ListObj([One(p) for p in ps])
            return I.call(Bound(m, name, f), [L(ps) for _, ps in conds])
        def spec(_):
            out = []
            for k in range(nd):
                if invalid(I, k): continue
                rows = rows_k(I, k)
                if fits(I, rows, conds, cols):
                    case = [ListObj([One(p) for p in inv if rd(I, rows[p][0]) == s]) for s in vals]
                    out.append(One(TupV(case)))
            return ListObj(out)
        tag = ", ".join("%s %s" % (", ".join(map(show_poly, ps)), {-1: "< 0", 0: "= 0", 1: "> 0" if real else "!= 0"}[s]) for s, ps in conds if ps) or "no condition"
        joint(ctx, I, "%s: cases kept and where their parameters are reported, for %s" % (name, tag), floc(f), lambda: None, impl, spec, verdict, limit=30000, show=tag)
@check("C15")
def c15_real(ctx): c15_muchnik(ctx, True)
@check("C15")
def c15_complex(ctx): c15_muchnik(ctx, False)

@check("C15")
def c15_ch(ctx):
    for A in ANSWER:
        parts = {k: [poly(t) for t in v] for k, v in A.items()}
        conds = [(-1, parts[-1]), (0, parts[0]), (1, parts[1])]
        asked = [p for _, ps in conds for p in ps]
        if not asked: continue
        known = sorted({p for p in asked if isconst(p) and hasvar(p)} | {poly("a")} | ({poly("a*b")} if len(asked) < 2 else set()), key=show_poly)
        cols = [F(0), F(1, 2), F(1)]; nd = 2 if any(isconst(p) and hasvar(p) for p in asked) and len(asked) == 2 else 1
        def rows_k(I, k):
            rows = rows_for(I, asked, known, cols, "case %d:" % k, (-1, 0, 1))
            con = {p: rows[p][cols[0]] for p in known}
            return {p: rows[p] for p in asked}, con
        def table(I, f, args, kw, node):
            out = []
            for k in range(nd):
                rows, con = rows_k(I, k); out.append(One(TupV([todict(rows), context(con)])))
            return ListObj(out)
        I, m = machine(ctx, "cohenhorm", "CohenHormander", {"fn:cohenhorm.CohenHormander._real_table": table}, deadline=60)
        f = m and m.cls.find("real_full")
        if not isinstance(f, FuncVal): return ctx.missing("highschool_qe/cohenhorm.py:CohenHormander.real_full")
        def impl(_): return I.call(Bound(m, "real_full", f), [ListObj([One(p) for p in ps]) for _, ps in conds])
        def spec(_):
            out = []
            for k in range(nd):
                rows, con = rows_k(I, k)
                if fits(I, rows, conds, cols): out.append(One(TupV([ListObj([One(p) for p in known if rd(I, con[p]) == s]) for s in (-1, 0, 1)])))
            return ListObj(out)
        tag = ", ".join("%s %s" % (", ".join(map(show_poly, ps)), {-1: "< 0", 0: "= 0", 1: "> 0"}[s]) for s, ps in conds if ps)
        joint(ctx, I, "Cohen-Hoermander real_full: cases kept and where their parameters are reported, for %s" % tag, floc(f), lambda: None, impl, spec, verdict, limit=30000, show=tag)

# ------------------------------------------------------------------ C16: everything a table needs is in it
def alg_opaque():
    """algebra of unknown polynomials"""
    def one(k):
        def h(I, v, args, kw, node):
            if v is not ALG: return NotImplemented
            t = T("app", "algebra." + k, *[I.freeze(a) for a in args])
            if k == "pseudo_div": return TupV([T("app", "algebra.quo", *t.args[1:]), T("app", "algebra.rem", *t.args[1:])])
            return t
        return h
    return {"method:" + k: one(k) for k in ("degree", "p_tail", "pseudo_div", "derivative", "LC", "LT")} | {"method:zero": lambda I, v, a, k, n: 0 if v is ALG else NotImplemented}
def app(k, *a): return T("app", "algebra." + k, *a)
@check("C16")
def c16_sequence(ctx):
    """one step of the closure under tails, derivatives and pseudo-remainders"""
    for nd, nr in ((0, 0), (0, 2), (1, 1), (2, 1)):
        state = {}
        def again(I, f, args, kw, node):
            if not I.S.get("once"): I.w(I.S, "once", 1); return NotImplemented
            return TupV(["continues", I.freeze(args[1]), I.freeze(args[2])])
        h = alg_opaque(); h.update(quiet("muchnik", "Muchniker")); h["fn:muchnik.Muchniker.muchnik_sequence"] = again
        I = ctx.interp(handlers=h); I.unroll = I.deep = 4
        c = I.module("muchnik").f.get("Muchniker") if I.module("muchnik") else None
        m = I.instantiate(c, [ALG], {}, None) if isinstance(c, ClassVal) else None
        f = m and m.cls.find("muchnik_sequence")
        if not isinstance(f, FuncVal): return ctx.missing("highschool_qe/muchnik.py:Muchniker.muchnik_sequence")
        head = T("sym", "head"); done = [T("sym", "done%d" % k) for k in range(nd)]; rest = [T("sym", "todo%d" % k) for k in range(nr)]
        bad = []; und = []; n = [0]
        def go():
            I.w(I.S, "once", 0)
            return attempt(I, lambda: I.call(Bound(m, "muchnik_sequence", f), [SetObj([One(x) for x in done]), ListObj([One(x) for x in [head] + rest])]))
        def cap(o, mk):
            n[0] += 1
            if o.kind != "normal": und.append(o.kind); return
            k, v = o.value
            if k != "return": bad.append((o.lits, "%s %s" % (k, v))); return
            try:
                v = plain(I, v)
                D, R = (v[1:] if isinstance(v, tuple) and len(v) == 3 and v[0] == "continues" else (v, []))
                D, R = [x for x in plain(I, D)], [x for x in plain(I, R)]
            except (Und, TypeError, ValueError) as e: und.append(str(e)); return
            eq = lambda x, y: x is y or I.facts.decide(eq_any(x, y)) is True if isinstance(x, Term) and isinstance(y, Term) else x == y
            def has(L, x): return any(eq(x, y) for y in L)
            def true(c): return I.facts.decide(c)
            old = [true(eq_any(head, d)) for d in done]
            if any(x is True for x in old): want = []
            elif any(x is None for x in old): und.append("membership"); return
            else:
                want = [(app("p_tail", head), True), (app("derivative", head), True)]
                for q in done:
                    a, b = app("degree", q), app("degree", head)
                    pos = sg(a, (1,))
                    want.append((app("rem", head, q), b_and(pos, sg(psub(b, a), (0, 1)))))
                    want.append((app("rem", q, head), b_and(pos, sg(psub(a, b), (0, 1)))))
            for x in done + [head]:
                if not has(D, x): bad.append((o.lits, "%s is no longer among the polynomials of the sequence" % render(x)))
            for x in rest:
                if not has(R, x): bad.append((o.lits, "%s is never processed" % render(x)))
            for x, when in want:
                if has(R, x) or has(D, x): continue
                need = b_and(when, b_not(eq_any(x, 0)))
                d = true(need)
                if d is False: continue
                tested = [l for l in o.lits if x in set(subterms(l)) and l is not eq_any(x, 0) and l is not b_not(eq_any(x, 0))]
                if d is True or not tested and false_possible(I, need): bad.append((o.lits, "%s is not added to the sequence" % render(x)))
                else: und.append(render(x))
        def false_possible(I, need):
            mk = I.mark()
            try:
                try: I.assume(need, log=False)
                except Dead: return False
                return True
            finally: I.undo(mk)
        rule = "one step of the Muchnik sequence with %d polynomials done and %d waiting: tail, derivative and pseudo-remainders are added, none is lost" % (nd, nr)
        try: I.explore(go, cap, 4000)
        except (Und, HoistX, RecursionError) as e:
            ctx.done(I); ctx.und(rule, floc(f), "analysis: %s" % e); continue
        ctx.done(I)
        if bad: ctx.refuted(rule, floc(f), bad[0][1], render(b_and(*bad[0][0]))[:600] if bad[0][0] else "always")
        elif und: ctx.und(rule, floc(f), "; ".join(und[:3]))
        else: ctx.proved(rule, floc(f), "%d paths" % n[0])

GLUE = [["x+a"], ["x^2+a*x+b", "-3"], ["x+a", "b"], ["2*x+1", "a"]]
@check("C16")
def c16_glue(ctx):
    """every polynomial of the sequence gets a row: scalars their sign, parameters through the case split, the rest by extension in order of degree"""
    for real in (True, False):
        name = "real_full" if real else "complex_full"; vals = (-1, 0, 1) if real else (0, 1); cols = [0, 0.5, 1.0] if real else [0]
        for texts in GLUE:
            need = closure([poly(t) for t in texts])
            inv = [p for p in need if isconst(p) and hasvar(p)]
            def seq(I, f, args, kw, node):
                I.w(I.S, "asked", I.freeze(args[2])); return ListObj([One(p) for p in need])
            def assign(I, f, args, kw, node):
                ds = elems(args[1]); I.w(I.S, "given", tuple(I.freeze(x) for x in ds) + (I.freeze(args[2]),))
                out = []
                for k in (0, 1):
                    rows = {p: {c: v for c in cols} for p in inv for v in [cell(I, "case %d sign(%s)" % (k, show_poly(p)), vals)]}
                    rows[0] = {c: 0 for c in cols}; rows["case"] = {0: k}
                    out.append(One(diagram(rows)))
                return ListObj(out)
            def extend(I, f, args, kw, node):
                d = plain(I, args[1])
                I.w(I.S, "ext", I.S.get("ext", ()) + ((d.get("case", {}).get(0, ("?",))[0], I.freeze(args[2])),))
                k = d.get("case", {}).get(0, ("?",))[0]
                rows = {p: {c: cell(I, "case %s sign(%s)" % (k, show_poly(p)), vals) for c in cols} for p in inv}
                for p in need:
                    if p not in rows: rows[p] = {c: 0 if real else 1 for c in cols}
                return diagram(rows)
            h = {"fn:muchnik.Muchniker.muchnik_sequence": seq, "fn:muchnik.Muchniker." + ("_r_full_assignment" if real else "_c_full_assignment"): assign, "fn:muchnik.Muchniker." + ("real_extend" if real else "complex_extend"): extend}
            I, m = machine(ctx, "muchnik", "Muchniker", h)
            f = m and m.cls.find(name)
            if not isinstance(f, FuncVal): return ctx.missing("highschool_qe/muchnik.py:Muchniker." + name)
            def impl(_):
                I.w(I.S, "ext", ())
                I.call(Bound(m, name, f), [ListObj([One(poly(t)) for t in texts])] + [ListObj([])] * (2 if real else 1))
                return TupV([I.S["asked"], TupV(list(I.S["given"])), TupV([TupV(list(e)) for e in I.S["ext"]])])
            def spec(_):
                root = {p: {c: sgn(p) if real else int(p != 0) for c in cols} for p in need if not hasvar(p) and isconst(p)}
                todo = ListObj([One(p) for p in need if not isconst(p)])
                return TupV([ListObj([One(poly(t)) for t in texts]), TupV([diagram(root), ListObj([One(p) for p in inv])]), TupV([TupV([k, todo]) for k in (0, 1)])])
            def view(v):
                if not isinstance(v, tuple) or len(v) != 3 or not all(isinstance(x, (list, tuple)) for x in v): return v
                asked, given, ext = v
                def order(l): return sorted(((deg(p), show_poly(p)) for p in l)) if [deg(p) for p in l] == sorted(deg(p) for p in l) else [("not in order of degree", tuple(map(show_poly, l)))]
                return (sorted(map(show_poly, asked)), [columns(g) for g in given[:-1]], sorted(map(show_poly, given[-1])), sorted((k, order(l)) for k, l in ext))
            joint(ctx, I, "%s over %s: each polynomial of the sequence is given its row" % (name, ", ".join(texts)), floc(f), lambda: None, impl, spec, view, show=", ".join(texts))
