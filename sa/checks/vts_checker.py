import itertools
from ..registry import check
from ..check import *
from ..terms import *
RELS = ["Ge", "Gt", "Eq", "Ne", "Le", "Lt"]

def lsym(n): return T("sym", n, "list")
def all_kinds(l, ks):
    bv = T("b", 1)
    return b_all(bv, 0, length(l), kd(at(l, bv), ks))
def rel_list(rng, maxlen=3, kinds=RELS, true=True, rhs0=False, top=1000):
    out = []
    for _ in range(rng.randint(0, maxlen)):
        if true and rng.random() < .2: out.append(True)
        else: out.append(RelV(rng.choice(kinds), rng.randint(-top, top), 0 if rhs0 else rng.randint(-top, top)))
    return out

def canon_rel(r):
    """(kind, value) of an equivalent comparison  value KIND 0  with KIND among Lt Le Eq Ne Gt Ge, orientation free"""
    if not isinstance(r, RelV): return ("other", hk(r))
    try: d = r.lhs - r.rhs
    except TypeError: return ("raw", r.kind, hk(r.lhs), hk(r.rhs))
    if r.kind in ("Gt", "Ge"): return ({"Gt": "Lt", "Ge": "Le"}[r.kind], -d, "flipped")
    if r.kind in ("Eq", "Ne"): return (r.kind, abs(d))
    return (r.kind, d)
def canon_clauses(v):
    if not isinstance(v, (list, tuple)): return ("?", hk(v))
    return frozenset(frozenset(canon_rel(r) for r in c) if isinstance(c, (list, tuple)) else ("?", hk(c)) for c in v)

@check("C01")
def c01(ctx):
    A, S = lsym("antecedent"), lsym("succedent")
    ok = [all_kinds(A, RELS + ["True"]), all_kinds(S, RELS + ["True"])]
    def one(rule, fn, sp, args, gen, veq, assume):
        I = ctx.interp()
        f = I.func("checker", fn); s = I.func("spec_checker", sp)
        if f is None: return ctx.missing("vts/checker.py:%s" % fn)
        equiv(ctx, I, rule, floc(f), lambda: I.call(f, args), lambda: I.call(s, args), gen, veq=veq, assume=assume, raise_ok=lambda a, b: True)
    one("each clause = every antecedent comparison + one negated succedent comparison; empty sides rejected", "vts_preformat", "clauses", [A, S],
        lambda r: (lambda top: {A: rel_list(r, 4, top=top), S: rel_list(r, top=top)})(r.choice([1000, 1000, 1, 2])), lambda x, y: canon_clauses(x) == canon_clauses(y), ok)
    # short lists, comparisons repeated between and within the sides
    p, q, r_ = T("sym", "p"), T("sym", "q"), T("sym", "r")
    rel = lambda k, a, b=0: T("rel", k, a, b)
    cases = [([(k, p), ("Lt", q)], [(n, p)]) for k, n in itertools.product(("Lt", "Le", "Eq", "Ne"), RELS)]
    cases += [([("Lt", p), ("Lt", q), ("Le", r_)], s) for s in ([("Ge", p)], [("Ge", q)], [("Gt", r_)], [("Eq", p)], [("Ge", q), ("Gt", r_)], [("Lt", p), ("Ge", p)])]
    cases += [([("Eq", p)], [("Ne", p), ("Ne", q)]), ([("Ge", p), ("Gt", p)], [("Le", p), ("Lt", p)]), ([("Lt", p), ("Lt", p)], [("Lt", p), ("Lt", p)]), ([("Gt", p), ("Le", q), ("Ne", q)], [("Eq", q), ("Gt", q), ("Ge", p)])]
    def sets(I, v):
        t = resolved(I, I.freeze(v))
        if not (isinstance(t, Term) and t.op == "list"): return None
        out = set()
        for e in t.args[0]:
            if e[0] != "one" or not (isinstance(e[1], Term) and e[1].op == "list") or any(x[0] != "one" for x in e[1].args[0]): return None
            out.add(frozenset(x[1] for x in e[1].args[0]))
        return out
    def alike(I, x, y):
        if same(I, x, y): return True
        a, b = sets(I, x), sets(I, y)          # repetitions do not matter
        return a is not None and a == b
    f0 = ctx.interp().func("checker", "vts_preformat")
    if f0 is None: return
    for b in (0, q):
        for ante, succ in cases[:: 1 if b == 0 else 4]:
            I = ctx.interp(); I.unroll = I.deep = 8
            f = I.func("checker", "vts_preformat"); s = I.func("spec_checker", "clauses")
            mk = lambda l: I.thaw(T("list", tuple(("one", rel(k, x, b)) for k, x in l)))
            sh = lambda l: ", ".join("%s %s %s" % (x.args[0], k, 0 if b == 0 else "q") for k, x in l)
            equiv(ctx, I, "clauses of %s => %s" % (sh(ante), sh(succ)), floc(f), lambda: I.call(f, [mk(ante), mk(succ)]), lambda: I.call(s, [mk(ante), mk(succ)]),
                  lambda r: {x: r.choice([r.randint(1, 99), 1]) * 1000 + n for n, x in enumerate((p, q, r_))}, same_fn=alike, veq=lambda x, y: canon_clauses(x) == canon_clauses(y), raise_ok=lambda a, b: True)
    # a True hypothesis or conclusion never appears in a clause, only the four handled kinds do: stated by the clause specification above

@check("C02")
def c02(ctx):
    F = lsym("formula")
    I = ctx.interp()
    f = I.func("checker", "make_relation_map"); s = I.func("spec_checker", "by_kind")
    if f is None: ctx.missing("vts/checker.py:make_relation_map")
    else:
        def veq(x, y):
            if not isinstance(x, dict) or not isinstance(y, dict): return hk(x) == hk(y)
            return all(sorted(map(str, map(hk, x.get(k, [])))) == sorted(map(str, map(hk, y.get(k, [])))) for k in ("le", "lt", "eq", "ne"))
        equiv(ctx, I, "each comparison lands once in the list of its kind with its own polynomial; other kinds rejected", floc(f), lambda: I.call(f, [F]), lambda: I.call(s, [F]),
              lambda r: {F: rel_list(r, 4, r.choice([["Eq", "Ne", "Le", "Lt"], RELS]), r.random() < .3, True, r.choice([1000, 1000, 2, 1]))}, veq=veq, raise_ok=lambda a, b: True, assume=[all_kinds(F, RELS + ["True"])])
    # clause construction followed by sorting, for comparisons with 0
    I = ctx.interp()
    f = I.func("checker", "make_relation_map"); pre = I.func("checker", "vts_preformat"); s = I.func("spec_checker", "by_kind"); sp = I.func("spec_checker", "clauses")
    if f is not None and pre is not None:
        p, q = T("sym", "p"), T("sym", "q")
        for k1 in RELS:
            for k2 in RELS:
                a = lambda: I.thaw(T("list", (("one", T("rel", k1, p, 0)),))); b = lambda: I.thaw(T("list", (("one", T("rel", k2, q, 0)),)))
                rule = "the polynomial of [p %s 0] => [q %s 0] reaches its list" % (k1, k2)
                equiv(ctx, I, rule, floc(f), lambda: I.call_builtin("map", [f, I.call(pre, [a(), b()])], {}, None), lambda: I.call_builtin("map", [s, I.call(sp, [a(), b()])], {}, None),
                      lambda r: (lambda v: {p: v, q: r.choice([v, -v, r.randint(100, 999)])})(r.randint(1, 99)), veq=lambda x, y: isinstance(x, list) and isinstance(y, list) and len(x) == len(y) and all(map(veq, x, y)))
    # hand-over
    for fn in ("ts", "vts"):
        I = ctx.interp(opaque=["isym.convert", "uni_vts.internal_" + fn])
        f = I.func("isym", fn)
        if f is None: ctx.missing("vts/isym.py:%s" % fn); continue
        g = I.func("uni_vts", "internal_" + fn); conv = I.func("isym", "convert")
        if g is None or conv is None: ctx.missing("vts/uni_vts.py:internal_%s or isym.convert" % fn); continue
        args = [lsym(x) for x in ("le", "lt", "eq", "ne")]
        equiv(ctx, I, "each list is converted entry by entry and handed over in its own role", floc(f), lambda: I.call(f, args),
              lambda: I.call(g, [I.call_builtin("map", [conv, a], {}, None) for a in args]),
              lambda r: {a: [r.randint(-9, 9) for _ in range(size(r, 3))] for a in args}, raise_ok=lambda a, b: True)
    # the example run
    for flag in (True, False):
        I = ctx.interp(opaque=["isym.vts", "isym.ts", "checker.vts_preformat", "checker.make_relation_map", "examples_parser.unpickle_dirs_gen"])
        I.eval_print = True
        f = I.func("checker", "check_examples"); s = I.func("spec_checker", "report"); src = I.func("examples_parser", "unpickle_dirs_gen")
        if f is None or src is None: ctx.missing("vts/checker.py:check_examples"); continue
        files = T("call", "examples_parser.unpickle_dirs_gen")
        def impl():
            n0 = len(I.S["events"])
            I.call(f, [flag])
            ds = [v for e in I.S["events"][n0:] if e[0] == "print" for v in e[1] if isinstance(v, Term) and v.op == "dict"]
            if not ds: raise Und("no report dictionary printed")
            return ds[-1]
        def gen(r):
            return {files: [[(r.randint(1, 10**6), r.randint(1, 10**6)) for _ in range(r.choice([130, 260]) if r.random() < .02 else size(r, 3))] for _ in range(size(r, 4))]}
        interp = {"call:checker.vts_preformat": lambda M, a: [("clause", a[0], a[1], k) for k in range(M.rnd(("n", hk(a[0]), hk(a[1])), 3))],
                  "call:checker.make_relation_map": lambda M, a: {k: ("part", k, a[0]) for k in ("le", "lt", "eq", "ne")},
                  "call:isym.vts": lambda M, a: bool(M.rnd(("vts", hk(a)), 2)), "call:isym.ts": lambda M, a: bool(M.rnd(("ts", hk(a)), 2))}
        equiv(ctx, I, "an example is reported exactly when one of its clauses is satisfiable (vts=%s)" % flag, floc(f), impl, lambda: I.call(s, [files, flag]),
              gen, veq=lambda x, y: isinstance(x, dict) and isinstance(y, dict) and len(x) == len(y), interp=interp, raise_ok=lambda a, b: True)
