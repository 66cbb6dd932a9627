"""C24: promotion, bad sets and selection of hypotheses."""
import itertools
from ..registry import check
from ..check import *
from ..terms import *
from ..interp import Bound, PyFn, InstObj, ClassVal, DictObj, ListObj, TupV, MISSING
from .qe_common import plain
from .grf import sage, cls, VARS, RING, method, run, factory

def items(I, v):
    v = I.thaw(v) if isinstance(v, Term) else v
    s = v.items if isinstance(v, TupV) else [x[1] for x in v.f["segs"]] if isinstance(v, ListObj) and all(x[0] == "one" for x in v.f["segs"]) else None
    if s is None: raise Und("list")
    return s
def lst(*xs): return ListObj([("one", x) for x in xs])

# ------------------------------------------------------------------ a free module: equations as vectors, reduction subtracts multiples
class Module(object):
    """polynomials as integer vectors over free generators; reducing by a list subtracts some multiple of each member and gives 0 for a member of their span"""
    def __init__(self, n): self.n = n; self.vec = {0: (0,) * n}; self.num = {(0,) * n: 0}; self.used = 0
    def tok(self, v):
        v = tuple(v)
        if v not in self.num:
            k = 100003 + 1009 * len(self.num); self.num[v] = k; self.vec[k] = v
        return self.num[v]
    def gen(self, j): return self.tok([int(i == j) for i in range(self.n)])
    def known(self, t): return isinstance(t, int) and not isinstance(t, bool) and t in self.vec
    def reduce(self, t, basis):
        v = list(self.vec[t]); rows = [self.vec[b] for b in basis]
        if inside(rows, v): return 0
        for r in rows:
            c = 2 + (sum((i + 3) * (abs(a) + 1) for i, a in enumerate(r)) + sum((i + 5) * abs(a) for i, a in enumerate(v))) % 5
            v = [a - c * b for a, b in zip(v, r)]
        return self.tok(v)
def hermite(rows):
    """row echelon form over the integers, reduced"""
    m = [list(r) for r in rows if any(r)]; out = []; w = len(m[0]) if m else 0
    for c in range(w):
        while True:
            nz = sorted([r for r in m if r[c]], key=lambda r: abs(r[c]))
            if len(nz) <= 1: break
            p = nz[0]
            for r in nz[1:]:
                q = r[c] // p[c]
                for i in range(w): r[i] -= q * p[i]
        if nz:
            p = nz[0]; m = [r for r in m if r is not p]
            if p[c] < 0: p = [-a for a in p]
            for r in out:
                q = r[c] // p[c]
                for i in range(w): r[i] -= q * p[i]
            out.append(p)
    return [tuple(r) for r in out]
def inside(rows, v): return hermite(list(rows) + [v]) == hermite(rows)

def algebra(I, M):
    def reduce_(I_, v, a, k, n):
        if not M.known(v): return NotImplemented
        b = items(I_, a[0])
        if not all(M.known(x) for x in b): raise Und("basis")
        return M.reduce(v, b)
    def groebner(I_, v, a, k, n):
        if not (isinstance(v, Term) and v.op == "ideal"): return NotImplemented
        return lst(*v.args)
    def ideal(I_, a, k, n):
        b = items(I_, a[0]) if len(a) == 1 and not isinstance(a[0], int) else a
        if not all(M.known(x) for x in b): raise Und("ideal")
        return T("ideal", *b)
    K = lambda f: lambda I_, v, a, k, n: f(v) if M.known(v) else NotImplemented
    I.handlers.update({"method:reduce": reduce_, "method:groebner_basis": groebner, "method:variables": K(lambda v: TupV(VARS[:2])), "method:nvariables": K(lambda v: 2),
                       "method:total_degree": K(lambda v: 2), "method:parent": K(lambda v: RING), "method:is_zero": K(lambda v: v == 0), "method:is_constant": K(lambda v: v == 0)})
    sage(I, ideal=PyFn(ideal, "ideal"))

def machine(ctx, M, **more):
    I = ctx.interp(); I.unroll = 8; I.deep = 8
    algebra(I, M); I.handlers.update(more)
    return I
def atom(I, op, poly): return I.instantiate(cls(I, "RCF_Atom"), [poly, op, 0], {}, None)
def decider(I, hyps, goal=None, goal_hyps=()):
    d = I.instantiate(cls(I, "RCF_GD_Decide"), [2], {}, None)
    for h in hyps: method(I, d, "assert_hyps", [h])
    method(I, d, "assert_goal", [goal])
    for h in goal_hyps: method(I, d.f["goal"], "add_goal_hyp", [h])
    return d
def polys(I, l): return TupV([TupV([I.getattr(a, "op"), I.getattr(a, "poly")]) for a in items(I, l)])

@check("C24")
def c24(ctx):
    c24_promote(ctx); c24_bad(ctx); c24_good(ctx); c24_check(ctx)

def c24_promote(ctx):
    for n in (1, 2, 3, 4):
        for seq in itertools.product(*[range(n - j) for j in range(min(n, 3))]):
            for ops in set([(">",) * n, tuple((">=", "<", "!=", "<=")[:n]), tuple("=" if j % 2 else ">" for j in range(n)), ("=",) * n]):
                for dup in (False, True):
                    if dup and (n < 2 or "=" not in ops): continue
                    M = Module(n + 1); I = machine(ctx, M)
                    c = cls(I, "RCF_GD_Decide")
                    if c is None or c.find("promote_right") is MISSING: return ctx.missing("GRF/grf.sage:RCF_GD_Decide.promote_right")
                    ps = [M.gen(0 if dup and j == n - 1 else j) for j in range(n)]; g = M.gen(n)
                    left = list(range(n)); moved = []
                    for i in seq: moved.append(left.pop(i))
                    def go():
                        d = decider(I, [atom(I, o, p) for o, p in zip(ops, ps)], atom(I, ">", g))
                        for i in seq: method(I, d, "promote_right", [i])
                        return TupV([polys(I, d.f["hyps"]), polys(I, I.getattr(d.f["goal"], "goal_hyps")), polys(I, lst(I.getattr(d.f["goal"], "main_goal")))])
                    def judge(v):
                        hy, gh, mg = v
                        if not all(isinstance(x, tuple) and M.known(x[1]) for x in hy + gh + mg): return "? %r" % (v,)
                        sh = lambda l: ", ".join("%s %s 0" % (show(M, p), o) for o, p in l) or "none"
                        if sorted(hy) != sorted((ops[j], ps[j]) for j in left): return "the remaining hypotheses are %s" % sh(hy)
                        eqs = [M.vec[ps[j]] for j in moved if ops[j] == "="]
                        if hermite([M.vec[p] for o, p in gh if o == "="]) != hermite(eqs):
                            return "after promoting %s the equations on the goal side are %s" % (sh([(ops[j], ps[j]) for j in moved]), sh([x for x in gh if x[0] == "="]))
                        span = hermite(eqs); mod = lambda p: [q for q in [p]][0]
                        want = [(ops[j], ps[j]) for j in moved if ops[j] != "="]; got = [x for x in gh if x[0] != "="]
                        for o, p in want:
                            k = [x for x in got if x[0] == o and inside(span, [a - b for a, b in zip(M.vec[x[1]], M.vec[p])])]
                            if not k: return "promoted %s %s 0 is not among the goal's hypotheses: %s" % (show(M, p), o, sh(gh))
                            got.remove(k[0])
                        if got: return "additional hypotheses on the goal side: %s" % sh(got)
                        if mg[0][0] != ">" or not inside(span, [a - b for a, b in zip(M.vec[mg[0][1]], M.vec[g])]): return "the goal became %s" % sh(mg)
                    run(ctx, I, "promoting hypotheses %s in turn from %s%s moves exactly these and keeps the meaning of the goal side" %
                        (",".join(map(str, seq)), " ".join("p%d%s0" % (0 if dup and j == n - 1 else j, o) for j, o in enumerate(ops)), " (one repeated)" if dup else ""), floc(c.find("promote_right")), go, judge)

def show(M, p):
    v = M.vec[p]
    s = " + ".join(("%d*p%d" % (a, i) if a != 1 else "p%d" % i) for i, a in enumerate(v) if a)
    return s or "0"

# ------------------------------------------------------------------ bad sets
def c24_bad(ctx):
    sizes = [(0, 0), (0, 1), (1, 0), (1, 1), (1, 2), (2, 0), (2, 1), (2, 2), (3, 0), (3, 1), (3, 2)]
    # hypotheses sharing polynomials with each other or the goal
    shared = [((0, 0), (">", "<")), ((0, 0), ("<=", "=")), ((0, 2), ("=", "<")), ((2, 2), ("<", "=")), ((0, 1, 0), ("=", ">", "<")), ((0, 0, 0), (">", "<", "=")), ((1, 0), ("=", "!=")), ((0, 1, 3), ("<=", "<", "="))]
    for n, m, gens, ops in [(n, m, tuple(range(n)), (">",) * n) for n, m in sizes] + [(len(g), m, g, o) for g, o in shared for m in ((0, 1, 2) if len(g) == 2 else (0, 1))]:
        M = Module(n + 2); cell = {}
        def truth(I, what, pt):
            k = T("sym", "%s at point %d" % (what, pt), "int"); I.few[k] = (0, 1)
            return I.narrow(k) == 1
        def where(I, d):
            d = I.thaw(d) if isinstance(d, Term) else d
            if not isinstance(d, DictObj) or len(d.f["ents"]) != 1 or d.f["ents"][0][0] != "kv" or d.f["ents"][0][2] not in range(500, 500 + m + 1): raise Und("point")
            return d.f["ents"][0][2] - 500
        def pt(I, j): return DictObj([("kv", VARS[0], 500 + j)])
        hp = [(o, M.gen(j)) for o, j in zip(ops, gens)]
        def h_atom(I, f, a, k, nd):
            p = (I.getattr(a[0], "op"), I.getattr(a[0], "poly"))
            if p not in hp: raise Und("atom")
            return truth(I, "H%d" % hp.index(p), where(I, a[1]))
        def h_goal(I, f, a, k, nd): return truth(I, "goal", where(I, a[1]))
        pts = lambda I, f, a, k, nd: lst(*[pt(I, j + 1) for j in range(m)])
        I = machine(ctx, M, **{"fn:grf.RCF_Atom.eval_on_dict": h_atom, "fn:grf.RCF_Goal.eval_on_dict": h_goal, "fn:grf.RCF_GD_Decide.sample_points": pts, "fn:grf.RCF_GD_Decide.k_sample_points_in_ball": pts})
        c = cls(I, "RCF_GD_Decide")
        if c is None or c.find("bad_subsets_on_dict") is MISSING: return ctx.missing("GRF/grf.sage:RCF_GD_Decide.bad_subsets_on_dict")
        def go():
            d = decider(I, [atom(I, o, p) for o, p in hp], atom(I, ">", M.gen(n)))
            r = attempt(I, lambda: method(I, d, "bad_subsets_on_dict", [pt(I, 0)]))
            return TupV([r[0], r[1]])
        names = ["%s at point %d" % (w, j) for j in range(m + 1) for w in ["goal"] + ["H%d" % i for i in range(n)]]
        def judge(v):
            seen = {k.args[0]: x for k, x in I.S.get("fewv", {}).items()}
            free = [x for x in names if x not in seen][:10]
            for bits in itertools.product((0, 1), repeat=len(free)):
                w = dict(seen, **dict(zip(free, bits)))
                if any(x not in w for x in names): w = dict({x: 1 for x in names}, **w)
                fail = [frozenset(i for i in range(n) if w["H%d at point %d" % (i, j)]) for j in range(m + 1) if not w["goal at point %d" % j]]
                r = verdict(v, fail, bool(w["goal at point 0"]), n)
                if r:
                    return (r if r.startswith("?") else "%s [%s]" % (r, ", ".join("%s %s" % (x, bool(w[x])) for x in names)))
        def verdict(v, fail, good, n):
            counter = any(len(s) == n for s in fail)
            if v[0] == "raise":
                if v[1] not in ("Exception", "RuntimeError", "ValueError"): return "fails with %s" % v[1]
                return None if counter else "a counterexample is reported although no failing point satisfies all hypotheses"
            if good and v[1] is None: return None
            if v[1] is None: return "the failing point is not reported"
            if not isinstance(v[1], (list, tuple, frozenset)): return "? %r" % (v[1],)
            try: got = [frozenset(s) for s in v[1]]
            except TypeError: return "? %r" % (v[1],)
            if counter and not good: return "all hypotheses hold at a failing point, but no counterexample is reported"
            if any(not isinstance(i, int) for s in got for i in s): return "? %r" % (v[1],)
            for s in got:
                if s not in fail: return "recorded set %s is not the set of hypotheses holding at a failing point" % sorted(s)
            if not good:
                for s in fail:
                    if not any(s <= t for t in got): return "the hypotheses %s hold at a failing point, but neither that set nor a larger one is recorded: %s" % (sorted(s), [sorted(t) for t in got])
        run(ctx, I, "%d hypotheses%s, %d further points: sets recorded at failing points" % (n, "" if gens == tuple(range(n)) else " (%s; goal p%d > 0)" % (", ".join("p%d %s 0" % (j, o) for o, j in zip(ops, gens)), n), m), floc(c.find("bad_subsets_on_dict")), go, judge)

# ------------------------------------------------------------------ selection
def program(I, M, n):
    m = I.module("spec_grf")
    X = [T("sym", "chosen H%d" % i, "int") for i in range(max(n, 1))]
    m.f["UNKNOWNS"] = T("unknowns", n)
    def index(I_, v, i, nd):
        i = I_.narrow(i) if isinstance(i, Term) else i
        if not isinstance(i, int) or not 0 <= i < len(X): raise Und("unknown %r" % (i,))
        return X[i]
    def holds(c, a):
        r = subst(c, dict(zip(X, a))) if isinstance(c, Term) else c
        if not isinstance(r, bool): raise Und("constraint %s" % (render(c) if isinstance(c, Term) else c))
        return r
    def solution(I_, a, k, nd):
        rows = items(I_, a[0])
        ok = [s for s in itertools.product((0, 1), repeat=len(X)) if all(holds(c, s) for c in rows)]
        if not ok: raise RaiseX("MIPSolverException: no selection meets the constraints")
        k = T("sym", "solution of " + "; ".join(sorted(render(c) if isinstance(c, Term) else str(c) for c in rows)), "int")
        I_.few[k] = tuple(range(len(ok)))
        s = ok[I_.narrow(k)]
        return DictObj([("kv", i, s[i]) for i in range(len(X))])
    m.f["solution"] = PyFn(solution, "solution")
    I.handlers["index:unknowns"] = index
    sage(I, ideal=I.module("grf").f.get("ideal"), MixedIntegerLinearProgram=m.f["Program"])
    return X, holds

def c24_good(ctx):
    fams = []
    for n in (1, 2, 3, 4):
        subs = [s for k in range(n) for s in itertools.combinations(range(n), k)]
        fams += [(n, f) for k in (1, 2) for f in itertools.combinations(subs, k)][:: 1 if n < 4 else 3]
        if n == 3: fams += [(n, f) for f in itertools.combinations(subs, 3)][::4]
    for n, fam in fams:
        for weights in ((1,) * n, tuple(range(1, n + 1))):
            if weights != (1,) * n and len(fam) > 1: continue
            M = Module(n + 1)
            I = machine(ctx, M, **{"fn:grf.RCF_GD_Decide.weight_hyps": lambda I, f, a, k, nd: lst(*weights)})
            X, holds = program(I, M, n)
            c = cls(I, "RCF_GD_Decide")
            if c is None or c.find("good_hyps") is MISSING: return ctx.missing("GRF/grf.sage:RCF_GD_Decide.good_hyps")
            def go():
                d = decider(I, [atom(I, ">", M.gen(j)) for j in range(n)], atom(I, ">", M.gen(n)))
                return method(I, d, "good_hyps", [lst(*[lst(*s) for s in fam])])
            def judge(v):
                if not isinstance(v, (list, tuple, frozenset)) or not all(isinstance(i, int) for i in v): return "? %r" % (v,)
                for s in fam:
                    if all(i in s for i in v): return "the selection %s contains no hypothesis outside the recorded set %s" % (sorted(v), list(s))
                if any(not 0 <= i < n for i in v): return "selected hypothesis %s does not exist" % [i for i in v if not 0 <= i < n]
            run(ctx, I, "selection among %d hypotheses with recorded sets %s, weights %s: every solution hits each" % (n, " ".join("{%s}" % ",".join(map(str, s)) for s in fam), ",".join(map(str, weights))), floc(c.find("good_hyps")), go, judge)

# ------------------------------------------------------------------ the loop
def c24_check(ctx):
    for n, m, partial in [(1, 0, True), (1, 1, True), (1, 2, True), (2, 1, True), (2, 2, True), (2, 1, False), (3, 1, True)]:
        M = Module(n + 2); g = M.gen(n); pre = M.gen(n + 1)
        hp = [M.gen(j) for j in range(n)]
        def note(I, d, what):
            I.w(d.f, "_log", I.thaw(I.freeze(lst(*(items(I, d.f["_log"]) + [what])))))
        def rest(I, d): return [hp.index(I.getattr(a, "poly")) for a in items(I, d.f["hyps"])]
        def samples(I, f, a, k, nd):
            d = I.subject; q = a[0]
            note(I, d, TupV(["sample", I.thaw(I.freeze(I.getattr(q, "proj_sets")))]))
            return lst(*[DictObj([("kv", VARS[0], 500 + j)]) for j in range(m)])
        def bad(I, f, a, k, nd):
            d = a[0]; p = plain(I, a[1] if len(a) > 1 else k["dict"])
            if not isinstance(p, dict) or len(p) != 1: raise Und("point")
            j = list(p.values())[0]; left = rest(I, d)
            opts = [None] + [list(s) for r in range(len(left)) for s in itertools.combinations(range(len(left)), r)]
            if n > 2: opts = opts[:4]
            key = T("sym", "bad sets at point %d with %s left" % (j - 500, left), "int"); I.few[key] = tuple(range(len(opts)))
            o = opts[I.narrow(key)]
            note(I, d, TupV(["bad", j, o is not None, I.thaw(I.freeze(lst(*(o or []))))]))
            return None if o is None else lst(lst(*o))
        def good(I, f, a, k, nd):
            d = a[0]; left = rest(I, d); fam = [list(s) for s in plain(I, a[1] if len(a) > 1 else k["bads"])]
            opts = [s for r in range(1, len(left) + 1) for s in itertools.combinations(range(len(left)), r) if all(any(i not in b for i in s) for b in fam)]
            if not opts: raise Und("selection")
            opts = opts[:3]
            key = T("sym", "selection with %s left for %s" % (left, fam), "int"); I.few[key] = tuple(range(len(opts)))
            s = opts[I.narrow(key)]
            note(I, d, TupV(["select", I.thaw(I.freeze(lst(*[lst(*b) for b in fam]))), TupV(s)]))
            return lst(*s)
        def degree(I, v, a, k, nd):
            if v not in hp: return NotImplemented
            key = T("sym", "degree of H%d" % hp.index(v), "int"); I.few[key] = (1, 2)
            return I.narrow(key)
        I = machine(ctx, M, **{"fn:grf.QE_Factory.sample_pt_dicts": samples, "fn:grf.RCF_GD_Decide.bad_subsets_on_dict": bad, "fn:grf.RCF_GD_Decide.good_hyps": good, "method:total_degree": degree})
        c = cls(I, "RCF_GD_Decide")
        if c is None or any(c.find(x) is MISSING for x in ("check", "bad_subsets_on_dict", "good_hyps", "promote_right")): return ctx.missing("GRF/grf.sage:RCF_GD_Decide.check")
        def promote(I_, f, a, k, nd):
            d = a[0]; i = a[1]
            if not isinstance(i, int): raise Und("index")
            note(I_, d, TupV(["promote", i, rest(I_, d)[i] if 0 <= i < len(rest(I_, d)) else None]))
            return NotImplemented
        def go():
            d = decider(I, [atom(I, ">", p) for p in hp], atom(I, ">", g), [atom(I, ">", pre)])
            I.subject = d; I.w(d.f, "_log", lst())
            before = polys(I, d.f["hyps"])
            method(I, d, "check", [], {"partial": partial})
            return TupV([d.f["_log"], polys(I, d.f["hyps"]), polys(I, I.getattr(d.f["goal"], "goal_hyps"))])
        def judge(v):
            log, hy, gh = v
            moved = []; want = None; seen = None; fam = []
            if not log: return "? no sample points were asked for"
            left = list(range(n))
            hyp_left = [hp.index(p) for o, p in hy if p in hp]; hyp_moved = [hp.index(p) for o, p in gh if p in hp]
            if sorted(hyp_left + hyp_moved) != list(range(n)) or pre not in [p for o, p in gh]: return "hypotheses %s remain and %s are on the goal side" % (hyp_left, hyp_moved)
            rounds = []
            for e in log:
                if e[0] == "sample": rounds.append({"sets": e[1], "bad": {}, "sel": None})
                elif not rounds: return "? order of steps"
                elif e[0] == "bad": rounds[-1]["bad"][e[1]] = (e[2], e[3])
                elif e[0] == "select": rounds[-1]["sel"] = (e[1], e[2])
            moved = []
            if len(rounds) != len(hyp_moved) + 1: return "? %d rounds for %d promotions" % (len(rounds), len(hyp_moved))
            for r, x in enumerate(rounds):
                top = x["sets"].get(1) if isinstance(x["sets"], dict) else None
                if top is None: return "? installed polynomials"
                for p, name in [(g, "goal"), (pre, "goal hypothesis")] + [(hp[j], "promoted H%d" % j) for j in moved]:
                    if p not in top: return "round %d decides without the polynomial of the %s" % (r + 1, name)
                left = [j for j in range(n) if j not in moved]
                # sample points may be left out once the outcome is known only when nothing is decided from them
                miss = [j for j in range(m) if 500 + j not in x["bad"]]
                fam = [tuple(b) for ok, b in x["bad"].values() if ok]
                last = r == len(rounds) - 1
                if last:
                    if miss: return "the goal is accepted although point %s was not examined" % miss[0]
                    if fam: return "the goal is accepted although it fails at a point: recorded %s" % [list(b) for b in fam]
                    continue
                if not fam: return "a hypothesis is promoted although the goal holds at every point examined"
                if x["sel"] is None: return "? no selection"
                if miss: return "hypotheses are selected although point %s was not examined" % miss[0]
                for b in fam:
                    if not any(set(b) <= set(s) for s in x["sel"][0]): return "the set %s recorded at a point is not given to the selection, which gets %s" % (list(b), [list(s) for s in x["sel"][0]])
                j = hyp_moved[r]
                if j not in left or left.index(j) not in x["sel"][1]: return "round %d promotes H%d, which is not among the selected %s" % (r + 1, j, [left[i] for i in x["sel"][1]])
                moved.append(j)
        run(ctx, I, "%d hypotheses, %d points%s: the goal is accepted only when it holds at every point; each promotion is a selected hypothesis" % (n, m, "" if partial else ", full lifting"), floc(c.find("check")), go, judge)
