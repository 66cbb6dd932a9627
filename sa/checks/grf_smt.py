"""C21, C22: hiding problems, from the text to the result line."""
import itertools, re
from ..registry import check
from ..check import *
from ..terms import *
from .. import pyp
from ..interp import Bound, PyFn, InstObj, ClassVal, DictObj, ListObj, TupV, MISSING
from .qe_common import plain
from .grf import sage, cls, VARS, RING, method, poly_handlers
from .grf_select import items, lst
from .grammar import Sent, leaf_num, leaf_var, binary, neg, comparison, BIN

NUMERALS = [("0.0", 0), ("7.", 7), ("42.0", 42), ("3.", 3), ("0.5", Fraction(1, 2)), ("12.75", Fraction(51, 4)), ("~7.", -7), ("~0.5", Fraction(-1, 2)), ("~ 12.25", Fraction(-49, 4)), ("100.", 100), ("1.05", Fraction(21, 20)), ("010.50", Fraction(21, 2)), ("1.", 1), ("1.0", 1), ("~1.", -1), ("2.5", Fraction(5, 2)), ("1000000.", 10 ** 6), ("0.001", Fraction(1, 1000))]
NAMES = ["x", "y", "ab", "x_1", "a-b", "t.2", "k:1", "A9"]
OPS = ("<=", "<", "=", "!=", ">=", ">")
NEG = {">": "<=", "<=": ">", "<": ">=", ">=": "<", "=": "!=", "!=": "="}

def word_ok(n): return n
def number(s):
    try: return Fraction(s)
    except (ValueError, ZeroDivisionError): raise Und("numeral %r" % (s,))
def machine(ctx, check_=None, **more):
    h = poly_handlers(); h["parse:now"] = True
    def div(I, a, b, n):
        if all(isinstance(x, (int, Fraction)) and not isinstance(x, bool) for x in (a, b)):
            if b == 0: raise RaiseX("ZeroDivisionError", None, n)
            r = Fraction(a) / Fraction(b)
            return int(r) if r.denominator == 1 else r
    h["binop:Div"] = div
    h["method:groebner_basis"] = lambda I, v, a, k, n: lst(*v.args) if isinstance(v, Term) and v.op == "ideal" else NotImplemented
    def fixed(v):
        """the number a polynomial is, None when it depends on its variables"""
        if isinstance(v, (int, Fraction)) and not isinstance(v, bool): return v
        if not isinstance(v, Term) or not any(x in VARS for x in syms(v)): raise Und("not a polynomial")
        try: l = {value(v, {x: Fraction(7 + 2 * k + 13 * j, 3 + k) for j, x in enumerate(VARS)}) for k in range(4)}
        except (CantEval, ZeroDivisionError): raise Und("not a polynomial")
        return l.pop() if len(l) == 1 else None
    h["method:is_constant"] = lambda I, v, a, k, n: fixed(v) is not None
    h["method:is_zero"] = lambda I, v, a, k, n: fixed(v) == 0
    h["method:is_one"] = lambda I, v, a, k, n: fixed(v) == 1
    h["method:constant_coefficient"] = lambda I, v, a, k, n: v if fixed(v) is not None else NotImplemented
    if check_ is not None: h["fn:grf.RCF_GD_Decide.check"] = check_
    h.update(more)
    I = ctx.interp(handlers=h); I.unroll = I.deep = 8
    ideal = PyFn(lambda I_, a, k, n: T("ideal", *[I_.freeze(x) for x in items(I_, a[0])]), "ideal")
    g = sage(I, ideal=ideal)
    if g is None: return I
    num = lambda v: (lambda f: int(f) if f.denominator == 1 else f)(number(v)) if isinstance(v, str) else v
    give = {x: g.f.get(x) for x in ("QE_Factory", "RCF_Atom", "RCF_Goal", "RCF_GD_Decide") if g.f.get(x) is not None}
    sage(I, "smt2", sage_eval=PyFn(lambda I_, a, k, n: num(a[0]), "sage_eval"), ideal=ideal, **give)
    I.handlers["call:ring"] = I.handlers["call:sageQQ"] = lambda I_, f, a, k, n: num(a[0])
    return I

def parser(I, context=None):
    c = I.module("smt2").f.get("ParseSMT")
    return I.instantiate(c, [], {"interactive": False}, None)

def form(I, a):
    a = I.thaw(a) if isinstance(a, Term) else a
    if not isinstance(a, InstObj): raise Und("atom %r" % (a,))
    op, p = I.getattr(a, "op"), I.getattr(a, "poly")
    if not isinstance(op, str): raise Und("relation")
    return (op, p)
def forms(I, l): return Box(tuple(form(I, x) for x in items(I, l)))

def value(t, env):
    if isinstance(t, (int, Fraction)): return Fraction(t)
    v = Model(env, 0, (), {}).ev(t)
    if isinstance(v, (int, Fraction)) and not isinstance(v, bool): return Fraction(v)
    raise CantEval("value of %s" % render(t))
def envs(names, k):
    import random
    r = random.Random(91 + k)
    return {n: Fraction(r.choice([-1, 1]) * r.randint(1, 97), r.randint(1, 9)) for n in names}
def meaning(s, env):
    k, a, b = s.val(env)
    return a - b
KIND = {"<=": "Le", "<": "Lt", "=": "Eq", "!=": "Ne", ">=": "Ge", ">": "Gt"}
def op_of(s): return s.text[1:].split(" ", 1)[0]

def assignments(polys, names):
    """ways to see the ring's variables as the names of the text"""
    vs = [v for v in VARS if any(isinstance(p, Term) and v in syms(p) for p in polys)]
    other = {s for p in polys if isinstance(p, Term) for s in syms(p)} - set(vs)
    if other: raise CantEval("unknown %s" % render(sorted(other, key=str)[0]))
    if len(vs) > len(names): return
    for pick in itertools.permutations(names, len(vs)): yield dict(zip(vs, pick))

def same_formulas(got, want, names):
    """formulas (relation, polynomial) against comparisons of the text, in order; None when they agree"""
    if len(got) != len(want): return "%d formulas instead of %d" % (len(got), len(want))
    for (o, p), (so, s) in zip(got, want):
        if o != so: return "%s comes back with relation %s%s" % (s.text, o, " instead of %s" % so if so != op_of(s) else "")
    polys = [p for o, p in got]
    for al in assignments(polys, names):
        ok = True
        for k in range(3):
            env = envs(NAMES, k); ring = {v: env[n] for v, n in al.items()}
            try:
                if any(value(p, ring) != meaning(s, env) for p, (so, s) in zip(polys, want)): ok = False
            except ZeroDivisionError: pass
            if not ok: break
        if ok: return None
    return "%s reads as %s" % ("; ".join(s.text for so, s in want), "; ".join("%s %s 0" % (render(p) if isinstance(p, Term) else p, o) for o, p in got))

def texts():
    X, Y, Z = [leaf_var(n) for n in NAMES[:3]]
    nums = [leaf_num(t) for t in NUMERALS]
    zero = nums[0]
    out = []
    for n in nums: out.append(("numerals", comparison("<", X, n))); out.append(("numerals", comparison("<", n, X))); out.append(("numerals", comparison(">=", n, nums[3])))
    for a, b in itertools.permutations(NAMES, 2): out.append(("names", comparison("<=", leaf_var(a), binary("*", leaf_num(("3.", 3)), leaf_var(b)))))
    for a in NAMES: out.append(("names", comparison("<", binary("*", leaf_var(a), leaf_var(a)), zero)))
    out.append(("names", comparison("<", binary("+", binary("*", X, nums[5]), binary("-", Y, binary("*", Z, leaf_var("x_1")))), binary("*", leaf_var("A9"), leaf_var("a-b")))))
    for o in OPS:
        for a, b in ((X, Y), (Y, X), (binary("-", X, Y), zero), (neg(X), binary("*", Y, Z)), (nums[6], X), (X, nums[4])): out.append(("relation " + o, comparison(o, a, b)))
    for op in "+-*":
        out += [("operation " + op, comparison("<=", binary(op, a, b), Z)) for a, b in ((X, Y), (Y, X), (X, X))]
        out += [("operation " + op, comparison("<=", binary(op, a, b), Z)) for n in nums for a, b in ((X, n), (n, X))]
    for n in nums[1:]: out.append(("operation /", comparison("<=", binary("/", X, n), Z))); out.append(("operation /", comparison("<=", binary("/", n, nums[3]), Z))); out.append(("operation /", comparison("<=", binary("/", nums[3], n), Z)))
    for a, b in [(0, 1), (1, 0), (1, 3), (4, 5), (6, 7), (12, 14), (14, 12), (1, 1), (15, 17)]:
        for op in "+-*": out.append(("numbers", comparison("<=", binary(op, nums[a], nums[b]), X))); out.append(("numbers", comparison(">", binary("*", X, binary(op, nums[a], nums[b])), Y)))
    for d in (1, 4, 12, 14): out.append(("operation /", comparison("<", binary("/", binary("*", X, X), nums[d]), Y))); out.append(("operation /", comparison("<", binary("/", zero, nums[d]), Y)))
    for n in nums: out.append(("negation", comparison("<", neg(n), Y)))
    out.append(("negation", comparison("<", neg(X), Y)))
    inner = [binary(op, Y, Z) for op in "+-*"] + [neg(Y), binary("/", Y, nums[2])]
    for i in inner:
        out.append(("nested", comparison("<", neg(i), X)))
        for op in "+-*":
            for t in (binary(op, i, X), binary(op, X, i), binary(op, i, binary("-", Z, X))): out.append(("nested", comparison(">", t, Y)))
        out.append(("nested", comparison(">", binary("/", i, nums[1]), Y)))
    return out

def explore(I, go):
    """(value, decided?) of every path"""
    out = []
    def cap(o, m):
        few = I.S.get("fewv", {})
        soft = [c for c in o.lits if subst(c, few) is not True]
        out.append((o.value if o.kind == "normal" else ("raise", o.kind), dict(few), soft))
    I.explore(lambda: attempt(I, go), cap, 4000)
    return out

@check("C21")
def c21(ctx):
    I = machine(ctx); m = I.module("smt2")
    where = "GRF/smt2.py:ParseSMT"
    if m is None or not isinstance(m.f.get("ParseSMT"), ClassVal): return ctx.missing(where)
    byrule = {}
    for r, s in texts(): byrule.setdefault(r, []).append(s)
    for r, ss in byrule.items():
        I = machine(ctx); bad = und = None; n = 0
        for s in ss:
            try:
                for (k, v), few, soft in explore(I, lambda: forms(I, method(I, parser(I), "fmlsTokenList", [s.text]))):
                    n += 1
                    why = "%s: raises %s" % (s.text, v) if k == "raise" else same_formulas(v.v, [(op_of(s), s)], NAMES)
                    if why and soft: und = und or "undecided path"
                    elif why: bad = bad or (s.text, why)
            except (Und, CantEval, HoistX, RecursionError) as e: und = und or "%s: %s" % (s.text, e)
            if bad: break
        ctx.done(I)
        rule = "reading a formula: %s" % r
        if bad: ctx.refuted(rule, where, bad[1], bad[0])
        elif und: ctx.und(rule, where, und)
        else: ctx.proved(rule, where, "%d sentence shapes" % n)
    c21_sequents(ctx, where)

CS = [s for r, s in texts() if r.startswith("relation") or r == "nested"]
def sequent(na, ns, k, label="some, text ==> more"):
    a = [CS[(7 * na + 3 * j + k) % len(CS)] for j in range(na)]; b = [CS[(5 * ns + 11 * j + 2 + k) % len(CS)] for j in range(ns)]
    return a, b, '(sequent "%s" (antecedent %s) (succedent %s))' % (label, " ".join(c.text for c in a), " ".join(c.text for c in b))

def c21_sequents(ctx, where):
    """what the filter is run on"""
    shapes = [(na, ns) for na in range(4) for ns in range(1, 4)]
    runs = []
    for na, ns in shapes: runs.append(("a single problem", [("same", sequent(na, ns, 0))], na, ns))
    for (na, ns), (ma, ms) in [((0, 1), (1, 1)), ((2, 1), (1, 2)), ((1, 3), (2, 2)), ((2, 2), (0, 1)), ((3, 1), (3, 1))]:
        for mode in ("same", "context", "clear", "one text", "fresh"):
            runs.append(({"same": "a second problem read by the same parser", "context": "a second problem read into another context", "clear": "a problem read after clearing the context",
                          "one text": "the second of two problems in one text", "fresh": "a problem read by another parser"}[mode], [("same", sequent(na, ns, 0)), (mode, sequent(ma, ms, 4))], ma, ms))
    groups = {}
    for label, hist, na, ns in runs: groups.setdefault(label, []).append(hist)
    for label, hists in groups.items():
        bad = und = None; n = 0
        for hist in hists:
            seen = ListObj([])
            def captured(I, f, a, k, nd):
                d = a[0]; g = d.f.get("goal")
                I.w(seen.f, "segs", seen.f["segs"] + (("one", TupV([forms(I, d.f["hyps"]), Box((form(I, I.getattr(g, "main_goal")),)), forms(I, I.getattr(g, "goal_hyps"))])),))
                return lst()
            I = machine(ctx, captured)
            def go():
                p = parser(I)
                for j, (mode, (a, b, text)) in enumerate(hist):
                    if mode == "one text": continue
                    if mode == "fresh": p = parser(I)
                    if mode == "clear": method(I, p, "clearContext", [])
                    if j + 1 < len(hist) and hist[j + 1][0] == "one text": text = text + "\n" + hist[j + 1][1][2]
                    if mode == "context":
                        mine = I.instantiate(I.module("smt2").f["SMTContext"], [], {"interactive": False}, None)
                        r = method(I, p, "processCommands", [text], {"context": mine})
                        if r is not mine or I.getattr(mine, "hiding_result") is None: return Box(None)
                    else: method(I, p, "processCommands", [text])
                return Box(tuple(items(I, seen)))
            try:
                for (k, v), few, soft in explore(I, go):
                    n += 1
                    why = "raises %s" % v if k == "raise" else None
                    if not why:
                        v = v.v
                        if v is None: why, v = "the context given is not the one that is filled", ()
                        elif len(v) != len(hist): why = "the filter is run %d times for %d problems" % (len(v), len(hist))
                        for one, (mode, (a, b, text)) in zip(v, hist):
                            hy, g, gh = [x.v for x in one.items]
                            why = why or against(hy, g[0], gh, a, b)
                            if why: why = "%s: %s" % (text, why); break
                    if why and soft: und = und or "undecided path"
                    elif why: bad = bad or (hist[-1][1][2], why)
            except (Und, CantEval, HoistX, RecursionError) as e: und = und or str(e)
            ctx.done(I)
            if bad: break
        rule = "the filter gets the sequent as written: %s" % label
        if bad: ctx.refuted(rule, where, bad[1][:900], bad[0])
        elif und: ctx.und(rule, where, und)
        else: ctx.proved(rule, where, "%d problems" % n)

def against(hy, goal, gh, a, b):
    """hypotheses and goal against the written antecedent and succedent"""
    if gh: return "the goal starts with hypotheses"
    last = None
    for gi in range(len(b)):
        want = [(op_of(s), s) for s in a] + [(NEG[op_of(s)], s) for j, s in enumerate(b) if j != gi]
        if len(hy) != len(want): return "%d hypotheses for %d antecedent and %d succedent formulas" % (len(hy), len(a), len(b))
        if goal[0] != op_of(b[gi]): last = last or "the goal has relation %s" % goal[0]; continue
        rest = want[len(a):]
        for perm in itertools.permutations(range(len(rest))):
            for front in (True, False):
                w = want[:len(a)] + [rest[j] for j in perm] if front else [rest[j] for j in perm] + want[:len(a)]
                r = same_formulas([goal] + list(hy), [(op_of(b[gi]), b[gi])] + w, NAMES)
                if r is None: return None
                last = r if last is None or gi == len(b) - 1 else last
    return last or "no goal"

# ------------------------------------------------------------------ hiding
@check("C22")
def c22(ctx):
    c22_indices(ctx); c22_line(ctx)

def c22_indices(ctx):
    where = "GRF/smt2.py:SMTContext.perform_grf"
    INEQ = [s for s in CS if op_of(s) != "="]
    for na, ns, alike in [(0, 1, False), (1, 1, False), (2, 1, False), (3, 1, False), (0, 2, False), (1, 2, False), (2, 2, False), (0, 3, False), (1, 3, False), (2, 3, False), (3, 2, False), (2, 1, True), (1, 2, True), (2, 2, True), (0, 3, True)]:
        for eq in (False, True):
            if eq and (na == 0 or alike): continue
            a = [INEQ[(3 * j) % len(INEQ)] for j in range(na)]; b = [INEQ[(5 * j + 1) % len(INEQ)] for j in range(ns)]
            if eq: a = [[s for s in CS if op_of(s) == "="][0]] + a[1:]
            if alike: a, b = [INEQ[0]] * na, [INEQ[0]] * ns
            text = '(sequent "t" (antecedent %s) (succedent %s))' % (" ".join(s.text for s in a), " ".join(s.text for s in b))
            rule = "%d antecedent and %d succedent formulas%s%s: the positions reported are those of the formulas not used" % (na, ns, ", all alike" if alike else "", ", with an equation" if eq else "")
            got = DictObj([]); got.f["v"] = None
            def use(I, f, x, k, nd):
                """the filter uses some of the hypotheses"""
                d = x[0]; hyps = items(I, d.f["hyps"])
                keep = T("sym", "hypotheses used", "int"); I.few[keep] = tuple(range(2 ** len(hyps)))
                mask = I.narrow(keep); order = [j for j in range(len(hyps)) if mask >> j & 1]
                ident = {}
                for j, h in enumerate(hyps): ident[j] = h
                goal = I.getattr(d.f["goal"], "main_goal")
                ant = items(I, I.ctx_ant); suc = items(I, I.ctx_suc)
                I.w(got.f, "v", (tuple(j for j, h in enumerate(ant) if not any(hyps[u] is h for u in order)), tuple(j for j, h in enumerate(suc) if h is not goal and not any(hyps[u] is h for u in order)), tuple(order),
                    tuple(j for j, h in enumerate(suc) if h is goal), all(any(h is y for y in hyps) for h in ant), all(h is goal or any(h is y for y in hyps) for h in suc)))
                for j in reversed(order): method(I, d, "promote_right", [j])
                return lst()
            def note_a(I, f, x, k, nd): I.ctx_ant = lst(*items(I, x[1])); return NotImplemented
            def note_s(I, f, x, k, nd): I.ctx_suc = lst(*items(I, x[1])); return NotImplemented
            I = machine(ctx, use, **{"fn:smt2.SMTContext.add_antecedent": note_a, "fn:smt2.SMTContext.add_succedent": note_s})
            m = I.module("smt2")
            if m is None or not isinstance(m.f.get("SMTContext"), ClassVal) or any(m.f["SMTContext"].find(z) is MISSING for z in ("perform_grf", "add_antecedent", "add_succedent")): return ctx.missing(where)
            def go():
                I.ctx_ant = I.ctx_suc = None
                c = method(I, parser(I), "processCommands", [text])
                return TupV([Box(got.f["v"]), I.getattr(c, "hiding_result")])
            bad = und = None; n = 0
            def cap(o, mk):
                nonlocal bad, und, n
                n += 1
                few = I.S.get("fewv", {}); soft = [c for c in o.lits if subst(c, few) is not True]
                why = None
                k, v = o.value if o.kind == "normal" else ("raise", o.kind)
                if k == "raise": why = "raises %s" % v
                else:
                    w, h = v.items[0].v, plain(I, v.items[1])
                    if w is None: raise Und("the filter is not run")
                    if not w[4] or not w[5] or not w[3]: raise Und("hypotheses are not the formulas read")
                    if not isinstance(h, dict) or not all(isinstance(h.get(z), (list, tuple)) and all(isinstance(i, int) for i in h[z]) for z in ("hide_antecedent", "hide_succedent")): raise Und("result %r" % (h,))
                    for z, want, form_, size in (("hide_antecedent", w[0], "antecedent", na), ("hide_succedent", w[1], "succedent", ns)):
                        if any(not 0 <= i < size for i in h[z]): why = why or "%s position %s does not exist" % (form_, [i for i in h[z] if not 0 <= i < size][0])
                        elif tuple(sorted(h[z])) != tuple(sorted(want)): why = why or "%s positions %s are reported instead of %s when hypotheses %s are used and the goal is succedent %s" % (form_, sorted(h[z]), list(want), list(w[2]), list(w[3]))
                if why and soft: und = und or "undecided path"
                elif why: bad = bad or why
            try: I.explore(lambda: attempt(I, go), cap, 4000)
            except (Und, CantEval, HoistX, RecursionError) as e: und = und or str(e)
            ctx.done(I)
            if bad: ctx.refuted(rule, where, bad, text)
            elif und: ctx.und(rule, where, und)
            else: ctx.proved(rule, where, "%d paths" % n)

def c22_line(ctx):
    where = "GRF/smt2.py:grf_on_file"
    for ant, suc in [((), ()), ((0,), ()), ((), (0,)), ((0, 2), (1,)), ((1,), (0, 2, 3)), ((0, 1, 12), ()), ((3,), (3,))]:
        rule = "the result line for antecedent %s and succedent %s" % (list(ant), list(suc))
        out = DictObj([]); out.f["v"] = ()
        def proc(I, f, x, k, nd):
            c = x[0].f["context"]
            I.w(c.f, "hiding_result", DictObj([("kv", "hide_antecedent", lst(*ant)), ("kv", "hide_succedent", lst(*suc))])); I.w(c.f, "sequent_str", "p > 0 ==> q")
            return c
        F = T("sym", "file")
        def write(I, v, x, k, nd):
            I.w(out.f, "v", out.f["v"] + (x[0],)); return None
        I = machine(ctx, None, **{"fn:smt2.ParseSMT.processCommands": proc, "builtin:open": lambda I, a, k, nd: F, "method:read": lambda I, v, a, k, nd: "text" if v is F else NotImplemented,
                                  "method:write": lambda I, v, a, k, nd: write(I, v, a, k, nd) if v is F else NotImplemented, "method:close": lambda I, v, a, k, nd: None if v is F else NotImplemented})
        f = I.func("smt2", "grf_on_file")
        if f is None: return ctx.missing(where)
        def go():
            I.call(f, ["problem"], {"outfile": "out", "interactive": False}); return Box(out.f["v"])
        bad = und = None
        try:
            for (k, v), few, soft in explore(I, go):
                if k == "raise": why = "raises %s" % v
                else:
                    line = "".join(x if isinstance(x, str) else "\0" for x in v.v)
                    if "\0" in line or not line: raise Und("written text %r" % (v.v,))
                    A = [int(x) for x in re.findall(r"hide_antecedent_(\d+)", line)]; S = [int(x) for x in re.findall(r"hide_succedent_(\d+)", line)]
                    why = None if sorted(A) == sorted(ant) and sorted(S) == sorted(suc) and "p > 0 ==> q" in line else "the line is %s" % line
                if why and soft: und = und or "undecided path"
                elif why: bad = bad or why
        except (Und, CantEval, HoistX, RecursionError) as e: und = und or str(e)
        ctx.done(I)
        if bad: ctx.refuted(rule, where, bad, "hiding result %s, %s" % (list(ant), list(suc)))
        elif und: ctx.und(rule, where, und)
        else: ctx.proved(rule, where, "result line")
