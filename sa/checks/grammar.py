"""C03: productions of the sequent text grammar, extracted from the source and expanded on every sentence shape of the format."""
from ..registry import check
from ..check import *
from ..terms import *
from .. import pyp
import itertools

NUMERALS = [("0", 0), ("7", 7), ("42", 42), ("3.", 3), ("0.5", Fraction(1, 2)), ("12.75", Fraction(51, 4)), ("10.0", 10), ("-7", -7), ("-3.", -3), ("-0.5", Fraction(-1, 2)), ("-12.25", Fraction(-49, 4)), ("100", 100), ("1.05", Fraction(21, 20))]
NAMES = ["x", "y", "ab", "x_1", "_z", "Abs_13", "a9"]
BIN = {"+": lambda a, b: a + b, "-": lambda a, b: a - b, "*": lambda a, b: a * b, "/": lambda a, b: Fraction(a) / Fraction(b)}
RELOPS = {"<=": "Le", "<": "Lt", "=": "Eq", "!=": "Ne", ">=": "Ge", ">": "Gt"}

class Sent(object):
    """text of the format with its meaning"""
    def __init__(self, text, val): self.text = text; self.val = val
def leaf_num(t): return Sent(t[0], lambda env: Fraction(t[1]))
def leaf_var(n): return Sent(n, lambda env: env[n])
def binary(op, a, b): return Sent("(%s %s %s)" % (op, a.text, b.text), lambda env: BIN[op](a.val(env), b.val(env)))
def neg(a): return Sent("(- %s)" % a.text, lambda env: -a.val(env))
def comparison(op, a, b): return Sent("(%s %s %s)" % (op, a.text, b.text), lambda env: (RELOPS[op], a.val(env), b.val(env)))

def sentences(numerals, names, thorough):
    """terms: every production over every kind of leaf, every production nested in every operand position"""
    X, Y, Z = leaf_var(names[0]), leaf_var(names[1]), leaf_var(names[2])
    nums = [leaf_num(t) for t in numerals]
    out = [("numeral", n) for n in nums] + [("variable", leaf_var(n)) for n in names]
    for op in "+-*/":
        out.append(("operation " + op, binary(op, X, Y))); out.append(("operation " + op, binary(op, Y, X)))
        for n in nums:
            if n.val({}) != 0 or op != "/": out.append(("operation %s with numeral" % op, binary(op, X, n)))
            out.append(("operation %s with numeral" % op, binary(op, n, X)))
    out.append(("negation", neg(X))); out += [("negation", neg(n)) for n in nums]
    unary = [neg]
    inner = [binary(op, Y, Z) for op in "+-*/"] + [neg(Y)]
    for i in inner:
        out.append(("nested", neg(i)))
        for op in "+-*/":
            out.append(("nested", binary(op, i, X))); out.append(("nested", binary(op, X, i)))
            out.append(("nested", binary(op, i, binary("-", Z, X))))
    return out

def comparisons(numerals, names):
    X, Y, Z = leaf_var(names[0]), leaf_var(names[1]), leaf_var(names[2])
    out = []
    for op in RELOPS:
        out.append(comparison(op, X, Y)); out.append(comparison(op, binary("-", X, Y), leaf_num(numerals[0])))
        out.append(comparison(op, neg(X), binary("*", Y, Z))); out += [comparison(op, X, leaf_num(n)) for n in numerals[:6]]
        out.append(comparison(op, leaf_num(numerals[-1]), X))
    return out

ENVS = []
def env_for(k):
    import random
    r = random.Random(77 + k)
    return {n: Fraction(r.choice([-1, 1]) * r.randint(1, 60), r.randint(1, 7)) for n in NAMES}

def numval(M, a):
    v = a[0]
    if isinstance(v, str):
        try: return Fraction(v)
        except ValueError: raise CantEval("numeral %r" % v)
    if isinstance(v, (int, Fraction, float)): return Fraction(v)
    raise CantEval("numeral")
def intval(M, a):
    v = numval(M, a)
    if v.denominator != 1 and isinstance(a[0], str): raise CantEval("int of %r" % a[0])
    return Fraction(int(v))
def nameval(M, a):
    if isinstance(a[0], str) and a[0] in M.names: return M.names[a[0]]
    raise CantEval("name %r" % (a[0],))
def ratval(M, a):
    if len(a) == 2: return numval(M, a[:1]) / numval(M, a[1:])
    return numval(M, a)
INTERP = {"ext:sympy.Integer": intval, "ext:sympy.Float": numval, "ext:sympy.Rational": ratval, "ext:sympy.S": numval, "ext:sympy.sympify": numval, "ext:sympy.Symbol": nameval, "ext:sympy.symbols": nameval, "ext:sympy.Number": numval,
          "ext:fractions.Fraction": ratval, "toint": lambda M, a: intval(M, a), "tofloat": numval}

def value_of(I, t, env):
    M = Model({}, 0, (), INTERP); M.names = env
    v = M.ev(t)
    if isinstance(v, RelV): return (v.kind, v.lhs, v.rhs)
    return v

def agree(I, t, s):
    """None when equal on the sampled valuations, else a description"""
    for k in range(3):
        env = env_for(k)
        got, want = value_of(I, t, env), s.val(env)
        if isinstance(want, tuple) != isinstance(got, tuple): return "reads as %s" % render(t)
        if isinstance(want, tuple):
            if got[0] != want[0] or got[1] != want[1] or got[2] != want[2]: return "reads as %s(%s, %s) instead of %s(%s, %s)" % (got + want)
        elif isinstance(got, U): raise CantEval("opaque value %r" % got)
        elif got != want: return "reads as %s: %s instead of %s for %s" % (render(t), got, want, env)
    return None

def misused(t):
    """a variable used as if it were a module, class or function"""
    for x in subterms(t):
        if isinstance(x, Term) and x.op in ("mcall", "attr", "call", "ocall", "callv") and x.args and isinstance(x.args[0], Term) and x.args[0].op == "ext" and x.args[0].args and x.args[0].args[0] in ("sympy.Symbol", "sympy.symbols", "sympy.var"):
            if x.op != "mcall" or x.args[1] in ("Integer", "Float", "Rational", "Symbol", "Le", "Lt", "Ge", "Gt", "Eq", "Ne", "S", "sympify", "symbols", "Number"): return render(x)
    return None

def read(I, el, text, pick):
    """term denoted by the text, ('fail', why)"""
    k, r = pyp.expand(I, el, text)
    if k == "fail": return ("fail", "not accepted (stops at %r)" % text[r:][:20])
    return ("ok", pick(r))

def single(r):
    ts = r.toks()
    if len(ts) != 1: raise Und("production yields %d values" % len(ts))
    return ts[0]

def check_texts(ctx, I, rule, where, el, sents, before=None):
    bad = None; n = 0; und = None
    for s in sents:
        def go():
            if before is not None:
                for b_el, b_text in before:
                    try: pyp.expand(I, b_el, b_text)
                    except RaiseX: pass
            try: return read(I, el, s.text, single)
            except RaiseX as e: return ("fail", "raises %s" % (e.cls if isinstance(e.cls, str) else getattr(e.cls, "name", e.cls)))
        try:
            outs = I.explore(go, lambda o, m: setattr(o, "fz", (o.value[0], I.freeze(o.value[1]))))
            for o in outs:
                k, t = o.fz
                n += 1
                if k == "fail": bad = bad or (s.text, "%s: %s" % (s.text, t)); continue
                mis = misused(t)
                why = "is read by %s, which treats a variable as a function" % mis if mis else agree(I, t, s)
                if why: bad = bad or (s.text, "%s %s" % (s.text, why))
        except (Und, CantEval, HoistX) as e: und = und or "%s: %s" % (s.text, e)
        except ZeroDivisionError: pass
        if bad: break
    if bad: return ctx.refuted(rule, where, bad[1], bad[0])
    if und: return ctx.und(rule, where, und)
    return ctx.proved(rule, where, "%d sentence shapes" % n)

@check("C03")
def c03(ctx):
    I = ctx.interp()
    m = I.module("grf_parser")
    if m is None: return ctx.missing("vts/grf_parser.py")
    where = "vts/grf_parser.py"
    els = {n: m.f.get(n) for n in ("term", "fml", "number", "cmd", "rln")}
    for n in ("term", "fml", "cmd"):
        if not isinstance(els[n], pyp.PE): return ctx.missing("vts/grf_parser.py:%s" % n)
    byrule = {}
    for r, s in sentences(NUMERALS, NAMES, ctx.tier == "thorough"): byrule.setdefault(r, []).append(s)
    for r, ss in byrule.items(): check_texts(ctx, I, "term: %s" % r, where + ":term", els["term"], ss)
    for op in RELOPS:
        check_texts(ctx, I, "comparison %s" % op, where + ":fml", els["fml"], [c for c in comparisons(NUMERALS, NAMES) if c.text.startswith("(%s " % op)])
    # sections
    cs = [c for c in comparisons(NUMERALS, NAMES)]
    def sequents():
        for na in range(0, 4):
            for ns in range(0, 3):
                a = [cs[(7 * na + 3 * k) % len(cs)] for k in range(na)]; b = [cs[(5 * ns + 11 * k + 2) % len(cs)] for k in range(ns)]
                yield a, b, '(sequent "some, text" (antecedent %s) (succedent %s))' % (" ".join(c.text for c in a), " ".join(c.text for c in b))
    bad = und = None; n = 0
    for a, b, text in sequents():
        def go():
            k, r = pyp.expand(I, els["cmd"], text)
            if k == "fail": return ("fail", "not accepted")
            out = []
            for sec in ("antecedent", "succedent"):
                if sec not in r.names or not isinstance(r.names[sec], pyp.Res) or "fmls" not in r.names[sec].names: return ("fail", "no formulas under %s" % sec)
                f = r.names[sec].names["fmls"]
                out.append(T("list", tuple(("one", I.freeze(x)) for x in f.toks())) if isinstance(f, pyp.Res) else I.freeze(f))
            return ("ok", T("tup", *out))
        try:
            for o in I.explore(go):
                k, t = o.value if o.kind == "normal" else ("fail", "raises %s" % o.value)
                n += 1
                if k == "fail": bad = bad or (text, t); continue
                for sec, want, got in (("antecedent", a, t.args[0]), ("succedent", b, t.args[1])):
                    env = env_for(5)
                    M = Model({}, 0, (), INTERP); M.names = env
                    gv = M.ev(got)
                    gv = [(x.kind, x.lhs, x.rhs) if isinstance(x, RelV) else x for x in gv]
                    if gv != [c.val(env) for c in want]: bad = bad or (text, "%s comes back as %s" % (sec, render(got)))
        except (Und, CantEval, HoistX) as e: und = und or "%s: %s" % (text, e)
    rule = "antecedent and succedent formulas come back, in order, under their own section"
    if bad: ctx.refuted(rule, where + ":cmd", bad[1], bad[0])
    elif und: ctx.und(rule, where + ":cmd", und)
    else: ctx.proved(rule, where + ":cmd", "%d sequents" % n)
    # independence of earlier texts: names of variables may be any name the module itself uses
    glob = [g for g in sorted(m.f) if isinstance(g, str) and g.replace("_", "a").isalnum() and not g.startswith("__")]
    later = [s for r, s in sentences(NUMERALS, NAMES, False)][:30] + comparisons(NUMERALS, NAMES)[:6]
    k = 0
    for g in glob:
        o = check_texts(ctx, I, "reading a text over the variable %s leaves later texts as written" % g, where, els["fml"],
                        [c for c in comparisons(NUMERALS, NAMES)[:9:2]] + [comparison("<=", binary("+", leaf_var("x"), leaf_num(NUMERALS[5])), leaf_num(NUMERALS[1]))], before=[(els["fml"], "(< %s 1)" % g)])
        if o.status == "refuted": break
    ctx.done(I)
