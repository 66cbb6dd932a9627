"""C18, C19: what a call changes and what it remembers (effect analysis, sa/effects.py)."""
import sys
from ..registry import check
from ..front import Node, UNITS
from ..check import *
from ..terms import *
from .. import effects
from ..effects import *
from ..terms import T
from . import qe_api, grf_points, grf_smt
from .vts_matrix import Disk, process, hooks, KINDS

P = ("L", None); PS = ("L", P); D = ("D", None, None)
class At(object): lineno = 0
AT = At()

VTS = [("uni_vts", n, t) for n, t in [
    ("internal_ts", [PS] * 4), ("internal_vts", [PS] * 4), ("multiply", [P, P]), ("make_product_list", [PS]), ("signed_pseudo_remainder", [P, P]), ("signed_remainder_sequence", [P, P]),
    ("signed_remainder_cauchy_index", [P, P]), ("tarski_query", [P, P]), ("check_powers", [PS, PS]), ("make_poly_hashabel", [P]), ("sign_conditions_lookup", [PS] * 4), ("derivative", [P]),
    ("get_discri_der_signs", [P, P]), ("evaluate", [None] + [PS] * 4), ("evaluate_poly", [P, None]), ("evaluate_vts_root", [None, PS, PS])]]
VTS += [("isym", "ts", [P] * 4), ("isym", "vts", [P] * 4), ("isym", "convert_rationals_to_ints", [P]), ("isym", "convert_back", [P]),
        ("checker", "make_relation_map", [P]), ("checker", "vts_preformat", [P, P]), ("checker", "rewrite_to_less", [P]), ("checker", "negate_relations", [P]), ("examples_parser", "make_univariate", [P])]
# with the signs of a root as the caller holds them
SIGNS = [("sign_func", None), ("get_sign_by_direct_calc", [PS, "d"]), ("pick_sign_of_goal", [PS, "d", None]), ("evaluate_single_on_sign_assignment", ["d", P]), ("e_close_evaluate_single_on_sign_assignment", ["d", P]),
         ("e_close_evaluate_on_sign_assignment", ["d", PS, D]), ("evaluate_on_sign_assignment", ["d", PS, D])]
QE = [("muchnik", "Muchniker", n, t) for n, t in [("muchnik_sequence", [P, P]), ("complex_full", [P, P]), ("real_full", [P, P, P]), ("complex_partial", [P]), ("real_partial", [P])]
      + [(k + "_assignment_" + x, [P]) for k, xs in (("c", ("all_one", "all_zero", "interactive")), ("r", ("all_pos", "all_zero", "all_neq", "interactive"))) for x in xs]]
QE += [("cohenhorm", "CohenHormander", "real_full", [P, P, P])]

class Runner(object):
    def __init__(self, ctx):
        sys.setrecursionlimit(20000)
        self.ctx = ctx; self.E = Effects(ctx.mods); self.E.start(); self.made = {}
        # containers made when the modules are loaded: a call that returns one hands its caller all earlier calls' changes
        self.loaded = {o for c in self.E.objs.values() if c.kind in ("cls", "mod", "func") for v in self.E.heap[c].values() for o in v if o.kind in ("list", "set", "dict")}
    def given(self, r, fr):
        for o in r or ():
            if o in self.loaded: self.E.read(o, "content", fr, AT)
        return True
    def fn(self, m, n): 
        v = self.E.heap[self.E.modenv[m]].get(n, NONE) if m in self.E.modenv else NONE
        return frozenset(o for o in v if o.kind in ("func", "cls"))
    def frame(self, m, *tag):
        return Frame(m if m in self.E.mods else sorted(self.E.mods)[0], None, ("entry",) + tag)
    def inst(self, m, c, args=(), kw=None, tag="", lasting=False):
        """an instance made by its own constructor; a lasting one belongs to the state kept between calls"""
        if lasting and (m, c, tag) in self.made: return self.made[(m, c, tag)]
        E = self.E; ph = E.phase
        if lasting: E.phase = "init"
        node = self.made.setdefault(("node", m, c, tag), At())
        r = NONE
        for o in self.fn(m, c):
            if o.kind == "cls": r |= E.instantiate(o, list(args), dict(kw or {}), self.frame(m, c, tag), node, None)
        E.phase = ph
        if lasting: self.made[(m, c, tag)] = r
        return r
    def bare(self, m, c, **attrs):
        """an instance with the given attributes"""
        E = self.E; r = NONE
        for k in self.fn(m, c):
            if k.kind != "cls": continue
            o = E.obj(("bare", m, c), "inst", cls=k); r |= one(o)
            for a, v in attrs.items(): E.put(o, a, v)
        return r
    def method(self, v, name, args, tag, kw=None):
        E = self.E; f = NONE; fr = self.frame(v and E.modfile_of(v) or "grf", tag)
        for o in v: f |= E.attr(o, name, fr, AT)
        f = frozenset(x for x in f if x.kind in ("bound", "func"))
        if not f: return False
        return self.given(E.call(f, args, dict(kw or {}), fr, AT), fr)
    def call(self, m, n, args, tag, kw=None):
        f = self.fn(m, n)
        if not f: return False
        fr = self.frame(m, tag); return self.given(self.E.call(f, args, dict(kw or {}), fr, AT), fr)

def _modfile_of(self, v):
    for o in v:
        if o.cls is not None and o.cls.data: return o.cls.data[1].mod
    return None
Effects.modfile_of = _modfile_of

def algebra(R, lasting=False, cached=False): return R.inst("cachedsympywrapper" if cached else "sympywrapper", "CachedSympyWrapper" if cached else "SympyWrapper", [NONE], tag="alg", lasting=lasting)

def atom(R): return R.inst("grf", "RCF_Atom", [NONE, NONE, NONE], tag="atom")
def goal(R, hyps=None): return R.inst("grf", "RCF_Goal", [], {"main_goal": atom(R), "goal_hyps": hyps if hyps is not None else ("list",) and R.E.typed(("L", atom(R)), "the goal's hypotheses")}, tag="goal")
def problem(R):
    p = R.inst("grf", "RCF_GD_Decide", [NONE], tag="problem")
    for o in p:
        R.E.put(o, "goal", R.inst("grf", "RCF_Goal", [], {"main_goal": atom(R)}, tag="goal2"))
        l = R.E.obj(("hyps",), "list"); R.E.put(l, "*", atom(R)); R.E.put(o, "hyps", one(l))
    return p

def entries(R, kept):
    """(label, where, run) for every entry point; kept: instances of the elimination classes belong to the state"""
    out = []; T = R.E.typed
    def add(label, where, run): out.append((label, where, run))
    def args(label, ts, extra=None):
        return [extra if t == "d" else T(t, "argument %d of %s" % (i + 1, label)) for i, t in enumerate(ts)]
    for m, n, ts in VTS: add(n, "%s:%s" % (UNITS[m], n), lambda m=m, n=n, ts=ts: R.call(m, n, args(n, ts), n))
    def signs():
        E = R.E; was = dict(E.muts)
        v = R.inst("uni_vts", "DiscDerSigns", [NONE], tag="signs"); E.muts = was
        for o in v:
            for a, x in list(E.heap[o].items()):
                for y in x:
                    if not a.startswith("_") and y.kind == "list" and not y.state: y.inp = "%s of the signs of the root" % a
        return v
    for n, ts in SIGNS:
        if ts: add(n, "vts/uni_vts.py:" + n, lambda n=n, ts=ts: R.call("uni_vts", n, args(n, ts, signs()), n))
    for m, c, n, ts in QE:
        add("%s.%s" % (c, n), "%s:%s.%s" % (UNITS[m], c, n), lambda m=m, c=c, n=n, ts=ts: R.method(R.inst(m, c, [algebra(R, kept)], tag="qe", lasting=kept), n, args("%s.%s" % (c, n), ts), c + n))
    G = "GRF/grf.sage:"; L = "GRF/local_search.py:"
    add("RCF_Atom.eval_on_dict", G + "RCF_Atom.eval_on_dict", lambda: R.method(atom(R), "eval_on_dict", args("RCF_Atom.eval_on_dict", [D]), "a"))
    add("RCF_Atom.quotient_ring_inject", G + "RCF_Atom.quotient_ring_inject", lambda: R.method(atom(R), "quotient_ring_inject", args("RCF_Atom.quotient_ring_inject", [P]), "a"))
    add("RCF_Goal.eval_on_dict", G + "RCF_Goal.eval_on_dict", lambda: R.method(goal(R), "eval_on_dict", args("RCF_Goal.eval_on_dict", [D]), "a"))
    add("RCF_Goal.add_goal_hyp", G + "RCF_Goal.add_goal_hyp", lambda: R.method(goal(R), "add_goal_hyp", [atom(R)], "a") and R.method(goal(R), "add_goal_hyp", [atom(R)], "a", {"use_gbs": NONE}))
    add("RCF_GD_Decide.k_sample_points_in_ball", G + "RCF_GD_Decide.k_sample_points_in_ball", lambda: R.method(problem(R), "k_sample_points_in_ball", args("k_sample_points_in_ball", [D, None, None]), "a"))
    add("RCF_GD_Decide.sample_points", G + "RCF_GD_Decide.sample_points", lambda: R.method(problem(R), "sample_points", args("sample_points", [D]), "a"))
    add("RCF_GD_Decide.bad_subsets_on_dict", G + "RCF_GD_Decide.bad_subsets_on_dict", lambda: R.method(problem(R), "bad_subsets_on_dict", args("bad_subsets_on_dict", [D]), "a"))
    add("RCF_GD_Decide.good_hyps", G + "RCF_GD_Decide.good_hyps", lambda: R.method(problem(R), "good_hyps", args("good_hyps", [PS]), "a"))
    add("ProjOrd", G + "ProjOrd", lambda: [R.method(R.inst("grf", "ProjOrd", args("ProjOrd", [P, P]), tag="po"), n, [], "a") for n in ("compute_stats", "compute_proj_ord")][-1])
    q = lambda: R.inst("grf", "QE_Factory", [NONE], tag="q")
    amb = lambda: T(("L", atom(R)), "the hypotheses handed to the sampling")
    for n, ts in [("filter_proj_set", [P]), ("iso_root_intvls", [P]), ("sp_dict", [P])]:
        add("QE_Factory." + n, G + "QE_Factory." + n, lambda n=n, ts=ts: R.method(q(), n, args(n, ts), "a"))
    add("QE_Factory.sector_sps", G + "QE_Factory.sector_sps", lambda: R.method(q(), "sector_sps", args("sector_sps", [("L", ("L", None))]), "a", {"ambient_hyps": amb()}))
    add("QE_Factory.sample_pt_dicts", G + "QE_Factory.sample_pt_dicts", lambda: R.method(q(), "sample_pt_dicts", [], "a", {"ambient_hyps": amb(), "goal": goal(R)}))
    add("RCF_GD_Decide.check", G + "RCF_GD_Decide.check", lambda: R.method(problem(R), "check", [], "a"))
    for n, ts in [("perturb", [P, None]), ("perturb_dict", [D, None]), ("truth_sig", ["p", D]), ("choose_atom_softzero", ["p", P]), ("choose_atom_random", ["p", P]), ("choose_atom_true", ["p", P]), ("eval_poly", [None, P]),
                  ("get_num_flipping_func", ["a", P, None]), ("get_symb_flipping_func", ["a", P, None]), ("get_num_falsifying_func", ["a", P]), ("softzero_sample", [P]), ("local_search_sampling", ["p", D, None])]:
        def run(n=n, ts=ts):
            v = [problem(R) if t == "p" else atom(R) if t == "a" else T(t, "argument %d of %s" % (i + 1, n)) for i, t in enumerate(ts)]
            return R.call("local_search", n, v, n)
        add(n, L + n, run)
    for n, ts in [("dict2vect", [D]), ("vect2dict", [P]), ("var_order", [D])]:
        add("VarOrder." + n, L + "VarOrder." + n, lambda n=n, ts=ts: R.method(R.fn("local_search", "VarOrder"), n, args("VarOrder." + n, ts), "v"))
    return out

@check("C18")
def c18(ctx):
    R = Runner(ctx); E = R.E
    for label, where, run in entries(R, False):
        E.muts = {}; found = []
        try: E.run(lambda: found.append(run()))
        except RecursionError as e: ctx.und("%s leaves its inputs as they were" % label, where, "analysis: recursion"); continue
        if not any(found): ctx.und("%s leaves its inputs as they were" % label, where, "not found"); continue
        rule = "%s leaves its inputs as they were" % label
        if E.muts:
            inp, ev = sorted(E.muts.items())[0]; (file, fnn, line, _), how = sorted(ev.items(), key=lambda x: x[0][:3])[0]
            ctx.refuted(rule, where, "%s is changed in place by %s (%s:%d, %s)" % (inp, fnn, file, line, {"subscript": "element assignment", "+=": "augmented assignment"}.get(how, how)), "%s:%d" % (file, line))
        else: ctx.proved(rule, where, "%d functions reached" % len(E.called))
        reached(ctx, E)

def reached(ctx, E):
    for f in E.called: ctx.functions.add((f[0], f[1]) if isinstance(f, tuple) and len(f) > 1 else ("", str(f)))
    E.called = set()

# ------------------------------------------------------------------ state between calls
# the entry points a property speaks about: what it promises holds for every call, not only for the first
REPEAT = {"C01": ["vts_preformat"], "C02": ["make_relation_map"], "C03": ["reading a formula"], "C04": ["make_univariate"], "C06": ["internal_ts", "internal_vts"],
          "C07": ["sign_conditions_lookup"], "C08": ["signed_pseudo_remainder", "signed_remainder_sequence", "signed_remainder_cauchy_index", "tarski_query"], "C09": ["make_product_list", "check_powers"],
          "C10": ["get_discri_der_signs"], "C12": ["convert", "convert_rationals_to_ints", "convert_back"], "C13": ["multiply", "derivative", "evaluate_poly"],
          "C14": ["Muchniker.complex_partial", "Muchniker.real_partial", "Muchniker.c_assignment_all_one"], "C15": ["Muchniker.complex_full", "Muchniker.real_full", "CohenHormander.real_full"],
          "C20": ["RCF_Atom.eval_on_dict", "RCF_Goal.eval_on_dict"], "C23": ["ProjOrd", "QE_Factory.filter_proj_set", "QE_Factory.iso_root_intvls", "QE_Factory.sector_sps", "QE_Factory.sp_dict"]}
for _id, _labels in REPEAT.items():
    check(_id)(lambda ctx, ls=_labels: state_rules(ctx, ls, "the answers of %s do not depend on earlier calls"))

def conversation(R):
    """entry points whose answers must not depend on earlier calls"""
    out = [e for e in entries(R, True) if not e[0].startswith("VarOrder") and e[0] not in ("choose_atom_softzero", "choose_atom_true", "eval_poly", "get_num_flipping_func", "get_symb_flipping_func", "get_num_falsifying_func")]
    for m, n, k in [("isym", "convert", 1), ("checker", "check_examples", 1), ("examples_parser", "examples_preformat_uni", 0), ("examples_parser", "parse_example_dirs", 0), ("examples_parser", "parse_files_from_dir", 1), ("examples_parser", "unpickle_dirs", 0),
                    ("examples_parser", "unpickle_dirs_gen", 0), ("examples_parser", "unpickle_from_dir", 1), ("matrix_of_signs", "get_matrix", 1), ("matrix_of_signs", "get_matrix_inverse", 1), ("smt2", "grf_on_file", 1)]:
        out.append((n, "%s:%s" % (UNITS[m], n), lambda m=m, n=n, k=k: R.call(m, n, [NONE] * k, n)))
    for m, c in [("sympywrapper", "SympyWrapper"), ("cachedsympywrapper", "CachedSympyWrapper")]:
        for n, k in [("LT", 1), ("LC", 1), ("LS", 1), ("degree", 1), ("div", 2), ("p_tail", 1), ("e_var", 0), ("has_variable", 1), ("pseudo_div", 2), ("derivative", 1), ("zero", 0), ("sign", 1)]:
            out.append(("%s.%s" % (c, n), "%s:%s.%s" % (UNITS[m], c, n), lambda m=m, c=c, n=n, k=k: R.method(algebra(R, True, c[0] == "C"), n, [NONE] * k, c + n)))
    def grammar():
        for k, o in sorted(R.E.callbacks.items(), key=str): R.E.call(one(o), [NONE] * 3, {}, R.frame("grf_parser", "cb"), AT)
        return bool(R.E.callbacks)
    out.append(("reading a formula", "vts/grf_parser.py", grammar))
    out.append(("reading a hiding problem", "GRF/smt2.py:ParseSMT", lambda: R.method(R.inst("smt2", "ParseSMT", [], tag="parse"), "processCommands", [NONE], "a")))
    return out

@check("C19")
def c19(ctx): state_rules(ctx)

def state_rules(ctx, only=None, rule_of="%s: no state of earlier calls"):
    """effects of the entry points on state that outlives a call, and what they read of it"""
    R = Runner(ctx); E = R.E
    per = []
    for label, where, run in conversation(R):
        if only is not None and label not in only: continue
        E.writes, E.reads, found = {}, {}, []; E.called = set()
        try: E.run(lambda: found.append(run()))
        except RecursionError: ctx.und(rule_of % label, where, "analysis: recursion"); continue
        rule = rule_of % label
        if not any(found): ctx.und(rule, where, "not found"); continue
        per.append((label, where, rule, E.writes, E.reads, len(E.called))); reached(ctx, E)
    written = {}
    for p in per:
        for c, w in p[3].items(): written.setdefault(c, {}).update(w)
    allreads = {}
    for p in per:
        for c, r in p[4].items(): allreads.setdefault(c, {}).update(r)
    J = Judge(R, written); J.public = {p[0].split(".")[-1] for p in per}
    verdicts = {c: J.cell(c, written[c], allreads.get(c, {})) for c in written}
    for label, where, rule, w, r, k in per:
        bad = [(c, verdicts[c]) for c in r if c in verdicts and any(not x[3] for x in r[c].values()) and verdicts[c][0] == "bad"]
        soft = [(c, verdicts[c]) for c in r if c in verdicts and any(not x[3] for x in r[c].values()) and verdicts[c][0] == "open"]
        memo = [c for c in r if c in verdicts and verdicts[c][0] == "ok"]
        if bad:
            c, v = bad[0]; x = sorted(r[c].values(), key=lambda x: x[2].lineno)[0]
            ctx.refuted(rule, where, "%s, and it is read in %s (line %d)" % (v[1], fname(x[0]), x[2].lineno) if x[0] is not None else "%s, and the caller is given it" % v[1], v[2])
        elif soft: ctx.und(rule, where, soft[0][1][1])
        else: ctx.proved(rule, where, "%d functions reached%s" % (k, ", %d tables keyed by what determines their entries" % len(memo) if memo else ""))

def fname(fn): return fn.name if fn is not None and fn._t == "FunctionDef" else "<lambda>" if fn is not None else "<module>"

def text(e):
    if isinstance(e, Node): return "%s(%s)" % (e._t, ",".join("%s=%s" % (k, text(v)) for k, v in sorted(e.d.items()) if k != "ctx"))
    if isinstance(e, list): return "[" + ",".join(text(x) for x in e) + "]"
    return repr(e)
def walk(e, skip=()):
    if isinstance(e, list):
        for x in e:
            for y in walk(x, skip): yield y
    elif isinstance(e, Node):
        yield e
        if e._t in skip: return
        for v in e.d.values():
            for y in walk(v, skip): yield y
def names(e): return {x.id for x in walk(e) if x._t == "Name"}

LOSSY = {"len", "max", "min", "sum", "type", "abs", "bool", "degree", "total_degree", "count", "lower", "upper", "swapcase"}
KEEP = {"str", "repr", "tuple", "list", "unicode", "srepr"}

class Judge(object):
    def __init__(self, R, written):
        self.R = R; self.E = R.E; self.written = written; self.public = set(); self.parents = {}; self.bodies = {}
        for m, t in self.E.mods.items():
            for f in walk(t.body):
                if f._t in ("FunctionDef", "Lambda"): self.bodies[id(f)] = (f, m)
    # -- where a statement sits
    def guards(self, fn, node):
        """tests of the conditionals around a node, inside its function"""
        out = []
        def go(body, acc):
            for s in body:
                if s is node or any(x is node for x in walk(s)):
                    if s is node: out.extend(acc); return True
                    if s._t in ("If", "While"):
                        if any(x is node for x in walk(s.test)): out.extend(acc + [s.test]); return True
                        for b in (s.body, s.orelse or []):
                            if any(x is node for x in walk(b)): return go(b, acc + [s.test])
                    if s._t == "For":
                        for b in (s.body, s.orelse or []):
                            if any(x is node for x in walk(b)): return go(b, acc)
                    if s._t in ("TryExcept", "TryFinally"):
                        for b in (s.body, s.get("orelse") or [], s.get("finalbody") or []) + tuple(h.body for h in s.get("handlers") or []):
                            if any(x is node for x in walk(b)): return go(b, acc)
                    if s._t == "With": return go(s.body, acc)
                    out.extend(acc); return True
            return False
        if fn is not None and fn._t == "FunctionDef": go(fn.body, [])
        if not out: return out
        # a test kept in a local variable first is that test
        once = {}
        for x in walk(fn.body, ("Lambda", "FunctionDef", "ClassDef")):
            if x._t == "Assign" and len(x.targets) == 1 and x.targets[0]._t == "Name": once.setdefault(x.targets[0].id, x.value)
        ds = self.defs(fn); ps = all_params(fn)
        def sub(e, depth=0):
            if isinstance(e, (list, tuple)): return type(e)(sub(x, depth) for x in e)
            if not isinstance(e, Node): return e
            if e._t == "Name" and e.id in once and e.id not in ps and len(ds.get(e.id, [])) == 1 and depth < 6: return sub(once[e.id], depth + 1)
            if e._t in ("Lambda", "Name"): return e
            return Node(e._t, {k: sub(v, depth) for k, v in e.d.items()}, e.lineno, e.file)
        return [sub(e) for e in out]
    def mentions(self, e, cell):
        n = cell[2] if cell[0] == "attr" else None
        for x in walk(e):
            if n is not None and (x._t == "Name" and x.id == n or x._t == "Attribute" and x.attr == n): return True
        return False
    def shared(self, o):
        """does the object belong to a class or module rather than to one instance?"""
        for c in self.E.objs.values():
            if c.kind in ("cls", "mod", "func") and any(o in v for v in self.E.heap[c].values()): return True
        return False
    def cell(self, cell, writes, reads):
        """("ok" | "bad" | "open", why, where)"""
        real = [r for r in reads.values() if not r[3]]
        if not real: return ("ok", "never read back", None)
        verdict = ("ok", "", None)
        def worse(v):
            nonlocal verdict
            if {"ok": 0, "open": 1, "bad": 2}[v[0]] > {"ok": 0, "open": 1, "bad": 2}[verdict[0]]: verdict = v
        for fn, mod, node, how, out in writes.values():
            at = "%s:%s:%d" % (UNITS.get(mod, mod), fname(fn), getattr(node, "lineno", 0))
            what = self.title(cell)
            if cell[0] == "content":
                k = cell[1].kind
                if how in ("subscript", "setdefault") and k == "dict": worse(self.store(cell, fn, mod, node, at, what))
                elif k == "dict" and how in ("pop", "popitem", "clear", "del"): pass
                elif how in ("append", "extend", "insert", "add", "+=", "pop", "remove", "reverse", "sort"):
                    if k == "dict": worse(("open", "%s is updated at %s" % (what, at), at))
                    else: worse(("bad", "%s is changed (%s) by %s (line %d) and kept for later calls" % (what, how, fname(fn), node.lineno), at))
                else: worse(("open", "%s is changed (%s) at %s" % (what, how, at), at))
            else: worse(self.overwrite(cell, fn, mod, node, how, at, what, real))
        if cell[0] == "content" and cell[1].kind == "dict" and not any(w[3] in ("clear", "pop", "popitem", "del", "setdefault") for w in writes.values()):
            consts = {}
            for fn, mod, node, how, out in writes.values():
                t = [t for t in node.targets if t._t == "Subscript" and t.slice._t == "Index"] if node._t == "Assign" else []
                if t and not any(x._t in ("Name", "Call", "Attribute") and getattr(x, "id", None) not in ("True", "False", "None") for x in walk(node.value)) and names(t[0].slice.value) and not self.guards(fn, node): consts.setdefault(text(node.value), {})[id(fn)] = (fn, node)
                else: consts = {}; break
            if len(consts) > 1 and len({k for v in consts.values() for k in v}) > 1:
                (f1, n1), (f2, n2) = [list(v.values())[0] for v in list(consts.values())[:2]]
                worse(("bad", "%s is given different entries under one key by %s (line %d) and %s (line %d), whichever was called last" % (self.title(cell), fname(f1), n1.lineno, fname(f2), n2.lineno), "%s:%d" % (fname(f1), n1.lineno)))
        return verdict
    def title(self, cell):
        if cell[0] == "attr":
            o = cell[1]
            return "%s of %s" % (cell[2], {"mod": "module %s" % o.data if o.kind == "mod" else "", "cls": "class %s" % (o.data[0].name if o.kind == "cls" else ""), "func": "function"}.get(o.kind, "an object kept between calls"))
        n = cell[1].data
        return "the %s made at line %s" % (cell[1].kind, getattr(n, "lineno", "?"))
    def overwrite(self, cell, fn, mod, node, how, at, what, reads):
        if node._t == "AugAssign" : return ("bad", "%s is advanced by every call of %s (line %d)" % (what, fname(fn), node.lineno), at)
        value = node.value if node._t == "Assign" else None
        if value is None: return ("open", "%s is set at %s" % (what, at), at)
        if value._t in ("Num", "Str") or value._t == "Name" and value.id in ("True", "False", "None"): return ("ok" if True else "open", "", None)
        if self.mentions(value, cell): return ("bad", "%s is advanced by every call of %s (line %d)" % (what, fname(fn), node.lineno), at)
        self_known = cell[1].kind == "inst"
        d = self.det(value, fn, mod, set(), set(), set(), self_known, 0)
        if d is None: return ("ok", "", None)
        g = self.guards(fn, node)
        ps = set(all_params(fn))
        kept = [t for t in g if self.mentions(t, cell)]
        if d[0] == "param" and kept and all(not (names(t) & (ps - {"self"})) and not any(x._t == "Call" and x.func._t == "Name" and x.func.id not in ("len", "bool", "hasattr") for x in walk(t)) and not locals_of(fn) & names(t) for t in kept):
            return ("bad", "%s is set from %s only while it is unset (%s, line %d), so the first call's value stays" % (what, d[1], fname(fn), node.lineno), at)
        if d[0] == "param" and not kept and any(not any(self.mentions(t, cell) for t in self.guards(r[0], r[2])) for r in reads):
            return ("bad", "%s is set from %s by %s (line %d) and used before it is set again" % (what, d[1], fname(fn), node.lineno), at)
        return ("open", "%s is set from %s at %s" % (what, d[1], at), at)
    def store(self, cell, fn, mod, node, at, what):
        if node._t == "Assign":
            t = [t for t in node.targets if t._t == "Subscript"]
            if not t or t[0].slice._t != "Index": return ("open", "%s is stored to at %s" % (what, at), at)
            key, value = t[0].slice.value, node.value
        elif node._t == "Call" and len(node.args) > 1: key, value = node.args[0], node.args[1]
        elif node._t == "AugAssign" and node.target._t == "Subscript" and node.target.slice._t == "Index":
            return self.accumulates(cell, fn, node, node.target, at, what)
        else: return ("open", "%s is stored to at %s" % (what, at), at)
        if node._t == "Assign" and any(text(x.value) == text(t[0].value) and text(x.slice.value) == text(key) for x in walk(value) if x._t == "Subscript" and x.slice._t == "Index" and x.ctx._t == "Load"):
            return self.accumulates(cell, fn, node, t[0], at, what)
        if node._t == "Assign" and any(x._t == "Call" and x.func._t == "Attribute" and x.func.attr in ("get", "setdefault") and text(x.func.value) == text(t[0].value) and x.args and text(x.args[0]) == text(key) for x in walk(value)):
            return self.accumulates(cell, fn, node, t[0], at, what)
        d = self.entry(key, value, fn, mod, not self.shared(cell[1]), 0)
        if d is None: return ("ok", "", None)
        if d[0] == "param": return ("bad", "an entry of %s stored by %s (line %d) depends on %s, which its key does not determine" % (what, fname(fn), node.lineno, d[1]), at)
        return ("open", "whether the key at %s determines the entry: %s" % (at, d[1]), at)
    def accumulates(self, cell, fn, node, target, at, what):
        """an entry made from the one stored before: bad unless the function first sets the entry anew"""
        for f2, m2, n2, how, out in self.written[cell].values():
            if n2 is node: continue
            if how in ("clear", "pop", "popitem", "del"): return ("open", "%s is updated at %s" % (what, at), at)
            if n2._t == "Assign" and not any(self.table(t.value, x) for t in n2.targets if t._t == "Subscript" for x in walk(n2.value)) and not any(self.table(t.value, g) for t in n2.targets if t._t == "Subscript" for g in self.guards(f2, n2) for g in walk(g)):
                return ("open", "%s is updated at %s" % (what, at), at)
        return ("bad", "an entry of %s is made from the one kept from before by %s (line %d)" % (what, fname(fn), node.lineno), at)
    def table(self, e, x): return isinstance(x, Node) and text(x).replace("Store", "Load") == text(e).replace("Store", "Load")
    def entry(self, key, value, fn, mod, own, depth):
        known, dim = self.keyed(key, fn, mod, 0)
        d = self.det(value, fn, mod, known, dim, set(), own, depth)
        if d is None or fn is None: return d
        if d[0] == "param" and not d[1].startswith("self.") and fn._t == "FunctionDef" and depth < 3:
            sites = [] if fn.name in self.public else self.sites(fn)      # what an entry point is given is not for its callers here to say
            if sites:
                worst = None; consts = set()
                for cfn, cmod, call in sites:
                    b = self.bind(fn, call)
                    if b is None: worst = worst or ("unknown", "call with * arguments"); continue
                    k = [b[p] for p in all_params(fn) if p in b and p in known]
                    v = [b[p] for p in all_params(fn) if p in b and p not in known and p in self.used(value, fn)]
                    kn = Node("Tuple", {"elts": k}, call.lineno, call.file); vn = Node("Tuple", {"elts": v}, call.lineno, call.file)
                    if self.R is not None and cfn is fn: continue
                    if v and all(y._t in ("Num", "Str") or y._t == "Name" and y.id in ("True", "False", "None") for y in v) and not any(y._t in ("Num", "Str") for y in k): consts.add(text(v))
                    x = self.entry(kn, vn, cfn, cmod, own, depth + 1)
                    if x is None and v:
                        kk, kd = self.keyed(kn, cfn, cmod, 0)
                        for lv in self.loopvars(cfn, call):
                            if lv in names(vn) and lv not in kk and lv not in kd: x = ("param", lv)
                    if x is not None and (worst is None or x[0] == "param"): worst = x if x[0] != "param" else d
                if worst is None and len(consts) > 1: return d
                return worst
        return d
    def loopvars(self, fn, call):
        out = set()
        for s in walk(fn.body if isinstance(fn.body, list) else [fn.body]):
            if s._t == "For" and any(x is call for x in walk(s.body)): out |= names(s.target)
            if s._t in ("ListComp", "GeneratorExp", "SetComp", "DictComp") and any(x is call for x in walk([s.elt] if s._t != "DictComp" else [s.key, s.value])):
                for g in s.generators: out |= names(g.target)
        return out
    def used(self, value, fn):
        out = set(); todo = set(names(value)); ds = self.defs(fn)
        while todo:
            n = todo.pop()
            if n in out: continue
            out.add(n)
            for d in ds.get(n, []):
                if d is not None: todo |= names(d)
        return out
    def sites(self, fn):
        out = []
        for f, m in self.bodies.values():
            for x in walk(f.body if isinstance(f.body, list) else [f.body], ("Lambda", "FunctionDef")):
                if x._t == "Call" and (x.func._t == "Name" and x.func.id == fn.name or x.func._t == "Attribute" and x.func.attr == fn.name): out.append((f, m, x))
        return out
    def bind(self, fn, call):
        if call.get("starargs") is not None or call.get("kwargs") is not None or fn.args.get("vararg"): return None
        ps = all_params(fn); a = list(call.args)
        if ps and ps[0] == "self" and call.func._t == "Attribute": ps = ps[1:]
        b = dict(zip(ps, a))
        for k in call.keywords or []: b[k.arg] = k.value
        return b
    # -- what a key determines
    def defs(self, fn):
        out = {}
        if fn is None or fn._t != "FunctionDef": return out
        def tgt(t, v):
            if t._t == "Name": out.setdefault(t.id, []).append(v)
            elif t._t in ("Tuple", "List"):
                for e in t.elts: tgt(e, v)
        for x in walk(fn.body, ("Lambda", "FunctionDef", "ClassDef")):
            if x._t == "Assign":
                for t in x.targets: tgt(t, x.value)
            elif x._t == "AugAssign": tgt(x.target, x.value)
            elif x._t == "For": tgt(x.target, x.iter)
            elif x._t == "comprehension": tgt(x.target, x.iter)
            elif x._t == "With" and x.get("optional_vars") is not None: tgt(x.optional_vars, x.context_expr)
            elif x._t in ("FunctionDef", "ClassDef"): out.setdefault(x.name, []).append(None)
            elif x._t == "ExceptHandler" and isinstance(x.get("name"), Node): tgt(x.name, None)
        return out
    def keyed(self, e, fn, mod, depth):
        """(names and texts the key determines, names it contains without determining them for sure)"""
        known, dim = {text(e)}, set()
        ds = self.defs(fn); ps = all_params(fn)
        def go(e, depth):
            known.add(text(e)); t = e._t
            if t == "Name":
                known.add(e.id); v = ds.get(e.id, [])
                if e.id not in ps and len(v) == 1 and v[0] is not None and depth < 6: go(v[0], depth + 1)
            elif t in ("Tuple", "List"):
                for x in e.elts: go(x, depth)
            elif t == "Call":
                f = e.func.id if e.func._t == "Name" else e.func.attr if e.func._t == "Attribute" else None
                if f in KEEP and e.args and e.func._t == "Name": go(e.args[0], depth)
                elif f == "map" and len(e.args) == 2 and e.args[0]._t == "Name" and e.args[0].id in KEEP: go(e.args[1], depth)
                elif f in LOSSY: pass
                elif e.func._t == "Name" and self.project(e.func.id, mod) is not None and depth < 6:
                    g = self.project(e.func.id, mod); b = self.bind(g, e)
                    rets = [x for x in walk(g.body, ("Lambda", "FunctionDef")) if x._t == "Return" and x.value is not None]
                    if b is not None and len(rets) == 1:
                        k2, d2 = self.keyed(rets[0].value, g, mod, depth + 1)
                        for p, a in b.items():
                            if p in k2: go(a, depth + 1)
                            elif p in d2: dim.update(names(a))
                    else: dim.update(names(e))
                else: dim.update(names(e))
            elif t == "BinOp":
                if e.op._t == "Mod" and e.left._t == "Str" or e.op._t == "Add" and "Str" in (e.left._t, e.right._t):
                    for x in (e.left, e.right): go(x, depth)
                else: dim.update(names(e))
            elif t == "Subscript": pass
            elif t == "Attribute": pass
            elif t in ("Num", "Str"): pass
            else: dim.update(names(e))
        go(e, depth)
        for n in list(dim):
            for v in ds.get(n, []):
                if v is not None: dim |= names(v)
        return known, dim
    def of_instance(self, fn, attr, seen):
        """an attribute of the instance that self.attr, or the method of that name, depends on; None when there is none"""
        for m, t in self.E.mods.items():
            for c in walk(t.body):
                if c._t != "ClassDef" or not any(x is fn for x in walk(c.body)): continue
                meth = {x.name: x for x in c.body if x._t == "FunctionDef"}
                if attr in meth:
                    if attr in seen: return None
                    for x in walk(meth[attr].body):
                        if x._t == "Attribute" and x.value._t == "Name" and x.value.id == "self":
                            y = self.of_instance(fn, x.attr, seen | {attr})
                            if y is not None: return y
                    return None
                assigned = any(x._t == "Attribute" and x.attr == attr and x.ctx._t == "Store" for x in walk(c.body))
                const = any(x._t == "Assign" and any(y._t == "Name" and y.id == attr for y in x.targets) for x in c.body)
                return None if const and not assigned else attr
        return attr
    def project(self, n, mod):
        for o in self.E.heap[self.E.modenv[mod]].get(n, NONE):
            if o.kind == "func" and o.data[0]._t == "FunctionDef": return o.data[0]
        return None
    def det(self, e, fn, mod, known, dim, bound, own, depth, seen=frozenset()):
        """None when the value is the same for the same known values; ("param", what) when it varies with what; ("unknown", why)"""
        if e is None: return None
        if text(e) in known: return None
        t = e._t
        if t in ("Num", "Str"): return None
        if t == "Name":
            n = e.id
            if n in bound or n in known or n in ("None", "True", "False", "true", "false"): return None
            if n in all_params(fn):
                if n == "self": return None if own else ("unknown", "the object")
                return ("unknown", n) if n in dim else ("param", n)
            ds = self.defs(fn)
            if n in ds:
                if n in seen: return None
                worst = None
                for v in ds[n]:
                    if v is None: worst = worst or ("unknown", n); continue
                    x = self.det(v, fn, mod, known, dim, bound, own, depth, seen | {n})
                    if x is not None and (worst is None or x[0] == "param"): worst = x
                for w in walk(fn.body, ("Lambda", "FunctionDef")):
                    if w._t in ("Assign", "AugAssign") and any(y._t == "Name" and y.id == n for y in walk(w.targets if w._t == "Assign" else [w.target])):
                        for g in self.guards(fn, w):
                            if self.det(g, fn, mod, known, dim, bound, own, depth, seen | {n}) is not None: worst = worst or ("unknown", "the choice of %s" % n)
                if n in dim and worst is not None: return ("unknown", worst[1])
                return worst
            m = self.E.modenv.get(mod)
            if ("attr", m, n) in self.written: return ("unknown", "module variable %s" % n)
            return None
        if t == "Attribute":
            if e.value._t == "Name" and e.value.id == "self" and not own:
                x = self.of_instance(fn, e.attr, frozenset())
                return None if x is None else ("param", "self." + x) if "self" in all_params(fn) else ("unknown", e.attr)
            return self.det(e.value, fn, mod, known, dim, bound, own, depth, seen)
        if t == "Lambda": return self.det(e.body, fn, mod, known, dim, bound | set(all_params(e)), own, depth, seen)
        if t in ("ListComp", "GeneratorExp", "SetComp", "DictComp"):
            b = set(bound)
            for g in e.generators:
                x = self.det(g.iter, fn, mod, known, dim, b, own, depth, seen)
                if x is not None: return x
                b |= names(g.target)
            for y in ([e.elt] if t != "DictComp" else [e.key, e.value]) + [c for g in e.generators for c in g.ifs]:
                x = self.det(y, fn, mod, known, dim, b, own, depth, seen)
                if x is not None: return x
            return None
        if t == "Yield": return ("unknown", "generator")
        worst = None
        for v in e.d.values():
            for x in (v if isinstance(v, list) else [v]):
                if isinstance(x, Node) and x._t not in ("Load", "Store", "Param"):
                    y = self.det(x.value if x._t == "keyword" else x, fn, mod, known, dim, bound, own, depth, seen) if x._t not in OPS else None
                    if y is not None and (worst is None or y[0] == "param"): worst = y
        return worst
OPS = {"Add", "Sub", "Mult", "Div", "FloorDiv", "Mod", "Pow", "And", "Or", "Not", "USub", "UAdd", "Invert", "Eq", "NotEq", "Lt", "LtE", "Gt", "GtE", "Is", "IsNot", "In", "NotIn", "BitAnd", "BitOr", "BitXor", "LShift", "RShift"}

def all_params(fn):
    if fn is None: return []
    out = []
    for p in fn.args.args or []: out += sorted(names(p)) if isinstance(p, Node) else [p]
    for k in ("vararg", "kwarg"):
        v = fn.args.get(k)
        if v: out.append(v.id if isinstance(v, Node) else v)
    return out
def locals_of(fn):
    if fn is None or fn._t != "FunctionDef": return set()
    out = set()
    for x in walk(fn.body, ("Lambda", "FunctionDef")):
        if x._t == "Assign":
            for t in x.targets:
                if t._t == "Name": out.add(t.id)
    gl = {y if isinstance(y, str) else y.id for x in walk(fn.body, ("Lambda", "FunctionDef")) if x._t == "Global" for y in x.names}
    return out - gl

# ------------------------------------------------------------------ histories: the same question after others
@check("C19")
def c19_matrices(ctx):
    where = "vts/matrix_of_signs.py"
    I = ctx.interp(handlers=hooks(Disk()))
    if None in [I.func("matrix_of_signs", k) for k in KINDS]: return ctx.missing(where + ":get_matrix, get_matrix_inverse")
    ALL = [(k, n) for n in range(1, 6) for k in KINDS]
    sh = lambda q: "%s(%d)" % q
    def term(v): return v[0] == "raise" or is_const(v[1]) or isinstance(v[1], Term) and v[1].op in ("mat", "kron", "emptyfile", "dict")
    try: fresh = {q: process(ctx, Disk(), [q])[0] for q in ALL}
    except (Und, HoistX, RecursionError) as e: return ctx.und("a matrix asked for after others", where, "analysis: %s" % e)
    def run(rule, hists):
        """hists: lists of processes sharing the disk; the answers are those of a fresh start"""
        n = 0
        try:
            for h in hists:
                files = {}
                for j, reqs in enumerate(h):
                    d = Disk(files); got = process(ctx, d, reqs); files = d.files
                    for q, v in zip(reqs, got):
                        n += 1
                        if v[0] == fresh[q][0] and (v[0] == "raise" or v[1] is fresh[q][1] or v[1] == fresh[q][1]): continue
                        inst = "%s: %s is not what %s gives on its own" % ("; new process; ".join(", ".join(map(sh, r)) for r in h[:j + 1]), sh(q), sh(q))
                        if not term(v) or not term(fresh[q]): return ctx.und(rule, where, inst)
                        return ctx.refuted(rule, floc(I.func("matrix_of_signs", q[0])), "the answer depends on what was asked before", inst)
            ctx.proved(rule, where, "%d answers" % n)
        except (Und, HoistX, RecursionError) as e: ctx.und(rule, where, "analysis: %s" % e)
    run("a matrix asked for after another in the same process", [[[a, b]] for a in ALL for b in ALL] + [[ALL + ALL], [ALL[::-1] + ALL]])
    run("a matrix asked for after another process", [[[a], [b]] for a in ALL for b in ALL] + [[ALL, ALL[::-1]]])

def later(ctx, fn, first, repeated, ok=()):
    """forward the history obligations of another check: refuted only where the first question alone is answered as it should be"""
    mine = ctx.obs; ctx.obs = []
    try: fn(ctx)
    finally: obs, ctx.obs = ctx.obs, mine
    ok = set(ok) | {first(o) for o in obs if first(o) is not None and o.status == "proved"}
    for o in obs:
        k = repeated(o)
        if k is None: continue
        if o.status == "refuted" and not (all(x in ok for x in k) if isinstance(k, list) else k in ok): ctx.und(o.rule, o.where, "the question asked first is not answered as it should be")
        else: ctx.obs.append(o)

@check("C19")
def c19_cached(ctx):
    def op(o): return o.rule.split(": ", 1)[1].split(" ")[0] if ": " in o.rule else None
    plain_ = []
    for name, n in qe_api.OPS.items():
        # the first answer of the caching back end is the plain one
        I = ctx.interp(); I.unroll = I.deep = 6
        v = T("sym", "variable"); args = [T("sym", "pq"[k]) for k in range(n)]
        if qe_api.make(I, qe_api.CACHED, v) is None: return ctx.missing("highschool_qe/cachedsympywrapper.py:CachedSympyWrapper")
        mine = ctx.obs; ctx.obs = []
        try:
            equiv(ctx, I, name, "", lambda: qe_api.ask(I, qe_api.make(I, qe_api.CACHED, v), name, args), lambda: qe_api.ask(I, qe_api.make(I, qe_api.PLAIN, v), name, args),
                  lambda r: qe_api.some(r, [v], args, name), interp=qe_api.MEAN, forbid=qe_api.SYMOPS)
            if all(o.status == "proved" for o in ctx.obs): plain_.append(name)
        finally: ctx.obs = mine
    later(ctx, qe_api.c17_cached, lambda o: None, lambda o: op(o), plain_)

@check("C19")
def c19_points(ctx):
    later(ctx, grf_points.c25_order, lambda o: o.rule.split(" over ")[1].split(" become")[0] if " then " not in o.rule else None,
          lambda o: o.rule.split(" over ")[1].split(" become")[0].split(" then ") if " then " in o.rule else None)

@check("C19")
def c19_problems(ctx):
    later(ctx, grf_smt.c21, lambda o: "one" if o.rule.endswith("a single problem") else None, lambda o: "one" if o.rule.startswith("the filter") and not o.rule.endswith("a single problem") else None)
