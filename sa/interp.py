"""Abstract interpreter over Python-2 syntax trees.

Values are constants, terms and abstract heap objects; control flow is partitioned by path conditions in normal form;
a loop over a collection of unknown size is analysed once for a generic element with every location the body can change
replaced by a symbol, and its effect is summarised (appended elements, sums, filters, idempotent updates, early exits).
No repository code is run and no solver is used.
"""
import itertools, sys
from .terms import *
from .facts import Facts
from .front import Node

sys.setrecursionlimit(20000)

MISSING = object()

STRING_TO_STRING = ("lower", "upper", "strip", "lstrip", "rstrip", "replace", "title", "zfill", "capitalize", "__getslice__")
class Dead(Exception): pass
class BadName(Exception): pass
class RetX(Exception):
    def __init__(self, v): self.v = v
class BrkX(Exception): pass
class ContX(Exception): pass
class RaiseX(Exception):
    def __init__(self, cls, val=None, node=None): self.cls = cls; self.val = val; self.node = node
class HoistX(Exception):
    def __init__(self, lit, level): self.lit = lit; self.level = level

# ------------------------------------------------------------------ heap values
_ids = itertools.count(1)
class FDict(dict):
    """mutable slots of an abstract object; `born` orders creation, `owner` names it"""
    __slots__ = ("owner", "born", "lent")
    def __init__(self, owner=None):
        dict.__init__(self); self.owner = owner; self.born = next(_ids); self.lent = False
    def __hash__(self): return id(self)
    def __eq__(self, o): return self is o
class Obj(object):
    kind = "obj"
    def __init__(self):
        self.f = FDict(self); self.id = self.f.born; self.tag = None
    def __repr__(self): return "<%s#%d %s>" % (self.kind, self.id, self.tag or "")
class ListObj(Obj):
    kind = "list"
    def __init__(self, segs=(), tag=None):
        Obj.__init__(self); self.f["segs"] = tuple(segs); self.tag = tag
class SetObj(Obj):
    kind = "set"
    def __init__(self, segs=(), tag=None):
        Obj.__init__(self); self.f["segs"] = tuple(segs); self.tag = tag; self.sorted = False; self.key = None
class DictObj(Obj):
    """ents: ('kv', key, value) | ('star', bv, lo, hi, cases[(guard, key, value)]) | ('base', term) | ('pre', term)"""
    kind = "dict"
    def __init__(self, ents=(), default=None, tag=None):
        Obj.__init__(self); self.f["ents"] = tuple(ents); self.default = default; self.tag = tag
class InstObj(Obj):
    kind = "inst"
    def __init__(self, cls):
        Obj.__init__(self); self.cls = cls
class TupV(object):
    __slots__ = ("items",)
    def __init__(self, items): self.items = tuple(items)
    def __repr__(self): return "TupV%r" % (self.items,)
class FuncVal(object):
    def __init__(self, node, name, args, body, frame, mod, cls=None, defaults=()):
        self.node = node; self.name = name; self.args = args; self.body = body; self.frame = frame; self.mod = mod
        self.cls = cls; self.defaults = tuple(defaults)
        self.f = {}
    @property
    def qual(self):
        return (self.cls + "." if self.cls else "") + self.name
    def __repr__(self): return "<func %s.%s>" % (self.mod.name if self.mod else "?", self.qual)
class ClassVal(object):
    def __init__(self, name, bases, mod, node):
        self.name = name; self.bases = bases; self.mod = mod; self.f = FDict(self); self.node = node
    def __repr__(self): return "<class %s>" % self.name
    def find(self, n):
        if n in self.f: return self.f[n]
        for b in self.bases:
            if isinstance(b, ClassVal):
                r = b.find(n)
                if r is not MISSING: return r
        return MISSING
    def isa(self, other):
        return self is other or any(isinstance(b, ClassVal) and b.isa(other) for b in self.bases)
    def ext_bases(self):
        s = set()
        for b in self.bases:
            if isinstance(b, ExtVal): s.add(b.name)
            elif isinstance(b, ClassVal): s |= b.ext_bases()
        return s
class ModVal(object):
    def __init__(self, name):
        self.name = name; self.f = FDict(self)
    def __repr__(self): return "<module %s>" % self.name
class ExtVal(object):
    __slots__ = ("name",)
    _pool = {}
    def __new__(cls, name):
        o = cls._pool.get(name)
        if o is None:
            o = object.__new__(cls); o.name = name; cls._pool[name] = o
        return o
    def __repr__(self): return "<ext %s>" % self.name
class Builtin(object):
    __slots__ = ("name",)
    _pool = {}
    def __new__(cls, name):
        o = cls._pool.get(name)
        if o is None:
            o = object.__new__(cls); o.name = name; cls._pool[name] = o
        return o
    def __repr__(self): return "<builtin %s>" % self.name
class Bound(object):
    def __init__(self, recv, name, fn=None): self.recv = recv; self.name = name; self.fn = fn
class PyFn(object):
    """analysis-provided callable"""
    def __init__(self, fn, name="pyfn"): self.fn = fn; self.name = name
class Box(object):
    """hashable wrapper for live values inside terms"""
    __slots__ = ("v",)
    def __init__(self, v): self.v = v
    def __hash__(self): return hash(id(self.v))
    def __eq__(self, o): return isinstance(o, Box) and o.v is self.v
    def __repr__(self): return repr(self.v)

class Frame(object):
    def __init__(self, fn, mod, parent, locals_, globals_):
        self.f = FDict(self); self.fn = fn; self.mod = mod; self.parent = parent; self.locals = locals_; self.globals = globals_

# segments
def One(v): return ("one", v)
def Star(bv, lo, hi, cases): return ("star", bv, lo, hi, tuple(cases))
def Pre(t): return ("pre", t)

def bdepth(t):
    return max([0] + [x.args[0] for x in subterms(t) if x.op == "b"])

BUILTINS = set("""len map filter zip range xrange reduce sum min max abs int long float str repr list tuple dict set frozenset sorted reversed enumerate
any all isinstance type print hasattr getattr setattr id hash iter next open file raw_input input bool object cmp callable divmod pow round ord chr unicode
Exception ValueError KeyError TypeError IndexError OSError IOError RuntimeError NotImplementedError ZeroDivisionError StopIteration AttributeError
AssertionError ArithmeticError LookupError EnvironmentError SystemExit KeyboardInterrupt BaseException StandardError NameError ImportError
super property staticmethod classmethod vars dir globals locals execfile eval apply basestring complex slice NotImplemented""".split())
EXC_BUILTINS = {n for n in BUILTINS if n.endswith("Error") or n.endswith("Exception") or n in ("SystemExit", "KeyboardInterrupt", "StopIteration")}
EXC_PARENT = {"KeyError": "LookupError", "IndexError": "LookupError", "LookupError": "StandardError", "ValueError": "StandardError", "TypeError": "StandardError",
    "OSError": "EnvironmentError", "IOError": "EnvironmentError", "EnvironmentError": "StandardError", "RuntimeError": "StandardError",
    "NotImplementedError": "RuntimeError", "ZeroDivisionError": "ArithmeticError", "ArithmeticError": "StandardError", "AttributeError": "StandardError",
    "AssertionError": "StandardError", "NameError": "StandardError", "ImportError": "StandardError", "StopIteration": "Exception", "StandardError": "Exception",
    "Exception": "BaseException", "SystemExit": "BaseException", "KeyboardInterrupt": "BaseException"}

class Outcome(object):
    def __init__(self, kind, value=None, node=None):
        self.kind = kind; self.value = value; self.node = node
        self.lits = (); self.events = (); self.writes = {}; self.data = None; self.exc = None
    def guard(self):
        return b_and(*self.lits)
    def __repr__(self):
        return "<%s %r if %r>" % (self.kind, self.value, self.guard())

class Limits:
    max_paths = 3000
    max_steps = 2000000

class Interp(object):
    def __init__(self, mods, opaque=(), handlers=None, ext_mods=(), merge=False):
        self.asts = mods
        self.trail = []
        self.S = {"log": (), "events": (), "ctr": 0, "shadow": FDict("shadow"), "stack": ()}
        self.facts = Facts(self.w)
        self.modvals = {}
        self.opaque = set(opaque)           # qualified names "mod.func" / "mod.Class.meth" treated as opaque
        self.handlers = dict(DEFAULT_HANDLERS)
        if handlers: self.handlers.update(handlers)
        self.dec = None
        self.level_syms = []                # per active loop level: symbols introduced there
        self.steps = 0
        self.notes = []
        self.stats = {"functions": set(), "paths": 0, "loops": 0, "calls": 0}
        self.loop_depth = 0
        self.freeze_heads = ()
        self.callstack = []; self.modstack = []; self.dead = None; self.unroll = 1; self.deep = 1; self.few = {}; self.merge = merge; self.nomerge = set(); self.callmemo = {}
        self.eval_print = False
        self.visited_lines = set()

    # ---------------------------------------------------------------- state
    def w(self, d, k, v):
        if d.__class__ is FDict and d.lent: raise Und("change of an element of a summarised collection")
        self.trail.append((d, k, d.get(k, MISSING)))
        d[k] = v
    def wdel(self, d, k):
        self.trail.append((d, k, d.get(k, MISSING)))
        d.pop(k, None)
    def mark(self): return len(self.trail)
    def undo(self, m):
        tr = self.trail
        while len(tr) > m:
            d, k, o = tr.pop()
            if o is MISSING: d.pop(k, None)
            else: d[k] = o
    def fresh(self, base, *sort):
        n = self.S["ctr"] + 1
        self.w(self.S, "ctr", n)
        t = T("sym", "%s#%d" % (base, n), *sort)
        if self.level_syms: self.level_syms[-1].add(t)
        return t
    def event(self, *e):
        self.w(self.S, "events", self.S["events"] + (e,))

    # ---------------------------------------------------------------- path partitioning
    def choose(self, k, label=None):
        d = self.dec
        if d is None:
            raise Und("choice outside exploration")
        if d["pos"] < len(d["vec"]):
            c = d["vec"][d["pos"]]
        else:
            c = 0
            d["vec"].append(0); d["ar"].append(k)
        d["pos"] += 1
        return c

    def explore(self, fn, capture=None, limit=None):
        """all paths of fn() from the current state"""
        outs = []
        vec = []; ar = []
        saved = self.dec
        n = 0
        while True:
            n += 1
            if n > (limit or Limits.max_paths):
                self.dec = saved
                raise Und("too many paths")
            m = self.mark()
            log0 = len(self.S["log"]); ev0 = len(self.S["events"])
            self.dec = {"vec": vec, "ar": ar, "pos": 0}
            o = None
            try:
                try:
                    v = fn()
                    o = Outcome("normal", v)
                except RetX as e: o = Outcome("return", e.v)
                except BrkX: o = Outcome("break")
                except ContX: o = Outcome("continue")
                except RaiseX as e:
                    o = Outcome("raise", e.cls, e.node); o.exc = e
                except Dead: o = None
                if o is not None:
                    o.lits = self.S["log"][log0:]; o.events = self.S["events"][ev0:]
                    o.vec = tuple(vec)
                    if capture: capture(o, m)
                    outs.append(o)
            except BaseException:
                self.dec = saved
                self.undo(m)
                raise
            self.undo(m)
            vec = self.dec["vec"]; ar = self.dec["ar"]
            # a path may not have consumed the entire vector (it is always consumed: deterministic re-run)
            while vec and vec[-1] + 1 >= ar[-1]:
                vec.pop(); ar.pop()
            if not vec:
                break
            vec[-1] += 1
        self.dec = saved
        self.stats["paths"] += n
        return outs

    def norm(self, c):
        """rewrite emptiness tests of filtered collections"""
        if isinstance(c, bool): return c
        if c.op == "sg":
            p, S = c.args
            if isinstance(p, Term) and p.op == "count":
                e = self.empty_cond(p.args[0])
                if e is not None:
                    if S == frozenset((0,)): return e
                    if S <= frozenset((1, -1)): return b_not(e)
        if c.op in ("and", "or"):
            xs = [self.norm(x) for x in c.args[0]]
            return b_and(*xs) if c.op == "and" else b_or(*xs)
        if c.op == "not":
            return b_not(self.norm(c.args[0]))
        return c

    def empty_cond(self, segs):
        cs = []
        for s in segs:
            if s[0] == "one": return False
            if s[0] == "pre":
                cs.append(sg(length(s[1]), (0,))); continue
            _, bv, lo, hi, cases = s
            body = []
            for g, inner in cases:
                ie = self.empty_cond(inner)
                if ie is None: return None
                body.append(b_or(b_not(g), ie))
            cs.append(b_all(bv, lo, hi, b_and(*body)))
        return b_and(*cs)

    def assume(self, c, log=True):
        c = self.norm(c)
        d = self.facts.decide(c)
        if d is True: return
        if d is False: raise Dead()
        if log:
            self.w(self.S, "log", self.S["log"] + (c,))
        if not self.facts.assume(c):
            raise Dead()

    def check_hoist(self, c):
        if not self.level_syms: return
        sy = syms(c)
        lv = len(self.level_syms)
        if not (sy & self.level_syms[-1]):
            raise HoistX(c, lv)

    def branch(self, c, node=None):
        """truth of condition c on this path (partitions when undecided)"""
        c = self.norm(c)
        d = self.facts.decide(c)
        if d is not None: return d
        self.check_hoist(c)
        if c.op == "and":
            for x in sorted(c.args[0], key=lambda t: t.uid):
                if not self.branch(x, node): return False
            return True
        if c.op == "or":
            for x in sorted(c.args[0], key=lambda t: t.uid):
                if self.branch(x, node): return True
            return False
        if self.few:
            fs = sorted((x for x in syms(c) if x in self.few), key=lambda t: t.uid)
            if fs:
                if len(fs) <= 2:
                    known = self.S.get("fewv", {})
                    rs = [subst(c, dict(zip(fs, vs))) for vs in itertools.product(*[(known[x],) if x in known else self.few[x] for x in fs])]
                    if rs[0] in (True, False) and all(r is rs[0] for r in rs): return rs[0]
                r = self.norm(subst(c, {x: self.narrow(x) for x in fs}))
                return r if isinstance(r, bool) else self.branch(r, node)
        k = self.choose(2, c)
        lit = c if k == 0 else b_not(c)
        if self.level_syms and lit.op == "sg":
            # what is known narrows the case: one normal form whichever way it is tested
            if len(lit.args[1]) > 1:
                S = tuple(x for x in lit.args[1] if self.facts.decide(sg(lit.args[0], (x,))) is not False)
                if S and len(S) < len(lit.args[1]): lit = sg(lit.args[0], S)
        self.assume(lit)
        if k == 0 and c.op == "ex":
            self.skolem(c)
        if k == 1 and c.op == "all":
            self.skolem(lit)
        return k == 0

    def skolem(self, ex):
        bv, lo, hi, body = ex.args
        k = T("first", bv, lo, hi, body)
        self.assume(sg(psub(k, lo), (0, 1)), log=False)
        self.assume(sg(psub(hi, k), (1,)), log=False)
        self.assume(subst(body, {bv: k}), log=False)
        self.w(self.facts.quant, "wit", self.facts.quant.get("wit", ()) + (k,))
        return k

    def new_index(self, base):
        return self.fresh(base, "int")

    # ---------------------------------------------------------------- modules
    def module(self, name):
        m = self.modvals.get(name)
        if m is not None: return m
        if name not in self.asts:
            return None
        m = ModVal(name)
        self.modvals[name] = m
        fr = Frame(None, m, None, None, set())
        fr.f = m.f
        m.f["__name__"] = name
        self.modstack.append(m)
        for st in self.asts[name].body:
            try:
                self.stmt(st, fr)
            except Und as e:
                self.notes.append("module %s: %s" % (name, e))
                for n in assigned_names([st]):
                    m.f[n] = T("unk", "%s.%s" % (name, n))
            except RaiseX as e:
                self.notes.append("module %s: raises %s" % (name, e.cls))
        self.modstack.pop()
        return m

    def func(self, mod, qual):
        m = self.module(mod)
        if m is None: return None
        parts = qual.split(".")
        v = m.f.get(parts[0])
        for p in parts[1:]:
            if not isinstance(v, ClassVal): return None
            v = v.find(p)
            if v is MISSING: return None
        return v

    # ---------------------------------------------------------------- freeze / thaw
    freeze_before = 0
    def freeze(self, v, m=None):
        if is_const(v) or isinstance(v, Term): return v
        if isinstance(v, Obj) and v.id < self.freeze_before and v not in self.freeze_heads:
            return T("ref", Box(v))
        if isinstance(v, TupV): return T("tup", *[self.freeze(x) for x in v.items])
        if isinstance(v, ListObj):
            return self.freeze_segs("list", v.f["segs"])
        if isinstance(v, SetObj):
            return self.freeze_segs("set", v.f["segs"])
        if isinstance(v, DictObj):
            es = v.f["ents"]
            if len(es) == 1 and es[0][0] == "base": return es[0][1]
            return T("dict", tuple(self.freeze_ent(e) for e in es))
        if isinstance(v, InstObj):
            return T("inst", v.cls.name, Box(v.cls), tuple(sorted((k, self.freeze(x)) for k, x in v.f.items() if x is not v)))
        if isinstance(v, Bound):
            return T("meth", self.freeze(v.recv), v.name)
        return T("func", Box(v))

    def freeze_ent(self, e):
        if e[0] == "kv": return ("kv", self.freeze(e[1]), self.freeze(e[2]))
        if e[0] == "star": return e
        return e

    def freeze_seg(self, s):
        if s[0] == "one": return ("one", self.freeze(s[1]))
        return s

    def freeze_segs(self, op, segs):
        segs = tuple(self.freeze_seg(s) for s in segs)
        if len(segs) == 1 and segs[0][0] == "pre": return segs[0][1] if op == "list" else T("asset", segs[0][1])
        if len(segs) == 1 and segs[0][0] == "star":
            _, bv, lo, hi, cases = segs[0]
            if len(cases) == 1 and cases[0][0] is True and len(cases[0][1]) == 1 and cases[0][1][0][0] == "one":
                x = cases[0][1][0][1]
                if op == "list" and isinstance(x, Term) and x.op == "at" and x.args[1] is bv and lo == 0 and isinstance(hi, Term) and hi is length(x.args[0]):
                    return x.args[0]
        if op == "set" and all(s[0] == "one" and is_const(s[1]) for s in segs):
            return T("setc", frozenset(s[1] for s in segs))
        return T(op, segs)

    def thaw(self, v):
        if isinstance(v, Term):
            if v.op == "tup": return TupV([self.thaw(x) for x in v.args])
            if v.op == "list": return ListObj(tuple(("one", self.thaw(s[1])) if s[0] == "one" else s for s in v.args[0]))
            if v.op == "set": return SetObj(v.args[0])
            if v.op == "setc": return SetObj([One(x) for x in sorted(v.args[0], key=repr)])
            if v.op == "dict": return DictObj(tuple(("kv", self.thaw(e[1]), self.thaw(e[2])) if e[0] == "kv" else e for e in v.args[0]))
            if v.op in ("func", "ref"): return v.args[0].v
            if v.op == "meth":
                r = self.thaw(v.args[0])
                return self.getattr(r, v.args[1])
            if v.op == "inst":
                o = InstObj(v.args[1].v)
                for k, x in v.args[2]: o.f[k] = self.thaw(x)
                return o
        return v

    def lend(self, t):
        """an element of a summarised collection: a copy, so it must not be changed"""
        if not isinstance(t, Term) or t.op not in ("list", "set", "setc", "dict", "tup"): return self.thaw(t)
        m = next(_ids); v = self.thaw(t)
        def go(x):
            if isinstance(x, TupV):
                for y in x.items: go(y)
            elif isinstance(x, (ListObj, SetObj, DictObj)) and x.f.born > m:
                x.f.lent = True
                for y in (x.f.get("segs") or ()) if not isinstance(x, DictObj) else ():
                    if y[0] == "one": go(y[1])
                for y in (x.f.get("ents") or ()) if isinstance(x, DictObj) else ():
                    if y[0] == "kv": go(y[2])
        go(v)
        return v

    # ---------------------------------------------------------------- collections
    def star_of_term(self, t):
        bv = T("b", 1 + bdepth(t))
        return Star(bv, 0, length(t), [(True, (One(at(t, bv)),))])

    def segs_of(self, v, node=None):
        """segments of an iterable"""
        if isinstance(v, SetObj) and v.sorted:
            o = self.ordered(v)
            if o is not None: return o.f["segs"]
        if isinstance(v, (ListObj, SetObj)): return self.expand_pre(v.f["segs"])
        if isinstance(v, TupV): return tuple(One(x) for x in v.items)
        if isinstance(v, DictObj):
            out = []
            for e in v.f["ents"]:
                if e[0] == "kv": out.append(One(e[1]))
                elif e[0] == "star":
                    out.append(Star(e[1], e[2], e[3], [(g, (One(k),)) for g, k, x in e[4]]))
                elif e[0] == "nstar": out.append(self.nested_ents(e, lambda k, v: k))
                else:
                    out.append(self.star_of_term(T("keys", e[1])))
            return tuple(out)
        if isinstance(v, str): return tuple(One(c) for c in v)
        if isinstance(v, Term):
            sh = self.S["shadow"].get(v)
            if sh is not None: return self.segs_of(sh)
            if v.op in ("list", "set", "tup", "setc", "dict"): return self.segs_of(self.thaw(v))
            if v.op == "asset": return (self.star_of_term(v.args[0]),)
            return (self.star_of_term(v),)
        if isinstance(v, InstObj):
            it = v.cls.find("__iter__")
            if it is not MISSING:
                return self.segs_of(self.call(Bound(v, "__iter__", it), []))
        raise Und("not iterable: %r" % (v,), node)

    def expand_pre(self, segs):
        return tuple(self.star_of_term(s[1]) if s[0] == "pre" else s for s in segs)

    def seg_len(self, s):
        if s[0] == "one": return 1
        if s[0] == "pre": return length(s[1])
        _, bv, lo, hi, cases = s
        if len(cases) == 1 and cases[0][0] is True:
            per = 0
            for x in cases[0][1]:
                n = self.seg_len(x)
                if n is None or (not is_num(n)): return None
                per += n
            d = psub(hi, lo)
            if self.facts.signs_of(d) <= frozenset((0, 1)): n = d
            else: n = maxz(d)
            return pmul(per, n)
        return None

    def length(self, v, node=None):
        if isinstance(v, str): return len(v)
        if isinstance(v, TupV): return len(v.items)
        if isinstance(v, SetObj):
            segs = v.f["segs"]
            if all(s[0] == "one" for s in segs):
                if all(is_const(s[1]) for s in segs): return len({_ck(s[1]) for s in segs})
                if len(segs) <= 1: return len(segs)
            fz = tuple(self.freeze_seg(s) for s in segs)
            if not fz: return 0
            return T("count", fz, "distinct")
        if isinstance(v, DictObj):
            if all(e[0] == "kv" for e in v.f["ents"]): return len(v.f["ents"])
            if len(v.f["ents"]) == 1 and v.f["ents"][0][0] in ("base", "pre"): return length(v.f["ents"][0][1])
            return T("len", self.freeze(v))
        if isinstance(v, ListObj):
            tot = 0
            for s in v.f["segs"]:
                n = self.seg_len(s)
                if n is None:
                    n = T("count", (self.freeze_seg(s),))
                tot = padd(tot, n)
            return tot
        if isinstance(v, Term):
            sh = self.S["shadow"].get(v)
            if sh is not None: return self.length(sh)
            if v.op in ("list", "set", "tup", "dict", "setc"): return self.length(self.thaw(v))
            return length(v)
        if isinstance(v, InstObj):
            fn = v.cls.find("__len__")
            if fn is not MISSING: return self.call(Bound(v, "__len__", fn), [])
        raise Und("len of %r" % (v,), node)

    def ordered(self, s):
        """elements of a sorted set whose elements and keys are known, in order"""
        segs = s.f["segs"]
        if not all(x[0] == "one" and is_num(x[1]) for x in segs): return None
        if len(segs) < 2: return ListObj(segs)
        memo = self.S.setdefault("skeys", {}) if False else self.__dict__.setdefault("skeys", {})
        out = []
        for x in segs:
            k = (id(s.key), x[1])
            if s.key is None: kv = x[1]
            elif k in memo: kv = memo[k][0]
            else:
                kv = self.plain_key(self.call(s.key, [x[1]], {}, None))
                if kv is not None: memo[k] = (kv, s.key)
            if kv is None: return None
            out.append((kv, x))
        try: out.sort(key=lambda z: z[0])
        except TypeError: return None
        return ListObj([x for _, x in out])
    def plain_key(self, v):
        if is_num(v): return v
        if isinstance(v, TupV): xs = v.items
        elif isinstance(v, ListObj) and all(x[0] == "one" for x in v.f["segs"]): xs = [x[1] for x in v.f["segs"]]
        else: return None
        ks = [self.plain_key(x) for x in xs]
        return None if None in ks else tuple(ks)
    def narrow(self, r):
        """a value known to be one of a few: one path for each"""
        vals = self.few.get(r)
        if vals is None: return r
        known = self.S.setdefault("fewv", {})
        if r in known: return known[r]
        v = vals[self.choose(len(vals), r)]
        self.assume(sg(psub(r, v), (0,)))
        self.w(known, r, v)
        return v
    def index(self, v, i, node=None):
        if isinstance(v, (TupV, str)):
            items = v.items if isinstance(v, TupV) else v
            if isinstance(i, int) and not isinstance(i, bool):
                try: return items[i]
                except IndexError: raise RaiseX("IndexError", None, node)
            return T("at", self.freeze(v), self.freeze(i))
        if isinstance(v, SetObj) and v.sorted:
            o = self.ordered(v)
            if o is not None: return self.index(o, i, node)
            return T("at", T("sortedl", self.freeze(v)), self.freeze(i))
        if isinstance(v, ListObj):
            segs = v.f["segs"]
            if not arith_ok(i): raise Und("index %r" % (i,), node)
            if isinstance(i, int):
                if all(s[0] == "one" for s in segs):
                    try: return segs[i][1]
                    except IndexError: raise RaiseX("IndexError", None, node)
                if i >= 0:
                    k = i
                    for s in segs:
                        if s[0] == "one":
                            if k == 0: return s[1]
                            k -= 1
                        else: break
                else:
                    k = -i - 1
                    for s in reversed(segs):
                        if s[0] == "one":
                            if k == 0: return s[1]
                            k -= 1
                        else: break
            if len(segs) == 1 and segs[0][0] == "pre": segs = self.expand_pre(segs)
            if len(segs) == 1 and segs[0][0] == "star":
                _, bv, lo, hi, cases = segs[0]
                if len(cases) == 1 and cases[0][0] is True and len(cases[0][1]) == 1 and cases[0][1][0][0] == "one":
                    si = self.facts.signs_of(i)
                    if si <= frozenset((0, 1)):
                        k = padd(lo, i)
                    elif si <= frozenset((-1,)):
                        k = padd(hi, i)
                    else:
                        k = padd(lo, i)
                    self.assume(sg(psub(k, lo), (0, 1)), log=False)
                    self.assume(sg(psub(hi, k), (1,)), log=False)
                    return self.lend(subst(cases[0][1][0][1], {bv: k}))
            # leading ones then a star
            return T("at", self.freeze(v), i)
        if isinstance(v, DictObj):
            return self.dict_get(v, i, node)
        if isinstance(v, Term):
            if v.op == "kwd":
                pass
            sh = self.S["shadow"].get(v)
            if sh is not None: return self.index(sh, i, node)
            if v.op in ("list", "tup", "dict"): return self.index(self.lend(v), i, node)
            if arith_ok(i) and is_num(i) and isinstance(i, int) and i < 0:
                return at(v, padd(length(v), i))
            h = self.handlers.get("index:" + v.op)
            if h: 
                r = h(self, v, i, node)
                if r is not None: return r
            return at(v, self.freeze(i))
        if isinstance(v, InstObj):
            fn = v.cls.find("__getitem__")
            if fn is not MISSING: return self.call(Bound(v, "__getitem__", fn), [i])
        raise Und("index of %r" % (v,), node)

    def slice(self, v, lo, hi, step, node=None):
        try: return self.slice_segs(v, lo, hi, step, node)
        except Und as e:
            # of a list known only by its segments: through the list as one value
            if step is not None or not isinstance(v, ListObj) or not str(e).startswith("slice") or len(v.f["segs"]) == 1 and self.plain_star(v.f["segs"][0]): raise
            return self.slice_segs(ListObj([self.star_of_term(self.freeze(v))]), lo, hi, step, node)
    def slice_segs(self, v, lo, hi, step, node=None):
        if step is not None and step != 1:
            if step == -1 and lo is None and hi is None:
                return self.reverse(v)
            raise Und("slice step", node)
        if isinstance(v, (str, TupV)):
            if all(x is None or isinstance(x, int) for x in (lo, hi)):
                if isinstance(v, str): return v[lo:hi]
                return TupV(v.items[lo:hi])
            raise Und("slice", node)
        srt = isinstance(v, SetObj) and v.sorted
        if srt:
            v = self.ordered(v) or ListObj([self.star_of_term(T("sortedl", self.freeze(v)))])
        if isinstance(v, Term) and (v.op in ("str", "fmt") or v.op == "smeth" and v.args[0] in STRING_TO_STRING):
            return T("smeth", "__getslice__", v, 0 if lo is None else self.freeze(lo), 10 ** 9 if hi is None else self.freeze(hi))
        if isinstance(v, Term):
            v = ListObj(self.segs_of(v))
        if not isinstance(v, ListObj): raise Und("slice of %r" % (v,), node)
        segs = list(v.f["segs"])
        if all(s[0] == "one" for s in segs) and all(x is None or isinstance(x, int) for x in (lo, hi)):
            return ListObj(segs[lo:hi])
        if lo is None and hi is None: return ListObj(segs)
        # symbolic
        segs = list(self.expand_pre(segs))
        def cut_front(segs, k):
            # remove first k elements, k >= 0
            segs = list(segs)
            while segs and not (is_num(k) and k == 0):
                s = segs[0]
                if s[0] == "one":
                    if is_num(k): k -= 1; segs.pop(0)
                    else:
                        s1 = self.facts.signs_of(k)
                        if s1 <= frozenset((1,)): k = psub(k, 1); segs.pop(0)
                        else: raise Und("slice", node)
                else:
                    if len(segs) == 1 and self.plain_star(s):
                        return [Star(s[1], padd(s[2], k), s[3], s[4])]
                    n = self.seg_len(s)
                    if n is not None and n is k:
                        segs.pop(0); k = 0; continue
                    if n is not None:
                        d = psub(k, n)
                        sd = self.facts.signs_of(d)
                        if sd <= frozenset((0, 1)): segs.pop(0); k = d; continue
                        if sd <= frozenset((-1, 0)) and self.plain_star(s):
                            segs[0] = Star(s[1], padd(s[2], k), s[3], s[4]); return segs
                        if self.plain_star(s):
                            if self.branch(sg(d, (-1, 0))):
                                segs[0] = Star(s[1], padd(s[2], k), s[3], s[4]); return segs
                            segs.pop(0); k = d; continue
                    raise Und("slice front", node)
            return segs
        def cut_back(segs, k):
            segs = list(segs)
            while segs and not (is_num(k) and k == 0):
                s = segs[-1]
                if s[0] == "one":
                    if is_num(k): k -= 1; segs.pop()
                    else: raise Und("slice", node)
                else:
                    if len(segs) == 1 and self.plain_star(s):
                        return [Star(s[1], s[2], psub(s[3], k), s[4])]
                    n = self.seg_len(s)
                    if n is not None and self.plain_star(s):
                        d = psub(k, n)
                        if self.branch(sg(d, (-1, 0))):
                            segs[-1] = Star(s[1], s[2], psub(s[3], k), s[4]); return segs
                        segs.pop(); k = d; continue
                    raise Und("slice back", node)
            return segs
        total = None
        if hi is not None:
            sh = self.facts.signs_of(hi)
            if sh <= frozenset((-1,)):
                segs = cut_back(segs, pneg(hi))
            elif is_num(hi) and hi == 0:
                segs = []
            elif sh <= frozenset((0, 1)):
                # first hi elements
                if len(segs) == 1 and self.plain_star(segs[0]):
                    s = segs[0]
                    nh = padd(s[2], hi)
                    if not (self.facts.signs_of(psub(s[3], nh)) <= frozenset((0, 1))):
                        if not self.branch(sg(psub(s[3], nh), (0, 1))): nh = s[3]
                    segs = [Star(s[1], s[2], nh, s[4])]
                elif all(s[0] == "one" for s in segs[:hi if isinstance(hi, int) else 0]) and isinstance(hi, int) and len(segs) >= hi:
                    segs = segs[:hi]
                else:
                    raise Und("slice to", node)
            else:
                raise Und("slice bound", node)
        if lo is not None:
            sl = self.facts.signs_of(lo)
            if sl <= frozenset((0, 1)):
                segs = cut_front(segs, lo)
            elif isinstance(lo, int) and lo < 0 and len(segs) == 1 and self.plain_star(segs[0]):
                s = segs[0]
                nl = padd(s[3], lo)
                if not self.branch(sg(psub(nl, s[2]), (0, 1))): nl = s[2]
                segs = [Star(s[1], nl, s[3], s[4])]
            elif isinstance(lo, int) and lo < 0 and all(s[0] == "one" for s in segs[lo:]) and len(segs) >= -lo:
                segs = segs[lo:]
            else:
                raise Und("slice from", node)
        return ListObj(segs)

    def plain_star(self, s):
        return s[0] == "star" and len(s[4]) == 1 and s[4][0][0] is True and len(s[4][0][1]) == 1 and s[4][0][1][0][0] == "one"

    def reverse(self, v):
        segs = self.segs_of(v)
        out = []
        for s in reversed(segs):
            if s[0] == "one": out.append(s)
            elif self.plain_star(s):
                _, bv, lo, hi, cases = s
                # i -> lo+hi-1-i
                x = cases[0][1][0][1]
                out.append(Star(bv, lo, hi, [(True, (One(subst(x, {bv: psub(psub(padd(lo, hi), 1), bv)})),))]))
            else:
                raise Und("reverse")
        return ListObj(out)

    # ---------------------------------------------------------------- dictionaries
    def eq_cond(self, a, b, node=None):
        """a == b as a condition"""
        if a is b: return True
        if isinstance(a, (FuncVal, Builtin, PyFn, Bound, ModVal)) or isinstance(b, (FuncVal, Builtin, PyFn, Bound, ModVal)):
            if isinstance(a, Bound) and isinstance(b, Bound):
                return (a.recv is b.recv and a.name == b.name)
            if isinstance(a, Builtin) and isinstance(b, Term) and b.op == "clsof": a, b = b, a
            if isinstance(b, Builtin) and isinstance(a, Term) and a.op == "clsof":
                ks = CLASS_KINDS.get(b.name)
                if ks: return kd(a.args[0], ks)
            if isinstance(a, Term) or isinstance(b, Term):
                return eqo(self.freeze(a), self.freeze(b)) if not (isinstance(a, Term) and arith_ok(a) and is_int(a)) else False
            return False
        if isinstance(a, (ClassVal, ExtVal)) or isinstance(b, (ClassVal, ExtVal)):
            if isinstance(a, (ClassVal, ExtVal)): a, b = b, a
            if isinstance(a, Term) and a.op == "clsof" and isinstance(b, ExtVal):
                ks = CLASS_KINDS.get(b.name)
                if ks: return kd(a.args[0], ks)
            if isinstance(a, ExtVal) and isinstance(b, ExtVal):
                ka, kb = CLASS_KINDS.get(a.name), CLASS_KINDS.get(b.name)
                return ka is not None and ka == kb
            if isinstance(a, Term): return eqo(a, T("func", Box(b)))
            return False
        if isinstance(a, TupV) or isinstance(b, TupV):
            if isinstance(a, TupV) and isinstance(b, TupV):
                if len(a.items) != len(b.items): return False
                return b_and(*[self.eq_cond(x, y) for x, y in zip(a.items, b.items)])
            o = b if isinstance(a, TupV) else a
            if isinstance(o, Term): return eqo(self.freeze(a), self.freeze(b))
            return False
        if isinstance(a, ListObj) or isinstance(b, ListObj):
            if not isinstance(a, ListObj): a, b = b, a
            if isinstance(b, ListObj) or isinstance(b, Term):
                if isinstance(b, Term) and (b.op in ("sg",) or is_int(b)): return False
                sa = a.f["segs"]; sb = b.f["segs"] if isinstance(b, ListObj) else None
                if not sa: return self.is_zero(self.length(b))
                if sb is not None and not sb: return self.is_zero(self.length(a))
                if sb is not None and all(s[0] == "one" for s in sa + sb):
                    if len(sa) != len(sb): return False
                    return b_and(*[self.eq_cond(x[1], y[1]) for x, y in zip(sa, sb)])
                fa, fb = self.freeze(a), self.freeze(b)
                return True if fa is fb else eqo(fa, fb)
            return False
        if isinstance(a, (SetObj, DictObj)) or isinstance(b, (SetObj, DictObj)):
            fa, fb = self.freeze(a), self.freeze(b)
            if fa is fb: return True
            for x, y in ((a, b), (b, a)):
                if isinstance(x, (SetObj, DictObj)) and self.length(x) == 0 and isinstance(y, (SetObj, DictObj, Term)):
                    if type(y) in (SetObj, DictObj) and type(x) is not type(y): return False
                    return self.is_zero(self.length(y))
            if isinstance(fa, Term) and isinstance(fb, Term) and fa.op == "setc" and fb.op == "setc": return False
            if is_const(fa) or is_const(fb): return False
            return eqo(fa, fb)
        if isinstance(a, InstObj) or isinstance(b, InstObj):
            if isinstance(a, InstObj) and isinstance(b, InstObj):
                e = a.cls.find("__eq__")
                if e is not MISSING: return self.truth(self.call(Bound(a, "__eq__", e), [b]))
                return False
            if isinstance(a, Term) or isinstance(b, Term): return eqo(self.freeze(a), self.freeze(b))
            return False
        if is_const(a) and is_const(b):
            return a == b
        # bool-valued terms
        for x, y in ((a, b), (b, a)):
            if isinstance(x, Term) and is_bool(x):
                if y is True: return x
                if y is False: return b_not(x)
        return eq_any(a, b)

    def is_zero(self, n):
        return self.norm(sg(n, (0,)))

    def dict_find(self, d, k, node=None, branch=True):
        """('hit', idx, value) | ('base', term) | ('miss',) on this path; dicts are searched latest entry first"""
        ents = d.f["ents"]
        for i in range(len(ents) - 1, -1, -1):
            e = ents[i]
            if e[0] == "kv":
                c = self.eq_cond(e[1], k)
                if c is True or (not isinstance(c, bool) and self.branch(c, node)):
                    return ("hit", i, e[2])
            elif e[0] == "star":
                _, bv, lo, hi, cases = e
                fk = self.freeze(k)
                # focus: is there an index with that key
                conds = []
                for g, kk, vv in cases:
                    conds.append(b_and(g, self.eq_cond(kk, fk)))
                ex = b_ex(bv, lo, hi, b_or(*conds))
                # direct solution of key(b) == k  for injective index keys
                sol = self.solve_index(cases, bv, lo, hi, fk)
                if sol is not None:
                    return ("hit", i, self.lend(sol))
                if ex is False: continue
                if ex is True or self.branch(ex, node):
                    if len(cases) == 1 and bv not in syms(cases[0][2]):
                        return ("hit", i, self.lend(cases[0][2]))
                    return ("term", T("lookup", (e,), fk))
            elif e[0] in ("base", "pre"):
                return ("base", e[1])
            else: raise Und("lookup in a dictionary filled by nested loops", node)
        return ("miss",)

    def solve_index(self, cases, bv, lo, hi, k):
        for g, kk, vv in cases:
            if g is not True: continue
            if kk is bv: cand = k
            elif isinstance(kk, Term) and isinstance(k, Term):
                cand = match_var(kk, k, bv)
                if cand is None: continue
            else: continue
            if not (is_num(cand) or (isinstance(cand, Term) and arith_ok(cand))): continue
            if self.facts.in_range(cand, lo, hi):
                return subst(vv, {bv: cand})
        return None

    def dict_get(self, d, k, node=None):
        r = self.dict_find(d, k, node)
        if r[0] == "hit": return r[2]
        if r[0] == "term": return r[1]
        if r[0] == "base":
            return self.index_base(r[1], k, node)
        if d.default is not None:
            v = self.call(d.default, [], node=node)
            self.dict_set(d, k, v, node)
            return v
        raise RaiseX("KeyError", self.freeze(k), node)

    def index_base(self, t, k, node):
        return at(t, self.freeze(k))

    def dict_set(self, d, k, v, node=None):
        ents = list(d.f["ents"])
        fk = k
        # replace an entry with a certainly equal key; otherwise append (latest wins)
        for i in range(len(ents) - 1, -1, -1):
            e = ents[i]
            if e[0] == "kv":
                c = self.eq_cond(e[1], k)
                if not isinstance(c, bool):
                    c = self.facts.decide(c)
                if c is True:
                    ents[i] = ("kv", e[1], v)
                    self.w(d.f, "ents", tuple(ents)); return
                if c is None: break
            else: break
        ents.append(("kv", fk, v))
        self.w(d.f, "ents", tuple(ents))

    def contains(self, x, c, node=None):
        """condition x in c"""
        if isinstance(c, DictObj):
            conds = []
            for e in c.f["ents"]:
                if e[0] == "kv": conds.append(self.eq_cond(e[1], x))
                elif e[0] == "star":
                    fx = self.freeze(x)
                    if self.solve_index(e[4], e[1], e[2], e[3], fx) is not None: return True
                    conds.append(b_ex(e[1], e[2], e[3], b_or(*[b_and(g, self.eq_cond(k, fx)) for g, k, v in e[4]])))
                elif e[0] == "nstar": raise Und("membership in a dictionary filled by nested loops", node)
                else: conds.append(T("in", self.freeze(x), e[1]))
            return b_or(*conds)
        if isinstance(c, Term) and c not in self.S["shadow"]:
            if c.op in ("list", "set", "tup", "setc", "dict"): return self.contains(x, self.thaw(c), node)
            if c.op == "inter":
                return b_and(self.contains(x, c.args[0]), self.contains(x, T("setc", c.args[1])))
            if c.op == "asset":
                return T("in", self.freeze(x), c.args[0])
            if c.op == "keys": return T("in", self.freeze(x), c.args[0])
            return T("in", self.freeze(x), c)
        if isinstance(c, str):
            if isinstance(x, str): return x in c
            return T("in", self.freeze(x), c)
        if isinstance(c, InstObj):
            fn = c.cls.find("__contains__")
            if fn is not MISSING: return self.truth(self.call(Bound(c, "__contains__", fn), [x]))
        conds = []
        fx = None
        for s in self.segs_of(c, node) if not isinstance(c, (ListObj, SetObj)) else c.f["segs"]:
            if s[0] == "pre":
                conds.append(T("in", self.freeze(x), s[1])); continue
            if s[0] == "one": conds.append(self.eq_cond(s[1], x)); continue
            if fx is None: fx = self.freeze(x)
            _, bv, lo, hi, cases = s
            if self.plain_star(s):
                el = cases[0][1][0][1]
                if isinstance(el, Term) and el.op == "at" and el.args[1] is bv and lo == 0 and hi is length(el.args[0]):
                    conds.append(T("in", fx, el.args[0])); continue
                if el is bv and arith_ok(fx):
                    conds.append(b_and(sg(psub(fx, lo), (0, 1)), sg(psub(hi, fx), (1,)))); continue
            cs = []
            for g, inner in cases:
                for y in inner:
                    if y[0] != "one": return T("in", fx, self.freeze(c))
                    cs.append(b_and(g, self.eq_cond(y[1], fx)))
            conds.append(b_ex(bv, lo, hi, b_or(*cs)))
        return b_or(*conds)

def _ck(x):
    return (type(x).__name__ if isinstance(x, (bool, str)) or x is None else "n", x)

def match_var(pat, t, bv):
    """value v with pat[bv:=v] is t (first-order matching), or None"""
    if pat is bv: return t
    if not isinstance(pat, Term) or bv not in syms(pat):
        return None
    if not isinstance(t, Term) or t.op != pat.op or len(t.args) != len(pat.args): return None
    if pat.op == "poly": return None
    found = None
    for a, b in zip(pat.args, t.args):
        if a is b or (not isinstance(a, (Term, tuple)) and a == b): continue
        if isinstance(a, tuple) or isinstance(b, tuple): return None
        v = match_var(a, b, bv)
        if v is None: return None
        if found is not None and found is not v: return None
        found = v
    if found is not None and subst(pat, {bv: found}) is t: return found
    return None

def assigned_names(stmts):
    out = set()
    def tgt(t):
        if t._t == "Name": out.add(t.id)
        elif t._t in ("Tuple", "List"):
            for e in t.elts: tgt(e)
    def go(st):
        if st._t == "Assign":
            for t in st.targets: tgt(t)
        elif st._t == "AugAssign": tgt(st.target)
        elif st._t in ("For",):
            tgt(st.target)
        elif st._t in ("FunctionDef", "ClassDef"):
            out.add(st.name); return
        elif st._t in ("Import", "ImportFrom"):
            for n in st.names: out.add((n.asname or n.name).split(".")[0])
        elif st._t == "With":
            if st.optional_vars is not None: tgt(st.optional_vars)
        elif st._t == "TryExcept":
            for h in st.handlers:
                if h.name is not None: tgt(h.name)
                for s in h.body: go(s)
        elif st._t == "Delete":
            for t in st.targets: tgt(t)
        for k in ("body", "orelse", "finalbody"):
            b = st.get(k)
            if isinstance(b, list):
                for s in b:
                    if isinstance(s, Node) and s._t not in ("FunctionDef", "ClassDef") or isinstance(s, Node) and s._t in ("FunctionDef", "ClassDef"):
                        go(s)
        # list comprehension variables leak in Python 2 but are only used locally
    for s in stmts: go(s)
    return out

def globals_decl(stmts):
    out = set()
    def go(n):
        if isinstance(n, list):
            for x in n: go(x)
        elif isinstance(n, Node):
            if n._t == "Global": out.update(n.names)
            if n._t in ("FunctionDef", "ClassDef", "Lambda"): return
            for v in n.d.values():
                if isinstance(v, (Node, list)): go(v)
    go(stmts)
    return out

def has_yield(stmts):
    def go(n):
        if isinstance(n, list): return any(go(x) for x in n)
        if isinstance(n, Node):
            if n._t == "Yield": return True
            if n._t in ("FunctionDef", "ClassDef", "Lambda"): return False
            return any(go(v) for v in n.d.values() if isinstance(v, (Node, list)))
        return False
    return go(stmts)

DEFAULT_HANDLERS = {}
def handler(*names):
    def deco(fn):
        for n in names: DEFAULT_HANDLERS[n] = fn
        return fn
    return deco

from . import interp2   # noqa: statement/expression/loop parts are attached there
