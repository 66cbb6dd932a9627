"""Effect analysis: which objects and state cells may a call change, and which does it read from earlier calls.

Objects are abstracted by where they come from (an input of the entry point, an allocation site under the last two
call sites, module start-up). Variables are followed flow-sensitively, contents of objects by one summary per object.
Numbers, strings, None and results of library calls that cannot alias anything carry no object."""
from .front import Node

MUT_LIST = {"append", "extend", "insert", "pop", "remove", "sort", "reverse"}
MUT_DICT = {"update", "setdefault", "popitem", "clear", "pop"}
MUT_SET = {"add", "discard", "remove", "pop", "clear", "update", "intersection_update", "difference_update", "symmetric_difference_update"}
MUT_EXT = {"append", "extend", "sort", "setdefault", "popitem", "row_op", "col_op", "row_swap", "col_swap", "row_del", "col_del", "zip_row_op", "fill", "copyin_matrix", "copyin_list", "next"}
MUT = {"list": MUT_LIST, "dict": MUT_DICT, "set": MUT_SET, "ext": MUT_EXT, "tuple": set()}
FRESH_LIST = {"list", "sorted", "zip", "map", "filter", "reversed", "range", "xrange", "iter", "enumerate"}

class Obj(object):
    __slots__ = ("key", "kind", "inp", "state", "cls", "data")
    def __init__(self, key, kind, inp=None, state=False, cls=None, data=None):
        self.key = key; self.kind = kind; self.inp = inp; self.state = state; self.cls = cls; self.data = data
    def __repr__(self): return "<%s %s>" % (self.kind, self.key[:2] if isinstance(self.key, tuple) else self.key)
NONE = frozenset()
def one(o): return frozenset((o,))

class Frame(object):
    __slots__ = ("env", "all", "globals", "mod", "outer", "fn", "cs", "ret", "yields", "W", "globs", "locals", "is_class")
    def __init__(self, mod, fn, cs, outer=None):
        self.env = {}; self.all = {}; self.mod = mod; self.fn = fn; self.cs = cs; self.outer = outer
        self.ret = NONE; self.yields = None; self.W = frozenset(); self.globs = set(); self.locals = None; self.is_class = None

class Dead(Exception): pass

def dump(e):
    """a name or a chain of attributes as text; anything else as something unique"""
    if isinstance(e, Node) and e._t == "Name": return e.id
    if isinstance(e, Node) and e._t == "Attribute": return dump(e.value) + "." + e.attr
    return "#%d" % id(e)
def nodes(e):
    if isinstance(e, list):
        for x in e:
            for y in nodes(x): yield y
    elif isinstance(e, Node):
        yield e
        for v in e.d.values():
            for y in nodes(v): yield y

class Effects(object):
    def __init__(self, mods):
        self.mods = {n: m for n, m in mods.items() if not n.startswith("spec_")}
        self.objs = {}; self.heap = {}; self.memo = {}; self.active = {}; self.phase = "init"; self.changed = False
        self.modenv = {}; self.frames = {}
        self.muts = {}; self.writes = {}; self.reads = {}; self.record = False
        self.stack = []; self.fnames = {}; self.called = set(); self.ncalls = 0; self.loading = set(); self.out = False
        self.callbacks = {}
    # ---- objects
    def obj(self, key, kind, **k):
        o = self.objs.get(key)
        if o is None:
            o = self.objs[key] = Obj(key, kind, **k); self.heap[o] = {}
        return o
    def alloc(self, node, kind, fr, cls=None, tag=""):
        init = self.phase == "init"
        return self.obj(("alloc", id(node), tag, kind, fr.cs if not init else "init"), kind, state=init, cls=cls, data=node)
    def put(self, o, f, v):
        old = self.heap[o].get(f, NONE)
        new = old | v
        if f not in self.heap[o] or new != old: self.heap[o][f] = new; self.changed = True
    def get(self, o, f): return self.heap[o].get(f, NONE)
    def kept(self, o, f, v, fr):
        """what is read back from the state kept between calls: an object made during a call and stored there is then part of the state"""
        if self.phase != "call" or not o.state or not v: return v
        if fr is not None and (("content", o) if f == "content" else ("attr", o, f)) in fr.W: return v
        r = []
        for x in v:
            if not x.state and x.kind in ("list", "dict", "set", "tuple", "inst"):
                y = self.objs.get(("kept", x.key))
                if y is None:
                    y = self.objs[("kept", x.key)] = Obj(("kept", x.key), x.kind, inp=x.inp, state=True, cls=x.cls, data=x.data)
                    self.heap[y] = self.heap[x]
                r.append(y)
            else: r.append(x)
        return frozenset(r)
    def contents(self, v, fr=None, node=None):
        r = NONE
        for o in v:
            if o.kind in ("list", "dict", "set", "tuple", "ext"):
                self.read(o, "content", fr, node)
                for f, x in self.heap[o].items():
                    if f != "k" or o.kind != "dict": r |= self.kept(o, "content", x, fr)
        return r
    def keys(self, v, fr=None, node=None):
        r = NONE
        for o in v:
            if o.kind == "dict": self.read(o, "content", fr, node); r |= self.get(o, "k")
            elif o.kind in ("list", "set", "tuple", "ext"): r |= self.contents(one(o), fr, node)
        return r
    # ---- events
    def where(self, fr, node): return (self.modfile(fr.mod), fr.fn.name if fr and fr.fn is not None and fr.fn._t == "FunctionDef" else "<lambda>" if fr and fr.fn is not None else "<module>", getattr(node, "lineno", 0), id(node))
    def modfile(self, m):
        n = self.mods[m]
        return n.body[0].file if n.body else m
    def mutate(self, o, fr, node, how):
        if self.phase != "call" or not self.record: return
        if o.inp is not None: self.muts.setdefault(o.inp, {})[self.where(fr, node)] = how
        if o.state: self.writes.setdefault(("content", o), {})[id(node)] = (fr.fn, fr.mod, node, how, self.out)
    def write(self, cell, fr, node, how):
        if self.phase == "call" and self.record: self.writes.setdefault(cell, {})[id(node)] = (fr.fn, fr.mod, node, how, self.out)
    def read(self, o, f, fr, node):
        if fr is None or self.phase != "call" or not self.record or not o.state: return
        cell = ("content", o) if f == "content" else ("attr", o, f)
        if cell in fr.W: return
        self.reads.setdefault(cell, {})[id(node)] = (fr.fn, fr.mod, node, self.out)
    # ---- modules
    def start(self):
        for n in sorted(self.mods): self.load(n)
    def load(self, n):
        if n in self.modenv: return
        m = self.obj(("mod", n), "mod", state=True, data=n); self.modenv[n] = m
        fr = Frame(n, None, ()); fr.env = self.heap[m]; fr.all = self.heap[m]
        self.modframe(n, fr); ph = self.phase; self.phase = "init"
        try: self.block(self.mods[n].body, fr)
        except Dead: pass
        self.phase = ph
    def modframe(self, n, fr): self.frames[n] = fr
    # ---- statements
    def block(self, body, fr):
        for s in body: self.stmt(s, fr)
    def snapshot(self, fr): return (dict(fr.env) if fr.fn is not None else None, fr.W)
    def restore(self, fr, s):
        if s[0] is not None: fr.env = dict(s[0])
        fr.W = s[1]
    def join(self, fr, states):
        states = [s for s in states if s is not None]
        if not states: raise Dead()
        if states[0][0] is not None:
            env = {}
            for s in states:
                for k, v in s[0].items(): env[k] = env.get(k, NONE) | v
            fr.env = env
        w = states[0][1]
        for s in states[1:]: w = w & s[1]
        fr.W = w
    def branch(self, fr, body, st):
        self.restore(fr, st)
        try: self.block(body, fr)
        except Dead: return None
        return self.snapshot(fr)
    def stmt(self, s, fr):
        getattr(self, "s_" + s._t, self.s_other)(s, fr)
    def s_other(self, s, fr): pass
    def s_Expr(self, s, fr): self.ev(s.value, fr)
    def s_Assert(self, s, fr): self.ev(s.test, fr)
    def s_Print(self, s, fr):
        o = self.out; self.out = True
        for v in s.values or []: self.ev(v, fr)
        self.out = o
    def s_Return(self, s, fr):
        if s.value is not None: fr.ret = fr.ret | self.ev(s.value, fr)
        self.exits(fr); raise Dead()
    def exits(self, fr): fr.all["#exit"] = fr.W if "#exit" not in fr.all else fr.all["#exit"] & fr.W
    def s_Raise(self, s, fr):
        for k in ("type", "inst", "tback", "excepttype"):
            v = s.get(k)
            if isinstance(v, Node): self.ev(v, fr)
        raise Dead()
    def s_Break(self, s, fr): raise Dead()
    def s_Continue(self, s, fr): raise Dead()
    def printing(self, body, test=None):
        """a body that only writes output, and the state its own test looks at"""
        def own(e):
            if test is None: return False
            if e._t == "Name" and e.id in ("True", "False", "None"): return False
            return e._t in ("Name", "Attribute") and any(dump(x) == dump(e) for x in nodes(test))
        def const(e): return e._t in ("Num", "Str") or e._t == "Name" and e.id in ("True", "False", "None")
        def ok(x):
            if x._t in ("Print", "Pass", "Global"): return True
            if x._t == "If": return self.printing(x.body + (x.orelse or []), test)
            if x._t == "Expr":
                v = x.value
                if v._t == "Str": return True
                if v._t == "Call" and v.func._t == "Attribute":
                    if v.func.attr in ("add", "append", "discard", "clear", "update"): return own(v.func.value)
                    if v.func.attr in ("write", "flush"): return dump(v.func.value) in ("sys.stdout", "sys.stderr")
                return False
            if x._t == "Assign" and len(x.targets) == 1:
                t = x.targets[0]
                return own(t) and const(x.value) or t._t == "Subscript" and own(t.value) and const(x.value)
            if x._t == "AugAssign": return own(x.target) and const(x.value)
            return False
        return all(ok(x) for x in body)
    def s_If(self, s, fr):
        o = self.out
        if self.printing(s.body + (s.orelse or []), s.test): self.out = True
        self.ev(s.test, fr); self.out = o
        st = self.snapshot(fr)
        self.join(fr, [self.branch(fr, s.body, st), self.branch(fr, s.orelse or [], st)])
    def loop(self, fr, once, orelse):
        for _ in range(4):
            st = self.snapshot(fr)
            try: once(); b = self.snapshot(fr)
            except Dead: b = None
            # break and continue leave with what was known at the head, plus anything assigned in the body
            n = dict(st[0]) if st[0] is not None else None
            if n is not None:
                for k, v in fr.env.items(): n[k] = n.get(k, NONE) | v
            self.restore(fr, (n, st[1]))
            if n is None or n == st[0]: break
        try: self.block(orelse or [], fr)
        except Dead: pass
    def s_For(self, s, fr):
        it = self.ev(s.iter, fr)
        def once():
            self.assign(s.target, self.items(it, fr, s), fr, s); self.block(s.body, fr)
        self.loop(fr, once, s.orelse)
    def items(self, v, fr, node): return self.keys(v, fr, node)
    def s_While(self, s, fr):
        def once(): self.ev(s.test, fr); self.block(s.body, fr)
        self.loop(fr, once, s.orelse)
    def s_With(self, s, fr):
        v = self.ev(s.context_expr, fr)
        if s.get("optional_vars") is not None: self.assign(s.optional_vars, v, fr, s)
        self.block(s.body, fr)
    def s_TryExcept(self, s, fr):
        st = self.snapshot(fr)
        b = self.branch(fr, s.body, st)
        mid = dict(st[0]) if st[0] is not None else None
        if mid is not None:
            for k, v in fr.env.items(): mid[k] = mid.get(k, NONE) | v
        if b is not None and s.orelse: b = self.branch(fr, s.orelse, b)
        outs = [b]
        for h in s.handlers:
            self.restore(fr, (mid, st[1]))
            if isinstance(h.get("name"), Node): self.assign(h.name, NONE, fr, h)
            try: self.block(h.body, fr); outs.append(self.snapshot(fr))
            except Dead: pass
        self.join(fr, outs)
    def s_TryFinally(self, s, fr):
        st = self.snapshot(fr); dead = False
        try: self.block(s.body, fr)
        except Dead: dead = True
        self.block(s.finalbody, fr)
        if dead: raise Dead()
    def s_Global(self, s, fr):
        fr.globs.update(x if isinstance(x, str) else x.id for x in s.names)
    def s_Import(self, s, fr):
        for a in s.names:
            n = a.asname or a.name.split(".")[0]; base = a.name.split(".")[-1] if a.asname else a.name.split(".")[0]
            self.setname(n, self.module(base, a.name), fr, s)
    def module(self, base, full):
        if base in self.mods: self.load(base); return one(self.modenv[base])
        return one(self.obj(("lib", full), "lib", data=full))
    def s_ImportFrom(self, s, fr):
        m = (s.module or "").split(".")[-1]
        for a in s.names:
            if m in self.mods:
                self.load(m)
                if a.name == "*":
                    for k, v in list(self.heap[self.modenv[m]].items()):
                        if not k.startswith("_"): self.setname(k, v, fr, s)
                else: self.setname(a.asname or a.name, self.heap[self.modenv[m]].get(a.name, NONE), fr, s)
            elif a.name != "*": self.setname(a.asname or a.name, one(self.obj(("lib", (s.module or "") + "." + a.name), "lib", data=(s.module or "") + "." + a.name)), fr, s)
    def s_FunctionDef(self, s, fr):
        f = self.function(s, fr)
        v = one(f)
        for d in reversed(s.decorator_list or []):
            if d._t == "Name" and d.id in ("staticmethod", "classmethod", "property"):
                o = self.obj(("deco", d.id, f.key), "func", state=f.state, data=f.data, cls=d.id); self.heap[o] = self.heap[f]; v = one(o)
            else: v = self.call(self.ev(d, fr), [v], {}, fr, d) or v
        self.setname(s.name, v, fr, s)
    def function(self, s, fr):
        init = self.phase == "init"
        f = self.obj(("func", id(s), fr.cs if not init else "init"), "func", state=init, data=(s, fr))
        f.data = (s, fr)
        for i, d in enumerate(s.args.defaults or []): self.put(f, "default%d" % i, self.ev(d, fr))
        return f
    def s_ClassDef(self, s, fr):
        init = self.phase == "init"
        c = self.obj(("cls", id(s), fr.cs if not init else "init"), "cls", state=init, data=(s, fr))
        bases = NONE
        for b in s.bases: bases |= self.ev(b, fr)
        self.put(c, "#bases", frozenset(x for x in bases if x.kind == "cls"))
        cf = Frame(fr.mod, fr.fn, fr.cs, fr); cf.env = cf.all = self.heap[c]; cf.is_class = c; cf.fn = None
        try: self.block(s.body, cf)
        except Dead: pass
        self.setname(s.name, one(c), fr, s)
    def s_Delete(self, s, fr):
        for t in s.targets:
            if t._t == "Subscript":
                self.index(t, fr)
                for o in self.ev(t.value, fr): self.mutate(o, fr, t, "del")
            elif t._t == "Attribute":
                for o in self.ev(t.value, fr): self.setattr_ev(o, t.attr, fr, t, "del")
    def s_Assign(self, s, fr):
        e = s.value; again = [t for t in s.targets if t._t in ("Name", "Attribute") and any(dump(x) == dump(t) for x in nodes(e))]
        if again and len(s.targets) == 1 and e._t == "BinOp" and sorted((e.left._t == "Num", e.right._t == "Num")) == [False, True] and dump(e.left if e.right._t == "Num" else e.right) == dump(s.targets[0]):
            o = self.out; self.out = True; v = self.ev(e, fr); self.out = o
        else: v = self.ev(e, fr)
        w = fr.W
        for t in s.targets: self.assign(t, v, fr, s)
        if again: fr.W = w
    def setattr_ev(self, o, a, fr, node, how):
        if o.kind in ("list", "dict", "set", "tuple", "ext"): self.mutate(o, fr, node, how)
        elif o.state: self.write(("attr", o, a), fr, node, how)
    def assign(self, t, v, fr, s):
        k = t._t
        if k == "Name": self.setname(t.id, v, fr, s)
        elif k in ("Tuple", "List"):
            for i, e in enumerate(t.elts):
                x = NONE
                for o in v:
                    if o.kind == "tuple" and str(i) in self.heap[o] and not self.heap[o].get("*"): x |= self.heap[o][str(i)]
                    else: x |= self.contents(one(o), fr, s)
                self.assign(e, x, fr, s)
        elif k == "Attribute":
            for o in self.ev(t.value, fr):
                self.put(o, t.attr, v); self.setattr_ev(o, t.attr, fr, s, "assigned")
                if o.state: fr.W = fr.W | {("attr", o, t.attr)}
        elif k == "Subscript":
            ks = self.index(t, fr); whole = t.slice._t == "Slice" and t.slice.get("lower") is None and t.slice.get("upper") is None
            base = self.ev(t.value, fr)
            for o in base:
                self.mutate(o, fr, s, "subscript")
                if o.kind == "dict": self.put(o, "k", ks)
                self.put(o, "*", self.contents(v, fr, s) if t.slice._t == "Slice" else v)
                if whole and o.state and len(base) == 1: fr.W = fr.W | {("content", o)}
    def index(self, t, fr):
        sl = t.slice; r = NONE
        if sl._t == "Index": r = self.ev(sl.value, fr)
        elif sl._t == "Slice":
            for k in ("lower", "upper", "step"):
                if sl.get(k) is not None: self.ev(sl.get(k), fr)
        elif sl._t == "ExtSlice":
            for d in sl.dims:
                if d._t == "Index": self.ev(d.value, fr)
        return r
    def s_AugAssign(self, s, fr):
        v = self.ev(s.value, fr); t = s.target
        def inplace(old):
            for o in old:
                if o.kind in ("list", "set", "ext"):
                    self.mutate(o, fr, s, "+=")
                    self.put(o, "*", self.contents(v, fr, s))
            return old | frozenset(o for o in v if o.kind in ("list", "set") and not old)
        if t._t == "Name":
            o = self.out; self.out = True; old = self.name(t.id, fr, s); self.out = o
            w = fr.W; self.setname(t.id, inplace(old), fr, s); fr.W = w
        elif t._t == "Attribute":
            for b in self.ev(t.value, fr):
                if b.state:
                    o = self.out; self.out = True; self.read(b, t.attr, fr, s); self.out = o
                r = inplace(self.get(b, t.attr)); self.put(b, t.attr, r); self.setattr_ev(b, t.attr, fr, s, "+=")
        elif t._t == "Subscript":
            self.index(t, fr)
            for b in self.ev(t.value, fr):
                self.mutate(b, fr, s, "subscript")
                inplace(self.contents(one(b)))
                self.put(b, "*", frozenset(o for o in v if o.kind in ("list", "set")))
    # ---- names
    def local_names(self, fn):
        r = getattr(self, "_ln", None)
        if r is None: r = self._ln = {}
        if id(fn) in r: return r[id(fn)]
        out = set(); glob = set()
        def tgt(t):
            if t._t == "Name": out.add(t.id)
            elif t._t in ("Tuple", "List"):
                for e in t.elts: tgt(e)
        def walk(x):
            if isinstance(x, list):
                for y in x: walk(y)
            elif isinstance(x, Node):
                if x._t in ("FunctionDef", "ClassDef"): out.add(x.name); return
                if x._t == "Lambda": return
                if x._t == "Assign":
                    for t in x.targets: tgt(t)
                elif x._t in ("AugAssign", "For"): tgt(x.target)
                elif x._t == "comprehension": tgt(x.target)
                elif x._t == "With" and x.get("optional_vars") is not None: tgt(x.optional_vars)
                elif x._t == "ExceptHandler" and isinstance(x.get("name"), Node): tgt(x.name)
                elif x._t in ("Import", "ImportFrom"):
                    for a in x.names: out.add(a.asname or a.name.split(".")[0])
                elif x._t == "Global": glob.update(y if isinstance(y, str) else y.id for y in x.names)
                for v in x.d.values(): walk(v)
        if fn._t == "FunctionDef": walk(fn.body)
        else: walk(fn.body)
        for a in params(fn): tgt(a) if isinstance(a, Node) else out.add(a)
        r[id(fn)] = (out - glob, glob)
        return r[id(fn)]
    def setname(self, n, v, fr, node):
        if fr.fn is None:
            if fr.is_class is not None: self.put(fr.is_class, n, v); return
            m = self.modenv[fr.mod]; self.put(m, n, v); return
        if n in self.local_names(fr.fn)[1]:
            m = self.modenv[fr.mod]; self.put(m, n, v); self.write(("attr", m, n), fr, node, "assigned"); fr.W = fr.W | {("attr", m, n)}
            return
        fr.env[n] = v
        old = fr.all.get(n, NONE)
        if not v <= old or n not in fr.all: fr.all[n] = old | v; self.changed = True
    def name(self, n, fr, node):
        f = fr
        if f.fn is not None and n in self.local_names(f.fn)[0]:
            return f.env.get(n, NONE)
        if f.is_class is not None and n in self.heap[f.is_class]: return self.heap[f.is_class][n]
        g = f.outer
        while g is not None:
            if g.fn is not None and n in self.local_names(g.fn)[0]: return g.all.get(n, NONE)
            g = g.outer
        m = self.modenv[fr.mod]
        if n in self.heap[m]:
            self.read(m, n, fr, node)
            return self.kept(m, n, self.heap[m][n], fr)
        if n in BUILTINS: return one(self.obj(("builtin", n), "builtin", data=n))
        for other in ("grf", "smt2"):  # loaded into one session
            if fr.mod in ("grf", "smt2") and other != fr.mod and other in self.mods:
                self.load(other)
                if n in self.heap[self.modenv[other]]: return self.heap[self.modenv[other]][n]
        return NONE
    # ---- expressions
    def ev(self, e, fr):
        return getattr(self, "e_" + e._t, self.e_other)(e, fr)
    def e_other(self, e, fr):
        for v in e.d.values():
            for x in (v if isinstance(v, list) else [v]):
                if isinstance(x, Node) and hasattr(self, "e_" + x._t): self.ev(x, fr)
        return NONE
    def e_Num(self, e, fr): return NONE
    def e_Str(self, e, fr): return NONE
    def e_Name(self, e, fr): return NONE if e.id in ("None", "True", "False", "true", "false") else self.name(e.id, fr, e)
    def e_List(self, e, fr):
        o = self.alloc(e, "list", fr)
        for x in e.elts: self.put(o, "*", self.ev(x, fr))
        return one(o)
    def e_Tuple(self, e, fr):
        o = self.alloc(e, "tuple", fr)
        for i, x in enumerate(e.elts): self.put(o, str(i), self.ev(x, fr))
        return one(o)
    def e_Set(self, e, fr):
        o = self.alloc(e, "set", fr)
        for x in e.elts: self.put(o, "*", self.ev(x, fr))
        return one(o)
    def e_Dict(self, e, fr):
        o = self.alloc(e, "dict", fr)
        for k, v in zip(e.keys, e.values): self.put(o, "k", self.ev(k, fr)); self.put(o, "*", self.ev(v, fr))
        return one(o)
    def comp(self, gens, fr, emit):
        saved = dict(fr.env) if fr.fn is not None else None
        for g in gens:
            self.assign(g.target, self.items(self.ev(g.iter, fr), fr, g), fr, g)
            for c in g.ifs: self.ev(c, fr)
        emit()
        if saved is not None:
            for k in list(fr.env):
                if k not in saved: del fr.env[k]
            fr.env.update(saved)
    def e_ListComp(self, e, fr, kind="list"):
        o = self.alloc(e, kind, fr)
        self.comp(e.generators, fr, lambda: self.put(o, "*", self.ev(e.elt, fr)))
        return one(o)
    def e_GeneratorExp(self, e, fr): return self.e_ListComp(e, fr)
    def e_SetComp(self, e, fr): return self.e_ListComp(e, fr, "set")
    def e_DictComp(self, e, fr):
        o = self.alloc(e, "dict", fr)
        def emit(): self.put(o, "k", self.ev(e.key, fr)); self.put(o, "*", self.ev(e.value, fr))
        self.comp(e.generators, fr, emit)
        return one(o)
    def e_Lambda(self, e, fr): return one(self.function(e, fr))
    def e_IfExp(self, e, fr):
        self.ev(e.test, fr); return self.ev(e.body, fr) | self.ev(e.orelse, fr)
    def e_BoolOp(self, e, fr):
        r = NONE
        for v in e.values: r |= self.ev(v, fr)
        return r
    def e_Compare(self, e, fr):
        for x in [e.left] + e.comparators:
            for o in self.ev(x, fr): self.read(o, "content", fr, e)
        return NONE
    def e_UnaryOp(self, e, fr):
        for o in self.ev(e.operand, fr): self.read(o, "content", fr, e)
        return NONE
    def e_BinOp(self, e, fr):
        a, b = self.ev(e.left, fr), self.ev(e.right, fr); r = NONE
        for kind in ("list", "set", "tuple", "ext"):
            src = frozenset(o for o in a | b if o.kind == kind)
            if src and (kind != "tuple" or e.op._t == "Add"):
                o = self.alloc(e, kind, fr)
                for x in src: self.read(x, "content", fr, e)
                self.put(o, "*", self.contents(src)); r |= one(o)
        return r
    def e_Yield(self, e, fr):
        if fr.yields is None: fr.yields = self.alloc(fr.fn, "list", fr, tag="gen")
        if e.value is not None: self.put(fr.yields, "*", self.ev(e.value, fr))
        return NONE
    def e_Subscript(self, e, fr):
        self.index(e, fr); b = self.ev(e.value, fr); r = NONE
        if e.slice._t == "Slice":
            for kind in ("list", "tuple"):
                src = frozenset(o for o in b if o.kind == kind)
                if src:
                    o = self.alloc(e, kind, fr); self.put(o, "*", self.contents(src, fr, e)); r |= one(o)
            return r
        for o in b:
            i = e.slice.value if e.slice._t == "Index" else None
            if o.kind == "tuple" and i is not None and i._t == "Num" and str(i.n) in self.heap[o] and not self.heap[o].get("*"): r |= self.heap[o][str(i.n)]
            else: r |= self.contents(one(o), fr, e)
        return r
    def mro(self, c):
        out = [c]
        for b in self.get(c, "#bases"): out += self.mro(b)
        return out
    def lookup(self, c, a):
        for k in self.mro(c):
            if a in self.heap[k]: return k, self.heap[k][a]
        return None, NONE
    def e_Attribute(self, e, fr):
        r = NONE
        for o in self.ev(e.value, fr): r |= self.attr(o, e.attr, fr, e)
        return r
    def attr(self, o, a, fr, e):
        if o.kind == "inst":
            self.read(o, a, fr, e)
            r = self.kept(o, a, self.get(o, a), fr)
            if o.cls is not None:
                k, v = self.lookup(o.cls, a)
                if k is not None: self.read(k, a, fr, e)
                for f in v:
                    if f.kind == "func" and f.cls == "property": r |= self.invoke(f, [one(o)], {}, fr, e)
                    elif f.kind == "func" and f.cls != "staticmethod": r |= one(self.obj(("bound", f.key, o.key), "bound", data=(f, o)))
                    else: r |= one(f)
            return r
        if o.kind == "cls":
            k, v = self.lookup(o, a)
            if k is not None: self.read(k, a, fr, e)
            return frozenset(self.obj(("bound", f.key, o.key), "bound", data=(f, o)) if f.kind == "func" and f.cls == "classmethod" else f for f in v)
        if o.kind == "mod": self.read(o, a, fr, e); return self.get(o, a)
        if o.kind == "func": self.read(o, a, fr, e); return self.get(o, a)
        if o.kind == "lib": return one(self.obj(("lib", o.data + "." + a), "lib", data=o.data + "." + a))
        if o.kind in ("list", "dict", "set", "tuple"): return one(self.obj(("meth", a, o.key), "meth", data=(o, a)))
        if o.kind == "ext": self.read(o, "content", fr, e); return one(self.obj(("meth", a, o.key), "meth", data=(o, a)))
        return NONE
    # ---- calls
    def e_Call(self, e, fr):
        f = self.ev(e.func, fr)
        args = [self.ev(a, fr) for a in e.args]; kw = {k.arg: self.ev(k.value, fr) for k in e.keywords or []}
        star = self.contents(self.ev(e.starargs, fr), fr, e) if e.get("starargs") is not None else None
        if e.get("kwargs") is not None: self.ev(e.kwargs, fr)
        return self.call(f, args, kw, fr, e, star)
    def call(self, f, args, kw, fr, e, star=None):
        r = NONE; lib = not f
        for o in f:
            if o.kind == "func": r |= self.invoke(o, args, kw, fr, e, star)
            elif o.kind == "bound": r |= self.invoke(o.data[0], [one(o.data[1])] + args, kw, fr, e, star)
            elif o.kind == "cls": r |= self.instantiate(o, args, kw, fr, e, star)
            elif o.kind == "builtin": r |= self.builtin(o.data, args, kw, fr, e, star)
            elif o.kind == "meth": r |= self.method(o.data[0], o.data[1], args, kw, fr, e)
            elif o.kind == "lib": r |= self.library(o.data, args, kw, fr, e)
            elif o.kind == "inst":
                k, v = self.lookup(o.cls, "__call__") if o.cls is not None else (None, NONE)
                for g in v: r |= self.invoke(g, [one(o)] + args, kw, fr, e, star)
            else: lib = True
        if lib: r |= self.library("?", args, kw, fr, e)
        return r
    def touch(self, vals, fr, e):
        for v in vals:
            for o in v:
                if o.kind in ("list", "dict", "set", "tuple", "ext"): self.read(o, "content", fr, e)
    def run_callbacks(self, vals, fr, e):
        for v in vals:
            for o in v:
                if o.kind in ("func", "bound"):
                    if self.phase == "init": self.callbacks[o.key] = o
                    else: self.call(one(o), [NONE] * 3, {}, fr, e)
    def library(self, name, args, kw, fr, e):
        vals = list(args) + list(kw.values())
        self.touch(vals, fr, e); last = name.split(".")[-1]
        if last in ("deepcopy",): return self.copy(args[0] if args else NONE, fr, e, True)
        if last == "copy" and name.startswith("copy"): return self.copy(args[0] if args else NONE, fr, e, False)
        if name.startswith("itertools.") or last in ("chain", "OrderedDict", "deque"):
            o = self.alloc(e, "list", fr)
            for v in vals:
                for x in v: self.put(o, "*", one(x) | self.contents(one(x), fr, e))
            return one(o)
        if last in ("shuffle", "heapify", "heappush", "heappop") or name == "random.shuffle":
            for o in args[0] if args else NONE: self.mutate(o, fr, e, last)
        if last == "choice" and args: return self.contents(args[0], fr, e)
        self.run_callbacks(vals, fr, e)
        if last in ("defaultdict",): return one(self.alloc(e, "dict", fr))
        return one(self.alloc(e, "ext", fr)) if self.phase != "call" or last[:1].isupper() else NONE
    def copy(self, v, fr, e, deep):
        r = NONE
        for o in v:
            if o.kind in ("list", "dict", "set", "tuple", "ext", "inst"):
                c = self.alloc(e, o.kind, fr, cls=o.cls)
                for f, x in list(self.heap[o].items()):
                    if deep: x = self.copy_deep(x, fr, e, 0)
                    self.put(c, f, x)
                r |= one(c)
            else: r |= one(o)
        return r
    def copy_deep(self, v, fr, e, d):
        r = NONE
        for o in v:
            if o.kind in ("list", "dict", "set", "tuple", "inst"):
                c = self.alloc(e, o.kind, fr, cls=o.cls, tag="deep%d" % d)
                if d < 4:
                    for f, x in list(self.heap[o].items()): self.put(c, f, self.copy_deep(x, fr, e, d + 1))
                r |= one(c)
            elif o.kind not in ("ext",): r |= one(o)
        return r
    def instantiate(self, c, args, kw, fr, e, star):
        o = self.alloc(e, "inst", fr, cls=c, tag=str(c.key[1]))
        k, init = self.lookup(c, "__init__")
        for f in init: self.invoke(f, [one(o)] + args, kw, fr, e, star)
        return one(o)
    def method(self, o, a, args, kw, fr, e):
        k = o.kind
        vals = list(args) + list(kw.values())
        if a in MUT[k]: self.mutate(o, fr, e, a)
        if k == "ext":
            self.touch(vals, fr, e); self.run_callbacks(vals, fr, e)
            return one(o) if a in ("setParseAction", "addParseAction", "suppress") else one(self.alloc(e, "ext", fr)) if self.phase != "call" else NONE
        if a == "clear" and o.state: fr.W = fr.W | {("content", o)}
        A = args[0] if args else NONE
        if a in ("append", "add"): self.put(o, "*", A); return NONE
        if a == "insert": self.put(o, "*", args[1] if len(args) > 1 else NONE); return NONE
        if a == "extend": self.put(o, "*", self.items(A, fr, e)); return NONE
        if a == "update":
            for x in A:
                if k == "dict" and x.kind == "dict": self.put(o, "k", self.get(x, "k")); self.put(o, "*", self.contents(one(x), fr, e))
                else: self.put(o, "*", self.contents(one(x), fr, e))
            return NONE
        if a == "setdefault":
            self.read(o, "content", fr, e)
            d = args[1] if len(args) > 1 else NONE
            self.put(o, "k", A); self.put(o, "*", d); return self.kept(o, "content", self.get(o, "*") | d, fr)
        if a == "sort":
            for f in vals: self.call(f, [self.contents(one(o))] * (1 if "key" in kw else 2), {}, fr, e) if f else None
            return NONE
        if a in ("remove", "discard", "reverse", "clear"): return NONE
        self.read(o, "content", fr, e); self.touch(vals, fr, e)
        if a == "pop" : return self.contents(one(o)) | (args[1] if k == "dict" and len(args) > 1 else NONE)
        if a in ("get",): return self.kept(o, "content", self.get(o, "*"), fr) | (args[1] if len(args) > 1 else NONE)
        if k == "dict":
            c = self.contents(one(o)); ks = self.get(o, "k")
            if a in ("keys", "iterkeys"): n = self.alloc(e, "list", fr); self.put(n, "*", ks); return one(n)
            if a in ("values", "itervalues"): n = self.alloc(e, "list", fr); self.put(n, "*", c); return one(n)
            if a in ("items", "iteritems", "popitem"):
                t = self.alloc(e, "tuple", fr, tag="item"); self.put(t, "0", ks); self.put(t, "1", c)
                if a == "popitem": return one(t)
                n = self.alloc(e, "list", fr); self.put(n, "*", one(t)); return one(n)
            if a == "copy": n = self.alloc(e, "dict", fr); self.put(n, "k", ks); self.put(n, "*", c); return one(n)
            return NONE
        if a in ("union", "intersection", "difference", "symmetric_difference", "copy"):
            n = self.alloc(e, k if a == "copy" else "set", fr); self.put(n, "*", self.contents(one(o)))
            for x in args: self.put(n, "*", self.items(x, fr, e))
            return one(n)
        return NONE
    def builtin(self, n, args, kw, fr, e, star=None):
        if star is not None: args = args + [star] * 2
        vals = list(args) + list(kw.values())
        A = args[0] if args else NONE
        if n in ("map", "filter", "reduce", "apply"):
            F, seqs = A, [self.items(s, fr, e) for s in args[1:]]
            if n == "map":
                o = self.alloc(e, "list", fr)
                self.put(o, "*", self.call(F, [s for s in seqs], {}, fr, e) if F else (seqs[0] if seqs else NONE)); return one(o)
            if n == "filter":
                self.call(F, seqs[:1], {}, fr, e) if F else None
                o = self.alloc(e, "list", fr); self.put(o, "*", seqs[0] if seqs else NONE); return one(o)
            if n == "reduce":
                acc = (args[2] if len(args) > 2 else NONE) | (seqs[0] if len(args) < 3 and seqs else NONE)
                for _ in range(3): acc = acc | self.call(F, [acc, seqs[0] if seqs else NONE], {}, fr, e)
                return acc
        if n in ("sorted", "max", "min", "list", "set", "frozenset", "tuple", "reversed", "iter", "dict", "enumerate", "zip", "sum", "next", "izip"):
            key = kw.get("key", NONE) | kw.get("cmp", NONE)
            its = [self.items(s, fr, e) for s in args]
            if key: self.call(key, [its[0] if its else NONE] * (2 if "cmp" in kw else 1), {}, fr, e)
            if n == "sorted" and len(args) > 1: self.call(args[1], [its[0]] * 2, {}, fr, e)
            if n == "enumerate":
                t = self.alloc(e, "tuple", fr, tag="pair"); self.put(t, "1", its[0] if its else NONE)
                o = self.alloc(e, "list", fr); self.put(o, "*", one(t)); return one(o)
            if n in ("zip", "izip"):
                t = self.alloc(e, "tuple", fr, tag="pair")
                for i, s in enumerate(its): self.put(t, str(i), s)
                if star is not None: self.put(t, "*", star | self.contents(star))
                o = self.alloc(e, "list", fr); self.put(o, "*", one(t)); return one(o)
            if n in ("max", "min"): return (its[0] if its else NONE) if len(args) == 1 else frozenset().union(*args)
            if n == "sum":
                r = NONE; start = args[1] if len(args) > 1 else NONE
                if any(o.kind == "list" for o in start):
                    o = self.alloc(e, "list", fr); self.put(o, "*", self.contents(its[0], fr, e)); return one(o)
                return NONE
            if n == "next":
                for o in A: self.mutate(o, fr, e, "next")
                return its[0] if its else NONE
            if n == "dict":
                o = self.alloc(e, "dict", fr)
                for x in A:
                    if x.kind == "dict": self.put(o, "k", self.get(x, "k")); self.put(o, "*", self.contents(one(x), fr, e))
                    else:
                        for t in self.contents(one(x), fr, e):
                            if t.kind == "tuple": self.put(o, "k", self.get(t, "0") | self.get(t, "*")); self.put(o, "*", self.get(t, "1") | self.get(t, "*"))
                            else: self.put(o, "*", self.contents(one(t), fr, e))
                for v in kw.values(): self.put(o, "*", v)
                return one(o)
            if n == "iter": return A
            o = self.alloc(e, {"set": "set", "frozenset": "tuple", "tuple": "tuple"}.get(n, "list"), fr)
            self.put(o, "*", its[0] if its else NONE); return one(o)
        if n == "getattr":
            if len(e.args) > 1 and e.args[1]._t == "Str":
                r = args[2] if len(args) > 2 else NONE
                for o in A: r |= self.attr(o, e.args[1].s, fr, e)
                return r
            return NONE
        if n == "setattr":
            if len(e.args) > 2 and e.args[1]._t == "Str":
                for o in A: self.put(o, e.args[1].s, args[2]); self.setattr_ev(o, e.args[1].s, fr, e, "assigned")
            return NONE
        if n in ("range", "xrange"): return one(self.alloc(e, "list", fr))
        if n == "isinstance" or n == "hasattr" or n == "id" or n == "type": return NONE
        self.touch(vals, fr, e)
        self.run_callbacks(vals, fr, e)
        return NONE
    def invoke(self, f, args, kw, fr, e, star=None):
        fn, outer = f.data
        site = id(e)
        cs = (fr.cs + (site,))[-2:] if fr is not None else (site,)
        if self.phase == "init": cs = ("init", site)
        ps = params(fn); n = len(ps); d = len(fn.args.defaults or [])
        bind = []
        for i, p in enumerate(ps):
            v = None
            if i < len(args): v = args[i]
            elif isinstance(p, Node) and p._t == "Name" and p.id in kw: v = kw[p.id]
            elif star is not None: v = star | (self.get(f, "default%d" % (i - (n - d))) if i >= n - d else NONE)
            elif i >= n - d: v = self.get(f, "default%d" % (i - (n - d)))
            else: v = NONE
            bind.append(v)
        extra = args[n:]; va = fn.args.get("vararg"); kwa = fn.args.get("kwarg")
        extrakw = [v for k, v in kw.items() if not any(isinstance(p, Node) and p._t == "Name" and p.id == k for p in ps)]
        W = fr.W if fr is not None else frozenset()
        key = (f.key, tuple(bind), tuple(extra), tuple(extrakw), star, cs, W, self.phase, self.out)
        if key in self.active or len(self.stack) > 60:
            return self.memo.get(key, (NONE, W))[0]
        if key in self.memo and self.memo[key][2] == self.round:
            r = self.memo[key]
            if fr is not None: fr.W = r[1]
            return r[0]
        self.active[key] = True; self.stack.append(key); self.ncalls += 1
        if self.phase == "call": self.called.add((outer.mod, fn.name if fn._t == "FunctionDef" else "<lambda:%d>" % fn.lineno))
        g = Frame(outer.mod, fn, cs, outer if outer.fn is not None else None); g.W = W
        skey = ("frame", key)
        g.all = self.frames.setdefault(skey, {}); g.all.pop("#exit", None)
        try:
            for p, v in zip(ps, bind): self.assign_param(p, v, g, fn)
            if va:
                t = self.obj(("varargs", id(fn), cs), "tuple")
                for v in extra: self.put(t, "*", v)
                if star is not None: self.put(t, "*", star)
                self.setname(name_of(va), one(t), g, fn)
            if kwa:
                t = self.obj(("kwargs", id(fn), cs), "dict")
                for v in extrakw: self.put(t, "*", v)
                self.setname(name_of(kwa), one(t), g, fn)
            try:
                if fn._t == "Lambda": g.ret = self.ev(fn.body, g)
                else: self.block(fn.body, g)
                self.exits(g)
            except Dead: pass
        finally:
            self.stack.pop(); del self.active[key]
        w = g.all.pop("#exit", W)
        r = one(g.yields) if g.yields is not None else g.ret
        old = self.memo.get(key)
        if old is None or old[0] != r or old[1] != w: self.changed = True
        self.memo[key] = ((old[0] | r) if old else r, w, self.round)
        if fr is not None: fr.W = w
        return self.memo[key][0]
    round = 0
    def assign_param(self, p, v, g, fn):
        if isinstance(p, Node): self.assign(p, v, g, fn)
        else: self.setname(p, v, g, fn)
    # ---- running an entry point
    def run(self, go):
        """go(): performs the calls; repeated until nothing changes, then once more recording events"""
        self.phase = "call"
        for _ in range(30):
            self.round += 1; self.changed = False; go()
            if not self.changed: break
        self.round += 1; self.record = True; go(); self.record = False
    def typed(self, t, label, depth=""):
        """an input object of type t: None = no object, ("L", t) list, ("D", kt, vt) dict, ("S", t) set, ("T", t...) tuple, or a ready value"""
        if t is None: return NONE
        if isinstance(t, frozenset): return t
        if t[0] == "L":
            o = self.obj(("in", label, depth), "list", inp=label + depth); self.put(o, "*", self.typed(t[1], label, depth + " element")); return one(o)
        if t[0] == "S":
            o = self.obj(("in", label, depth), "set", inp=label + depth); self.put(o, "*", self.typed(t[1], label, depth + " element")); return one(o)
        if t[0] == "D":
            o = self.obj(("in", label, depth), "dict", inp=label + depth); self.put(o, "k", self.typed(t[1], label, depth + " key")); self.put(o, "*", self.typed(t[2], label, depth + " value")); return one(o)
        if t[0] == "T":
            o = self.obj(("in", label, depth), "tuple")
            for i, x in enumerate(t[1:]): self.put(o, str(i), self.typed(x, label, depth + " component"))
            return one(o)
        raise ValueError(t)

def name_of(x): return x.id if isinstance(x, Node) else x
def params(fn): return list(fn.args.args or [])

BUILTINS = {"map", "filter", "reduce", "apply", "sorted", "max", "min", "list", "set", "frozenset", "tuple", "reversed", "iter", "dict", "enumerate", "zip", "sum", "next",
            "getattr", "setattr", "range", "xrange", "isinstance", "hasattr", "id", "type", "len", "str", "repr", "int", "float", "abs", "any", "all", "bool", "print", "open", "raw_input",
            "cmp", "round", "pow", "divmod", "hash", "ord", "chr", "unicode", "long", "object", "Exception", "eval", "callable", "issubclass", "super", "vars", "dir"}
