"""Expressions, statements, calls and loop summaries of the abstract interpreter."""
from .interp import *
from .interp import _ck, handler, DEFAULT_HANDLERS
from . import interp as _I

def meth(fn):
    """attach to Interp; a trailing underscore keeps the module-level name apart from a builtin"""
    setattr(Interp, fn.__name__.rstrip("_"), fn); return fn

CMP = {"Lt": (-1,), "LtE": (-1, 0), "Gt": (1,), "GtE": (0, 1), "Eq": (0,), "NotEq": (-1, 1)}

# =================================================================== expressions
@meth
def ev(self, n, fr):
    self.steps += 1
    if self.steps > Limits.max_steps: raise Und("too many steps")
    h = EXPR.get(n._t)
    if h is None: raise Und("expression %s" % n._t, n)
    return h(self, n, fr)

EXPR = {}
def expr(t):
    def deco(fn):
        EXPR[t] = fn; return fn
    return deco

@expr("Num")
def e_num(self, n, fr):
    v = n.n
    if isinstance(v, tuple): raise Und("number", n)
    return v
@expr("Str")
def e_str(self, n, fr): return n.s

@expr("Name")
def e_name(self, n, fr): return self.lookup(n.id, fr, n)

@meth
def lookup(self, name, fr, n=None):
    if name == "None": return None
    if name == "True": return True
    if name == "False": return False
    f = fr
    while f is not None:
        if f.locals is None or (name in f.locals and name not in f.globals):
            v = f.f.get(name, MISSING)
            if v is not MISSING: return v
            if f.locals is not None and f is fr:
                raise RaiseX("NameError", name, n)
        if name in f.globals:
            break
        f = f.parent
    v = fr.mod.f.get(name, MISSING)
    if v is not MISSING: return v
    if name in BUILTINS: return Builtin(name)
    star = fr.mod.f.get("*", ())
    for m in star:
        if isinstance(m, ModVal) and name in m.f: return m.f[name]
    for m in star:
        if isinstance(m, str): return ExtVal(m + "." + name)
    if fr.mod.name == "grf": return ExtVal("sage." + name)
    raise RaiseX("NameError", name, n)

@expr("Tuple")
def e_tuple(self, n, fr): return TupV([self.ev(x, fr) for x in n.elts])
@expr("List")
def e_list(self, n, fr): return ListObj([One(self.ev(x, fr)) for x in n.elts])
@expr("Set")
def e_set(self, n, fr):
    o = SetObj()
    for x in n.elts: self.set_add(o, self.ev(x, fr))
    return o
@expr("Dict")
def e_dict(self, n, fr):
    d = DictObj()
    for k, v in zip(n.keys, n.values):
        kk = self.ev(k, fr); self.dict_set(d, kk, self.ev(v, fr), n)
    return d
@expr("Lambda")
def e_lambda(self, n, fr):
    return FuncVal(n, "<lambda>", n.args, n.body, fr, fr.mod, None, [self.ev(d, fr) for d in n.args.defaults])
@expr("IfExp")
def e_ifexp(self, n, fr):
    if self.branch(self.truth(self.ev(n.test, fr)), n): return self.ev(n.body, fr)
    return self.ev(n.orelse, fr)
@expr("BoolOp")
def e_boolop(self, n, fr):
    isand = n.op._t == "And"
    v = None
    for i, x in enumerate(n.values):
        v = self.ev(x, fr)
        if i == len(n.values) - 1: return v
        t = self.branch(self.truth(v), n)
        if isand and not t: return False if is_bool(v) else v
        if not isand and t: return True if is_bool(v) else v
    return v
@expr("UnaryOp")
def e_unary(self, n, fr):
    v = self.ev(n.operand, fr)
    o = n.op._t
    if o == "Not": return b_not(self.truth(v))
    if o == "USub":
        if isinstance(v, InstObj):
            f = v.cls.find("__neg__")
            if f is not MISSING: return self.call(Bound(v, "__neg__", f), [], node=n)
        if arith_ok(v): return pneg(v)
    if o == "UAdd": return v
    raise Und("unary %s of %r" % (o, v), n)

@meth
def truth(self, v):
    if isinstance(v, bool): return v
    if v is None: return False
    if is_num(v): return v != 0
    if isinstance(v, str): return v != ""
    if isinstance(v, Term):
        if is_bool(v): return v
        if v.op in ("list", "set", "setc", "dict", "tup"): return b_not(self.is_zero(self.length(v)))
        if v.op in ("poly", "len", "count", "par", "sign", "sum", "maxz", "pow") or is_int(v): return sg(v, (-1, 1))
        if v.op == "sym" and len(v.args) > 1 and v.args[1] == "list": return sg(length(v), (1,))
        if v.op in ("rel", "func", "inst", "ref"): return True
        return T("truth", v)
    if isinstance(v, (ListObj, SetObj, DictObj, TupV)):
        return b_not(self.is_zero(self.length(v)))
    if isinstance(v, InstObj):
        for m in ("__nonzero__", "__len__"):
            f = v.cls.find(m)
            if f is not MISSING: return self.truth(self.call(Bound(v, m, f), []))
        return True
    return True

@expr("Compare")
def e_compare(self, n, fr):
    left = self.ev(n.left, fr)
    conds = []
    for op, c in zip(n.ops, n.comparators):
        right = self.ev(c, fr)
        conds.append(self.compare(op._t, left, right, n))
        left = right
        if conds[-1] is False: return False
    return b_and(*conds)

@meth
def compare(self, op, a, b, n=None):
    if op in ("In", "NotIn"):
        c = self.contains(a, b, n)
        return c if op == "In" else b_not(c)
    if op in ("Is", "IsNot"):
        if a is None or b is None or isinstance(a, bool) or isinstance(b, bool) or isinstance(a, (ClassVal, ExtVal, Builtin)) or isinstance(b, (ClassVal, ExtVal, Builtin)) \
           or (isinstance(a, Term) and a.op in ("clsof",)):
            c = self.eq_cond(a, b, n)
        elif isinstance(a, Obj) or isinstance(b, Obj):
            c = a is b
            if not c and (isinstance(a, Term) or isinstance(b, Term)): c = eqo(self.freeze(a), self.freeze(b))
        else: c = self.eq_cond(a, b, n)
        return c if op == "Is" else b_not(c)
    if op in ("Eq", "NotEq"):
        if op == "NotEq" and isinstance(a, InstObj):
            f = a.cls.find("__ne__")
            if f is not MISSING: return self.truth(self.call(Bound(a, "__ne__", f), [b]))
        c = self.eq_cond(a, b, n)
        return c if op == "Eq" else b_not(c)
    S = CMP[op]
    fa = isinstance(a, (FuncVal, Builtin, PyFn, ExtVal, ClassVal)); fb = isinstance(b, (FuncVal, Builtin, PyFn, ExtVal, ClassVal))
    if fa and not fb and (is_num(b) or is_int(b)): return 1 in S          # Python 2: numbers sort before other types
    if fb and not fa and (is_num(a) or is_int(a)): return -1 in S
    if isinstance(a, str) and isinstance(b, str):
        return ((a > b) - (a < b)) in S
    if a is None and is_num(b): return -1 in S
    if b is None and is_num(a): return 1 in S
    if isinstance(a, bool): a = int(a)
    if isinstance(b, bool): b = int(b)
    if isinstance(a, TupV) and isinstance(b, TupV): raise Und("tuple order", n)
    if isinstance(a, InstObj) or isinstance(b, InstObj):
        for x, y, nm in ((a, b, {"Lt": "__lt__", "LtE": "__le__", "Gt": "__gt__", "GtE": "__ge__"}[op]),):
            if isinstance(x, InstObj):
                f = x.cls.find(nm)
                if f is not MISSING: return self.truth(self.call(Bound(x, nm, f), [y]))
                f = x.cls.find("__cmp__")
                if f is not MISSING:
                    r = self.call(Bound(x, "__cmp__", f), [y]); return sg(r, S)
        raise Und("object order", n)
    if isinstance(a, SetObj) and isinstance(b, SetObj):
        if op in ("Gt", "GtE"): a, b, op = b, a, {"Gt": "Lt", "GtE": "LtE"}[op]
        le = self.truth(self.set_method(a, "issubset", [b], n))
        return le if op == "LtE" else b_and(le, b_not(self.truth(self.set_method(b, "issubset", [a], n))))
    if isinstance(a, (SetObj, DictObj, ListObj)) or isinstance(b, (SetObj, DictObj, ListObj)):
        return T("cmpo", op, self.freeze(a), self.freeze(b))
    if arith_ok(a) and arith_ok(b): return sg(psub(a, b), S)
    if isinstance(a, (str, Term)) and isinstance(b, (str, Term)): return T("cmpo", op, a, b)
    raise Und("compare %r %r" % (a, b), n)

@expr("BinOp")
def e_binop(self, n, fr):
    a = self.ev(n.left, fr); b = self.ev(n.right, fr)
    return self.binop(n.op._t, a, b, n)

def pyp():
    from . import pyp as m
    return m

MAGIC = {"Add": "__add__", "Sub": "__sub__", "Mult": "__mul__", "Div": "__div__", "Pow": "__pow__", "BitAnd": "__and__", "BitOr": "__or__", "Mod": "__mod__"}

@meth
def binop(self, op, a, b, n=None):
    if op == "Mod" and isinstance(a, str):
        args = [self.freeze(x) for x in b.items] if isinstance(b, TupV) else [self.freeze(b)]
        if all(is_const(x) for x in args):
            try: return a % tuple(args)
            except (TypeError, ValueError): raise RaiseX("TypeError", None, n)
        return T("fmt", a, *args)
    h = self.handlers.get("binop:" + op)
    if h:
        r = h(self, a, b, n)
        if r is not None: return r
    if isinstance(a, pyp().PE) or isinstance(b, pyp().PE): return pyp().binop(self, op, a, b, n)
    if isinstance(a, InstObj):
        f = a.cls.find(MAGIC.get(op, "?"))
        if f is not MISSING: return self.call(Bound(a, MAGIC[op], f), [b], node=n)
    if isinstance(b, InstObj):
        nm = "__r" + MAGIC.get(op, "__?")[2:]
        f = b.cls.find(nm)
        if f is not MISSING: return self.call(Bound(b, nm, f), [a], node=n)
    if is_bool(a) and is_bool(b) and op in ("BitAnd", "BitOr", "BitXor"):
        if op == "BitAnd": return b_and(a, b)
        if op == "BitOr": return b_or(a, b)
        return b_or(b_and(a, b_not(b)), b_and(b_not(a), b))
    if op in ("BitAnd", "BitOr", "Sub", "BitXor") and (isinstance(a, SetObj) or isinstance(b, SetObj) or (isinstance(a, Term) and a.op in ("set", "setc", "inter", "asset"))):
        return self.set_method(a, {"BitAnd": "intersection", "BitOr": "union", "Sub": "difference", "BitXor": "symmetric_difference"}[op], [b], n)
    if op == "Add":
        self.note_shared(a); self.note_shared(b)
        if isinstance(a, str) or isinstance(b, str):
            if isinstance(a, str) and isinstance(b, str): return a + b
            if isinstance(a, Term) or isinstance(b, Term):
                xs = []
                for x in (a, b): xs += list(x.args) if isinstance(x, Term) and x.op == "cat" else [x]
                return T("cat", *[self.freeze(x) for x in xs])
        la, lb = self.listlike(a), self.listlike(b)
        if la or lb:
            if isinstance(a, TupV) and isinstance(b, TupV): return TupV(a.items + b.items)
            sa = a.f["segs"] if isinstance(a, ListObj) else self.segs_of(a, n)
            sb = b.f["segs"] if isinstance(b, ListObj) else self.segs_of(b, n)
            return ListObj(tuple(sa) + tuple(sb))
        if isinstance(a, Term) and isinstance(b, Term) and a.op in ("fmt", "cat", "strv"):
            return T("cat", a, b)
    if op == "Mult":
        for x, y in ((a, b), (b, a)):
            if isinstance(x, ListObj):
                if isinstance(y, int): return ListObj(x.f["segs"] * max(0, y))
                if arith_ok(y) and len(x.f["segs"]) == 1 and x.f["segs"][0][0] == "one":
                    v = self.freeze(x.f["segs"][0][1])
                    bv = T("b", 1 + max(bdepth(v), bdepth(y)))
                    return ListObj([Star(bv, 0, y, [(True, (One(v),))])])
                raise Und("list repetition", n)
            if isinstance(x, str) and isinstance(y, int): return x * y
            if isinstance(x, str): return T("fmt", "rep", x, self.freeze(y))
    if isinstance(a, bool): a = int(a)
    if isinstance(b, bool): b = int(b)
    if isinstance(a, Term) and is_bool(a) and op in ("Add", "Sub", "Mult"): a = self.bool_int(a)
    if isinstance(b, Term) and is_bool(b) and op in ("Add", "Sub", "Mult"): b = self.bool_int(b)
    if not (arith_ok(a) and arith_ok(b)):
        if op in ("Add", "Sub", "Mult", "Div", "FloorDiv", "Pow", "Mod") and (isinstance(a, (str, Builtin, FuncVal)) or a is None or b is None or isinstance(b, (str, Builtin, FuncVal))):
            raise RaiseX("TypeError", None, n)
        raise Und("%s of %r, %r" % (op, a, b), n)
    if (isinstance(a, Fraction) or isinstance(b, Fraction)) and op in ("Add", "Sub", "Mult") and is_num(a) and is_num(b) and not isinstance(a, float) and not isinstance(b, float):
        return Fraction(a + b if op == "Add" else a - b if op == "Sub" else a * b)
    if op == "Add": return padd(a, b)
    if op == "Sub": return psub(a, b)
    if op == "Mult": return pmul(a, b)
    if op == "Pow": return ppow(a, b)
    if op == "Div":
        if is_num(b) and b == 0: raise RaiseX("ZeroDivisionError", None, n)
        if is_num(a) and is_num(b):
            if isinstance(a, int) and isinstance(b, int): return a // b
            if isinstance(a, float) or isinstance(b, float): return a / b
            return Fraction(a) / Fraction(b)
        if is_int(a) and is_int(b): return floordiv(a, b)
        return pdiv(a, b)
    if op == "FloorDiv": return floordiv(a, b)
    if op == "Mod": return pmod(a, b)
    if op in ("BitAnd", "BitOr", "BitXor", "LShift", "RShift"):
        if isinstance(a, int) and isinstance(b, int):
            return {"BitAnd": a & b, "BitOr": a | b, "BitXor": a ^ b, "LShift": a << b if b >= 0 else 0, "RShift": a >> b if b >= 0 else 0}[op]
        if op == "BitAnd" and b == 1 and is_int(a): return parity(a)
        return T("bitop", op, a, b)
    raise Und("operator %s" % op, n)

@meth
def bool_int(self, c):
    return 1 if self.branch(c) else 0

@meth
def listlike(self, v):
    return isinstance(v, ListObj) or (isinstance(v, Term) and (v.op == "list" or v in self.S["shadow"] and isinstance(self.S["shadow"][v], ListObj)
            or (v.op == "sym" and len(v.args) > 1 and v.args[1] == "list"))) or isinstance(v, TupV)

@expr("Subscript")
def e_subscript(self, n, fr):
    v = self.ev(n.value, fr)
    s = n.slice
    if s._t == "Index":
        ix = self.ev(s.value, fr)
        if isinstance(v, pyp().Res) and isinstance(ix, str):
            if ix not in v.names: raise RaiseX("KeyError", ix, n)
            return v.names[ix]
        return self.index(v, ix, n)
    if s._t == "Slice":
        lo = self.ev(s.lower, fr) if s.get("lower") is not None else None
        hi = self.ev(s.upper, fr) if s.get("upper") is not None else None
        st = self.ev(s.step, fr) if s.get("step") is not None else None
        return self.slice(v, lo, hi, st, n)
    raise Und("subscript", n)

@expr("Attribute")
def e_attr(self, n, fr):
    return self.getattr(self.ev(n.value, fr), n.attr, n)

def mangle(name, fr): return name

@meth
def getattr_(self, v, a, n=None):
    if isinstance(v, ModVal):
        r = v.f.get(a, MISSING)
        if r is MISSING: raise RaiseX("AttributeError", a, n)
        return r
    if isinstance(v, ExtVal): return ext_attr(v, a)
    if isinstance(v, pyp().Res) and a in v.names: return v.names[a]
    if isinstance(v, pyp().PE): return Bound(v, a)
    if isinstance(v, InstObj):
        if a == "__class__": return v.cls
        if a == "__dict__": return T("inst_dict", Box(v))
        r = v.f.get(a, MISSING)
        if r is not MISSING: return r
        r = v.cls.find(a)
        if r is not MISSING:
            if isinstance(r, (FuncVal, PyFn)):
                if getattr_static(r): return r
                return Bound(v, a, r)
            return r
        if v.cls.ext_bases():
            return Bound(v, a)
        raise RaiseX("AttributeError", a, n)
    if isinstance(v, ClassVal):
        if a == "__name__": return v.name
        r = v.find(a)
        if r is not MISSING: return r
        raise RaiseX("AttributeError", a, n)
    if isinstance(v, FuncVal):
        if a == "__name__": return v.name
        return v.f.get(a, T("attr", T("func", Box(v)), a))
    if isinstance(v, Bound):
        if a == "__name__": return v.name
        if a in ("__self__", "im_self"): return v.recv
    if isinstance(v, (ListObj, SetObj, DictObj, TupV, str, Bound, Builtin, PyFn, FuncVal)):
        return Bound(v, a)
    if isinstance(v, Term):
        if a == "__class__": return T("clsof", v)
        if v.op == "rel":
            if a == "lhs": return v.args[1]
            if a == "rhs": return v.args[2]
        h = self.handlers.get("attr:" + a)
        if h:
            r = h(self, v, n)
            if r is not None: return r
        key = ("attr", a)
        sh = self.S["shadow"].get((v, a), MISSING)
        if sh is not MISSING: return sh
        return T("attr", v, a)
    if is_const(v):
        if a == "__class__": return Builtin({"int": "int", "float": "float", "bool": "bool", "str": "str"}.get(type(v).__name__, "object"))
        return Bound(v, a)
    raise Und("attribute %s of %r" % (a, v), n)

def getattr_static(r):
    return isinstance(r, FuncVal) and r.node.get("decorator_list") and any(d._t == "Name" and d.id == "staticmethod" for d in r.node.decorator_list)

def ext_attr(v, a):
    c = pyp().const(v.name + "." + a)
    if c is not None: return c
    return ExtVal(v.name + "." + a)

@expr("Repr")
def e_repr(self, n, fr): return T("str", self.freeze(self.ev(n.value, fr)))

# ---- comprehensions
@meth
def comp(self, n, fr, emit):
    # evaluated in an own frame whose names are the targets
    names = set()
    for g in n.generators:
        names |= assigned_names([Node("For", {"target": g.target, "body": [], "orelse": []}, n.lineno, n.file)])
    cf = Frame(fr.fn, fr.mod, fr, names, set())
    def rec(k):
        if k == len(n.generators):
            emit(cf); return
        g = n.generators[k]
        it = self.ev(g.iter, fr if k == 0 else cf)
        def body(x):
            self.assign(g.target, x, cf)
            for c in g.ifs:
                if not self.branch(self.truth(self.ev(c, cf)), n): return
            rec(k + 1)
        self.loop_over(it, body, n)
    rec(0)

@expr("ListComp")
def e_listcomp(self, n, fr):
    out = ListObj()
    self.comp(n, fr, lambda cf: self.list_append(out, self.ev(n.elt, cf)))
    return out
EXPR["GeneratorExp"] = e_listcomp
@expr("SetComp")
def e_setcomp(self, n, fr):
    out = SetObj()
    self.comp(n, fr, lambda cf: self.set_add(out, self.ev(n.elt, cf)))
    return out
@expr("DictComp")
def e_dictcomp(self, n, fr):
    out = DictObj()
    def emit(cf):
        k = self.ev(n.key, cf); v = self.ev(n.value, cf)
        self.dict_set(out, k, v, n)
    self.comp(n, fr, emit)
    return out
@expr("Yield")
def e_yield(self, n, fr):
    v = self.ev(n.value, fr) if n.get("value") is not None else None
    f = fr
    while f is not None and "$yield" not in f.f: f = f.parent
    self.list_append(f.f["$yield"], v)
    return None

@meth
def list_append(self, l, v): self.w(l.f, "segs", l.f["segs"] + (One(v),))
@meth
def set_add(self, s, v):
    for x in s.f["segs"]:
        if x[0] == "one":
            c = self.eq_cond(x[1], v)
            if c is True or (not isinstance(c, bool) and self.facts.decide(c) is True): return
    self.w(s.f, "segs", s.f["segs"] + (One(v),))

# =================================================================== calls
@expr("Call")
def e_call(self, n, fr):
    if n.func._t == "Name" and n.func.id in ("super", "locals", "globals", "vars", "eval", "execfile") and n.func.id not in fr.f:
        raise Und("call of %s" % n.func.id, n)
    f = self.ev(n.func, fr)
    args = [self.ev(a, fr) for a in n.args]
    if n.get("starargs") is not None:
        sa = self.ev(n.starargs, fr)
        segs = self.segs_of(sa, n)
        if not all(s[0] == "one" for s in segs):
            args.append(T("starargs", self.freeze(sa)))
        else: args += [s[1] for s in segs]
    kw = {}
    for k in n.keywords: kw[k.arg] = self.ev(k.value, fr)
    if n.get("kwargs") is not None:
        kv = self.ev(n.kwargs, fr)
        if isinstance(kv, DictObj) and all(e[0] == "kv" and isinstance(e[1], str) for e in kv.f["ents"]):
            for e in kv.f["ents"]: kw[e[1]] = e[2]
        else: raise Und("**kwargs", n)
    return self.call(f, args, kw, n)

@meth
def call(self, f, args, kw=None, node=None):
    kw = kw or {}
    self.stats["calls"] += 1
    if isinstance(f, Bound):
        if f.fn is not None:
            if isinstance(f.fn, PyFn): return f.fn.fn(self, [f.recv] + list(args), kw, node)
            return self.call_func(f.fn, [f.recv] + list(args), kw, node, meth=True)
        return self.call_method(f.recv, f.name, list(args), kw, node)
    if isinstance(f, FuncVal): return self.call_func(f, list(args), kw, node)
    if isinstance(f, PyFn): return f.fn(self, list(args), kw, node)
    if isinstance(f, ClassVal): return self.instantiate(f, args, kw, node)
    if isinstance(f, Builtin): return self.call_builtin(f.name, list(args), kw, node)
    if isinstance(f, ExtVal): return self.call_ext(f.name, list(args), kw, node)
    if isinstance(f, pyp().PE): return pyp().method(self, f, "__call__", list(args), kw, node)
    if isinstance(f, InstObj):
        c = f.cls.find("__call__")
        if c is not MISSING: return self.call_func(c, [f] + list(args), kw, node, meth=True)
    if isinstance(f, Term):
        if f.op == "clsof":
            if len(args) == 2 and not kw:
                return T("rel", T("kindof", f.args[0]), self.freeze(args[0]), self.freeze(args[1]))
        if f.op == "func": return self.call(f.args[0].v, args, kw, node)
        if f.op == "attr":
            return self.call_method(f.args[0], f.args[1], list(args), kw, node)
        if f.op == "meth":
            return self.call(self.thaw(f), args, kw, node)
        h = self.handlers.get("call:" + f.op)
        if h: return h(self, f, list(args), kw, node)
        fa = [self.freeze(a) for a in args]
        self.event("app", f, tuple(fa), node)
        return T("app", f, *fa)
    if f is None or is_const(f): raise RaiseX("TypeError", None, node)
    raise Und("call of %r" % (f,), node)

@meth
def instantiate(self, c, args, kw, node):
    h = self.handlers.get("new:%s" % c.name)
    if h: return h(self, args, kw, node)
    o = InstObj(c)
    init = c.find("__init__")
    if init is not MISSING:
        self.call_func(init, [o] + list(args), kw, node, meth=True)
    else:
        o.f["args"] = TupV(args)
    return o

def param_names(a):
    return [x.id if x._t == "Name" else x for x in a.args]

@meth
def bind(self, f, args, kw, node):
    """parameter name -> value"""
    a = f.args
    ps = a.args
    out = []
    used = set()
    nd = len(f.defaults)
    for i, p in enumerate(ps):
        if i < len(args):
            out.append((p, args[i])); continue
        nm = p.id if p._t == "Name" else None
        if nm is not None and nm in kw:
            out.append((p, kw[nm])); used.add(nm); continue
        j = i - (len(ps) - nd)
        if j >= 0:
            out.append((p, f.defaults[j])); continue
        raise RaiseX("TypeError", "missing argument %s of %s" % (nm, f.name), node)
    extra = args[len(ps):]
    va = a.get("vararg"); ka = a.get("kwarg")
    if extra and not va:
        raise RaiseX("TypeError", "too many arguments for %s" % f.name, node)
    rest = {k: v for k, v in kw.items() if k not in used}
    if rest and not ka: raise RaiseX("TypeError", "unexpected keyword %s" % sorted(rest), node)
    return out, (va, TupV(extra)) if va else None, (ka, rest) if ka else None

@meth
def call_func(self, f, args, kw, node=None, meth=False):
    qual = "%s.%s" % (f.mod.name, f.qual)
    h = self.handlers.get("fn:" + qual)
    if h:
        r = h(self, f, args, kw, node)
        if r is not NotImplemented: return r
    if any(isinstance(a, Term) and a.op == "starargs" for a in args):
        raise Und("star arguments", node)
    bound, va, ka = self.bind(f, args, kw, node)
    rec = sum(1 for x in self.callstack if x is f.node)
    if qual in self.opaque or rec >= (self.unroll if all(is_const(v) for p, v in bound) else self.deep) or len(self.callstack) > 40:
        vals = [v for p, v in bound]
        if f.cls and vals and (isinstance(vals[0], InstObj)): vals = vals[1:]
        if va: vals = vals + list(va[1].items)
        hh = self.handlers.get("opaque:" + qual)
        if hh:
            r = hh(self, f, vals, node)
            if r is not None: return r
        fz = tuple(self.freeze(v) for v in vals)
        nm = "rec" if rec and qual not in self.opaque else "ocall"
        self.event(nm, qual, fz, node, tuple(vals))
        return T("call", qual, *fz)
    self.stats["functions"].add((f.mod.name, f.qual))
    if f.node._t == "Lambda":
        names = set()
        for p in f.args.args: names |= assigned_names([Node("For", {"target": p, "body": [], "orelse": []}, 0, "")])
        fr = Frame(f, f.mod, f.frame, names, set())
    else:
        loc = LOCALS.get(id(f.node))
        if loc is None:
            g = globals_decl(f.body)
            names = assigned_names(f.body)
            for p in f.args.args: names |= assigned_names([Node("For", {"target": p, "body": [], "orelse": []}, 0, "")])
            if f.args.get("vararg"): names.add(f.args.vararg)
            if f.args.get("kwarg"): names.add(f.args.kwarg)
            loc = (names - g, g, has_yield(f.body), f.node)
            LOCALS[id(f.node)] = loc
        fr = Frame(f, f.mod, f.frame if f.frame is not None and f.frame.locals is not None else None, loc[0], loc[1])
    for p, v in bound: self.assign(p, v, fr)
    if va: fr.f[va[0]] = va[1]
    if ka:
        d = DictObj([("kv", k, v) for k, v in sorted(ka[1].items())]); fr.f[ka[0]] = d
    if self.merge and f.node._t != "Lambda" and not LOCALS[id(f.node)][2] and self.callstack and self.dec is not None and f.node not in self.nomerge and exits_in_loop(f.node):
        r = self.merged_call(f, fr, node)
        if r is not None: return r[0]
    return self.run_body(f, fr)

def exits_in_loop(n):
    from .live import kids
    def go(x, inl):
        if x._t in ("FunctionDef", "Lambda", "ClassDef"): return False
        if inl and x._t in ("Return", "Raise"): return True
        return any(go(k, inl or x._t in ("For", "While")) for k in kids(x))
    r = EXL.get(id(n))
    if r is None or r[0] is not n:
        r = (n, any(go(k, False) for k in n.body)); EXL[id(n)] = r
    return r[1]
EXL = {}

@meth
def merged_call(self, f, fr, node):
    """summary of a call: paths with the same result and no effect are one outcome, guarded by the disjunction of their conditions.
    The summary is computed once, for arbitrary arguments, and instantiated."""
    if f.frame is not None and f.frame.locals is not None: return None
    env = {}; fz = []
    def gen(t, name):
        if is_const(t) or not isinstance(t, Term) or t.op == "func" or (t.op == "sym" and "#" not in str(t.args[0])) or (not syms(t) and not bdepth(t) and t.op in ("list", "tup", "dict", "setc")): return t
        if t.op == "inst": return T("inst", t.args[0], t.args[1], tuple((n, gen(x, "%s.%s" % (name, n))) for n, x in t.args[2]))
        if t.op == "tup": return T("tup", *[gen(x, "%s.%d" % (name, n)) for n, x in enumerate(t.args)])
        if any(x.op in ("ref", "inst", "func", "meth") for x in subterms(t)): raise Und("generalisation")
        srt = ("list",) if t.op == "list" or is_listy(t) else ("bool",) if is_bool(t) else ("int",) if is_int(t) else t.args[1:] if t.op == "sym" else ()
        p = T("sym", "P$%s" % name, *srt); env[p] = t
        return p
    try:
        for k, v in sorted(fr.f.items()):
            t = self.freeze(v)
            if isinstance(v, (DictObj, SetObj)) and t.op not in ("sym", "call"): return None
            fz.append((k, gen(t, k)))
    except Und: return None
    key = (id(f.node), tuple(fz))
    if key not in self.callmemo:
        sv = (self.facts, self.level_syms, self.S["log"], self.dead, self.freeze_before, self.freeze_heads)
        self.facts = Facts(self.w); self.level_syms = []; self.S["log"] = (); self.dead = None; self.freeze_before = 0; self.freeze_heads = ()
        fr2 = Frame(f, f.mod, f.frame, fr.locals, fr.globals)
        for k, t in fz: fr2.f[k] = self.thaw(t)
        m = self.mark()
        try: r = self.call_groups(f, fr2, node)
        except (Und, HoistX):
            Clock.check(); r = None
        finally:
            self.undo(m)
            self.facts, self.level_syms, self.S["log"], self.dead, self.freeze_before, self.freeze_heads = sv
        self.callmemo[key] = r
    r = self.callmemo[key]
    if r is None: self.nomerge.add(f.node); return None
    pick = r[-1]
    for g, o in r[:-1]:
        if self.branch1(self.pred(g, env), node): pick = (g, o); break
    o = pick[1]
    if o.kind == "normal": return (self.thaw(subst(o.fz, env)),)
    raise RaiseX(o.exc.cls, T("sym", "exception", "exc"), o.exc.node)

def is_listy(t): return t.op == "sym" and len(t.args) > 1 and t.args[1] == "list"

@meth
def pred(self, g, env):
    """guard g of a summary at the arguments env: a defined predicate when it is quantified, else the instance itself"""
    if isinstance(g, bool): return g
    if not any(x.op in ("all", "ex", "loopx", "sum") for x in subterms(g)): return subst(g, env)
    neg = g.op in ("or", "ex")
    if neg: g = b_not(g)
    env = {x: x for x in syms(g) if x.op == "sym"} | {p: v for p, v in env.items() if p in syms(g)}
    ps = sorted(env, key=lambda p: (place_sig(g, p, env), env[p].uid if isinstance(env[p], Term) else 0, str(env[p])))
    qs = [T("sym", "Q$%d" % n, *p.args[1:]) for n, p in enumerate(ps)]
    r = T("pred", tuple(qs), Box(subst(g, dict(zip(ps, qs)))), *[env[p] for p in ps])
    return b_not(r) if neg else r

def place_sig(g, p, params):
    """where p occurs in g, the other parameters being anonymous"""
    import zlib
    memo = {}
    def go(x):
        if isinstance(x, Term):
            if x in memo: return memo[x]
            if x is p: r = 1
            elif x in params: r = 2
            else: r = zlib.crc32(repr((x.op, [go(y) for y in x.args])).encode())
            memo[x] = r; return r
        if isinstance(x, (tuple, list)): return zlib.crc32(repr([go(y) for y in x]).encode())
        if isinstance(x, (frozenset, set)): return zlib.crc32(repr(sorted(go(y) for y in x)).encode())
        if isinstance(x, Box): return zlib.crc32(repr(getattr(x.v, "name", None) or getattr(x.v, "qual", None) or type(x.v).__name__).encode()) if not isinstance(x.v, Term) else go(x.v)
        return zlib.crc32(repr(x).encode())
    return go(g)

@meth
def call_groups(self, f, fr, node):
    bs = next(_I._ids); c0 = self.S["ctr"]
    ok = [True]
    def cap(o, m):
        for d, k, old in self.trail[m:]:
            if isinstance(d, FDict) and d.born <= bs and d is not fr.f and d is not self.S["shadow"]: ok[0] = False
        if d_shadow(self, m): ok[0] = False
        if any(e[0] in ("setglobal", "setstatic", "open", "with-enter", "out") or (e[0] == "print" and self.eval_print) for e in o.events): ok[0] = False
        if o.kind == "normal":
            if isinstance(o.value, Obj) : ok[0] = False; return
            o.fz = self.freeze(o.value)
            if any(x.op == "ref" for x in subterms(o.fz)): ok[0] = False
        def old(t): return all(not ("#" in str(x.args[0]) and int(str(x.args[0]).rsplit("#", 1)[1]) > c0) for x in syms(t))
        if not old(tuple(o.lits)) or (o.kind == "normal" and not old(o.fz)): ok[0] = False
    outs = self.explore(lambda: self.run_body(f, fr), cap)
    if not ok[0]: self.nomerge.add(f.node); return None
    groups = {}
    for o in outs:
        k = ("v", _key_(o.fz)) if o.kind == "normal" else ("x", o.value if isinstance(o.value, str) else id(o.value)) if o.kind == "raise" else None
        if k is None: return None
        groups.setdefault(k, []).append(o)
    if len(groups) > 4 or not groups: return None
    gl = sorted(groups.values(), key=lambda os: (len(os), sum(len(o.lits) for o in os)))
    return [(b_or(*[b_and(*o.lits) for o in os]), os[0]) for os in gl]

def d_shadow(I, m): return any(d is I.S["shadow"] for d, k, old in I.trail[m:])

@meth
def branch1(self, c, node=None):
    """like branch, without splitting disjunctions"""
    c = self.norm(c)
    d = self.facts.decide(c)
    if d is not None: return d
    self.check_hoist(c)
    k = self.choose(2, c)
    self.assume(c if k == 0 else b_not(c))
    return k == 0

@meth
def run_body(self, f, fr):
    self.callstack.append(f.node); self.modstack.append(f.mod)
    try:
        if f.node._t == "Lambda": return self.ev(f.body, fr)
        gen = LOCALS[id(f.node)][2]
        if gen: fr.f["$yield"] = ListObj()
        try:
            self.block(f.body, fr)
        except RetX as e:
            if gen: return fr.f["$yield"]
            return e.v
        return fr.f["$yield"] if gen else None
    finally:
        self.callstack.pop(); self.modstack.pop()
LOCALS = {}

# =================================================================== statements
STMT = {}
def stmt(t):
    def deco(fn):
        STMT[t] = fn; return fn
    return deco

@meth
def block(self, body, fr):
    for s in body: self.stmt(s, fr)

@meth
def run_stmt(self, s, fr):
    self.steps += 1
    h = STMT.get(s._t)
    if h is None: raise Und("statement %s" % s._t, s)
    self.visited_lines.add((s.file, s.lineno))
    h(self, s, fr)
Interp.stmt = run_stmt

@stmt("Expr")
def s_expr(self, s, fr):
    if s.value._t == "Str": return
    self.ev(s.value, fr)
@stmt("Pass")
def s_pass(self, s, fr): pass
@stmt("Global")
def s_global(self, s, fr): pass
@stmt("Print")
def s_print(self, s, fr):
    if self.eval_print:
        vals = []
        for v in s.values:
            try: vals.append(self.freeze(self.ev(v, fr)))
            except Und: vals.append(T("unk", "print"))
        self.event("print", tuple(vals), s)
@stmt("Assert")
def s_assert(self, s, fr):
    if not self.branch(self.truth(self.ev(s.test, fr)), s): raise RaiseX("AssertionError", None, s)
@stmt("Return")
def s_return(self, s, fr):
    v = self.ev(s.value, fr) if s.get("value") is not None else None
    e = RetX(v); raise e
@stmt("Break")
def s_break(self, s, fr): raise BrkX()
@stmt("Continue")
def s_continue(self, s, fr): raise ContX()
@stmt("If")
def s_if(self, s, fr):
    if self.branch(self.truth(self.ev(s.test, fr)), s): self.block(s.body, fr)
    else: self.block(s.orelse or [], fr)
@stmt("Assign")
def s_assign(self, s, fr):
    v = self.ev(s.value, fr)
    for t in s.targets: self.assign(t, v, fr)
@stmt("AugAssign")
def s_aug(self, s, fr):
    t = s.target
    if t._t == "Name": cur = self.lookup(t.id, fr, s)
    elif t._t == "Attribute":
        o = self.ev(t.value, fr); cur = self.getattr(o, t.attr, s)
    elif t._t == "Subscript" and t.slice._t == "Index":
        o = self.ev(t.value, fr); k = self.ev(t.slice.value, fr); cur = self.index(o, k, s)
    else: raise Und("augmented assignment", s)
    r = self.ev(s.value, fr)
    if isinstance(cur, ListObj) and s.op._t == "Add":
        self.call_method(cur, "extend", [r], {}, s); v = cur
    elif isinstance(cur, Term) and s.op._t == "Add" and (self.listlike(r)) and not isinstance(r, TupV):
        v = self.shadow_for(cur, "list"); self.event("mutate", cur, "+=", (self.freeze(r),), s)
        self.w(v.f, "segs", v.f["segs"] + (r.f["segs"] if isinstance(r, ListObj) else self.segs_of(r)))
        v = cur
    elif isinstance(cur, SetObj) and s.op._t in ("BitOr", "BitAnd", "Sub"):
        self.call_method(cur, {"BitOr": "update", "BitAnd": "intersection_update", "Sub": "difference_update"}[s.op._t], [r], {}, s); v = cur
    else: v = self.binop(s.op._t, cur, r, s)
    if v is cur and isinstance(v, Obj): return        # updated in place
    if t._t == "Name": self.set_name(t.id, v, fr)
    elif t._t == "Attribute": self.setattr(o, t.attr, v, s)
    else: self.setitem(o, k, v, s)

@meth
def set_name(self, name, v, fr):
    f = fr
    if name in fr.globals:
        self.event("setglobal", fr.mod.name, name, None)
        self.w(fr.mod.f, name, v); return
    self.w(fr.f, name, v)

@meth
def assign(self, t, v, fr):
    if t._t == "Name": self.set_name(t.id, v, fr)
    elif t._t in ("Tuple", "List"):
        for x, y in zip(t.elts, self.unpack(v, len(t.elts), t)): self.assign(x, y, fr)
    elif t._t == "Attribute": self.setattr(self.ev(t.value, fr), t.attr, v, t)
    elif t._t == "Subscript":
        o = self.ev(t.value, fr)
        if t.slice._t == "Index": self.setitem(o, self.ev(t.slice.value, fr), v, t)
        else:
            if isinstance(o, ListObj) and t.slice.get("lower") is None and t.slice.get("upper") is None:
                self.w(o.f, "segs", tuple(self.segs_of(v)))
            else: raise Und("slice assignment", t)
    else: raise Und("assignment target", t)

@meth
def unpack(self, v, k, n=None):
    if isinstance(v, TupV): items = v.items
    elif isinstance(v, (ListObj, SetObj)) and all(s[0] == "one" for s in v.f["segs"]): items = [s[1] for s in v.f["segs"]]
    elif isinstance(v, Term):
        if v.op in ("tup", "list"):
            return self.unpack(self.thaw(v), k, n)
        return [self.index(v, i, n) for i in range(k)]
    elif isinstance(v, ListObj):
        return [self.index(v, i, n) for i in range(k)]
    else: raise Und("unpack %r" % (v,), n)
    if len(items) != k:
        if isinstance(v, ListObj) or isinstance(v, TupV): raise RaiseX("ValueError", None, n)
    return items

@meth
def setattr_(self, o, a, v, n):
    if isinstance(o, InstObj):
        self.event("setattr", o, a, v, n)
        self.w(o.f, a, v)
    elif isinstance(o, (ClassVal, ModVal)):
        self.event("setstatic", o, a, v, n)
        self.w(o.f, a, v)
    elif isinstance(o, Term):
        self.event("setattr", o, a, v, n)
        self.w(self.S["shadow"], (o, a), v)
    elif isinstance(o, FuncVal): self.w(o.f, a, v)
    elif isinstance(o, ExtVal): self.event("setstatic", o, a, v, n)
    else: raise Und("attribute store on %r" % (o,), n)

def derived(t):
    """the term denotes part of a value built by the analysed code, of which other copies may exist"""
    while isinstance(t, Term) and t.op in ("at", "attr"): t = t.args[0]
    return isinstance(t, Term) and t.op in ("lookup", "fold", "lx", "ite", "dict", "list", "set", "tup", "inst", "acc", "popped", "tuplist")
@meth
def shadow_for(self, t, kind):
    sh = self.S["shadow"].get(t)
    if sh is None:
        if derived(t): raise Und("change of an object held in a computed value: %s" % render(t)[:80])
        if kind == "dict": sh = DictObj([("base", t)], tag="shadow")
        elif kind == "list": sh = ListObj([Pre(t)], tag="shadow")
        else: sh = SetObj([Pre(t)], tag="shadow")
        self.w(self.S["shadow"], t, sh)
    return sh

@meth
def setitem(self, o, k, v, n):
    if isinstance(o, Term) and o.op in ("ref",): o = self.thaw(o)
    if isinstance(o, Term):
        sh = self.shadow_for(o, "list" if is_listy(o) else "dict")
        self.event("setitem", o, self.freeze(k), self.freeze(v), n)
        if isinstance(sh, DictObj): self.dict_set(sh, k, v, n); return
        o = sh
    if isinstance(o, DictObj):
        self.event("setitem", o, self.freeze(k), self.freeze(v), n)
        self.dict_set(o, k, v, n); return
    if isinstance(o, ListObj):
        self.event("setitem", o, self.freeze(k), self.freeze(v), n)
        segs = list(o.f["segs"])
        if isinstance(k, int) and all(s[0] == "one" for s in segs):
            try: segs[k] = One(v)
            except IndexError: raise RaiseX("IndexError", None, n)
            self.w(o.f, "segs", tuple(segs)); return
        if len(segs) == 1 and self.plain_star(segs[0]) and arith_ok(k):
            # element update: guarded star
            _, bv, lo, hi, cases = segs[0]
            kk = k
            if self.facts.signs_of(k) <= frozenset((-1,)): kk = padd(hi, k)
            else: kk = padd(lo, k)
            fv = self.freeze(v)
            nb = T("b", 1 + max(bdepth(fv), bdepth(cases), bdepth(kk), bdepth(hi), bdepth(lo)))
            old = subst(cases[0][1][0][1], {bv: nb})
            eq = sg(psub(nb, kk), (0,))
            new = T("ite", eq, fv, old)
            self.w(o.f, "segs", (Star(nb, lo, hi, [(True, (One(new),))]),)); return
        raise Und("list element store", n)
    if isinstance(o, InstObj):
        f = o.cls.find("__setitem__")
        if f is not MISSING: self.call_func(f, [o, k, v], {}, n, meth=True); return
        if o.cls.ext_bases():
            self.event("setitem", o, self.freeze(k), self.freeze(v), n); return
    raise Und("item store on %r" % (o,), n)

@stmt("Delete")
def s_delete(self, s, fr):
    for t in s.targets:
        if t._t == "Name": self.wdel(fr.f, t.id)
        elif t._t == "Subscript":
            o = self.ev(t.value, fr)
            if t.slice._t != "Index": raise Und("del slice", s)
            k = self.ev(t.slice.value, fr)
            self.event("delitem", o if isinstance(o, Term) else o, self.freeze(k), s)
            if isinstance(o, ListObj): self.call_method(o, "pop", [k], {}, s)
            elif isinstance(o, DictObj): self.dict_del(o, k, s)
            else: raise Und("del", s)
        else: raise Und("del", s)

@meth
def dict_del(self, d, k, n):
    r = self.dict_find(d, k, n)
    if r[0] == "hit":
        ents = list(d.f["ents"])
        if ents[r[1]][0] != "kv": raise Und("del of summarised entry", n)
        del ents[r[1]]
        self.w(d.f, "ents", tuple(ents)); return r[2]
    if r[0] == "miss": raise RaiseX("KeyError", None, n)
    raise Und("del", n)

@stmt("FunctionDef")
def s_def(self, s, fr):
    cls = fr.clsname if hasattr(fr, "clsname") else None
    f = FuncVal(s, s.name, s.args, s.body, fr, fr.mod, cls, [self.ev(d, fr) for d in s.args.defaults])
    v = f
    for d in reversed(s.get("decorator_list") or []):
        if d._t == "Name" and d.id in ("staticmethod", "classmethod", "property"): continue
        dv = self.ev(d, fr)
        v = self.call(dv, [v], {}, s)
    self.set_name(s.name, v, fr)

@stmt("ClassDef")
def s_class(self, s, fr):
    c = ClassVal(s.name, [self.ev(b, fr) for b in s.bases], fr.mod, s)
    cf = Frame(None, fr.mod, fr if fr.locals is not None else None, None, set())
    cf.f = c.f; cf.clsname = s.name
    # class bodies: names are looked up in the class, then globals; methods must not see class scope
    mf = Frame(None, fr.mod, fr if fr.locals is not None else None, set(), set())
    for st in s.body:
        if st._t == "FunctionDef":
            f = FuncVal(st, st.name, st.args, st.body, mf, fr.mod, s.name, [self.ev(d, cf) for d in st.args.defaults])
            self.w(c.f, st.name, f)
        elif st._t == "Expr" and st.value._t == "Str": pass
        else:
            try: self.stmt(st, cf)
            except Und as e: self.notes.append(str(e))
    self.set_name(s.name, c, fr)

@stmt("Import")
def s_import(self, s, fr):
    for a in s.names:
        top = a.name.split(".")[0]
        if a.name in self.asts: v = self.module(a.name)
        else: v = ExtVal(a.name if a.asname else top)
        self.set_name(a.asname or top, v, fr)
@stmt("ImportFrom")
def s_importfrom(self, s, fr):
    m = self.module(s.module) if s.module in self.asts else None
    for a in s.names:
        if a.name == "*":
            cur = fr.mod.f.get("*", ())
            self.w(fr.mod.f, "*", cur + ((m if m is not None else s.module),)); continue
        if m is not None:
            v = m.f.get(a.name, MISSING)
            if v is MISSING: v = T("unk", "%s.%s" % (s.module, a.name))
        else:
            v = pyp().const("%s.%s" % (s.module, a.name))
            if v is None: v = ExtVal("%s.%s" % (s.module, a.name))
        self.set_name(a.asname or a.name, v, fr)

@stmt("Raise")
def s_raise(self, s, fr):
    if s.get("type") is None:
        raise RaiseX("reraise", None, s)
    v = self.ev(s.type, fr)
    if isinstance(v, InstObj): raise RaiseX(v.cls, v, s)
    if isinstance(v, ClassVal):
        inst = self.instantiate(v, [self.ev(s.inst, fr)] if s.get("inst") is not None else [], {}, s)
        raise RaiseX(v, inst, s)
    if isinstance(v, Builtin): raise RaiseX(v.name, None, s)
    if isinstance(v, Term) and v.op == "exc": raise RaiseX(v.args[0], v, s)
    if isinstance(v, str): raise RaiseX("TypeError", None, s)
    if isinstance(v, Term): raise RaiseX("Exception", v, s)
    if isinstance(v, ExtVal): raise RaiseX(v.name, None, s)
    raise RaiseX("Exception", None, s)

@meth
def exc_match(self, e, h):
    """does exception class e match handler type value h"""
    if isinstance(h, TupV): return any(self.exc_match(e, x) for x in h.items)
    if isinstance(e, ClassVal):
        if isinstance(h, ClassVal): return e.isa(h)
        if isinstance(h, Builtin):
            if h.name in ("Exception", "BaseException"): return True
            todo = list(e.bases)
            while todo:
                b = todo.pop()
                if isinstance(b, Builtin) and self.exc_match(b.name, h): return True
                if isinstance(b, ClassVal): todo += b.bases
            return False
        return False
    if isinstance(h, Builtin):
        while e is not None:
            if e == h.name: return True
            e = EXC_PARENT.get(e)
        return False
    if isinstance(h, ExtVal): return e == h.name
    return False

@stmt("TryExcept")
def s_try(self, s, fr):
    try:
        self.block(s.body, fr)
    except RaiseX as e:
        for h in s.handlers:
            if h.get("type") is None: ok = True
            else: ok = self.exc_match(e.cls, self.ev(h.type, fr))
            if ok:
                if h.get("name") is not None:
                    self.assign(h.name, e.val if e.val is not None else T("exc", e.cls if isinstance(e.cls, str) else e.cls.name), fr)
                try:
                    self.block(h.body, fr)
                except RaiseX as e2:
                    if e2.cls == "reraise": raise e
                    raise
                return
        raise
    else:
        self.block(s.orelse or [], fr)

@stmt("TryFinally")
def s_tryfin(self, s, fr):
    try:
        self.block(s.body, fr)
    except (RetX, BrkX, ContX, RaiseX):
        self.block(s.finalbody, fr)
        raise
    self.block(s.finalbody, fr)

@stmt("With")
def s_with(self, s, fr):
    v = self.ev(s.context_expr, fr)
    if s.get("optional_vars") is not None: self.assign(s.optional_vars, v, fr)
    self.event("with-enter", self.freeze(v), s)
    try:
        self.block(s.body, fr)
    finally:
        self.event("with-exit", self.freeze(v), s)

# =================================================================== loops
@stmt("For")
def s_for(self, s, fr):
    it = self.ev(s.iter, fr)
    def body(x):
        self.assign(s.target, x, fr)
        try: self.block(s.body, fr)
        except ContX: pass
    tg = frozenset((id(fr.f), nm) for nm in assigned_names([Node("For", {"target": s.target, "body": [], "orelse": []}, s.lineno, s.file)]))
    old = self.dead
    self.dead = self.dead_keys(s, fr)
    try:
        self.loop_over(it, body, s, tg, not s.orelse)
    except BrkX:
        return
    finally: self.dead = old
    self.block(s.orelse or [], fr)

@meth
def dead_keys(self, s, fr):
    """locations of local names never read again after the loop s / at its head"""
    if fr.fn is None or fr.locals is None: return None
    from .live import loop_live
    r = loop_live(fr.fn.node, s)
    if r is None: return None
    ns = assigned_names([s]) & set(fr.locals)
    return (s, frozenset((id(fr.f), n) for n in ns - r[0]), frozenset((id(fr.f), n) for n in ns - r[1]), frozenset((id(fr.f), n) for n in ns - r[2]))

@meth
def loop_over(self, it, body, node=None, targets=frozenset(), plain=False):
    h = self.handlers.get("loop")
    if h: h(self, it, node)
    if isinstance(it, ListObj) and any(inst_star(s) for s in it.f["segs"]): return self.loop_insts(it, body, node, targets, plain)
    for s in self.segs_of(it, node):
        if s[0] == "one": body(self.lend(s[1]))
        else: self.star_loop(s, body, node, targets, plain)

def inst_star(s):
    return s[0] == "star" and any(x[0] == "one" and isinstance(x[1], Term) and x[1].op == "inst" or inst_star(x) for g, xs in s[4] for x in xs)

@meth
def loop_insts(self, it, body, node, targets, plain):
    """loop over a list of objects known by a generic element: what the body does to the element is carried back to the list"""
    out = []; changed = False
    for s in it.f["segs"]:
        if s[0] == "one": body(self.lend(s[1])); out.append(s); continue
        if not inst_star(s):
            for z in self.expand_pre((s,)):
                if z[0] == "one": body(self.lend(z[1]))
                else: self.star_loop(z, body, node, targets, plain)
            out.append(s); continue
        if not self.body_mutates(s, body, node):
            self.star_loop(s, body, node, targets, plain); out.append(s); continue
        if s in self.S.get("sharedi", ()): raise Und("objects in several lists are modified", node)
        aux = ListObj()
        def b2(x):
            body(x); self.list_append(aux, x)
        try: self.star_loop(s, b2, node, targets, plain)
        except (BrkX, RetX): raise Und("objects modified in a loop that is left early", node)
        out += list(aux.f["segs"]); changed = True
    if changed: self.w(it.f, "segs", tuple(out))

@meth
def note_shared(self, x):
    if isinstance(x, ListObj):
        for s in x.f["segs"]:
            if inst_star(s): self.w(self.S, "sharedi", self.S.get("sharedi", frozenset()) | {s})

@meth
def body_mutates(self, s, body, node):
    m0 = self.mark(); lv = len(self.level_syms)
    self.level_syms.append(set())
    mut = [False]
    try:
        i = self.new_index("i")
        try:
            self.assume(sg(psub(i, s[2]), (0, 1)), log=False); self.assume(sg(psub(s[3], i), (1,)), log=False)
        except Dead: return False
        def cap(o, m):
            pass
        def probe(x):
            if not isinstance(x, InstObj): body(x); return
            a = self.freeze(x)
            try: body(x)
            finally:
                if self.freeze(x) is not a: mut[0] = True
        try: self.explore(lambda: self.run_cases(s, i, probe), cap)
        except HoistX: mut[0] = True
        return mut[0]
    finally:
        self.undo(m0); del self.level_syms[lv:]

UNCH = ("unchanged",)

@meth
def run_cases(self, s, i, body):
    """body over the elements emitted by star s at index i"""
    _, bv, lo, hi, cases = s
    for g, segs in cases:
        gi = subst(g, {bv: i})
        if self.branch(gi):
            for x in segs:
                x = subst_seg(x, {bv: i})
                if x[0] == "one": body(self.lend(x[1]))
                elif x[0] == "pre": self.star_loop(self.star_of_term(x[1]), body)
                else: self.star_loop(x, body)
            return

def subst_seg(s, env):
    if s[0] == "one": return ("one", subst(s[1], env))
    if s[0] == "pre": return ("pre", subst(s[1], env))
    return ("star", s[1], subst(s[2], env), subst(s[3], env), tuple((subst(g, env), tuple(subst_seg(x, env) for x in xs)) for g, xs in s[4]))

@meth
def star_loop(self, s, body, node=None, targets=frozenset(), plain=False):
    self.stats["loops"] += 1
    while True:
        m = self.mark()
        lv = len(self.level_syms)
        try:
            info = self.analyse_loop(lambda i: self.run_cases(s, i, body), s[2], s[3], node)
        except HoistX as h:
            if h.level != lv + 1: raise
            del self.level_syms[lv:]
            self.undo(m)
            self.branch(h.lit, node)
            continue
        finally:
            del self.level_syms[lv:]
        break
    if info is None: return
    self.finish_loop(info, lambda i: self.run_cases(s, i, body), s[2], s[3], node, targets, plain)

@meth
def make_head(self, name, init):
    if isinstance(init, (ListObj,)):
        t = self.fresh("H_" + name, "list"); o = ListObj([Pre(t)]); return o, t
    if isinstance(init, SetObj):
        t = self.fresh("H_" + name, "set"); o = SetObj([Pre(t)]); return o, t
    if isinstance(init, DictObj):
        t = self.fresh("H_" + name, "dict"); o = DictObj([("base", t)], init.default); return o, t
    if isinstance(init, TupV):
        its = [self.make_head("%s%d" % (name, k), x) for k, x in enumerate(init.items)]
        return TupV([x[0] for x in its]), T("tup", *[x[1] for x in its])
    if isinstance(init, bool) or is_bool(init): sort = ("bool",)
    elif is_int(init): sort = ("int",)
    else: sort = ()
    t = self.fresh("H_" + name, *sort)
    return t, t

@meth
def analyse_loop(self, body, lo, hi, node):
    """explore one generic iteration until the set of written locations is stable"""
    self.level_syms.append(set())
    m0 = self.mark()
    i = self.new_index("i")
    try:
        self.assume(sg(psub(i, lo), (0, 1)), log=False)
        self.assume(sg(psub(hi, i), (1,)), log=False)
    except Dead:
        self.undo(m0)
        return None
    W = {}
    for it in range(12):
        m = self.mark()
        heads = {}
        hobjs = []
        for key, (d, k) in W.items():
            init = d.get(k, MISSING)
            if init is MISSING: continue
            name = str(k)
            if k == "segs":
                t = self.fresh("H_segs", "list"); hv = (Pre(t),)
            elif k == "ents":
                t = self.fresh("H_ents", "dict"); hv = (("pre", t),)
            else:
                hv, t = self.make_head(name, init)
                if isinstance(hv, Obj): hobjs.append(hv)
            heads[key] = (t, hv)
            self.w(d, k, hv)
        bs = next(_I._ids)
        newlocs = {}
        shadowed = []
        def capture(o, m2):
            of, oh = self.freeze_before, self.freeze_heads
            self.freeze_before, self.freeze_heads = bs, hobjs
            try:
                o.writes = {}
                seen = set()
                for d, k, old in self.trail[m2:]:
                    if not isinstance(d, FDict) or d.born > bs: continue
                    key = (id(d), k)
                    if key in seen: continue
                    seen.add(key)
                    if d is self.S["shadow"]:
                        t = k[0] if isinstance(k, tuple) else k
                        if not isinstance(k, tuple) and k not in shadowed and not (syms(t) & self.level_syms[-1]):
                            shadowed.append((k, d.get(k)))
                        if not isinstance(k, tuple): continue
                        if syms(t) & self.level_syms[-1]: continue
                    if key not in W: newlocs[key] = (d, k)
                    cur = d.get(k, MISSING)
                    if key in heads and cur is heads[key][1]: continue
                    o.writes[key] = self.capture_val(k, cur)
                o.live = None
                if o.kind == "return": o.fz = self.freeze(o.value)
                self.note_sharing(o, bs)
            finally:
                self.freeze_before, self.freeze_heads = of, oh
        outs = self.explore(lambda: body(i), capture)
        self.undo(m)
        if shadowed:
            # objects behind terms get their mutable shadow before the loop
            self.undo(m0)
            todo = [(k, v) for k, v in shadowed if k not in self.S["shadow"]]
            if todo:
                for k, v in todo:
                    self.shadow_for(k, "dict" if isinstance(v, DictObj) else "list" if isinstance(v, ListObj) else "set")
                self.level_syms.pop()
                return self.analyse_loop(body, lo, hi, node)
        if not newlocs: break
        W.update(newlocs)
    else:
        raise Und("loop does not stabilise", node)
    self.undo(m0)
    return {"i": i, "outs": outs, "heads": heads, "W": W, "lsyms": set(self.level_syms[-1]), "node": node}

@meth
def note_sharing(self, o, bs):
    """objects that escape an iteration more than once, or existed before it"""
    o.sharing = ()

@meth
def capture_val(self, k, v):
    if v is MISSING: return MISSING
    if k == "segs": return ("S", tuple(self.freeze_seg(s) for s in v))
    if k == "ents": return ("E", tuple(self.freeze_ent(e) for e in v))
    return ("V", self.freeze(v))

@meth
def clean_guard(self, lits, i, lsyms, heads):
    """guard over the loop index only; literals over other body-local symbols become opaque booleans"""
    out = []
    for l in lits:
        bad = (syms(l) & lsyms) - {i}
        if bad & heads: out.append(T("bsym", "h", l.uid, i))
        elif bad: out.append(T("bsym", "l", l.uid, i))
        else: out.append(l)
    return b_and(*out)

@meth
def finish_loop(self, info, body, lo, hi, node, targets=frozenset(), plain=False):
    i, outs, heads, W, lsyms = info["i"], info["outs"], info["heads"], info["W"], info["lsyms"]
    hsyms = set()
    for t, hv in heads.values(): hsyms |= syms(t)
    if outs:
        self.event("loop", node, i, (lo, hi), outs, heads)
    normal = [o for o in outs if o.kind in ("normal", "continue")]
    exits = [o for o in outs if o.kind in ("break", "return", "raise")]
    inits = {key: d.get(k, MISSING) for key, (d, k) in W.items()}
    # closed forms of simple counters
    closed = {}
    for key, (d, k) in W.items():
        if key not in heads: continue
        t, hv = heads[key]
        init = inits[key]
        if not (is_num(init) or (isinstance(init, Term) and arith_ok(init) and not is_bool(init))): continue
        if isinstance(init, bool): continue
        deltas = set()
        for o in normal:
            w = o.writes.get(key, UNCH)
            if w is UNCH: deltas.add(0); continue
            if w is MISSING or w[0] != "V" or not arith_ok(w[1]): deltas.add(None); continue
            deltas.add(_dk(psub(w[1], t)))
        if len(deltas) == 1:
            dlt = next(iter(deltas))
            if dlt is not None and not (syms(dlt) & lsyms):
                closed[key] = (t, dlt, init)
    env_at = {}
    for key, (t, dlt, init) in closed.items():
        env_at[t] = padd(init, pmul(dlt, psub(i, lo)))
    # flags no complete iteration changes when they enter it with their first value
    steady = set()
    for key, (d, k) in W.items():
        if key not in heads or key in closed or not isinstance(inits[key], (bool, str)): continue
        t, hv = heads[key]
        if not isinstance(t, Term) or hv is not t: continue
        e = {t: inits[key]}
        def stays(o):
            if any(subst(l, e) is False for l in o.lits): return True
            w = o.writes.get(key, UNCH)
            return w is UNCH or w is not MISSING and w[0] == "V" and _same_const(subst(w[1], e), inits[key])
        if all(stays(o) for o in normal): steady.add(key); env_at.update(e)
    def fix(x): return subst(x, env_at) if env_at else x
    # group normal outcomes by effect
    groups = {}
    for o in normal:
        lits = [fix(l) for l in o.lits]
        g = self.clean_guard(lits, i, lsyms, hsyms - set(env_at))
        if g is False: continue
        sig = tuple(sorted(((key, fixw(w, fix)) for key, w in o.writes.items()), key=lambda z: (z[0][0], str(z[0][1]))))
        groups.setdefault(_sigkey(sig), [sig, []])[1].append(g)
    glist = [(b_or(*gs), dict(sig)) for sig, gs in groups.values()]
    egroups = []
    for o in exits:
        lits = [fix(l) for l in o.lits]
        egroups.append((self.clean_guard(lits, i, lsyms, hsyms - set(env_at)), o))
    # a break after which no iteration could have an effect is a skip
    skipped = False
    if plain and egroups:
        eff = [g for g, sig in glist if any(k not in targets and k in heads for k in sig)]
        eff += [g for g, o in egroups if o.kind != "break" or any(k not in targets and k in heads for k in o.writes)]
        keep = []
        for g, o in egroups:
            if o.kind == "break" and not any(k not in targets and k in heads for k in o.writes) and not any(t.op == "bsym" for t in subterms(g)) \
               and not any(t.op == "bsym" for x in eff for t in subterms(x)) and self.never_after(g, eff, i, lo, hi):
                glist.append((g, {})); skipped = True
            else: keep.append((g, o))
        egroups = keep
        exits = [o for g, o in keep]
    lxmemo = []
    def lx():
        if not lxmemo: lxmemo.append(self.build_lx(info, lo, hi, inits))
        return lxmemo[0]
    dead = self.dead if self.dead is not None and node is not None and self.dead[0] is node else None
    def apply(upto, exact=False):
        uid = self.fresh("loop")
        dk = frozenset() if dead is None else dead[1] if (upto is hi or _eqv(upto, hi)) else dead[2]
        for key in dk:
            if key in W and inits[key] is not MISSING: self.w(W[key][0], W[key][1], T("deadv"))
        if exact:
            L, keys = lx()
            for n, key in enumerate(keys):
                d, k = W[key]
                if key in dk: continue
                self.w(d, k, self.lx_state(L, n, k, inits[key]))
            return
        for key, (d, k) in W.items():
            init = inits[key]
            if key in dk or key in steady: continue
            if key in closed:
                t, dlt, ini = closed[key]
                if is_num(dlt) and dlt == 0: continue
                n = psub(upto, lo)
                if not (self.facts.signs_of(n) <= frozenset((0, 1))): n = maxz(n)
                self.w(d, k, padd(ini, pmul(dlt, n))); continue
            cases = [(g, sig.get(key, UNCH)) for g, sig in glist]
            if all(c[1] is UNCH for c in cases): continue
            if skipped and key in targets:
                self.w(d, k, T("lastv", uid, str(k))); continue
            v = self.summarise(d, k, init, heads.get(key), cases, i, lo, upto, lsyms, hsyms, uid)
            if (upto is hi or _eqv(upto, hi)) and v is not MISSING and opaque_summary(v, uid) and not skipped and lx() is not None:
                L, keys = lx()
                v = self.lx_state(L, keys.index(key), k, init)
            if v is MISSING: self.wdel(d, k)
            else: self.w(d, k, v)
    if not exits:
        apply(hi); return
    exg = b_or(*[g for g, o in egroups])
    bv = T("b", 1 + bdepth((exg, lo, hi)))
    noexit = b_all(bv, lo, hi, b_not(subst(exg, {i: bv})))
    hasopq = any(t.op == "bsym" for t in subterms(exg))
    quick = self.uniform_exit(info, egroups, lsyms, dead)
    if quick is not None and not hasopq:
        if self.branch1(noexit, node): apply(hi); return
        self.leave(quick)
    if hasopq and lx() is not None:
        L, keys = lx()
        ex = T("lxe", L)
        self.check_hoist(ex)
        if not self.branch(ex):
            apply(hi, True); return
        if quick is not None: self.leave(quick)
        kx = T("lxn", L)
        self.assume(sg(psub(kx, lo), (0, 1)), log=False)
        self.assume(sg(psub(hi, kx), (1,)), log=False)
        apply(kx, True)
        body(kx)
        raise Dead()
    if hasopq:
        ch = self.choose(2)
    else:
        d = self.facts.decide(noexit)
        if d is not None: ch = 0 if d else 1
        else:
            self.check_hoist(noexit)
            ch = self.choose(2)
    if ch == 0:
        if not hasopq: self.assume(noexit)
        apply(hi); return
    if not hasopq: self.assume(b_not(noexit))
    j = self.choose(len(egroups)) if len(egroups) > 1 else 0
    g, o = egroups[j]
    kx = self.new_index("k") if hasopq else lo if exg is True else T("first", bv, lo, hi, subst(exg, {i: bv}))
    self.assume(sg(psub(kx, lo), (0, 1)), log=False)
    self.assume(sg(psub(hi, kx), (1,)), log=False)
    if not hasopq:
        self.assume(b_all(bv, lo, kx, b_not(subst(exg, {i: bv}))), log=False)
    gg = b_and(*[l for l in _conj(g) if not any(t.op == "bsym" for t in subterms(l))])
    self.assume(subst(gg, {i: kx}), log=len(egroups) > 1 and not hasopq)
    self.w(self.facts.quant, "wit", self.facts.quant.get("wit", ()) + (kx,))
    apply(kx)
    body(kx)
    raise Dead()

def _same_const(a, b): return type(a) is type(b) and a == b

@meth
def uniform_exit(self, info, egroups, lsyms, dead):
    """the single way of leaving the loop early, when no matter at which iteration it is left nothing but that is observable"""
    if dead is None: return None
    r = None
    for g, o in egroups:
        if o.kind == "return":
            v = o.fz
            if syms(v) & lsyms or any(x.op == "ref" for x in subterms(v)): return None
            k = ("return", _key_(v), v)
        elif o.kind == "raise": k = ("raise", o.value if isinstance(o.value, str) else id(o.value), o.exc)
        elif o.kind == "break": k = ("break", None, None)
        else: return None
        if r is not None and r[:2] != k[:2]: return None
        r = r or k
    if r is None: return None
    dk = dead[1] if r[0] == "break" else dead[3]
    if any(key not in dk for key in info["W"]): return None
    return r

@meth
def leave(self, r):
    if r[0] == "return": raise RetX(self.thaw(r[2]))
    if r[0] == "break": raise BrkX()
    raise RaiseX(r[2].cls, T("sym", "exception", "exc"), r[2].node)

@meth
def build_lx(self, info, lo, hi, inits):
    """the loop as a recurrence over its written locations: term ("loopx", bv, lo, hi, inits, cases), or None"""
    i, outs, heads, W, lsyms = info["i"], info["outs"], info["heads"], info["W"], info["lsyms"]
    keys = list(W)
    fin = []
    for key in keys:
        d, k = W[key]; v = inits[key]
        if v is MISSING: fin.append(T("undef"))
        elif k == "segs": fin.append(T("list", tuple(self.freeze_seg(x) for x in v)))
        elif k == "ents": fin.append(T("dict", tuple(self.freeze_ent(x) for x in v)))
        else: fin.append(self.freeze(v))
    raw = []
    for o in outs:
        if any(w is MISSING for w in o.writes.values()): return None
        ws = tuple((keys.index(key), T("list", w[1]) if w[0] == "S" else T("dict", w[1]) if w[0] == "E" else w[1]) for key, w in o.writes.items() if key in W)
        raw.append((o.kind, tuple(o.lits), ws))
    hs = set()
    for t, hv in heads.values(): hs |= syms(t)
    if (syms(tuple(raw)) & lsyms) - {i} - hs: return None
    depth = 1 + max(bdepth(lo), bdepth(hi) if hi is not None else 0, bdepth(tuple(fin)), bdepth(tuple(raw)))
    bv = T("b", depth)
    env = {i: bv}
    def bind(t, a):
        if isinstance(t, Term) and t.op == "sym": env[t] = a
        elif isinstance(t, Term) and t.op == "tup":
            for n, x in enumerate(t.args): bind(x, T("at", a, n))
    for key, (t, hv) in heads.items(): bind(t, self.acc_of(t, depth, keys.index(key)))
    cases = tuple((kind, tuple(subst(l, env) for l in lits), tuple((n, subst(w, env)) for n, w in ws)) for kind, lits, ws in raw)
    return T("loopx", bv, lo, hi, tuple(fin), cases), keys

@meth
def acc_of(self, t, depth, n):
    if isinstance(t, Term) and t.op == "sym" and len(t.args) > 1 and t.args[1] == "bool": return T("accb", depth, n)
    if isinstance(t, Term) and t.op == "sym" and len(t.args) > 1 and t.args[1] == "int": return T("acci", depth, n)
    return T("acc", depth, n)

@meth
def lx_state(self, L, n, k, init):
    """location n after the recurrence"""
    if k == "segs": return (Pre(T("lx", L, n)),)
    if k == "ents": return (("pre", T("lx", L, n)),)
    if isinstance(init, ListObj): return ListObj([Pre(T("lx", L, n))])
    if isinstance(init, SetObj): return SetObj([Pre(T("lx", L, n))])
    if isinstance(init, DictObj): return DictObj([("base", T("lx", L, n))], init.default)
    if isinstance(init, TupV): return TupV([T("at", T("lx", L, n), j) for j in range(len(init.items))])
    if isinstance(init, bool) or is_bool(init): return T("lxb", L, n)
    if is_int(init): return T("lxi", L, n)
    return T("lx", L, n)

@meth
def never_after(self, g, eff, i, lo, hi):
    """no effectful iteration j > i once g holds at i"""
    m = self.mark()
    try:
        j = self.new_index("j")
        try:
            self.assume(sg(psub(i, lo), (0, 1)), log=False); self.assume(sg(psub(hi, i), (1,)), log=False)
            self.assume(sg(psub(j, i), (1,)), log=False); self.assume(sg(psub(hi, j), (1,)), log=False)
            self.assume(g, log=False)
        except Dead: return True
        for e in eff:
            m2 = self.mark()
            try:
                self.assume(subst(e, {i: j}), log=False)
                return False
            except Dead: pass
            finally: self.undo(m2)
        return True
    finally: self.undo(m)

def _conj(g):
    if isinstance(g, bool): return [] if g else [g]
    return list(g.args[0]) if g.op == "and" else [g]

def _dk(x): return x

def fixw(w, fix):
    if w is MISSING: return w
    if w[0] == "S": return ("S", tuple(fix_seg(s, fix) for s in w[1]))
    if w[0] == "E": return ("E", tuple(fix(e) for e in w[1]))
    return ("V", fix(w[1]))
def fix_seg(s, fix):
    return fix(s)

def _sigkey(sig):
    out = []
    for key, w in sig:
        out.append((key, "MISSING" if w is MISSING else (w[0], _key_(w[1]))))
    return tuple(out)
def _key_(x):
    if isinstance(x, tuple): return tuple(_key_(y) for y in x)
    if isinstance(x, (bool, float)): return (type(x).__name__, x)
    return x

def closev(x, i, bv): return subst(x, {i: bv})

@meth
def summarise(self, d, k, init, head, cases, i, lo, hi, lsyms, hsyms, uid):
    others = lsyms - {i}
    def opaque(x):
        """replace body-local symbols other than the index by opaque per-iteration values"""
        env = {s: T("iterval", str(s.args[0]).split("#")[0], uid, i) for s in syms(x) & others}
        return subst(x, env) if env else x
    depth = 1 + max([bdepth(lo), bdepth(hi)] + [bdepth((g, w[1] if w is not UNCH and w is not MISSING else ())) for g, w in cases])
    bv = T("b", depth)
    if any(w is MISSING for g, w in cases): return T("lastv", uid, str(k))
    if k == "segs" or k == "ents":
        t = head[0] if head else None
        app = []; pre = []
        for g, w in cases:
            if w is UNCH: continue
            segs = list(w[1])
            pi = [n for n, s in enumerate(segs) if s[0] == "pre" and s[1] is t]
            if len(pi) != 1:
                return (Pre(T("fold", uid, k)),) if k == "segs" else (("pre", T("fold", uid, k)),)
            p = pi[0]
            if segs[:p]: pre.append((g, segs[:p]))
            if segs[p + 1:]: app.append((g, segs[p + 1:]))
        if k == "segs":
            out = tuple(init)
            if app:
                cs = [(subst(opaque(g), {i: bv}), tuple(subst_seg(self.opq_seg(s, opaque), {i: bv}) for s in segs)) for g, segs in app]
                out = out + (Star(bv, lo, hi, cs),)
            if pre:
                if app: return (Pre(T("fold", uid, k)),)
                rv = psub(psub(padd(lo, hi), 1), bv)
                cs = [(subst(opaque(g), {i: rv}), tuple(subst_seg(self.opq_seg(s, opaque), {i: rv}) for s in segs)) for g, segs in pre]
                out = (Star(bv, lo, hi, cs),) + out
            return out
        cs = []
        if pre: return (("pre", T("fold", uid, k)),)
        if any(e[0] not in ("kv", "star", "nstar") for g, es in app for e in es): return tuple(init) + (("pre", T("fold", uid, k)),)
        if any(e[0] != "kv" for g, es in app for e in es):
            return tuple(init) + (("nstar", bv, lo, hi, tuple((subst(opaque(g), {i: bv}), tuple(subst(opaque(e), {i: bv}) for e in es)) for g, es in app)),)
        for g, es in app:
            for e in es:
                cs.append((subst(opaque(g), {i: bv}), subst(opaque(e[1]), {i: bv}), subst(opaque(e[2]), {i: bv})))
        return tuple(init) + (("star", bv, lo, hi, tuple(cs)),)
    if head is None:
        # first bound inside the loop
        vals = {_key_(w[1]): w[1] for g, w in cases if w is not UNCH}
        if len(vals) == 1 and len(cases) == 1:
            v = next(iter(vals.values()))
            if not (syms(v) & lsyms): return self.thaw(v)
            if not (syms(v) & others):
                # value of the last iteration
                return self.thaw(subst(v, {i: psub(hi, 1)}))
        return T("lastv", uid, str(k))
    t, hv = head
    finit = self.freeze(init)
    news = [(g, w[1]) for g, w in cases if w is not UNCH]
    # sum
    if arith_ok(finit) and all(arith_ok(v) for g, v in news) and not isinstance(finit, bool) and finit is not None and not isinstance(finit, str):
        ds = [(g, psub(v, t)) for g, v in news]
        if all(not (syms(x) & hsyms) and not any(b.op == "bsym" for b in subterms(g)) for g, x in ds):
            if all(not (syms(x) & others) for g, x in ds):
                return padd(finit, mk_sum(i, lo, hi, ds))
    # rebinding to a filtered version of itself:  x = [e for e in x if g]
    fl = self.filter_fold(t, news, cases, i, lo, hi, finit, lsyms, hsyms)
    if fl is not None: return fl
    # idempotent update that does not depend on the element
    if all(not (syms(v) & (lsyms - syms(t))) for g, v in news):
        vals = {}
        for g, v in news: vals.setdefault(_key_(v), [v, []])[1].append(g)
        if len(vals) == 1:
            v, gs = next(iter(vals.values()))
            vv = subst(v, {t: v}) if isinstance(t, Term) else v
            vs = simp(v); 
            if simp(vv) is vs or _key_(simp(vv)) == _key_(vs):
                g = b_or(*gs)
                if not any(x.op == "bsym" for x in subterms(g)) :
                    bv2 = T("b", 1 + bdepth((g, lo, hi)))
                    ex = b_ex(bv2, lo, hi, subst(g, {i: bv2}))
                    if self.branch(ex): return self.thaw(simp(subst(v, {t: finit}) if isinstance(t, Term) else v))
                    return init
                elif all(x.args[0] == "h" for x in subterms(g) if x.op == "bsym"):
                    pass
    cs = tuple((subst(opaque_guard(g), {i: bv}), subst(v, {i: bv, t: T("acc", depth)} if isinstance(t, Term) and t.op == "sym" else {i: bv})) for g, v in news)
    if any(syms(x) & others for g, x in cs): return T("lastv", uid, str(k))
    r = T("fold", bv, lo, hi, finit, cs)
    if isinstance(init, ListObj): return ListObj([Pre(r)])
    if isinstance(init, SetObj): return SetObj([Pre(r)])
    if isinstance(init, DictObj): return DictObj([("base", r)], init.default)
    return r

def split_ind(x):
    """x = sum of (guard, value) pieces"""
    if isinstance(x, Term) and x.op == "ind": return [(x.args[0], x.args[1])]
    if isinstance(x, Term) and x.op == "poly":
        rest = 0; out = []
        for m, c in x.args[0]:
            ind = [a for a, e in m if a.op == "ind"]
            if not ind: rest = padd(rest, from_poly({m: c})); continue
            g = True; v = c
            for a, e in m:
                if a.op == "ind": g = b_and(g, a.args[0]); v = pmul(v, ppow(a.args[1], e))
                else: v = pmul(v, ppow(a, e))
            out.append((g, v))
        if not (is_num(rest) and rest == 0): out.append((True, rest))
        return out
    return [(True, x)]

def mk_sum(i, lo, hi, cases):
    """sum over i in [lo,hi) of the guarded values, in normal form"""
    flat = {}
    for g, x in cases:
        for g2, y in split_ind(x):
            gg = b_and(g, g2)
            if gg is False: continue
            flat[gg] = padd(flat.get(gg, 0), y)
    out = 0; rest = []
    for g, x in flat.items():
        if is_num(x) and x == 0: continue
        sol = None
        for l in _conj(g):
            if not isinstance(l, bool) and l.op == "sg" and l.args[1] == frozenset((0,)) and i in poly_atoms(l.args[0]):
                d = to_poly(l.args[0]); c = d.pop(((i, 1),), 0)
                r = from_poly(d)
                if c in (1, -1) and i not in syms(r):
                    sol = pneg(r) if c == 1 else r; break
        if sol is not None and is_int(sol):
            gg = b_and(subst(g, {i: sol}), sg(psub(sol, lo), (0, 1)), sg(psub(hi, sol), (1,)))
            if gg is False: continue
            v = subst(x, {i: sol})
            out = padd(out, v if gg is True else T("ind", gg, v))
        else: rest.append((g, x))
    if rest:
        bv = T("b", 1 + bdepth((tuple(rest), lo, hi)))
        cs = frozenset((subst(g, {i: bv}), subst(x, {i: bv})) for g, x in rest)
        out = padd(out, T("sum", bv, lo, hi, cs))
    return out

def opaque_guard(g): return g

def opaque_summary(v, uid):
    """summary that lost the values computed by the loop"""
    if isinstance(v, Term): ts = v
    elif isinstance(v, tuple): ts = v
    elif isinstance(v, Obj): ts = v.f.get("segs", v.f.get("ents", ()))
    else: return False
    return any(t.op in ("bsym", "iterval", "lastv") or (t.op == "fold" and len(t.args) != 5) or (t.op == "fold" and any(x.op == "bsym" for x in subterms(t))) for t in subterms(ts) if t.op in ("bsym", "iterval", "lastv", "fold"))

def simp(v):
    return v

@meth
def opq_seg(self, s, opaque):
    if s[0] == "one": return ("one", opaque(s[1]))
    if s[0] == "pre": return ("pre", opaque(s[1]))
    return ("star", s[1], opaque(s[2]), opaque(s[3]), tuple((opaque(g), tuple(self.opq_seg(x, opaque) for x in xs)) for g, xs in s[4]))

@meth
def filter_fold(self, t, news, cases, i, lo, hi, finit, lsyms, hsyms):
    """x := [e in x | g_i(e)] for every i   ==>   [e in x0 | all i: g_i(e)]"""
    if not (isinstance(t, Term) and t.op == "sym" and len(t.args) > 1 and t.args[1] in ("list", "set")): return None
    if len(news) != 1 or len(cases) != 1: return None
    g0, v = news[0]
    if g0 is not True: return None
    if not (isinstance(v, Term) and v.op in ("list", "set") and len(v.args[0]) == 1 and v.args[0][0][0] == "star"): return None
    _, bv, l2, h2, cs = v.args[0][0]
    if len(cs) != 1 or len(cs[0][1]) != 1 or cs[0][1][0][0] != "one": return None
    g, el = cs[0][0], cs[0][1][0][1]
    if l2 != 0 or h2 is not length(t) or el is not at(t, bv): return None
    E = T("sym", "elt$", "elt")
    ge = subst(g, {at(t, bv): E})
    if syms(ge) & (lsyms - {i}) or bv in syms(ge): return None
    b1 = T("b", 1 + max(bdepth(ge), bdepth(lo), bdepth(hi)))
    allg = b_all(b1, lo, hi, subst(ge, {i: b1}))
    # apply to the initial collection
    v0 = self.thaw(finit)
    segs0 = self.segs_of(v0) if not isinstance(v0, (ListObj, SetObj)) else self.expand_pre(v0.f["segs"])
    out = []
    for s in segs0:
        if s[0] == "one":
            x = self.freeze(s[1])
            b2 = T("b", 1 + bdepth((x, allg)))
            out.append(Star(b2, 0, 1, [(subst(allg, {E: x}), (One(x),))]))
        else:
            _, b3, l3, h3, c3 = s
            nb = T("b", 1 + max(bdepth(allg), bdepth(c3), bdepth(l3), bdepth(h3)))
            nc = []
            for gg, xs in c3:
                for y in xs:
                    if y[0] != "one": return None
                    x = subst(y[1], {b3: nb})
                    nc.append((b_and(subst(gg, {b3: nb}), subst(allg, {E: x})), (One(x),)))
            out.append(Star(nb, l3, h3, nc))
    return ListObj(out) if t.args[1] == "list" else SetObj(out)

@stmt("While")
def s_while(self, s, fr):
    r = self.while_loop(s, fr)
    if r == "break": return
    self.block(s.orelse or [], fr)

@meth
def while_loop(self, s, fr):
    # constant False / concrete progress: execute while the condition is decided
    for _ in range(64):
        m = self.mark()
        c = self.norm(self.truth(self.ev(s.test, fr)))
        d = self.facts.decide(c)
        if d is False: return "done"
        if d is None or (isinstance(s.test, Node) and s.test._t == "Name" and s.test.id == "True") or s.test._t == "Num": break
        if d is True and not isinstance(c, bool): break
        # decided by constants
        try:
            try: self.block(s.body, fr)
            except ContX: pass
        except BrkX: return "break"
    return self.generic_while(s, fr)

@meth
def generic_while(self, s, fr):
    def body_once(i=None):
        if not self.branch(self.truth(self.ev(s.test, fr)), s): raise BrkX()
        try: self.block(s.body, fr)
        except ContX: pass
    while True:
        m = self.mark(); lv = len(self.level_syms)
        try:
            info = self.analyse_loop(lambda i: body_once(), 0, self.fresh("bound", "int", "nonneg"), s)
        except HoistX as h:
            if h.level != lv + 1: raise
            del self.level_syms[lv:]; self.undo(m)
            self.branch(h.lit, s)
            continue
        finally:
            del self.level_syms[lv:]
        break
    outs, heads, W = info["outs"], info["heads"], info["W"]
    inits = {key: d.get(k, MISSING) for key, (d, k) in W.items()}
    # counted loop?
    normal = [o for o in outs if o.kind in ("normal", "continue")]
    stop = [o for o in outs if o.kind == "break" and len(o.lits) == 1]
    for key, (d, k) in W.items():
        if key not in heads or not is_int(inits[key]): continue
        t = heads[key][0]
        steps = set()
        for o in normal:
            w = o.writes.get(key, UNCH)
            steps.add(0 if w is UNCH else psub(w[1], t) if w is not MISSING and w[0] == "V" and arith_ok(w[1]) else None)
        if steps not in ({1}, {-1}): continue
        st = next(iter(steps))
        m = self.mark()
        self.w(d, k, t)
        c = None
        try:
            c = self.norm(self.truth(self.ev(s.test, fr)))
        except (Und, HoistX): c = None
        finally: self.undo(m)
        if c is None or isinstance(c, bool): continue
        first = c
        if c.op == "and":
            cand = [x for x in c.args[0] if x.op == "sg" and t in syms(x)]
            continue
        if c.op != "sg" or t not in poly_atoms(c.args[0]): continue
        p, S = c.args
        pd = to_poly(p)
        co = pd.get(((t, 1),), 0)
        rest = from_poly({mm: cc for mm, cc in pd.items() if mm != ((t, 1),)})
        hs = set()
        for tt, hv in heads.values(): hs |= syms(tt)
        if co not in (1, -1) or (syms(rest) & hs): continue
        # condition:  co*t + rest in S
        E = pneg(rest) if co == 1 else rest          # t - E (times co)
        S2 = S if co == 1 else frozenset(-x for x in S)
        init = inits[key]
        if st == 1 and S2 in (frozenset((-1,)), frozenset((-1, 1))): n = psub(E, init); val = lambda i: padd(init, i)
        elif st == 1 and S2 == frozenset((-1, 0)): n = padd(psub(E, init), 1); val = lambda i: padd(init, i)
        elif st == -1 and S2 in (frozenset((1,)), frozenset((-1, 1))): n = psub(init, E); val = lambda i: psub(init, i)
        elif st == -1 and S2 == frozenset((0, 1)): n = padd(psub(init, E), 1); val = lambda i: psub(init, i)
        else: continue
        bv = T("b", 1 + bdepth(n))
        seg = Star(bv, 0, n, [(True, (One(bv),))])
        def it_body(i):
            self.w(d, k, val(i))
            try: self.block(s.body, fr)
            except ContX: pass
        try:
            self.star_loop(seg, it_body, s)
        except BrkX:
            return "break"
        nn = n if self.facts.signs_of(n) <= frozenset((0, 1)) else maxz(n)
        self.w(d, k, padd(init, pmul(st, nn)))
        return "done"
    # generic: arbitrary number of iterations
    self.event("while", s, outs, heads, inits, {key: k for key, (d, k) in W.items()})
    uid = self.fresh("while")
    lx = self.build_lx(info, 0, None, inits)
    if lx is not None:
        L, keys = lx
        for n, key in enumerate(keys):
            d, k = W[key]
            self.w(d, k, self.lx_state(L, n, k, inits[key]))
        try: body_once()
        except BrkX: return "done"
        raise Dead()
    for key, (d, k) in W.items():
        init = inits[key]
        if init is MISSING: self.w(d, k, T("lastv", uid, str(k))); continue
        if k == "segs": self.w(d, k, (Pre(T("wfix", uid, "segs", len(self.trail))),))
        elif k == "ents": self.w(d, k, (("pre", T("wfix", uid, "ents", len(self.trail))),))
        else:
            hv, t = self.make_head("W" + str(k), init)
            self.w(d, k, hv)
    # leave through the condition or through an exit of the body
    try:
        body_once()
    except BrkX:
        return "break" if False else "done"
    raise Dead()

# =================================================================== builtins
BI = {}
def bi(*names):
    def deco(fn):
        for n in names: BI[n] = fn
        return fn
    return deco

@meth
def call_builtin(self, name, args, kw, node):
    h = self.handlers.get("builtin:" + name)
    if h:
        r = h(self, args, kw, node)
        if r is not NotImplemented: return r
    f = BI.get(name)
    if f is not None: return f(self, args, kw, node)
    if name in EXC_BUILTINS:
        return T("exc", name, *[self.freeze(a) for a in args])
    fa = [self.freeze(a) for a in args]
    self.event("builtin", name, tuple(fa), node)
    return T("bi", name, *fa)

@bi("len")
def bi_len(self, a, kw, n): return self.length(a[0], n)
@bi("range", "xrange")
def bi_range(self, a, kw, n):
    if len(a) == 1: lo, hi, st = 0, a[0], 1
    elif len(a) == 2: lo, hi, st = a[0], a[1], 1
    else: lo, hi, st = a
    if all(isinstance(x, int) for x in (lo, hi, st)) and abs(hi - lo) <= 64:
        return ListObj([One(k) for k in range(lo, hi, st)])
    if not all(arith_ok(x) for x in (lo, hi, st)): raise Und("range", n)
    bv = T("b", 1 + max(bdepth(lo), bdepth(hi)))
    if st == 1: return ListObj([Star(bv, lo, hi, [(True, (One(bv),))])])
    if st == -1:
        return ListObj([Star(bv, 0, psub(lo, hi), [(True, (One(psub(lo, bv)),))])])
    raise Und("range step", n)
@bi("map")
def bi_map(self, a, kw, n):
    f = a[0]
    if len(a) > 2:
        z = self.zip(a[1:], n)
        out = ListObj()
        self.loop_over(z, lambda x: self.list_append(out, self.call(f, list(x.items), {}, n)), n)
        return out
    if f is None: return ListObj(self.segs_of(a[1]))
    out = ListObj()
    self.loop_over(a[1], lambda x: self.list_append(out, self.call(f, [x], {}, n)), n)
    return out
@bi("filter")
def bi_filter(self, a, kw, n):
    out = ListObj()
    def body(x):
        c = self.truth(x if a[0] is None else self.call(a[0], [x], {}, n))
        if self.branch(c, n): self.list_append(out, x)
    self.loop_over(a[1], body, n)
    return out
@bi("zip")
def bi_zip(self, a, kw, n): return self.zip(a, n)

@meth
def zip_(self, xs, n=None):
    segl = [list(self.expand_pre(self.segs_of(x, n) if not (isinstance(x, SetObj) and x.sorted) or self.ordered(x) is not None else (self.star_of_term(T("sortedl", self.freeze(x))),))) for x in xs]
    out = []
    while all(segl):
        heads = [s[0] for s in segl]
        if all(h[0] == "one" for h in heads):
            out.append(One(TupV([h[1] for h in heads])))
            for s in segl: s.pop(0)
            continue
        if all(h[0] == "star" and self.plain_star(h) for h in heads):
            ns = [self.seg_len(h) for h in heads]
            last = all(len(s) == 1 for s in segl)
            # shortest decides when these are the last segments
            base = None
            eq = all(x is ns[0] or (is_num(x) and is_num(ns[0]) and x == ns[0]) or self.facts.signs_of(psub(x, ns[0])) == frozenset((0,)) for x in ns)
            if not eq:
                # choose the shortest, partitioning where needed
                k = 0
                for j in range(1, len(ns)):
                    if self.branch(sg(psub(ns[j], ns[k]), (-1,))): k = j
                nmin = ns[k]
                if not last:
                    for j in range(len(ns)):
                        if not (ns[j] is nmin or self.facts.signs_of(psub(ns[j], nmin)) == frozenset((0,))):
                            if len(segl[j]) >= 1:
                                pass
                base = nmin
            else:
                base = ns[0]
            depth = 1 + max(bdepth(h) for h in heads)
            bv = T("b", depth)
            lo0 = heads[0][2]
            same = all(_eqv(h[2], lo0) for h in heads)
            items = []
            if same:
                for h in heads: items.append(subst(h[4][0][1][0][1], {h[1]: bv}))
                hi = heads[0][3] if eq else padd(lo0, base)
                out.append(Star(bv, lo0, hi, [(True, (One(T("tup", *items)),))]))
            else:
                for h in heads: items.append(subst(h[4][0][1][0][1], {h[1]: padd(h[2], bv)}))
                out.append(Star(bv, 0, base, [(True, (One(T("tup", *items)),))]))
            if eq:
                for s in segl: s.pop(0)
            else:
                # consume base elements of each
                newl = []
                for s, h, nn in zip(segl, heads, ns):
                    if nn is base or self.facts.signs_of(psub(nn, base)) == frozenset((0,)): newl.append(s[1:])
                    else: newl.append([Star(h[1], padd(h[2], base), h[3], h[4])] + s[1:])
                segl = newl
            continue
        # one against star: peel when the star is certainly non-empty
        k = [j for j, h in enumerate(heads) if h[0] == "star"]
        ok = True
        for j in k:
            h = heads[j]
            if not self.plain_star(h): ok = False; break
            if self.branch(sg(psub(h[3], h[2]), (1,))):
                el = subst(h[4][0][1][0][1], {h[1]: h[2]})
                segl[j][0:1] = [One(self.thaw(el)), Star(h[1], padd(h[2], 1), h[3], h[4])]
            else:
                segl[j].pop(0)
        if not ok:
            raise Und("zip of filtered sequences", n)
    return ListObj(out)
def _eqv(a, b): return a is b or (is_num(a) and is_num(b) and a == b)

@bi("reduce")
def bi_reduce(self, a, kw, n):
    f = a[0]
    cell = Obj(); 
    segs = list(self.segs_of(a[1], n))
    if len(a) > 2: cell.f["acc"] = a[2]
    else:
        if segs and segs[0][0] == "one": cell.f["acc"] = segs.pop(0)[1]
        elif segs and segs[0][0] == "star" and self.plain_star(segs[0]):
            s = segs[0]
            self.assume(sg(psub(s[3], s[2]), (1,)), log=False)
            cell.f["acc"] = self.thaw(subst(s[4][0][1][0][1], {s[1]: s[2]}))
            segs[0] = Star(s[1], padd(s[2], 1), s[3], s[4])
        else:
            if not segs: raise RaiseX("TypeError", None, n)
            raise Und("reduce", n)
    self.loop_over(ListObj(segs), lambda x: self.w(cell.f, "acc", self.call(f, [cell.f["acc"], x], {}, n)), n)
    return cell.f["acc"]
@bi("sum")
def bi_sum(self, a, kw, n):
    cell = Obj(); cell.f["acc"] = a[1] if len(a) > 1 else 0
    self.loop_over(a[0], lambda x: self.w(cell.f, "acc", self.binop("Add", cell.f["acc"], x, n)), n)
    return cell.f["acc"]
class _Found(Exception): pass
@bi("any")
def bi_any(self, a, kw, n):
    def body(x):
        if self.branch(self.truth(x), n): raise BrkX()
    try: self.loop_over(a[0], body, n)
    except BrkX: return True
    return False
@bi("all")
def bi_all(self, a, kw, n):
    def body(x):
        if not self.branch(self.truth(x), n): raise BrkX()
    try: self.loop_over(a[0], body, n)
    except BrkX: return False
    return True
@bi("abs")
def bi_abs(self, a, kw, n):
    v = a[0]
    if is_num(v): return abs(v)
    s = self.facts.signs_of(v) if arith_ok(v) else SGN
    if s <= frozenset((0, 1)): return v
    if s <= frozenset((-1, 0)): return pneg(v)
    if arith_ok(v): return v if self.branch(sg(v, (0, 1)), n) else pneg(v)
    raise Und("abs", n)
@bi("min", "max")
def bi_minmax(self, a, kw, n): raise Und("min/max", n)
def _mk_minmax(name):
    def f(self, a, kw, n):
        if kw: return T("bi", name, *([self.freeze(x) for x in a] + [T("kw", k, self.freeze(v)) for k, v in sorted(kw.items())]))
        if len(a) == 1:
            segs = self.segs_of(a[0], n)
            if segs and all(s[0] == "one" for s in segs): a = [s[1] for s in segs]
            else: return T("bi", name, self.freeze(a[0]))
        r = a[0]
        for x in a[1:]:
            if not (arith_ok(x) and arith_ok(r)): return T("bi", name, *[self.freeze(y) for y in a])
            c = sg(psub(x, r), (-1,) if name == "min" else (1,))
            if self.branch(c, n): r = x
        return r
    return f
BI["min"] = _mk_minmax("min"); BI["max"] = _mk_minmax("max")
@bi("int")
def bi_int(self, a, kw, n):
    if not a: return 0
    v = a[0]
    if isinstance(v, bool): return int(v)
    if is_num(v): return int(v)
    if isinstance(v, str):
        try: return int(v)
        except ValueError: raise RaiseX("ValueError", None, n)
    if isinstance(v, Term):
        if is_int(v): return v
        if is_bool(v): return self.bool_int(v)
        h = self.handlers.get("int")
        if h: return h(self, v, n)
        return T("toint", v)
    raise Und("int()", n)
BI["long"] = BI["int"]
@bi("float")
def bi_float(self, a, kw, n):
    v = a[0]
    if is_num(v): return float(v)
    if isinstance(v, str): return float(v)
    return T("tofloat", self.freeze(v))
@bi("str", "repr", "unicode")
def bi_str(self, a, kw, n):
    if not a: return ""
    if isinstance(a[0], str): return a[0]
    if is_const(a[0]): return str(a[0])
    return T("str", self.freeze(a[0]))
@bi("bool")
def bi_bool(self, a, kw, n): return self.truth(a[0]) if a else False
@bi("list")
def bi_list(self, a, kw, n):
    if not a: return ListObj()
    v = a[0]
    if isinstance(v, SetObj) and v.sorted: return self.ordered(v) or ListObj([self.star_of_term(T("sortedl", self.freeze(v)))])
    if isinstance(v, (ListObj, SetObj)): return ListObj(v.f["segs"])
    return ListObj(self.segs_of(v, n))
@bi("tuple")
def bi_tuple(self, a, kw, n):
    if not a: return TupV(())
    segs = self.segs_of(a[0], n)
    if all(s[0] == "one" for s in segs): return TupV([s[1] for s in segs])
    return T("tuplist", self.freeze(ListObj(segs)))
@bi("set", "frozenset")
def bi_set(self, a, kw, n):
    o = SetObj()
    if a:
        segs = self.segs_of(a[0], n) if not isinstance(a[0], (ListObj, SetObj)) else a[0].f["segs"]
        if all(s[0] == "one" for s in segs):
            for s in segs: self.set_add(o, s[1])
        else: o.f["segs"] = tuple(segs)
    return o
@bi("dict")
def bi_dict(self, a, kw, n):
    o = DictObj()
    if a:
        v = a[0]
        if isinstance(v, DictObj): o.f["ents"] = v.f["ents"]
        elif isinstance(v, Term) and v.op not in ("list",):
            sh = self.S["shadow"].get(v)
            o.f["ents"] = sh.f["ents"] if isinstance(sh, DictObj) else (("base", v),)
        else:
            def body(x):
                k, vv = self.unpack(x, 2, n)
                self.dict_set(o, k, vv, n)
            self.loop_over(v, body, n)
    for k, v in sorted(kw.items()): self.dict_set(o, k, v, n)
    return o
@bi("enumerate")
def bi_enumerate(self, a, kw, n):
    st = a[1] if len(a) > 1 else 0
    cell = Obj(); cell.f["k"] = st
    out = ListObj()
    def body(x):
        self.list_append(out, TupV([cell.f["k"], x])); self.w(cell.f, "k", padd(cell.f["k"], 1))
    self.loop_over(a[0], body, n)
    return out
class _NoKey(Exception): pass
def _plain_key(self, v):
    if is_num(v) and not isinstance(v, bool) or isinstance(v, str): return v
    if isinstance(v, bool): return int(v)
    if isinstance(v, TupV): return tuple(_plain_key(self, x) for x in v.items)
    if isinstance(v, ListObj) and all(s[0] == "one" for s in v.f["segs"]): return tuple(_plain_key(self, s[1]) for s in v.f["segs"])
    if isinstance(v, Term) and v.op in ("tup", "list"): return _plain_key(self, self.lend(v))
    raise _NoKey()
@meth
def sort_known(self, segs, args, kw, node):
    """elements in order when all their keys are known values, else None"""
    if not segs: return []
    if not all(s[0] == "one" for s in segs) or args or set(kw) - {"key", "reverse"} or not isinstance(kw.get("reverse", False), bool): return None
    key = kw.get("key")
    try:
        ks = [_plain_key(self, self.call(key, [s[1]], {}, node) if key is not None else s[1]) for s in segs]
        o = sorted(range(len(segs)), key=lambda i: ks[i], reverse=kw.get("reverse", False))
    except (_NoKey, TypeError): return None
    return [segs[i] for i in o]
@bi("sorted")
def bi_sorted(self, a, kw, n):
    v = a[0]
    segs = self.segs_of(v, n)
    r = self.sort_known(segs, a[1:], kw, n)
    if r is not None: return ListObj(r)
    t = T("sortedl", self.freeze(v), *[T("kw", k, self.freeze(x)) for k, x in sorted(kw.items())])
    return ListObj([self.star_of_term(t)])
@bi("reversed")
def bi_reversed(self, a, kw, n): return self.reverse(a[0])
@bi("iter")
def bi_iter(self, a, kw, n): return a[0]
@bi("isinstance")
def bi_isinstance(self, a, kw, n): return self.isinst(a[0], a[1], n)
@meth
def isinst(self, v, c, n=None):
    if isinstance(c, TupV): return b_or(*[self.isinst(v, x, n) for x in c.items])
    if isinstance(v, InstObj):
        if isinstance(c, ClassVal): return v.cls.isa(c)
        return False
    if isinstance(c, (Builtin, ExtVal)):
        ks = CLASS_KINDS.get(c.name)
        if isinstance(v, (ListObj, SetObj, DictObj, TupV)):
            return c.name == {"list": "list", "set": "set", "dict": "dict"}.get(getattr_kind(v), "tuple")
        if ks is not None:
            if isinstance(v, Term) and is_int(v) and v.op != "sign": return "int" in ks
            if is_const(v) or isinstance(v, Term): return kd(v, ks)
            return False
        if c.name in ("basestring", "unicode"): return kd(v, ("str",)) if is_const(v) or isinstance(v, Term) else False
        if c.name == "object": return True
        if is_const(v): return False
        return T("in", self.freeze(v), T("func", Box(c)))
    if isinstance(c, ClassVal):
        if isinstance(v, Term): return T("in", v, T("func", Box(c)))
        return False
    if isinstance(c, Term) and c.op == "clsof" and isinstance(v, Term): return eqo(T("clsof", v), c)
    raise Und("isinstance", n)
def getattr_kind(v): return v.kind if isinstance(v, Obj) else "tuple"
@bi("type")
def bi_type(self, a, kw, n):
    v = a[0]
    if isinstance(v, InstObj): return v.cls
    if isinstance(v, Term): return T("clsof", v)
    if isinstance(v, bool): return Builtin("bool")
    if isinstance(v, int): return Builtin("int")
    if isinstance(v, float): return Builtin("float")
    if isinstance(v, str): return Builtin("str")
    if isinstance(v, (ListObj, SetObj, DictObj)): return Builtin(v.kind)
    if isinstance(v, TupV): return Builtin("tuple")
    raise Und("type()", n)
@bi("hasattr")
def bi_hasattr(self, a, kw, n):
    try:
        self.getattr(a[0], a[1], n)
    except RaiseX: return False
    if isinstance(a[0], Term): return T("in", a[1], T("attrs", a[0]))
    return True
@bi("getattr")
def bi_getattr(self, a, kw, n):
    if not isinstance(a[1], str): return T("attr", self.freeze(a[0]), self.freeze(a[1]))
    try: return self.getattr(a[0], a[1], n)
    except RaiseX:
        if len(a) > 2: return a[2]
        raise
@bi("setattr")
def bi_setattr(self, a, kw, n):
    if isinstance(a[1], str): self.setattr(a[0], a[1], a[2], n); return None
    raise Und("setattr", n)
@bi("callable")
def bi_callable(self, a, kw, n): return isinstance(a[0], (FuncVal, Bound, Builtin, ExtVal, ClassVal, PyFn))
@bi("pow")
def bi_pow(self, a, kw, n): return self.binop("Pow", a[0], a[1], n)
@bi("divmod")
def bi_divmod(self, a, kw, n): return TupV([self.binop("FloorDiv", a[0], a[1], n), self.binop("Mod", a[0], a[1], n)])
@bi("cmp")
def bi_cmp(self, a, kw, n):
    if arith_ok(a[0]) and arith_ok(a[1]): return sign_of(psub(a[0], a[1]))
    raise Und("cmp", n)
@bi("apply")
def bi_apply(self, a, kw, n): return self.call(a[0], [s[1] for s in self.segs_of(a[1])], {}, n)
@bi("next")
def bi_next(self, a, kw, n):
    v = a[0]
    if isinstance(v, ListObj):
        segs = v.f["segs"]
        if segs and segs[0][0] == "one": return segs[0][1]
        ln = self.length(v)
        if self.branch(self.is_zero(ln)):
            if len(a) > 1: return a[1]
            raise RaiseX("StopIteration", None, n)
        # first emitted element
        if len(segs) == 1 and segs[0][0] == "star" and self.plain_star(segs[0]): return self.index(v, 0, n)
        return T("first", self.freeze(v))
    raise Und("next", n)
@bi("open", "file")
def bi_open(self, a, kw, n):
    fa = [self.freeze(x) for x in a]
    self.event("open", tuple(fa), n)
    return T("file", *fa)

# =================================================================== methods of containers and strings
LIST_MUT = {"append", "extend", "insert", "remove", "pop", "sort", "reverse"}
SET_MUT = {"add", "discard", "update", "clear", "intersection_update", "difference_update"}
DICT_MUT = {"setdefault", "popitem", "update", "clear"}
ALL_MUT = LIST_MUT | SET_MUT | DICT_MUT

@meth
def call_method(self, v, name, args, kw, node=None):
    h = self.handlers.get("method:" + name)
    if h:
        r = h(self, v, args, kw, node)
        if r is not NotImplemented: return r
    if isinstance(v, Term) and v.op in ("ref", "func"): v = self.thaw(v)
    if isinstance(v, pyp().PE): return pyp().method(self, v, name, args, kw, node)
    if isinstance(v, pyp().Res):
        r = pyp().res_method(self, v, name, args, kw, node)
        if r is not NotImplemented: return r
    if isinstance(v, ListObj): return self.list_method(v, name, args, kw, node)
    if isinstance(v, SetObj): return self.set_method(v, name, args, node)
    if isinstance(v, DictObj): return self.dict_method(v, name, args, kw, node)
    if isinstance(v, TupV):
        if name == "index": return self.list_method(ListObj([One(x) for x in v.items]), name, args, kw, node)
        if name == "count": raise Und("tuple.count", node)
    if isinstance(v, str): return self.str_method(v, name, args, kw, node)
    if isinstance(v, Term):
        if v.op in ("setc", "set", "asset", "inter") and name in ("intersection", "union", "difference", "copy", "issubset", "issuperset"):
            return self.set_method(v, name, args, node)
        if v.op in ("list",) and name not in ALL_MUT: return self.list_method(self.thaw(v), name, args, kw, node)
        if v.op in ("dict",) and name not in ALL_MUT: return self.dict_method(self.thaw(v), name, args, kw, node)
        if v.op in ("fmt", "cat", "strv", "join", "str"):
            return T("smeth", name, v, *[self.freeze(a) for a in args])
        if name == "iteritems": name = "items"
        if name == "iterkeys": name = "keys"
        if name == "itervalues": name = "values"
        sh = self.S["shadow"].get(v)
        if sh is not None and not (name in ALL_MUT):
            if isinstance(sh, DictObj) and name in ("keys", "items", "values", "has_key", "get", "copy"): return self.dict_method(sh, name, args, kw, node)
            if isinstance(sh, ListObj) and name in ("index", "count"): return self.list_method(sh, name, args, kw, node)
        if name in ("has_key", "__contains__"): return T("in", self.freeze(args[0]), v)
        if name == "get" and len(args) in (1, 2):
            dflt = args[1] if len(args) > 1 else None
            if self.branch(T("in", self.freeze(args[0]), v), node): return at(v, self.freeze(args[0]))
            return dflt
        if name == "keys" and not args: return ListObj([self.star_of_term(T("keys", v))])
        if name == "values" and not args:
            out = ListObj()
            self.loop_over(T("keys", v), lambda k: self.list_append(out, at(v, self.freeze(k))), node)
            return out
        if name == "items" and not args:
            out = ListObj()
            self.loop_over(T("keys", v), lambda k: self.list_append(out, TupV([k, at(v, self.freeze(k))])), node)
            return out
        if name == "copy" and not args:
            sh = self.S["shadow"].get(v)
            if isinstance(sh, ListObj): return ListObj(sh.f["segs"])
            d = DictObj(sh.f["ents"] if isinstance(sh, DictObj) else [("base", v)]); d.tag = "copy"
            return d
        if name in ALL_MUT:
            fa = tuple(self.freeze(a) for a in args)
            self.event("mutate", v, name, fa, node)
            if name in ("append", "extend", "insert"):
                return self.list_method(self.shadow_for(v, "list"), name, args, kw, node, quiet=True) if isinstance(self.shadow_for(v, "list"), ListObj) else None
            if name in ("add", "discard"):
                sh = self.shadow_for(v, "set")
                if isinstance(sh, SetObj): return self.set_method(sh, name, args, node)
                return None
            if name in ("setdefault",):
                sh = self.shadow_for(v, "dict")
                return self.dict_method(sh, name, args, kw, node)
            if name in ("pop", "remove", "sort", "reverse") and is_listy(v): return self.list_method(self.shadow_for(v, "list"), name, args, kw, node)
            if name == "pop":
                if derived(v): raise Und("pop of a computed value", node)
                return T("popped", v, *fa)
            raise Und("%s of a value given from outside" % name, node)
        hm = self.handlers.get("tmethod:" + name)
        if hm:
            r = hm(self, v, args, kw, node)
            if r is not NotImplemented: return r
        fa = [self.freeze(a) for a in args] + [T("kw", k, self.freeze(x)) for k, x in sorted(kw.items())]
        self.event("mcall", v, name, tuple(fa), node)
        return T("mcall", v, name, *fa)
    if isinstance(v, InstObj):
        fa = [self.freeze(a) for a in args]
        self.event("mcall", v, name, tuple(fa), node)
        return T("mcall", T("ref", Box(v)), name, *fa)
    if is_num(v) or isinstance(v, (ExtVal, Builtin)):
        fa = [self.freeze(a) for a in args]
        return T("mcall", self.freeze(v), name, *fa)
    if v is None and not name.startswith("__"): raise RaiseX("AttributeError", None, node)
    raise Und("method %s of %r" % (name, v), node)

@meth
def list_method(self, l, name, args, kw, node, quiet=False):
    segs = l.f["segs"]
    if name in LIST_MUT and not quiet: self.event("mutate", l, name, (), node)
    if name == "append": self.list_append(l, args[0]); return None
    if name == "extend":
        x = args[0]
        self.note_shared(x)
        self.w(l.f, "segs", segs + tuple(x.f["segs"] if isinstance(x, ListObj) else self.segs_of(x, node))); return None
    if name == "insert":
        k = args[0]
        if isinstance(k, int) and k == 0: self.w(l.f, "segs", (One(args[1]),) + segs); return None
        if isinstance(k, int) and k > 0 and all(s[0] == "one" for s in segs[:k]) and len(segs) >= k:
            self.w(l.f, "segs", segs[:k] + (One(args[1]),) + segs[k:]); return None
        n = self.length(l)
        if n is k or (arith_ok(k) and self.facts.signs_of(psub(k, n)) <= frozenset((0, 1))): self.list_append(l, args[1]); return None
        raise Und("insert", node)
    if name == "pop":
        k = args[0] if args else -1
        if isinstance(k, int) and segs:
            if k == -1 and segs[-1][0] == "one":
                self.w(l.f, "segs", segs[:-1]); return segs[-1][1]
            if k >= 0 and all(s[0] == "one" for s in segs[:k + 1]) and len(segs) > k:
                self.w(l.f, "segs", segs[:k] + segs[k + 1:]); return segs[k][1]
            if k in (0, -1):
                v = self.index(l, k, node)
                r = self.slice(l, 1 if k == 0 else None, -1 if k == -1 else None, None, node)
                self.w(l.f, "segs", r.f["segs"]); return v
        if not segs: raise RaiseX("IndexError", None, node)
        if isinstance(k, Term) and len(segs) == 1 and segs[0][0] in ("star", "pre"):
            v = self.index(l, k, node)
            fz = self.freeze(l)
            self.w(l.f, "segs", (Pre(T("without_idx", fz, k)),)); return v
        raise Und("pop", node)
    if name == "index":
        x = args[0]
        for j, s in enumerate(segs):
            if s[0] != "one": break
            c = self.eq_cond(s[1], x)
            if c is True or (not isinstance(c, bool) and self.branch(c, node)): return j
        else: raise RaiseX("ValueError", None, node)
        return T("index", self.freeze(l), self.freeze(x))
    if name == "count":
        cell = Obj(); cell.f["n"] = 0
        x = args[0]
        def body(y):
            if self.branch(self.eq_cond(x, y), node): self.w(cell.f, "n", padd(cell.f["n"], 1))
        self.loop_over(l, body, node)
        return cell.f["n"]
    if name == "remove":
        x = args[0]
        for j, s in enumerate(segs):
            if s[0] != "one": break
            c = self.eq_cond(s[1], x)
            if c is True or (not isinstance(c, bool) and self.branch(c, node)):
                self.w(l.f, "segs", segs[:j] + segs[j + 1:]); return None
        else: raise RaiseX("ValueError", None, node)
        self.w(l.f, "segs", (Pre(T("without", self.freeze(l), self.freeze(x))),)); return None
    if name == "reverse":
        self.w(l.f, "segs", self.reverse(l).f["segs"]); return None
    if name == "sort":
        r = self.sort_known(segs, args, kw, node)
        if r is not None:
            self.w(l.f, "segs", tuple(r)); return None
        self.w(l.f, "segs", (Pre(T("sortedl", self.freeze(l), *([self.freeze(a) for a in args] + [T("kw", k, self.freeze(x)) for k, x in sorted(kw.items())]))),)); return None
    if name == "copy": raise RaiseX("AttributeError", name, node)
    raise Und("list.%s" % name, node)

@meth
def set_method(self, s, name, args, node):
    if isinstance(s, Term):
        sh = self.S["shadow"].get(s)
        if isinstance(sh, SetObj): s = sh
    def fz(x): return x if isinstance(x, Term) else self.freeze(x if isinstance(x, SetObj) else self.call_builtin("set", [x], {}, node))
    if name in ("add", "discard", "remove", "update", "pop", "clear", "intersection_update", "difference_update") and isinstance(s, SetObj):
        self.event("mutate", s, name, (), node)
    if name == "add": self.set_add(s, args[0]); return None
    if name == "copy":
        o = SetObj(s.f["segs"] if isinstance(s, SetObj) else self.segs_of(s)); o.sorted = getattr_sorted(s); o.key = getattr(s, "key", None) if isinstance(s, SetObj) else None
        return o
    if name in ("update", "intersection_update", "difference_update") and isinstance(s, SetObj):
        if name == "update":
            if all(x[0] == "one" for x in s.f["segs"]):
                for y in self.segs_of(args[0], node):
                    if y[0] == "one": self.set_add(s, y[1])
                    else: self.w(s.f, "segs", s.f["segs"] + (y,))
            else: self.w(s.f, "segs", s.f["segs"] + tuple(self.segs_of(args[0], node)))
            return None
        r = self.set_method(s, {"intersection_update": "intersection", "difference_update": "difference"}[name], args, node)
        r = r if isinstance(r, SetObj) else SetObj(self.segs_of(r))
        self.w(s.f, "segs", r.f["segs"]); return None
    if name in ("intersection", "difference", "union", "symmetric_difference"):
        a = fz(s); b = fz(args[0])
        ca = a.op == "setc"; cb = b.op == "setc"
        if ca and cb:
            A, B = a.args[0], b.args[0]
            R = {"intersection": A & B, "difference": A - B, "union": A | B, "symmetric_difference": A ^ B}[name]
            return self.thaw(T("setc", frozenset(R)))
        if name == "intersection":
            return self.thaw(set_inter(a, b))
        if name == "union" and isinstance(s, SetObj): 
            o = SetObj(s.f["segs"])
            self.set_method(o, "update", [args[0]], node); return o
        if name == "difference":
            out = SetObj()
            def body(x):
                if not self.branch(self.contains(x, args[0], node), node): self.set_add(out, x)
            self.loop_over(s, body, node)
            return out
        return T("setop", name, a, b)
    if name in ("remove", "discard") and isinstance(s, SetObj):
        segs = s.f["segs"]
        x = args[0]
        for j, y in enumerate(segs):
            if y[0] == "one":
                c = self.eq_cond(y[1], x)
                if c is True or (not isinstance(c, bool) and self.branch(c, node)):
                    self.w(s.f, "segs", segs[:j] + segs[j + 1:]); return None
        if all(y[0] == "one" for y in segs):
            if name == "remove": raise RaiseX("KeyError", None, node)
            return None
        # filter the summarised part
        fx = self.freeze(x)
        out = []
        for y in self.expand_pre(segs):
            if y[0] == "one": out.append(y); continue
            _, bv, lo, hi, cases = y
            nc = []
            for g, xs in cases:
                if len(xs) != 1 or xs[0][0] != "one": raise Und("set remove", node)
                nc.append((b_and(g, b_not(self.eq_cond(xs[0][1], fx))), xs))
            out.append(Star(bv, lo, hi, nc))
        self.w(s.f, "segs", tuple(out)); return None
    if name == "clear": self.w(s.f, "segs", ()); return None
    if name == "pop":
        segs = s.f["segs"] if isinstance(s, SetObj) else None
        if segs is not None and len(segs) == 1 and segs[0][0] == "one" :
            self.w(s.f, "segs", ()); return segs[0][1]
        o = self.ordered(s) if getattr_sorted(s) else None
        if o is not None and (not args or isinstance(args[0], int)):
            os = o.f["segs"]; i = args[0] if args else -1
            if not -len(os) <= i < len(os): raise RaiseX("IndexError" if os else "KeyError", None, node)
            i %= len(os)
            self.w(s.f, "segs", os[:i] + os[i + 1:]); return os[i][1]
        t = T("sortedl" if getattr_sorted(s) else "setel", self.freeze(s))
        k = args[0] if args else 0
        if isinstance(s, SetObj): self.w(s.f, "segs", (Pre(T("without_idx", t, k)),))
        return at(t, k)
    if name == "issubset":
        ok = True
        def body(x):
            if not self.branch(self.contains(x, args[0], node), node): raise BrkX()
        try: self.loop_over(s, body, node)
        except BrkX: return False
        return True
    if name == "issuperset":
        return self.set_method(args[0] if isinstance(args[0], SetObj) else self.call_builtin("set", [args[0]], {}, node), "issubset", [s], node)
    if name == "isdisjoint":
        def body(x):
            if self.branch(self.contains(x, args[0], node), node): raise BrkX()
        try: self.loop_over(s, body, node)
        except BrkX: return False
        return True
    raise Und("set.%s" % name, node)

def getattr_sorted(s): return isinstance(s, SetObj) and s.sorted

def set_inter(a, b):
    if a.op == "setc" and b.op == "setc": return T("setc", a.args[0] & b.args[0])
    if a.op == "setc": a, b = b, a
    if b.op == "setc":
        if a.op == "inter": return T("inter", a.args[0], a.args[1] & b.args[0])
        return T("inter", a, b.args[0])
    return T("setop", "intersection", *sorted((a, b), key=lambda t: t.uid))

def nested_ents(e, f):
    if e[0] == "kv": return One(f(e[1], e[2]))
    if e[0] == "star": return Star(e[1], e[2], e[3], [(g, (One(f(k, v)),)) for g, k, v in e[4]])
    if e[0] == "nstar": return Star(e[1], e[2], e[3], [(g, tuple(nested_ents(x, f) for x in es)) for g, es in e[4]])
    raise Und("dict entries")
Interp.nested_ents = staticmethod(nested_ents)
@meth
def dict_method(self, d, name, args, kw, node):
    if name in ("setdefault", "pop", "popitem", "update", "clear"): self.event("mutate", d, name, tuple(self.freeze(a) for a in args), node)
    if name in ("has_key", "__contains__"): return self.contains(args[0], d, node)
    if name in ("keys", "iterkeys", "viewkeys"): return ListObj(self.segs_of(d, node))
    if name in ("values", "itervalues", "items", "iteritems"):
        out = []
        for e in d.f["ents"]:
            pair = name in ("items", "iteritems")
            if e[0] == "kv": out.append(One(TupV([e[1], e[2]]) if pair else e[2]))
            elif e[0] == "star":
                out.append(Star(e[1], e[2], e[3], [(g, (One(T("tup", k, v) if pair else v),)) for g, k, v in e[4]]))
            elif e[0] == "nstar": out.append(nested_ents(e, lambda k, v: T("tup", k, v) if pair else v))
            else:
                t = T("keys", e[1]); bv = T("b", 1 + bdepth(t))
                k = at(t, bv); v = at(e[1], k)
                out.append(Star(bv, 0, length(t), [(True, (One(T("tup", k, v) if pair else v),))]))
        return ListObj(out)
    if name == "get":
        r = self.dict_find(d, args[0], node)
        if r[0] == "hit": return r[2]
        if r[0] == "term": return r[1]
        dflt = args[1] if len(args) > 1 else None
        if r[0] == "base":
            if self.branch(T("in", self.freeze(args[0]), r[1]), node): return self.index_base(r[1], args[0], node)
        return dflt
    if name == "copy":
        return DictObj(d.f["ents"], d.default, tag="copy")
    if name == "setdefault":
        r = self.dict_find(d, args[0], node)
        if r[0] == "hit": return r[2]
        if r[0] == "base" and self.branch(T("in", self.freeze(args[0]), r[1]), node): return self.index_base(r[1], args[0], node)
        v = args[1] if len(args) > 1 else None
        self.dict_set(d, args[0], v, node); return v
    if name == "update":
        if args:
            x = args[0]
            if isinstance(x, DictObj):
                for e in x.f["ents"]:
                    if e[0] == "kv": self.dict_set(d, e[1], e[2], node)
                    else: self.w(d.f, "ents", d.f["ents"] + (e,))
                return None
            raise Und("dict.update", node)
        for k, v in sorted(kw.items()): self.dict_set(d, k, v, node)
        return None
    if name == "pop":
        try: return self.dict_del(d, args[0], node)
        except RaiseX:
            if len(args) > 1: return args[1]
            raise
    if name == "clear": self.w(d.f, "ents", ()); return None
    raise Und("dict.%s" % name, node)

@meth
def str_method(self, v, name, args, kw, node):
    if name == "join":
        segs = self.segs_of(args[0], node)
        if all(s[0] == "one" and isinstance(s[1], str) for s in segs): return v.join(s[1] for s in segs)
        return T("sjoin", v, self.freeze(args[0] if not isinstance(args[0], TupV) else ListObj(segs)))
    if name == "format": return T("fmt", v, *[self.freeze(a) for a in args])
    if all(is_const(a) for a in args):
        try: r = getattr(str, name)(v, *args) if False else str.__dict__[name](v, *args)
        except KeyError: raise RaiseX("AttributeError", name, node)
        if isinstance(r, list): return ListObj([One(x) for x in r])
        if isinstance(r, tuple): return TupV(r)
        return r
    return T("smeth", name, v, *[self.freeze(a) for a in args])

# =================================================================== external functions
@meth
def call_ext(self, name, args, kw, node):
    h = self.handlers.get(name)
    pn = pyp().split(name)
    if pn is not None and h is None: return pyp().construct(self, pn, args, kw, node)
    if h is None:
        # longest suffix "*.x" handlers
        h = self.handlers.get("*." + name.split(".")[-1])
    if h is not None:
        r = h(self, args, kw, node)
        if r is not NotImplemented: return r
    if name in CLASS_KINDS and len(CLASS_KINDS[name]) == 1 and CLASS_KINDS[name][0] in ("Le", "Lt", "Eq", "Ne", "Ge", "Gt"):
        if len(args) == 2: return T("rel", CLASS_KINDS[name][0], self.freeze(args[0]), self.freeze(args[1]))
    fa = [self.freeze(a) for a in args] + [T("kw", k, self.freeze(v)) for k, v in sorted(kw.items())]
    self.event("ext", name, tuple(fa), node)
    return T("ext", name, *fa)

@handler("fractions.Fraction", "Fraction")
def h_fraction(self, args, kw, node):
    if all(is_num(a) for a in args):
        if len(args) == 1: r = Fraction(args[0])
        elif args[1] == 0: raise RaiseX("ZeroDivisionError", None, node)
        else: r = Fraction(args[0]) / Fraction(args[1])
        return r
    if len(args) == 2 and all(arith_ok(a) for a in args): return pdiv(args[0], args[1])
    if len(args) == 1 and arith_ok(args[0]): return args[0]
    return NotImplemented

@handler("os.path.join")
def h_join(self, args, kw, node):
    parts = []
    for a in args:
        a = self.freeze(a)
        if isinstance(a, Term) and a.op == "join": parts += list(a.args)
        elif isinstance(a, str): parts += [p for p in a.split("/")] if "/" in a.strip("/") else [a]
        else: parts.append(a)
    return T("join", *parts)

@handler("sympy.Integer", "sympy.Float", "sympy.Rational", "sympy.sympify", "sympy.S")
def h_sint(self, args, kw, node):
    if len(args) == 1 and is_num(args[0]): return args[0]
    if len(args) == 2 and all(is_num(a) for a in args): return Fraction(args[0]) / Fraction(args[1])
    return NotImplemented

@handler("sympy.sign")
def h_sign(self, args, kw, node):
    if arith_ok(args[0]): return sign_of(args[0])
    return NotImplemented

@handler("collections.defaultdict", "defaultdict")
def h_dd(self, args, kw, node):
    d = DictObj((), args[0] if args else None)
    return d

@handler("blist.sortedset", "sortedset")
def h_sortedset(self, args, kw, node):
    s = self.call_builtin("set", args[:1], {}, node) if args else SetObj()
    s.sorted = True
    s.key = kw.get("key")
    return s

@handler("itertools.chain")
def h_chain(self, args, kw, node):
    out = ListObj()
    for a in args: self.w(out.f, "segs", out.f["segs"] + tuple(self.segs_of(a, node)))
    return out
@handler("itertools.imap")
def h_imap(self, args, kw, node): return self.call_builtin("map", args, {}, node)
@handler("itertools.ifilter")
def h_ifilter(self, args, kw, node): return self.call_builtin("filter", args, {}, node)
@handler("itertools.izip")
def h_izip(self, args, kw, node): return self.call_builtin("zip", args, {}, node)
@handler("operator.mul")
def h_opmul(self, args, kw, node): return self.binop("Mult", args[0], args[1], node)
@handler("operator.add")
def h_opadd(self, args, kw, node): return self.binop("Add", args[0], args[1], node)
@handler("operator.neg")
def h_opneg(self, args, kw, node): return pneg(args[0])
@handler("functools.reduce")
def h_reduce(self, args, kw, node): return self.call_builtin("reduce", args, {}, node)
@handler("copy.copy")
def h_copy(self, args, kw, node):
    v = args[0]
    if isinstance(v, ListObj): return ListObj(v.f["segs"])
    if isinstance(v, DictObj): return DictObj(v.f["ents"], v.default)
    if isinstance(v, SetObj): return self.set_method(v, "copy", [], node)
    if isinstance(v, Term): return self.call_method(v, "copy", [], {}, node)
    return NotImplemented
@handler("copy.deepcopy")
def h_deepcopy(self, args, kw, node):
    v = args[0]
    f = self.freeze(v)
    if isinstance(v, Term): return self.call_method(v, "copy", [], {}, node)
    return self.thaw(f)
@handler("time.time")
def h_time(self, args, kw, node): return self.fresh("time")
@handler("sys.setrecursionlimit")
def h_rec(self, args, kw, node): return None
@handler("sys.stdout.write", "sys.stdout.flush", "sys.stderr.write")
def h_out(self, args, kw, node):
    self.event("out", tuple(self.freeze(a) for a in args), node)
    return None

@handler("sympy.var")
def h_var(self, args, kw, node):
    """sympy.var injects the names into the globals of the calling function's module"""
    if len(args) == 1 and isinstance(args[0], str) and not kw and args[0].replace("_", "a").isalnum():
        v = T("ext", "sympy.Symbol", args[0])
        self.event("ext", "sympy.var", tuple(args), node)
        if self.modstack and self.modstack[-1] is not None: self.w(self.modstack[-1].f, args[0], v)
        return v
    if len(args) == 1 and isinstance(args[0], Term): self.event("ext", "sympy.var", tuple(args), node); return T("ext", "sympy.Symbol", args[0])
    return NotImplemented
