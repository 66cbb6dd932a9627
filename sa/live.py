"""Live variables of function bodies (structured backward dataflow), for loops: what may still be read after, or at the head of, a loop."""
from .front import Node

def kids(n):
    for v in n.d.values():
        if isinstance(v, Node): yield v
        elif isinstance(v, list):
            for x in v:
                if isinstance(x, Node): yield x
                elif isinstance(x, list):
                    for y in x:
                        if isinstance(y, Node): yield y
def loads(n, out=None):
    """every name occurring in an expression or statement, stores included (over-approximation of reads)"""
    if out is None: out = set()
    if n is None: return out
    if n._t == "Name": out.add(n.id)
    for k in kids(n): loads(k, out)
    return out
def captured(n, out):
    """names read by nested functions"""
    if n._t in ("FunctionDef", "ClassDef", "GeneratorExp"): loads(n, out); return
    if n._t == "Lambda":
        own = set()
        for p in n.args.args: loads(p, own)
        out |= loads(n.body) - own
        for d in n.args.get("defaults") or []: loads(d, out)
        return
    if n._t == "Call" and n.func._t == "Name" and n.func.id in ("map", "filter", "reduce", "any", "all", "sum", "sorted", "max", "min", "list", "set"):
        # run at once by the builtin: an ordinary use (counted by loads), nothing is kept
        for a in n.args:
            if a._t == "Lambda": captured(a.body, out)
            elif a._t == "GeneratorExp":
                for k in kids(a): captured(k, out)
            else: captured(a, out)
        return
    for k in kids(n): captured(k, out)
def names_of(t):
    if t._t == "Name": return {t.id}
    if t._t in ("Tuple", "List"):
        r = set()
        for e in t.elts: r |= names_of(e)
        return r
    return set()

class Live(object):
    def __init__(self, fn):
        self.loops = {}
        self.always = set()
        for s in fn.body: captured(s, self.always)
        self.globals = set()
        self.brk = []; self.exc = [set()]
        self.block(fn.body, set())
    def tstore(self, t, out):
        """(names read by a target, names written)"""
        if t._t == "Name": return out - {t.id}
        if t._t in ("Tuple", "List"):
            for e in t.elts: out = self.tstore(e, out)
            return out
        return out | loads(t)
    def block(self, body, out):
        for s in reversed(body or []): out = self.stmt(s, out)
        return out
    def stmt(self, s, out):
        t = s._t
        e = set().union(*self.exc)         # whatever may be read by an enclosing handler stays live
        if t == "Assign":
            o = out
            for x in s.targets: o = self.tstore(x, o)
            return o | loads(s.value) | e
        if t == "AugAssign": return out | loads(s.target) | loads(s.value) | e
        if t == "If":
            return loads(s.test) | self.block(s.body, out) | self.block(s.orelse, out) | e
        if t in ("For", "While"):
            after = self.block(s.orelse, out)
            head = set(after)
            for _ in range(30):
                self.brk.append((out, head))
                b = self.block(s.body, set(head))
                self.brk.pop()
                if t == "For": new = after | (b - names_of(s.target)) | (loads(s.target) - names_of(s.target))
                else: new = after | b | loads(s.test)
                new |= head
                if new == head: break
                head = new
            self.loops[id(s)] = (after | e, head | e, e)
            return head | e | (loads(s.iter) if t == "For" else set())
        if t == "Break": return set(self.brk[-1][0]) | e if self.brk else out
        if t == "Continue": return set(self.brk[-1][1]) | e if self.brk else out
        if t == "Return": return loads(s) | e
        if t == "Raise": return loads(s) | e
        if t == "TryExcept":
            hs = set()
            for h in s.handlers: hs |= (self.block(h.body, out) - (names_of(h.name) if h.get("name") is not None else set())) | loads(h.get("type"))
            oe = self.block(s.orelse, out)
            self.exc.append(hs | out)
            b = self.block(s.body, oe)
            self.exc.pop()
            return b | hs | e
        if t == "TryFinally":
            f = self.block(s.finalbody, out)
            self.exc.append(f)
            b = self.block(s.body, f)
            self.exc.pop()
            return b | f | e
        return out | loads(s) | e

CACHE = {}
def loop_live(fn, s):
    """(live after, live at head) of loop s, or None when unknown"""
    if fn is None or fn._t != "FunctionDef": return None
    r = CACHE.get(id(fn))
    if r is None or r[0] is not fn:
        try: r = (fn, Live(fn))
        except Exception: r = (fn, None)
        CACHE[id(fn)] = r
    if r[1] is None or id(s) not in r[1].loops: return None
    a, h, e = r[1].loops[id(s)]
    return a | r[1].always, h | r[1].always, e | r[1].always
