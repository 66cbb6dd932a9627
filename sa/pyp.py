"""Model of pyparsing parser elements: grammars are extracted as data from the sources (which elements are built, combined,
named, suppressed and given which actions) and their productions are expanded on given sentence shapes."""
from .interp import *
from . import interp2 as _i2

ALPHAS = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz"
NUMS = "0123456789"
CONSTS = {"alphas": ALPHAS, "nums": NUMS, "alphanums": ALPHAS + NUMS, "hexnums": NUMS + "ABCDEFabcdef",
          "printables": "".join(chr(c) for c in range(33, 127))}
PREFIXES = ("pyparsing.", "matplotlib.pyparsing_py2.", "matplotlib.pyparsing.", "matplotlib.pyparsing_py3.")

class PE(Obj):
    kind = "pe"
    def __init__(self, op, *args):
        Obj.__init__(self)
        self.op = op
        self.f = FDict(self)
        self.f["args"] = tuple(args); self.f["acts"] = (); self.f["name"] = None; self.f["ws"] = True; self.f["listall"] = False; self.f["savelist"] = op in ("And", "Group")
class Res(ListObj):
    """parse results: tokens plus named results"""
    def __init__(self, toks=(), names=()):
        ListObj.__init__(self, [One(t) for t in toks]); self.names = dict(names); self.tag = "parse results"
    def toks(self): return [s[1] for s in self.f["segs"]]

class Fail(Exception): pass

def split(name):
    for p in PREFIXES:
        if name.startswith(p): return name[len(p):]
    return None

def const(name):
    s = split(name)
    return CONSTS.get(s) if s else None

def pe_of(v, node):
    if isinstance(v, PE): return v
    if isinstance(v, str): return PE("Literal", v)
    raise Und("parser element %r" % (v,), node)

def copy(p):
    c = PE(p.op); c.f.update(p.f); return c

def construct(I, cls, args, kw, node):
    if any(isinstance(a, Term) for a in args): raise Und("pyparsing argument", node)
    if cls in ("Literal", "Keyword", "CaselessLiteral"):
        if len(args) > 1 or kw: raise Und("pyparsing %s options" % cls, node)
        return PE(cls, args[0])
    if cls == "Word":
        a = list(args)
        if kw: raise Und("Word options", node)
        if len(a) > 2: raise Und("Word options", node)
        return PE("Word", a[0], a[1] if len(a) > 1 and a[1] else a[0])
    if cls == "QuotedString":
        q = kw.get("quoteChar", args[0] if args else None)
        return PE("QuotedString", q, bool(kw.get("multiline", False)))
    if cls in ("Suppress", "Group", "Optional", "ZeroOrMore", "OneOrMore", "FollowedBy", "NotAny"):
        if kw or len(args) != 1: raise Und("pyparsing %s options" % cls, node)
        return PE(cls, pe_of(args[0], node))
    if cls == "Combine":
        if kw or len(args) != 1: raise Und("pyparsing %s options" % cls, node)
        return PE("Combine", leave_ws(pe_of(args[0], node)))
    if cls == "Forward":
        return PE("Forward", pe_of(args[0], node)) if args else PE("Forward", None)
    if cls in ("And", "MatchFirst", "Or"):
        return PE(cls, *[pe_of(s[1], node) for s in I.segs_of(args[0], node)])
    if cls == "oneOf":
        xs = args[0].split() if isinstance(args[0], str) else [s[1] for s in I.segs_of(args[0], node)]
        xs = sorted(xs, key=lambda x: -len(x))
        return PE("MatchFirst", *[PE("Literal", x) for x in xs])
    if cls == "StringEnd": return PE("StringEnd")
    if cls in ("Empty", "empty"): return PE("Empty")
    raise Und("pyparsing.%s" % cls, node)

def leave_ws(p):
    c = copy(p); c.f["ws"] = False
    if c.op in ("And", "MatchFirst", "Or", "Optional", "Group", "Suppress", "ZeroOrMore", "OneOrMore", "Combine"):
        c.f["args"] = tuple(leave_ws(x) for x in c.f["args"])
    return c

def binop(I, op, a, b, node):
    if op == "LShift":
        if isinstance(a, PE) and a.op == "Forward":
            I.w(a.f, "args", (pe_of(b, node),)); return a
        raise Und("<<", node)
    if op in ("Add", "Sub"): return PE("And", pe_of(a, node), pe_of(b, node))
    if op == "BitOr": return PE("MatchFirst", pe_of(a, node), pe_of(b, node))
    if op == "BitXor": return PE("Or", pe_of(a, node), pe_of(b, node))
    if op == "Mult":
        if isinstance(b, int) and b >= 1: return PE("And", *([pe_of(a, node)] * b))
    raise Und("operator %s on parser elements" % op, node)

def method(I, p, name, args, kw, node):
    if name in ("setParseAction", "addParseAction"):
        if kw: raise Und("parse action options", node)
        I.w(p.f, "acts", (() if name.startswith("set") else p.f["acts"]) + tuple(args)); return p
    if name == "suppress": return PE("Suppress", copy(p))
    if name == "copy": return copy(p)
    if name in ("setResultsName", "__call__"):
        c = copy(p); nm = args[0] if args else kw.get("name")
        la = bool(kw.get("listAllMatches", args[1] if len(args) > 1 else False))
        if isinstance(nm, str) and nm.endswith("*"): nm = nm[:-1]; la = True
        c.f["name"] = nm; c.f["listall"] = la
        if c.op in ("ZeroOrMore", "OneOrMore"): c.f["savelist"] = True
        return c
    if name in ("setName", "setDebug", "streamline", "validate", "enablePackrat", "parseWithTabs"): return p
    if name == "leaveWhitespace": return leave_ws(p)
    if name in ("parseString", "scanString", "searchString", "transformString", "parseFile"):
        if name == "parseString" and args and isinstance(args[0], str) and I.handlers.get("parse:now"):
            k, r = expand(I, p, args[0], bool(kw.get("parseAll", args[1] if len(args) > 1 else False)))
            if k == "fail": raise RaiseX("ParseException", None, node)
            return r
        fa = tuple(I.freeze(a) for a in args) + tuple(T("kw", k, I.freeze(v)) for k, v in sorted(kw.items()))
        I.event("parse", p, name, fa, node)
        return T("mcall", T("func", Box(p)), name, *fa)
    raise Und("pyparsing method %s" % name, node)

WS = " \n\t\r"
def savelist(p, depth=0):
    if p.f["savelist"]: return True
    if p.op in ("Forward", "Optional", "ZeroOrMore", "OneOrMore") and p.f["args"] and p.f["args"][0] is not None and depth < 20: return savelist(p.f["args"][0], depth + 1)
    return False

class Parser(object):
    """one expansion of the extracted grammar over a sentence shape"""
    def __init__(self, I, text): self.I = I; self.s = text; self.n = 0
    def wrap(self, toks, names, p, aslist, single=False):
        r = Res(toks, names)
        nm = p.f["name"]
        if nm and toks:
            if aslist: v = toks[0] if single and isinstance(toks[0], Res) else Res(toks, names)
            else: v = toks[0]
            r.names[nm] = v
        return r
    def parse(self, p, loc):
        self.n += 1
        if self.n > 20000: raise Und("grammar expansion too deep")
        s = self.s
        if p.f["ws"] and p.op != "Combine" or p.op == "Combine":
            while loc < len(s) and s[loc] in WS: 
                if not p.f["ws"] and p.op != "Combine": break
                loc += 1
        start = loc
        loc, toks, names, single = self.impl(p, loc)
        r = self.wrap(toks, names, p, savelist(p), single)
        for a in p.f["acts"]:
            v = self.act(a, start, r)
            if v is not None:
                if isinstance(v, Res): r = v if not p.f["name"] else self.wrap(v.toks(), v.names, p, savelist(p))
                elif isinstance(v, ListObj):
                    ts = [x[1] for x in v.f["segs"]]
                    r = self.wrap(ts, {}, p, savelist(p))
                else: r = self.wrap([v], {}, p, False)
        return loc, r
    def act(self, a, loc, r):
        I = self.I
        fn = a
        n = 3
        if isinstance(fn, Bound) and isinstance(fn.fn, FuncVal): n = len(fn.fn.args.args) - 1
        elif isinstance(fn, FuncVal): n = len(fn.args.args)
        elif isinstance(fn, (ExtVal, Builtin, ClassVal)): raise Und("parse action %r" % (fn,))
        if n > 3: raise Und("parse action arity")
        args = [self.s, loc, r][3 - n:]
        return I.call(fn, args)
    def impl(self, p, loc):
        s, a = self.s, p.f["args"]
        op = p.op
        if op in ("Literal", "CaselessLiteral"):
            if a[0] == "": return loc, [], {}, False
            t = s[loc:loc + len(a[0])]
            if t == a[0] or (op == "CaselessLiteral" and t.upper() == a[0].upper()): return loc + len(a[0]), [a[0]], {}, False
            raise Fail()
        if op == "Keyword":
            ident = ALPHAS + NUMS + "_$"; e = loc + len(a[0])
            if s.startswith(a[0], loc) and (e >= len(s) or s[e] not in ident) and (loc == 0 or s[loc - 1] not in ident): return e, [a[0]], {}, False
            raise Fail()
        if op == "Word":
            if loc >= len(s) or s[loc] not in a[0]: raise Fail()
            e = loc + 1
            while e < len(s) and s[e] in a[1]: e += 1
            return e, [s[loc:e]], {}, False
        if op == "QuotedString":
            q = a[0]
            if not s.startswith(q, loc): raise Fail()
            e = s.find(q, loc + len(q))
            if e < 0: raise Fail()
            body = s[loc + len(q):e]
            if not a[1] and "\n" in body: raise Fail()
            return e + len(q), [body], {}, False
        if op == "StringEnd":
            if loc < len(s): raise Fail()
            return loc, [], {}, False
        if op == "Empty": return loc, [], {}, False
        if op == "And":
            toks, names = [], {}
            for x in a:
                loc, r = self.parse(x, loc); toks += r.toks(); names.update(r.names)
            return loc, toks, names, False
        if op == "MatchFirst":
            for x in a:
                try: loc2, r = self.parse(x, loc)
                except Fail: continue
                return loc2, r.toks(), r.names, False
            raise Fail()
        if op == "Or":
            best = None
            for x in a:
                try: loc2, r = self.parse(x, loc)
                except Fail: continue
                if best is None or loc2 > best[0]: best = (loc2, r)
            if best is None: raise Fail()
            return best[0], best[1].toks(), best[1].names, False
        if op == "Forward":
            if not a or a[0] is None: raise Fail()
            loc, r = self.parse(a[0], loc); return loc, r.toks(), r.names, False
        if op == "Suppress":
            loc, r = self.parse(a[0], loc); return loc, [], {}, False
        if op == "Group":
            loc, r = self.parse(a[0], loc); return loc, [r], {}, True
        if op == "Optional":
            try: loc, r = self.parse(a[0], loc)
            except Fail: return loc, [], {}, False
            return loc, r.toks(), r.names, False
        if op in ("ZeroOrMore", "OneOrMore"):
            toks, names = [], {}
            k = 0
            while True:
                try: loc2, r = self.parse(a[0], loc)
                except Fail: break
                if loc2 == loc and not r.toks(): break
                loc = loc2; toks += r.toks(); names.update(r.names); k += 1
            if op == "OneOrMore" and k == 0: raise Fail()
            return loc, toks, names, False
        if op == "Combine":
            loc, r = self.parse(a[0], loc)
            if not all(isinstance(t, str) for t in r.toks()): raise Und("Combine of computed tokens")
            return loc, ["".join(r.toks())], {}, False
        if op == "FollowedBy":
            self.parse(a[0], loc); return loc, [], {}, False
        if op == "NotAny":
            try: self.parse(a[0], loc)
            except Fail: return loc, [], {}, False
            raise Fail()
        raise Und("parser element %s" % op)

def expand(I, p, text, all_=True):
    """('ok', Res) | ('fail', position) of reading text with element p"""
    P = Parser(I, text)
    try: loc, r = P.parse(p, 0)
    except Fail: return ("fail", 0)
    if all_ and text[loc:].strip(): return ("fail", loc)
    return ("ok", r)

def res_method(I, r, name, args, kw, node):
    if name == "asList":
        return ListObj([One(res_method(I, t, "asList", [], {}, node) if isinstance(t, Res) else t) for t in r.toks()])
    if name == "get":
        return r.names.get(args[0], args[1] if len(args) > 1 else None)
    if name == "getName": raise Und("getName", node)
    if name == "keys": return ListObj([One(k) for k in r.names])
    if name == "copy": return Res(r.toks(), r.names)
    return NotImplemented
