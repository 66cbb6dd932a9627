#!/usr/bin/env python3
"""Self-test of the analyser (not of /repo): random small programs are summarised and the summaries' instances are
compared with what Python computes for the same inputs.  usage: fuzz_engine.py [first seed] [count]"""
import sys, os, random, threading, types
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE); sys.dont_write_bytecode = True
from sa import front, registry, spec3
from sa.check import *
from sa.interp import set_deadline

class G(object):
    def __init__(self, r): self.r = r; self.n = 0
    def num(self, sc, d=0):
        r = self.r; k = r.random()
        ints = [v for v, t in sc.items() if t == "int"]; lists = [v for v, t in sc.items() if t == "list"]
        if k < .4 and ints: return r.choice(ints)
        if k < .55: return str(r.randint(-2, 3))
        if k < .65 and lists: return "len(%s)" % r.choice(lists)
        if k < .72 and lists: return "sum(%s)" % r.choice(lists)
        if d < 2 and k < .9: return "(%s %s %s)" % (self.num(sc, d + 1), r.choice(["+", "-", "*", "+"]), self.num(sc, d + 1))
        return r.choice(ints) if ints else "1"
    def cond(self, sc, d=0):
        r = self.r; k = r.random()
        lists = [v for v, t in sc.items() if t == "list"]; dicts = [v for v, t in sc.items() if t == "dict"]
        if k < .1 and lists: return "%s in %s" % (self.num(sc), r.choice(lists))
        if k < .2 and dicts: return "%s in %s" % (self.num(sc), r.choice(dicts))
        if k < .3 and d < 2: return "(%s %s %s)" % (self.cond(sc, d + 1), r.choice(["and", "or"]), self.cond(sc, d + 1))
        if k < .35 and d < 2: return "not (%s)" % self.cond(sc, d + 1)
        if k < .4 and lists: return "%s(%s %s 0 for z in %s)" % (r.choice(["any", "all"]), "z", r.choice(["<", ">", "=="]), r.choice(lists))
        return "%s %s %s" % (self.num(sc), r.choice(["<", "<=", "==", "!=", ">"]), self.num(sc))
    def lst(self, sc):
        r = self.r; lists = [v for v, t in sc.items() if t == "list"]
        k = r.random()
        if k < .3: return "[]"
        if k < .5: return "[%s]" % self.num(sc)
        if k < .65: return "list(%s)" % r.choice(lists)
        if k < .75: return "%s[%s]" % (r.choice(lists), r.choice(["1:", ":-1"]))
        s2 = dict(sc); s2["z"] = "int"
        return "[%s for z in %s%s]" % (self.num(s2), r.choice(lists), "" if r.random() < .5 else " if " + self.cond(s2))
    def block(self, sc, ind, depth, loop, out):
        r = self.r
        for _ in range(r.randint(1, 3)):
            k = r.random(); p = "    " * ind
            ints = [v for v, t in sc.items() if t == "int" and v.startswith("v")]; lists = [v for v, t in sc.items() if t == "list" and v.startswith("w")]; dicts = [v for v, t in sc.items() if t == "dict"]
            if k < .2 and ints: out.append(p + "%s %s %s" % (r.choice(ints), r.choice(["=", "+=", "+=", "-="]), self.num(sc)))
            elif k < .36 and lists: out.append(p + "%s.append(%s)" % (r.choice(lists), self.num(sc)))
            elif k < .44 and dicts: out.append(p + "%s[%s] = %s" % (r.choice(dicts), self.num(sc), self.num(sc)))
            elif k < .5 and lists: out.append(p + "%s = %s" % (r.choice(lists), self.lst(sc)))
            elif k < .7 and depth < 3:
                out.append(p + "if %s:" % self.cond(sc))
                self.block(sc, ind + 1, depth + 1, loop, out)
                if r.random() < .4:
                    out.append(p + "else:"); self.block(sc, ind + 1, depth + 1, loop, out)
            elif k < .82 and depth < 2:
                self.n += 1; v = "x%d" % self.n
                alll = [w for w, t in sc.items() if t == "list"]
                it = r.choice(alll) if r.random() < .75 else "range(%s)" % self.num(sc)
                if r.random() < .2: v2 = "y%d" % self.n; out.append(p + "for %s, %s in enumerate(%s):" % (v2, v, it)); s2 = dict(sc); s2[v] = s2[v2] = "int"
                else: out.append(p + "for %s in %s:" % (v, it)); s2 = dict(sc); s2[v] = "int"
                if it.startswith("w"): s2 = {a: b for a, b in s2.items() if a != it}
                self.block(s2, ind + 1, depth + 1, True, out)
            elif k < .9 and loop: out.append(p + r.choice(["break", "continue"])) ; return
            elif k < .95: out.append(p + "return %s" % self.ret(sc)); return
            else: out.append(p + "raise ValueError()" if r.random() < .3 else p + "pass")
    def ret(self, sc):
        r = self.r
        c = [v for v in sc if v[0] in "vwd"]
        return "(%s)" % ", ".join(c[:] or ["0"]) if r.random() < .6 else r.choice(c + [self.num(sc)])
    def prog(self):
        sc = {"a": "list", "b": "list", "n": "int"}
        out = ["def f(a, b, n):", "    v1 = 0", "    v2 = n", "    w1 = []", "    w2 = []"]
        sc.update(v1="int", v2="int", w1="list", w2="list")
        if self.r.random() < .4: out.append("    d1 = {}"); sc["d1"] = "dict"
        for _ in range(self.r.randint(1, 3)): self.block(sc, 1, 0, False, out)
        out.append("    return %s" % ("(" + ", ".join(v for v in sc if v[0] in "vwd") + ")" if self.r.random() < .7 else self.ret(sc)))
        return "\n".join(out) + "\n"

def norm(v):
    if isinstance(v, (list, tuple)): return [norm(x) for x in v]
    if isinstance(v, dict): return {k: norm(x) for k, x in v.items()}
    if isinstance(v, Fraction) and v.denominator == 1: return int(v)
    return v

def main():
    s0 = int(sys.argv[1]) if len(sys.argv) > 1 else 0; cnt = int(sys.argv[2]) if len(sys.argv) > 2 else 200
    stats = {"und": 0, "ok": 0, "cant": 0, "bad": 0, "nopath": 0}
    import tempfile, collections
    why = collections.Counter()
    for sd in range(s0, s0 + cnt):
        r = random.Random(sd); src = G(r).prog()
        d = tempfile.NamedTemporaryFile("w", suffix=".py", delete=False); d.write(src); d.close()
        try: mods = {"m": spec3.load_spec(d.name, "m")}
        finally: os.unlink(d.name)
        ns = {}
        exec(src, ns)
        for merge in (False, True):
            set_deadline(5)
            I = Interp(mods, merge=merge)
            a, b, n = T("sym", "a", "list"), T("sym", "b", "list"), T("sym", "n", "int")
            f = I.func("spec_m", "f") or I.func("m", "f")
            def cap(o, m):
                o.pair = (o.value[0], resolved(I, I.freeze(o.value[1])) if o.value[0] == "return" else o.value[1]) if o.kind == "normal" else None
            bvv = T("b", 1)
            def go():
                return attempt(I, lambda: I.call(f, [a, b, n]))
            try: outs = I.explore(go, cap)
            except (Und, HoistX) as e: stats["und"] += 1; why[str(e)[:40]] += 1; continue
            bad = False
            for t in range(25):
                rr = random.Random(sd * 1000 + t)
                A = [rr.randint(-2, 3) for _ in range(rr.randint(0, 4))]; B = [rr.randint(-2, 3) for _ in range(rr.randint(0, 3))]; N = rr.randint(-1, 3)
                try: exp = ("return", norm(ns["f"](list(A), list(B), N)))
                except ValueError: exp = ("raise", "ValueError")
                except Exception as e: continue
                hits = 0; cant = None; got = None
                for o in outs:
                    M = Model({a: list(A), b: list(B), n: N}, t)
                    try:
                        if not all(M.truth(M.ev(l)) for l in o.lits): continue
                        hits += 1
                        g = (o.pair[0], norm(M.ev(o.pair[1]))) if o.pair[0] == "return" else o.pair
                        if soft(g[1]): cant = "soft"; continue
                        got = g
                        if g != exp:
                            bad = True
                            print("=== seed %d merge %s input a=%r b=%r n=%r\n%s expected %r got %r\n path %s" % (sd, merge, A, B, N, src, exp, g, render(b_and(*o.lits))[:600])); break
                    except CantEval as e: cant = str(e)
                if bad: break
                if not hits and cant is None and not bad:
                    stats["nopath"] += 1; bad = True
                    print("=== NO PATH seed %d merge %s input a=%r b=%r n=%r\n%s" % (sd, merge, A, B, N, src))
                    break
                if cant and cant.startswith("opaque"): print("=== cant", sd, cant); print(src)
                if cant: stats["cant"] += 1; why["cant:" + cant[:40]] += 1
                else: stats["ok"] += 1
            if bad: stats["bad"] += 1
    print(stats); print(why.most_common(12))
threading.stack_size(512 * 1024 * 1024); sys.setrecursionlimit(100000)
t = threading.Thread(target=main); t.start(); t.join()
