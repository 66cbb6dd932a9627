"""Meaning of the operations of the algebra back ends for the eliminated variable v."""
import sympy

def LT(v, p): return sympy.LT(p, v)
def LC(v, p): return sympy.LC(p, v)
def degree(v, p): return sympy.degree(p, v)
def div(v, p, q): return sympy.div(p, q, v)
def p_tail(v, p): return (p - sympy.LT(p, v)).expand()
def e_var(v): return v
def has_variable(v, p): return len(p.free_symbols) > 0
def pseudo_div(v, p, q): return sympy.pdiv(p, q, v)
def derivative(v, p): return sympy.diff(p, v)
def zero(v): return sympy.Integer(0)
def sign(v, scalar): return sympy.sign(scalar)
def LS(v, p):
    symbols = p.free_symbols
    symbols.add(v)
    return sympy.LC(p, symbols)
