"""Unique decodability of composed names.

A text term is split into cases (its conditionals) and each case into pieces: literals, decimal numbers, free texts.
decode(p, q) turns an equation between two piece lists into equations between their variable pieces using only
  cancellation        x u = x v           =>  u = v                (also at the right end)
  literal clash       'a..' u = 'b..' v   =>  false                (also at the right end)
  number delimiting   d u = d' v          =>  d = d' and u = v     (d, d' digit strings; u, v empty or starting with a non-digit)
each proved as a lemma by the solver (lemmas())."""
import z3
from .values import *
from . import solver

def _arms(t, conds):
    """resolve string conditionals: list of (conds, pieces)"""
    if z3.is_string_value(t): return [(conds, [t] if t.as_string() != '' else [])]
    k = t.decl().kind() if z3.is_app(t) else None
    if k == z3.Z3_OP_SEQ_CONCAT:
        out = [(conds, [])]
        for c in t.children():
            out = [(cc, a + b) for ca, a in out for cc, b in _arms(c, ca)]
        return out
    if k == z3.Z3_OP_ITE:
        c, a, b = t.children()
        if any(x.eq(c) for x in conds): return _arms(a, conds)
        if any(x.eq(z3.Not(c)) for x in conds): return _arms(b, conds)
        return _arms(a, conds + [c]) + _arms(b, conds + [z3.Not(c)])
    return [(conds, [t])]

def merge(ps):
    out = []
    for p in ps:
        if out and z3.is_string_value(p) and z3.is_string_value(out[-1]): out[-1] = z3.StringVal(unesc(out[-1]) + unesc(p))
        else: out.append(p)
    return out

def cases(t, pc):
    out = []
    for conds, ps in _arms(t, []):
        if solver.feasible(list(pc), 700, goals=conds):
            out.append((conds, merge(ps)))
    return out

def lit(p): return unesc(p) if z3.is_string_value(p) else None
def is_dec(p, decs):
    return (z3.is_app(p) and p.decl().kind() in (z3.Z3_OP_INT_TO_STR,)) or any(p.eq(d) for d in decs)

class Ambiguous(Exception): pass

def decode(p, q, decs):
    """p == q as texts: None if impossible, else the list of equations that follow from it (and imply it)"""
    p, q = list(p), list(q); eqs = []
    def norm(l):
        while l and lit(l[0]) == '': l.pop(0)
        while l and lit(l[-1]) == '': l.pop()
    while True:
        norm(p); norm(q)
        if not p and not q: return eqs
        # right end: cancellation and clash
        if p and q:
            a, b = p[-1], q[-1]
            if a.eq(b) and lit(a) is None: p.pop(); q.pop(); continue
            x, y = lit(a), lit(b)
            if x is not None and y is not None:
                n = min(len(x), len(y))
                if x[-n:] != y[-n:]: return None
                p[-1] = z3.StringVal(x[:-n]); q[-1] = z3.StringVal(y[:-n]); continue
        if not p or not q:
            rest = p or q
            if any(lit(x) for x in rest) or any(is_dec(x, decs) for x in rest): return None
            raise Ambiguous('free text against nothing')
        a, b = p[0], q[0]
        if a.eq(b) and lit(a) is None: p.pop(0); q.pop(0); continue
        x, y = lit(a), lit(b)
        if x is not None and y is not None:
            n = min(len(x), len(y))
            if x[:n] != y[:n]: return None
            p[0] = z3.StringVal(x[n:]); q[0] = z3.StringVal(y[n:]); continue
        if is_dec(a, decs) and is_dec(b, decs):
            for l in (p, q):
                if len(l) > 1 and (lit(l[1]) is None or lit(l[1])[0].isdigit()): raise Ambiguous('a number followed by something that may continue it')
            eqs.append(a == b); p.pop(0); q.pop(0); continue
        if (is_dec(a, decs) and y and not y[0].isdigit()) or (is_dec(b, decs) and x and not x[0].isdigit()): return None
        raise Ambiguous('texts of unknown extent')

def lemmas():
    x, y, u, v = [z3.Const(n, S) for n in 'xyuv']
    at = lambda s, i: z3.SubString(s, i, 1)
    dig = lambda c: z3.InRe(c, z3.Range('0', '9'))
    n = z3.Int('n')
    # digit strings given by the property of each character, at the position the argument needs
    def facts(a, b): return z3.Implies(z3.Length(a) < z3.Length(b), dig(at(b, z3.Length(a))))
    ends = lambda t: z3.Or(t == zs(''), z3.Not(dig(at(t, 0))))
    return [('cancellation on the left', [z3.Concat(x, u) == z3.Concat(x, v)], u == v),
            ('cancellation on the right', [z3.Concat(u, x) == z3.Concat(v, x)], u == v),
            ('number delimiting', [z3.Concat(x, u) == z3.Concat(y, v), facts(x, y), facts(y, x), ends(u), ends(v)], z3.And(x == y, u == v)),
            ('a number against other text', [z3.Length(x) > 0, dig(at(x, 0)), z3.Concat(x, u) == v, z3.Not(dig(at(v, 0)))], z3.BoolVal(False))]

def rename(fs, keep, suffix='_2'):
    """copies of the formulas over primed constants and functions; names in keep stay"""
    m = {}
    def collect(t, seen):
        if t.get_id() in seen: return
        seen.add(t.get_id())
        if z3.is_quantifier(t): collect(t.body(), seen); return
        if z3.is_app(t):
            d = t.decl()
            if d.arity() == 0 and d.kind() == z3.Z3_OP_UNINTERPRETED and d.name() not in keep: m[d.name() + str(d.range())] = (t, z3.Const(d.name() + suffix, d.range()))
            for c in t.children(): collect(c, seen)
    seen = set()
    for f in fs: collect(f, seen)
    return [z3.substitute(f, *m.values()) if m else f for f in fs]
