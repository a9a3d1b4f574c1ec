"""T06: DebugInfo::merge (sdfg/src/element.cpp)."""
import z3
from ccv.values import *
from ccv.prove import Proof, Ctx
from ccv import frontend, kit
STUBS = '-I' + frontend.VERIF + '/stubs'
D = 'sdfg::DebugInfo::'
F = ('filename_', 'function_', 'start_line_', 'start_column_', 'end_line_', 'end_column_', 'has_')
def unit(): return frontend.load('sdfg/src/element.cpp', roots=[frontend.REPO + '/', frontend.BUILD + '/'], extra=[STUBS])
def value(E, st, x):
    o = E.read(st, x) if isinstance(x, Loc) else x
    return {n: (zs(o.f[n]) if n in F[:2] else zb(o.f[n]) if n == 'has_' else zi(o.f[n])) for n in F}
def setup(E, st):
    t = E.ty(u(E).fn(D + 'has')['cls'])
    l, r = kit.fresh_obj(E, st, t, 'left'), kit.fresh_obj(E, st, t, 'right')
    return [l, r], None, Ctx(l=value(E, st, l), r=value(E, st, r))
def u(E): return E.proof.unit()
def same(a, b): return z3.And([a[n] == b[n] for n in F])
def le(l1, c1, l2, c2): return z3.Or(l1 < l2, z3.And(l1 == l2, c1 <= c2))
def post(E, st, out, c):
    if isinstance(out, Thrown): E.oblige(st, 'merging does not fail', False, 'post'); return
    m, l, r = value(E, st, out), c.l, c.r
    E.oblige(st, 'without a left range: the right one', z3.Implies(z3.Not(l['has_']), z3.Or(same(m, r), z3.And(z3.Not(r['has_']), z3.Not(m['has_'])))), 'post')
    E.oblige(st, 'without a right range: the left one', z3.Implies(z3.And(l['has_'], z3.Not(r['has_'])), same(m, l)), 'post')
    both = z3.And(l['has_'], r['has_'])
    fits = z3.And(l['filename_'] == r['filename_'], z3.Or(l['function_'] == r['function_'], l['function_'] == zs(''), r['function_'] == zs('')))
    E.oblige(st, 'different files or functions: the left range, unchanged', z3.Implies(z3.And(both, z3.Not(fits)), same(m, l)), 'post')
    ok = z3.And(both, fits)
    E.oblige(st, 'merged: there is a range', z3.Implies(ok, m['has_']), 'post')
    E.oblige(st, 'merged: the file of both', z3.Implies(ok, m['filename_'] == l['filename_']), 'post')
    E.oblige(st, 'merged: the function that is known', z3.Implies(ok, m['function_'] == z3.If(l['function_'] == zs(''), r['function_'], l['function_'])), 'post')
    p = lambda x, e: (x[e + '_line_'], x[e + '_column_'])
    for n, x in (('left', l), ('right', r)):
        E.oblige(st, 'merged: begins no later than %s' % n, z3.Implies(ok, le(*p(m, 'start'), *p(x, 'start'))), 'post')
        E.oblige(st, 'merged: ends no earlier than %s' % n, z3.Implies(ok, le(*p(x, 'end'), *p(m, 'end'))), 'post')
    for e in ('start', 'end'):
        E.oblige(st, 'merged: its %s is one of the two' % e, z3.Implies(ok, z3.Or([z3.And([a == b for a, b in zip(p(m, e), p(x, e))]) for x in (l, r)])), 'post')
PROOFS = [Proof('merge', unit, D + 'merge', setup, post)]
REPLAY = [dict(src='t06.cpp', repo=['sdfg/src/element.cpp'], flags=[STUBS, '-no-pie', '-Wl,--unresolved-symbols=ignore-all'])]
ASSUME = ['the SymEngine classes the headers mention are parsed from declarations without behaviour (stubs/symengine); no verified function uses them']
