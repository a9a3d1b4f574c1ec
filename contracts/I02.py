"""I02: one enter/exit pair in per-event mode. The counters of a pair are those libpapi delivered in these two calls."""
import z3
from ccv.values import *
from ccv.prove import Proof, Ctx
from ccv import kit
from . import instr, I01
from .instr import Inst, NS, unit

BIG = 1 << 62
def common(E, st, agg):
    c = Inst(E, st); E.inst = c
    r = z3.Int('region_id'); st.assume(r >= 0, r < 1 << 64, c.R0.dom[r])
    o = c.o0; rec = c.R0.val[r]; es = c.es(rec)
    a = zb(o.f[c.agg]); st.assume(a if agg else z3.Not(a), es >= 0, es <= 2, c.papi(rec) != -1)
    f = lambda n, rc=rec: E.c.dec(c.fld(rc, n), c.fields[n])
    for n in ('starts', 'durations', 'counts', 'last_counts', 'n', 'mean', 'variance', 'min', 'max'): st.assume(zi(f(n).n) >= 0, zi(f(n).n) < 1 << 58)
    nm, cnt = c.names(o, es); st.assume(cnt >= 0, cnt < 1 << 40)
    return Ctx(c=c, r=r, rec=rec, f=f, cnt=cnt, es=es, p=c.papi(rec), agg=agg)
def setup_enter(agg):
    def go(E, st):
        x = common(E, st, agg)
        return [x.r], x.c.loc, x
    return go
def appended(E, st, what, new, old, last):
    i = z3.Int('i')
    E.oblige(st, 'one more %s' % what, zi(new.n) == zi(old.n) + 1, 'post')
    E.oblige(st, 'earlier %s stay' % what, z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < zi(old.n)), new.a[i] == old.a[i])), 'post')
    E.oblige(st, 'the new entry of %s is that of this pair' % what, last(new.a[zi(old.n)]), 'post')
def clocks(st): return [e[1] for e in st.events if e[0] == 'clock']
def reads(st): return [e for e in st.events if e[0] == 'read']
def outcome(E, st, out):
    if isinstance(out, Thrown): E.oblige(st, 'the operation does not throw', False, 'post'); return True
    if isinstance(out, Exited): E.oblige(st, 'the operation does not end the process', False, 'post'); return True
def counters_read(E, st, x, pred, what):
    """with counters configured: pred holds for the values of one read of the region's own event set"""
    rs = reads(st)
    E.oblige(st, what, z3.Implies(x.cnt > 0, z3.Or(False, *[z3.And(e[1] == x.p, pred(e[2])) for e in rs])), 'post')
def post_enter(E, st, out, x):
    if outcome(E, st, out): return
    c = x.c; rec = c.obj(st).f[c.regions].val[x.r]; g = lambda n: x.f(n, rec); i = z3.Int('i'); lc = g('last_counts')
    counters_read(E, st, x, lambda v: z3.And(zi(lc.n) == x.cnt, z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < x.cnt), lc.a[i] == v[i]))), 'the counters read at enter are kept for exit')
    ts = clocks(st)
    E.oblige(st, 'the clock is read', bool(ts), 'post')
    but = ['last_counts']
    if x.agg:
        t = c.fld(rec, 'last_start')
        E.oblige(st, 'the start of the measurement is the clock at enter', z3.Or(False, *[t == z for z in ts]), 'post')
        E.oblige(st, 'the reported start is the first enter', c.fld(rec, 'first_start') == z3.If(c.fld(x.rec, 'first_start') == 0, t, c.fld(x.rec, 'first_start')), 'post')
        but += ['last_start', 'first_start']
    else:
        appended(E, st, 'start time', g('starts'), x.f('starts'), lambda v: z3.Or(False, *[v == z for z in ts]))
        but += ['starts']
    c.rec_same(st, x.r, but); c.others_same(st, x.r)
    c.same(st, c.byname, c.sleep, c.list, c.cpu, c.cuda, c.agg, c.next)
    c.oblige_inv(st, c.own, [c.pos])
def setup_exit(agg):
    def go(E, st):
        x = common(E, st, agg); c = x.c; s = x.f('starts'); d = x.f('durations'); lc = x.f('last_counts'); i = z3.Int('i')
        # an enter came before: its start is a past clock value, its counters are kept
        x.start = c.fld(x.rec, 'last_start') if agg else s.a[zi(s.n) - 1]
        if not agg: st.assume(zi(s.n) == zi(d.n) + 1)
        st.assume(x.start >= 0, x.start <= st.ghost['clock'], st.ghost['clock'] >= 0, st.ghost['clock'] < BIG)
        st.assume(z3.Implies(x.cnt > 0, zi(lc.n) == x.cnt), z3.ForAll([i], z3.And(lc.a[i] >= -BIG, lc.a[i] < BIG), patterns=[lc.a[i]]))
        return [x.r], c.loc, x
    return go
def delta(x, v, i): return v[i] - x.f('last_counts').a[i]
def inv_exit(v):
    """loop over the counters: those up to k are differences, the rest as read"""
    out = []; E = v.eng; x = getattr(E, 'exitx', None)
    rs = [e for e in v.entry.events if e[0] == 'read']
    if x is None or not rs: return out
    vals = rs[-1][2]; i = z3.Int('inv_i')
    for r, o in v.entry.store.items():
        if r[0] != 'v' or not isinstance(o, VecV) or not any(m[0] == r for m in v.mods): continue
        out.append(('differences so far', lambda w, r=r: z3.And(zi(w.st.store[r].n) == x.cnt, w.k <= x.cnt, z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < x.cnt), w.st.store[r].a[i] == z3.If(i < w.k, delta(x, vals, i), vals[i]))))))
    return out
def post_exit(E, st, out, x):
    if outcome(E, st, out): return
    c = x.c; rec = c.obj(st).f[c.regions].val[x.r]; g = lambda n: x.f(n, rec); i = z3.Int('i')
    ts = clocks(st)
    appended(E, st, 'duration', g('durations'), x.f('durations'), lambda v: z3.Or(False, *[v == z - x.start for z in ts]))
    new, old = g('counts'), x.f('counts'); el = c.fields['counts'].args[0]
    last = E.c.dec(new.a[zi(old.n)], el)
    counters_read(E, st, x, lambda v: z3.And(zi(new.n) == zi(old.n) + 1, zi(last.n) == x.cnt, z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < x.cnt), last.a[i] == delta(x, v, i)))), 'one more record of counter differences, in the configured order')
    E.oblige(st, 'earlier counter records stay', z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < zi(old.n)), new.a[i] == old.a[i])), 'post')
    E.oblige(st, 'no counter record without counters', z3.Implies(x.cnt == 0, zi(new.n) == zi(old.n)), 'post')
    c.rec_same(st, x.r, ('durations', 'counts')); c.others_same(st, x.r)
    c.same(st, c.byname, c.sleep, c.list, c.cpu, c.cuda, c.agg, c.next)
    c.oblige_inv(st, c.own, [c.pos])
def setup_ex(E, st):
    a, t, x = setup_exit(False)(E, st); E.exitx = x; return a, t, x
PROOFS = [Proof('enter_region', unit, NS + 'enter_region', setup_enter(False), post_enter, config=instr.CFG),
          Proof('exit_region', unit, NS + 'exit_region', setup_ex, post_exit, config=dict(instr.CFG, loopinv=inv_exit))]
REPLAY = I01.REPLAY
ASSUME = instr.ASSUME + ['an exit follows the enter it belongs to (misuse is out of scope); the clock and the counters stay below 2^62']
