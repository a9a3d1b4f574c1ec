"""I05: event sets. finalize and the destructor keep the class invariant and release what they must."""
import z3
from ccv.values import *
from ccv.prove import Proof, Ctx
from ccv import kit
from . import instr, I01
from .instr import Inst, NS, unit, FA

def setup(E, st):
    c = Inst(E, st); E.inst = c
    r = z3.Int('region_id'); st.assume(r >= 0, r < 1 << 64, c.R0.dom[r])
    return [r], c.loc, Ctx(c=c, r=r)
def post(E, st, out, x):
    c = x.c; r = x.r; o = c.obj(st); o0 = c.o0; R = o.f[c.regions]; R0 = c.R0; L = o.f[c.sleep]; L0 = o0.f[c.sleep]; sl = o.f[c.list]; sl0 = c.sl0
    if isinstance(out, Thrown): E.oblige(st, 'finalizing does not throw', False, 'post'); return
    if isinstance(out, Exited):
        E.oblige(st, 'the process ends only when libpapi refuses', ('papi failed',) in st.events, 'post'); return
    rec0 = R0.val[r]; u = c.uuid(rec0); es0 = c.papi(rec0); n0 = zi(sl0.n); cached = L0.dom[u]
    rel = [(e[0], e[1]) for e in st.events if e[0] in ('cleanup', 'destroy')]
    act = z3.And(es0 != -1, z3.Not(cached)); evict = z3.And(act, n0 == 10)
    front = sl0.a[0]; fid = z3.If(n0 == 0, r, L0.val[front]); k = z3.Int('k'); q = z3.Const('q', S)
    # what is released: the longest-finalized region's set, when an eleventh would be cached; nothing else
    E.oblige(st, 'an event set is released just when an eleventh region would be cached', z3.BoolVal(bool(rel)) == evict, 'post')
    if rel:
        E.oblige(st, 'cleaned up once, then destroyed once', [a for a, _ in rel] == ['cleanup', 'destroy'], 'post')
        for a, e in rel: E.oblige(st, 'the %s concerns the event set of the longest-finalized region' % a, e == c.papi(R0.val[L0.val[front]]), 'post')
        E.oblige(st, 'that region has no event set any more', c.papi(R.val[L0.val[front]]) == -1, 'post')
    E.oblige(st, 'the cache lists the finalized region last', z3.Implies(act, z3.And(zi(sl.n) >= 1, sl.a[zi(sl.n) - 1] == u, L.dom[u])), 'post')
    E.oblige(st, 'one more is cached, at most ten', zi(sl.n) == z3.If(z3.And(act, n0 < 10), n0 + 1, n0), 'post')
    E.oblige(st, 'the others keep their order', z3.ForAll([k], z3.Implies(z3.And(k >= 0, k < z3.If(evict, n0 - 1, n0)), sl.a[k] == sl0.a[z3.If(evict, k + 1, k)])), 'post')
    E.oblige(st, 'the event set of the region is kept, unless released before', c.papi(R.val[r]) == es0, 'post')
    y = z3.Int('other')
    E.oblige(st, 'other regions stay', z3.ForAll([y], z3.And(R.dom[y] == R0.dom[y], z3.Implies(z3.And(R.dom[y], y != r, z3.Not(z3.And(evict, y == L0.val[front]))), R.val[y] == R0.val[y]))), 'post')
    c.rec_same(st, r, ('papi_eventset',))
    if rel:
        for n in c.fn:
            if n != 'papi_eventset': E.oblige(st, '%s of the released region stays' % n, c.fld(R.val[L0.val[front]], n) == c.fld(R0.val[L0.val[front]], n), 'post')
    E.oblige(st, 'no set is created or restarted', not [e for e in st.events if e[0] in ('create', 'start')], 'post')
    c.same(st, c.byname, c.cpu, c.cuda, c.agg, c.next)
    ps = []
    for grown in (True, False):
        w = z3.Const(fresh_name('w'), S); sh = 1 if rel else 0
        p = z3.Lambda([w], z3.If(w == u, zi(sl.n) - 1, c.pos[w] - sh)) if grown else c.pos
        ps.append(p)
    s1 = st.copy(); s1.assume(act)
    if E.sat(s1): c.oblige_inv(s1, c.own, [ps[0]])
    s2 = st.copy(); s2.assume(z3.Not(act))
    if E.sat(s2): c.oblige_inv(s2, c.own, [ps[1]])

# ---- process exit
def dtor(E):
    return [f for f in E.u.functions if f['qn'].startswith(NS + '~')][0]
def setup_exit(E, st):
    c = Inst(E, st); E.inst = c
    return [], c.loc, Ctx(c=c)
def m_append(E, st, args, this, node):
    """append_event*: writes trace text; no event set is used (I04 proves their bodies)"""
    yield st, None
def exit_inv(v):
    E = v.eng; c = E.inst; out = []
    if v.node['k'] != 'forrange': return out
    rl = list(E.ev(v.entry.copy(), v.node['range']))[0][1]
    if not isinstance(rl, Loc) or ('f', c.list) not in rl.path: return out
    x = z3.Int('inv_r'); e = z3.Int('inv_e'); o0 = c.o0; L0 = o0.f[c.sleep]; R0 = c.R0
    def released(w, rec): return z3.And(L0.dom[c.uuid(rec)], c.pos[c.uuid(rec)] < w.k)
    def upd(rec): return c.E.c.mk(c.RS, *[z3.IntVal(-1) if n == 'papi_eventset' else c.fld(rec, n) for n in c.fn])
    def regs(w): return c.obj(w.st).f[c.regions]
    out.append(('the same regions', lambda w: FA([x], regs(w).dom[x] == R0.dom[x], [regs(w).dom[x]])))
    for n in c.fn:
        if n != 'papi_eventset':
            out.append(('%s of all regions stays' % n, lambda w, n=n: FA([x], z3.Implies(R0.dom[x], c.fld(regs(w).val[x], n) == c.fld(R0.val[x], n)), [regs(w).val[x]])))
    out.append(('event sets up to here are gone', lambda w: FA([x], z3.Implies(R0.dom[x], c.papi(regs(w).val[x]) == z3.If(released(w, R0.val[x]), -1, c.papi(R0.val[x]))), [regs(w).val[x]])))
    out.append(('exactly those were released', lambda w: FA([e], w.st.ghost['p_live'][e] == z3.And(c.gh0['p_live'][e], z3.Not(released(w, R0.val[c.own[e]]))), [w.st.ghost['p_live'][e]])))
    out.append(('the cache is not changed meanwhile', lambda w: z3.And(kit.map_eq(c.obj(w.st).f[c.sleep], L0), kit.vec_same(E, c.obj(w.st).f[c.list], c.sl0))))
    return out
def post_exit(E, st, out, x):
    c = x.c; e = z3.Int('e')
    if isinstance(out, Thrown): E.oblige(st, 'nothing is thrown at exit', False, 'post'); return
    cached = z3.And(c.gh0['p_live'][e], c.o0.f[c.sleep].dom[c.uuid(c.R0.val[c.own[e]])])
    if isinstance(out, Exited):
        E.oblige(st, 'early end only when libpapi or the file system refuses', z3.BoolVal(('papi failed',) in st.events or any(k[0] in ('fopen failed', 'stderr', 'perror') for k in st.events)), 'post'); return
    E.oblige(st, 'every cached event set is released', z3.ForAll([e], z3.Implies(cached, z3.Not(st.ghost['p_live'][e]))), 'post')
    E.oblige(st, 'no other event set is', z3.ForAll([e], z3.Implies(z3.Not(cached), st.ghost['p_live'][e] == c.gh0['p_live'][e])), 'post')
EXIT = dict(instr.CFG, loopinv=exit_inv, models={NS + 'append_event': m_append, NS + 'append_event_aggregated': m_append})
NAME = NS + '~DaisyInstrumentationState'

PROOFS = [Proof('~DaisyInstrumentationState', unit, NAME, setup_exit, post_exit, covers=('return',), config=EXIT),
          Proof('finalize', unit, NS + 'finalize', setup, post, covers=('return', 'exit'), config=instr.CFG)] + \
         [Proof(p.name, p.unit, p.fn, p.setup, p.post, covers=p.covers, config=p.config) for p in I01.PROOFS if p.name == 'register_region']
REPLAY = I01.REPLAY
ASSUME = instr.ASSUME
