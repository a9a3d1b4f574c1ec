"""I01: ids of registered regions. The class invariant of contracts/instr.py is assumed before and proved after."""
import z3
from ccv.values import *
from ccv.prove import Proof, Ctx
from ccv import kit
from . import instr
from .instr import Inst, NS, unit

def setup(E, st):
    c = Inst(E, st); E.inst = c
    f = E.u.fn(NS + 'register_region')
    md = kit.fresh_obj(E, st, c.MT, 'metadata'); es = z3.Int('event_set'); st.assume(es >= 0, es <= 2)
    m = E.read(st, md); st.assume(z3.Not(zb(m.f['region_uuid'].null)))
    args = []
    for p in f['params']: args.append(PtrV(False, md) if E.ty(p['t']).isptr() else es)
    return args, c.loc, Ctx(c=c, m=m, es=es, menc=E.c.enc(m, c.MT), uuid=zs(m.f['region_uuid'].s))
def post(E, st, out, x):
    c = x.c; o = c.obj(st); R = o.f[c.regions]; N0 = c.o0.f[c.byname]; N = o.f[c.byname]
    if isinstance(out, Thrown): E.oblige(st, 'registering does not throw', False, 'post'); return
    if isinstance(out, Exited):
        E.oblige(st, 'the process ends only when libpapi refuses', ('papi failed',) in st.events, 'post'); return
    r = zi(out); known = N0.dom[x.uuid]
    E.oblige(st, 'the id is not zero', r != 0, 'post')
    E.oblige(st, 'a known uuid keeps its id', z3.Implies(known, r == N0.val[x.uuid]), 'post')
    E.oblige(st, 'a new uuid gets a new id', z3.Implies(z3.Not(known), z3.And(z3.Not(c.R0.dom[r]), r >= zi(c.o0.f[c.next]))), 'post')
    E.oblige(st, 'the region is registered', R.dom[r], 'post')
    E.oblige(st, 'the id is found under the uuid again', z3.And(N.dom[x.uuid], N.val[x.uuid] == r), 'post')
    k = z3.Const('k', S)
    E.oblige(st, 'no other uuid changes', z3.ForAll([k], z3.Implies(k != x.uuid, z3.And(N.dom[k] == N0.dom[k], z3.Implies(N.dom[k], N.val[k] == N0.val[k])))), 'post')
    E.oblige(st, 'ids only grow', zi(o.f[c.next]) >= zi(c.o0.f[c.next]), 'post')
    c.others_same(st, r)
    s = st.copy(); s.assume(known); c.rec_same(s, r, ('papi_eventset',))
    s = st.copy(); s.assume(z3.Not(known)); rec = R.val[r]
    if E.sat(s):
        E.oblige(s, 'the metadata is kept', c.fld(rec, 'metadata') == x.menc, 'post')
        E.oblige(s, 'the kind of events is kept', c.es(rec) == x.es, 'post')
        for n, t in E.c.record(c.vt):
            if t.cls() == 'vec': E.oblige(s, 'no %s yet' % n, E.c.dec(c.fld(rec, n), t).n == 0, 'post')
            elif t.cls() == 'map': E.oblige(s, 'no %s yet' % n, z3.simplify(E.c.dec(c.fld(rec, n), t).size) == 0, 'post')
            elif n in ('runtime_n', 'first_start'): E.oblige(s, '%s starts at zero' % n, c.fld(rec, n) == 0, 'post')
    c.same(st, c.cpu, c.cuda, c.agg)
    # the invariant
    own = c.own; pos = [c.pos]
    for e in st.events:
        if e[0] == 'create': own = z3.Store(own, e[1], r)
    for m, n, v, f, g in st.ghost.get('removed', ()):
        k = z3.Const(fresh_name('k'), S); pos.insert(0, z3.Lambda([k], g[c.pos[k]]))
    c.oblige_inv(st, own, pos)

# the C interface
def setup_init(E, st):
    c = Inst(E, st); E.inst = c
    f = E.u.fn('__daisy_instrumentation_init'); md = kit.fresh_obj(E, st, c.MT, 'metadata'); null = z3.Bool('no_metadata'); es = z3.Int('event_set')
    return [PtrV(null, md) if E.ty(p['t']).isptr() else es for p in f['params']], None, Ctx(c=c, null=null, md=md, es=es)
def m_register(E, st, args, this, node):
    c = E.inst; p, es = args[0], args[1]
    st.events = st.events + (('register', E.val(st, p), E.val(st, es), this),)
    r = z3.Int('registered_id'); st.assume(r > 0, r < 1 << 64); yield st, r
def m_state(E, st, args, this, node):
    st.events = st.events + (('state',),); yield st, E.inst.loc
def post_init(E, st, out, x):
    calls = [e for e in st.events if e[0] == 'register']
    if isinstance(out, (Thrown, Exited)): E.oblige(st, 'returns', False, 'post'); return
    E.oblige(st, 'no metadata: zero', z3.Implies(x.null, zi(out) == 0), 'post')
    E.oblige(st, 'no metadata: nothing is registered', z3.Or(z3.Not(x.null), z3.BoolVal(not calls)), 'post')
    if calls:
        p, es, this = calls[0][1:]
        E.oblige(st, 'one registration', len(calls) == 1, 'post')
        E.oblige(st, 'with the given metadata', p.loc == x.md or str(p.loc) == str(x.md), 'post')
        E.oblige(st, 'and event set', zi(es) == x.es, 'post')
        E.oblige(st, 'its id is returned', zi(out) == z3.Int('registered_id'), 'post')
    else: E.oblige(st, 'metadata is registered', x.null, 'post')

PROOFS = [Proof('register_region', unit, NS + 'register_region', setup, post, covers=('return', 'exit'), config=instr.CFG),
          Proof('__daisy_instrumentation_init', unit, '__daisy_instrumentation_init', setup_init, post_init,
                config=dict(instr.CFG, models={NS + 'register_region': m_register, 'get_daisy_state': m_state}))]
REPLAY = [dict(src='instr.cpp', repo=['rtl/src/instrumentation.cpp'], so=['fakepapi.c'], libs=['-ldl'])]
ASSUME = instr.ASSUME
