"""I07: ids that were never handed out."""
import z3
from ccv.values import *
from ccv.prove import Proof, Ctx
from ccv import kit
from . import instr, I01
from .instr import Inst, NS, unit

OPS = ['enter_region', 'exit_region', 'provided_metric', 'finalize']
def setup(op):
    def go(E, st):
        c = Inst(E, st); E.inst = c
        f = E.u.fn(NS + op)
        args = [kit.fresh_param(E, st, f, i) for i in range(len(f['params']))]
        args[0] = z3.Int('region_id'); st.assume(args[0] >= 0, args[0] < 1 << 64, z3.Not(c.R0.dom[args[0]]))
        for a in args:
            if isinstance(a, CStr): st.assume(z3.Not(zb(a.null)))
        return args, c.loc, Ctx(c=c, r=args[0])
    return go
def post(E, st, out, x):
    c = x.c
    E.oblige(st, 'the operation does not return', isinstance(out, Exited), 'post')
    if isinstance(out, Exited):
        E.oblige(st, 'the process ends with a failure status', z3.And(zi(out.code) % 256 != 0), 'post')
        E.oblige(st, 'a diagnostic is printed first', any(e[0] == 'stderr' for e in st.events), 'post')
    E.oblige(st, 'libpapi is not asked', not [e for e in st.events if e[0] in ('create', 'start', 'stop', 'read', 'cleanup', 'destroy', 'clock')], 'post')
    c.same(st, c.regions, c.byname, c.sleep, c.list, c.next)

# the C interface passes the id (and name, value) on
API = {'__daisy_instrumentation_enter': ('enter_region', lambda a: [a[0]]),
       '__daisy_instrumentation_exit': ('exit_region', lambda a: [a[0]]),
       '__daisy_instrumentation_finalize': ('finalize', lambda a: [a[0]]),
       '__daisy_instrumentation_metric': ('provided_metric', lambda a: a),
       '__daisy_instrumentation_increment': ('provided_metric', lambda a: a[:2] + [z3.ToReal(zi(a[2]))])}
def setup_api(fn):
    def go(E, st):
        c = Inst(E, st, inv=False); E.inst = c
        f = E.u.fn(fn)
        args = [kit.fresh_param(E, st, f, i) for i in range(len(f['params']))]
        return args, None, Ctx(c=c, args=args)
    return go
def m_op(op):
    def go(E, st, args, this, node):
        st.events = st.events + (('op', op, [E.val(st, a) for a in args], this),)
        known = z3.Bool('known_id')
        for s, ok in E.fork(st, known):
            if ok: yield s, None
            else: yield s, Exited(1)
    return go
def same(a, b):
    if isinstance(a, CStr): return z3.And(zb(a.null) == zb(b.null), zs(a.s) == zs(b.s))
    if isz(a) and a.sort() == R or isz(b) and b.sort() == R: return zr(a) == zr(b)
    return zi(a) == zi(b)
def post_api(fn):
    def go(E, st, out, x):
        op, want = API[fn]
        calls = [e for e in st.events if e[0] == 'op']
        E.oblige(st, 'one operation on the state', len(calls) == 1, 'post')
        for _, o, args, this in calls:
            E.oblige(st, 'the operation is %s' % op, o == op, 'post')
            for i, (a, b) in enumerate(zip(args, want(x.args))): E.oblige(st, 'argument %d is passed on' % (i + 1), same(a, b), 'post')
            E.oblige(st, 'on the one state', str(this) == str(x.c.loc), 'post')
        E.oblige(st, 'an error ends the process', z3.Implies(z3.Not(z3.Bool('known_id')), z3.BoolVal(isinstance(out, Exited))), 'post')
    return go
MODELS = {NS + o: m_op(o) for o in OPS}
MODELS['get_daisy_state'] = I01.m_state
def api(fn, covers=('return', 'exit')): return Proof(fn, unit, fn, setup_api(fn), post_api(fn), covers=covers, config=dict(instr.CFG, models=MODELS))
PROOFS = [Proof(op, unit, NS + op, setup(op), post, covers=('exit',), config=instr.CFG) for op in OPS] + [api(f) for f in API]
REPLAY = I01.REPLAY
ASSUME = instr.ASSUME
