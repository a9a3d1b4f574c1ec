"""C06: invocation counters and capture strategies."""
import z3
from ccv.values import *
from ccv.prove import Proof, Ctx
from ccv.stl import itos, env
from ccv import kit
from . import rtlcap
from .rtlcap import unit, NS, ALL

def counter_post(E, st, c, e):
    """the number of this entry: one more than the last one of the element, 0 for the first; other elements keep theirs"""
    o = E.read(st, c.loc).f[c.inv]; o0 = c.obj0.f[c.inv]
    E.oblige(st, 'the entry is numbered one more than the last one of its element, the first one 0',
             z3.And(o.dom[e], o.val[e] == z3.If(o0.dom[e], z3.If(o0.val[e] == ALL, 0, o0.val[e] + 1), 0)), 'post')
    x = z3.Const(fresh_name('x'), S)
    E.oblige(st, 'other elements keep their number', z3.ForAll([x], z3.Implies(x != e, z3.And(o.dom[x] == o0.dom[x], z3.Implies(o0.dom[x], o.val[x] == o0.val[x])))), 'post')

def setup_inv(E, st):
    c = rtlcap.Ctxt(E, st); e = z3.Const('element_id', S)
    return [e], c.loc, Ctx(c=c, e=e)
def post_inv(E, st, out, ctx):
    if isinstance(out, Thrown): E.oblige(st, 'counting does not fail', False, 'post'); return
    c = ctx.c; counter_post(E, st, c, ctx.e); c.settings_frame(st)
    o, o0 = E.read(st, c.loc), c.obj0
    E.oblige(st, 'the captures are unchanged', kit.map_eq(o.f[c.cap], o0.f[c.cap]), 'post')

def setup_get(E, st):
    a, t, ctx = setup_inv(E, st); st.assume(ctx.c.obj0.f[ctx.c.inv].dom[ctx.e]); return a, t, ctx
def post_get(E, st, out, ctx):
    if isinstance(out, Thrown): E.oblige(st, 'the number of an entered element can be read', False, 'post'); return
    E.oblige(st, 'the current number is returned', zi(out) == ctx.c.obj0.f[ctx.c.inv].val[ctx.e], 'post')
    ctx.c.settings_frame(st); ctx.c.store_same(st)

def enter_post(E, st, out, c, e):
    if isinstance(out, Thrown): E.oblige(st, 'entering does not fail', False, 'post'); return
    counter_post(E, st, c, e); c.settings_frame(st)
    n = E.read(st, c.loc).f[c.inv].val[e]; lim = zi(c.obj0.f[c.limit])
    E.oblige(st, 'captured exactly if the strategy selects this entry', zb(E.boolean(out)) == z3.Or(lim == ALL, n == lim), 'post')

def setup_api(E, st):
    c = rtlcap.Ctxt(E, st); i = z3.Int('element_id'); st.assume(i >= 0, i < 1 << 64)
    return [c.ptr(), i], None, Ctx(c=c, e=itos(i))
def post_enter(E, st, out, ctx): enter_post(E, st, out, ctx.c, ctx.e)

# ---- the strategies
def setup_init(E, st):
    name, d = z3.Const('name', S), z3.Const('base_dir', S); dn = z3.Bool('base_dir_null')
    return [CStr(False, name), CStr(dn, d)], None, Ctx(name=name, d=d, dn=dn)
def post_init(E, st, out, ctx):
    if isinstance(out, Thrown): E.oblige(st, 'creating a context does not fail', False, 'post'); return
    s = env(E, st, '__DAISY_CAPTURE_STRATEGY_DEFAULT'); b = env(E, st, '__DAISY_CAPTURE_BASE_DIR')
    null = zb(out.null if isinstance(out, PtrV) else True)
    is_ = lambda w: z3.And(z3.Not(zb(s.null)), s.s == zs(w))
    E.oblige(st, 'there is no context exactly under the strategy never', null == is_('never'), 'post')
    if not isinstance(out, PtrV) or out.loc is None: return
    o = E.read(st, out.loc)
    t = [E.ty(f['cls']) for f in E.u.functions if f['qn'] == NS + 'enter'][0]; rec = E.c.record(t)
    from .cap import fields
    nm, inv, cp = fields(E, t); lim = [n for n, x in rec if x.isint()][0]; dr = [n for n, x in rec if x.cls() == 'path'][0]
    E.oblige(st, 'all invocations are selected exactly under the strategy all, otherwise the first', z3.Or(null, zi(o.f[lim]) == z3.If(is_('all'), ALL, 0)), 'post')
    E.oblige(st, 'the context has the given name', z3.Or(null, zs(o.f[nm]) == ctx.name), 'post')
    want = z3.If(z3.Not(zb(b.null)), b.s, z3.If(z3.Not(ctx.dn), ctx.d, zs('arg_captures')))
    E.oblige(st, 'the output directory is the configured one', z3.Or(null, zs(o.f[dr]) == want), 'post')
    e = z3.Const('e', S)
    E.oblige(st, 'no element was entered yet', z3.Or(null, z3.ForAll([e], z3.Not(o.f[inv].dom[e]))), 'post')
    E.oblige(st, 'no capture yet', z3.Or(null, z3.ForAll([e], z3.Not(o.f[cp].dom[e]))), 'post')

# ---- without a context
def null_proof(name):
    def setup(E, st):
        f = E.u.fn(name); args = []
        src = z3.Const('src', z3.ArraySort(I, I)); r = ('o', 'src'); st.store[r] = VecV(None, src, z3.Int('n')); st.types[r] = None
        ctx = Ctx(src=Loc(r))
        for i, p in enumerate(f['params']):
            t = E.ty(p['t'])
            args.append(PtrV(True, None) if i == 0 else PtrV(z3.Bool('src_null'), Loc(r), z3.IntVal(0)) if t.isptr() else E.fresh(st, t, 'p%d' % i))
        st.ghost['before'] = len(st.events)
        return args, None, ctx
    def post(E, st, out, ctx):
        if isinstance(out, Thrown): E.oblige(st, 'nothing fails without a context', False, 'post'); return
        E.oblige(st, 'nothing happens without a context', len(st.events) == st.ghost['before'] and st.ghost.get('fs_a') is None, 'post')
        if not (isinstance(out, Opaque) and out.tn == 'void'):
            E.oblige(st, 'it says "do not capture"', z3.Not(zb(E.boolean(out))), 'post')
    return Proof(name + ' without a context', unit, name, setup, post)

PROOFS = [Proof('invocation', unit, 'arg_capture::ArgCaptureIO::invocation', setup_inv, post_inv),
          Proof('get_current_invocation', unit, 'arg_capture::ArgCaptureIO::get_current_invocation', setup_get, post_get),
          Proof('enter', unit, NS + 'enter', setup_inv, post_enter),
          Proof('__daisy_capture_enter', unit, '__daisy_capture_enter', setup_api, post_enter),
          Proof('__daisy_capture_init', unit, '__daisy_capture_init', setup_init, post_init)] + \
         [null_proof('__daisy_capture_' + x) for x in ('enter', 'raw', '1d', '2d', '3d', 'end')]

def lemmas():
    # histories: C(k) is the number of the k-th entry of an element (from 0), by the contract of invocation
    C = z3.Function('C', I, I); k = z3.Int('k')
    step = z3.If(C(k) == ALL, 0, C(k) + 1)
    return [('the k-th entry is numbered k (step)', [k >= 0, k + 1 <= ALL, C(k) == k, C(k + 1) == step], C(k + 1) == k + 1),
            ('once selects exactly the first entry', [k >= 0, k <= ALL, C(k) == k], (C(k) == 0) == (k == 0))]
REPLAY = [dict(src='c06.cpp', repo=['arg-capture-io/src/arg_capture_io.cpp', 'arg-capture-io/src/base64.cpp', 'rtl/src/capture.cpp'])]
ASSUME = ['fewer than 2^32 entries per element', 'a context pointer is null or one that __daisy_capture_init returned',
          'decimal text of different numbers differs (std::to_string)', 'getenv returns the same value for the same name during one call']
