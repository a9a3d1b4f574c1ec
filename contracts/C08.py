"""C08: __daisy_capture_raw/1d/2d/3d. The two capture functions of the store are used through the contracts proved in C01 and C02."""
import z3
from ccv.values import *
from ccv.prove import Proof, Ctx
from ccv.stl import PROD, fs, itos, text
from ccv import kit
from . import cap, rtlcap
from .rtlcap import unit
from .C02 import file_content, other_files

IO = 'arg_capture::ArgCaptureIO::'
def pick_args(E, st, f, args):
    """the arguments of a capture function by type"""
    r = dict(ints=[])
    for p, a in zip(f['params'], args):
        t = E.ty(p['t']); u = t.e if t.isref() else t
        v = E.val(st, a); c = u.cls()
        if c == 'vec': r['dims'] = v
        elif c == 'path': r['path'] = zs(v)
        elif c == 'string': r['elem'] = text(E, st, v)
        elif u.isbool(): r['after'] = E.boolean(v)
        elif u.isint(): r['ints'].append(zi(v))
        elif u.isptr(): r['src'] = v
    return r

def new_entry(E, st, this, a, inl, path=None):
    """the entry (element; argument, direction) is replaced by one that describes this call; nothing else changes"""
    c = E.c08; o = E.read(st, this)
    m = o.f[c.cap]; e = a['elem']; arg, pt = a['ints'][0], a['ints'][1]; k = c.key(arg, a['after'])
    rec = z3.Const(fresh_name('capture'), E.c.sort(c.recT)); d = a['dims']; dt = E.c.vec_dt(d.et); rd = c.field(rec, 'dims'); i = z3.Int(fresh_name('i'))
    st.assume(c.field(rec, 'arg_idx') == arg, c.field(rec, 'after') == zb(a['after']), c.field(rec, 'primitive_type') == pt, dt.accessor(0, 1)(rd) == zi(d.n))
    n = conc(d.n)
    if n is not None:
        for q in range(n): st.assume(dt.accessor(0, 0)(rd)[q] == d.a[q])
    else: st.assume(z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < zi(d.n)), dt.accessor(0, 0)(rd)[i] == d.a[i])))
    na = st.ghost['nextaddr']; na2 = z3.Int(fresh_name('nextaddr')); st.ghost['nextaddr'] = na2; st.assume(na2 > na)
    for sp in ('data', 'ext_file'):
        r = E.heap(st, dict(E.c.record(c.recT))[sp].args[0]); h, ht = st.store[r]
        h2 = z3.Const(fresh_name('heap'), h.sort()); x = z3.Int(fresh_name('a'))
        st.assume(z3.ForAll([x], z3.Implies(x < na, h2[x] == h[x]), patterns=[h2[x]]))
        E.write(st, Loc(r), (h2, ht))
    size = total(d)
    src = E.read(st, a['src'].loc); off = zi(0 if a['src'].off is None else a['src'].off)
    da, xa = c.field(rec, 'data'), c.field(rec, 'ext_file')
    if inl:
        cell = c.heap(st, 'data')[da]; ct = cell.sort()
        st.assume(xa == 0, da >= na, da < na2, ct.accessor(0, 1)(cell) == size,
                  z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < size), ct.accessor(0, 0)(cell)[i] == src.a[off + i])))
    elif path is not None: st.assume(da == 0, xa >= na, xa < na2, c.heap(st, 'ext_file')[xa] == path)
    else: st.assume(da == 0, xa == 0)
    md = E.c.map_dt(*c.capT.args[:2]); old = z3.Select(m.val, e)
    dom0 = z3.If(m.dom[e], md.accessor(0, 0)(old), z3.K(k.sort(), z3.BoolVal(False))); val0 = md.accessor(0, 1)(old); sz = z3.Int(fresh_name('size')); st.assume(sz >= 1)
    inner = E.c.mk(md, z3.Store(dom0, k, z3.BoolVal(True)), z3.Store(val0, k, rec), sz)
    osz = z3.Int(fresh_name('size')); st.assume(osz >= 1)
    f2 = dict(o.f); f2[c.cap] = MapV(m.kt, m.vt, z3.Store(m.dom, e, z3.BoolVal(True)), z3.Store(m.val, e, inner), osz)
    E.write(st, this, StructV(o.tn, f2))

def total(d):
    n = conc(d.n)
    if n is None: return PROD(d.a, zi(d.n))
    t = z3.IntVal(1)
    for i in range(n): t = z3.simplify(t * d.a[i])
    return t

def source_ok(E, st, a):
    p = a['src']; size = total(a['dims'])
    E.oblige(st, 'the source holds the bytes to capture', z3.And(size >= 0, size < 1 << 63, zi(0 if p.off is None else p.off) + size <= zi(E.read(st, p.loc).n)) if p.loc is not None else size == 0, 'pre')
    E.oblige(st, 'the primitive type is one of the enumeration', z3.And(a['ints'][1] >= 0, a['ints'][1] < 19), 'pre')

def m_inline(E, st, args, this, node):
    """contract of create_and_capture_inline (proved in C01)"""
    a = pick_args(E, st, E.u.fn(IO + 'create_and_capture_inline'), args); source_ok(E, st, a)
    E.oblige(st, 'the source is not null', z3.Or(z3.Not(zb(a['src'].null)), total(a['dims']) == 0), 'pre')
    new_entry(E, st, this, a, True); st.events = st.events + (('capture', 'inline', True),)
    yield st, z3.BoolVal(True)

def m_file(E, st, args, this, node):
    """contract of create_and_capture_to_file (proved in C02)"""
    a = pick_args(E, st, E.u.fn(IO + 'create_and_capture_to_file'), args); source_ok(E, st, a)
    p = a['path']; size = total(a['dims']); ok = z3.Bool(fresh_name('saved'))
    g = fs(st); g0 = dict(g)
    for n in ('fs_a', 'fs_n', 'fs_x'): g[n] = z3.Const(fresh_name(n), g[n].sort())
    st.assume(other_files(st, p, g0))
    for s, tv in E.fork(st, ok):
        s.events = s.events + (('capture', 'file', tv),)
        if tv:
            src = E.read(s, a['src'].loc); off = zi(0 if a['src'].off is None else a['src'].off); i = z3.Int(fresh_name('i')); gg = fs(s)
            s.assume(z3.Or(z3.Not(zb(a['src'].null)), size == 0), gg['fs_x'][p], gg['fs_n'][p] == size,
                     z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < size), gg['fs_a'][p][i] == src.a[off + i])))
        new_entry(E, s, this, a, False, p if tv else None)
        yield s, z3.BoolVal(tv)

def proof(name, rank):
    def setup(E, st):
        f = E.u.fn(name)
        c = rtlcap.Ctxt(E, st); E.c08 = c
        el = z3.Int('element_id'); st.assume(el >= 0, el < 1 << 64); e = itos(el)
        st.assume(c.obj0.f[c.inv].dom[e])                     # the element was entered
        arg, pt = z3.Ints('arg_idx primitive_type'); after = z3.Bool('after')
        size = z3.Int('size'); ext = [z3.Int('extent%d' % i) for i in range(rank)]
        n = size
        for x in ext: n = n * x
        st.assume(arg >= -(1 << 31), arg < 1 << 31, pt >= 0, pt < 19, n >= 0, n < 1 << 63, *[z3.And(x >= 0, x < 1 << 64) for x in [size] + ext])
        src, bytes_ = cap.source(E, st, z3.simplify(n))
        # parameters: context, argument, data, size, type, extents..., direction, element
        ints = iter([arg, size, pt] + ext + [el]); args = []; first = True
        for p in f['params']:
            t = E.ty(p['t'])
            if t.isptr(): args.append(c.ptr() if first else PtrV(False, src, z3.IntVal(0))); first = False
            elif t.isbool(): args.append(after)
            else: args.append(next(ints))
        fs(st)
        return args, None, Ctx(c=c, e=e, arg=arg, pt=pt, after=after, shape=[size] + ext, n=z3.simplify(n), bytes=bytes_, src=src)
    def post(E, st, out, ctx):
        c = ctx.c; k = c.key(ctx.arg, ctx.after); o = E.read(st, c.loc); i = z3.Int('i')
        rec = c.rec(o, ctx.e, k); da, xa = c.field(rec, 'data'), c.field(rec, 'ext_file')
        cell = c.heap(st, 'data')[da]; ct = cell.sort(); g = fs(st); path = c.heap(st, 'ext_file')[xa]
        inl = z3.And(da != 0, ct.accessor(0, 1)(cell) == ctx.n, z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < ctx.n), ct.accessor(0, 0)(cell)[i] == ctx.bytes[i])))
        fil = z3.And(da == 0, xa != 0, g['fs_x'][path], g['fs_n'][path] == ctx.n, z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < ctx.n), g['fs_a'][path][i] == ctx.bytes[i])))
        if isinstance(out, Thrown):
            E.oblige(st, 'a capture that could not be saved is not recorded as complete', z3.Implies(c.has(o, ctx.e, k), z3.Or(z3.And(da == 0, xa == 0), inl, fil)), 'post')
            E.oblige(st, 'an error is raised only if the capture could not be saved', any(x[0] == 'capture' and x[2] is False for x in st.events), 'post')
        else:
            E.oblige(st, 'the entry exists', c.has(o, ctx.e, k), 'post')
            E.oblige(st, 'argument index', c.field(rec, 'arg_idx') == ctx.arg, 'post')
            E.oblige(st, 'direction', c.field(rec, 'after') == ctx.after, 'post')
            E.oblige(st, 'primitive type', c.field(rec, 'primitive_type') == ctx.pt, 'post')
            rd = c.field(rec, 'dims'); dt = rd.sort()
            E.oblige(st, 'element size first, then the extents, nothing else', dt.accessor(0, 1)(rd) == len(ctx.shape), 'post')
            for q, x in enumerate(ctx.shape): E.oblige(st, 'element size' if q == 0 else 'extent %d in its place' % q, dt.accessor(0, 0)(rd)[q] == x, 'post')
            E.oblige(st, 'exactly the declared bytes are saved', z3.Or(inl, fil), 'post')
        now = E.read(st, ctx.src)
        E.oblige(st, 'the argument is only read', z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < ctx.n), now.a[i] == ctx.bytes[i])), 'post')
        c.settings_frame(st)
        c.frame(st, ctx.e, k)
    return Proof(name, unit, name, setup, post, covers=('return', 'throw'), config=dict(models={IO + 'create_and_capture_inline': m_inline, IO + 'create_and_capture_to_file': m_file}))

PROOFS = [proof('__daisy_capture_raw', 0), proof('__daisy_capture_1d', 1), proof('__daisy_capture_2d', 2), proof('__daisy_capture_3d', 3)]
REPLAY = [dict(src='c08.cpp', repo=['arg-capture-io/src/arg_capture_io.cpp', 'arg-capture-io/src/base64.cpp', 'rtl/src/capture.cpp'])]
ASSUME = ['element size times the extents is below 2^63 and the (non-null) data pointer refers to that many bytes; the primitive type is one of the enumeration',
          'the element was entered before it is captured', 'create_and_capture_inline and create_and_capture_to_file by their contracts (proved in C01 and C02 on the same tree)',
          'memory allocation succeeds']
