"""C03: writing the index of every element and loading it back reproduces the captures."""
import z3
from ccv.values import *
from ccv.prove import Proof, Ctx
from ccv.stl import fs, PFILE, PPARENT, path_join, path_filename, path_parent
from ccv import frontend, kit, stl
from . import cap

NS = 'arg_capture::ArgCaptureIO::'
def unit():
    return frontend.load('arg-capture-io', wrapper='#include "%s/arg-capture-io/src/arg_capture_io.cpp"\n'
                         'template std::shared_ptr<arg_capture::ArgCaptureIO> arg_capture::ArgCaptureIO::from_index<arg_capture::ArgCaptureIO>(const std::filesystem::path&);\n' % frontend.REPO,
                         roots=[frontend.REPO + '/', frontend.BUILD + '/'])

# ---- contract of the base64 functions (proved in C04): decoding an encoded byte string gives it back
B64 = z3.Function('b64', z3.ArraySort(I, I), I, S)
BDEC_A = z3.Function('b64_decoded_bytes', S, z3.ArraySort(I, I)); BDEC_N = z3.Function('b64_decoded_size', S, I)
def decodes_to(s, a, n):
    i = z3.Int(fresh_name('i'))
    return z3.And(BDEC_N(s) == n, z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < n), BDEC_A(s)[i] == a[i])))
def m_encode(E, st, args, this, node):
    p, n = E.val(st, args[0]), zi(E.val(st, args[1]))
    v = E.read(st, p.loc); off = zi(0 if p.off is None else p.off)
    E.oblige(st, 'the bytes to encode exist', z3.And(n >= 0, off + n <= zi(v.n)), 'ub')
    a = v.a if conc(off) == 0 else stl.vec_slice(E, st, None, v, off, n).a
    s = z3.Const(fresh_name('b64text'), S)
    st.assume(decodes_to(s, a, n))
    yield st, s
def m_decode(E, st, args, this, node):
    s = stl.text(E, st, E.val(st, args[0]))
    st.assume(BDEC_N(s) >= 0)
    t = E.ty(node['fn']['ret'] if node else 0)
    yield st, VecV(t.args[0], BDEC_A(s), BDEC_N(s))
B64_MODELS = {'base64_encode': m_encode, 'base64_decode': m_decode}

# ---- what an entry of an index says about a capture
def objhas(j, k): return z3.And(J.is_jobj(j), J.jd(j)[zs(k)])
def mem(j, k): return J.jm(j)[zs(k)]
def entry(E, io, st, j, arg, after, rec, heap_data=None, heap_ext=None):
    """JSON value j describes the capture rec of argument arg / direction after"""
    hd = heap_data if heap_data is not None else io.heap(st, 'data'); he = heap_ext if heap_ext is not None else io.heap(st, 'ext_file')
    dims = io.field(rec, 'dims'); dt = [v for k, v in E.c.dts.items() if dims.sort() == v][0]
    da, dn = dt.accessor(0, 0)(dims), dt.accessor(0, 1)(dims)
    jd = mem(j, 'dims'); i = z3.Int(fresh_name('i'))
    a = io.field(rec, 'data'); x = io.field(rec, 'ext_file'); cell = hd[a]; ct = cell.sort()
    return [('it is an object', J.is_jobj(j)),
            ('argument index', z3.And(J.jd(j)[zs('arg_idx')], mem(j, 'arg_idx') == J.jint(arg))),
            ('direction', z3.And(J.jd(j)[zs('after')], mem(j, 'after') == J.jbool(after))),
            ('primitive type', z3.And(J.jd(j)[zs('primitive_type')], mem(j, 'primitive_type') == J.jint(io.field(rec, 'primitive_type')))),
            ('number of dimensions', z3.And(J.jd(j)[zs('dims')], J.is_jarr(jd), J.jn(jd) == dn)),
            ('dimensions in order', z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < dn), J.ja(jd)[i] == J.jint(da[i])))),
            ('inline bytes are present exactly if captured inline', J.jd(j)[zs('data')] == (a != 0)),
            ('inline bytes', z3.Implies(a != 0, z3.And(J.is_jstr(mem(j, 'data')), decodes_to(J.js(mem(j, 'data')), ct.accessor(0, 0)(cell), ct.accessor(0, 1)(cell))))),
            ('a file is named exactly if captured to a file', J.jd(j)[zs('ext_file')] == z3.And(a == 0, x != 0)),
            ('file name', z3.Implies(z3.And(a == 0, x != 0), mem(j, 'ext_file') == J.jstr(PFILE(he[x]))))]

def valid_records(E, io, st):
    """type invariant of the store: every record carries its own key; sizes of captured vectors are sane"""
    e = z3.Const(fresh_name('e'), S); k = z3.Const(fresh_name('k'), E.c.sort(io.capT.args[0]))
    kt = E.c.sort(io.capT.args[0]); o = io.obj0
    rec = io.rec(o, e, k)
    a, x = io.field(rec, 'data'), io.field(rec, 'ext_file'); hd = io.heap0('data'); ct = hd.range()
    dims = io.field(rec, 'dims'); dt = [v for v in E.c.dts.values() if v == dims.sort()][0]
    dn = dt.accessor(0, 1)(dims); i = z3.Int(fresh_name('i'))
    st.assume(z3.ForAll([e, k], z3.Implies(io.has(o, e, k), z3.And(
        io.field(rec, 'arg_idx') == kt.accessor(0, 0)(k), io.field(rec, 'after') == kt.accessor(0, 1)(k),
        a >= 0, x >= 0, ct.accessor(0, 1)(hd[a]) >= 0, dn >= 0))))

# ---- ArgCapture::serialize_into: one entry is appended
def setup_ser(E, st):
    f = E.u.fn('arg_capture::ArgCapture::serialize_into')
    io = cap.Store(E, st, E.u.fn(NS + 'create_and_capture_inline'))
    this = kit.fresh_obj(E, st, E.ty(f['cls']), 'capture')
    v = E.read(st, this)
    j = z3.Const('j', J); st.assume(J.is_jarr(j), J.jn(j) >= 0)
    r = ('o', 'json'); st.store[r] = JsonV(j); st.types[r] = None
    rec = E.c.enc(v, E.ty(f['cls']))
    ct = io.heap0('data').range(); a = io.field(rec, 'data')
    st.assume(io.field(rec, 'data') < io.nextaddr0, io.field(rec, 'ext_file') < io.nextaddr0, ct.accessor(0, 1)(io.heap0('data')[a]) >= 0)
    return [Loc(r)], this, Ctx(io=io, rec=rec, j=j, jl=Loc(r), this=this, t=E.ty(f['cls']))
def post_ser(E, st, out, ctx):
    if isinstance(out, Thrown): E.oblige(st, 'describing a capture does not fail', False, 'post'); return
    io = ctx.io; now = E.read(st, ctx.jl).t; i = z3.Int('i'); n = J.jn(ctx.j)
    E.oblige(st, 'one entry is appended', z3.And(J.is_jarr(now), J.jn(now) == n + 1), 'post')
    E.oblige(st, 'earlier entries stay', z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < n), J.ja(now)[i] == J.ja(ctx.j)[i])), 'post')
    for nm, g in entry(E, io, st, J.ja(now)[n], io.field(ctx.rec, 'arg_idx'), io.field(ctx.rec, 'after'), ctx.rec): E.oblige(st, nm, g, 'post')
    E.oblige(st, 'the capture is only read', E.c.enc(E.read(st, ctx.this), ctx.t) == ctx.rec, 'post')
def inv_ser(v):
    """every JSON array filled by the loop holds the first k dimensions"""
    out = []
    for r, x in v.entry.store.items():
        if isinstance(x, JsonV) and (r, ()) in v.mods:
            def arr(w, r=r): return w.st.store[r].t
            out.append(('array of length k', lambda w, f=arr, r=r: z3.And(J.is_jarr(f(w)), J.jn(f(w)) == w.k)))
            for rt, y in [(rt, y) for rt, y in v.entry.store.items()]:
                vs = [y] if isinstance(y, VecV) else ([y.f[n] for n in y.f if isinstance(y.f[n], VecV)] if isinstance(y, StructV) else [])
                for vec in vs:
                    if vec.a.sort() != z3.ArraySort(I, I): continue
                    def same(w, f=arr, vec=vec):
                        i = z3.Int('inv_i'); return z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < w.k), J.ja(f(w))[i] == J.jint(vec.a[i])))
                    out.append(('the first k dimensions', same))
    return out

# ---- ArgCaptureIO::write_index
def m_serialize(E, st, args, this, node):
    """the contract proved above"""
    io = E.c03
    jl = args[0]; j = E.read(st, jl).t
    E.oblige(st, 'entries are collected in an array', J.is_jarr(j), 'pre')
    v = E.read(st, this); rec = E.c.enc(v, io.recT)
    x = z3.Const(fresh_name('entry'), J)
    for nm, g in entry(E, io, st, x, io.field(rec, 'arg_idx'), io.field(rec, 'after'), rec, io.heap0('data'), io.heap0('ext_file')): st.assume(g)
    n = z3.simplify(J.jn(j))
    E.write(st, jl, JsonV(J.jarr(z3.Store(J.ja(j), n, x), n + 1)))
    yield st, VOID

def write_setup_config():
    return dict(models={**B64_MODELS, 'arg_capture::ArgCapture::serialize_into': m_serialize}, loopinv=inv_write, iter_end=iter_write, feas_ms=200)

def forall(vs, body, pat):
    try: return z3.ForAll(vs, body, patterns=[pat])
    except z3.Z3Exception: return z3.ForAll(vs, body)

def rec_array(E, io, w, f, n_of, dom, val, en):
    """entry i of the array describes the i-th capture of the enumeration, for i < n"""
    kt = E.c.sort(io.capT.args[0]); i = z3.Int('inv_t')
    k = en[i]; j = J.ja(f)[i]
    gs = [g for _, g in entry(E, io, w.st, j, kt.accessor(0, 0)(k), kt.accessor(0, 1)(k), val[k], io.heap0('data'), io.heap0('ext_file'))]
    return forall([i], z3.Implies(z3.And(i >= 0, i < n_of), z3.And(*gs)), J.ja(f)[i])

def inv_write(v):
    E = v.eng; io = E.c03; out = []
    node = v.node
    # arrays grown by the loop
    for r, x in v.entry.store.items():
        if isinstance(x, JsonV) and (r, ()) in v.mods:
            f = lambda w, r=r: w.st.store[r].t
            out.append(('one entry per capture so far', lambda w, f=f: z3.And(J.is_jarr(f(w)), J.jn(f(w)) == w.k)))
            g = v.entry.ghost.get('enum:%s' % E.c.sort(io.capT.args[0]))
            if g is not None:
                c, en = g.data['c'], g.data['en']
                out.append(('the entries describe the first captures', lambda w, f=f, en=en, c=c: rec_array(E, io, w, f(w), w.k, c.dom, c.val, en)))
    return out

def index_ok(E, io, st, j, e):
    """the JSON document j is the index of element e"""
    o = io.obj0; m, dom, val, size = io.inner(o, e)
    return [('format', z3.And(J.is_jobj(j), J.jd(j)[zs('format')], mem(j, 'format') == J.jint(1))),
            ('target name', z3.And(J.jd(j)[zs('target')], mem(j, 'target') == J.jstr(zs(o.f[io.name])))),
            ('element id', z3.And(J.jd(j)[zs('element_id')], mem(j, 'element_id') == J.jstr(e))),
            ('invocation number', z3.And(J.jd(j)[zs('invocation')], mem(j, 'invocation') == J.jint(o.f[io.inv].val[e]))),
            ('captures', z3.And(J.jd(j)[zs('captures')], J.is_jarr(mem(j, 'captures'))))]

def iter_write(E, st, node, k, lid):
    """end of one iteration of the loop over the elements: the file of this element holds its index"""
    io = E.c03
    its = [n for n, x in enumerate(st.events) if x[0] == 'iteration']
    i = its[0]
    if st.events[i][1] != lid: return     # inner loops have their invariants
    e = st.ghost.get('key:%s' % S)
    if e is None: return
    op = [x for x in st.events[i:] if x[0] == 'open' and x[1] == 'ofstream']
    if not op: E.oblige(st, 'an index file is opened for every element', False, 'post'); return
    path = op[-1][2]
    j = fs(st)['fs_j'][path]
    E.oblige(st, 'the index file exists', fs(st)['fs_x'][path], 'post')
    for nm, g in index_ok(E, io, st, j, e): E.oblige(st, 'index of an element: ' + nm, g, 'post')
    m, dom, val, size = io.inner(io.obj0, e)
    g = st.ghost.get('enum:%s' % E.c.sort(io.capT.args[0]))
    if g is None: E.oblige(st, 'the captures of the element are listed', False, 'post'); return
    inner, en2 = g.data['c'], g.data['en']
    E.oblige(st, 'the captures listed are those of the element', z3.And(inner.dom == dom, inner.val == val), 'post')
    cj = mem(j, 'captures')
    E.oblige(st, 'one entry per capture', J.jn(cj) == zi(inner.size), 'post')
    class W: pass
    w = W(); w.st = st
    E.oblige(st, 'each entry describes its capture', rec_array(E, io, w, cj, zi(inner.size), inner.dom, inner.val, en2), 'post')

def setup_wr(E, st):
    f = E.u.fn(NS + 'write_index')
    io = cap.Store(E, st, E.u.fn(NS + 'create_and_capture_inline')); E.c03 = io
    valid_records(E, io, st)
    o = io.obj0; m = o.f[io.cap]; e = z3.Const('e', S)
    st.assume(z3.ForAll([e], z3.Implies(m.dom[e], z3.And(o.f[io.inv].dom[e], o.f[io.inv].val[e] >= 0, o.f[io.inv].val[e] < 1 << 32))))
    base = z3.Const('base_path', S); fs(st)
    return [base], io.loc, Ctx(io=io)
def post_wr(E, st, out, ctx):
    io = ctx.io
    if isinstance(out, Thrown): E.oblige(st, 'an error is only raised with reason', bool([x for x in st.events if x[0] in ('mkdir', 'open')]), 'post')
    else:
        its = [x[1] for x in st.events if x[0] == 'iteration']
        E.oblige(st, 'every element is visited', bool(its) and ('loop done', its[0]) in st.events or conc(io.obj0.f[io.cap].size) == 0, 'post')
    o = E.read(st, io.loc)
    E.oblige(st, 'the captures stay', kit.map_eq(o.f[io.cap], io.obj0.f[io.cap]), 'post')
    io.frame_rest(st)

# ---- reading: an entry of an index becomes a capture
PARSE = 'arg_capture::ArgCapture::parse_from'
def good_entry(j):
    """what write_index puts down for a capture"""
    i = z3.Int(fresh_name('i')); jd = mem(j, 'dims')
    has = lambda k: J.jd(j)[zs(k)]
    return [J.is_jobj(j), has('arg_idx'), has('after'), has('primitive_type'), has('dims'),
            J.is_jint(mem(j, 'arg_idx')), J.ji(mem(j, 'arg_idx')) >= -(1 << 31), J.ji(mem(j, 'arg_idx')) < 1 << 31, J.is_jbool(mem(j, 'after')),
            J.is_jint(mem(j, 'primitive_type')), J.ji(mem(j, 'primitive_type')) >= -(1 << 31), J.ji(mem(j, 'primitive_type')) < 1 << 31,
            J.is_jarr(jd), J.jn(jd) >= 0,
            z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < J.jn(jd)), z3.And(J.is_jint(J.ja(jd)[i]), J.ji(J.ja(jd)[i]) >= 0, J.ji(J.ja(jd)[i]) < 1 << 64))),
            z3.Implies(has('data'), J.is_jstr(mem(j, 'data'))), z3.Implies(has('ext_file'), J.is_jstr(mem(j, 'ext_file')))]

class Rec:
    """views of capture records (of a unit, without a store)"""
    def __init__(self, E):
        f = E.u.fn(PARSE); self.E = E
        mt = [t.e for t in [E.ty(p['t']) for p in f['params']] if t.isref() and t.e.cls() == 'map'][0]
        self.mapT = mt; self.kt = mt.args[0]; self.recT = mt.args[1]
        self.ft = dict(E.c.record(self.recT))
    def key(self, j): return self.E.c.mk(self.E.c.sort(self.kt), J.ji(mem(j, 'arg_idx')), J.jb(mem(j, 'after')))
    def field(self, term, n):
        rec = self.E.c.record(self.recT); return self.E.c.sort(self.recT).accessor(0, [x for x, _ in rec].index(n))(term)
    def heap(self, st, n): return st.store[self.E.heap(st, self.ft[n].args[0])][0]
    def matches(self, st, rec, j, base):
        """the record holds what the entry says (read from files in directory base)"""
        dims = self.field(rec, 'dims'); dt = dims.sort(); da, dn = dt.accessor(0, 0)(dims), dt.accessor(0, 1)(dims)
        a, x = self.field(rec, 'data'), self.field(rec, 'ext_file'); hd, he = self.heap(st, 'data'), self.heap(st, 'ext_file')
        cell = hd[a]; ct = cell.sort(); i = z3.Int(fresh_name('i')); txt = J.js(mem(j, 'data')); jd = mem(j, 'dims')
        na = st.ghost['nextaddr']; D, X = J.jd(j)[zs('data')], J.jd(j)[zs('ext_file')]
        return [('argument index', self.field(rec, 'arg_idx') == J.ji(mem(j, 'arg_idx'))), ('direction', self.field(rec, 'after') == J.jb(mem(j, 'after'))),
                ('primitive type', self.field(rec, 'primitive_type') == J.ji(mem(j, 'primitive_type'))),
                ('number of dimensions', dn == J.jn(jd)), ('dimensions in order', z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < dn), da[i] == J.ji(J.ja(jd)[i])))),
                ('inline bytes are present exactly if the index has them', D == (a != 0)),
                ('inline bytes', z3.Implies(a != 0, z3.And(a > 0, a < na, ct.accessor(0, 1)(cell) == BDEC_N(txt), z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < BDEC_N(txt)), ct.accessor(0, 0)(cell)[i] == BDEC_A(txt)[i]))))),
                ('a file is named exactly if the index names one', z3.And(z3.Not(D), X) == (x != 0)),
                ('file beside the index', z3.Implies(x != 0, z3.And(x > 0, x < na, he[x] == path_join(base, J.js(mem(j, 'ext_file'))))))]

def old_cells(E, R, st, h0, na0):
    a = z3.Int(fresh_name('a'))
    return [z3.ForAll([a], z3.Implies(a < na0, R.heap(st, n)[a] == h0[n][a])) for n in ('data', 'ext_file')]

def setup_parse(E, st):
    R = Rec(E); j = z3.Const('entry', J); st.assume(*good_entry(j))
    r = ('o', 'entry'); st.store[r] = JsonV(j); st.types[r] = None
    m = kit.fresh_obj(E, st, R.mapT, 'map'); base = z3.Const('base_path', S)
    E.heap_init(st); h0 = {n: R.heap(st, n) for n in ('data', 'ext_file')}
    f = E.u.fn(PARSE); args = []
    for p in f['params']:
        t = E.ty(p['t']); t = t.e if t.isref() else t
        args.append(Loc(r) if t.cls() == 'json' else m if t.cls() == 'map' else base)
    return args, None, Ctx(R=R, j=j, m=m, m0=E.read(st, m), base=base, h0=h0, na0=st.ghost['nextaddr'])
def post_parse(E, st, out, ctx):
    if isinstance(out, Thrown): E.oblige(st, 'a well-formed entry is accepted', False, 'post'); return
    R = ctx.R; k = R.key(ctx.j); m = E.read(st, ctx.m); x = z3.Const('k', k.sort())
    E.oblige(st, 'the capture is present', m.dom[k], 'post')
    E.oblige(st, 'a capture already present stays', z3.Implies(ctx.m0.dom[k], m.val[k] == ctx.m0.val[k]), 'post')
    E.oblige(st, 'no other capture changes', z3.ForAll([x], z3.Implies(x != k, z3.And(m.dom[x] == ctx.m0.dom[x], z3.Implies(m.dom[x], m.val[x] == ctx.m0.val[x])))), 'post')
    s = st.copy(); s.assume(z3.Not(ctx.m0.dom[k]))
    for nm, g in R.matches(s, m.val[k], ctx.j, ctx.base): E.oblige(s, nm, g, 'post')
    for g in old_cells(E, R, st, ctx.h0, ctx.na0): E.oblige(st, 'data of other captures is left alone', g, 'post')
    E.oblige(st, 'addresses only grow', st.ghost['nextaddr'] >= ctx.na0, 'post')
def m_parse(E, st, args, this, node):
    """the contract proved above"""
    R = Rec(E); f = E.u.fn(PARSE)
    jl = ml = base = None
    for p, a in zip(f['params'], args):
        t = E.ty(p['t']); t = t.e if t.isref() else t
        if t.cls() == 'json': jl = a
        elif t.cls() == 'map': ml = a
        else: base = zs(E.val(st, a))
    j = E.val(st, jl).t; m0 = E.read(st, ml); k = R.key(j)
    E.oblige(st, 'entries are read from a well-formed list', z3.And(*good_entry(j)), 'pre')
    for s, has in E.fork(st, m0.dom[k]):
        if has: yield s, VOID; continue
        na0 = s.ghost['nextaddr']
        h0 = {n: R.heap(s, n) for n in ('data', 'ext_file')}
        for n in ('data', 'ext_file'):
            r = E.heap(s, R.ft[n].args[0]); E.write(s, Loc(r), (z3.Const(fresh_name('heap'), h0[n].sort()), s.store[r][1]))
        na = z3.Int(fresh_name('nextaddr')); s.ghost['nextaddr'] = na; s.assume(na >= na0)
        s.assume(*old_cells(E, R, s, h0, na0))
        v = z3.Const(fresh_name('capture'), E.c.sort(R.recT))
        s.assume(*[g for _, g in R.matches(s, v, j, base)])
        n = z3.Int(fresh_name('size')); s.assume(n == zi(m0.size) + 1)
        E.write(s, ml, MapV(m0.kt, m0.vt, z3.Store(m0.dom, k, z3.BoolVal(True)), z3.Store(m0.val, k, v), n))
        yield s, VOID

# ---- ArgCaptureIO::from_index
def setup_from(E, st):
    R = Rec(E); E.c03r = R
    file = z3.Const('file', S); g = fs(st)
    # an arbitrary document with the members of an index (and any others)
    M = z3.Const('members', z3.ArraySort(S, J)); D = z3.Const('present', z3.ArraySort(S, B)); CA = z3.Const('entries', z3.ArraySort(I, J)); n = z3.Int('n_entries')
    fmt, inv = z3.Ints('format invocation'); target, elem = z3.Consts('target element_id', S)
    for k, x in (('format', J.jint(fmt)), ('target', J.jstr(target)), ('element_id', J.jstr(elem)), ('invocation', J.jint(inv)), ('captures', J.jarr(CA, n))):
        M = z3.Store(M, zs(k), x); D = z3.Store(D, zs(k), z3.BoolVal(True))
    doc = J.jobj(M, D); g['fs_j'] = z3.Store(g['fs_j'], file, doc); caps = J.jarr(CA, n); i = z3.Int('t')
    E.c03elem = elem
    idx = z3.Function('entry_of', E.c.sort(R.kt), I); E.c03idx = idx; E.c03caps = CA
    st.assume(fmt >= 0, fmt < 1 << 32, inv >= 0, inv < 1 << 32, n >= 0)
    st.assume(z3.Not(z3.Contains(target, zs('\0'))))
    e = CA[i]
    st.assume(z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < n), z3.And(idx(R.key(e)) == i, *good_entry(e))), patterns=[e]))
    E.heap_init(st); E.PP = PPARENT(file)
    for x in ('data', 'ext_file'): R.heap(st, x)
    return [file], None, Ctx(R=R, fmt=fmt, target=target, elem=elem, inv=inv, file=file, caps=CA, n=n, idx=idx, x0=g['fs_x'])

def loaded(E, R, st, m, upto, idx, caps, base):
    """map m holds exactly the captures of the first entries"""
    t = z3.Int('t'); k = z3.Const('k', E.c.sort(R.kt)); e = caps[t]
    return [('each entry is loaded', z3.ForAll([t], z3.Implies(z3.And(t >= 0, t < upto), m.dom[R.key(e)]), patterns=[e])),
            ('nothing else is loaded', forall([k], z3.Implies(m.dom[k], z3.And(idx(k) >= 0, idx(k) < upto, R.key(caps[idx(k)]) == k)), m.dom[k])),
            ('each capture is that of its entry', z3.ForAll([t], z3.Implies(z3.And(t >= 0, t < upto), z3.And(*[g for _, g in R.matches(st, m.val[R.key(e)], e, base)])), patterns=[e]))]

def obj_of(E, st, a=None):
    """(heap location type, address) of the loaded store"""
    t = [x for x in st.store if x[0] == 'heap' and 'ArgCaptureIO' in x[1]]
    return t[0] if t else None

def inv_from(v):
    E = v.eng; R = E.c03r; out = []
    hr = obj_of(E, v.entry)
    if hr is None: return out
    sps = [x for r, x in v.entry.store.items() if isinstance(x, SP) and 'ArgCaptureIO' in x.t.key()]
    if not sps: return out
    oid = sps[0].addr
    def obj(w): return E.read(w.st, Loc(hr, (('hp', oid),)))
    c = lambda w: [f for n, f in obj(w).f.items() if isinstance(f, MapV) and f.vt.cls() == 'map'][0]
    ekey = E.c03elem
    def inner(w):
        m = c(w); facts = []
        d = E.c.dec(z3.Select(m.val, ekey), m.vt, facts); w.st.assume(*facts); return d
    for q in range(3):
        out.append(('the captures read so far %d' % q, lambda w, q=q: loaded(E, R, w.st, inner(w), w.k, E.c03idx, E.c03caps, E.PP)[q][1]))
    x = z3.Const('e', S)
    out.append(('only this element has captures', lambda w: z3.ForAll([x], c(w).dom[x] == (x == ekey))))
    def rest(w):
        o, o0 = obj(w), E.read(w.entry, Loc(hr, (('hp', oid),)))
        gs = []
        for n, f in o.f.items():
            f0 = o0.f[n]
            if isinstance(f, MapV) and f.vt.cls() == 'map': continue
            if isinstance(f, MapV): gs += [f.dom == f0.dom, f.val == f0.val]
            else: gs.append(zs(f) == zs(f0))
        return z3.And(*gs)
    out.append(('name and counters stay', rest))
    out.append(('addresses grow', lambda w: w.st.ghost['nextaddr'] >= w.entry.ghost['nextaddr']))
    return out

def post_from(E, st, out, ctx):
    R = ctx.R
    if isinstance(out, Thrown):
        op = [x for x in st.events if x[0] == 'open']
        if out.tn.endswith('parse_error') and op: return
        E.oblige(st, 'an index that can be read is loaded', z3.Or(z3.Not(ctx.x0[ctx.file]), ctx.fmt != 1, *[z3.Not(zb(x[3])) for x in op]), 'post')
        return
    E.oblige(st, 'a missing index is rejected', ctx.x0[ctx.file], 'post')
    E.oblige(st, 'an index of another format is rejected', ctx.fmt == 1, 'post')
    o = E.read(st, Loc(E.heap(st, out.t), (("hp", out.addr),)))
    nm = [f for n, f in o.f.items() if isz(f) and f.sort() == S][0]
    inv = [f for n, f in o.f.items() if isinstance(f, MapV) and f.vt.isint()][0]
    cap_ = [f for n, f in o.f.items() if isinstance(f, MapV) and f.vt.cls() == 'map'][0]
    e = ctx.elem; x = z3.Const('e', S)
    E.oblige(st, 'target name', nm == ctx.target, 'post')
    E.oblige(st, 'invocation number', z3.And(inv.dom[e], inv.val[e] == ctx.inv), 'post')
    E.oblige(st, 'no other invocation counter', z3.ForAll([x], z3.Implies(inv.dom[x], x == e)), 'post')
    E.oblige(st, 'no other element has captures', z3.ForAll([x], z3.Implies(cap_.dom[x], x == e)), 'post')
    E.oblige(st, 'the element is present', cap_.dom[e], 'post')
    facts = []; m = E.c.dec(z3.Select(cap_.val, e), cap_.vt, facts); st.assume(*facts)
    for nm, g in loaded(E, R, st, m, ctx.n, ctx.idx, ctx.caps, E.PP): E.oblige(st, nm, g, 'post')

def from_config():
    return dict(models={PARSE: m_parse}, loopinv=inv_from, feas_ms=300)

PROOFS = [Proof('serialize_into', unit, 'arg_capture::ArgCapture::serialize_into', setup_ser, post_ser, config=dict(models=B64_MODELS, loopinv=inv_ser)),
          Proof('write_index', unit, NS + 'write_index', setup_wr, post_wr, covers=('return', 'throw'), config=write_setup_config()),
          Proof('parse_from', unit, PARSE, setup_parse, post_parse, config=dict(models=B64_MODELS, loopinv=inv_ser)),
          Proof('from_index', unit, NS + 'from_index', setup_from, post_from, covers=('return', 'throw'), config=from_config())]
def lemmas():
    """what is written (entry) and what is made of it (matches), put together"""
    i = z3.Int('i'); a = z3.Const('bytes', z3.ArraySort(I, I)); a2 = z3.Const('bytes_loaded', z3.ArraySort(I, I)); n, n2 = z3.Ints('n n2'); t = z3.Const('text', S)
    p, d = z3.Consts('ext_file parent', S); f = PFILE(p)
    da, ja, db = (z3.Const(x, z3.ArraySort(I, I)) for x in ('dims', 'listed', 'dims_loaded')); m, m1, m2 = z3.Ints('m m1 m2')
    rng = lambda b: z3.And(i >= 0, i < b)
    return [('inline bytes survive the round trip', [n >= 0, decodes_to(t, a, n), n2 == BDEC_N(t), z3.ForAll([i], z3.Implies(rng(BDEC_N(t)), a2[i] == BDEC_A(t)[i]))],
             z3.And(n2 == n, z3.ForAll([i], z3.Implies(rng(n), a2[i] == a[i])))),
            ('a file beside the index is found again', [p == z3.Concat(d, zs('/'), f), d != zs(''), z3.Not(z3.SuffixOf(zs('/'), d)), z3.Not(z3.PrefixOf(zs('/'), f))], path_join(d, f) == p),
            ('dimensions survive the round trip', [m >= 0, m1 == m, m2 == m1, z3.ForAll([i], z3.Implies(rng(m), ja[i] == da[i])), z3.ForAll([i], z3.Implies(rng(m2), db[i] == ja[i]))],
             z3.And(m2 == m, z3.ForAll([i], z3.Implies(rng(m), db[i] == da[i]))))]
REPLAY = [dict(src='c03.cpp', repo=['arg-capture-io/src/arg_capture_io.cpp', 'arg-capture-io/src/base64.cpp'])]
ASSUME = ['strings stored in an index (target name, element id, file names) are valid UTF-8; nlohmann::json text parses back to the value that was dumped',
          'every captured element has been entered before (its invocation counter exists)', 'each stored record carries the index and direction of its key (invariant established by C01, C02, C05)',
          'std::filesystem paths are POSIX text; file systems keep what a successful flush and close wrote', 'a stored file lies in the directory of the index']
