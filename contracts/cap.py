"""Shared by the capture contracts: ArgCaptureIO state, records, the product of the dimensions."""
import z3
from ccv.values import *
from ccv.prove import Proof, Ctx
from ccv import frontend, kit
from ccv.stl import PROD, fs

NS = 'arg_capture::ArgCaptureIO::'
def unit(): return frontend.load('arg-capture-io/src/arg_capture_io.cpp', roots=[frontend.REPO + '/', frontend.BUILD + '/'])

def fields(E, t):
    """(name, invocation counters, captures) members of the capture store, by type"""
    rec = E.c.record(t)
    name = [n for n, ft in rec if ft.cls() == 'string'][0]
    inv = [n for n, ft in rec if ft.cls() == 'map' and ft.args[1].isint()][0]
    cap = [n for n, ft in rec if ft.cls() == 'map' and ft.args[1].cls() == 'map'][0]
    return name, inv, cap

class Store:
    """an arbitrary capture store and views of it"""
    def __init__(self, E, st, fn, valid=True):
        self.E = E
        t = E.ty(fn['cls'])
        if 'DaisyRtl' in t.key(): pass
        self.t = t
        self.loc = kit.fresh_obj(E, st, t, 'io')
        self.name, self.inv, self.cap = fields(E, t)
        v = E.read(st, self.loc)
        self.capT = v.f[self.cap].vt            # map of one element
        self.recT = self.capT.args[1]
        E.heap_init(st)
        self.nextaddr0 = st.ghost['nextaddr']
        for sp in ('data', 'ext_file'):
            ft = dict(E.c.record(self.recT))[sp]
            E.heap(st, ft.args[0])
        self.snap(st, '0')
    def snap(self, st, tag):
        E = self.E
        o = E.read(st, self.loc)
        setattr(self, 'obj' + tag, o)
        setattr(self, 'heaps' + tag, {k: v for k, v in st.store.items() if k[0] == 'heap'})
    def field(self, term, n):
        rec = self.E.c.record(self.recT); s = self.E.c.sort(self.recT)
        return s.accessor(0, [x for x, _ in rec].index(n))(term)
    def inner(self, o, e):
        """(dom, val) of element e's captures; an absent element has none"""
        m = o.f[self.cap]
        d = self.E.c.map_dt(*self.capT.args[:2])
        t = z3.Select(m.val, e)
        return m.dom[e], d.accessor(0, 0)(t), d.accessor(0, 1)(t), d.accessor(0, 2)(t)
    def key(self, a, b):
        kt = self.capT.args[0]
        return self.E.c.mk(self.E.c.sort(kt), zi(a), zb(b))
    def has(self, o, e, k):
        m, d, v, n = self.inner(o, e)
        return z3.And(m, d[k])
    def rec(self, o, e, k):
        m, d, v, n = self.inner(o, e)
        return v[k]
    def heap(self, st, n):
        ft = dict(self.E.c.record(self.recT))[n]
        return st.store[self.E.heap(st, ft.args[0])][0]
    def heap0(self, n):
        ft = dict(self.E.c.record(self.recT))[n]
        return self.heaps0[('heap', ft.args[0].key())][0]
    def frame(self, st, e, k):
        """nothing but the entry (e, k) differs from the start"""
        E = self.E; o, o0 = E.read(st, self.loc), self.obj0
        e2 = z3.Const(fresh_name('e'), S); k2 = z3.Const(fresh_name('k'), E.c.sort(self.capT.args[0]))
        E.oblige(st, 'other entries exist exactly as before', z3.ForAll([e2, k2], z3.Implies(z3.Not(z3.And(e2 == e, k2 == k)), self.has(o, e2, k2) == self.has(o0, e2, k2))), 'post')
        E.oblige(st, 'other entries are unchanged', z3.ForAll([e2, k2], z3.Implies(z3.And(z3.Not(z3.And(e2 == e, k2 == k)), self.has(o0, e2, k2)), self.rec(o, e2, k2) == self.rec(o0, e2, k2))), 'post')
        E.oblige(st, 'no other element appears or disappears', z3.ForAll([e2], z3.Implies(e2 != e, o.f[self.cap].dom[e2] == o0.f[self.cap].dom[e2])), 'post')
        self.frame_rest(st)
    def frame_rest(self, st):
        E = self.E; o, o0 = E.read(st, self.loc), self.obj0
        E.oblige(st, 'the name is unchanged', zs(o.f[self.name]) == zs(o0.f[self.name]), 'post')
        E.oblige(st, 'the invocation counters are unchanged', kit.map_eq(o.f[self.inv], o0.f[self.inv]), 'post')
        a = z3.Int(fresh_name('a'))
        for n in ('data', 'ext_file'):
            E.oblige(st, 'the %s of older captures is unchanged' % n, z3.ForAll([a], z3.Implies(a < self.nextaddr0, self.heap(st, n)[a] == self.heap0(n)[a])), 'post')
    def meta(self, E, st, e, k, arg, after, pt, dims):
        """the metadata of the entry is that of the call"""
        o = E.read(st, self.loc)
        E.oblige(st, 'the entry exists', self.has(o, e, k), 'post')
        r = self.rec(o, e, k)
        E.oblige(st, 'argument index', self.field(r, 'arg_idx') == zi(arg), 'post')
        E.oblige(st, 'direction', self.field(r, 'after') == zb(after), 'post')
        E.oblige(st, 'primitive type', self.field(r, 'primitive_type') == zi(pt), 'post')
        d = E.c.vec_dt(dims.et); rd = self.field(r, 'dims'); i = z3.Int(fresh_name('i'))
        E.oblige(st, 'number of dimensions', d.accessor(0, 1)(rd) == zi(dims.n), 'post')
        E.oblige(st, 'dimensions in order', z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < zi(dims.n)), d.accessor(0, 0)(rd)[i] == dims.a[i])), 'post')
        return r
    def sizes_ok(self, st):
        """type invariant of the maps: a non-empty domain has a positive size"""

def source(E, st, n, name='src'):
    """a caller buffer of n bytes"""
    a = z3.Const(name + '_bytes', z3.ArraySort(I, I)); i = z3.Int('i')
    st.assume(z3.ForAll([i], z3.And(a[i] >= 0, a[i] <= 255), patterns=[a[i]]))
    r = ('o', name); st.store[r] = VecV(None, a, n); st.types[r] = None
    return Loc(r), a

# ---- products of the dimensions accumulated by a loop (std::accumulate has a model of its own)
M64 = 1 << 64
def positions(w):
    out = []
    for r, x in list(w.entry.store.items()):
        if r[0] != 'v' or (r, ()) not in w.mods: continue
        if isinstance(x, IterV) and x.kind == 'vec' and x.pos is not None: out.append(lambda u, r=r: zi(u.st.store[r].pos))
        elif isinstance(r[1], str) or (isz(x) and x.sort() == I) or (isinstance(x, int) and not isinstance(x, bool)): out.append(lambda u, r=r: zi(u.st.store[r]))
    return out
def product_inv(v):
    """some counter is within the dimensions; some accumulator is the product of as many of them, modulo 2^64"""
    out = []; ps = positions(v)
    for a, n in getattr(v.eng, 'c_dims', []):
        for p in ps:
            out.append(('position within the dimensions', lambda w, p=p, n=n: z3.And(p(w) >= 0, p(w) <= n)))
            for r in ps: out.append(('product so far', lambda w, p=p, r=r, a=a: z3.Implies(p(w) >= 0, r(w) == PROD(a, p(w)) % M64)))
    return out
def product_facts(v):
    """definition of the product; multiplication commutes with reduction modulo 2^64"""
    out = []; ps = positions(v)
    for a, n in getattr(v.eng, 'c_dims', []):
        for p in ps:
            x = p(v)
            for r in ps:
                if r is not p: out.append(z3.Implies(z3.And(x >= 0, r(v) == PROD(a, x) % M64), (r(v) * a[x]) % M64 == PROD(a, x + 1) % M64))
    return out
def product_variant(v): return [n - p(v) for a, n in getattr(v.eng, 'c_dims', []) for p in positions(v)]
PCFG = dict(loopinv=product_inv, loop_facts=product_facts, variant=product_variant)
def product_setup(E, st, dims):
    E.c_dims = [(dims.a, zi(dims.n))]
    st.assume(PROD(dims.a, z3.IntVal(0)) == 1)
    if E.bmc is not None:
        for k in range(E.bmc + 1): st.assume(PROD(dims.a, z3.IntVal(k + 1)) == PROD(dims.a, z3.IntVal(k)) * dims.a[k])

def dims_arg(E, st, name='dims'):
    f = [x for x in E.u.functions if x['qn'].endswith('ArgCaptureIO::create_and_capture_inline')][0]
    t = [E.ty(p['t']) for p in f['params']]
    vt = [x.e for x in t if x.isref() and x.e.cls() == 'vec'][0]
    loc = kit.fresh_obj(E, st, vt, name)
    return loc, E.read(st, loc)
