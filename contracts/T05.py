"""T05: views of tensors (sdfg/src/types/tensor.cpp).

An expression is represented by the number it stands for (under an arbitrary, fixed valuation of its symbols)."""
import re
import z3
from ccv.values import *
from ccv.prove import Proof, Ctx
from ccv import frontend, kit, stl
STUBS = '-I' + frontend.VERIF + '/stubs'
D = 'sdfg::types::Tensor::'
def unit():
    w = ''.join('#include "%s/sdfg/src/%s"\n' % (frontend.REPO, f) for f in ('types/scalar.cpp', 'types/tensor.cpp'))
    return frontend.load('sdfg/src/types/tensor.cpp', wrapper=w, roots=[frontend.REPO + '/', frontend.BUILD + '/'], extra=[STUBS])
# ------------------------------------------------------------------ assumed contracts of SymEngine
VAL = z3.Function('value_of', I, I)            # the number an expression stands for
LIT = z3.Function('is_literal', I, B)          # is it an integer literal
LITID = z3.Function('literal', I, I)           # the literal of a number
OPID = {o: z3.Function('expr_' + o, I, I, I) for o in ('mul', 'add', 'sub')}
NEGID = z3.Function('expr_neg', I, I)
def val(x): return VAL(zi(x))
def num(E, st, x): return zi(E.val(st, x))
def lit(st, n):
    x = LITID(zi(n)); st.assume(VAL(x) == zi(n), LIT(x)); return x
def m_int(E, st, args, this, node): yield st, lit(st, num(E, st, args[0]))
def m_bin(o):
    f = {'mul': lambda a, b: a * b, 'add': lambda a, b: a + b, 'sub': lambda a, b: a - b}[o]
    def m(E, st, args, this, node):
        a, b = num(E, st, args[0]), num(E, st, args[1]); x = OPID[o](a, b)
        st.assume(VAL(x) == f(VAL(a), VAL(b))); yield st, x
    return m
def m_neg(E, st, args, this, node):
    a = num(E, st, args[0]); x = NEGID(a); st.assume(VAL(x) == -VAL(a)); yield st, x
def m_same(E, st, args, this, node): yield st, num(E, st, this if this is not None else args[0])
def m_const(k):
    def m(E, st, args, this, node): yield st, lit(st, k)
    return m
def m_eq(E, st, args, this, node):
    """the same expression; integer literals are unique"""
    a, b = num(E, st, args[0]), num(E, st, args[1])
    for x in (a, b): st.assume(z3.Implies(LIT(x), LITID(VAL(x)) == x))
    yield st, a == b
def m_arrow(E, st, args, this, node):
    if not isinstance(this, Loc): this = E.newtemp(st, num(E, st, this), dict(E.c.record(tensor_ty(E)))['offset_'])
    yield st, PtrV(False, this)
def m_isa(E, st, args, this, node):
    t = str(node['fn'].get('ta')) if node else ''
    yield st, (LIT(num(E, st, args[0])) if 'Integer' in t_name(E, node) else z3.Bool(fresh_name('is_a')))
def t_name(E, node):
    try: return E.ty(node['fn']['ta'][0]).key()
    except Exception: return str(node['fn'].get('qn', '')) + str(node['fn'].get('ta', '')) if node else ''
def m_value(E, st, args, this, node): yield st, VAL(num(E, st, this))
def m_clone(E, st, args, this, node):
    """Scalar::clone (contract): a new scalar with the same attributes"""
    yield st, E.alloc(st, scalar_ty(E), E.read(st, this))
SY = 'SymEngine::'
MODELS = {SY + 'integer': m_int, SY + 'mul': m_bin('mul'), SY + 'add': m_bin('add'), SY + 'sub': m_bin('sub'), SY + 'neg': m_neg,
          SY + 'eq': m_eq, SY + 'is_a': m_isa, SY + 'rcp_dynamic_cast': m_same, SY + 'rcp_static_cast': m_same, SY + 'down_cast': m_same, SY + 'RCP::operator*': m_same, SY + 'RCP::operator->': m_arrow, SY + 'RCP::get': m_arrow,
          SY + 'Integer::as_int': m_value, 'sdfg::symbolic::zero': m_const(0), 'sdfg::symbolic::one': m_const(1), 'sdfg::symbolic::integer': m_int, 'sdfg::symbolic::eq': m_eq,
          'sdfg::symbolic::mul': m_bin('mul'), 'sdfg::symbolic::add': m_bin('add'), 'sdfg::symbolic::sub': m_bin('sub'),
          'sdfg::types::Scalar::clone': m_clone}
def plain(q):
    while re.search('<[^<>]*>', q): q = re.sub('<[^<>]*>', '', q)
    return q
CFG = dict(model_for=lambda q: MODELS.get(plain(q)))
def tensor_ty(E): return E.ty(E.proof.unit().fn(D + 'is_scalar')['cls'])
def scalar_ty(E): return E.ty(E.proof.unit().fn('sdfg::types::Scalar::type_id')['cls'])
# ------------------------------------------------------------------
def tensor(E, st):
    this = kit.fresh_obj(E, st, tensor_ty(E), 'tensor')
    o = E.read(st, this)
    s = scalar_ty(E)
    el = E.fresh(st, s, 'element')
    o = o.set('element_type_', E.alloc(st, s, el))
    E.write(st, this, o)
    sh, sr = o.f['shape_'], o.f['strides_']
    st.assume(zi(sh.n) == zi(sr.n), zi(sh.n) < 1 << 40)
    return this, o, el
def setup_axis(E, st):
    this, o, el = tensor(E, st)
    a = z3.Int('axis'); st.assume(a >= 0, a < 1 << 64)
    return [a], this, Ctx(o=o, el=el, a=a)
def setup_none(E, st):
    this, o, el = tensor(E, st)
    return [], this, Ctx(o=o, el=el)
def view(E, st, out, c, skip=()):
    E.oblige(st, 'a tensor is returned', zi(out.addr) != 0, 'post')
    r = E.read(st, E.deref(st, out))
    for n, t in E.c.record(tensor_ty(E)):
        if n in ('shape_', 'strides_', 'offset_', 'element_type_'): continue
        E.oblige(st, '%s is kept' % n.rstrip('_'), E.c.enc(r.f[n], t) == E.c.enc(c.o.f[n], t), 'post')
    e = r.f['element_type_']
    E.oblige(st, 'the element type is kept', E.c.enc(E.read(st, E.deref(st, e)), scalar_ty(E)) == E.c.enc(c.el, scalar_ty(E)), 'post')
    return r
def post_flip(E, st, out, c):
    o = c.o; sh, sr = o.f['shape_'], o.f['strides_']
    if isinstance(out, Thrown): E.oblige(st, 'fails only for an axis that does not exist', c.a >= zi(sh.n), 'post'); return
    E.oblige(st, 'an axis that does not exist is an error', c.a < zi(sh.n), 'post')
    r = view(E, st, out, c); sh2, sr2 = r.f['shape_'], r.f['strides_']
    k, i = z3.Ints('k i')
    E.oblige(st, 'rank kept', z3.And(zi(sh2.n) == zi(sh.n), zi(sr2.n) == zi(sr.n)), 'post')
    E.oblige(st, 'shape kept', z3.ForAll([k], z3.Implies(z3.And(k >= 0, k < zi(sh.n)), val(sh2.a[k]) == val(sh.a[k]))), 'post')
    E.oblige(st, 'other strides kept', z3.ForAll([k], z3.Implies(z3.And(k >= 0, k < zi(sh.n), k != c.a), val(sr2.a[k]) == val(sr.a[k]))), 'post')
    E.oblige(st, 'index i of the axis is index shape-1-i of the original', val(r.f['offset_']) + i * val(sr2.a[c.a]) == val(o.f['offset_']) + (val(sh.a[c.a]) - 1 - i) * val(sr.a[c.a]), 'post')
def post_newaxis(E, st, out, c):
    o = c.o; sh, sr = o.f['shape_'], o.f['strides_']
    if isinstance(out, Thrown): E.oblige(st, 'fails only for an axis past the end', c.a > zi(sh.n), 'post'); return
    E.oblige(st, 'an axis past the end is an error', c.a <= zi(sh.n), 'post')
    r = view(E, st, out, c); sh2, sr2 = r.f['shape_'], r.f['strides_']
    k = z3.Int('k')
    E.oblige(st, 'one axis more', z3.And(zi(sh2.n) == zi(sh.n) + 1, zi(sr2.n) == zi(sr.n) + 1), 'post')
    E.oblige(st, 'the new axis has extent one', val(sh2.a[c.a]) == 1, 'post')
    for n, x, y in (('extent', sh, sh2), ('stride', sr, sr2)):
        E.oblige(st, '%s of the axes before' % n, z3.ForAll([k], z3.Implies(z3.And(k >= 0, k < c.a), val(y.a[k]) == val(x.a[k]))), 'post')
        E.oblige(st, '%s of the axes after' % n, z3.ForAll([k], z3.Implies(z3.And(k >= c.a, k < zi(x.n)), val(y.a[k + 1]) == val(x.a[k]))), 'post')
    E.oblige(st, 'offset kept', val(r.f['offset_']) == val(o.f['offset_']), 'post')
def post_squeeze(E, st, out, c):
    o = c.o; sh, sr = o.f['shape_'], o.f['strides_']
    if isinstance(out, Thrown): return
    E.oblige(st, 'the axis exists', c.a < zi(sh.n), 'post')
    E.oblige(st, 'the axis has extent one', z3.Implies(c.a < zi(sh.n), val(sh.a[c.a]) == 1), 'post')
    r = view(E, st, out, c); sh2, sr2 = r.f['shape_'], r.f['strides_']
    k = z3.Int('k')
    E.oblige(st, 'one axis less', z3.And(zi(sh2.n) == zi(sh.n) - 1, zi(sr2.n) == zi(sr.n) - 1), 'post')
    for n, x, y in (('extent', sh, sh2), ('stride', sr, sr2)):
        E.oblige(st, '%s of the axes before' % n, z3.ForAll([k], z3.Implies(z3.And(k >= 0, k < c.a), val(y.a[k]) == val(x.a[k]))), 'post')
        E.oblige(st, '%s of the axes after' % n, z3.ForAll([k], z3.Implies(z3.And(k >= c.a, k < zi(y.n)), val(y.a[k]) == val(x.a[k + 1]))), 'post')
    E.oblige(st, 'offset kept', val(r.f['offset_']) == val(o.f['offset_']), 'post')
# ------------------------------------------------------------------ products and counts along the axes
A = z3.ArraySort(I, I)
PR = z3.Function('product_of_first', A, I, I)       # product of the first k extents
def prdef(a, k): return [PR(a, z3.IntVal(0)) == 1, z3.Implies(k >= 1, PR(a, k) == PR(a, k - 1) * VAL(a[k - 1]))]
CN = z3.Function('kept_of_first', A, I, I)          # number of axes among the first k whose extent is not the literal one
def dropped(a, k): return z3.And(LIT(a[k]), VAL(a[k]) == 1)
def cndef(a, k): return [CN(a, z3.IntVal(0)) == 0, z3.Implies(k >= 1, CN(a, k) == CN(a, k - 1) + z3.If(dropped(a, k - 1), 0, 1))]
def positions(w):
    out = []
    for r, x in list(w.entry.store.items()):
        if r[0] == 'v' and isinstance(x, IterV) and x.kind == 'vec' and x.pos is not None and (r, ()) in w.mods: out.append(lambda u, r=r: zi(u.st.store[r].pos))
        elif r[0] == 'v' and isinstance(r[1], str): out.append(lambda u, r=r: zi(u.st.store[r]))
    for r, n in w.ints(True): out.append(lambda u, r=r: zi(u.st.store[r]))
    return out
def vecs(w): return [r for r, x in w.entry.store.items() if r[0] == 'v' and isinstance(x, VecV) and any(k[0] == r for k in w.mods)]
def arrays(w):
    """extents in scope: (term, length)"""
    out = list(w.eng.c_shapes)
    for r, x in w.entry.store.items():
        if r[0] == 'v' and isinstance(x, VecV) and not any(k[0] == r for k in w.mods): out.append((x.a, zi(x.n)))
    seen = []; res = []
    for a, n in out:
        if not any(a.eq(b) for b in seen): seen.append(a); res.append((a, n))
    return res
def inv(v):
    out = []; k = z3.Int('kk')
    SH = arrays(v)
    ps = positions(v); vs = vecs(v); accs = [r for r, n in v.ints(True)]
    for p in ps:
        for a, n in SH:
            out.append(('position in range', lambda w, p=p, n=n: z3.And(p(w) >= 0, p(w) <= n)))
            out.append(('position behind the last axis', lambda w, p=p, n=n: p(w) <= n - 1))
            for r in accs: out.append(('product so far', lambda w, p=p, a=a, r=r: VAL(zi(w.st.store[r])) == PR(a, p(w))))
    for r in vs:
        def V(w, r=r): return w.st.store[r]
        for a, n in SH:
            out.append(('one entry per axis', lambda w, V=V, n=n: zi(V(w).n) == n))
            out.append(('the last stride is one', lambda w, V=V, n=n: z3.Implies(n >= 1, VAL(V(w).a[n - 1]) == 1)))
            for p in ps:
                for off in (0, 1):
                    out.append(('strides so far', lambda w, V=V, a=a, n=n, p=p, off=off: z3.ForAll([k], z3.Implies(z3.And(k >= p(w) + off, k >= 0, k < n - 1), VAL(V(w).a[k]) == VAL(V(w).a[k + 1]) * VAL(a[k + 1])))))
                for q in accs:
                    for d in (0, 1):      # the counter is the axis just written, or the one below it
                        out.append(('the next stride', lambda w, V=V, a=a, n=n, p=p, q=q, d=d: z3.And(z3.Implies(p(w) + d == n, VAL(zi(w.st.store[q])) == 1), z3.Implies(z3.And(p(w) + d < n, p(w) + d >= 0), VAL(zi(w.st.store[q])) == VAL(V(w).a[p(w) + d]) * VAL(a[p(w) + d])))))
                        out.append(('the last stride is one once written', lambda w, V=V, n=n, p=p, d=d: z3.Implies(z3.And(n >= 1, p(w) + d < n), VAL(V(w).a[n - 1]) == 1)))
        for a, n in v.eng.c_shapes[:1]:
            for p in ps:
                out.append(('as many entries as kept axes', lambda w, V=V, a=a, p=p: zi(V(w).n) == CN(a, p(w))))
                for src in v.eng.c_sources:
                    out.append(('kept entries', lambda w, V=V, a=a, p=p, src=src: z3.ForAll([k], z3.Implies(z3.And(k >= 0, k < p(w)), z3.And(CN(a, k) >= 0, CN(a, k) <= CN(a, p(w)), z3.Implies(z3.Not(dropped(a, k)), z3.And(CN(a, k) < CN(a, p(w)), VAL(V(w).a[CN(a, k)]) == VAL(src[k])))) ))))
    return out
def facts(v):
    out = []
    for p in positions(v):
        x = p(v)
        for a, n in v.eng.c_shapes: out += prdef(a, x) + prdef(a, x + 1) + cndef(a, x) + cndef(a, x + 1)
    return out
def variant(v):
    out = []
    for p in positions(v):
        out.append(p(v) + 1)
        for a, n in arrays(v): out.append(n - p(v))
    return out
LCFG = dict(CFG, loopinv=inv, loop_facts=facts, variant=variant)
def known(E, st, *vs):
    E.c_shapes = [(v.a, zi(v.n)) for v in vs]; E.c_sources = []
    for v in vs: st.assume(*prdef(v.a, zi(v.n))); st.assume(*cndef(v.a, zi(v.n)))
def setup_strides(E, st):
    f = E.u.fn(D + 'strides_from_shape'); s = kit.fresh_param(E, st, f, 0, 'shape'); v = E.read(st, s)
    st.assume(zi(v.n) < 1 << 40); known(E, st, v)
    return [s], None, Ctx(v=v)
def row_major(E, st, sh, sr, what=''):
    k = z3.Int('k')
    E.oblige(st, what + 'one stride per axis', zi(sr.n) == zi(sh.n), 'post')
    E.oblige(st, what + 'the last axis has stride one', z3.Implies(zi(sh.n) >= 1, val(sr.a[zi(sh.n) - 1]) == 1), 'post')
    E.oblige(st, what + 'each stride is the extent times the stride of the next axis', z3.ForAll([k], z3.Implies(z3.And(k >= 0, k < zi(sh.n) - 1), val(sr.a[k]) == val(sr.a[k + 1]) * val(sh.a[k + 1]))), 'post')
def post_strides(E, st, out, c):
    if isinstance(out, Thrown): E.oblige(st, 'does not fail', False, 'post'); return
    row_major(E, st, c.v, out if isinstance(out, VecV) else E.read(st, out))
def setup_loop(E, st):
    this, o, el = tensor(E, st); known(E, st, o.f['shape_']); E.c_sources = [o.f['shape_'].a, o.f['strides_'].a]
    return [], this, Ctx(o=o, el=el)
def post_total(E, st, out, c):
    if isinstance(out, Thrown): E.oblige(st, 'does not fail', False, 'post'); return
    v = c.o.f['shape_']; E.oblige(st, 'the product of all extents', val(E.val(st, out)) == PR(v.a, zi(v.n)), 'post')
def post_squeeze_all(E, st, out, c):
    if isinstance(out, Thrown): E.oblige(st, 'does not fail', False, 'post'); return
    o = c.o; sh, sr = o.f['shape_'], o.f['strides_']
    r = view(E, st, out, c); sh2, sr2 = r.f['shape_'], r.f['strides_']; k = z3.Int('k'); C = lambda x: CN(sh.a, x)
    E.oblige(st, 'exactly the axes that are literally one are gone', z3.And(zi(sh2.n) == C(zi(sh.n)), zi(sr2.n) == C(zi(sh.n))), 'post')
    for n, x, y in (('extents', sh, sh2), ('strides', sr, sr2)):
        E.oblige(st, '%s of the kept axes, in order' % n, z3.ForAll([k], z3.Implies(z3.And(k >= 0, k < zi(sh.n), z3.Not(dropped(sh.a, k))), z3.And(C(k) >= 0, C(k) < zi(y.n), val(y.a[C(k)]) == val(x.a[k])))), 'post')
    E.oblige(st, 'offset kept', val(r.f['offset_']) == val(o.f['offset_']), 'post')
def setup_reshape(E, st):
    this, o, el = tensor(E, st)
    f = E.u.fn(D + 'reshape'); s = kit.fresh_param(E, st, f, 0, 'new_shape'); v = E.read(st, s)
    st.assume(zi(v.n) < 1 << 40); known(E, st, o.f['shape_'], v)
    return [s], this, Ctx(o=o, el=el, v=v)
def post_reshape(E, st, out, c):
    if isinstance(out, Thrown): return
    o = c.o; sh = o.f['shape_']
    E.oblige(st, 'as many elements as before', PR(sh.a, zi(sh.n)) == PR(c.v.a, zi(c.v.n)), 'post')
    r = view(E, st, out, c); k = z3.Int('k'); sh2 = r.f['shape_']
    E.oblige(st, 'the requested shape', z3.And(zi(sh2.n) == zi(c.v.n), z3.ForAll([k], z3.Implies(z3.And(k >= 0, k < zi(sh2.n)), val(sh2.a[k]) == val(c.v.a[k])))), 'post')
    row_major(E, st, c.v, r.f['strides_'], 'row-major: ')
    E.oblige(st, 'offset kept', val(r.f['offset_']) == val(o.f['offset_']), 'post')
PROOFS = [Proof('flip', unit, D + 'flip', setup_axis, post_flip, covers=('return', 'throw'), config=CFG),
          Proof('newaxis', unit, D + 'newaxis', setup_axis, post_newaxis, covers=('return', 'throw'), config=CFG),
          Proof('unsqueeze', unit, D + 'unsqueeze', setup_axis, post_newaxis, covers=('return', 'throw'), config=CFG),
          Proof('squeeze(axis)', unit, D + 'squeeze', setup_axis, post_squeeze, nparams=1, covers=('return', 'throw'), config=CFG),
          Proof('squeeze()', unit, D + 'squeeze', setup_loop, post_squeeze_all, nparams=0, config=LCFG, nobmc=True),
          Proof('strides_from_shape', unit, D + 'strides_from_shape', setup_strides, post_strides, config=LCFG, nobmc=True),
          Proof('total_elements', unit, D + 'total_elements', setup_loop, post_total, config=LCFG, nobmc=True),
          Proof('reshape', unit, D + 'reshape', setup_reshape, post_reshape, covers=('return', 'throw'), config=LCFG, nobmc=True)]
REPLAY = [dict(src='t05.cpp', flags=[STUBS, '-fno-access-control', '-DT05_SCALAR="%s/sdfg/src/types/scalar.cpp"' % frontend.REPO, '-DT05_TENSOR="%s/sdfg/src/types/tensor.cpp"' % frontend.REPO], san='undefined', libs=['-no-pie', '-Wl,--unresolved-symbols=ignore-all'])]
ASSUME = ['SymEngine (not installed here) by assumed contracts: integer, add, sub, mul and neg give an expression that stands for the number, sum, difference, product or negation, under any valuation of the symbols; eq tells whether two expressions are the same one; an expression is an Integer exactly if it is a literal, and literals are unique',
          'the campaign runs the real tensor.cpp and scalar.cpp over a small stand-in for SymEngine (polynomials in normal form, replay/t05.cpp)',
          'Scalar::clone copies the attributes (checked by the campaign)', 'tensors have as many strides as extents (every constructor call in tensor.cpp keeps that) and fewer than 2^40 axes']
