"""C07: capture and index file names never collide. Relational: the name computed by one call against the name
computed by an arbitrary other call of the same context (a copy of every input, sharing only name and directory)."""
import itertools
import z3
from ccv.values import *
from ccv.prove import Proof, Ctx
from ccv import engine, kit, names, solver
from ccv.stl import itos
from . import rtlcap
from .rtlcap import unit, NS

class Name: pass

def context(E, st):
    c = rtlcap.Ctxt(E, st)
    nm, d = zs(c.obj0.f[c.name]), zs(c.obj0.f[c.dir])
    st.assume(z3.Not(z3.Contains(nm, zs('/'))), z3.Not(z3.Contains(nm, zs('\0'))))
    return c, nm, d

def capture_names(budget):
    """every outcome of the file name function: (path condition, path, inputs)"""
    u = unit(); f = u.fn(NS + 'generate_arg_capture_output_filename')
    E = engine.Engine(u, 'seq', 0, None, {}, {'budget': budget} if budget else {})
    st = engine.State()
    E.frame = engine.Frame({'qn': f['qn'], 'd': -1, 'params': [], 'ret': f['ret']}, None); E.frame.__dict__['locals'] = set()
    c, nm, d = context(E, st)
    k = z3.Int('element_number'); st.assume(k >= 0, k < 1 << 64)
    e = itos(k); arg = z3.Int('arg_idx'); after = z3.Bool('after')
    st.assume(arg >= 0, arg < 1 << 31)
    o = c.obj0.f[c.inv]; st.assume(o.dom[e], o.val[e] >= 0, o.val[e] < 1 << 32)
    args = []
    for p in f['params']:
        t = E.ty(p['t']); t = t.e if t.isref() else t
        args.append(e if t.cls() == 'string' else after if t.isbool() else k if t.isint() and t.hi() > 1 << 32 else arg)
    out = []
    for s, r in E.call_body(st, f, args, c.loc):
        n = Name(); n.st = s; n.thrown = isinstance(r, Thrown); n.path = None if n.thrown else zs(r)
        n.k, n.arg, n.after, n.inv, n.nm, n.d = k, arg, after, o.val[e], nm, d
        out.append(n)
    return E, f, out

def m_any_entry(E, st, args, this, node):
    """what an index says about a capture does not matter here (C03): any JSON value may be left"""
    E.write(st, args[0], JsonV(z3.Const(fresh_name('json'), J))); yield st, VOID

def index_names(budget):
    """the path of every file that write_index opens, at an arbitrary element of the store"""
    u = unit(); f = u.fn('arg_capture::ArgCaptureIO::write_index')
    out = []
    E = engine.Engine(u, 'seq', 0, None, {}, dict({'models': {'arg_capture::ArgCapture::serialize_into': m_any_entry}, 'feas_ms': 200}, **({'budget': budget} if budget else {})))
    st = engine.State()
    E.frame = engine.Frame({'qn': f['qn'], 'd': -1, 'params': [], 'ret': f['ret']}, None); E.frame.__dict__['locals'] = set()
    c, nm, d = context(E, st)
    o, m = c.obj0.f[c.inv], c.obj0.f[c.cap]
    # every element captured has been entered (enter precedes capture) and its id is a decimal number
    e = z3.Const('e', S)
    st.assume(z3.ForAll([e], z3.Implies(m.dom[e], z3.And(o.dom[e], o.val[e] >= 0, o.val[e] < 1 << 32))))
    def hook(E, s, kind, path):
        if kind != 'ofstream' or E.mute: return
        n = Name(); n.st = s.copy(); n.path = zs(path); n.inv0 = o; n.nm, n.d = nm, d
        out.append(n)
    E.cfg['open_hook'] = hook
    r = ('o', 'base'); st.store[r] = d; st.types[r] = None
    for s, _ in E.call_body(st, f, [d], c.loc): pass
    return E, f, out

def key_of(n):
    """the element whose index is written: the key the counter is read with"""
    ks = []
    def walk(t):
        if z3.is_app(t):
            if t.decl().kind() == z3.Z3_OP_SELECT and t.arg(0).eq(n.inv0.val): ks.append(t.arg(1))
            for ch in t.children(): walk(ch)
    walk(n.path)
    return ks[0] if ks else None

def relate(E, a, b, decs, goal, what):
    """for every case of both names: equal names imply the goal"""
    keep = {str(x) for x in (a.nm, a.d)}
    pcs2 = names.rename(list(b.st.pc) + [b.path] + decs, {zx.decl().name() for zx in leaves(a.nm) + leaves(a.d)})
    pc2, path2, decs2 = pcs2[:len(b.st.pc)], pcs2[len(b.st.pc)], pcs2[len(b.st.pc) + 1:]
    pc = list(a.st.pc) + pc2
    st = engine.State(); st.pc = []
    for c1, p1 in names.cases(a.path, a.st.pc):
        for c2, p2 in names.cases(path2, pc2):
            hyp = pc + c1 + c2
            if not solver.feasible(pc, 700, goals=c1 + c2): continue
            try: eqs = names.decode(p1, p2, decs + decs2)
            except names.Ambiguous as x:
                E.obls.append(engine.Obligation('%s: %s' % (what, x), 'post', 'unknown', str(x), '', E.frame.fn['qn'], E.line, None, False, 0, 0, hyp, z3.BoolVal(False)))
                continue
            s = engine.State(); s.pc = list(st.pc)
            for h in hyp + (eqs or []):
                if not solver.hasq(h): s.pc.append(h)
            # decimal texts of different numbers differ
            for t in eqs or []:
                l, r = t.children()
                for x in (l, r):
                    if x.decl().kind() == z3.Z3_OP_INT_TO_STR: s.pc.append(z3.Implies(x.arg(0) >= 0, z3.StrToInt(x) == x.arg(0)))
            s.pc = [z3.simplify(x) for x in s.pc if not mentions_text(x)] + [z3.StrToInt(l) == z3.StrToInt(r) for t in eqs or [] for l, r in [t.children()] if True] + \
                   [z3.StrToInt(x) == x.arg(0) for t in eqs or [] for x in t.children() if x.decl().kind() == z3.Z3_OP_INT_TO_STR] + (eqs or [])
            E.oblige(s, what, z3.BoolVal(False) if eqs is None and False else (True if eqs is None else goal), 'post')

def mentions_text(f):
    """constraints between texts: not needed once the equation of the names is decoded"""
    seen = set(); st = [f]
    while st:
        x = st.pop()
        if x.get_id() in seen: continue
        seen.add(x.get_id())
        if z3.is_app(x) and x.decl().kind() in (z3.Z3_OP_SEQ_CONCAT, z3.Z3_OP_SEQ_CONTAINS, z3.Z3_OP_SEQ_PREFIX, z3.Z3_OP_SEQ_SUFFIX): return True
        if z3.is_quantifier(x): return True
        st.extend(x.children())
    return False

def leaves(t):
    out = []; st = [t]
    while st:
        x = st.pop()
        if z3.is_app(x):
            if x.num_args() == 0 and x.decl().kind() == z3.Z3_OP_UNINTERPRETED: out.append(x)
            st.extend(x.children())
    return out

def prime(x, n): return names.rename([x], {zx.decl().name() for zx in leaves(n.nm) + leaves(n.d)})[0]

def inside(E, n, decs, ends):
    """inside the output directory: the path is the directory, a separator (or none after one) and a single plain component"""
    for conds, ps in names.cases(n.path, n.st.pc):
        hyp = list(n.st.pc) + conds
        st = engine.State(); st.pc = [h for h in hyp if not solver.hasq(h)]
        i = 0
        if ps and ps[0].eq(n.d): i = 1
        elif not solver.feasible(hyp + [n.d != zs('')], 4000): i = 0          # empty directory: the current one
        else: E.oblige(st, 'the file lies in the output directory', False, 'post'); continue
        rest = list(ps[i:])
        if rest and names.lit(rest[0]) is not None and names.lit(rest[0]).startswith('/'): rest[0] = z3.StringVal(names.lit(rest[0])[1:])
        elif i == 1: E.oblige(st, 'a separator follows the directory', z3.Or(n.d == zs(''), z3.SuffixOf(zs('/'), n.d)), 'post')
        plain = True
        for p in rest:
            l = names.lit(p)
            if l is not None: plain = plain and '/' not in l
            elif names.is_dec(p, decs): pass
            elif p.eq(n.nm): pass                                             # by precondition
            else: E.oblige(st, 'no piece of the name contains a separator', z3.Not(z3.Contains(p, zs('/'))), 'post')
        E.oblige(st, 'no separator in the file name', plain, 'post')
        E.oblige(st, 'the file name is not a directory reference', any(names.lit(p) and len(names.lit(p)) > 2 for p in rest), 'post')

def prove_captures(p, bmc, budget):
    E, f, ns = capture_names(budget)
    E.frame.fn = f; E.line = f['l']
    good = [n for n in ns if not n.thrown]
    for n in ns:
        if n.thrown: E.oblige(n.st, 'naming a capture of an entered element does not fail', False, 'post')
    for a in good: inside(E, a, [], '.bin')
    for a, b in itertools.product(good, good):
        same = z3.And(a.k == prime(a.k, a), a.inv == prime(a.inv, a), a.arg == prime(a.arg, a), a.after == prime(a.after, a))
        relate(E, a, b, [], same, 'captures with the same file name agree in element, invocation, argument and direction')
    return E, {'return': len(good)}, len(ns), f

def prove_index(p, bmc, budget):
    E, f, ns = index_names(budget)
    E.frame.fn = f; E.line = f['l']
    if not ns: raise Unsupported('no index file is opened')
    for a in ns:
        a.key = key_of(a)
        if a.key is None: raise Unsupported('the element of an index file is not recognised')
        inside(E, a, [a.key], '.index.json')
    for a, b in itertools.product(ns, ns):
        relate(E, a, b, [a.key, b.key], z3.And(a.key == prime(b.key, b), prime(b.inv0.val, b)[prime(b.key, b)] == a.inv0.val[a.key]),
               'indexes with the same file name agree in element and invocation')
    E2, f2, cs = capture_names(budget)
    E2.frame.fn = f; E2.line = f['l']
    for a, b in itertools.product(ns, [c for c in cs if not c.thrown]):
        relate(E, a, b, [a.key], z3.BoolVal(False), 'an index file is never a capture file')
    return E, {'return': len(ns)}, len(ns), f

def lemmas(): return names.lemmas()
PROOFS = [Proof('capture file names', unit, NS + 'generate_arg_capture_output_filename', None, None, custom=prove_captures, nobmc=True),
          Proof('index file names', unit, 'arg_capture::ArgCaptureIO::write_index', None, None, custom=prove_index, nobmc=True)]
REPLAY = [dict(src='c07.cpp', repo=['arg-capture-io/src/arg_capture_io.cpp', 'arg-capture-io/src/base64.cpp', 'rtl/src/capture.cpp'])]
ASSUME = ['the name of the context contains no path separator and no NUL; argument indices are not negative; element ids are the decimal texts of numbers (they are, through the C interface)',
          'an element is entered before it is captured (the invocation number exists)']
