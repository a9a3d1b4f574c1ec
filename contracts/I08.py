"""I08: the event configuration."""
import z3
from ccv.values import *
from ccv.prove import Proof, Ctx
from ccv import kit, stl
from . import instr, I01, H01
from .instr import Inst, NS, unit

s_, d_ = z3.Const('s', S), z3.StringVal(',')
def setup_split(E, st):
    c = Inst(E, st, inv=False); E.inst = c
    f = E.u.fn(NS + 'split_string')
    null = z3.Bool('null')
    st.assume(z3.Length(s_) <= (1 << 60), z3.Not(z3.Contains(s_, z3.StrFromCode(0))))
    args = []; res = None
    for i, p in enumerate(f['params']):
        t = E.ty(p['t'])
        if t.isptr(): args.append(CStr(null, s_))
        else: res = kit.fresh_param(E, st, f, i, 'result'); args.append(res); E.res_i = i
    st.ghost['target'] = (res.root, d_); st.ghost['joined'] = z3.StringVal(''); st.ghost['clean'] = z3.BoolVal(True); st.ghost['count'] = z3.IntVal(0)
    old = E.read(st, res); st.assume(zi(old.n) <= 1 << 50)
    E.entry0 = st.copy()
    return args, c.loc, Ctx(c=c, null=null, res=res, old=old)
def post_split(E, st, out, x):
    if isinstance(out, (Thrown, Exited)): E.oblige(st, 'splitting does not fail', False, 'post'); return
    g = st.ghost; new = E.read(st, x.res); i = z3.Int('i')
    none = z3.Or(x.null, s_ == z3.StringVal(''))
    E.oblige(st, 'an unset or empty list has no names', z3.Implies(none, g['count'] == 0), 'post')
    E.oblige(st, 'the names joined with commas give the text back', z3.Implies(z3.Not(none), z3.And(g['joined'] == s_, g['count'] >= 1)), 'post')
    E.oblige(st, 'no name contains a comma', g['clean'], 'post')
    E.oblige(st, 'the names are appended', zi(new.n) == zi(x.old.n) + g['count'], 'post')
    E.oblige(st, 'earlier names stay', z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < zi(x.old.n)), new.a[i] == x.old.a[i])), 'post')
def inv_split(v):
    out = []; s, d = s_, d_; L, D = z3.Length(s), 1; NP = H01.NP
    g = lambda w: w.st.ghost
    for r, n in v.ints():
        x = lambda w, r=r: zi(w.st.store[r])
        none = lambda w, r=r: z3.Or(x(w, r) == -1, x(w, r) == NP)
        out.append(('delimiter position', lambda w, x=x, none=none: z3.If(none(w), g(w)['joined'] == s,
                    z3.And(x(w) >= 0, x(w) + D <= L, g(w)['joined'] == z3.SubString(s, 0, x(w)), z3.SubString(s, x(w), D) == d))))
        out.append(('start of the next name', lambda w, x=x: z3.And(x(w) >= 0, x(w) <= L, z3.If(g(w)['count'] == 0, x(w) == 0, z3.Concat(g(w)['joined'], d) == z3.SubString(s, 0, x(w))))))
        out.append(('not past the end', lambda w, x=x: z3.And(x(w) >= 0, x(w) <= L)))
    out.append(('names are clean', lambda w: zb(g(w)['clean'])))
    out.append(('a name was appended', lambda w: g(w)['count'] >= 1))
    out.append(('count is not negative', lambda w: g(w)['count'] >= 0))
    ri = v.eng.res_i
    now = lambda w: w.param(ri, entry=False); old = lambda w: w.eng.read(w.eng.entry0, Loc(('o', 'result'))); i = z3.Int('i')
    out.append(('length', lambda w: zi(now(w).n) == zi(old(w).n) + g(w)['count']))
    out.append(('earlier contents', lambda w: z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < zi(old(w).n)), now(w).a[i] == old(w).a[i]))))
    return out

# ---- the constructor: configuration from the environment, empty tables
SA, SN = z3.Function('names_of', S, z3.ArraySort(I, S)), z3.Function('number_of_names', S, I)
def m_split(E, st, args, this, node):
    """contract of split_string, for a list that is empty before"""
    p, l = args[0], args[1]
    c = E.val(st, p); old = E.read(st, l)
    E.oblige(st, 'names are read into an empty list', zi(old.n) == 0, 'post')
    t = zs(c.s); n = z3.If(zb(c.null), 0, SN(t)); st.assume(SN(t) >= 0, SN(t) <= 1 << 60)
    E.write(st, l, VecV(old.et, SA(t), n)); st.events = st.events + (('split', c, l),)
    yield st, None
def ctor(u): return [f for f in u.functions if f['qn'] == NS + 'DaisyInstrumentationState' and f.get('isctor') and not f['params']][0]
def setup_ctor(E, st):
    f = ctor(E.u); t = E.ty(f['cls'])
    this = E.newtemp(st, StructV(t.key(), {}), t)
    for g, srt in instr.GH.items(): st.ghost[g] = z3.K(I, z3.BoolVal(False)) if srt == B else z3.Const(g, z3.ArraySort(I, srt))
    st.ghost['clock'] = z3.Int('clock')
    return [], this, Ctx(cls=t, this=this)
def post_ctor(E, st, out, x):
    if isinstance(out, Thrown): E.oblige(st, 'construction does not throw', False, 'post'); return
    if isinstance(out, Exited):
        E.oblige(st, 'an unusable counter library is a diagnosed error', z3.And(zi(out.code) % 256 != 0, z3.BoolVal(any(e[0] == 'stderr' for e in st.events))), 'post'); return
    # a view of the new state
    c = object.__new__(Inst)
    Inst.members(c, E, x.cls, x.this)
    o = c.o0 = E.read(st, x.this)
    for m, var in ((c.cpu, '__DAISY_INSTRUMENTATION_EVENTS'), (c.cuda, '__DAISY_INSTRUMENTATION_EVENTS_CUDA')):
        e = stl.env(E, st, var); v = o.f[m]; unset = z3.Or(zb(e.null), zs(e.s) == z3.StringVal(''))
        E.oblige(st, '%s: the names of %s in order' % (m, var), z3.Implies(z3.Not(unset), z3.And(zi(v.n) == SN(zs(e.s)), v.a == SA(zs(e.s)))), 'post')
        E.oblige(st, '%s: no names without %s' % (m, var), z3.Implies(unset, z3.Or(zi(v.n) == 0, z3.And(z3.Not(zb(e.null)), zi(v.n) == SN(z3.StringVal(''))))), 'post')
    md = stl.env(E, st, '__DAISY_INSTRUMENTATION_MODE')
    E.oblige(st, 'events are aggregated just when asked for', zb(o.f[c.agg]) == z3.And(z3.Not(zb(md.null)), zs(md.s) == z3.StringVal('aggregate')), 'post')
    fe = stl.env(E, st, '__DAISY_INSTRUMENTATION_FILE')
    E.oblige(st, 'the output file is the configured one', zs(o.f[c.file]) == z3.If(zb(fe.null), z3.StringVal('daisy_trace.json'), zs(fe.s)), 'post')
    for m in (c.regions, c.byname, c.sleep): E.oblige(st, 'no %s yet' % m, z3.And(zi(o.f[m].size) == 0), 'post')
    # the class invariant holds initially
    c.gh0 = dict(st.ghost)
    for nm, g in c.inv(st, z3.Const('owner', z3.ArraySort(I, I)), z3.Const('position', z3.ArraySort(S, I))): E.oblige(st, 'invariant initially: ' + nm, g, 'post')
def m_none(E, st, args, this, node): yield st, None
CT = dict(instr.CFG, models={NS + 'split_string': m_split, '(anonymous namespace)::load_papi_symbols': m_none})

PROOFS = [Proof('split_string', unit, NS + 'split_string', setup_split, post_split, config=dict(instr.CFG, on_push=H01.on_push, loopinv=inv_split, variant=H01.var_split, fork=False)),
          Proof('constructor', unit, NS + 'DaisyInstrumentationState', setup_ctor, post_ctor, covers=('return', 'exit'), config=CT, nparams=0, pick=lambda u, f: f.get('isctor'))]
REPLAY = I01.REPLAY
ASSUME = instr.ASSUME
