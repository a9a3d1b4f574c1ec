"""Shared by I01-I09: rtl/src/instrumentation.cpp. libpapi by an assumed contract over ghost arrays."""
import z3
from ccv.values import *
from ccv.prove import Proof, Ctx
from ccv import frontend, kit, stl, engine

NS = 'DaisyInstrumentationState::'
def unit(): return frontend.load('rtl/src/instrumentation.cpp', roots=[frontend.REPO + '/'])
GH = {'p_live': B, 'p_clean': B, 'p_started': B, 'p_n': I, 'p_ev': z3.ArraySort(I, S)}
FN = ['library_init', 'create_eventset', 'cleanup_eventset', 'destroy_eventset', 'add_named_event', 'start', 'stop', 'reset', 'read', 'strerror', 'get_real_nsec']
GLOBALS = {'(anonymous namespace)::_PAPI_' + n: (lambda eng, st, n=n: FnV('PAPI_' + n)) for n in FN}

def FA(vs, body, patterns):
    try: return z3.ForAll(vs, body, patterns=patterns)
    except z3.Z3Exception: return z3.ForAll(vs, body)

class Inst:
    """an arbitrary instrumentation state; fields by type and role"""
    def __init__(self, E, st, inv=True):
        self.E = E
        f = E.u.fn(NS + 'register_region')
        self.members(E, E.ty(f['cls'])); self.loc = kit.fresh_obj(E, st, self.t, 'state')
        o = self.o0 = E.read(st, self.loc); self.st0 = st
        self.R0 = o.f[self.regions]
        for g, s in GH.items():
            st.ghost[g] = z3.Const(g, z3.ArraySort(I, s))
        st.ghost['clock'] = z3.Int('clock')
        self.own = z3.Const('owner', z3.ArraySort(I, I)); self.pos = z3.Const('position', z3.ArraySort(S, I))
        self.sl0 = o.f[self.list]
        st.assume(zi(o.f[self.next]) < (1 << 64) - 1)
        if inv: st.assume(*[g for _, g in self.inv(st, self.own, self.pos)])
        self.gh0 = {g: st.ghost[g] for g in GH}
    def members(self, E, t, loc=None):
        self.E = E; self.t = t; self.loc = loc
        rec = E.c.record(self.t)
        def one(p): 
            c = [n for n, ft in rec if p(ft)]
            if len(c) != 1: raise Unsupported('members of the instrumentation state changed: %s' % c)
            return c[0]
        self.next = one(lambda t: t.isint())
        self.regions = one(lambda t: t.cls() == 'map' and t.args[0].isint())
        self.list = one(lambda t: t.cls() == 'vec' and 'list' in t.n)
        sm = [n for n, ft in rec if ft.cls() == 'map' and ft.args[0].cls() == 'string']
        self.sleep = [n for n in sm if 'sleep' in n][0]; self.byname = [n for n in sm if n != self.sleep][0]
        if len(sm) != 2: raise Unsupported('members')
        bl = [n for n, ft in rec if ft.isbool()]; self.agg = [n for n in bl if 'aggreg' in n][0]
        vs = [n for n, ft in rec if ft.cls() == 'vec' and 'list' not in ft.n]
        self.cpu = [n for n in vs if 'cpu' in n][0]; self.cuda = [n for n in vs if 'cuda' in n][0]
        self.file = one(lambda t: t.cls() == 'string')
        self.vt = dict(rec)[self.regions].args[1]
        self.RS = E.c.sort(self.vt); self.fields = dict(E.c.record(self.vt)); self.fn = [n for n, _ in E.c.record(self.vt)]
        self.MT = self.fields['metadata']; self.MS = E.c.sort(self.MT); self.mn = [n for n, _ in E.c.record(self.MT)]
    # ---- views
    def fld(self, r, n): return self.E.c.acc(self.RS, self.fn.index(n), r)
    def md(self, r, n): return self.E.c.acc(self.MS, self.mn.index(n), self.fld(r, 'metadata'))
    def cstr(self, c): return self.E.c.acc(c.sort(), 1, c)
    def cnull(self, c): return self.E.c.acc(c.sort(), 0, c)
    def uuid(self, r): return self.cstr(self.md(r, 'region_uuid'))
    def papi(self, r): return self.fld(r, 'papi_eventset')
    def es(self, r): return self.fld(r, 'event_set')
    def obj(self, st): return self.E.read(st, self.loc)
    def names(self, o, es):
        """(array, size) of the configured events of an event set kind"""
        a, b = o.f[self.cpu], o.f[self.cuda]
        return (lambda i: z3.If(es == 0, a.a[i], b.a[i])), z3.If(es == 0, zi(a.n), z3.If(es == 1, zi(b.n), 0))
    # ---- the class invariant
    def inv(self, st, own, pos):
        E = self.E; o = self.obj(st); R = o.f[self.regions]; N = o.f[self.byname]; L = o.f[self.sleep]; sl = o.f[self.list]
        g = st.ghost; r = z3.Int('r'); x = z3.Const('x', S); i = z3.Int('i'); e = z3.Int('e'); rec = R.val[r]; es = self.es(rec); p = self.papi(rec)
        return [('ids were handed out before and are not zero', FA([r], z3.Implies(R.dom[r], z3.And(r >= 1, r < zi(o.f[self.next]))), patterns=[R.dom[r]])),
                ('the next id is not zero', zi(o.f[self.next]) >= 1),
                ('every region has a uuid', FA([r], z3.Implies(R.dom[r], z3.Not(self.cnull(self.md(rec, 'region_uuid')))), patterns=[R.dom[r]])),
                ('every region is found by its uuid', FA([r], z3.Implies(R.dom[r], z3.And(N.dom[self.uuid(rec)], N.val[self.uuid(rec)] == r)), patterns=[R.dom[r]])),
                ('every known uuid is that of its region', FA([x], z3.Implies(N.dom[x], z3.And(R.dom[N.val[x]], self.uuid(R.val[N.val[x]]) == x)), patterns=[N.dom[x]])),
                ('finalized regions are known', FA([x], z3.Implies(L.dom[x], z3.And(N.dom[x], L.val[x] == N.val[x])), patterns=[L.dom[x]])),
                ('the list names the cached regions', FA([i], z3.Implies(z3.And(i >= 0, i < zi(sl.n)), z3.And(L.dom[sl.a[i]], pos[sl.a[i]] == i)), patterns=[sl.a[i]])),
                ('every cached region is in the list', FA([x], z3.Implies(L.dom[x], z3.And(pos[x] >= 0, pos[x] < zi(sl.n), sl.a[pos[x]] == x)), patterns=[L.dom[x]])),
                ('at most ten are cached', zi(sl.n) <= 10),
                ('cached regions have an event set', FA([x], z3.Implies(L.dom[x], self.papi(R.val[L.val[x]]) != -1), patterns=[L.dom[x]])),
                ('the event set of a region is live and its own', FA([r], z3.Implies(z3.And(R.dom[r], p != -1), z3.And(g['p_live'][p], z3.Not(g['p_clean'][p]), g['p_started'][p], own[p] == r)), patterns=[R.dom[r]])),
                ('live event sets belong to a region', FA([e], z3.Implies(g['p_live'][e], z3.And(e >= 0, R.dom[own[e]], self.papi(R.val[own[e]]) == e)), patterns=[g['p_live'][e]])),
                ('event sets count the configured CPU events', FA([r], z3.Implies(z3.And(R.dom[r], p != -1, es == 0), g['p_n'][p] == zi(o.f[self.cpu].n)), patterns=[R.dom[r]])),
                ('event sets count the configured CUDA events', FA([r], z3.Implies(z3.And(R.dom[r], p != -1, es == 1), g['p_n'][p] == zi(o.f[self.cuda].n)), patterns=[R.dom[r]])),
                ('event sets without events are empty', FA([r], z3.Implies(z3.And(R.dom[r], p != -1, es != 0, es != 1), g['p_n'][p] == 0), patterns=[R.dom[r]])),
                ('CPU events in order', FA([r, i], z3.Implies(z3.And(R.dom[r], p != -1, es == 0, i >= 0, i < zi(o.f[self.cpu].n)), g['p_ev'][p][i] == o.f[self.cpu].a[i]), patterns=[z3.MultiPattern(R.dom[r], g['p_ev'][p][i])])),
                ('CUDA events in order', FA([r, i], z3.Implies(z3.And(R.dom[r], p != -1, es == 1, i >= 0, i < zi(o.f[self.cuda].n)), g['p_ev'][p][i] == o.f[self.cuda].a[i]), patterns=[z3.MultiPattern(R.dom[r], g['p_ev'][p][i])])),
                ('event set kinds', FA([r], z3.Implies(R.dom[r], z3.And(es >= 0, es <= 2)), patterns=[R.dom[r]]))]
    def active(self, st, r):
        o = self.obj(st); R = o.f[self.regions]
        return z3.And(R.dom[r], z3.Not(o.f[self.sleep].dom[self.uuid(R.val[r])]), self.papi(R.val[r]) != -1)
    def oblige_inv(self, st, own, poss, but=()):
        """the invariant holds again, with one of the given position witnesses"""
        E = self.E
        from ccv import solver
        best = None
        for pos in poss:
            gs = [(n, g) for n, g in self.inv(st, own, pos)]
            if len(poss) == 1: best = gs; break
            if all(solver.check(st.pc, g, 4000)[0] == 'proved' for n, g in gs if 'list' in n): best = gs; break
        for n, g in best or gs:
            if n not in but: E.oblige(st, 'invariant: ' + n, g, 'post')
    def same(self, st, *members):
        o = self.obj(st)
        for n in members:
            a, b = o.f[n], self.o0.f[n]
            if isinstance(a, MapV): E_ = kit.map_eq(a, b)
            elif isinstance(a, VecV): E_ = kit.vec_same(self.E, a, b)
            else: E_ = self.E.c.enc(a, dict(self.E.c.record(self.t))[n]) == self.E.c.enc(b, dict(self.E.c.record(self.t))[n])
            self.E.oblige(st, '%s stays as it was' % n, E_, 'post')
    def others_same(self, st, rid, name='measurements and metadata of the other regions stay'):
        R = self.obj(st).f[self.regions]; x = z3.Int('other')
        self.E.oblige(st, name, z3.ForAll([x], z3.Implies(x != rid, z3.And(R.dom[x] == self.R0.dom[x], z3.Implies(R.dom[x], R.val[x] == self.R0.val[x])))), 'post')
    def rec_same(self, st, rid, but):
        """all members of the record except some"""
        R = self.obj(st).f[self.regions]; a, b = R.val[rid], self.R0.val[rid]
        for n in self.fn:
            if n not in but: self.E.oblige(st, '%s of the region stays' % n, self.fld(a, n) == self.fld(b, n), 'post')

# ---- libpapi
def call_pointer(E, st, c, vs, e):
    if not isinstance(c, FnV) or not c.name.startswith('PAPI_'): return None
    E.used_models.add(c.name)
    return globals()['papi_' + c.name[5:]](E, st, *vs)
def alive(E, st, es, what): E.oblige(st, 'PAPI: %s a live event set' % what, st.ghost['p_live'][zi(es)], 'post')
def papi_create_eventset(E, st, p):
    ok = z3.Bool(fresh_name('created')); n = z3.Int(fresh_name('eventset'))
    for s, good in E.fork(st, ok):
        if good:
            g = s.ghost
            s.assume(n >= 0, n < 1 << 31, z3.Not(g['p_live'][n]))
            g['p_live'] = z3.Store(g['p_live'], n, z3.BoolVal(True)); g['p_clean'] = z3.Store(g['p_clean'], n, z3.BoolVal(False)); g['p_started'] = z3.Store(g['p_started'], n, z3.BoolVal(False)); g['p_n'] = z3.Store(g['p_n'], n, z3.IntVal(0))
            E.write(s, p.loc, n); s.events = s.events + (('create', n),)
            yield s, z3.IntVal(0)
        else:
            r = z3.Int(fresh_name('error')); s.assume(r < 0, r > -100); s.events = s.events + (('papi failed',),)
            yield s, r
def outcome(E, st):
    ok = z3.Bool(fresh_name('papi_ok'))
    for s, good in E.fork(st, ok):
        if good: yield s, z3.IntVal(0)
        else:
            r = z3.Int(fresh_name('error')); s.assume(r < 0, r > -100); s.events = s.events + (('papi failed',),); yield s, r
def papi_add_named_event(E, st, es, name):
    es = z3.simplify(zi(es)); t = stl.text(E, st, name); g = st.ghost
    alive(E, st, es, 'events are added to')
    E.oblige(st, 'PAPI: events are added before the set is started', z3.Not(g['p_started'][es]), 'post')
    for s, r in outcome(E, st):
        g = s.ghost; n = g['p_n'][es]
        g['p_ev'] = z3.Store(g['p_ev'], es, z3.Store(g['p_ev'][es], n, zs(t))); g['p_n'] = z3.Store(g['p_n'], es, n + 1)
        yield s, r
def papi_start(E, st, es):
    es = z3.simplify(zi(es)); alive(E, st, es, 'only started:')
    st.ghost['p_started'] = z3.Store(st.ghost['p_started'], es, z3.BoolVal(True))
    st.events = st.events + (('start', es),)
    yield st, z3.Int(fresh_name('papi'))
def papi_stop(E, st, es, p):
    es = z3.simplify(zi(es)); alive(E, st, es, 'only stopped:'); fill(E, st, es, p)
    st.events = st.events + (('stop', es),)
    yield st, z3.Int(fresh_name('papi'))
def papi_reset(E, st, es): alive(E, st, es, 'only reset:'); yield st, z3.Int(fresh_name('papi'))
def fill(E, st, es, p):
    v, off = stl.region(E, st, p); n = st.ghost['p_n'][es]
    E.oblige(st, 'PAPI: the buffer takes a value per event', z3.And(zi(off) >= 0, zi(off) + n <= zi(v.n)), 'ub')
    vals = z3.Const(fresh_name('counters'), z3.ArraySort(I, I)); i = z3.Int(fresh_name('i'))
    st.assume(z3.ForAll([i], z3.And(vals[i] >= -(1 << 62), vals[i] < 1 << 62), patterns=[vals[i]]))
    E.write(st, p.loc, VecV(v.et, vals if conc(zi(off)) == 0 else z3.Lambda([i], z3.If(z3.And(i >= zi(off), i < zi(off) + n), vals[i - zi(off)], v.a[i])), v.n))
    return vals
def papi_read(E, st, es, p):
    es = z3.simplify(zi(es)); alive(E, st, es, 'only read:')
    vals = fill(E, st, es, p)
    st.events = st.events + (('read', es, vals),)
    yield st, z3.Int(fresh_name('papi'))
def papi_cleanup_eventset(E, st, es):
    es = z3.simplify(zi(es)); alive(E, st, es, 'only cleaned up:')
    for s, r in outcome(E, st):
        s.ghost['p_clean'] = z3.Store(s.ghost['p_clean'], es, z3.BoolVal(True)); s.events = s.events + (('cleanup', es),)
        yield s, r
def papi_destroy_eventset(E, st, p):
    es = z3.simplify(zi(E.read(st, p.loc))); alive(E, st, es, 'only destroyed:')
    E.oblige(st, 'PAPI: cleaned up before it is destroyed', st.ghost['p_clean'][es], 'post')
    for s, r in outcome(E, st):
        if conc(r) == 0:
            s.ghost['p_live'] = z3.Store(s.ghost['p_live'], es, z3.BoolVal(False)); E.write(s, p.loc, z3.IntVal(-1)); s.events = s.events + (('destroy', es),)
        yield s, r
def papi_library_init(E, st, v):
    r = z3.Int(fresh_name('papi_version')); st.assume(r >= -(1 << 31), r < 1 << 31); yield st, r
def papi_get_real_nsec(E, st):
    t = z3.Int(fresh_name('now')); st.assume(t >= st.ghost['clock'], t >= 0, t < 1 << 62); st.ghost['clock'] = t
    st.events = st.events + (('clock', t),)
    yield st, t
def papi_strerror(E, st, e):
    s = z3.Const(fresh_name('strerror'), S); yield st, CStr(False, s)

def loopinv(v):
    """loops that add the configured events: the first k were added to the set at hand, other sets are left alone"""
    out = []; E = v.eng; c = getattr(E, 'inst', None)
    cr = [x[1] for x in v.entry.events if x[0] == 'create']
    if not c or not cr: return out
    es = cr[-1]
    ms = (c.cpu, c.cuda)
    if v.node['k'] == 'forrange':
        rl = list(E.ev(v.entry.copy(), v.node['range']))[0][1]
        if isinstance(rl, Loc): ms = [m for m in ms if ('f', m) in rl.path] or ms
    for m in ms:
        def added(w, m=m):
            a = c.obj(w.entry).f[m]; i = z3.Int('inv_i'); g = w.st.ghost
            return z3.And(g['p_n'][es] == w.k, w.k <= zi(a.n), z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < w.k), g['p_ev'][es][i] == a.a[i])))
        out.append(('the first %s events were added' % m, added))
    def frame(w):
        e = z3.Int('inv_e'); g, g0 = w.st.ghost, w.entry.ghost
        return z3.ForAll([e], z3.Implies(e != es, z3.And(g['p_n'][e] == g0['p_n'][e], g['p_ev'][e] == g0['p_ev'][e])))
    out.append(('other event sets are left alone', frame))
    out.append(('the clock and lifecycles stay', lambda w: z3.And(*[w.st.ghost[x] == w.entry.ghost[x] for x in ('p_live', 'p_clean', 'p_started')])))
    return out
CFG = dict(c_text=lambda E, st, s: s, globals=GLOBALS, call_pointer=call_pointer, loopinv=loopinv, feas_ms=400, fork=True)
ASSUME = ['libpapi by contract: create hands out a handle that is not live, add appends the event, cleanup and destroy end it; reads deliver one value per added event and the clock does not go back; a set can be read once it was started',
          'region uuids and metadata texts passed at registration stay valid and unchanged (they are string literals in generated code)',
          'configured event names hold no NUL: they are pieces of C strings (I08)',
          'fewer than 2^64-1 regions are registered']
