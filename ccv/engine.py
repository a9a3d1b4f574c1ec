"""Symbolic executor / verification-condition generator over the extracted AST.

Every path of a function body is executed symbolically; loops are cut by invariants (inferred
by Houdini over contract-supplied candidates), un-contracted callees defined in the repository
are inlined, contracted callees are replaced by their contract, and library callees by the
assumed models in stl.py.  Obligations are discharged by solver.check."""
import copy, itertools, time
import z3
from .values import *
from . import solver

class State:
    __slots__ = ('store', 'types', 'pc', 'ghost', 'writes', 'havoced', 'events', 'cuts')
    def __init__(self):
        self.store = {}; self.types = {}; self.pc = []; self.ghost = {}; self.writes = frozenset(); self.havoced = False
        self.events = (); self.cuts = ()
    def copy(self):
        s = State.__new__(State)
        s.store = dict(self.store); s.types = dict(self.types); s.pc = list(self.pc); s.ghost = dict(self.ghost)
        s.writes = self.writes; s.havoced = self.havoced; s.events = self.events; s.cuts = self.cuts
        return s
    def assume(self, *fs):
        for f in fs:
            if isinstance(f, (list, tuple)): self.assume(*f); continue
            if f is True: continue
            if f is False: f = z3.BoolVal(False)
            self.pc.append(f)
        return self

class Frame:
    _n = itertools.count()
    def __init__(self, fn, this=None, parent=None):
        self.fn = fn; self.id = next(Frame._n); self.this = this; self.parent = parent; self.caps = {}

class Obligation:
    def __init__(self, name, kind, status, detail='', backend='', fn='', line=0, model=None, exact=True, secs=0.0, cuts=(), pc=None, goal=None):
        self.name = name; self.kind = kind; self.status = status; self.detail = detail; self.backend = backend
        self.fn = fn; self.line = line; self.model = model; self.exact = exact; self.secs = secs; self.cuts = cuts
        self.pc = pc; self.goal = goal
    def __repr__(self): return '%s[%s] %s (%s:%s)' % (self.status, self.kind, self.name, self.fn, self.line)

class PathLimit(Exception): pass

class Engine:
    def __init__(self, unit, strmode='seq', unroll=0, bmc=None, contracts=None, config=None):
        self.u = unit
        self.c = Codec(strmode)
        self.strmode = strmode
        self.unroll = unroll          # full unrolling attempts for loops the solver cannot decide
        self.bmc = bmc                # bounded mode: unroll every loop this often, no invariants
        self.contracts = contracts or {}
        self.cfg = config or {}
        self.obls = []
        self.mute = 0; self.discover = 0
        self.frame = None
        self.npaths = 0
        self.maxpaths = self.cfg.get('maxpaths', 4000)
        self.loopinv = self.cfg.get('loopinv')       # function(view) -> list of (name, formula)
        self.line = 0
        self.used_models = set()
        self.inlined = set()
        self.deadline = time.time() + self.cfg.get('budget', 240)
        from . import stl
        self.stl = stl
        self.access_hook = None
        self.bounded = False
        self.loops_proved = 0
        self.vacuous = []; self.probes = {}; self.probe_s = 40.0

    # ------------------------------------------------------------ types
    def ty(self, i): return Ty(self.u, i)
    def ety(self, e): return Ty(self.u, e['t'])

    # ------------------------------------------------------------ obligations
    def oblige(self, st, name, goal, kind='ub', timeout=None):
        if goal is True: 
            if not self.mute and kind != 'ub':
                self.obls.append(Obligation(name, kind, 'proved', 'trivial', 'simplifier', self.frame.fn['qn'] if self.frame else '', self.line))
            return True
        if goal is False: goal = z3.BoolVal(False)
        if self.mute:
            st.assume(goal); return True
        g = z3.simplify(goal)
        t0 = time.time()
        if z3.is_true(g):
            r = ('proved', 'simplifier')
        else:
            r = solver.check(st.pc, goal, timeout)
        if r[0] == 'refuted' and any(solver.hasq(f) for f in st.pc) and False:
            r = ('unknown', 'model with quantifiers')
        o = Obligation(name, kind, r[0], '' if r[0] != 'unknown' else str(r[1]), r[1] if r[0] == 'proved' else '',
                       self.frame.fn['qn'] if self.frame else '', self.line, r[1] if r[0] == 'refuted' else None,
                       not st.havoced, time.time() - t0, st.cuts, list(st.pc) if r[0] != 'proved' else None, goal if r[0] != 'proved' else None)
        self.obls.append(o)
        st.assume(goal)
        return r[0] == 'proved'

    def sat(self, st, *fs):
        fs = [f for f in fs if f is not True]
        if any(f is False for f in fs): return False
        return solver.feasible(st.pc, self.cfg.get('feas_ms', 1500), goals=[zb(f) for f in fs] if fs else None)

    def tick(self):
        if time.time() > self.deadline: raise Unsupported('verification budget exhausted')

    # ------------------------------------------------------------ machine integers
    def fit(self, st, e, ty, signed_ub=None):
        """value of exact integer e in type ty: wraps (unsigned / conversions) or obliges (signed arithmetic)"""
        lo, hi = ty.lo(), ty.hi()
        if isinstance(e, bool): e = int(e)
        if isinstance(e, int):
            if lo <= e <= hi: return e
            if signed_ub:
                self.oblige(st, 'no signed overflow in ' + signed_ub, False, 'ub')
            return (e - lo) % (1 << ty.width()) + lo
        s = z3.simplify(e)
        if z3.is_int_value(s): return self.fit(st, s.as_long(), ty, signed_ub)
        inr = z3.And(e >= lo, e <= hi)
        if signed_ub:
            if not self.cfg.get('no_overflow_obligations'):
                self.oblige(st, 'no signed overflow in ' + signed_ub, inr, 'ub', timeout=4000)
            else: st.assume(inr)
            return e
        if not solver.feasible([f for f in st.pc if not solver.hasq(f)] + [z3.Not(inr)], 1000):
            return e
        w = 1 << ty.width()
        pc = [f for f in st.pc if not solver.hasq(f)]
        # one turn of the modulus at most: say so linearly
        if self.cfg.get('linear_wrap') and not solver.feasible(pc + [z3.Not(z3.And(e >= lo - w, e <= hi + w))], 700):
            under = solver.feasible(pc + [e < lo], 700); over = solver.feasible(pc + [e > hi], 700)
            if under and not over: return z3.If(e < lo, e + w, e)
            if over and not under: return z3.If(e > hi, e - w, e)
            return z3.If(e < lo, e + w, z3.If(e > hi, e - w, e))
        if lo == 0: return e % w
        return (e - lo) % w + lo

    # ------------------------------------------------------------ memory
    def root_var(self, d, frame=None):
        f = frame or self.frame
        while f is not None:
            if d in f.caps: return f.caps[d]
            r = ('v', d, f.id)
            if r in f.__dict__.setdefault('locals', set()): return r
            f = f.parent
        return None

    def newtemp(self, st, val, ty=None):
        r = ('t', fresh_name('tmp'))
        st.store[r] = val
        if ty is not None: st.types[r] = ty
        return Loc(r)

    def read(self, st, loc):
        if loc.root not in st.store:
            raise Unsupported('read of unknown location %r' % (loc,))
        if self.access_hook: self.access_hook(self, st, loc, False)
        v = st.store[loc.root]
        p = loc.path; i = 0
        while i < len(p):
            if p[i][0] in ('mv', 'hp') and i + 1 < len(p) and p[i + 1][0] == 'f':
                t = v.vt if p[i][0] == 'mv' else v[1]
                x = asel(v.val if p[i][0] == 'mv' else v[0], p[i][1]); j = i + 1
                if self.isrec(t):
                    while j < len(p) and p[j][0] == 'f' and self.isrec(t):
                        x, t = self.fterm(x, t, p[j][1]); j += 1
                    facts = []; v = self.c.dec(x, t, facts); st.assume(*facts); i = j; continue
            v = self.step(st, v, p[i]); i += 1
        return v
    def isrec(self, t): return t.k == 'c' and t.cls() not in ('pair', 'vec', 'map', 'set', 'string', 'path', 'json', 'optional', 'shared_ptr', 'unique_ptr', 'rcp') and t.d['d'] in t.unit.records
    def fterm(self, x, t, f):
        for i, (n, ft) in enumerate(self.c.record(t)):
            if n == f: return self.c.acc(self.c.sort(t), i, x), ft
        raise Unsupported('no field %s' % f)
    def fupdate(self, st, x, t, path, val):
        """term of the record x with the member at path replaced"""
        if not path: return self.c.enc(val, t)
        if path[0][0] == 'f' and self.isrec(t):
            dt = self.c.sort(t); rec = self.c.record(t)
            if path[0][1] not in dict(rec): raise Unsupported('no field %s' % path[0][1])
            return self.c.mk(dt, *[self.fupdate(st, self.c.acc(dt, i, x), ft, path[1:], val) if n == path[0][1] else self.c.acc(dt, i, x) for i, (n, ft) in enumerate(rec)])
        facts = []; v = self.c.dec(x, t, facts); st.assume(*facts)
        return self.c.enc(self.update(st, v, path, val), t)

    def step(self, st, v, el):
        k = el[0]
        facts = []
        if k == 'f':
            if isinstance(v, StructV):
                if el[1] not in v.f: raise Unsupported('no field %s in %s' % (el[1], v.tn))
                return v.f[el[1]]
            if isinstance(v, Opaque) and el[1] in v.data: return v.data[el[1]]
            raise Unsupported('field %s of %r' % (el[1], v))
        if k == 'mv':
            r = self.c.dec(asel(v.val, el[1]), v.vt, facts); st.assume(*facts); return r
        if k == 'me':
            r = self.c.dec(asel(v.val, el[1]), v.vt, facts); st.assume(*facts)
            kv = self.c.dec(el[1], v.kt, facts); st.assume(*facts)
            return StructV('pair', {'first': kv, 'second': r})
        if k == 'ix':
            if isinstance(v, VecV):
                x = z3.Select(v.a, zi(el[1]))
                if v.et is None: return x
                r = self.c.dec(x, v.et, facts); st.assume(*facts); return r
            if isz(v) and v.sort() == S:
                i = zi(el[1])
                x = z3.If(i == z3.Length(v), z3.IntVal(0), z3.StrToCode(z3.SubString(v, i, 1)))
                # plain char is signed
                st.assume(z3.StrToCode(z3.SubString(v, i, 1)) <= 255)
                return z3.If(x > 127, x - 256, x)
            if isinstance(v, (list, tuple)): return v[conc(el[1])]
            raise Unsupported('index of %r' % (v,))
        if k == 'hp':
            r = self.c.dec(asel(v[0], el[1]), v[1], facts); st.assume(*facts); return r
        if k == 'opt': return v.v
        if k == 'jk': return JsonV(z3.Select(J.jm(v.t), zs(el[1])))
        if k == 'ji': return JsonV(z3.Select(J.ja(v.t), zi(el[1])))
        raise Unsupported('step ' + k)

    def write(self, st, loc, val):
        if loc.root not in st.store: raise Unsupported('write to unknown location %r' % (loc,))
        if self.access_hook: self.access_hook(self, st, loc, True)
        pre = []
        for el in loc.path:
            if el[0] != 'f': break
            pre.append(el)
        st.writes = st.writes | {(loc.root, tuple(pre[:1]))}
        st.store[loc.root] = self.update(st, st.store[loc.root], loc.path, val)

    def update(self, st, v, path, val):
        if not path: return val
        el, rest = path[0], path[1:]
        k = el[0]
        if k == 'f':
            if isinstance(v, StructV):
                return v.set(el[1], self.update(st, v.f.get(el[1]), rest, val))
            if isinstance(v, Opaque): return v.set(**{el[1]: self.update(st, v.data.get(el[1]), rest, val)})
            raise Unsupported('write field of %r' % (v,))
        if k == 'me':
            if rest and rest[0] == ('f', 'second'): return self.update(st, v, (('mv', el[1]),) + tuple(rest[1:]), val)
            raise Unsupported('write to map entry')
        if k == 'mv' and rest and self.isrec(v.vt):
            return MapV(v.kt, v.vt, v.dom, asto(v.val, el[1], self.fupdate(st, asel(v.val, el[1]), v.vt, rest, val)), v.size)
        if k == 'mv':
            old = self.step(st, v, el) if rest else None
            nv = self.update(st, old, rest, val)
            return MapV(v.kt, v.vt, v.dom, asto(v.val, el[1], self.c.enc(nv, v.vt)), v.size)
        if k == 'ix':
            if isz(v) and v.sort() == S: raise Unsupported('character write into a string')
            old = self.step(st, v, el) if rest else None
            nv = self.update(st, old, rest, val)
            x = zi(nv) if v.et is None else self.c.enc(nv, v.et)
            return VecV(v.et, z3.Store(v.a, zi(el[1]), x), v.n)
        if k == 'hp' and rest and self.isrec(v[1]):
            return (asto(v[0], el[1], self.fupdate(st, asel(v[0], el[1]), v[1], rest, val)), v[1])
        if k == 'hp':
            old = self.step(st, v, el) if rest else None
            return (asto(v[0], el[1], self.c.enc(self.update(st, old, rest, val), v[1])), v[1])
        if k == 'opt': return OptV(v.t, v.has, self.update(st, v.v, rest, val))
        if k == 'jk':
            # operator[] on null creates an object
            t = v.t
            kk = zs(el[1])
            nv = self.update(st, JsonV(z3.Select(J.jm(t), kk)), rest, val)
            m0 = z3.If(J.is_jobj(t), J.jm(t), z3.K(S, J.jnull)); d0 = z3.If(J.is_jobj(t), J.jd(t), z3.K(S, z3.BoolVal(False)))
            if z3.is_app(t) and t.decl().eq(J.jobj): m0, d0 = t.arg(0), t.arg(1)
            elif z3.is_app(t) and t.decl().eq(J.jnull): m0, d0 = z3.K(S, J.jnull), z3.K(S, z3.BoolVal(False))
            return JsonV(J.jobj(z3.Store(m0, kk, nv.t), z3.Store(d0, kk, z3.BoolVal(True))))
        raise Unsupported('update ' + k)

    # heap for shared_ptr pointees
    def heap(self, st, t):
        r = ('heap', t.key())
        if r not in st.store:
            s = self.c.sort(t)
            st.store[r] = (z3.Const('heap0_%s' % t.key(), z3.ArraySort(I, s)), t)
            st.types[r] = None
        return r
    def heap_init(self, st):
        if 'nextaddr' not in st.ghost:
            st.ghost['nextaddr'] = z3.Int('nextaddr0'); st.assume(z3.Int('nextaddr0') >= 1)
    def alloc(self, st, t, val):
        self.heap_init(st)
        r = self.heap(st, t)
        a = st.ghost['nextaddr']
        st.ghost['nextaddr'] = a + 1
        self.write(st, Loc(r, (('hp', a),)), val)
        return SP(t, a)

    # default-initialised / fresh values
    def default(self, st, t):
        c = t.cls()
        if t.isint(): return 0
        if t.isbool(): return False
        if t.isfloat(): return z3.RealVal(0)
        if t.isptr():
            return CStr(True, zs('')) if (t.e.ischar() and self.strmode == 'seq') else PtrV(True, None)
        if t.k == 'a':
            s = self.c.sort(t.e)
            return VecV(t.e, z3.Const(fresh_name('arr'), z3.ArraySort(I, s)), t.d.get('sz'))
        if c == 'string': return zs('') if self.strmode == 'seq' else VecV(None, z3.K(I, z3.IntVal(0)), 0)
        if c == 'path': return zs('')
        if c == 'vec':
            s = self.c.sort(t.args[0])
            return VecV(t.args[0], z3.Const(fresh_name('vec'), z3.ArraySort(I, s)), 0)
        if c == 'map':
            ks, vs = self.c.sort(t.args[0]), self.c.sort(t.args[1])
            return MapV(t.args[0], t.args[1], z3.K(ks, z3.BoolVal(False)), z3.Const('mapdef_%s_%s' % (ks, vs), z3.ArraySort(ks, vs)), 0)
        if c == 'set': return SetV(t.args[0], z3.K(self.c.sort(t.args[0]), z3.BoolVal(False)), 0)
        if c in ('shared_ptr', 'unique_ptr'): return SP(t.args[0], 0)
        if c == 'rcp': return z3.IntVal(0)
        if c == 'json': return JsonV(J.jnull)
        if c == 'optional': return OptV(t.args[0], False, None)
        if c == 'pair': return StructV('pair', {'first': self.default(st, t.args[0]), 'second': self.default(st, t.args[1])})
        m = self.stl.default(self, st, t)
        if m is not None: return m
        if t.k == 'c' and t.d['d'] in t.unit.records:
            return StructV(t.key(), self.record_default(st, t))
        raise Unsupported('default value of ' + t.key())

    def record_default(self, st, t):
        """default member initialisers; members of scalar type without one are indeterminate"""
        r = t.unit.records[t.d['d']]
        out = {}
        for b in r['bases']: out.update(self.record_default(st, Ty(t.unit, b)))
        for f in r['fields']:
            ft = Ty(t.unit, f['t'])
            if 'init' in f and f['init'] is not None:
                rs = list(self.rv(st, f['init']))
                if len(rs) != 1: raise Unsupported('branching member initialiser')
                out[f['n']] = self.coerce(st, rs[0][1], ft)
            elif ft.isint() or ft.isbool() or ft.isfloat():
                facts = []
                out[f['n']] = self.c.fresh(ft, 'indet_' + f['n'], facts); st.assume(*facts)
            else: out[f['n']] = self.default(st, ft)
        return out

    def fresh(self, st, t, name):
        facts = []
        c = t.cls()
        m = self.stl.fresh(self, st, t, name)
        if m is not None: return m
        v = self.c.fresh(t, name, facts)
        st.assume(*facts)
        return v

    def coerce(self, st, v, t):
        return v

    # ------------------------------------------------------------ expressions
    # ev: yields (state, value-or-Loc-or-Thrown/Exited); Loc for glvalues
    def evs(self, st, es):
        if not es:
            yield st, []; return
        for s1, v in self.ev(st, es[0]):
            if isinstance(v, (Thrown, Exited)): yield s1, v; continue
            for s2, vs in self.evs(s1, es[1:]):
                if isinstance(vs, (Thrown, Exited)): yield s2, vs; continue
                yield s2, [v] + vs

    def rv(self, st, e):
        for s, v in self.ev(st, e):
            if isinstance(v, Loc): yield s, self.read(s, v)
            else: yield s, v

    def rvs(self, st, es):
        for s, vs in self.evs(st, es):
            if isinstance(vs, (Thrown, Exited)): yield s, vs; continue
            yield s, [self.read(s, v) if isinstance(v, Loc) else v for v in vs]

    def val(self, st, v):
        return self.read(st, v) if isinstance(v, Loc) else v

    def fork(self, st, c):
        """split on condition c: yields (state, bool) for the feasible branches"""
        if isinstance(c, PtrV): c = Not(c.null)
        if isinstance(c, CStr): c = Not(c.null)
        if isinstance(c, SP): c = zi(c.addr) != 0
        if isinstance(c, (bool, int)): yield st, bool(c); return
        if isinstance(c, OptV): c = c.has
        if isz(c) and c.sort() == I: c = c != 0
        g = z3.simplify(c)
        if z3.is_true(g): yield st, True; return
        if z3.is_false(g): yield st, False; return
        t = self.sat(st, c); f = self.sat(st, z3.Not(c))
        if t and f:
            s2 = st.copy()
            st.assume(c); yield st, True
            s2.assume(z3.Not(c)); yield s2, False
        elif t: st.assume(c); yield st, True
        elif f: st.assume(z3.Not(c)); yield st, False

    def ev(self, st, e):
        self.line = e.get('l', self.line)
        k = e['k']
        if 'cv' in e and k not in ('int',):
            t = self.ety(e)
            v = int(e['cv'])
            yield st, (bool(v) if t.isbool() else v); return
        if k == '?SourceLocExpr': yield st, CStr(False, z3.Const(fresh_name('srcloc'), S)); return
        m = getattr(self, 'e_' + k, None)
        if m is None: raise Unsupported('expression %s at line %s' % (k, e.get('l')))
        yield from m(st, e)

    def e_int(self, st, e): yield st, int(e['v'])
    def e_bool(self, st, e): yield st, bool(e['v'])
    def e_float(self, st, e):
        yield st, z3.RealVal(str(Fraction(e['v'])) if 'Inf' not in e['v'] and 'NaN' not in e['v'] else '0')
    def e_str(self, st, e):
        data = bytes(x & 255 for x in e['v'])
        yield st, self.cliteral(st, data)
    def cliteral(self, st, data):
        """string literal: an lvalue char array; decays to CStr / pointer"""
        return Opaque('strlit', {'b': data})
    def e_null(self, st, e): yield st, PtrV(True, None)
    def e_constexpr(self, st, e): yield from self.ev(st, e['e'])
    def e_cleanups(self, st, e): yield from self.ev(st, e['e'])
    def e_this(self, st, e):
        f = self.frame
        while f.this is None and f.parent is not None: f = f.parent
        yield st, PtrV(False, f.this)
    def e_zeroinit(self, st, e):
        yield st, self.default(st, self.ety(e))

    def e_ref(self, st, e):
        if 'fn' in e:
            yield st, FnV(e['fn']['qn'], e['fn']); return
        if 'ec' in e:
            yield st, int(e['ec']); return
        d = e['d']
        r = self.root_var(d)
        if r is not None:
            if isinstance(r, Loc): yield st, r; return
            v = st.store.get(r)
            if isinstance(v, Loc): yield st, v            # reference variable
            else: yield st, Loc(r)
            return
        if 'glob' in e:
            yield st, self.glob(st, e['qn']); return
        raise Unsupported('unknown variable %s' % e['n'])

    def glob(self, st, qn):
        r = ('g', qn)
        if r not in st.store:
            m = self.stl.glob(self, st, qn)
            if m is not None: st.store[r] = m
            else:
                g = self.u.globals.get(qn)
                if g is None: raise Unsupported('global ' + qn)
                t = self.ty(g['t'])
                if 'init' in g and (t.const or t.k in ('a',) or qn in self.cfg.get('const_globals', ()) ):
                    t0, self.mute = self.mute, self.mute + 1
                    rs = list(self.rv(st, g['init']))
                    self.mute = t0
                    if len(rs) != 1: raise Unsupported('global initialiser of ' + qn)
                    v = rs[0][1]
                    st.store[r] = self.init_value(st, t, v)
                    self.used_models.add('global %s keeps its initial value' % qn)
                else:
                    st.store[r] = self.fresh(st, t, 'glob_' + qn)
                st.types[r] = t
        return Loc(r)

    def init_value(self, st, t, v):
        if isinstance(v, Opaque) and v.tn == 'strlit' and t.k == 'a':
            return self.strlit_vec(v, t)
        if isinstance(v, Opaque) and v.tn == 'strlit': return self.decay(st, v)
        return v

    def strlit_vec(self, v, t=None):
        a = z3.K(I, z3.IntVal(0))
        for i, c in enumerate(v.data['b']): a = z3.Store(a, i, c if c < 128 else c - 256)
        return VecV(None, a, len(v.data['b']) + 1)

    def decay(self, st, v):
        """array-to-pointer"""
        if isinstance(v, Opaque) and v.tn == 'strlit':
            if self.strmode == 'seq': return CStr(False, zs(v.data['b']))
            l = self.newtemp(st, self.strlit_vec(v))
            return PtrV(False, l, 0)
        if isinstance(v, Loc):
            x = st.store.get(v.root)
            if not v.path and isinstance(x, Opaque) and x.tn == 'strlit': return self.decay(st, x)
            return PtrV(False, v, 0)
        raise Unsupported('decay of %r' % (v,))

    def e_member(self, st, e):
        if 'fn' in e: raise Unsupported('member function reference')
        if 'glob' in e: yield st, self.glob(st, e['qn']); return
        for s, b in self.ev(st, e['e']):
            if isinstance(b, (Thrown, Exited)): yield s, b; continue
            if e['arrow']:
                b = self.deref(s, self.val(s, b))
            if isinstance(b, Loc):
                yield s, self.field(s, b, e['n'])
            elif isinstance(b, StructV): yield s, b.f[e['n']]
            else: raise Unsupported('member %s of %r' % (e['n'], b))

    def field(self, st, loc, n):
        l = loc.f(n)
        # reference members hold a Loc
        try: v = self.read(st, l)
        except Unsupported: return l
        if isinstance(v, Loc): return v
        if len(l.path) >= 2 and l.path[-2][0] == 'me':
            if n == 'second': return Loc(l.root, l.path[:-2] + (('mv', l.path[-2][1]),))
            tmp = self.newtemp(st, v); return tmp
        return l

    def deref(self, st, v, what='dereference'):
        if isinstance(v, PtrV):
            self.oblige(st, 'pointer is not null (%s)' % what, Not(v.null), 'ub')
            if v.loc is None: raise Unsupported('dereference of an untracked pointer')
            if v.off is None: return v.loc
            c = self.read(st, v.loc)
            if isinstance(c, VecV):
                self.oblige(st, 'element access is in bounds', And(Le(0, v.off), Lt(v.off, c.n)), 'ub')
                return v.loc / ('ix', v.off)
            raise Unsupported('pointer into %r' % (c,))
        if isinstance(v, SP):
            self.oblige(st, 'smart pointer is not null', Not(Eq(v.addr, 0)) if not isinstance(v.addr, int) else v.addr != 0, 'ub')
            return Loc(self.heap(st, v.t), (('hp', zi(v.addr)),))
        if isinstance(v, IterV): return self.stl.iter_deref(self, st, v)
        if isinstance(v, CStr): return self.text_at(st, v, 0, what)
        if isinstance(v, OptV): raise Unsupported('optional deref')
        raise Unsupported('deref %r' % (v,))

    def text_at(self, st, v, i, what='dereference'):
        """a scratch cell with the i-th character of a NUL-terminated text (its NUL included)"""
        self.oblige(st, 'pointer is not null (%s)' % what, Not(v.null), 'ub')
        s = zs(v.s); n = z3.Length(s)
        if conc(i) != 0: self.oblige(st, 'character access is in bounds', And(Le(0, i), Le(i, n)), 'ub')
        c = z3.StrToCode(z3.SubString(s, zi(i), 1)); x = z3.Int(fresh_name('char'))
        st.assume(z3.If(zi(i) == n, x == 0, z3.And(x == z3.If(c >= 128, c - 256, c), x != 0, c <= 255, c >= 1)))
        if conc(i) == 0: st.assume((x == 0) == (s == zs('')))
        return self.newtemp(st, x)

    def e_mat(self, st, e):
        for s, v in self.ev(st, e['e']):
            if isinstance(v, (Thrown, Exited, Loc)): yield s, v
            elif isinstance(v, (FnV, Closure)): yield s, self.newtemp(s, v)
            else:
                if isinstance(v, Opaque) and v.tn == 'strlit': yield s, v; continue
                yield s, self.newtemp(s, v, self.ety(e))

    def e_cast(self, st, e):
        ck = e['ck']
        t = self.ety(e)
        if 'conv' in e and 'cv' not in e:
            yield from self.ev(st, e['e']); return
        for s, v in self.ev(st, e['e']):
            if isinstance(v, (Thrown, Exited)): yield s, v; continue
            yield s, self.cast(s, v, ck, t, self.ty(e['from']))

    def cast(self, s, v, ck, t, ft):
        if ck == 'LValueToRValue':
            return self.val(s, v)
        if ck in ('NoOp', 'DerivedToBase', 'UncheckedDerivedToBase', 'BaseToDerived', 'ConstructorConversion', 'UserDefinedConversion', 'LValueBitCast'):
            return v
        if ck == 'ArrayToPointerDecay': return self.decay(s, v)
        if ck == 'FunctionToPointerDecay': return v
        if ck in ('BuiltinFnToFnPtr',): return v
        if ck == 'ToVoid': return VOID
        if ck == 'NullToPointer': return CStr(True, zs('')) if (t.isptr() and t.e.ischar() and self.strmode == 'seq') else PtrV(True, None)
        if ck == 'BitCast': return v
        if ck == 'IntegralCast':
            v = self.val(s, v)
            if isz(v) and v.sort() == B: return z3.If(v, z3.IntVal(1), z3.IntVal(0))
            if isinstance(v, bool): v = int(v)
            if t.isbool(): return Not(Eq(v, 0))
            return self.fit(s, v, t)
        if ck == 'IntegralToBoolean':
            if isinstance(v, bool): return v
            if isz(v) and v.sort() == B: return v
            return v != 0
        if ck == 'PointerToBoolean':
            if isinstance(v, FnV): return z3.Not(z3.Bool('null ' + v.name)) if v.fn is None else True
            if isinstance(v, SP): return zi(v.addr) != 0
            return Not(v.null)
        if ck == 'IntegralToFloating': return to_float(s, zr(zi(v)), t)
        if ck == 'FloatingCast': return v if ft.n == 'float' else to_float(s, v, t)
        if ck == 'FloatingToIntegral':
            v = zr(v)
            tr = z3.If(v >= 0, z3.ToInt(v), -z3.ToInt(-v))
            return self.fit(s, tr, t, 'floating to integer conversion')
        if ck == 'FloatingToBoolean': return zr(v) != 0
        if ck == 'IntegralToPointer' and conc(v) == 0: return PtrV(True, None)
        raise Unsupported('cast ' + ck)

    def e_un(self, st, e):
        op = e['op']
        if op == '__extension__':
            yield from self.ev(st, e['e']); return
        if op in ('++', '--'):
            for s, l in self.ev(st, e['e']):
                if isinstance(l, (Thrown, Exited)): yield s, l; continue
                old = self.read(s, l)
                t = self.ty(e['e']['t'])
                new = self.incdec(s, old, 1 if op == '++' else -1, t)
                self.write(s, l, new)
                yield s, (old if e.get('post') else l)
            return
        for s, v in self.ev(st, e['e']):
            if isinstance(v, (Thrown, Exited)): yield s, v; continue
            if op == '*':
                yield s, self.deref(s, self.val(s, v)); continue
            if op == '&':
                if isinstance(v, FnV): yield s, v
                elif isinstance(v, Loc):
                    if v.path and v.path[-1][0] == 'ix': yield s, PtrV(False, Loc(v.root, v.path[:-1]), v.path[-1][1])
                    else: yield s, PtrV(False, v)
                else: raise Unsupported('address of %r' % (v,))
                continue
            v = self.val(s, v)
            if op == '!':
                if isinstance(v, (PtrV, CStr)): yield s, v.null
                elif isinstance(v, FnV): yield s, z3.Bool('null ' + v.name) if v.fn is None else False
                elif isinstance(v, SP): yield s, zi(v.addr) == 0
                elif isinstance(v, int) and not isinstance(v, bool): yield s, v == 0
                elif isz(v) and v.sort() == I: yield s, v == 0
                else: yield s, Not(v)
            elif op == '-':
                t = self.ety(e)
                if t.isfloat(): yield s, -zr(v)
                else: yield s, self.fit(s, -v, t, 'negation' if t.signed() else None)
            elif op == '+':
                if isinstance(v, Closure): yield s, v
                else: yield s, v
            elif op == '~':
                t = self.ety(e); yield s, self.fit(s, -zi(v) - 1, t)
            else: raise Unsupported('unary ' + op)

    def incdec(self, s, old, d, t):
        if isinstance(old, PtrV): return PtrV(old.null, old.loc, self.add(old.off if old.off is not None else 0, d))
        if isinstance(old, IterV): return self.stl.iter_advance(self, s, old, d)
        if t.isfloat(): return zr(old) + d
        if isinstance(old, bool): old = int(old)
        return self.fit(s, self.add(old, d), t, ('++' if d > 0 else '--') if t.signed() and t.width() >= 32 else None)

    def add(self, a, b):
        if isinstance(a, int) and isinstance(b, int): return a + b
        if isinstance(b, int) and b == 0: return a
        if isinstance(a, int) and a == 0: return b
        return z3.simplify(zi(a) + zi(b))

    def e_bin(self, st, e):
        op = e['op']
        if op in ('&&', '||'):
            for s, a in self.rv(st, e['a']):
                if isinstance(a, (Thrown, Exited)): yield s, a; continue
                a = self.boolean(a)
                if conc(a) is not None:
                    if bool(conc(a)) == (op == '||'): yield s, op == '||'
                    else:
                        for s2, b in self.rv(s, e['b']):
                            yield s2, (b if isinstance(b, (Thrown, Exited)) else self.boolean(b))
                    continue
                for s2, tv in self.fork(s, a):
                    if tv == (op == '||'): yield s2, (op == '||')
                    else:
                        for s3, b in self.rv(s2, e['b']):
                            yield s3, (b if isinstance(b, (Thrown, Exited)) else self.boolean(b))
            return
        if op == '=':
            # C++17: right operand is sequenced before the left one
            for s, b in self.rv(st, e['b']):
                if isinstance(b, (Thrown, Exited)): yield s, b; continue
                for s2, l in self.ev(s, e['a']):
                    if isinstance(l, (Thrown, Exited)): yield s2, l; continue
                    self.write(s2, l, b); yield s2, l
            return
        if op == ',':
            for s, a in self.ev(st, e['a']):
                if isinstance(a, (Thrown, Exited)): yield s, a; continue
                yield from self.ev(s, e['b'])
            return
        for s, vs in self.rvs(st, [e['a'], e['b']]):
            if isinstance(vs, (Thrown, Exited)): yield s, vs; continue
            yield s, self.binop(s, op, vs[0], vs[1], self.ety(e), self.ty(e['a']['t']))

    def boolean(self, v):
        if isinstance(v, (PtrV, CStr)): return Not(v.null)
        if isinstance(v, SP): return zi(v.addr) != 0
        if isinstance(v, OptV): return v.has
        if isinstance(v, int) and not isinstance(v, bool): return v != 0
        if isz(v) and v.sort() == I: return v != 0
        return v

    def binop(self, s, op, a, b, t, at):
        if op in ('==', '!='):
            r = self.equal(s, a, b)
            return r if op == '==' else Not(r)
        if isinstance(a, PtrV) or isinstance(b, PtrV):
            if op == '+': 
                if isinstance(b, PtrV): a, b = b, a
                return PtrV(a.null, a.loc, self.add(a.off if a.off is not None else 0, b))
            if op == '-' and not isinstance(b, PtrV): return PtrV(a.null, a.loc, self.add(a.off if a.off is not None else 0, -zi(b)))
            if op == '-' and a.loc is not None and b.loc is not None and a.loc.root == b.loc.root and a.loc.path == b.loc.path:
                return z3.simplify(zi(off0(a)) - zi(off0(b)))
            if op in ('<', '>', '<=', '>='):
                a, b = zi(off0(a)), zi(off0(b))
            else: raise Unsupported('pointer arithmetic')
        if isinstance(a, CStr) or isinstance(b, CStr): raise Unsupported('pointer arithmetic on text')
        if op in ('<', '>', '<=', '>='):
            if at.isfloat() or (isz(a) and a.sort() == R) or (isz(b) and b.sort() == R): a, b = zr(a), zr(b)
            else:
                if isz(a) and a.sort() == B: a = zi(a)
                if isz(b) and b.sort() == B: b = zi(b)
            return {'<': Lt, '>': lambda x, y: Lt(y, x), '<=': Le, '>=': lambda x, y: Le(y, x)}[op](a, b)
        return self.arith(s, op, a, b, t)

    def arith(self, s, op, a, b, t):
        if t.isfloat():
            a, b = zr(a), zr(b)
            if op == '+': return a + b
            if op == '-': return a - b
            if op == '*': return a * b
            if op == '/':
                if self.cfg.get('div_obligations', True): self.oblige(s, 'divisor is not zero', b != 0, 'ub')
                return a / b
            raise Unsupported('float op ' + op)
        if t.isbool(): t2 = None
        if isinstance(a, bool): a = int(a)
        if isinstance(b, bool): b = int(b)
        if isz(a) and a.sort() == B: a = zi(a)
        if isz(b) and b.sort() == B: b = zi(b)
        ub = op if (t.isint() and t.signed()) else None
        ca, cb = conc(a), conc(b)
        if op == '+': return self.fit(s, self.add(a, b) , t, ub)
        if op == '-': return self.fit(s, a - b if (ca is None or cb is None) else ca - cb, t, ub)
        if op == '*':
            if ca is not None and cb is not None: return self.fit(s, ca * cb, t, ub)
            return self.fit(s, zi(a) * zi(b), t, ub)
        if op in ('/', '%'):
            if cb is None or cb == 0: self.oblige(s, 'divisor is not zero', Not(Eq(b, 0)) if cb is None else False, 'ub')
            if ca is not None and cb not in (None, 0):
                q = abs(ca) // abs(cb) * (1 if (ca >= 0) == (cb >= 0) else -1)
                return self.fit(s, q if op == '/' else ca - q * cb, t, ub)
            a, b = zi(a), zi(b)
            if not t.signed() : return a / b if op == '/' else a % b
            q = z3.If(a >= 0, a / b, -((-a) / b))      # z3 div is Euclidean; C truncates
            return self.fit(s, q, t, ub) if op == '/' else a - q * b
        if op == '<<':
            if cb is None:
                p = z3.Int(fresh_name('pow2')); s.assume(p >= 1)
                raise Unsupported('shift by symbolic amount')
            r = zi(a) * (1 << cb) if ca is None else ca << cb
            return self.fit(s, r, t)          # C++20: defined modulo 2^w
        if op == '>>':
            if cb is None: raise Unsupported('shift by symbolic amount')
            return (ca >> cb) if ca is not None else zi(a) / (1 << cb)
        if op in ('&', '|', '^'):
            if ca is not None and cb is not None:
                return {'&': ca & cb, '|': ca | cb, '^': ca ^ cb}[op]
            return self.bitop(s, op, a, b, t)
        raise Unsupported('arith ' + op)

    def bitop(self, s, op, a, b, t):
        ca, cb = conc(a), conc(b)
        if ca is not None: a, b, ca, cb = b, a, cb, ca
        if op == '&' and cb is not None and cb >= 0:
            # sum of contiguous bit fields: exact for two's complement
            a = zi(a); r = z3.IntVal(0); i = 0
            while (cb >> i):
                if (cb >> i) & 1:
                    j = i
                    while (cb >> j) & 1: j += 1
                    r = r + ((a / (1 << i)) % (1 << (j - i))) * (1 << i)
                    i = j
                else: i += 1
            return z3.simplify(r)
        w = t.width()
        if op in ('|', '^'):
            # disjoint bit fields: the one is a multiple of 2^k, the other below 2^k
            for x, y in ((a, b), (b, a)):
                k = low_zeros(z3.simplify(zi(x)))
                if k and k < w and not solver.feasible([f for f in s.pc if not solver.hasq(f)] + [z3.Not(z3.And(zi(y) >= 0, zi(y) < 1 << k))], 1000):
                    return zi(x) + zi(y)
        if True:
            x = z3.Int2BV(zi(a), w); y = z3.Int2BV(zi(b), w)
            r = {'&': x & y, '|': x | y, '^': x ^ y}[op]
            return z3.BV2Int(r, t.signed())

    def equal(self, s, a, b):
        if isinstance(a, (PtrV, CStr, SP)) or isinstance(b, (PtrV, CStr, SP)):
            def isnull(x): return isinstance(x, PtrV) and x.null is True
            def nul(x): return (zi(x.addr) == 0) if isinstance(x, SP) else x.null
            if isnull(a): return nul(b)
            if isnull(b): return nul(a)
            if isinstance(a, PtrV) and isinstance(b, PtrV) and a.loc is not None and b.loc is not None and a.loc.root == b.loc.root and a.loc.path == b.loc.path:
                return Eq(off0(a), off0(b))
            if isinstance(a, SP) and isinstance(b, SP): return Eq(a.addr, b.addr)
            raise Unsupported('pointer comparison')
        if isinstance(a, IterV): return self.stl.iter_eq(self, s, a, b)
        if isinstance(a, StructV):
            return And(*[self.equal(s, a.f[k], b.f[k]) for k in a.f])
        if isinstance(a, VecV): return self.vec_eq(a, b)
        if isinstance(a, bool) and isz(b) and b.sort() == I: a = int(a)
        if isinstance(b, bool) and isz(a) and a.sort() == I: b = int(b)
        return Eq(a, b)

    def vec_eq(self, a, b):
        if conc(a.n) is not None and conc(a.n) <= 8 and conc(b.n) is not None:
            if conc(a.n) != conc(b.n): return False
            return And(*[a.a[i] == b.a[i] for i in range(conc(a.n))])
        i = z3.Int(fresh_name('i'))
        return And(Eq(a.n, b.n), z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < zi(a.n)), a.a[i] == b.a[i])))

    def e_cassign(self, st, e):
        op = e['op'][:-1]
        for s, b in self.rv(st, e['b']):
            if isinstance(b, (Thrown, Exited)): yield s, b; continue
            for s2, l in self.ev(s, e['a']):
                if isinstance(l, (Thrown, Exited)): yield s2, l; continue
                old = self.read(s2, l)
                lt = self.ty(e['a']['t']); ct = self.ty(e['ct']); clt = self.ty(e['clt'])
                if isinstance(old, PtrV):
                    new = self.binop(s2, op, old, b, ct, lt)
                elif ct.isfloat():
                    new = self.arith(s2, op, zr(zi(old) if lt.isint() else old), zr(b), ct)
                    if lt.isint(): new = self.cast(s2, new, 'FloatingToIntegral', lt, ct)
                else:
                    a = self.fit(s2, old, clt) if clt.isint() and not lt.isbool() else old
                    new = self.arith(s2, op, a, b, ct)
                    if lt.isbool(): new = self.boolean(new)
                    elif lt.isint(): new = self.fit(s2, new, lt)
                self.write(s2, l, new); yield s2, l

    def e_cond(self, st, e):
        for s, c in self.rv(st, e['c']):
            if isinstance(c, (Thrown, Exited)): yield s, c; continue
            c = self.boolean(c)
            cc = conc(c)
            if cc is not None:
                yield from self.ev(s, e['a'] if cc else e['b']); continue
            # pure scalar branches become an if-then-else term
            if self.is_pure(e['a']) and self.is_pure(e['b']):
                sa = s.copy(); sb = s.copy()
                sa.assume(c); sb.assume(Not(c))
                if self.sat(sa) and self.sat(sb):
                    n0 = (len(sa.pc), len(sb.pc))
                    ra = list(self.ev(sa, e['a'])); rb = list(self.ev(sb, e['b']))
                    if len(ra) == 1 and len(rb) == 1:
                        va, vb = ra[0][1], rb[0][1]
                        if len(ra[0][0].pc) == n0[0] and len(rb[0][0].pc) == n0[1]:
                            m = self.ite(c, va, vb)
                            if m is not None: yield s, m; continue
            for s2, tv in self.fork(s, c):
                yield from self.ev(s2, e['a'] if tv else e['b'])

    def ite(self, c, a, b):
        ok = lambda x: isinstance(x, (bool, int)) or isz(x)
        if ok(a) and ok(b):
            if isinstance(a, bool) or (isz(a) and a.sort() == B): return z3.If(c, zb(a), zb(b))
            if isz(a) and a.sort() == S or isz(b) and b.sort() == S: return z3.If(c, zs(a), zs(b))
            if (isz(a) and a.sort() == R) or (isz(b) and b.sort() == R): return z3.If(c, zr(a), zr(b))
            return z3.If(c, zi(a), zi(b))
        if isinstance(a, CStr) and isinstance(b, CStr):
            return CStr(z3.If(c, zb(a.null), zb(b.null)), z3.If(c, zs(a.s), zs(b.s)))
        return None

    def is_pure(self, e):
        k = e['k']
        if k in ('int', 'bool', 'float', 'str', 'null', 'ref', 'constexpr'): return True
        if k in ('member',): return self.is_pure(e['e']) and not e.get('arrow', False)
        if k == 'cast': return e['ck'] in ('LValueToRValue', 'NoOp', 'IntegralCast', 'ArrayToPointerDecay', 'IntegralToFloating', 'IntegralToBoolean', 'FloatingCast') and self.is_pure(e['e'])
        return False

    def e_index(self, st, e):
        for s, vs in self.rvs(st, [e['a'], e['b']]):
            if isinstance(vs, (Thrown, Exited)): yield s, vs; continue
            a, i = vs
            if isinstance(i, (PtrV, CStr)): a, i = i, a
            if isinstance(a, PtrV):
                yield s, self.deref(s, PtrV(a.null, a.loc, self.add(a.off if a.off is not None else 0, i)), 'subscript')
            elif isinstance(a, CStr): yield s, self.text_at(s, a, i, 'subscript')
            else: raise Unsupported('subscript of %r' % (a,))

    def e_initlist(self, st, e):
        t = self.ety(e)
        for s, vs in self.rvs(st, e['e']):
            if isinstance(vs, (Thrown, Exited)): yield s, vs; continue
            if t.k == 'a':
                et = t.e
                vs = [self.init_value(s, et, v) for v in vs]
                es = self.c.sort(et)
                a = z3.Const(fresh_name('arr'), z3.ArraySort(I, es))
                if len(vs) < t.d.get('sz', 0):
                    a = z3.K(I, self.c.enc(self.default(s, et), et))
                for i, v in enumerate(vs): a = z3.Store(a, i, self.c.enc(v, et))
                yield s, VecV(et, a, t.d.get('sz', len(vs)))
            elif t.k == 'c' and t.d['d'] in t.unit.records:
                fs = self.c.record(t)
                yield s, StructV(t.key(), {n: (vs[i] if i < len(vs) else self.default(s, ft)) for i, (n, ft) in enumerate(fs)})
            elif t.cls() == 'pair':
                yield s, StructV('pair', {'first': vs[0], 'second': vs[1]})
            elif len(vs) == 1: yield s, vs[0]
            elif not vs: yield s, self.default(s, t)
            else: raise Unsupported('initializer list for ' + t.key())

    def e_stdinit(self, st, e):
        for s, v in self.rv(st, e['e']):
            yield s, v

    def e_throw(self, st, e):
        if e['e'] is None:
            yield st, Thrown('rethrow', None, e['l']); return
        for s, v in self.rv(st, e['e']):
            if isinstance(v, (Thrown, Exited)): yield s, v; continue
            yield s, Thrown(self.ty(e['e']['t']).n or 'value', v, e['l'])

    def e_lambda(self, st, e):
        caps = {}
        f = self.frame
        for c in e['caps']:
            if 'd' in c:
                for_s = list(self.ev(st, c['init']))
                v = for_s[0][1]
                if c['byref']: caps[c['d']] = v
                else: caps[c['d']] = self.newtemp(st, self.val(st, v))
        th = f
        while th is not None and th.this is None: th = th.parent
        yield st, Closure(e, caps, f, th.this if th else None)

    def e_new(self, st, e):
        if e.get('array'): raise Unsupported('new[]')
        t = self.ty(e['at'])
        for s, v in (self.rv(st, e['init']) if e['init'] else [(st, self.default(st, t))]):
            if isinstance(v, (Thrown, Exited)): yield s, v; continue
            l = self.newtemp(s, v, t)
            yield s, PtrV(False, l)

    def e_delete(self, st, e):
        for s, v in self.rv(st, e['e']): yield s, VOID

    # ------------------------------------------------------------ calls
    def e_ctor(self, st, e):
        t = self.ety(e)
        fn = e['fn']
        if fn.get('local') and not (t.cls() != t.n):
            f = self.u.by_d.get(fn['d'])
            if f is not None and not f.get('defaulted'):
                for s, vs in self.evs(st, e['args']):
                    if isinstance(vs, (Thrown, Exited)): yield s, vs; continue
                    yield from self.construct(s, t, f, vs)
                return
        for s, vs in self.evs(st, e['args']):
            if isinstance(vs, (Thrown, Exited)): yield s, vs; continue
            if e.get('copymove') and len(vs) >= 1:
                v = vs[0]
                val = self.val(s, v)
                if isinstance(val, Opaque) and val.tn == 'strlit': val = self.decay(s, val)
                if e.get('move') and isinstance(v, Loc): self.moved(s, v, val)
                if isinstance(val, (StructV, VecV, MapV, SetV, SP, OptV, JsonV, IterV, Opaque, FnV, Closure)) or isz(val):
                    yield s, val; continue
            m = self.cfg['model_for'](fn['qn']) if 'model_for' in self.cfg else None
            if m is not None:
                self.used_models.add(fn['qn'])
                yield from m(self, s, vs, None, e); continue
            r = self.stl.construct(self, s, t, fn, vs, e)
            if r is None:
                if t.k == 'c' and t.d['d'] in t.unit.records:
                    if not vs:
                        yield s, StructV(t.key(), self.record_default(s, t)); continue
                    fs = self.c.record(t)
                    if len(vs) == len(fs):
                        yield s, StructV(t.key(), {n: self.val(s, v) for (n, _), v in zip(fs, vs)}); continue
                raise Unsupported('constructor of %s (%s)' % (t.key(), ', '.join(self.ty(p).key() for p in fn['ps'])))
            if hasattr(r, '__next__'): yield from r
            else: yield s, r

    def moved(self, s, loc, val):
        """the source of a move is left in an unspecified state"""
        if loc.root[0] == 't': return
        try:
            if isz(val) and val.sort() == S: self.write(s, loc, z3.Const(fresh_name('moved'), S))
            elif isinstance(val, VecV):
                n = z3.Int(fresh_name('movedn')); s.assume(n >= 0)
                self.write(s, loc, VecV(val.et, z3.Const(fresh_name('moved'), val.a.sort()), n))
        except Unsupported: pass

    def construct(self, st, t, f, args, this=None):
        """run a user-provided constructor"""
        self.inlined.add(f['qn'])
        if this is None:
            this = self.newtemp(st, StructV(t.key(), {}), t)
        fr = Frame(f, this, None)
        old = self.frame
        save = old
        self.bind_params(st, fr, f, args)
        def run_inits(s, inits):
            if not inits:
                yield s, None; return
            i = inits[0]
            if 'base' in i:
                bt = self.ty(i['base'])
                for s1, v in self.in_frame(fr, self.rv, s, i['e']):
                    if isinstance(v, (Thrown, Exited)): yield s1, v; continue
                    if isinstance(v, StructV):
                        cur = self.read(s1, this)
                        d = dict(cur.f); d.update(v.f)
                        self.write(s1, this, StructV(cur.tn, d))
                    yield from run_inits(s1, inits[1:])
            else:
                ft = None
                for n, x in self.c.record(t):
                    if n == i['f']: ft = x
                for s1, v in self.in_frame(fr, self.ev, s, i['e']):
                    if isinstance(v, (Thrown, Exited)): yield s1, v; continue
                    if isinstance(v, Loc) and not (ft is not None and ft.isref()): v = self.read(s1, v)
                    v = self.init_value(s1, ft, v) if ft is not None else v
                    self.write(s1, this.f(i['f']), v)
                    yield from run_inits(s1, inits[1:])
        inits = list(f.get('inits', []))
        # members without any initialiser entry (scalars) are indeterminate
        given = {i.get('f') for i in inits}
        cur = dict(self.read(st, this).f)
        rec = t.unit.records[t.d['d']]
        for fd in rec['fields']:
            if fd['n'] not in given and fd['n'] not in cur:
                ft = self.ty(fd['t'])
                if ft.isref(): continue
                cur[fd['n']] = self.fresh(st, ft, 'indet_' + fd['n']) if (ft.isint() or ft.isbool() or ft.isfloat()) else self.default(st, ft)
        st.store[this.root] = StructV(t.key(), cur) if not this.path else st.store[this.root]
        # initialisation order is declaration order, which clang's list already is
        for s, r in run_inits(st, inits):
            if isinstance(r, (Thrown, Exited)): yield s, r; continue
            for s2, out in self.in_frame(fr, self.exec, s, f['body']):
                if isinstance(out, (Thrown, Exited)): yield s2, out
                else: yield s2, self.read(s2, this)

    def in_frame(self, fr, fnc, *a):
        """run a generator with self.frame = fr, restoring around every yield"""
        old = self.frame
        self.frame = fr
        g = fnc(*a)
        while True:
            self.frame = fr
            try: x = next(g)
            except StopIteration:
                self.frame = old; return
            except BaseException:
                self.frame = old; raise
            self.frame = old
            yield x

    def bind_params(self, st, fr, f, args):
        loc = fr.__dict__.setdefault('locals', set())
        for p, a in zip(f['params'], args):
            r = ('v', p['d'], fr.id)
            t = self.ty(p['t'])
            if t.isref():
                if not isinstance(a, Loc):
                    if isinstance(a, Opaque) and a.tn == 'strlit': a = self.newtemp(st, a)
                    else: a = self.newtemp(st, a, t.e)
                st.store[r] = a
            else:
                a = self.val(st, a)
                if isinstance(a, Opaque) and a.tn == 'strlit': a = self.decay(st, a)
                st.store[r] = a
            st.types[r] = t
            loc.add(r)

    def call_body(self, st, f, args, this=None, parent=None, caps=None):
        """inline a function body; yields (state, result)"""
        self.tick()
        depth = 0
        fr = self.frame
        while fr is not None:
            if fr.fn is f: depth += 1
            fr = getattr(fr, 'caller', None)
        if depth > self.cfg.get('max_rec', 3): raise Unsupported('recursion without a contract: ' + f['qn'])
        self.inlined.add(f['qn'])
        nf = Frame(f, this, parent)
        nf.caller = self.frame
        if caps: nf.caps = dict(caps)
        self.bind_params(st, nf, f, args)
        rt = self.ty(f['ret'])
        for s, out in self.in_frame(nf, self.exec, st, f['body']):
            if isinstance(out, (Thrown, Exited)): yield s, out
            elif isinstance(out, tuple) and out[0] == 'return':
                v = out[1]
                if isinstance(v, Loc) and not rt.isref(): v = self.read(s, v)
                yield s, v
            else: yield s, VOID

    def invoke(self, st, fn, args, this=None, node=None):
        """call of a resolved function: contract, inlined body, or library model"""
        qn = fn['qn']
        c = self.contracts.get(qn)
        if c is not None and c.applies(self, st, fn):
            yield from c.apply(self, st, fn, args, this); return
        m = self.cfg.get('models', {}).get(qn)
        if m is None and 'model_for' in self.cfg: m = self.cfg['model_for'](qn)
        if m is not None:
            self.used_models.add(qn)
            yield from m(self, st, args, this, node); return
        f = self.u.by_d.get(fn['d'])
        if f is None and fn.get('virtual') is None and fn.get('decl_in_root'):
            cs = [x for x in self.u.fns(qn) if len(x['params']) == len(fn['ps'])]
            if len(cs) == 1: f = cs[0]
        if f is not None:
            yield from self.call_body(st, f, args, this); return
        r = self.stl.call(self, st, fn, args, this, node)
        if r is None:
            raise Unsupported('call of %s (no contract, body or library model)' % qn)
        yield from r

    def e_call(self, st, e):
        if 'fn' not in e:
            for s, c in self.rv(st, e['ce']):
                if isinstance(c, (Thrown, Exited)): yield s, c; continue
                for s2, vs in self.evs(s, e['args']):
                    if isinstance(vs, (Thrown, Exited)): yield s2, vs; continue
                    if isinstance(c, Closure): yield from self.call_closure(s2, c, vs); continue
                    r = self.stl.call_pointer(self, s2, c, vs, e)
                    yield from r
            return
        for s, vs in self.evs(st, e['args']):
            if isinstance(vs, (Thrown, Exited)): yield s, vs; continue
            yield from self.invoke(s, e['fn'], vs, None, e)

    def call_closure(self, st, c, args):
        n = c.node
        f = {'qn': 'lambda', 'params': n['params'], 'body': n['body'], 'ret': n['ret'], 'd': n['opd']}
        yield from self.call_body(st, f, args, c.this, c.frame, c.caps)

    def e_mcall(self, st, e):
        for s, o in self.ev(st, e['obj']):
            if isinstance(o, (Thrown, Exited)): yield s, o; continue
            if not e.get('arrow') and e.get('fn', {}).get('n', '').startswith('operator ') and '(*)' in e['fn']['n']:
                # conversion of a captureless lambda to a function pointer
                cv = self.val(s, o)
                if isinstance(cv, Closure): yield s, cv; continue
            if e.get('arrow'): o = self.deref(s, self.val(s, o), 'call')
            elif not isinstance(o, Loc):
                o = self.newtemp(s, o, self.ty(e['obj']['t']))
            for s2, vs in self.evs(s, e['args']):
                if isinstance(vs, (Thrown, Exited)): yield s2, vs; continue
                yield from self.invoke(s2, e['fn'], vs, o, e)

    def e_opcall(self, st, e):
        fn = e.get('fn')
        if fn is None: raise Unsupported('operator call without callee')
        if 'cls' in fn and not fn.get('static'):
            order = e['args']
            if e['op'] == '=' and len(order) == 2:
                for s, b in self.ev(st, order[1]):
                    if isinstance(b, (Thrown, Exited)): yield s, b; continue
                    # the assigned value is read before the left operand is evaluated only if it is a prvalue
                    for s2, o in self.ev(s, order[0]):
                        if isinstance(o, (Thrown, Exited)): yield s2, o; continue
                        if not isinstance(o, Loc): o = self.newtemp(s2, o)
                        yield from self.invoke(s2, fn, [b], o, e)
                return
            for s, vs in self.evs(st, order):
                if isinstance(vs, (Thrown, Exited)): yield s, vs; continue
                o = vs[0]
                if isinstance(o, Loc) and isinstance(self.peek(s, o), Closure):
                    yield from self.call_closure(s, self.read(s, o), vs[1:]); continue
                if isinstance(o, Closure): yield from self.call_closure(s, o, vs[1:]); continue
                if not isinstance(o, Loc): o = self.newtemp(s, o, self.ty(order[0]['t']))
                yield from self.invoke(s, fn, vs[1:], o, e)
        else:
            for s, vs in self.evs(st, e['args']):
                if isinstance(vs, (Thrown, Exited)): yield s, vs; continue
                yield from self.invoke(s, fn, vs, None, e)

    def peek(self, st, loc):
        try: return self.read(st, loc)
        except Unsupported: return None

    # ------------------------------------------------------------ statements
    # exec yields (state, outcome): None (normal), ('break',), ('continue',), ('return', v), Thrown, Exited
    def exec(self, st, s):
        if s is None: yield st, None; return
        self.line = s.get('l', self.line)
        m = getattr(self, 's_' + s['k'], None)
        if m is not None:
            yield from m(st, s); return
        # expression statement
        for s1, v in self.ev(st, s):
            yield s1, (v if isinstance(v, (Thrown, Exited)) else None)

    def s_null(self, st, s): yield st, None

    def s_block(self, st, s):
        self.tick()
        names = []
        def run(st, i):
            if i == len(s['b']):
                yield st, None; return
            for s1, out in self.exec(st, s['b'][i]):
                if out is not None: yield s1, out
                else: yield from run(s1, i + 1)
        decls = [v for x in s['b'] if x and x['k'] == 'decl' for v in x['vars']]
        for s1, out in run(st, 0):
            self.leave(s1, decls)
            yield s1, out

    def leave(self, st, decls):
        for v in reversed(decls):
            if v.get('k') != 'var': continue
            r = ('v', v['d'], self.frame.id)
            if r in st.store and not self.ty(v['t']).isref() and not v.get('staticlocal'):
                self.stl.destroy(self, st, Loc(r), self.ty(v['t']))

    def s_decl(self, st, s):
        def run(st, vs):
            if not vs: yield st, None; return
            for s1, out in self.declare(st, vs[0]):
                if out is not None: yield s1, out
                else: yield from run(s1, vs[1:])
        yield from run(st, s['vars'])

    def declare(self, st, v):
        if v['k'] != 'var': raise Unsupported('declaration ' + v['k'])
        t = self.ty(v['t'])
        r = ('v', v['d'], self.frame.id)
        self.frame.__dict__.setdefault('locals', set()).add(r)
        if v.get('init') is None:
            if t.k == 'c': st.store[r] = self.default(st, t)
            else: st.store[r] = self.indet(st, t, v['n'])
            st.types[r] = t
            yield st, None; return
        for s, x in self.ev(st, v['init']):
            if isinstance(x, (Thrown, Exited)): yield s, x; continue
            self.bind(s, v, t, r, x)
            yield s, None

    def indet(self, st, t, n):
        if t.isptr(): return PtrV(z3.Bool(fresh_name('indet')), None)
        if t.k == 'a': return self.default(st, t)
        try: return self.fresh(st, t, 'indet_' + n)
        except Unsupported: return self.default(st, t)

    def bind(self, s, v, t, r, x):
        if t.isref():
            if not isinstance(x, Loc): x = self.newtemp(s, x, t.e)
            s.store[r] = x
        else:
            if isinstance(x, Loc): x = self.read(s, x)
            s.store[r] = self.init_value(s, t, x)
        s.types[r] = t
        s.writes = s.writes | {(r, ())}
        if 'bindings' in v:
            base = s.store[r] if t.isref() else Loc(r)
            names = None
            val = self.peek(s, base)
            if isinstance(val, StructV): names = list(val.f.keys())
            if names is None or len(names) < len(v['bindings']): raise Unsupported('structured binding of %r' % (val,))
            for b, n in zip(v['bindings'], names):
                br = ('v', b['d'], self.frame.id)
                self.frame.locals.add(br)
                s.store[br] = self.field(s, base, n)

    def s_return(self, st, s):
        if s['e'] is None: yield st, ('return', VOID); return
        for s1, v in self.ev(st, s['e']):
            if isinstance(v, (Thrown, Exited)): yield s1, v; continue
            rt = self.ty(self.frame.fn['ret'])
            if isinstance(v, Loc) and not rt.isref(): v = self.read(s1, v)
            if isinstance(v, Opaque) and v.tn == 'strlit': v = self.decay(s1, v)
            yield s1, ('return', v)

    def s_break(self, st, s): yield st, ('break',)
    def s_continue(self, st, s): yield st, ('continue',)

    def s_if(self, st, s):
        def after_init(st):
            if 'cv' in s:
                for s1, out in self.declare(st, s['cv']):
                    if out is not None: yield s1, out
                    else: yield from cond(s1)
            else: yield from cond(st)
        def cond(st):
            for s1, c in self.rv(st, s['c']):
                if isinstance(c, (Thrown, Exited)): yield s1, c; continue
                if self.cfg.get('merge'):
                    n0 = len(s1.pc); arms = []
                    for s2, tv in self.fork(s1, self.boolean(c)):
                        self.npaths += 1
                        if self.npaths > self.maxpaths: raise Unsupported('path limit')
                        arms.append((tv, list(self.exec(s2, s['a'] if tv else s['b']))))
                    norm = [[x for x, out in rs if out is None] for tv, rs in arms]
                    if len(arms) == 2 and all(len(x) == 1 for x in norm):
                        m = self.merge(n0, norm[0][0], norm[1][0]) if arms[0][0] else self.merge(n0, norm[1][0], norm[0][0])
                        if m is not None:
                            yield m, None
                            for tv, rs in arms: yield from ((x, out) for x, out in rs if out is not None)
                            continue
                    for tv, rs in arms: yield from rs
                    continue
                for s2, tv in self.fork(s1, self.boolean(c)):
                    self.npaths += 1
                    if self.npaths > self.maxpaths: raise Unsupported('path limit')
                    yield from self.exec(s2, s['a'] if tv else s['b'])
        if s.get('init'):
            for s1, out in self.exec(st, s['init']):
                if out is not None: yield s1, out
                else: yield from after_init(s1)
        else: yield from after_init(st)

    def merge(self, n0, a, b):
        """one state for the two ends of an if, or None; a took the branch (its first fact after n0), b did not"""
        if a.events != b.events or a.cuts != b.cuts or a.havoced != b.havoced or len(a.pc) <= n0 or len(b.pc) <= n0: return None
        c = a.pc[n0]
        if not z3.Not(c).eq(b.pc[n0]): return None
        if set(a.ghost) != set(b.ghost): return None
        def same(x, y): return x is y or (isz(x) and isz(y) and x.eq(y)) or (not isz(x) and not isz(y) and isinstance(x, (int, str, bool)) and x == y)
        g = {}
        for n in a.ghost:
            x, y = a.ghost[n], b.ghost[n]
            if same(x, y): g[n] = x
            elif isz(x) and isz(y) and x.sort() == y.sort(): g[n] = self.mterm(c, x, y)
            else: return None
        m = a.copy(); m.ghost = g; store = {}
        try:
            for r in a.store:
                if r not in b.store: continue
                store[r] = self.mvalue(c, a.store[r], b.store[r])
        except Unsupported: return None
        m.store = store; m.types = {r: t for r, t in a.types.items() if r in b.types}
        m.pc = a.pc[:n0] + [z3.Implies(c, f) for f in a.pc[n0 + 1:]] + [z3.Implies(z3.Not(c), f) for f in b.pc[n0 + 1:]]
        m.writes = a.writes | b.writes
        return m
    def mterm(self, c, x, y):
        if x.eq(y): return x
        cx, cy = [z3.is_app(t) and t.decl().kind() == z3.Z3_OP_DT_CONSTRUCTOR and t.sort().num_constructors() == 1 for t in (x, y)]
        if (cx or cy) and x.num_args() + y.num_args() > 0:
            dt = x.sort()
            return dt.constructor(0)(*[self.mterm(c, self.c.acc(dt, i, x), self.c.acc(dt, i, y)) for i in range(dt.constructor(0).arity())])
        for t, o in ((x, y), (y, x)):
            if z3.is_store(t) and (t.arg(0).eq(o) or (z3.is_store(o) and o.arg(0).eq(t.arg(0)) and o.arg(1).eq(t.arg(1)))):
                i = t.arg(1); return z3.Store(t.arg(0), i, self.mterm(c, asel(x, i), asel(y, i)))
        return z3.If(c, x, y)
    def mvalue(self, c, x, y):
        if x is y: return x
        if type(x) is type(y) and isinstance(x, (int, str)) and not isinstance(x, bool) and x == y: return x
        if isinstance(x, bool) and isinstance(y, bool) and x == y: return x
        def t(v): return v if isz(v) else z3.BoolVal(v) if isinstance(v, bool) else z3.IntVal(v) if isinstance(v, int) else None
        if t(x) is not None and t(y) is not None:
            a, b = t(x), t(y)
            if a.sort() != b.sort(): raise Unsupported('merge')
            return self.mterm(c, a, b)
        if type(x) is not type(y): raise Unsupported('merge')
        if isinstance(x, StructV):
            if set(x.f) != set(y.f): raise Unsupported('merge')
            return StructV(x.tn, {n: self.mvalue(c, x.f[n], y.f[n]) for n in x.f})
        if isinstance(x, VecV):
            if isinstance(x.a, dict) or not isz(x.a) or not isz(y.a) or x.a.sort() != y.a.sort(): raise Unsupported('merge')
            return VecV(x.et, self.mterm(c, x.a, y.a), self.mterm(c, zi(x.n), zi(y.n)))
        if isinstance(x, MapV):
            z = copy.copy(x); z.dom = self.mterm(c, x.dom, y.dom); z.val = self.mterm(c, x.val, y.val); z.size = self.mterm(c, zi(x.size), zi(y.size)); return z
        if isinstance(x, Loc) and str(x) == str(y): return x
        if isinstance(x, IterV) and x.kind == y.kind and str(x.loc) == str(y.loc) and x.rev == y.rev and x.end is y.end and x.key is y.key and x.pos is y.pos: return x
        raise Unsupported('merge')

    def s_switch(self, st, s):
        body = s['b']
        items = body['b'] if body['k'] == 'block' else [body]
        # flatten case labels
        flat = []
        def add(x):
            if x is None: return
            if x['k'] in ('case', 'default'):
                flat.append(x); add(x['b'])
            else: flat.append(x)
        for x in items: add(x)
        def runfrom(st, i):
            if i == len(flat): yield st, None; return
            x = flat[i]
            if x['k'] in ('case', 'default'): yield from runfrom(st, i + 1); return
            for s1, out in self.exec(st, x):
                if out is None: yield from runfrom(s1, i + 1)
                elif out == ('break',): yield s1, None
                else: yield s1, out
        for s1, c in self.rv(st, s['c']):
            if isinstance(c, (Thrown, Exited)): yield s1, c; continue
            labels = []
            for i, x in enumerate(flat):
                if x['k'] == 'case':
                    v = conc(list(self.rv(s1, x['v']))[0][1])
                    labels.append((i, v))
            rest = s1
            none = []
            for i, v in labels:
                cnd = Eq(c, v)
                cc = conc(cnd) if isz(cnd) else cnd
                if cc is True:
                    yield from runfrom(rest, i); rest = None; break
                if cc is False: continue
                s2 = rest.copy(); s2.assume(cnd)
                if self.sat(s2): yield from runfrom(s2, i)
                rest.assume(Not(cnd))
                if not self.sat(rest): rest = None; break
            if rest is not None:
                d = [i for i, x in enumerate(flat) if x['k'] == 'default']
                if d: yield from runfrom(rest, d[0])
                else: yield rest, None

    def s_try(self, st, s):
        for s1, out in self.exec(st, s['b']):
            if isinstance(out, Thrown):
                handled = False
                for h in s['hs']:
                    if 'v' in h:
                        t = self.ty(h['v']['t']); t = t.e if t.isref() else t
                        if not self.stl.catches(t, out): continue
                        r = ('v', h['v']['d'], self.frame.id)
                        self.frame.__dict__.setdefault('locals', set()).add(r)
                        s1.store[r] = out.val if out.val is not None else Opaque(out.tn)
                        s1.types[r] = t
                    handled = True
                    for s2, o2 in self.exec(s1, h['b']):
                        if isinstance(o2, Thrown) and o2.tn == 'rethrow': o2 = out
                        yield s2, o2
                    break
                if not handled: yield s1, out
            else: yield s1, out

    # ------------------------------------------------------------ loops
    def s_while(self, st, s):
        yield from self.loop(st, s, lambda x: self.cond_expr(x, s), s['b'], None)

    def cond_expr(self, st, s):
        if s.get('cv'):
            for s1, out in self.declare(st, s['cv']):
                if out is not None: yield s1, out
                else:
                    for s2, c in self.rv(s1, s['c']): yield s2, (c if isinstance(c, (Thrown, Exited)) else self.boolean(c))
            return
        if s['c'] is None: yield st, True; return
        for s1, c in self.rv(st, s['c']): yield s1, (c if isinstance(c, (Thrown, Exited)) else self.boolean(c))

    def s_do(self, st, s):
        # body; while (c) body
        for s1, out in self.exec(st, s['b']):
            if out == ('break',): yield s1, None
            elif out is None or out == ('continue',):
                yield from self.loop(s1, s, lambda x: self.cond_expr(x, s), s['b'], None)
            else: yield s1, out

    def s_for(self, st, s):
        decls = s['init']['vars'] if s['init'] and s['init']['k'] == 'decl' else []
        for s1, out in (self.exec(st, s['init']) if s['init'] else [(st, None)]):
            if out is not None: yield s1, out; continue
            def inc(x):
                if s['inc'] is None: yield x, None; return
                for s2, v in self.ev(x, s['inc']): yield s2, (v if isinstance(v, (Thrown, Exited)) else None)
            yield from self.loop(s1, s, lambda x: self.cond_expr(x, s), s['b'], inc)

    def s_forrange(self, st, s):
        for s0, rl in self.ev(st, s['range']):
            if isinstance(rl, (Thrown, Exited)): yield s0, rl; continue
            if not isinstance(rl, Loc): rl = self.newtemp(s0, rl, self.ty(s['range']['t']))
            yield from self.range_loop(s0, s, rl)

    def range_loop(self, st, s, rl):
        """desugared range-for over the container at rl"""
        val = self.read(st, rl)
        pr = ('v', 'pos%s' % s['l'] + s['var']['n'], self.frame.id)
        st.store[pr] = 0
        st.types[pr] = None
        if isinstance(val, (VecV,)) or (isz(val) and val.sort() == S) or isinstance(val, JsonV):
            def n_of(x):
                v = self.read(x, rl)
                if isinstance(v, JsonV): return J.jn(v.t)
                return v.n if isinstance(v, VecV) else z3.Length(v)
            def elem(x, i):
                return rl / (('ji', i) if isinstance(val, JsonV) else ('ix', i))
            if isinstance(val, JsonV):
                st.assume(J.jn(val.t) >= 0)
                # iterating a null value is an empty loop; other kinds iterate one value
                self.used_models.add('json iteration')
                st.assume(z3.Implies(J.is_jnull(val.t), J.jn(val.t) == 0))
        elif isinstance(val, (MapV, SetV)):
            en = self.stl.enumeration(self, st, val)
            def n_of(x): return self.read(x, rl).size
            def elem(x, i):
                k = z3.Select(en, zi(i))
                x.ghost['key:%s' % k.sort()] = k
                if isinstance(val, SetV):
                    facts = []; d = self.c.dec(k, val.kt, facts); x.assume(*facts)
                    return self.newtemp(x, d)
                return rl / ('me', k)
            st.ghost.setdefault('_enums', {})
        else:
            m = self.stl.range_adapter(self, st, val)
            if m is None: raise Unsupported('range-for over %r' % (val,))
            n_of, elem = m
        def cond(x):
            yield x, Lt(x.store[pr], n_of(x))
        def body(x):
            v = s['var']
            t = self.ty(v['t']); r = ('v', v['d'], self.frame.id)
            self.frame.__dict__.setdefault('locals', set()).add(r)
            l = elem(x, x.store[pr])
            if v.get('init') is not None and not t.isref() and t.k == 'c' and False: pass
            self.bind(x, v, t, r, l)
            yield from self.exec(x, s['b'])
        def inc(x):
            x.store[pr] = self.add(x.store[pr], 1)
            x.writes = x.writes | {(pr, ())}
            yield x, None
        yield from self.loop(st, s, cond, body, inc)

    def run_body(self, st, body):
        return body(st) if callable(body) else self.exec(st, body)

    def iterate(self, st, cond, body, inc):
        """one iteration from st: yields (state, tag, out): tag in exit / next / leave"""
        for s1, c in cond(st):
            if isinstance(c, (Thrown, Exited)): yield s1, 'leave', c; continue
            for s2, tv in self.fork(s1, c):
                if not tv: yield s2, 'exit', None; continue
                self.npaths += 1
                if self.npaths > self.maxpaths: raise Unsupported('path limit')
                for s3, out in self.run_body(s2, body):
                    if out == ('break',): yield s3, 'exit', 'break'; continue
                    if out is None or out == ('continue',):
                        if inc is None: yield s3, 'next', None
                        else:
                            for s4, o in inc(s3):
                                if o is not None: yield s4, 'leave', o
                                else: yield s4, 'next', None
                    else: yield s3, 'leave', out

    def loop(self, st, node, cond, body, inc):
        self.tick()
        # 1. loops whose condition the path decides: plain execution
        if self.bmc is not None:
            yield from self.unroll_loop(st, cond, body, inc, self.bmc, True); return
        lim = self.unroll if self.unroll else 0
        probe = st.copy()
        first = []
        self.mute += 1
        try:
            for s1, c in cond(probe.copy()):
                if not isinstance(c, (Thrown, Exited)): first.append((s1, c))
        finally: self.mute -= 1
        decided = all(conc(c) is not None or not (self.sat(s1, c) and self.sat(s1, Not(c))) for s1, c in first)
        if decided or lim:
            # try complete unrolling in a muted dry run; fall back to invariants if it does not end
            if self.dry_unroll(st, cond, body, inc, max(lim, 70 if decided else 0)):
                yield from self.unroll_loop(st, cond, body, inc, 80, False); return
        yield from self.cut_loop(st, node, cond, body, inc)

    def dry_unroll(self, st, cond, body, inc, lim):
        self.mute += 1
        n0 = self.npaths
        obl = len(self.obls)
        try:
            front = [st.copy()]
            for i in range(lim + 1):
                nxt = []
                for x in front:
                    if i > 3 and not self.decides(x, cond) and i > self.unroll: return False
                    for s1, tag, out in self.iterate(x, cond, body, inc):
                        if tag == 'next': nxt.append(s1)
                if not nxt: return True
                if len(nxt) > 64: return False
                front = nxt
            return False
        except Unsupported:
            return False
        finally:
            self.mute -= 1; self.npaths = n0

    def decides(self, x, cond):
        for s1, c in cond(x.copy()):
            if isinstance(c, (Thrown, Exited)): continue
            if conc(c) is None and self.sat(s1, c) and self.sat(s1, Not(c)): return False
        return True

    def unroll_loop(self, st, cond, body, inc, lim, bounded):
        def go(x, i):
            if i > lim:
                if bounded: self.bounded = True; return
                raise Unsupported('unrolling limit')
            for s1, tag, out in self.iterate(x, cond, body, inc):
                if tag == 'exit': yield s1, None
                elif tag == 'leave': yield s1, out
                else: yield from go(s1, i + 1)
        yield from go(st, 0)

    # ---- loops with invariants
    def peek_key(self, st, key):
        v = st.store[key[0]]
        for el in key[1]: v = v.f.get(el[1]) if isinstance(v, StructV) else (v.data.get(el[1]) if isinstance(v, Opaque) else None)
        return v
    def havoc_key(self, st, key, samedom=(), name='h'):
        root, pre = key
        if root not in st.store: return
        loc = Loc(root, pre)
        v = st.store[root]
        for el in pre:
            v = v.f.get(el[1]) if isinstance(v, StructV) else (v.data.get(el[1]) if isinstance(v, Opaque) else None)
        if v is None: return
        t = st.types.get(root)
        if t is not None and t.isref(): t = t.e
        for el in pre:
            if t is None: break
            if t.k == 'c' and t.d['d'] in t.unit.records:
                t = dict(self.c.record(t)).get(el[1])
            else: t = None
        nv = self.havoc_value(st, v, t, '%s_%s' % (name, pre[-1][1] if pre else root[1]))
        if isinstance(v, MapV) and key in samedom: nv = MapV(v.kt, v.vt, v.dom, nv.val, v.size)
        w = st.writes
        hook, self.access_hook = self.access_hook, None
        st.store[root] = self.update(st, st.store[root], pre, nv)
        self.access_hook = hook
        st.writes = w

    def havoc_value(self, st, v, t, name):
        facts = []
        if isinstance(v, bool) : return z3.Bool(fresh_name(name))
        if isinstance(v, int) or (isz(v) and v.sort() == I):
            x = z3.Int(fresh_name(name))
            if t is not None and t.isint(): st.assume(x >= t.lo(), x <= t.hi())
            return x
        if isz(v): return z3.Const(fresh_name(name), v.sort())
        if isinstance(v, VecV):
            n = z3.Int(fresh_name(name + '.n')); st.assume(n >= 0, n <= (1 << 60))
            fixed = t is not None and t.k == 'a'
            return VecV(v.et, z3.Const(fresh_name(name), v.a.sort()), v.n if fixed else n)
        if isinstance(v, MapV):
            n = z3.Int(fresh_name(name + '.size')); st.assume(n >= 0, n <= (1 << 60))
            m = MapV(v.kt, v.vt, z3.Const(fresh_name(name + '.dom'), v.dom.sort()), z3.Const(fresh_name(name + '.val'), v.val.sort()), n)
            return m
        if isinstance(v, SetV):
            n = z3.Int(fresh_name(name + '.size')); st.assume(n >= 0)
            return SetV(v.kt, z3.Const(fresh_name(name + '.dom'), v.dom.sort()), n)
        if isinstance(v, StructV):
            return StructV(v.tn, {k: self.havoc_value(st, x, None, name + '.' + k) if not isinstance(x, Loc) else x for k, x in v.f.items()})
        if isinstance(v, PtrV):
            return PtrV(v.null, v.loc, z3.Int(fresh_name(name + '.off')) if v.off is not None else None)
        if isinstance(v, JsonV): return JsonV(z3.Const(fresh_name(name), J))
        if isinstance(v, SP): 
            a = z3.Int(fresh_name(name)); st.assume(a >= 0); return SP(v.t, a)
        if isinstance(v, tuple) and len(v) == 2 and isz(v[0]):     # heap
            return (z3.Const(fresh_name(name), v[0].sort()), v[1])
        if isinstance(v, IterV):
            return self.stl.iter_havoc(self, st, v, name)
        if isinstance(v, CStr): return CStr(z3.Bool(fresh_name(name)), z3.Const(fresh_name(name), S))
        if isinstance(v, OptV): return OptV(v.t, z3.Bool(fresh_name(name)), self.havoc_value(st, v.v, v.t, name) if v.v is not None else None)
        if isinstance(v, Loc): return v
        m = self.stl.havoc(self, st, v, name)
        if m is not None: return m
        raise Unsupported('havoc of %r' % (v,))

    def cut_loop(self, st, node, cond, body, inc):
        entry = st.copy()
        lid = fresh_name('loop')
        # 1. write set to a fixpoint
        mods = set(); ghosts = set(); self.samedom = samedom = set()     # maps of which only mapped values change
        import os
        for rnd in range(8):
            head = entry.copy()
            head.writes = frozenset()
            for k in mods: self.havoc_key(head, k, samedom)
            for g in ghosts:
                if g in head.ghost: head.ghost[g] = self.havoc_ghost(head, g, head.ghost[g])
            base_roots = set(entry.store)
            g0 = dict(head.ghost)
            self.mute += 1; self.discover += 1
            n0 = self.npaths
            new = set(); newg = set(); wide = set()
            try:
                for s1, tag, out in self.iterate(head.copy(), cond, body, inc):
                    if tag != 'next': continue
                    new |= {k for k in s1.writes if k[0] in base_roots}
                    for k_ in {k for k in s1.writes if k[0] in base_roots}:
                        try: a, b = self.peek_key(head, k_), self.peek_key(s1, k_)
                        except Exception: continue
                        if isinstance(a, MapV) and isinstance(b, MapV):
                            if not (a.dom.eq(b.dom) and zi(a.size).eq(zi(b.size))): wide.add(k_)
                    for g, v in s1.ghost.items():
                        if g not in g0: newg.add(g)
                        elif v is not g0[g] and not (isz(v) and isz(g0[g]) and v.eq(g0[g])): newg.add(g)
            finally:
                self.mute -= 1; self.discover -= 1; self.npaths = n0
            # keep whole-root entry over field entries
            same = {k_ for k_ in new if k_ not in wide and (k_ in samedom or k_ not in mods)}
            if new <= mods and newg <= ghosts and not (samedom - same): break
            samedom.clear(); samedom |= same
            mods |= new; ghosts |= newg
            roots = {k[0] for k in mods if k[1] == ()}
            mods = {k for k in mods if k[1] == () or k[0] not in roots}
        else:
            raise Unsupported('write set of the loop did not stabilise')
        # 2. head state
        k = z3.Int(fresh_name('iter'))
        head = entry.copy()
        head.writes = frozenset()
        head.assume(k >= 0)
        for key in sorted(mods, key=str): self.havoc_key(head, key, samedom)
        for g in sorted(ghosts):
            if g in head.ghost: head.ghost[g] = self.havoc_ghost(head, g, head.ghost[g])
        # while an enclosing loop looks for its write set the invariants do not matter
        cands = self.candidates(node, entry, head, k, mods) if not self.discover and not self.cfg.get('no_invariants') else []
        # 3. initiation
        alive = []
        for nm, f in cands:
            try: g = f(LoopView(self, entry, entry, z3.IntVal(0), mods, node))
            except (KeyError, AttributeError, Unsupported, TypeError, z3.Z3Exception, IndexError) as ex:
                if os.environ.get('CCV_DEBUG'): print('  not expressible:', nm, repr(ex)[:200])
                continue
            try: f(LoopView(self, entry, head, k, mods, node))
            except (KeyError, AttributeError, Unsupported, TypeError, z3.Z3Exception, IndexError) as ex:
                if os.environ.get('CCV_DEBUG'): print('  not expressible at the loop head:', nm, repr(ex)[:200])
                continue
            r0 = 'proved' if g is True else 'refuted' if g is False else solver.check(entry.pc, g, 3000, use_cvc5=False)[0]
            if r0 == 'unknown': self.unsure = True
            if r0 == 'proved':
                alive.append((nm, f))
            elif os.environ.get('CCV_DEBUG'): print('  init fails:', nm)
        # 4. Houdini: drop what is not preserved
        def head_with(al):
            h = head.copy()
            for nm, f in al:
                g = f(LoopView(self, entry, h, k, mods, node))
                h.assume(g)
            fl = self.cfg.get('loop_facts')
            if fl:
                for g in fl(LoopView(self, entry, h, k, mods, node)): h.assume(g)
            h.havoced = True
            h.cuts = h.cuts + (lid,)
            return h
        while True:
            self.tick()
            h = head_with(alive)
            bad = set()
            self.mute += 1
            n0 = self.npaths
            try:
                backs = [s1 for s1, tag, out in self.iterate(h, cond, body, inc) if tag == 'next']
            finally:
                self.mute -= 1; self.npaths = n0
            hard = []
            for s1 in backs:
                for i, (nm, f) in enumerate(alive):
                    if i in bad: continue
                    try: g = f(LoopView(self, entry, s1, k + 1, mods, node))
                    except (KeyError, AttributeError, Unsupported, TypeError, z3.Z3Exception) as ex:
                        if os.environ.get('CCV_DEBUG'): print('  not expressible after a round:', nm, repr(ex)[:200])
                        bad.add(i); continue
                    if g is True: continue
                    if g is False: bad.add(i); continue
                    light = getattr(f, 'light', False)
                    r = solver.check([x for x in s1.pc if not solver.hasq(x)] if light else s1.pc, g, 700, use_cvc5=False)
                    if r[0] == 'refuted' or (light and r[0] == 'unknown'):
                        bad.add(i)
                        if os.environ.get('CCV_DEBUG'): print('  not preserved:', nm, r[0])
                    elif r[0] == 'unknown': hard.append((i, nm, s1, g))
            # cheap refutations first; the expensive queries only once nothing is refuted any more
            if not bad:
                for i, nm, s1, g in hard:
                    if i in bad: continue
                    r = solver.check(s1.pc, g, 4000)
                    if r[0] != 'proved':
                        bad.add(i)
                        if r[0] == 'unknown': self.unsure = True
                        if os.environ.get('CCV_DEBUG'): print('  not preserved:', nm, r[0])
                        if os.environ.get('CCV_DUMP') and os.environ['CCV_DUMP'] in nm:
                            z = z3.Solver(); z.add(*s1.pc); z.add(z3.Not(g)); open('/tmp/w/dump.smt2', 'w').write(z.to_smt2()); print(g)
            if not bad: break
            alive = [c for i, c in enumerate(alive) if i not in bad]
        if os.environ.get('CCV_DEBUG'): print('loop line', node.get('l'), 'invariants:', [nm for nm, _ in alive])
        if not self.mute:
            for nm, f in alive:
                self.obls.append(Obligation('loop invariant: ' + nm, 'inv', 'proved', '', 'z3', self.frame.fn['qn'], node.get('l')))
            self.loops_proved += 1
        # 5. final pass from the invariant: obligations in the body, exits, early leaves
        h = head_with(alive)
        var = self.cfg.get('variant')
        cand = []
        if var:
            cand = var(LoopView(self, entry, h, k, mods, node)) or []
            if not isinstance(cand, (list, tuple)): cand = [cand]
        if cand and not self.mute:
            # several candidate measures: one of them has to decrease on every way round
            goals = [[] for _ in cand]; states = []
            self.mute += 1
            n0 = self.npaths
            try: backs = [s1 for s1, tag, out in self.iterate(h.copy(), cond, body, inc) if tag == 'next']
            finally: self.mute -= 1; self.npaths = n0
            for s1 in backs:
                c1 = var(LoopView(self, entry, s1, k + 1, mods, node)) or []
                if not isinstance(c1, (list, tuple)): c1 = [c1]
                for i, (a, b) in enumerate(zip(cand, c1)): goals[i].append((s1, z3.And(b < a, a >= 0)))
            best = 0
            for i, gs in enumerate(goals):
                if gs and all(solver.check(s1.pc, g, 4000)[0] == 'proved' for s1, g in gs): best = i; break
            for s1, g in goals[best]: self.oblige(s1.copy(), 'loop terminates (measure decreases)', g, 'term')
        ie = self.cfg.get('iter_end')
        if ie: h.events = h.events + (('iteration', lid),)
        probing = not self.mute and not self.discover and self.probes.get(id(node), 0) < 6 and self.probe_s > 0
        if probing: self.probes[id(node)] = self.probes.get(id(node), 0) + 1
        ends, rounds = [], []
        for s1, tag, out in self.iterate(h, cond, body, inc):
            if probing and len(ends) + len(rounds) < 40:
                if tag != 'next': ends.append(list(s1.pc))
                if tag != 'exit': rounds.append(list(s1.pc))
            if tag == 'exit':
                if ie and out is None: s1.events = s1.events + (('loop done', lid),)
                yield s1, None
            elif tag == 'leave': yield s1, out
            elif ie and not self.mute: ie(self, s1, node, k, lid)
        if probing:
            # vacuity guard: the invariant must leave a way out of the loop and a way round it
            for what, pcs in (('out of', ends), ('round', rounds)):
                if not self.reachable(pcs) and self.reachable([entry.pc]):
                    self.vacuous.append('no way %s the loop at line %s' % (what, node.get('l')))
                    if os.environ.get('CCV_DEBUG'): print('  VACUOUS', self.vacuous[-1])

    def reachable(self, pcs):
        """some of these path conditions is not contradictory (as far as the solver can tell)"""
        for pc in pcs:
            t0 = time.time()
            r = solver.check(pc, z3.BoolVal(False), 700, use_cvc5=False)[0]
            self.probe_s -= time.time() - t0
            if r != 'proved': return True
        return False

    def havoc_ghost(self, st, g, v):
        if isinstance(v, (int,)) and not isinstance(v, bool): return z3.Int(fresh_name('gh_' + g))
        if isinstance(v, bool): return z3.Bool(fresh_name('gh_' + g))
        if isz(v): return z3.Const(fresh_name('gh_' + g), v.sort())
        if isinstance(v, (VecV, MapV, SetV, StructV)): return self.havoc_value(st, v, None, 'gh_' + g)
        if isinstance(v, (dict, Opaque)): return v
        raise Unsupported('ghost %s changes in a loop' % g)

    def candidates(self, node, entry, head, k, mods):
        out = []
        # integer templates: v = v0 + k, v = v0 - k, bounds
        for key in sorted(mods, key=str):
            root, pre = key
            if pre: continue
            v = head.store.get(root); v0 = entry.store.get(root)
            def mk(root):
                def off(x): return x.off if isinstance(x, PtrV) else x
                def val(view): return zi(off(view.st.store[root]))
                def val0(view): return zi(off(view.entry.store[root]))
                return val, val0
            isint = (isinstance(v0, int) and not isinstance(v0, bool)) or (isz(v0) and v0.sort() == I) or (isinstance(v0, PtrV) and v0.off is not None)
            if isint:
                val, val0 = mk(root)
                nm = str(root[1])
                out.append(('%s = start + k' % nm, light(lambda w, a=val, b=val0: a(w) == b(w) + w.k)))
                out.append(('%s = start - k' % nm, light(lambda w, a=val, b=val0: a(w) == b(w) - w.k)))
                out.append(('%s >= start' % nm, light(lambda w, a=val, b=val0: a(w) >= b(w))))
                out.append(('%s <= start' % nm, light(lambda w, a=val, b=val0: a(w) <= b(w))))
            if isinstance(v0, IterV) and v0.kind in ('map', 'set', 'vec') and isinstance(v, IterV) and v.pos is not None and v0.pos is not None:
                def ipos(w, r=root): return zi(w.st.store[r].pos)
                def bound(w, r=root):
                    x = w.st.store[r]; c = self.read(w.st, x.loc)
                    return z3.And(ipos(w, r) >= 0, ipos(w, r) <= zi(c.n if isinstance(c, VecV) else c.size if not isz(c) else z3.Length(c)))
                out.append(('iterator = start + k', light(lambda w, r=root: ipos(w, r) == zi(w.entry.store[r].pos) + w.k)))
                out.append(('iterator within the container', bound))
        # the condition one step later: i < n keeps i <= n
        c = node.get('c') if node['k'] in ('for', 'while') else None
        if isinstance(c, dict) and c.get('k') == 'bin' and c.get('op') in ('<', '>', '!='):
            def weak(w, c=c, flip=False):
                st = w.st.copy(); n = self.npaths; self.mute += 1
                try: rs = list(self.rvs(st, [c['a'], c['b']]))
                finally: self.mute -= 1; self.npaths = n
                if len(rs) != 1 or isinstance(rs[0][1], (Thrown, Exited)): raise KeyError('condition')
                a, b = rs[0][1]
                if any(isinstance(x, (bool, PtrV, IterV, CStr, SP)) or (isz(x) and x.sort() != I) for x in (a, b)): raise KeyError('condition')
                return zi(b) <= zi(a) if flip else zi(a) <= zi(b)
            if c['op'] != '>': out.append(('condition or end', weak))
            if c['op'] != '<': out.append(('condition or end', lambda w: weak(w, flip=True)))
        # range-for position against the container length
        if node['k'] == 'forrange':
            out.append(('pos <= size', lambda w: self.range_pos(w, node)))
        if self.loopinv:
            v = LoopView(self, entry, head, k, mods, node)
            for nm, f in self.loopinv(v): out.append((nm, f))
        return out

    def range_pos(self, w, node):
        st = w.st
        for r in st.store:
            if r[0] == 'v' and isinstance(r[1], str) and r[1] == 'pos%s' % node['l'] + node['var']['n'] and r[2] == self.frame.id:
                # bounded by the loop condition's right-hand side of the previous iteration: use size of container at entry
                rl = list(self.ev(w.entry.copy(), node['range']))[0][1]
                if isinstance(rl, Loc): v = self.read(w.st, rl)
                else: v = rl
                n = v.n if isinstance(v, VecV) else (v.size if isinstance(v, (MapV, SetV)) else (J.jn(v.t) if isinstance(v, JsonV) else z3.Length(v)))
                return zi(st.store[r]) <= zi(n)
        raise KeyError('pos')

def light(f):
    """arithmetic template: decided from the quantifier-free facts alone"""
    f.light = True
    return f

def low_zeros(e):
    """number of low bits of an integer term that are zero by its shape"""
    if z3.is_int_value(e):
        v = e.as_long()
        return 64 if v == 0 else (v & -v).bit_length() - 1
    if z3.is_mul(e): return min(64, sum(low_zeros(x) for x in e.children()))
    if z3.is_add(e): return min(low_zeros(x) for x in e.children())
    if z3.is_mod(e) and z3.is_int_value(e.arg(1)): return min(low_zeros(e.arg(0)), low_zeros(e.arg(1)))
    if z3.is_app_of(e, z3.Z3_OP_ITE): return min(low_zeros(e.arg(1)), low_zeros(e.arg(2)))
    return 0

FLOAT = z3.Function('as_float', R, R)     # rounding to the nearest value of type float
def to_float(st, v, t):
    """double arithmetic is taken as exact; a conversion to float is not, beyond the 24 bits a float keeps"""
    if t.n != 'float' or not isz(v) or v.sort() != R: return v
    c = z3.simplify(v)
    if z3.is_rational_value(c) and c.denominator_as_long() == 1 and abs(c.numerator_as_long()) <= 1 << 24: return v
    st.assume(z3.Implies(z3.And(v >= -(1 << 24), v <= 1 << 24, z3.IsInt(v)), FLOAT(v) == v))
    return FLOAT(v)

class LoopView:
    """what an invariant candidate sees: entry state, current state, iteration counter k"""
    def __init__(self, eng, entry, st, k, mods, node):
        self.eng = eng; self.entry = entry; self.st = st; self.k = k; self.mods = mods; self.node = node
    def local(self, name, entry=False):
        """local variable or parameter of the current function by name (by-reference ones are followed)"""
        st = self.entry if entry else self.st
        fr = self.eng.frame
        for r in reversed(list(st.store)):
            if r[0] == 'v' and r[2] == fr.id:
                n = self.eng.names().get(r[1])
                if n == name:
                    v = st.store[r]
                    return self.eng.read(st, v) if isinstance(v, Loc) else v
        raise KeyError(name)
    def locals_of(self, pred, entry=False):
        st = self.entry if entry else self.st
        fr = self.eng.frame
        out = []
        for r, v in st.store.items():
            if r[0] == 'v' and r[2] == fr.id:
                t = st.types.get(r)
                if pred(t, v): out.append((r, v))
        return out
    def param(self, i, entry=True):
        fr = self.eng.frame
        p = fr.fn['params'][i]
        r = ('v', p['d'], fr.id)
        st = self.entry if entry else self.st
        v = st.store[r]
        return self.eng.read(st, v) if isinstance(v, Loc) else v
    def ints(self, modified=None):
        """integer locals and parameters: list of (root, name)"""
        out = []
        fr = self.eng.frame
        for r, v in self.entry.store.items():
            if r[0] == 'v' and r[2] == fr.id and isinstance(r[1], int):
                if (isinstance(v, int) and not isinstance(v, bool)) or (isz(v) and v.sort() == I):
                    if modified is None or ((r, ()) in self.mods) == modified: out.append((r, self.eng.names().get(r[1], str(r[1]))))
        return out
    def this(self, *fields, entry=False):
        fr = self.eng.frame
        st = self.entry if entry else self.st
        loc = fr.this
        for f in fields: loc = loc.f(f)
        return self.eng.read(st, loc)

def _names(eng):
    if not hasattr(eng, '_names'):
        m = {}
        def walk(x):
            if isinstance(x, dict):
                if x.get('k') == 'var': m[x['d']] = x['n']
                if 'bindings' in x:
                    for b in x['bindings']: m[b['d']] = b['n']
                for v in x.values(): walk(v)
            elif isinstance(x, list):
                for v in x: walk(v)
        for f in eng.u.functions:
            for p in f['params']: m[p['d']] = p['n']
            walk(f['body'])
        eng._names = m
    return eng._names
Engine.names = _names

def Lt(a, b):
    if not isz(a) and not isz(b): return a < b
    return a < b
def Le(a, b):
    if not isz(a) and not isz(b): return a <= b
    return a <= b
