"""Symbolic values, types and the codec between structured values and z3 sorts."""
import itertools
import z3
from fractions import Fraction

class Unsupported(Exception):
    """A construct outside the verifier's subset: the function is not proved, never a violation."""

_ctr = itertools.count()
def fresh_name(p): return '%s!%d' % (p, next(_ctr))

I = z3.IntSort(); B = z3.BoolSort(); R = z3.RealSort(); S = z3.StringSort()

# ---------------------------------------------------------------- types
class Ty:
    _memo = {}
    def __new__(cls, unit, i):
        k = (id(unit), i)
        t = cls._memo.get(k)
        if t is None:
            t = object.__new__(cls); cls._memo[k] = t
            t.unit = unit; t.i = i; t.d = unit.types[i]; t._n = None
        return t
    @property
    def k(self): return self.d['k']
    @property
    def const(self): return 'c' in self.d
    @property
    def e(self): return Ty(self.unit, self.d['e'])
    @property
    def n(self): return self.d.get('n', '')
    @property
    def args(self): return [Ty(self.unit, a) if isinstance(a, int) else a for a in self.d.get('a', [])]
    def isref(self): return self.k in ('r', 'rr')
    def isptr(self): return self.k == 'p'
    def isint(self): return (self.k == 'b' and 'w' in self.d and self.n != 'bool') or self.k == 'e'
    def isbool(self): return self.k == 'b' and self.n == 'bool'
    def isfloat(self): return self.k == 'b' and self.n in ('float', 'double', 'long double')
    def isvoid(self): return self.k == 'b' and self.n == 'void'
    def under(self):
        return Ty(self.unit, self.d['u']) if self.k == 'e' else self
    def width(self):
        u = self.under(); return u.d['w']
    def signed(self):
        return bool(self.under().d['s'])
    def lo(self): return -(1 << (self.width() - 1)) if self.signed() else 0
    def hi(self): return (1 << (self.width() - 1)) - 1 if self.signed() else (1 << self.width()) - 1
    def ischar(self): return self.k == 'b' and self.n in ('char', 'signed char', 'unsigned char')
    def cls(self):
        """normalised class kind"""
        if self.k != 'c': return None
        n = self.n
        return CLS.get(n, n)
    def key(self):
        if self._n is None: self._n = self._key()
        return self._n
    def _key(self):
        k = self.k
        if k == 'b': return self.n
        if k == 'e': return 'enum ' + self.n
        if k == 'p': return self.e.key() + '*'
        if k in ('r', 'rr'): return self.e.key() + '&'
        if k == 'a': return self.e.key() + '[%s]' % self.d.get('sz', '')
        if k == 'c':
            c = self.cls()
            a = self.args
            if c in ('string', 'path', 'json'): return c
            if c in ('vec', 'list', 'set', 'shared_ptr', 'unique_ptr', 'optional'): return c + '<' + a[0].key() + '>'
            if c in ('map', 'pair'): return c + '<' + a[0].key() + ',' + a[1].key() + '>'
            if a: return c + '<' + ','.join(x.key() if isinstance(x, Ty) else str(x) for x in a) + '>'
            return c
        return k
    def __repr__(self): return 'Ty(%s)' % self.key()

CLS = {'std::basic_string': 'string', 'std::basic_string_view': 'string', 'std::vector': 'vec', 'std::list': 'vec', 'std::deque': 'vec',
       'std::initializer_list': 'vec',
       'std::unordered_map': 'map', 'std::map': 'map', 'std::unordered_set': 'set', 'std::set': 'set',
       'std::pair': 'pair', 'std::tuple': 'tuple', 'std::shared_ptr': 'shared_ptr', 'std::unique_ptr': 'unique_ptr',
       'std::__shared_ptr': 'shared_ptr', 'std::__shared_ptr_access': 'shared_ptr',
       'SymEngine::RCP': 'rcp', 'std::optional': 'optional', 'std::filesystem::path': 'path', 'nlohmann::basic_json': 'json',
       'nlohmann::json_abi_v3_11_3::basic_json': 'json'}

# ---------------------------------------------------------------- values
class Loc:
    __slots__ = ('root', 'path')
    def __init__(self, root, path=()): self.root = root; self.path = tuple(path)
    def __truediv__(self, el): return Loc(self.root, self.path + (el,))
    def f(self, n): return self / ('f', n)
    def __repr__(self): return 'Loc%s%s' % (self.root, list(self.path))

class StructV:
    __slots__ = ('tn', 'f')
    def __init__(self, tn, f): self.tn = tn; self.f = f
    def set(self, n, v):
        d = dict(self.f); d[n] = v; return StructV(self.tn, d)
    def __repr__(self): return '%s%s' % (self.tn, self.f)
class VecV:
    __slots__ = ('et', 'a', 'n')
    def __init__(self, et, a, n): self.et = et; self.a = a; self.n = n
    def __repr__(self): return 'Vec(%s,%s)' % (self.a, self.n)
class MapV:
    __slots__ = ('kt', 'vt', 'dom', 'val', 'size')
    def __init__(self, kt, vt, dom, val, size): self.kt = kt; self.vt = vt; self.dom = dom; self.val = val; self.size = size
class SetV:
    __slots__ = ('kt', 'dom', 'size')
    def __init__(self, kt, dom, size): self.kt = kt; self.dom = dom; self.size = size
class PtrV:
    """pointer: null flag, container location, element offset (None: points at the location itself)"""
    __slots__ = ('null', 'loc', 'off')
    def __init__(self, null, loc, off=None): self.null = null; self.loc = loc; self.off = off
    def __repr__(self): return 'Ptr(%s,%s,%s)' % (self.null, self.loc, self.off)
def off0(p): return 0 if p.off is None else p.off
class CStr:
    """const char* to a NUL-terminated text"""
    __slots__ = ('null', 's')
    def __init__(self, null, s): self.null = null; self.s = s
    def __repr__(self): return 'CStr(%s,%s)' % (self.null, self.s)
class SP:
    """shared_ptr / unique_ptr: heap address, 0 is null"""
    __slots__ = ('t', 'addr')
    def __init__(self, t, addr): self.t = t; self.addr = addr
class OptV:
    __slots__ = ('t', 'has', 'v')
    def __init__(self, t, has, v): self.t = t; self.has = has; self.v = v
class IterV:
    """iterator; vec: pos index. map/set: key + end flag (+ pos once enumerated)"""
    __slots__ = ('kind', 'loc', 'key', 'end', 'pos', 'rev')
    def __init__(self, kind, loc, key=None, end=None, pos=None, rev=False):
        self.kind = kind; self.loc = loc; self.key = key; self.end = end; self.pos = pos; self.rev = rev
class JsonV:
    __slots__ = ('t',)
    def __init__(self, t): self.t = t
class FnV:
    def __init__(self, name, fn=None): self.name = name; self.fn = fn
    def __repr__(self): return 'Fn(%s)' % self.name
class Closure:
    def __init__(self, node, caps, frame, this): self.node = node; self.caps = caps; self.frame = frame; self.this = this
class Opaque:
    def __init__(self, tn, data=None): self.tn = tn; self.data = data or {}
    def set(self, **kw):
        d = dict(self.data); d.update(kw); return Opaque(self.tn, d)
    def __repr__(self): return 'Opaque(%s,%s)' % (self.tn, self.data)
class Thrown:
    def __init__(self, tn, val=None, line=None): self.tn = tn; self.val = val; self.line = line
    def __repr__(self): return 'throw %s' % self.tn
class Exited:
    def __init__(self, code, line=None): self.code = code; self.line = line
VOID = Opaque('void')

# JSON values as one recursive datatype
_J = z3.Datatype('Json')
_J.declare('jnull')
_J.declare('jbool', ('jb', B))
_J.declare('jint', ('ji', I))
_J.declare('jreal', ('jr', R))
_J.declare('jstr', ('js', S))
_J.declare('jarr', ('ja', z3.ArraySort(I, z3.DatatypeSort('Json'))), ('jn', I))
_J.declare('jobj', ('jm', z3.ArraySort(S, z3.DatatypeSort('Json'))), ('jd', z3.ArraySort(S, B)))
J = _J.create()

# ---------------------------------------------------------------- z3 helpers
def isz(x): return isinstance(x, z3.ExprRef)
def zi(x):
    if isinstance(x, bool): return z3.IntVal(1 if x else 0)
    if isinstance(x, int): return z3.IntVal(x)
    if isz(x) and x.sort() == B: return z3.If(x, z3.IntVal(1), z3.IntVal(0))
    return x
def zb(x):
    if isinstance(x, bool): return z3.BoolVal(x)
    if isinstance(x, int): return z3.BoolVal(x != 0)
    return x
def zr(x):
    if isinstance(x, bool): x = int(x)
    if isinstance(x, (int, Fraction)): return z3.RealVal(str(x))
    if isz(x) and x.sort() == I: return z3.ToReal(x)
    return x
def zs(x):
    if isinstance(x, (bytes, bytearray)): x = x.decode('latin1')
    if isinstance(x, str): return z3.StringVal(x)
    return x
def conc(x):
    """python int/bool/str of a concrete z3 value, else None"""
    if isinstance(x, (bool, int, Fraction)): return x
    if isz(x):
        x = z3.simplify(x)
        if z3.is_int_value(x): return x.as_long()
        if z3.is_true(x): return True
        if z3.is_false(x): return False
        if z3.is_string_value(x): return unesc(x)
    return None
def unesc(x):
    s = x.as_string()
    import re
    return re.sub(r'\\u\{([0-9a-fA-F]+)\}', lambda m: chr(int(m.group(1), 16)), s)
def And(*a):
    r = []
    for x in a:
        if isinstance(x, (list, tuple)): x = And(*x)
        if x is True: continue
        if x is False: return False
        if isz(x):
            if z3.is_true(x): continue
            if z3.is_false(x): return False
        r.append(x)
    if not r: return True
    return r[0] if len(r) == 1 else z3.And(*r)
def Or(*a):
    r = []
    for x in a:
        if isinstance(x, (list, tuple)): x = Or(*x)
        if x is False: continue
        if x is True: return True
        if isz(x):
            if z3.is_false(x): continue
            if z3.is_true(x): return True
        r.append(x)
    if not r: return False
    return r[0] if len(r) == 1 else z3.Or(*r)
def Not(x):
    if isinstance(x, bool): return not x
    if z3.is_true(x): return False
    if z3.is_false(x): return True
    return z3.Not(x)
def Implies(a, b): return Or(Not(a), b)
def Eq(a, b):
    if not isz(a) and not isz(b):
        if isinstance(a, (bytes, str)) or isinstance(b, (bytes, str)): return zs(a).eq(zs(b)) if False else (str(a) == str(b))
        return a == b
    if isz(a) and isz(b):
        if a.eq(b): return True
        if a.sort() != b.sort():
            if {a.sort(), b.sort()} == {I, R}: return zr(a) == zr(b)
            if {a.sort(), b.sort()} == {I, B}: return zi(a) == zi(b)
    if isinstance(a, str): a = zs(a)
    if isinstance(b, str): b = zs(b)
    r = a == b
    return r

# ---------------------------------------------------------------- codec
class Codec:
    """value <-> z3 term, per type. strmode: 'seq' (z3 String) or 'arr' (vector of ints)."""
    def __init__(self, strmode='seq'):
        self.strmode = strmode
        self.dts = {}
        self.rec_fields = {}

    def record(self, ty):
        """list of (field, Ty) of a record type incl. bases (flattened)"""
        k = ty.key()
        if k in self.rec_fields: return self.rec_fields[k]
        r = ty.unit.records.get(ty.d['d'])
        if r is None: raise Unsupported('no record definition for ' + k)
        out = []
        for b in r['bases']:
            if ty.unit.types[b].get('n', '').startswith('boost::dfs_visitor'): continue      # no state of its own (null visitor)
            if ty.unit.types[b].get('n', '') == 'std::exception' and ty.unit.records.get(ty.unit.types[b].get('d')) is None: continue      # no state of its own
            out += self.record(Ty(ty.unit, b))
        for f in r['fields']: out.append((f['n'], Ty(ty.unit, f['t'])))
        self.rec_fields[k] = out
        return out

    def dt(self, key, fields):
        if key in self.dts: return self.dts[key]
        d = z3.Datatype(key)
        d.declare('mk_' + key, *[('%s.%s' % (key, n), s) for n, s in fields])
        d = d.create()
        self.dts[key] = d
        return d

    def vec_dt(self, et):
        s = self.sort(et)
        return self.dt('Vec<%s>' % s, [('a', z3.ArraySort(I, s)), ('n', I)])

    def map_dt(self, kt, vt):
        ks, vs = self.sort(kt), self.sort(vt)
        return self.dt('Map<%s,%s>' % (ks, vs), [('dom', z3.ArraySort(ks, B)), ('val', z3.ArraySort(ks, vs)), ('size', I)])

    def sort(self, t):
        if t.isint(): return I
        if t.isbool(): return B
        if t.isfloat(): return R
        if t.isref(): raise Unsupported('sort of reference')
        if t.isptr():
            if t.e.ischar() and self.strmode == 'seq': return self.dt('CStr', [('null', B), ('s', S)])
            return I
        if t.k == 'a': return self.vec_dt(t.e)
        c = t.cls()
        if c in ('string',): return S if self.strmode == 'seq' else self.vec_dt_int()
        if c == 'path': return S
        if c == 'json': return J
        if c == 'vec': return self.vec_dt(t.args[0])
        if c == 'map': return self.map_dt(t.args[0], t.args[1])
        if c == 'set': return self.dt('Set<%s>' % self.sort(t.args[0]), [('dom', z3.ArraySort(self.sort(t.args[0]), B)), ('size', I)])
        if c in ('shared_ptr', 'unique_ptr', 'rcp'): return I     # rcp: the number the expression stands for
        if c == 'pair':
            a = t.args
            return self.dt('Pair<%s,%s>' % (self.sort(a[0]), self.sort(a[1])), [('first', self.sort(a[0])), ('second', self.sort(a[1]))])
        if c == 'optional':
            return self.dt('Opt<%s>' % self.sort(t.args[0]), [('has', B), ('v', self.sort(t.args[0]))])
        if t.k == 'c' and t.d['d'] in t.unit.records:
            fs = [(n, self.sort(ft)) for n, ft in self.record(t)]
            return self.dt(t.key(), fs)
        if t.k == 'c':
            key = 'Opq<%s>' % t.key()
            if key not in self.dts: self.dts[key] = z3.DeclareSort(key)
            return self.dts[key]
        raise Unsupported('sort of ' + t.key())

    def vec_dt_int(self):
        return self.dt('Vec<Int>', [('a', z3.ArraySort(I, I)), ('n', I)])

    def mk(self, dt, *args): return dt.constructor(0)(*args)
    def eta(self, t, v):
        """mk(acc0(x), .., accn(x)) is x"""
        if z3.is_app(v) and v.num_args() and v.decl().kind() == z3.Z3_OP_DT_CONSTRUCTOR:
            a = v.arg(0)
            if z3.is_app(a) and a.decl().kind() == z3.Z3_OP_DT_ACCESSOR and a.arg(0).sort() == v.sort():
                x = a.arg(0); dt = v.sort()
                if all(v.arg(i).eq(dt.accessor(0, i)(x)) for i in range(v.num_args())): return x
        return v
    def acc(self, dt, i, term):
        # simplify accessor-of-constructor eagerly
        if z3.is_app(term) and term.decl().eq(dt.constructor(0)): return term.arg(i)
        return dt.accessor(0, i)(term)

    def enc(self, v, t):
        if t.isint(): return zi(v)
        if t.isbool(): return zb(v) if not (isz(v) and v.sort() == I) else v != 0
        if t.isfloat(): return zr(v)
        c = t.cls()
        if t.isptr():
            if t.e.ischar() and self.strmode == 'seq':
                if isinstance(v, PtrV) and v.null is True: v = CStr(True, zs(''))
                if not isinstance(v, CStr): raise Unsupported('char pointer value %r' % (v,))
                return self.mk(self.sort(t), zb(v.null), zs(v.s))
            raise Unsupported('enc of pointer')
        if c == 'path' or (c == 'string' and self.strmode == 'seq'): return zs(v)
        if c == 'json': return v.t
        if c == 'vec' or t.k == 'a' or c == 'string':
            dt = self.vec_dt(t.args[0]) if c == 'vec' else (self.vec_dt(t.e) if t.k == 'a' else self.vec_dt_int())
            return self.mk(dt, v.a, zi(v.n))
        if c == 'map': return self.mk(self.map_dt(*t.args[:2]), v.dom, v.val, zi(v.size))
        if c == 'set': return self.mk(self.sort(t), v.dom, zi(v.size))
        if c == 'rcp': return zi(v)
        if c in ('shared_ptr', 'unique_ptr'):
            return zi(v.addr) if isinstance(v, SP) else zi(0)
        if c == 'pair':
            return self.mk(self.sort(t), self.enc(v.f['first'], t.args[0]), self.enc(v.f['second'], t.args[1]))
        if c == 'optional':
            s = self.sort(t)
            return self.mk(s, zb(v.has), self.enc(v.v, t.args[0]) if v.v is not None else z3.Const(fresh_name('none'), self.sort(t.args[0])))
        if isinstance(v, StructV):
            return self.eta(t, self.mk(self.sort(t), *[self.eta(ft, self.enc(v.f[n], ft)) for n, ft in self.record(t)]))
        if isinstance(v, Opaque) and 'term' in v.data: return v.data['term']
        if isinstance(v, Opaque): return z3.Const(fresh_name('opq'), self.sort(t))
        raise Unsupported('enc %r as %s' % (v, t.key()))

    def dec(self, x, t, facts=None):
        """term -> value; type facts (ranges, non-negative lengths) are appended to `facts`"""
        if facts is None: facts = []
        if t.isint():
            if not z3.is_int_value(x): facts.append(z3.And(x >= t.lo(), x <= t.hi()))
            return x
        if t.isbool() or t.isfloat(): return x
        c = t.cls()
        if t.isptr():
            if t.e.ischar() and self.strmode == 'seq':
                d = self.sort(t); return CStr(self.acc(d, 0, x), self.acc(d, 1, x))
            raise Unsupported('dec of pointer ' + t.key())
        if c == 'path' or (c == 'string' and self.strmode == 'seq'):
            return x
        if c == 'json': return JsonV(x)
        if c == 'vec' or t.k == 'a' or c == 'string':
            et = t.args[0] if c == 'vec' else (t.e if t.k == 'a' else None)
            d = self.vec_dt(et) if et is not None else self.vec_dt_int()
            n = self.acc(d, 1, x)
            facts.append(z3.And(n >= 0, n <= (1 << 60)))
            return VecV(et, self.acc(d, 0, x), n)
        if c == 'map':
            d = self.map_dt(*t.args[:2]); n = self.acc(d, 2, x)
            m = MapV(t.args[0], t.args[1], self.acc(d, 0, x), self.acc(d, 1, x), n)
            facts.append(z3.And(n >= 0, n <= (1 << 60)))
            facts.append((n == 0) == (m.dom == z3.K(self.sort(m.kt), z3.BoolVal(False))))
            return m
        if c == 'set':
            d = self.sort(t); n = self.acc(d, 1, x)
            facts.append(z3.And(n >= 0, n <= (1 << 60)))
            return SetV(t.args[0], self.acc(d, 0, x), n)
        if c == 'rcp': return x
        if c in ('shared_ptr', 'unique_ptr'):
            facts.append(x >= 0)
            return SP(t.args[0], x)
        if c == 'pair':
            d = self.sort(t)
            return StructV('pair', {'first': self.dec(self.acc(d, 0, x), t.args[0], facts), 'second': self.dec(self.acc(d, 1, x), t.args[1], facts)})
        if c == 'optional':
            d = self.sort(t); return OptV(t.args[0], self.acc(d, 0, x), self.dec(self.acc(d, 1, x), t.args[0], facts))
        if t.k == 'c' and t.d['d'] in t.unit.records:
            d = self.sort(t)
            return StructV(t.key(), {n: self.dec(self.acc(d, i, x), ft, facts) for i, (n, ft) in enumerate(self.record(t))})
        return Opaque(t.key(), {'term': x})

    def fresh(self, t, name, facts):
        if t.isref(): raise Unsupported('fresh reference')
        return self.dec(z3.Const(fresh_name(name), self.sort(t)), t, facts)


def asel(a, k):
    """a[k], looking through stores at the same index"""
    while z3.is_store(a):
        j = a.arg(1)
        if j.eq(k): return a.arg(2)
        if (z3.is_int_value(j) and z3.is_int_value(k)) or (z3.is_string_value(j) and z3.is_string_value(k)): a = a.arg(0); continue
        break
    if z3.is_const_array(a): return a.arg(0)
    return z3.Select(a, k)
def asto(a, k, v):
    if z3.is_store(a) and a.arg(1).eq(k): a = a.arg(0)
    return z3.Store(a, k, v)
