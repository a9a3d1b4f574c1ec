"""Assumed contracts of library functions (C++ standard library, POSIX, nlohmann::json, std::filesystem).

Each model states what the executor assumes about a callee that is not part of /repo.  Preconditions the
library documents (in-bounds access, non-null text, non-empty container) become obligations of the caller.
Every model that is used is recorded in eng.used_models and listed in the evidence as an assumption."""
import z3
from .values import *

NPOS = (1 << 64) - 1

# ------------------------------------------------------------------ streams and other opaque objects
STREAMS = {'std::basic_ofstream': 'ofstream', 'std::basic_ifstream': 'ifstream', 'std::basic_fstream': 'ofstream',
           'std::basic_ostringstream': 'sstream', 'std::basic_stringstream': 'sstream', 'std::basic_istringstream': 'sstream'}
EMPTYCLS = ('std::allocator', 'std::multiplies', 'std::plus', 'std::hash', 'std::equal_to', 'std::less', 'std::mutex', 'std::recursive_mutex',
            'std::shared_mutex', 'std::nullopt_t', 'std::random_device', 'std::initializer_list', 'std::bit_and', 'std::bit_or')
LOCKS = ('std::lock_guard', 'std::unique_lock', 'std::scoped_lock', 'std::shared_lock')

def sink_hook(eng): return eng.cfg.get('sink')

def new_sstream(eng, st):
    return Opaque('stream', {'kind': 'sstream', 'text': zs('') if not sink_hook(eng) else sink_hook(eng).start(eng, st), 'fail': False, 'bad': False})

def default(eng, st, t):
    n = t.n
    if n in STREAMS:
        k = STREAMS[n]
        if k == 'sstream': return new_sstream(eng, st)
        return Opaque('stream', {'kind': k, 'open': False, 'fail': False, 'bad': False, 'path': zs('')})
    if n in EMPTYCLS or n in LOCKS: return Opaque(n, {})
    if n == 'std::error_code': return Opaque('error_code', {'set': False})
    if n in ('std::_List_iterator', '__gnu_cxx::__normal_iterator', 'std::__detail::_Node_iterator'): return IterV('none', None)
    m = eng.cfg.get('default')
    if m: return m(eng, st, t)
    return None

def fresh(eng, st, t, name):
    m = eng.cfg.get('fresh')
    if m:
        r = m(eng, st, t, name)
        if r is not None: return r
    if t.k == 'c' and (t.n in EMPTYCLS or t.n in STREAMS or t.n == 'std::error_code'): return default(eng, st, t)
    if t.k == 'c' and t.d['d'] in t.unit.records and has_special(eng, t):
        return StructV(t.key(), {n: eng.fresh(st, ft, name + '.' + n) for n, ft in eng.c.record(t)})
    return None

def has_special(eng, t):
    for n, ft in eng.c.record(t):
        if ft.k == 'c' and (ft.n in EMPTYCLS or ft.n in STREAMS): return True
        if ft.isptr() and not (ft.e.ischar() and eng.strmode == 'seq'): return True
    return False

def glob(eng, st, qn):
    if qn in ('std::cout', 'std::cerr', 'std::clog'): return Opaque('stream', {'kind': 'null', 'fail': False, 'bad': False})
    if qn in ('std::ranges::views::keys', 'std::ranges::views::values'): return Opaque('map_view', {'what': qn[20:]})
    if qn == 'std::nullopt': return Opaque('nullopt')
    if qn in ('stderr', 'stdout'): return Opaque('FILE', {'std': True})
    m = eng.cfg.get('globals', {}).get(qn)
    if m is not None: return m(eng, st) if callable(m) else m
    return None

def havoc(eng, st, v, name):
    if isinstance(v, Opaque):
        if v.tn == 'stream':
            d = dict(v.data)
            if 'text' in d: d['text'] = z3.Const(fresh_name(name), S) if not sink_hook(eng) else sink_hook(eng).havoc(eng, st, d['text'])
            if d['kind'] in ('ofstream', 'ifstream'):
                d['fail'] = z3.Bool(fresh_name(name)); d['bad'] = z3.Bool(fresh_name(name))
            return Opaque('stream', d)
        if v.tn == 'FILE' and 'text' in v.data:
            return v.set(text=z3.Const(fresh_name(name), S) if not sink_hook(eng) else sink_hook(eng).havoc(eng, st, v.data['text']))
        if not v.data: return v
        if 'term' in v.data: return Opaque(v.tn, {'term': z3.Const(fresh_name(name), v.data['term'].sort())})
        m = eng.cfg.get('havoc')
        if m: return m(eng, st, v, name)
    return None

def catches(t, out):
    n = t.n if t.k == 'c' else t.key()
    if n == out.tn: return True
    tree = {'std::runtime_error': 'std::exception', 'std::invalid_argument': 'std::logic_error', 'std::out_of_range': 'std::logic_error',
            'std::logic_error': 'std::exception', 'std::filesystem::filesystem_error': 'std::runtime_error', 'std::bad_alloc': 'std::exception',
            'std::length_error': 'std::logic_error', 'nlohmann::detail::type_error': 'nlohmann::detail::exception',
            'nlohmann::detail::parse_error': 'nlohmann::detail::exception', 'nlohmann::detail::exception': 'std::exception',
            'std::system_error': 'std::runtime_error', 'std::bad_optional_access': 'std::exception', 'boost::not_a_dag': 'boost::bad_graph', 'boost::bad_graph': 'std::invalid_argument'}
    x = out.tn
    while x in tree:
        x = tree[x]
        if x == n: return True
    return False

def destroy(eng, st, loc, t):
    n = t.n if t.k == 'c' else ''
    if n in LOCKS:
        v = eng.peek(st, loc)
        if isinstance(v, Opaque) and v.data.get('held'):
            st.ghost['locks'] = tuple(x for x in st.ghost.get('locks', ()) if x != v.data['held'])
    elif n == 'std::basic_ofstream':
        v = eng.peek(st, loc)
        if isinstance(v, Opaque): stream_close(eng, st, loc, v)

# ------------------------------------------------------------------ text helpers
def text(eng, st, v, what='text'):
    """z3 string of a std::string / const char* / char literal value"""
    v = eng.val(st, v)
    if isinstance(v, Opaque) and v.tn == 'strlit': return zs(v.data['b'])
    if isinstance(v, CStr):
        eng.oblige(st, '%s pointer is not null' % what, Not(v.null), 'ub')
        return zs(v.s)
    if isinstance(v, PtrV) and v.null is True:
        eng.oblige(st, '%s pointer is not null' % what, False, 'ub'); return zs('')
    if isinstance(v, PtrV) and v.loc is not None:
        c = eng.read(st, v.loc)
        if isz(c) and c.sort() == S: return c if v.off in (None, 0) else z3.SubString(c, zi(v.off), z3.Length(c) - zi(v.off))
    if isz(v) and v.sort() == S: return v
    if isinstance(v, str): return zs(v)
    raise Unsupported('text of %r' % (v,))

def chartext(eng, st, c):
    c = eng.val(st, c)
    cc = conc(c)
    if cc is not None: return zs(bytes([int(cc) & 255]))
    return z3.StrFromCode(z3.If(c < 0, c + 256, c))

def is_text(v):
    return isinstance(v, CStr) or (isinstance(v, Opaque) and v.tn == 'strlit') or (isz(v) and v.sort() == S)

def itos(n):
    c = conc(n)
    if c is not None: return zs(str(int(c)))
    return z3.If(n >= 0, z3.IntToStr(n), z3.Concat(zs('-'), z3.IntToStr(-n)))

RTOS = z3.Function('real_to_text', R, S)
def cat(*a):
    a = [zs(x) for x in a]
    a = [x for x in a if not (z3.is_string_value(x) and x.as_string() == '')]
    if not a: return zs('')
    return a[0] if len(a) == 1 else z3.Concat(*a)

def path_join(p, q):
    p, q = zs(p), zs(q)
    r = z3.If(z3.PrefixOf(zs('/'), q), q,
              z3.If(z3.Or(p == zs(''), z3.SuffixOf(zs('/'), p)), z3.Concat(p, q), z3.Concat(p, zs('/'), q)))
    return r

PPARENT = z3.Function('path_parent', S, S)
PFILE = z3.Function('path_filename', S, S)
def path_filename(eng, st, p):
    f = PFILE(p)
    st.assume(z3.Not(z3.Contains(f, zs('/'))), z3.SuffixOf(f, p),
              z3.Implies(z3.Not(z3.Contains(p, zs('/'))), f == p),
              z3.Implies(z3.Contains(p, zs('/')), z3.SuffixOf(z3.Concat(zs('/'), f), p)))
    return f
def path_parent(eng, st, p):
    f = path_filename(eng, st, p); d = PPARENT(p)
    st.assume(z3.PrefixOf(d, p), z3.Implies(z3.Not(z3.Contains(p, zs('/'))), d == zs('')),
              z3.Implies(z3.Contains(p, zs('/')), z3.Length(d) + z3.Length(f) <= z3.Length(p)),
              z3.Implies(z3.And(z3.Contains(p, zs('/')), d == zs('')), False))
    return d

# ------------------------------------------------------------------ iterators
def iter_deref(eng, st, v):
    if v.kind == 'vec':
        c = eng.read(st, v.loc)
        n = c.n if isinstance(c, VecV) else z3.Length(c)
        p = v.pos
        if v.rev: p = eng.add(eng.add(n, -1), -zi(p)) if not isinstance(p, int) or isz(n) else n - 1 - p
        eng.oblige(st, 'iterator points into the container', And(_le(0, p), _lt(p, n)), 'ub')
        return v.loc / ('ix', p)
    if v.kind in ('map', 'set'):
        c = eng.read(st, v.loc)
        if v.key is None:
            en = enumeration(eng, st, c, v.loc)
            eng.oblige(st, 'iterator is dereferenceable', And(_le(0, v.pos), _lt(v.pos, c.size)), 'ub')
            k = z3.Select(en, zi(v.pos))
        else:
            eng.oblige(st, 'iterator is dereferenceable', Not(v.end), 'ub')
            k = v.key
        if v.kind == 'set':
            facts = []; x = eng.c.dec(k, c.kt, facts); st.assume(*facts); return eng.newtemp(st, x)
        return v.loc / ('me', k)
    if v.kind == 'json': return v.loc / ('jk', v.key)
    m = eng.cfg.get('iter_deref')
    if m: return m(eng, st, v)
    raise Unsupported('dereference of iterator ' + str(v.kind))

def _le(a, b):
    if isz(a) or isz(b): return zi(a) <= zi(b)
    return a <= b
def _lt(a, b):
    if isz(a) or isz(b): return zi(a) < zi(b)
    return a < b

def iter_advance(eng, st, v, d):
    if v.kind in ('vec',): return IterV('vec', v.loc, pos=eng.add(v.pos, d), rev=v.rev)
    if v.kind in ('map', 'set'):
        p = v.pos
        c = eng.read(st, v.loc)
        if p is None:
            en = enumeration(eng, st, c, v.loc); inv = eng._enum_inv[id(en)]
            p = z3.If(zb(v.end), zi(c.size), z3.Select(inv, v.key))
        return IterV(v.kind, v.loc, pos=eng.add(p, d))
    m = eng.cfg.get('iter_advance')
    if m: return m(eng, st, v, d)
    raise Unsupported('advance of iterator ' + str(v.kind))

def iter_eq(eng, st, a, b):
    m = eng.cfg.get('iter_eq')
    if m:
        r = m(eng, st, a, b)
        if r is not None: return r
    if a.kind == 'vec' and b.kind == 'vec': return Eq(zi(a.pos), zi(b.pos))
    if a.kind in ('map', 'set') and b.kind == a.kind:
        c = eng.read(st, a.loc)
        if a.pos is not None or b.pos is not None:
            def pos(x):
                if x.pos is not None: return zi(x.pos)
                if x.end is True: return zi(c.size)
                en = enumeration(eng, st, c, x.loc); inv = eng._enum_inv[id(en)]
                return z3.If(zb(x.end), zi(c.size), z3.Select(inv, x.key))
            return Eq(pos(a), pos(b))
        if b.end is True: return a.end
        if a.end is True: return b.end
        return Or(And(a.end, b.end), And(Not(a.end), Not(b.end), a.key == b.key))
    if a.kind == 'json' and b.kind == 'json':
        if b.end is True: return a.end
        if a.end is True: return b.end
    raise Unsupported('iterator comparison')

def iter_havoc(eng, st, v, name):
    p = z3.Int(fresh_name(name + '.pos')) if v.pos is not None else None
    if p is not None: st.assume(p >= 0)
    if v.kind in ('map', 'set') and v.pos is None:
        raise Unsupported('havoc of a keyed iterator')
    return IterV(v.kind, v.loc, v.key, v.end, p, v.rev)

def enumeration(eng, st, c, loc=None):
    """iteration order of a map / set: a bijection between [0,size) and the keys (unspecified order)"""
    cache = eng.__dict__.setdefault('_enums', {})
    inv = eng.__dict__.setdefault('_enum_inv', {})
    k = (str(loc.root) + str(len(loc.path)) if loc is not None else '', c.dom.get_id())
    if k not in cache:
        ks = c.dom.domain()
        en = z3.Const(fresh_name('enum'), z3.ArraySort(I, ks)); ix = z3.Const(fresh_name('enumix'), z3.ArraySort(ks, I))
        i = z3.Int(fresh_name('i')); x = z3.Const(fresh_name('x'), ks)
        n = zi(c.size)
        ax = [z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < n), z3.And(c.dom[en[i]], ix[en[i]] == i)), patterns=[en[i]]),
              z3.ForAll([x], z3.Implies(c.dom[x], z3.And(ix[x] >= 0, ix[x] < n, en[ix[x]] == x)), patterns=[ix[x]] if True else [])]
        ax.append(z3.ForAll([x], z3.Implies(c.dom[x], z3.And(ix[x] >= 0, ix[x] < n, en[ix[x]] == x)), patterns=[c.dom[x]]) if not z3.is_K(c.dom) and not z3.is_store(c.dom) else z3.BoolVal(True))
        cache[k] = (en, ax, c.dom); inv[id(en)] = ix
    en, ax, _ = cache[k]
    st.ghost['enum:%s' % c.dom.domain()] = Opaque('enumerated', {'c': c, 'en': en})
    for f in ax:
        if not any(f.eq(g) for g in st.pc): st.assume(f)
    return en

def range_adapter(eng, st, val):
    m = eng.cfg.get('range_adapter')
    if m:
        r = m(eng, st, val)
        if r is not None: return r
    if isinstance(val, Opaque) and val.tn == 'map_view':
        loc = val.data['loc']; mv = eng.read(st, loc); en = enumeration(eng, st, mv)
        def elem(x, i):
            k = z3.Select(en, zi(i)); x.ghost['key:%s' % k.sort()] = k
            facts = []; kv = eng.c.dec(k, mv.kt, facts); x.assume(*facts)
            return eng.newtemp(x, kv) if val.data['what'] == 'keys' else loc / ('mv', k)
        return (lambda x: eng.read(x, loc).size), elem
    if isinstance(val, Opaque) and val.tn == 'json_items':
        loc = val.data['loc']; jv = eng.read(st, loc).t
        if eng.sat(st, z3.Not(z3.Or(J.is_jobj(jv), J.is_jnull(jv)))): raise Unsupported('items() of a JSON value that may be no object')
        eng.used_models.add('json items()')
        n = JMEMBERS(jv); dom = z3.If(J.is_jobj(jv), J.jd(jv), z3.K(S, z3.BoolVal(False))) if eng.sat(st, J.is_jnull(jv)) else J.jd(jv)
        st.assume(n >= 0, n <= 1 << 60)
        en = enumeration(eng, st, MapV(None, None, dom, J.jm(jv), n))
        def elem(x, i):
            k = z3.Select(en, zi(i)); x.ghost['key:%s' % k.sort()] = k
            return eng.newtemp(x, StructV('pair', {'first': eng.newtemp(x, k), 'second': loc / ('jk', k)}))
        return (lambda x: n), elem
    return None

# ------------------------------------------------------------------ file system ghost state
def fs(st):
    g = st.ghost
    if 'fs_a' not in g:
        g['fs_a'] = z3.Const('fs0_a', z3.ArraySort(S, z3.ArraySort(I, I)))
        g['fs_n'] = z3.Const('fs0_n', z3.ArraySort(S, I))
        g['fs_x'] = z3.Const('fs0_x', z3.ArraySort(S, B))      # regular file exists
        g['fs_j'] = z3.Const('fs0_j', z3.ArraySort(S, J))      # parsed JSON content of a text file written via <<
    return g

def fs_clobber(st, p):
    g = fs(st)
    g['fs_a'] = z3.Store(g['fs_a'], p, z3.Const(fresh_name('garbage'), z3.ArraySort(I, I)))
    n = z3.Int(fresh_name('garbage_n')); st.assume(n >= 0)
    g['fs_n'] = z3.Store(g['fs_n'], p, n)
    g['fs_j'] = z3.Store(g['fs_j'], p, z3.Const(fresh_name('garbage_j'), J))

def stream_open(eng, st, kind, path, append=False):
    ok = z3.Bool(fresh_name('open_ok'))
    g = fs(st)
    if eng.cfg.get('open_hook'): eng.cfg['open_hook'](eng, st, kind, path)
    if kind == 'ofstream':
        # a successful open truncates; a failed one leaves the file alone
        old = dict(g)
        n0 = g['fs_n']; 
        if append: pass
        else: g['fs_n'] = z3.If(ok, z3.Store(n0, path, z3.IntVal(0)), n0)
        g['fs_x'] = z3.If(ok, z3.Store(g['fs_x'], path, z3.BoolVal(True)), g['fs_x'])
        st.events = st.events + (('open', kind, path, ok),)
        return Opaque('stream', {'kind': kind, 'open': ok, 'fail': Not(ok), 'bad': False, 'path': path, 'buf': VecV(None, z3.K(I, z3.IntVal(0)), 0), 'jbuf': None, 'app': append})
    if eng.cfg.get('readable') is not None: ok = eng.cfg['readable'](path)
    x = g['fs_x'][path]
    st.assume(z3.Implies(ok, x))
    st.assume(g['fs_n'][path] >= 0)
    st.events = st.events + (('open', kind, path, ok),)
    return Opaque('stream', {'kind': kind, 'open': ok, 'fail': Not(ok), 'bad': False, 'path': path, 'pos': 0})

def stream_write(eng, st, loc, v, data):
    """data: VecV of bytes. Success buffers them; failure sets badbit or failbit"""
    ok = z3.Bool(fresh_name('write_ok')); good = And(v.data['open'], Not(v.data['fail']), Not(v.data['bad']))
    b = z3.Bool(fresh_name('write_bad')); f = z3.Bool(fresh_name('write_fail'))
    st.assume(z3.Implies(z3.Not(ok), z3.Or(b, f)))
    succ = And(good, ok)
    buf = v.data['buf']
    if conc(buf.n) == 0: nb = data
    else:
        i = z3.Int(fresh_name('i'))
        a = z3.Lambda([i], z3.If(i < zi(buf.n), buf.a[i], data.a[i - zi(buf.n)]))
        nb = VecV(None, a, zi(buf.n) + zi(data.n))
    eng.write(st, loc, v.set(buf=nb, bad=z3.simplify(zb(Or(v.data['bad'], And(good, Not(ok), b)))), fail=z3.simplify(zb(Or(v.data['fail'], Not(good), And(Not(ok), f)))), lost=z3.simplify(zb(Or(v.data.get('lost', False), Not(succ))))))

def stream_close(eng, st, loc, v):
    """flush and close: success makes exactly the buffered bytes the file content"""
    if v.data['kind'] != 'ofstream' or v.data.get('closed'): return
    ok = z3.Bool(fresh_name('close_ok'))
    lost = Or(v.data.get('lost', False), v.data['bad'])
    good = And(v.data['open'], ok, Not(lost))
    p = v.data['path']; g = fs(st)
    ga = z3.Const(fresh_name('garbage'), z3.ArraySort(I, I)); gn = z3.Int(fresh_name('garbage_n')); gj = z3.Const(fresh_name('garbage_j'), J)
    st.assume(gn >= 0)
    op = zb(v.data['open'])
    g['fs_a'] = z3.If(op, z3.Store(g['fs_a'], p, z3.If(zb(good), v.data['buf'].a, ga)), g['fs_a'])
    g['fs_n'] = z3.If(op, z3.Store(g['fs_n'], p, z3.If(zb(good), zi(v.data['buf'].n), gn)), g['fs_n'])
    if v.data.get('jbuf') is not None:
        g['fs_j'] = z3.If(op, z3.Store(g['fs_j'], p, z3.If(zb(good), v.data['jbuf'], gj)), g['fs_j'])
    else: g['fs_j'] = z3.If(op, z3.Store(g['fs_j'], p, gj), g['fs_j'])
    st.events = st.events + (('close', p, good),)
    eng.write(st, loc, v.set(closed=True, open=False, fail=z3.simplify(zb(Or(v.data['fail'], And(v.data['open'], Not(ok)), Not(v.data['open']))))))

def put(eng, st, loc, v, piece, kind):
    """formatted output of one piece; kind: str / cstr / char / int / real / bool"""
    d = v.data
    if d['kind'] == 'null': return
    if d['kind'] == 'sstream':
        h = sink_hook(eng)
        if h: nt = h.put(eng, st, d['text'], piece, kind)
        else: nt = cat(d['text'], piece)
        eng.write(st, loc, v.set(text=nt)); return
    if d['kind'] == 'ofstream':
        s = zs(piece)
        a = z3.Const(fresh_name('txt'), z3.ArraySort(I, I))
        stream_write(eng, st, loc, v, VecV(None, a, z3.Length(s))); return
    raise Unsupported('output to ' + d['kind'])

def take(eng, st, nm, again=False):
    if nm in st.ghost.get('locks', ()) and not again:
        eng.__dict__.setdefault('relocks', []).append(eng.line)
        eng.oblige(st, 'the mutex is not locked twice by one thread', False, 'ub')
    st.ghost['locks'] = st.ghost.get('locks', ()) + (nm,)

# ------------------------------------------------------------------ constructors
def construct(eng, st, t, fn, vs, e):
    c = t.cls(); n = t.n
    ps = [eng.ty(p) for p in fn['ps']]
    def V(i): return eng.val(st, vs[i])
    if n in EMPTYCLS: return Opaque(n, {})
    if n in LOCKS:
        held = vs[0] if vs else None
        nm = str(held)
        if len(vs) > 1: raise Unsupported('lock with a tag')
        take(eng, st, nm)
        return Opaque(n, {'held': nm})
    if c == 'string':
        if not vs: return eng.default(st, t)
        v = V(0)
        k0 = ps[0] if ps else None
        if eng.strmode == 'arr':
            if isinstance(v, Opaque) and v.tn == 'strlit':
                x = eng.strlit_vec(v); return VecV(None, x.a, len(v.data['b']))
            if isinstance(v, PtrV) and v.loc is not None:
                x = eng.read(st, v.loc)
                if isinstance(x, VecV) and conc(x.n) is not None and v.off in (0, None):
                    # NUL-terminated literal
                    return VecV(None, x.a, conc(x.n) - 1)
            if isinstance(v, VecV): return VecV(None, v.a, v.n)
            raise Unsupported('string construction in array mode')
        if isinstance(v, IterV) and len(vs) >= 2: return iter_text(eng, st, v, V(1))
        if k0 is not None and k0.isint() and len(vs) >= 2:      # (count, char)
            cn = conc(v)
            if cn is not None and cn < 64: return cat(*[chartext(eng, st, vs[1]) for _ in range(cn)])
            r = z3.Const(fresh_name('fill'), S); i = z3.Int(fresh_name('i'))
            ch = chartext(eng, st, vs[1])
            st.assume(z3.Length(r) == zi(v), z3.InRe(r, z3.Star(z3.Re(ch)) if z3.is_string_value(ch) else z3.Full(z3.ReSort(S))))
            return r
        s = text(eng, st, v)
        if len(vs) >= 2 and ps[1].isint():
            if isinstance(v, CStr) or isinstance(v, Opaque): return z3.SubString(s, 0, zi(V(1)))     # (ptr, n)
            pos = V(1); cnt = V(2) if len(vs) > 2 and ps[2].isint() else NPOS
            return substr(eng, st, s, pos, cnt)
        return s
    if c == 'path':
        if not vs: return zs('')
        return text(eng, st, V(0))
    if c == 'vec':
        if not vs: return eng.default(st, t)
        v = V(0)
        if isinstance(v, VecV):
            return VecV(t.args[0], v.a, v.n)
        if ps[0].isint():
            et = t.args[0]
            fill = eng.c.enc(V(1), et) if len(vs) > 1 and not (ps[1].isref() and ps[1].e.n == 'std::allocator') else eng.c.enc(zero(eng, st, et), et)
            st.events = st.events + (('alloc', v),)
            return VecV(et, z3.K(I, fill), v)
        if isinstance(v, IterV) and v.kind == 'vec':
            w = V(1); src = eng.read(st, v.loc)
            if isinstance(src, VecV):
                if conc(v.pos) == 0: return VecV(t.args[0], src.a, w.pos)
                i = z3.Int(fresh_name('i'))
                return VecV(t.args[0], z3.Lambda([i], src.a[i + zi(v.pos)]), zi(w.pos) - zi(v.pos))
        if isinstance(v, PtrV) and len(vs) >= 2:
            w = V(1); src = eng.read(st, v.loc)
            if isinstance(src, VecV): eng.oblige(st, 'source range of the vector is valid', pointer_range(v, w, src), 'ub')
            return vec_slice(eng, st, t.args[0], src, off0(v), zi(off0(w)) - zi(off0(v)))
        raise Unsupported('vector construction')
    if c in ('map', 'set'):
        if not vs: return eng.default(st, t)
        v = V(0)
        if isinstance(v, (MapV, SetV)): return v
        if isinstance(v, VecV) and conc(v.n) is not None:
            m = eng.default(st, t)
            for i in range(conc(v.n)):
                x = eng.c.dec(z3.Select(v.a, i), v.et)
                if c == 'map': m = map_insert(eng, st, m, eng.c.enc(x.f['first'], m.kt), eng.c.enc(x.f['second'], m.vt))
                else: m = set_insert(m, eng.c.enc(x, m.kt))
            return m
        if ps and ps[0].isint(): return eng.default(st, t)
        raise Unsupported('map construction')
    if c == 'pair':
        if not vs: return eng.default(st, t)
        if len(vs) == 1: 
            v = V(0)
            if isinstance(v, StructV):
                return StructV('pair', {k: convert(eng, st, x, tt) for (k, x), tt in zip(v.f.items(), t.args)})
            return v
        return StructV('pair', {'first': convert(eng, st, V(0), t.args[0]), 'second': convert(eng, st, V(1), t.args[1])})
    if c == 'tuple':
        return StructV('tuple', {'_%d' % i: V(i) for i in range(len(vs))})
    if c == 'rcp': return zi(V(0)) if vs and not (isinstance(V(0), (PtrV, StructV, Opaque))) else z3.IntVal(0)
    if c in ('shared_ptr', 'unique_ptr'):
        if not vs: return SP(t.args[0], 0)
        v = V(0)
        if isinstance(v, PtrV) and v.null is True: return SP(t.args[0], 0)
        if isinstance(v, SP):
            if isinstance(vs[0], Loc) and len(ps) and ps[0].k == 'rr': moved_sp(eng, st, vs[0], v)
            return SP(v.t, v.addr) if v.t.key() == t.args[0].key() else SP(v.t, v.addr)
        if isinstance(v, PtrV) and v.loc is not None:
            return eng.alloc(st, t.args[0], eng.read(st, v.loc))
        raise Unsupported('smart pointer construction')
    if c == 'optional':
        if not vs: return OptV(t.args[0], False, None)
        v = V(0)
        if isinstance(v, Opaque) and v.tn in ('nullopt', 'std::nullopt_t'): return OptV(t.args[0], False, None)
        if isinstance(v, OptV): return v
        return OptV(t.args[0], True, convert(eng, st, v, t.args[0]))
    if c == 'json':
        if not vs: return JsonV(J.jnull)
        return JsonV(to_json(eng, st, V(0), ps[0]))
    if n == 'nlohmann::detail::json_ref' : return to_json_ref(eng, st, V(0), ps[0])
    if n in STREAMS:
        if not vs or STREAMS[n] == 'sstream':
            s = default(eng, st, t)
            if vs and is_text(V(0)): s = s.set(text=text(eng, st, V(0)))
            return s
        p = text(eng, st, V(0), 'file name')
        mode = conc(V(1)) if len(vs) > 1 else None
        return stream_open(eng, st, STREAMS[n], p, append=bool(mode is not None and mode & 1))
    if n == 'std::error_code': return Opaque('error_code', {'set': False})
    if n.startswith('std::') and (n.endswith('_error') or n.endswith('exception') or n.endswith('invalid_argument') or n.endswith('out_of_range')):
        m = None
        if vs:
            try: m = text(eng, st, V(0))
            except Unsupported: m = None
        return Opaque(n, {'what': m})
    if n in ('std::_List_iterator', '__gnu_cxx::__normal_iterator', 'std::__detail::_Node_iterator', 'std::__detail::_Node_const_iterator',
             'std::_List_const_iterator', 'std::reverse_iterator', 'nlohmann::detail::iter_impl', 'std::_Rb_tree_const_iterator', 'std::_Rb_tree_iterator') and len(vs) <= 1:
        if vs:
            v = V(0)
            if n == 'std::reverse_iterator' and isinstance(v, IterV) and not v.rev:
                c0 = eng.read(st, v.loc); nn = c0.n if isinstance(c0, VecV) else z3.Length(c0)
                return IterV('vec', v.loc, pos=z3.simplify(zi(nn) - zi(v.pos)), rev=True)
            return v
        return IterV('none', None)
    if n == 'std::function' and len(vs) == 1: return V(0)
    m = eng.cfg.get('construct')
    if m: return m(eng, st, t, fn, vs, e)
    return None

def moved_sp(eng, st, loc, v):
    if loc.root[0] != 't':
        try: eng.write(st, loc, SP(v.t, 0))
        except Unsupported: pass

def zero(eng, st, t):
    """value initialisation"""
    if t.isptr() and not (t.e.ischar() and eng.strmode == 'seq'): return 0
    return eng.default(st, t)

def convert(eng, st, v, t):
    """implicit conversion into a library object slot"""
    if isinstance(v, Opaque) and v.tn == 'strlit': v = eng.decay(st, v)
    c = t.cls()
    if c in ('string', 'path') and isinstance(v, (CStr,)): return text(eng, st, v)
    if t.isint() and (isinstance(v, int) or isz(v)): return eng.fit(st, v, t)
    if isinstance(v, StructV) and c == 'pair':
        return StructV('pair', {k: convert(eng, st, x, tt) for (k, x), tt in zip(v.f.items(), t.args)})
    return v

def to_json(eng, st, v, pt):
    pt = pt.e if pt.isref() else pt
    if isinstance(v, JsonV): return v.t
    if isinstance(v, (CStr,)) or (isinstance(v, Opaque) and v.tn == 'strlit') or (isz(v) and v.sort() == S):
        return J.jstr(text(eng, st, v))
    if isinstance(v, PtrV) and v.null is True: return J.jnull
    if isinstance(v, Opaque) and v.tn.endswith('nullptr_t'): return J.jnull
    if pt.isbool() or isinstance(v, bool) or (isz(v) and v.sort() == B): return J.jbool(zb(v))
    if isinstance(v, int) or (isz(v) and v.sort() == I): return J.jint(zi(v))
    if isz(v) and v.sort() == R: return J.jreal(v)
    if isinstance(v, VecV):
        i = z3.Int(fresh_name('i'))
        es = v.a.range()
        el = v.a[i]
        if es == I: je = J.jint(el) if not (v.et is not None and v.et.isbool()) else J.jbool(el)
        elif es == S: je = J.jstr(el)
        elif es == B: je = J.jbool(el)
        elif es == J: je = el
        else: raise Unsupported('json of vector')
        return J.jarr(z3.Lambda([i], je), zi(v.n))
    raise Unsupported('json of %r' % (v,))
def to_json_ref(eng, st, v, pt): return JsonV(to_json(eng, st, v, pt))

def pointer_range(a, b, src):
    """[a, b) lies within the container; an empty range may be null"""
    x, y = zi(off0(a)), zi(off0(b))
    return z3.And(x <= y, z3.Or(x == y, z3.And(z3.Not(zb(a.null)), x >= 0, y <= zi(src.n))))
def vec_slice(eng, st, et, src, off, n):
    if conc(off) == 0: return VecV(et, src.a, n)
    i = z3.Int(fresh_name('i'))
    return VecV(et, z3.Lambda([i], src.a[i + zi(off)]), n)

def iter_text(eng, st, a, b):
    s = eng.read(st, a.loc)
    if a.rev: raise Unsupported('reversed text copy')
    eng.oblige(st, 'iterator range is valid', And(_le(0, a.pos), _le(a.pos, b.pos), _le(b.pos, z3.Length(s))), 'ub')
    return z3.SubString(s, zi(a.pos), zi(b.pos) - zi(a.pos))

# ------------------------------------------------------------------ maps and sets
def map_insert(eng, st, m, k, v):
    return MapV(m.kt, m.vt, z3.Store(m.dom, k, z3.BoolVal(True)), z3.Store(m.val, k, v), z3.simplify(zi(m.size) + z3.If(m.dom[k], 0, 1)))
def set_insert(m, k):
    return SetV(m.kt, z3.Store(m.dom, k, z3.BoolVal(True)), z3.simplify(zi(m.size) + z3.If(m.dom[k], 0, 1)))
def map_erase(m, k):
    d = z3.Store(m.dom, k, z3.BoolVal(False)); s = z3.simplify(zi(m.size) - z3.If(m.dom[k], 1, 0))
    return MapV(m.kt, m.vt, d, m.val, s) if isinstance(m, MapV) else SetV(m.kt, d, s)

def size_facts(st, m):
    """a finite set is empty exactly when its size is zero (element-wise form)"""
    pass

def dom_fact(st, m, k):
    st.assume(z3.Implies(m.dom[k], zi(m.size) >= 1))

def mapkey(eng, st, m, a):
    v = eng.val(st, a)
    if isinstance(v, Opaque) and v.tn == 'strlit': v = eng.decay(st, v)
    if isinstance(v, CStr): v = text(eng, st, v)
    v = convert(eng, st, v, m.kt)
    return eng.c.enc(v, m.kt)

def struct_entry(E, st, m, loc, k, present):
    from . import solver
    def old(s): dom_fact(s, m, k); return s, loc / ('mv', k)
    def new(s):
        E.write(s, loc, MapV(m.kt, m.vt, asto(m.dom, k, z3.BoolVal(True)), asto(m.val, k, E.c.enc(E.default(s, m.vt), m.vt)), z3.simplify(zi(m.size) + 1)))
        return s, loc / ('mv', k)
    g = z3.simplify(present)
    if z3.is_true(g) or solver.check(st.pc, present, 700, use_cvc5=False)[0] == 'proved': yield old(st)
    elif solver.check(st.pc, z3.Not(present), 1500, use_cvc5=False)[0] == 'proved': yield new(st)
    else:
        for s, tv in E.fork(st, present): yield old(s) if tv else new(s)

def call_map(eng, st, name, m, loc, args, node, fn):
    E = eng
    ismap = isinstance(m, MapV)
    kind = 'map' if ismap else 'set'
    if name == 'operator[]':
        k = mapkey(E, st, m, args[0])
        present = asel(m.dom, k)
        if m.vt.k == 'c' and m.vt.d['d'] in m.vt.unit.records:
            return struct_entry(E, st, m, loc, k, present)
        d = E.c.enc(E.default(st, m.vt), m.vt)
        nm = MapV(m.kt, m.vt, z3.Store(m.dom, k, z3.BoolVal(True)), z3.Store(m.val, k, z3.If(present, m.val[k], d)), z3.simplify(zi(m.size) + z3.If(present, 0, 1)))
        g = z3.simplify(present)
        if z3.is_true(g) or not E.sat(st, z3.Not(present)):
            dom_fact(st, m, k)
            return loc / ('mv', k)
        E.write(st, loc, nm)
        return loc / ('mv', k)
    if name == 'at':
        k = mapkey(E, st, m, args[0])
        def gen():
            for s, tv in E.fork(st, m.dom[k]):
                if tv: dom_fact(s, m, k); yield s, loc / ('mv', k)
                else: yield s, Thrown('std::out_of_range', None, E.line)
        return gen()
    if name in ('find',):
        k = mapkey(E, st, m, args[0]); dom_fact(st, m, k)
        return IterV(kind, loc, key=k, end=z3.Not(m.dom[k]))
    if name == 'count':
        k = mapkey(E, st, m, args[0]); dom_fact(st, m, k)
        return z3.If(m.dom[k], z3.IntVal(1), z3.IntVal(0))
    if name == 'contains':
        k = mapkey(E, st, m, args[0]); dom_fact(st, m, k)
        return m.dom[k]
    if name == 'size': return m.size
    if name == 'empty': return Eq(zi(m.size), 0)
    if name == 'clear':
        if ismap: E.write(st, loc, MapV(m.kt, m.vt, z3.K(m.dom.domain(), z3.BoolVal(False)), m.val, 0))
        else: E.write(st, loc, SetV(m.kt, z3.K(m.dom.domain(), z3.BoolVal(False)), 0))
        return VOID
    if name == 'erase':
        a = E.val(st, args[0])
        if isinstance(a, IterV):
            k = a.key if a.key is not None else z3.Select(enumeration(E, st, m, loc), zi(a.pos))
            E.oblige(st, 'erased iterator is dereferenceable', Not(a.end) if a.key is not None else _lt(a.pos, m.size), 'ub')
            E.write(st, loc, map_erase(m, k)); return IterV('none', None)
        k = mapkey(E, st, m, args[0]); dom_fact(st, m, k)
        E.write(st, loc, map_erase(m, k))
        return z3.If(m.dom[k], z3.IntVal(1), z3.IntVal(0))
    if name in ('emplace', 'insert', 'try_emplace', 'insert_or_assign', 'emplace_hint'):
        if ismap:
            if len(args) == 1:
                p = E.val(st, args[0])
                if not isinstance(p, StructV): raise Unsupported('map insert of %r' % (p,))
                kv, vv = p.f['first'], p.f['second']
                k = mapkey(E, st, m, kv)
            else:
                k = mapkey(E, st, m, args[0]); vv = E.val(st, args[1])
            if isinstance(vv, Opaque) and vv.tn == 'strlit': vv = E.decay(st, vv)
            vv = convert(E, st, vv, m.vt)
            newv = E.c.enc(vv, m.vt)
            keep = name != 'insert_or_assign'
            nm = MapV(m.kt, m.vt, z3.Store(m.dom, k, z3.BoolVal(True)), z3.Store(m.val, k, z3.If(m.dom[k], m.val[k], newv) if keep else newv), z3.simplify(zi(m.size) + z3.If(m.dom[k], 0, 1)))
        else:
            k = mapkey(E, st, m, args[0]); nm = set_insert(m, k)
        fresh_ = z3.simplify(z3.Not(m.dom[k]))
        dom_fact(st, m, k)
        E.write(st, loc, nm)
        return StructV('pair', {'first': IterV(kind, loc, key=k, end=False), 'second': fresh_})
    if name in ('begin', 'cbegin'): return IterV(kind, loc, pos=0)
    if name in ('end', 'cend'): return IterV(kind, loc, end=True, key=None, pos=None) if False else IterV(kind, loc, key=z3.Const('endkey_%s' % m.dom.domain(), m.dom.domain()), end=True)
    if name == 'operator=':
        v = E.val(st, args[0])
        if isinstance(v, (MapV, SetV)): E.write(st, loc, v); return loc
        if isinstance(v, VecV) and conc(v.n) == 0: E.write(st, loc, call_clear(E, m)); return loc
    if name in ('reserve', 'rehash', 'max_load_factor'): return VOID
    return None
def call_clear(E, m):
    if isinstance(m, MapV): return MapV(m.kt, m.vt, z3.K(m.dom.domain(), z3.BoolVal(False)), m.val, 0)
    return SetV(m.kt, z3.K(m.dom.domain(), z3.BoolVal(False)), 0)

# ------------------------------------------------------------------ vectors and lists
def elem_enc(eng, st, v, et):
    if isinstance(v, Opaque) and v.tn == 'strlit': v = eng.decay(st, v)
    if et is None: return zi(v)
    return eng.c.enc(convert(eng, st, v, et), et)

def call_vec(eng, st, name, m, loc, args, node, fn):
    E = eng
    et = m.et
    n = m.n
    if name in ('size', 'length'): return n
    if name == 'empty': return Eq(n, 0)
    if name in ('operator[]',):
        i = E.val(st, args[0])
        hi = _lt(i, n) if et is not None else _le(i, n)
        E.oblige(st, 'element access is in bounds', And(_le(0, i), hi), 'ub')
        return loc / ('ix', i)
    if name == 'at':
        i = E.val(st, args[0])
        def gen():
            for s, tv in E.fork(st, And(_le(0, i), _lt(i, n))):
                yield (s, loc / ('ix', i)) if tv else (s, Thrown('std::out_of_range', None, E.line))
        return gen()
    if name in ('push_back', 'emplace_back', 'operator+=') and len(args) == 1:
        v = E.val(st, args[0])
        if et is None and (isinstance(v, VecV) or is_text(v)): raise Unsupported('string append in array mode')
        x = elem_enc(E, st, v, et)
        if E.cfg.get('on_push'): E.cfg['on_push'](E, st, loc, m, x)
        E.write(st, loc, VecV(et, z3.Store(m.a, zi(n), x), E.add(n, 1)))
        return loc if name == 'operator+=' else (loc / ('ix', n))
    if name == 'push_front':
        x = elem_enc(E, st, E.val(st, args[0]), et); i = z3.Int(fresh_name('i'))
        E.write(st, loc, VecV(et, z3.Lambda([i], z3.If(i == 0, x, m.a[i - 1])), E.add(n, 1))); return VOID
    if name in ('back', 'front'):
        E.oblige(st, '%s() of a non-empty container' % name, _lt(0, n), 'ub')
        return loc / ('ix', E.add(n, -1) if name == 'back' else 0)
    if name == 'pop_back':
        E.oblige(st, 'pop_back() of a non-empty container', _lt(0, n), 'ub')
        E.write(st, loc, VecV(et, m.a, E.add(n, -1))); return VOID
    if name == 'pop_front':
        E.oblige(st, 'pop_front() of a non-empty container', _lt(0, n), 'ub')
        i = z3.Int(fresh_name('i'))
        E.write(st, loc, VecV(et, z3.Lambda([i], m.a[i + 1]), E.add(n, -1))); return VOID
    if name == 'clear': E.write(st, loc, VecV(et, m.a, 0)); return VOID
    if name in ('begin', 'cbegin'): return IterV('vec', loc, pos=0)
    if name in ('end', 'cend'): return IterV('vec', loc, pos=n)
    if name in ('rbegin', 'crbegin'): return IterV('vec', loc, pos=0, rev=True)
    if name in ('rend', 'crend'): return IterV('vec', loc, pos=n, rev=True)
    if name in ('data', 'c_str'): return PtrV(False, loc, 0)
    if name in ('reserve', 'shrink_to_fit'): return VOID
    if name == 'resize':
        k = E.val(st, args[0])
        fill = elem_enc(E, st, E.val(st, args[1]), et) if len(args) > 1 else (E.c.enc(zero(E, st, et), et) if et is not None else z3.IntVal(0))
        i = z3.Int(fresh_name('i'))
        if conc(n) == 0: a = z3.K(I, fill)
        else: a = z3.Lambda([i], z3.If(i < zi(n), m.a[i], fill))
        E.write(st, loc, VecV(et, a, k)); return VOID
    if name == 'assign' and len(args) == 2:
        a0 = E.val(st, args[0]); a1 = E.val(st, args[1])
        if isinstance(a0, PtrV):
            src = E.read(st, a0.loc)
            if isinstance(src, VecV): E.oblige(st, 'source range of assign is valid', pointer_range(a0, a1, src), 'ub')
            E.write(st, loc, vec_slice(E, st, et, src, off0(a0), zi(off0(a1)) - zi(off0(a0)))); return VOID
        if not isinstance(a0, IterV): E.write(st, loc, VecV(et, z3.K(I, elem_enc(E, st, a1, et)), a0)); return VOID
    if name == 'operator=':
        v = E.val(st, args[0])
        if isinstance(v, VecV):
            E.write(st, loc, VecV(et, v.a, v.n))
            return loc
        if isinstance(v, Opaque) and v.tn == 'strlit' and et is None:
            x = E.strlit_vec(v); E.write(st, loc, VecV(None, x.a, len(v.data['b']))); return loc
    if name == 'find' and et is None:       # std::string::find(char) in array mode
        c = E.val(st, args[0])
        if not (isinstance(c, int) or (isz(c) and c.sort() == I)): return None
        r = z3.Int(fresh_name('find')); i = z3.Int(fresh_name('i'))
        c = zi(c)
        cn = conc(n)
        if cn is not None and cn <= 128:
            tab = [conc(z3.simplify(m.a[j])) for j in range(cn)]
            if E.cfg.get('find_function') and E.bmc is None and None not in tab and not z3.is_int_value(c):
                # position in a constant table: a function, whose values at given characters the contract may ask for
                F = z3.Function('find_in_table_%d' % cn, I, I); E.__dict__.setdefault('find_tables', {})[cn] = (F, tab)
                st.assume(z3.Or(F(c) == NPOS, z3.And(F(c) >= 0, F(c) < cn))); st.havoced = True
                return F(c)
            t = z3.IntVal(NPOS)
            for j in range(cn - 1, -1, -1): t = z3.If(m.a[j] == c, z3.IntVal(j), t)
            return z3.simplify(t) if z3.is_int_value(c) else t
        st.assume(z3.Or(z3.And(r == NPOS, z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < zi(n)), m.a[i] != c))),
                        z3.And(r >= 0, r < zi(n), m.a[r] == c, z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < r), m.a[i] != c)))))
        return r
    if name == 'reverse':
        i = z3.Int(fresh_name('i'))
        E.write(st, loc, VecV(et, z3.Lambda([i], m.a[zi(n) - 1 - i]), n)); return VOID
    if name == 'remove':
        return list_remove(E, st, m, loc, elem_enc(E, st, E.val(st, args[0]), et))
    if name == 'insert' and len(args) == 2 and et is not None:
        p = E.val(st, args[0]); v = E.val(st, args[1])
        if isinstance(p, IterV) and not p.rev and not isinstance(v, IterV):
            E.oblige(st, 'insert position is in range', And(_le(0, p.pos), _le(p.pos, n)), 'ub')
            x = elem_enc(E, st, v, et); i = z3.Int(fresh_name('i'))
            E.write(st, loc, VecV(et, z3.Lambda([i], z3.If(i < zi(p.pos), m.a[i], z3.If(i == zi(p.pos), x, m.a[i - 1]))), E.add(n, 1)))
            return IterV('vec', loc, pos=p.pos)
    if name == 'erase' and len(args) == 1 and et is not None:
        p = E.val(st, args[0])
        if isinstance(p, IterV) and not p.rev:
            E.oblige(st, 'erased position is in range', And(_le(0, p.pos), _lt(p.pos, n)), 'ub')
            i = z3.Int(fresh_name('i'))
            E.write(st, loc, VecV(et, z3.Lambda([i], z3.If(i < zi(p.pos), m.a[i], m.a[i + 1])), E.add(n, -1)))
            return IterV('vec', loc, pos=p.pos)
    if name == 'insert' and len(args) == 3:
        p = E.val(st, args[0]); a = E.val(st, args[1]); b = E.val(st, args[2])
        if isinstance(p, IterV) and isinstance(a, IterV) and a.kind == 'vec' and p.pos is n:
            src = E.read(st, a.loc); i = z3.Int(fresh_name('i'))
            E.write(st, loc, VecV(et, z3.Lambda([i], z3.If(i < zi(n), m.a[i], src.a[i - zi(n) + zi(a.pos)])), zi(n) + zi(b.pos) - zi(a.pos)))
            return IterV('vec', loc, pos=n)
    return None

def list_remove(E, st, m, loc, x):
    """std::list::remove: the other elements stay in order"""
    n2 = z3.Int(fresh_name('n')); a2 = z3.Const(fresh_name('removed'), m.a.sort())
    f = z3.Const(fresh_name('rmix'), z3.ArraySort(I, I)); g = z3.Const(fresh_name('rminv'), z3.ArraySort(I, I))
    i, j = z3.Ints('%s %s' % (fresh_name('i'), fresh_name('j')))
    n = zi(m.n)
    st.assume(n2 >= 0, n2 <= n,
              z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < n2), z3.And(f[i] >= 0, f[i] < n, a2[i] == m.a[f[i]], a2[i] != x, g[f[i]] == i)), patterns=[a2[i]]),
              z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < n, m.a[i] != x), z3.And(g[i] >= 0, g[i] < n2, f[g[i]] == i, a2[g[i]] == m.a[i])), patterns=[m.a[i]]),
              z3.ForAll([i, j], z3.Implies(z3.And(0 <= i, i < j, j < n2), f[i] < f[j]), patterns=[z3.MultiPattern(f[i], f[j])]))
    E.write(st, loc, VecV(m.et, a2, n2))
    st.ghost['removed'] = st.ghost.get('removed', ()) + ((m, VecV(m.et, a2, n2), x, f, g),)
    return VOID

# ------------------------------------------------------------------ strings (as sequences)
def substr(eng, st, s, pos, cnt):
    n = z3.Length(s)
    def gen():
        for x, tv in eng.fork(st, _le(pos, n)):
            if tv:
                l = n - zi(pos)
                if conc(cnt) == NPOS: yield x, z3.SubString(s, zi(pos), l)
                else: yield x, z3.SubString(s, zi(pos), z3.If(zi(cnt) < l, zi(cnt), l))
            else: yield x, Thrown('std::out_of_range', None, eng.line)
    return gen()

def u64(r): return z3.If(r < 0, z3.IntVal(NPOS), r)

def needle(eng, st, a):
    v = eng.val(st, a)
    if isinstance(v, int) or (isz(v) and v.sort() == I): return chartext(eng, st, v)
    return text(eng, st, v)

def charset(eng, st, a):
    t = conc(needle(eng, st, a))
    if t is None: raise Unsupported('symbolic character set')
    return t

def call_str(eng, st, name, s, loc, args, node, fn):
    E = eng
    n = z3.Length(s)
    def V(i): return E.val(st, args[i])
    if name in ('size', 'length'): 
        st.assume(n <= (1 << 60)); return n
    if name == 'empty': return s == zs('')
    if name in ('c_str', 'data', 'string', 'native', 'generic_string', 'operator basic_string', 'u8string'):
        if fn['n'] in ('c_str', 'data'):
            return CStr(False, E.cfg['c_text'](E, st, s) if E.cfg.get('c_text') else cutnul(st, s))
        return s
    if name in ('str',): return s
    if name in ('operator+=', 'append', 'push_back'):
        if name == 'append' and len(args) == 2:
            a0, a1 = V(0), V(1)
            if isinstance(a0, PtrV) and a0.loc is not None and not is_text(a0):
                t = buf_text(E, st, a0, a1)
            elif isinstance(a0, IterV): t = iter_text(E, st, a0, a1)
            elif isinstance(a0, CStr): t = z3.SubString(text(E, st, a0), 0, zi(a1))
            else: raise Unsupported('append')
        else: t = needle(E, st, args[0])
        E.write(st, loc, cat(s, t)); return loc
    if name == 'find':
        p = V(1) if len(args) > 1 and not is_default(args[1]) else 0
        t = needle(E, st, args[0])
        r = z3.If(zi(p) > n, z3.IntVal(-1), z3.IndexOf(s, t, zi(p)))
        # the documented meaning of find, spelled out for the solver
        st.assume(z3.Implies(r >= 0, z3.And(r >= zi(p), r + z3.Length(t) <= n, z3.SubString(s, r, z3.Length(t)) == t,
                                            z3.Implies(z3.Length(t) > 0, z3.Not(z3.Contains(z3.SubString(s, zi(p), r - zi(p)), t))))),
                  z3.Implies(z3.And(r < 0, zi(p) <= n), z3.Not(z3.Contains(z3.SubString(s, zi(p), n - zi(p)), t))))
        return u64(r)
    if name == 'find_first_of':
        p = V(1) if len(args) > 1 else 0
        cs = charset(E, st, args[0])
        if len(cs) == 1: return u64(z3.If(zi(p) > n, z3.IntVal(-1), z3.IndexOf(s, zs(cs), zi(p))))
        r = z3.Int(fresh_name('ffo')); set_ = z3.Union(*[z3.Re(zs(c)) for c in cs])
        nset = z3.Star(z3.Intersect(z3.AllChar(z3.ReSort(S)), z3.Complement(set_)))
        st.assume(z3.Or(z3.And(r == NPOS, z3.Or(zi(p) >= n, z3.InRe(z3.SubString(s, zi(p), n - zi(p)), nset))),
                        z3.And(r >= zi(p), r < n, z3.InRe(z3.SubString(s, zi(p), r - zi(p)), nset), z3.InRe(z3.SubString(s, r, 1), set_))))
        return r
    if name == 'rfind' and len(args) <= 2:
        t = needle(E, st, args[0])
        if len(args) == 1 or conc(V(1)) == NPOS:
            r = z3.LastIndexOf(s, t); return u64(r)
    if name in ('find_last_not_of', 'find_first_not_of'):
        cs = charset(E, st, args[0])
        re = z3.Star(z3.Union(*[z3.Re(zs(c)) for c in cs]) if len(cs) > 1 else z3.Re(zs(cs)))
        cset = z3.Union(*[z3.Re(zs(c)) for c in cs]) if len(cs) > 1 else z3.Re(zs(cs))
        r = z3.Int(fresh_name('flno'))
        if name == 'find_last_not_of':
            st.assume(z3.Or(z3.And(r == NPOS, z3.InRe(s, re)),
                            z3.And(r >= 0, r < n, z3.InRe(z3.SubString(s, r + 1, n - r - 1), re), z3.Not(z3.InRe(z3.SubString(s, r, 1), cset)))))
        else:
            st.assume(z3.Or(z3.And(r == NPOS, z3.InRe(s, re)),
                            z3.And(r >= 0, r < n, z3.InRe(z3.SubString(s, 0, r), re), z3.Not(z3.InRe(z3.SubString(s, r, 1), cset)))))
        return r
    if name == 'substr':
        return substr(E, st, s, V(0) if args else 0, V(1) if len(args) > 1 else NPOS)
    if name == 'erase':
        if isinstance(V(0) if args else 0, IterV):
            a = V(0); b = V(1) if len(args) > 1 else None
            e = b.pos if b is not None else E.add(a.pos, 1)
            E.write(st, loc, cat(z3.SubString(s, 0, zi(a.pos)), z3.SubString(s, zi(e), n - zi(e)))); return IterV('vec', loc, pos=a.pos)
        p = V(0) if args else 0
        c = V(1) if len(args) > 1 else NPOS
        def gen():
            for x, tv in E.fork(st, _le(p, n)):
                if tv:
                    l = n - zi(p)
                    if conc(c) == NPOS: E.write(x, loc, z3.SubString(s, 0, zi(p)))
                    else:
                        cc = z3.If(zi(c) < l, zi(c), l)
                        E.write(x, loc, cat(z3.SubString(s, 0, zi(p)), z3.SubString(s, zi(p) + cc, l - cc)))
                    yield x, loc
                else: yield x, Thrown('std::out_of_range', None, E.line)
        return gen()
    if name == 'clear': E.write(st, loc, zs('')); return VOID
    if name == 'pop_back':
        E.oblige(st, 'pop_back() of a non-empty string', n > 0, 'ub')
        E.write(st, loc, z3.SubString(s, 0, n - 1)); return VOID
    if name == 'resize' and len(args) == 1:
        k = V(0)
        r = z3.Const(fresh_name('resized'), S)
        st.assume(z3.Length(r) == zi(k), z3.PrefixOf(z3.SubString(s, 0, z3.If(zi(k) < n, zi(k), n)), r))
        E.write(st, loc, r); return VOID
    if name == 'operator[]':
        i = V(0)
        E.oblige(st, 'character access is in bounds', And(_le(0, i), _le(i, n)), 'ub')
        return loc / ('ix', i)
    if name == 'at':
        i = V(0)
        def gen():
            for x, tv in E.fork(st, And(_le(0, i), _lt(i, n))):
                yield (x, loc / ('ix', i)) if tv else (x, Thrown('std::out_of_range', None, E.line))
        return gen()
    if name in ('back', 'front'):
        E.oblige(st, '%s() of a non-empty string' % name, n > 0, 'ub')
        return loc / ('ix', n - 1 if name == 'back' else 0)
    if name in ('begin', 'cbegin'): return IterV('vec', loc, pos=0)
    if name in ('end', 'cend'): return IterV('vec', loc, pos=n)
    if name in ('rbegin', 'crbegin'): return IterV('vec', loc, pos=0, rev=True)
    if name in ('rend', 'crend'): return IterV('vec', loc, pos=n, rev=True)
    if name in ('reserve', 'shrink_to_fit'): return VOID
    if name in ('operator=', 'assign') and len(args) == 1:
        a = E.val(st, args[0])
        if isinstance(a, int) or (isz(a) and a.sort() == I): t = chartext(E, st, a)
        elif isinstance(a, VecV): raise Unsupported('string from list')
        else: t = text(E, st, a)
        E.write(st, loc, t)
        return loc
    if name == 'compare':
        if len(args) == 1:
            t = needle(E, st, args[0]); r = z3.Int(fresh_name('cmp'))
            st.assume((r == 0) == (s == t), (r < 0) == (s < t)); return r
        if len(args) == 3:
            p, c = V(0), V(1); t = needle(E, st, args[2])
            def gen():
                for x, tv in E.fork(st, _le(p, n)):
                    if not tv: yield x, Thrown('std::out_of_range', None, E.line); continue
                    l = n - zi(p); sub = z3.SubString(s, zi(p), z3.If(zi(c) < l, zi(c), l))
                    r = z3.Int(fresh_name('cmp')); x.assume((r == 0) == (sub == t), (r < 0) == (sub < t)); yield x, r
            return gen()
    if name in ('starts_with', 'ends_with', 'contains'):
        t = needle(E, st, args[0])
        return {'starts_with': z3.PrefixOf(t, s), 'ends_with': z3.SuffixOf(t, s), 'contains': z3.Contains(s, t)}[name]
    if name == 'insert' and len(args) == 2:
        p = V(0); t = needle(E, st, args[1])
        if not isinstance(p, IterV):
            def gen():
                for x, tv in E.fork(st, _le(p, n)):
                    if not tv: yield x, Thrown('std::out_of_range', None, E.line); continue
                    E.write(x, loc, cat(z3.SubString(s, 0, zi(p)), t, z3.SubString(s, zi(p), n - zi(p)))); yield x, loc
            return gen()
    # paths
    if name == 'filename': return path_filename(E, st, s)
    if name == 'parent_path': return path_parent(E, st, s)
    if name in ('operator/=',):
        E.write(st, loc, path_join(s, text(E, st, args[0]))); return loc
    if name == 'has_parent_path': return path_parent(E, st, s) != zs('')
    if name == 'is_absolute': return z3.PrefixOf(zs('/'), s)
    return None

def is_default(a): return False

def cutnul(st, s):
    """C text of a std::string: up to the first NUL"""
    if z3.is_string_value(s): 
        v = conc(s); return zs(v.split('\0')[0])
    i = z3.IndexOf(s, zs(b'\0'), 0)
    return z3.If(z3.Contains(s, zs(b'\0')), z3.SubString(s, 0, i), s)

def buf_text(E, st, p, n):
    """text of n bytes at pointer p (opaque memory region)"""
    F = E.cfg.get('buf_text')
    if F: return F(E, st, p, n)
    raise Unsupported('bytes at a raw pointer as text')

# ------------------------------------------------------------------ JSON
def json_get(eng, st, v, t):
    """basic_json::get<T>: throws type_error on a kind mismatch"""
    c = t.cls()
    x = v.t
    bad = Thrown('nlohmann::detail::type_error', None, eng.line)
    def branch(cond, val):
        for s, tv in eng.fork(st, cond): yield s, (val(s) if tv else bad)
    if t.isbool(): return branch(J.is_jbool(x), lambda s: J.jb(x))
    if t.isint():
        def num(s): return eng.fit(s, z3.If(J.is_jint(x), J.ji(x), z3.If(J.is_jbool(x), z3.If(J.jb(x), 1, 0), z3.ToInt(J.jr(x)))), t)
        # integers, floats and booleans are accepted by get<int>
        def gen():
            for s, tv in eng.fork(st, J.is_jint(x)):
                if tv: yield s, eng.fit(s, J.ji(x), t); continue
                for s2, tv2 in eng.fork(s, z3.Or(J.is_jreal(x), J.is_jbool(x))):
                    yield s2, (z3.Int(fresh_name('json_num')) if tv2 else bad)
        return gen()
    if t.isfloat(): return branch(z3.Or(J.is_jint(x), J.is_jreal(x)), lambda s: z3.If(J.is_jint(x), z3.ToReal(J.ji(x)), J.jr(x)))
    if c == 'string': return branch(J.is_jstr(x), lambda s: J.js(x))
    if c == 'path': return branch(J.is_jstr(x), lambda s: J.js(x))
    if c == 'vec':
        et = t.args[0]
        i = z3.Int(fresh_name('i'))
        if et.isint():
            ok = z3.And(J.is_jarr(x), z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < J.jn(x)), J.is_jint(J.ja(x)[i]))))
            def mk(s):
                a = z3.Const(fresh_name('jsonvec'), z3.ArraySort(I, I)); n = J.jn(x)
                conv = J.ji(J.ja(x)[i])
                w = 1 << et.width()
                inr = z3.And(conv >= et.lo(), conv <= et.hi())
                s.assume(z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < n), a[i] == z3.If(inr, conv, (conv - et.lo()) % w + et.lo())), patterns=[a[i]]), n >= 0)
                return VecV(et, a, n)
            def gen():
                s1 = st.copy(); s1.assume(ok)
                yield s1, mk(s1)
                st.assume(z3.Not(ok)); yield st, bad
            return gen()
    raise Unsupported('json get of ' + t.key())

def call_json(eng, st, name, m, loc, args, node, fn):
    E = eng
    x = m.t
    def key(i):
        v = E.val(st, args[i])
        return v
    bad = Thrown('nlohmann::detail::type_error', None, E.line)
    if name == 'operator[]':
        k = key(0)
        if isinstance(k, int) or (isz(k) and k.sort() == I):
            E.oblige(st, 'array element exists', z3.And(J.is_jarr(x), zi(k) >= 0, zi(k) < J.jn(x)), 'ub')
            return loc / ('ji', zi(k))
        kk = text(E, st, k)
        if fn.get('const'):
            def gen():
                for s, tv in E.fork(st, J.is_jobj(x)):
                    if not tv: yield s, bad; continue
                    E.oblige(s, 'JSON member "%s" exists (const access)' % conc(kk), J.jd(x)[kk], 'ub')
                    yield s, loc / ('jk', kk)
            return gen()
        def gen2():
            # a null becomes an object, a missing member becomes null
            for s, tv in E.fork(st, z3.Or(J.is_jobj(x), J.is_jnull(x))):
                if not tv: yield s, bad; continue
                has = z3.And(J.is_jobj(x), J.jd(x)[kk])
                hs = z3.simplify(has)
                if not z3.is_true(hs):
                    m0 = J.jm(x); d0 = J.jd(x)
                    if z3.is_app(x) and x.decl().eq(J.jnull): m0, d0 = z3.K(S, J.jnull), z3.K(S, z3.BoolVal(False))
                    elif not (z3.is_app(x) and x.decl().eq(J.jobj)):
                        m0 = z3.If(J.is_jobj(x), J.jm(x), z3.K(S, J.jnull)); d0 = z3.If(J.is_jobj(x), J.jd(x), z3.K(S, z3.BoolVal(False)))
                    else: m0, d0 = x.arg(0), x.arg(1)
                    nv = z3.simplify(d0[kk])
                    cur = J.jnull if z3.is_false(nv) else z3.If(d0[kk], m0[kk], J.jnull)
                    E.write(s, loc, JsonV(J.jobj(z3.Store(m0, kk, cur), z3.Store(d0, kk, z3.BoolVal(True)))))
                yield s, loc / ('jk', kk)
        return gen2()
    if name == 'at':
        k = text(E, st, key(0))
        def gen():
            for s, tv in E.fork(st, z3.And(J.is_jobj(x), J.jd(x)[k])):
                yield (s, loc / ('jk', k)) if tv else (s, Thrown('nlohmann::detail::out_of_range', None, E.line))
        return gen()
    if name == 'contains':
        k = text(E, st, key(0)); return z3.And(J.is_jobj(x), J.jd(x)[k])
    if name == 'find':
        k = text(E, st, key(0)); return IterV('json', loc, key=k, end=z3.Not(z3.And(J.is_jobj(x), J.jd(x)[k])))
    if name in ('end', 'cend'): return IterV('json', loc, key=zs(''), end=True)
    if name == 'get':
        t = E.ty(fn['ret'])
        return json_get(E, st, m, t)
    if name == 'value' and len(args) == 2:
        k = text(E, st, key(0)); d = E.val(st, args[1]); t = E.ty(fn['ret'])
        def gen():
            for s, tv in E.fork(st, z3.And(J.is_jobj(x), J.jd(x)[k])):
                if tv: yield from json_get(E, s, JsonV(J.jm(x)[k]), t)
                else: yield s, (text(E, s, d) if is_text(d) else d)
        return gen()
    if name in ('is_string', 'is_object', 'is_array', 'is_null', 'is_boolean', 'is_number_integer'):
        return {'is_string': J.is_jstr, 'is_object': J.is_jobj, 'is_array': J.is_jarr, 'is_null': J.is_jnull, 'is_boolean': J.is_jbool, 'is_number_integer': J.is_jint}[name](x)
    if name == 'is_number': return z3.Or(J.is_jint(x), J.is_jreal(x))
    if name in ('push_back', 'emplace_back', 'operator+='):
        v = E.val(st, args[0])
        jt = to_json(E, st, v, E.ty(fn['ps'][0]))
        def gen():
            for s, tv in E.fork(st, z3.Or(J.is_jarr(x), J.is_jnull(x))):
                if not tv: yield s, bad; continue
                if z3.is_app(x) and x.decl().eq(J.jarr): a, n = x.arg(0), x.arg(1)
                elif not E.sat(s, J.is_jnull(x)): a, n = J.ja(x), J.jn(x)
                else: a, n = z3.If(J.is_jarr(x), J.ja(x), z3.K(I, J.jnull)), z3.If(J.is_jarr(x), J.jn(x), 0)
                E.write(s, loc, JsonV(J.jarr(z3.Store(a, n, jt), z3.simplify(n + 1)))); yield s, VOID
        return gen()
    if name == 'size': return z3.If(J.is_jarr(x), J.jn(x), z3.If(J.is_jnull(x), 0, 1)) if not E.sat(st, J.is_jobj(x)) else _uns('json size')
    if name == 'empty' and not E.sat(st, J.is_jobj(x)): return z3.If(J.is_jarr(x), J.jn(x) == 0, J.is_jnull(x))
    if name == 'operator=':
        v = E.val(st, args[0]); E.write(st, loc, JsonV(to_json(E, st, v, E.ty(fn['ps'][0])))); return loc
    if name == 'items':
        return Opaque('json_items', {'loc': loc})
    if name == 'dump':
        return JDUMP(x)
    return None
JMEMBERS = z3.Function('json_members', J, I)
JDUMP = z3.Function('json_dump', J, S)
def _uns(x): raise Unsupported(x)

# ------------------------------------------------------------------ streams
def call_stream(eng, st, name, v, loc, args, node, fn):
    E = eng
    d = v.data
    def V(i): return E.val(st, args[i])
    if name == 'is_open': return d['open'] if 'open' in d else _uns('is_open')
    if name == 'open':
        nv = stream_open(E, st, d['kind'], text(E, st, V(0)))
        E.write(st, loc, nv); return VOID
    if name == 'bad': return d['bad']
    if name in ('fail', 'operator!'): return Or(d['fail'], d['bad'])
    if name in ('good',): return Not(Or(d['fail'], d['bad'], d.get('eof', False)))
    if name == 'operator bool': return Not(Or(d['fail'], d['bad']))
    if name == 'eof': return d.get('eof', False)
    if name == 'write':
        p, n = V(0), V(1)
        data = ptr_bytes(E, st, p, n, 'write')
        stream_write(E, st, loc, v, data); return loc
    if name in ('close',):
        if d['kind'] == 'ofstream': stream_close(E, st, loc, v)
        else: E.write(st, loc, v.set(closed=True))
        return VOID
    if name == 'flush': 
        return loc
    if name == 'str':
        if not args: return d['text']
        E.write(st, loc, v.set(text=text(E, st, V(0)))); return VOID
    if name == 'rdbuf': return Opaque('rdbuf', {'loc': loc})
    if name == 'exceptions': E.write(st, loc, v.set(exc=True)); return VOID
    if name == 'read':
        p, n = V(0), V(1)
        path = d['path']; g = fs(st)
        fn_ = g['fs_n'][path]; fa = g['fs_a'][path]
        st.assume(fn_ >= 0)
        good = And(d['open'], Not(d['fail']), Not(d['bad']))
        io = z3.Bool(fresh_name('io_ok'))
        st.ghost['io_ok'] = st.ghost.get('io_ok', []) + [io]
        got = z3.Int(fresh_name('got'))
        avail = fn_ - zi(d.get('pos', 0))
        st.assume(z3.Implies(zb(good), z3.And(got >= 0, got <= avail, got <= zi(n), z3.Implies(io, z3.Or(got == zi(n), got == avail)))), z3.Implies(z3.Not(zb(good)), got == 0))
        E.oblige(st, 'destination buffer holds the bytes read', region_fits(E, st, p, got), 'ub')
        store_bytes(E, st, p, VecV(None, shifted(fa, d.get('pos', 0)), got))
        short = got < zi(n)
        E.write(st, loc, v.set(pos=E.add(d.get('pos', 0), got), gcount=got, fail=z3.simplify(zb(Or(d['fail'], Not(good), short))), eof=z3.simplify(zb(Or(d.get('eof', False), And(good, short)))), bad=z3.simplify(zb(Or(d['bad'], And(good, z3.Not(io)))))))
        return loc
    if name == 'gcount': return d.get('gcount', 0)
    if name in ('seekg', 'seekp'):
        if len(args) == 1: E.write(st, loc, v.set(pos=V(0))); return loc
        o = conc(V(0)); w = conc(V(1))
        if o == 0 and w == 2: E.write(st, loc, v.set(pos=fs(st)['fs_n'][d['path']])); return loc
        if w == 0: E.write(st, loc, v.set(pos=V(0))); return loc
    if name == 'tellg': return d.get('pos', 0)
    if name == 'operator<<':
        a = V(0)
        if isinstance(a, FnV) or isinstance(a, Opaque) and a.tn in ('manip',):
            nm = getattr(a, 'name', '')
            if d['kind'] == 'sstream' and nm in ('std::endl',): put(E, st, loc, v, zs('\n'), 'str')
            elif d['kind'] == 'sstream' and nm not in ('std::flush', 'std::endl'):
                E.write(st, loc, v.set(fmt=nm))
            return loc
        if isinstance(a, Opaque) and a.tn == 'rdbuf':
            src = E.read(st, a.data['loc'])
            t = file_text(E, st, src)
            put(E, st, loc, v, t, 'str'); return loc
        pt = E.ty(fn['ps'][0])
        out_value(E, st, loc, v, a, pt); return loc
    if name == 'operator>>':
        return None
    if name == 'width' or name == 'precision' or name == 'setf' or name == 'fill': 
        if d['kind'] != 'null': E.write(st, loc, v.set(fmt=name))
        return 0
    return None

def shifted(a, p):
    if conc(p) == 0: return a
    i = z3.Int(fresh_name('i')); return z3.Lambda([i], a[i + zi(p)])

FTEXT = z3.Function('file_text', S, S)
def file_text(E, st, src):
    if src.data.get('path') is None: raise Unsupported('rdbuf')
    m = E.cfg.get('file_text')
    if m: return m(E, st, src)
    return FTEXT(src.data['path'])

def out_value(E, st, loc, v, a, pt):
    d = v.data
    if d.get('fmt') not in (None, 'std::dec'): raise Unsupported('formatted output with manipulators')
    if isinstance(a, Opaque) and a.tn == 'strlit': put(E, st, loc, v, zs(a.data['b']), 'lit'); return
    if isinstance(a, PtrV): 
        if d['kind'] == 'null': return
        raise Unsupported('output of a pointer')
    if isinstance(a, CStr):
        if d['kind'] == 'null':
            E.oblige(st, 'streamed text pointer is not null', Not(a.null), 'ub'); return
        put(E, st, loc, v, text(E, st, a, 'streamed text'), 'cstr'); return
    if isz(a) and a.sort() == S: put(E, st, loc, v, a, 'str'); return
    if isinstance(a, VecV) and d['kind'] == 'null': return
    pt = pt.e if pt.isref() else pt
    if pt.ischar(): put(E, st, loc, v, chartext(E, st, a), 'char'); return
    if isinstance(a, bool) or (isz(a) and a.sort() == B): put(E, st, loc, v, z3.If(zb(a), zs('1'), zs('0')), 'bool'); return
    if isz(a) and a.sort() == R: put(E, st, loc, v, a if sink_hook(E) else RTOS(a), 'real'); return
    if isinstance(a, int) or (isz(a) and a.sort() == I):
        if d['kind'] != 'null': put(E, st, loc, v, a if sink_hook(E) else itos(zi(a)), 'int')
        return
    if d['kind'] == 'null': return
    raise Unsupported('output of %r' % (a,))

# ------------------------------------------------------------------ raw memory
def region(E, st, p):
    """(container, offset) a raw pointer points into"""
    if isinstance(p, PtrV) and p.loc is not None:
        return E.read(st, p.loc), (p.off if p.off is not None else 0)
    raise Unsupported('raw pointer %r' % (p,))

def region_fits(E, st, p, n):
    if isinstance(p, PtrV) and p.null is True: return _le(n, 0)
    c, o = region(E, st, p)
    if not isinstance(c, VecV): raise Unsupported('raw access to %r' % (c,))
    return Or(_le(n, 0), And(Not(p.null), _le(0, o), _le(zi(o) + zi(n), c.n)))

def ptr_bytes(E, st, p, n, what):
    if isinstance(p, CStr):
        s = p.s; a = z3.Const(fresh_name('txtbytes'), z3.ArraySort(I, I)); return VecV(None, a, n)
    if isinstance(p, PtrV) and (p.null is True or p.loc is None):
        E.oblige(st, 'source of %s holds the bytes' % what, _le(n, 0), 'ub'); return VecV(None, z3.K(I, z3.IntVal(0)), 0)
    c, o = region(E, st, p)
    E.oblige(st, 'source of %s holds the bytes' % what, region_fits(E, st, p, n), 'ub')
    return VecV(None, shifted(c.a, o), n)

def store_bytes(E, st, p, data):
    c, o = region(E, st, p)
    i = z3.Int(fresh_name('i')); o = zi(o)
    E.write(st, p.loc, VecV(c.et, z3.Lambda([i], z3.If(z3.And(i >= o, i < o + zi(data.n)), data.a[i - o], c.a[i])), c.n))

# ------------------------------------------------------------------ dispatcher
def call(eng, st, fn, args, this, node):
    r = call0(eng, st, fn, args, this, node)
    if r is None: return None
    eng.used_models.add(fn['qn'])
    if hasattr(r, '__next__'): return r
    def gen(): yield st, r
    return gen()

def call0(eng, st, fn, args, this, node):
    E = eng
    qn, name = fn['qn'], fn['n']
    h = E.cfg.get('hook')
    if h:
        r = h(E, st, fn, args, this, node)
        if r is not None: return r
    if this is not None:
        v = E.peek(st, this)
        cls = E.ty(fn['cls']) if 'cls' in fn else None
        if cls is not None and cls.n in EMPTYCLS:
            if cls.n in ('std::mutex', 'std::recursive_mutex'):
                if name == 'lock': take(E, st, str(this), cls.n == 'std::recursive_mutex'); return VOID
                if name == 'unlock': st.ghost['locks'] = tuple(x for x in st.ghost.get('locks', ()) if x != str(this)); return VOID
            if cls.n in ('std::hash',): return z3.Function('hash', I, I)(zi(E.val(st, args[0]))) % (1 << 64)
        if isinstance(v, VecV): r = call_vec(E, st, name, v, this, args, node, fn)
        elif isinstance(v, (MapV, SetV)): r = call_map(E, st, name, v, this, args, node, fn)
        elif isz(v) and v.sort() == S: r = call_str(E, st, name, v, this, args, node, fn)
        elif isinstance(v, JsonV): r = call_json(E, st, name, v, this, args, node, fn)
        elif isinstance(v, Opaque) and v.tn == 'stream': r = call_stream(E, st, name, v, this, args, node, fn)
        elif isinstance(v, SP): r = call_sp(E, st, name, v, this, args)
        elif isinstance(v, OptV): r = call_opt(E, st, name, v, this, args)
        elif isinstance(v, IterV): r = call_iter(E, st, name, v, this, args)
        elif isinstance(v, Opaque) and v.tn == 'error_code':
            r = {'operator bool': v.data['set'], 'message': z3.Const(fresh_name('msg'), S), 'clear': VOID, 'value': z3.If(zb(v.data['set']), 1, 0)}.get(name)
        elif isinstance(v, Opaque) and name == 'what': r = CStr(False, v.data.get('what') if v.data.get('what') is not None else z3.Const(fresh_name('what'), S))
        elif isinstance(v, Opaque) and v.tn in LOCKS and name in ('unlock', 'lock'):
            if name == 'unlock': st.ghost['locks'] = tuple(x for x in st.ghost.get('locks', ()) if x != v.data['held'])
            else: take(E, st, v.data['held'])
            r = VOID
        elif isinstance(v, StructV) and name == 'operator=':
            w = E.val(st, args[0])
            E.write(st, this, w); r = this
        elif isinstance(v, (Opaque, FnV)) and name == 'operator=' and isinstance(E.val(st, args[0]), (Opaque, FnV, Closure)):
            E.write(st, this, E.val(st, args[0])); r = this
        elif isinstance(v, FnV) or isinstance(v, Closure): r = None
        else: r = None
        if r is None and name == 'operator=' and v is not None and len(args) == 1:
            w = E.val(st, args[0])
            if type(w) is type(v): E.write(st, this, w); return this
        return r
    A = [E.val(st, a) for a in args]
    return free_call(E, st, qn, name, A, args, fn, node)

def call_sp(E, st, name, v, loc, args):
    if name in ('get',): return PtrV(zi(v.addr) == 0, Loc(E.heap(st, v.t), (('hp', zi(v.addr)),))) if conc(v.addr) != 0 else PtrV(True, None)
    if name in ('operator->', 'operator*'):
        l = E.deref(st, v)
        return l if name == 'operator*' else PtrV(False, l)
    if name == 'operator bool': return zi(v.addr) != 0
    if name == 'operator=':
        w = E.val(st, args[0])
        if isinstance(w, PtrV) and w.null is True: w = SP(v.t, 0)
        if isinstance(w, SP):
            E.write(st, loc, SP(v.t, w.addr))
            return loc
    if name == 'reset':
        if not args: E.write(st, loc, SP(v.t, 0)); return VOID
    if name == 'release':
        if isinstance(loc, Loc): E.write(st, loc, SP(v.t, 0))
        return PtrV(zi(v.addr) == 0, Loc(E.heap(st, v.t), (('hp', zi(v.addr)),)))
    if name == 'use_count': return _uns('use_count')
    return None

def call_opt(E, st, name, v, loc, args):
    if name in ('has_value', 'operator bool'): return v.has
    if name in ('operator*', 'operator->'):
        E.oblige(st, 'optional holds a value', v.has, 'ub')
        l = loc / ('opt',)
        return l if name == 'operator*' else PtrV(False, l)
    if name == 'value':
        def gen():
            for s, tv in E.fork(st, v.has):
                yield (s, loc / ('opt',)) if tv else (s, Thrown('std::bad_optional_access', None, E.line))
        return gen()
    if name == 'value_or':
        d = E.val(st, args[0])
        return E.ite(zb(v.has), v.v, text(E, st, d) if is_text(d) else d)
    if name == 'reset': E.write(st, loc, OptV(v.t, False, None)); return VOID
    if name in ('operator=', 'emplace'):
        w = E.val(st, args[0])
        if isinstance(w, Opaque) and w.tn == 'std::nullopt_t': w = OptV(v.t, False, None)
        if not isinstance(w, OptV): w = OptV(v.t, True, convert(E, st, w, v.t))
        E.write(st, loc, w); return loc
    return None

def call_iter(E, st, name, v, loc, args):
    if name == 'operator*': return iter_deref(E, st, v)
    if name == 'operator->': return PtrV(False, iter_deref(E, st, v))
    if name in ('operator++', 'operator--'):
        nv = iter_advance(E, st, v, 1 if name == 'operator++' else -1)
        E.write(st, loc, nv)
        return v if args else loc          # postfix has a dummy argument
    if name in ('operator==', 'operator!='):
        r = iter_eq(E, st, v, E.val(st, args[0])); return r if name == 'operator==' else Not(r)
    if name in ('operator+', 'operator-'):
        w = E.val(st, args[0])
        if isinstance(w, IterV): return zi(v.pos) - zi(w.pos)
        return iter_advance(E, st, v, w if name == 'operator+' else -zi(w))
    if name in ('operator+=', 'operator-='):
        w = E.val(st, args[0]); E.write(st, loc, iter_advance(E, st, v, w if name == 'operator+=' else -zi(w))); return loc
    if name == 'operator=': E.write(st, loc, E.val(st, args[0])); return loc
    if name == 'base': return v
    if name == 'operator[]': return iter_deref(E, st, iter_advance(E, st, v, E.val(st, args[0])))
    return None

PROD = z3.Function('product_of', z3.ArraySort(I, I), I, I)      # exact product of the first n elements
def prod_facts(st, v):
    """lemmas of the exact product used for concrete short vectors"""
    n = conc(v.n)
    if n is not None and n <= 8:
        t = z3.IntVal(1)
        for i in range(n): t = t * v.a[i]
        st.assume(PROD(v.a, zi(v.n)) == t)

STOULL_OK = z3.Function('stoull_value', S, I)

def free_call(E, st, qn, name, A, args, fn, node):
    V = lambda i: A[i]
    if name == 'operator<<' and A and isinstance(A[0], Opaque) and A[0].tn == 'stream':
        loc = args[0]; v = A[0]; a = A[1]
        pt = E.ty(fn['ps'][1])
        if isinstance(a, JsonV):
            if v.data['kind'] == 'ofstream':
                # dumping text that is not valid UTF-8 throws; otherwise parsing the dump gives the value back
                ok = z3.Bool(fresh_name('put_ok')); good = And(v.data['open'], Not(v.data['fail']), Not(v.data['bad']))
                E.write(st, loc, v.set(jbuf=a.t, buf=VecV(None, z3.Const(fresh_name('dump'), z3.ArraySort(I, I)), z3.Int(fresh_name('dumpn'))),
                                       fail=z3.simplify(zb(Or(v.data['fail'], Not(good), Not(ok)))), lost=z3.simplify(zb(Or(v.data.get('lost', False), Not(good), Not(ok))))))
                E.used_models.add('json text round trip (UTF-8 strings)')
                return loc
            if v.data['kind'] == 'null': return loc
        if isinstance(a, FnV) or (isinstance(a, Opaque) and a.tn == 'manip'):
            if v.data['kind'] == 'sstream': E.write(st, loc, v.set(fmt=getattr(a, 'name', 'manip')))
            return loc
        if v.data['kind'] == 'null' and isinstance(a, (StructV, Opaque)) and not (isinstance(a, Opaque) and a.tn == 'strlit'): return loc
        out_value(E, st, loc, v, a, pt); return loc
    if name == 'operator>>' and A and isinstance(A[0], Opaque) and A[0].tn == 'stream' and isinstance(A[1], JsonV):
        v = A[0]
        def gen():
            ok = z3.Bool(fresh_name('parse_ok'))
            for s, tv in E.fork(st, ok):
                if tv:
                    E.write(s, args[1], JsonV(fs(s)['fs_j'][v.data['path']])); yield s, args[0]
                else: yield s, Thrown('nlohmann::detail::parse_error', None, E.line)
        return gen()
    if name == 'operator|' and len(A) == 2 and isinstance(A[1], Opaque) and A[1].tn == 'map_view':
        return A[1].set(loc=args[0])
    if qn in ('std::endl', 'std::hex', 'std::dec', 'std::flush') : return args[0]
    if qn in ('std::setw', 'std::setprecision', 'std::setfill', 'std::setbase'): return Opaque('manip')
    if name == 'operator==' and len(A) == 2:
        a, b = A
        if is_text(a) or is_text(b): return text(E, st, a) == text(E, st, b)
        if isinstance(a, IterV): return iter_eq(E, st, a, b)
        if isinstance(a, JsonV) or isinstance(b, JsonV): return to_json(E, st, a, E.ty(fn['ps'][0])) == to_json(E, st, b, E.ty(fn['ps'][1]))
        if isinstance(a, (SP, PtrV, StructV, VecV)): return E.equal(st, a, b)
        if isinstance(a, (MapV, SetV)): raise Unsupported('map comparison')
        return E.equal(st, a, b)
    if name == 'operator!=' and len(A) == 2:
        r = free_call(E, st, qn.replace('operator!=', 'operator=='), 'operator==', A, args, fn, node)
        return Not(r) if r is not None else None
    if name in ('operator<', 'operator>', 'operator<=', 'operator>=') and len(A) == 2:
        a, b = A
        if is_text(a) and is_text(b):
            a, b = text(E, st, a), text(E, st, b)
            return {'operator<': a < b, 'operator>': b < a, 'operator<=': a <= b, 'operator>=': b <= a}[name]
        if isinstance(a, IterV): a, b = zi(a.pos), zi(b.pos); return {'operator<': a < b, 'operator>': a > b, 'operator<=': a <= b, 'operator>=': a >= b}[name]
    if name == 'operator+' and len(A) == 2:
        a, b = A
        pts = [E.ty(p) for p in fn['ps']]
        def tx(v, t):
            t = t.e if t.isref() else t
            if t.isint() and t.ischar(): return chartext(E, st, v)
            return text(E, st, v)
        if is_text(a) or is_text(b): return cat(tx(a, pts[0]), tx(b, pts[1]))
        if isinstance(a, IterV): return iter_advance(E, st, a, b)
    if name == 'operator-' and len(A) == 2 and isinstance(A[0], IterV):
        return zi(A[0].pos) - zi(A[1].pos) if isinstance(A[1], IterV) else iter_advance(E, st, A[0], -zi(A[1]))
    if name == 'operator/' and len(A) == 2 and is_text(A[0]): return path_join(text(E, st, A[0]), text(E, st, A[1]))
    if name == 'operator|' and len(A) == 2 and qn.startswith('std::operator|'):
        return int(conc(A[0])) | int(conc(A[1]))
    if qn in ('std::move', 'std::forward', 'std::as_const', 'std::addressof'):
        if qn == 'std::addressof': return PtrV(False, args[0])
        return args[0] if args else None
    if qn == 'std::make_pair':
        a = [E.decay(st, x) if isinstance(x, Opaque) and x.tn == 'strlit' else x for x in A]
        return StructV('pair', {'first': a[0], 'second': a[1]})
    if qn in ('std::make_tuple', 'std::tie', 'std::forward_as_tuple'): return StructV('tuple', {'_%d' % i: (args[i] if qn == 'std::tie' else A[i]) for i in range(len(A))})
    if qn == 'std::get' and fn.get('ta'):
        i = fn['ta'][0]
        if isinstance(i, dict) and 'int' in i:
            v = A[0]; k = list(v.f)[int(i['int'])]
            l = args[0]
            return (E.field(st, l, k) if isinstance(l, Loc) else v.f[k])
    if qn in ('std::make_shared', 'std::make_unique'):
        rt = E.ty(fn['ret']); t = rt.args[0]
        return make_shared(E, st, t, A, args, fn, node)
    if qn == 'std::swap':
        E.write(st, args[0], A[1]); E.write(st, args[1], A[0]); return VOID
    if qn == 'std::exchange':
        E.write(st, args[0], A[1]); return A[0]
    if qn in ('std::to_string',):
        if isz(A[0]) and A[0].sort() == R: return RTOS(A[0])
        return itos(zi(A[0]))
    if qn in ('std::min', 'std::max') and len(A) == 2:
        a, b = A
        if isz(a) and a.sort() == R or isz(b) and b.sort() == R: a, b = zr(a), zr(b)
        else: a, b = zi(a), zi(b)
        return z3.If(b < a, b, a) if qn == 'std::min' else z3.If(a < b, b, a)
    if qn in ('std::numeric_limits::max', 'std::numeric_limits::min', 'std::numeric_limits::lowest') or qn.startswith('std::numeric_limits'):
        t = E.ty(fn['ret'])
        if t.isint(): return t.hi() if name == 'max' else t.lo()
        return z3.RealVal(0) if name == 'epsilon' and False else z3.Const('numlim_%s_%s' % (name, t.key()), R)
    if qn == 'std::next' or qn == 'std::prev':
        n = A[1] if len(A) > 1 else 1
        return iter_advance(E, st, A[0], n if qn == 'std::next' else -zi(n))
    if qn in ('std::begin', 'std::end', 'std::size', 'std::empty', 'std::data'):
        l = args[0]; v = A[0]
        f2 = dict(fn); f2['n'] = name
        return call0(E, st, f2, [], l, node)
    if qn == 'std::distance': return zi(A[1].pos) - zi(A[0].pos)
    if qn == 'std::accumulate': return accumulate(E, st, A, args, fn, node)
    if qn == 'std::equal' and len(A) == 3 and all(isinstance(x, IterV) for x in A):
        a, ae, b = A
        x, y = E.read(st, a.loc), E.read(st, b.loc)
        if isz(x) and isz(y) and a.rev == b.rev:
            l = zi(ae.pos) - zi(a.pos); nx, ny = z3.Length(x), z3.Length(y)
            E.oblige(st, 'compared range is long enough', zi(b.pos) + l <= ny, 'ub')
            if a.rev: return z3.SubString(x, nx - zi(a.pos) - l, l) == z3.SubString(y, ny - zi(b.pos) - l, l)
            return z3.SubString(x, zi(a.pos), l) == z3.SubString(y, zi(b.pos), l)
    if qn in ('std::all_of', 'std::any_of', 'std::none_of', 'std::find_if', 'std::find_if_not', 'std::count_if'):
        return quantified(E, st, qn, A, args)
    if qn in ('std::isfinite', 'isfinite'): return True if isz(A[0]) and A[0].sort() == R else True
    if qn in ('std::find',) and isinstance(A[0], IterV) and A[0].kind == 'vec':
        v = E.read(st, A[0].loc)
        if isinstance(v, VecV):
            x = elem_enc(E, st, A[2], v.et); r = z3.Int(fresh_name('find')); i = z3.Int(fresh_name('i'))
            lo, hi = zi(A[0].pos), zi(A[1].pos)
            st.assume(r >= lo, r <= hi, z3.Implies(r < hi, v.a[r] == x), z3.ForAll([i], z3.Implies(z3.And(i >= lo, i < r), v.a[i] != x)))
            return IterV('vec', A[0].loc, pos=r)
    if qn in ('std::copy', 'std::copy_n') or qn in ('memcpy', 'std::memcpy', 'memmove', 'std::memmove', '__builtin_memcpy'):
        if qn.startswith('std::copy'):
            if not (isinstance(A[0], PtrV) or (isinstance(A[0], IterV) and A[0].kind == 'vec')): return None
            src = A[0] if isinstance(A[0], PtrV) else PtrV(False, A[0].loc, A[0].pos)
            n = (zi(A[1].off if isinstance(A[1], PtrV) else A[1].pos) - zi(off0(src))) if qn == 'std::copy' else A[1]
            dst = A[2] if isinstance(A[2], PtrV) else PtrV(False, A[2].loc, A[2].pos)
        else: dst, src, n = A[0], A[1], A[2]
        dv = E.peek(st, dst.loc) if isinstance(dst, PtrV) and dst.loc is not None else None
        sv = E.peek(st, src.loc) if isinstance(src, PtrV) and src.loc is not None else None
        if isinstance(dv, StructV) and isinstance(sv, StructV):
            r = [r for r in E.u.records.values() if r['n'].split('::')[-1] == dv.tn.split('::')[-1] and 'sz' in r]
            if dv.tn != sv.tn or len(r) != 1: raise Unsupported('memcpy between %s and %s' % (dv.tn, sv.tn))
            E.oblige(st, 'memcpy stays inside the object', zi(n) <= r[0]['sz'], 'ub')
            cn = conc(z3.simplify(zi(n)))
            E.write(st, dst.loc, sv if cn == r[0]['sz'] else E.havoc_value(st, dv, None, 'partial'))
            return dst
        data = ptr_bytes(E, st, src, n, 'memcpy')
        E.oblige(st, 'destination of memcpy holds the bytes', region_fits(E, st, dst, n), 'ub')
        if qn.endswith('memcpy') and isinstance(src, PtrV):
            E.oblige(st, 'memcpy pointers are not null', And(Not(dst.null) if not isinstance(dv, VecV) else True, Or(Not(src.null), Eq(n, 0))), 'ub')
        if isinstance(dst, PtrV) and dst.loc is not None and isinstance(dv, VecV): store_bytes(E, st, dst, data)
        return dst
    if qn in ('memset', 'std::memset'):
        c, o = region(E, st, A[0]); E.oblige(st, 'memset target holds the bytes', region_fits(E, st, A[0], A[2]), 'ub')
        store_bytes(E, st, A[0], VecV(None, z3.K(I, zi(A[1])), A[2])); return A[0]
    if qn in ('strcmp', 'std::strcmp'):
        a, b = text(E, st, A[0]), text(E, st, A[1]); r = z3.Int(fresh_name('strcmp')); st.assume((r == 0) == (a == b)); return r
    if qn in ('strncmp', 'std::strncmp'):
        a, b = text(E, st, A[0]), text(E, st, A[1]); n = zi(A[2]); r = z3.Int(fresh_name('strcmp'))
        st.assume((r == 0) == (z3.SubString(a, 0, n) == z3.SubString(b, 0, n))); return r
    if qn in ('strlen', 'std::strlen'): return z3.Length(text(E, st, A[0]))
    if qn in ('getenv', 'std::getenv'):
        nm = conc(text(E, st, A[0]))
        return env(E, st, nm if nm is not None else text(E, st, A[0]))
    if qn in ('isalnum', 'std::isalnum', 'isdigit', 'std::isdigit', 'isspace', 'std::isspace', 'isalpha', 'std::isalpha'):
        c = zi(A[0])
        E.oblige(st, 'character class argument is a character', z3.And(c >= -128, c <= 255), 'ub')
        dig = z3.And(c >= 48, c <= 57); al = z3.Or(z3.And(c >= 65, c <= 90), z3.And(c >= 97, c <= 122))
        sp = z3.Or(c == 32, z3.And(c >= 9, c <= 13))
        r = z3.Int('ctype_true'); st.assume(r != 0)
        q = {'isalnum': z3.Or(dig, al), 'isdigit': dig, 'isalpha': al, 'isspace': sp}[name]
        return z3.If(q, r, z3.IntVal(0))
    if qn in ('std::stoull', 'std::stoul', 'std::stoll', 'std::stol', 'std::stoi'): return sto(E, st, qn, A, fn)
    if qn in ('strtol', 'std::strtol'):
        r = z3.Function('strtol_value', S, I, I)(text(E, st, A[0]), zi(A[2])); t = E.ty(fn['ret']); st.assume(r >= t.lo(), r <= t.hi()); return r
    if qn in ('exit', 'std::exit', '_exit', 'abort', 'std::abort', '__assert_fail', 'std::quick_exit', 'std::terminate'):
        def gen(): yield st, Exited(A[0] if A and qn.endswith('exit') else 134, E.line)
        return gen()
    if qn in ('std::filesystem::create_directories', 'std::filesystem::create_directory'):
        p = text(E, st, A[0]); ok = z3.Bool(fresh_name('mkdir_ok'))
        st.events = st.events + (('mkdir', p, ok),)
        if len(A) > 1:
            E.write(st, args[1], Opaque('error_code', {'set': Not(ok)})); r = z3.Bool(fresh_name('created')); st.assume(z3.Implies(r, ok)); return r
        def gen():
            for s, tv in E.fork(st, ok): yield (s, z3.Bool(fresh_name('created'))) if tv else (s, Thrown('std::filesystem::filesystem_error', None, E.line))
        return gen()
    if qn == 'std::filesystem::exists': return fs(st)['fs_x'][text(E, st, A[0])] if not E.cfg.get('exists_any') else z3.Bool(fresh_name('exists'))
    if qn == 'std::filesystem::file_size':
        p = text(E, st, A[0]); g = fs(st); st.assume(g['fs_n'][p] >= 0); ok = z3.Bool(fresh_name('size_ok'))
        if len(A) > 1: E.write(st, args[1], Opaque('error_code', {'set': Not(ok)})); return z3.If(ok, g['fs_n'][p], z3.IntVal(NPOS))
        def gen():
            for s, tv in E.fork(st, ok): yield (s, fs(s)['fs_n'][p]) if tv else (s, Thrown('std::filesystem::filesystem_error', None, E.line))
        return gen()
    if qn in ('__errno_location',): return PtrV(False, E.newtemp(st, z3.Int(fresh_name('errno'))))
    if qn in ('strerror', 'std::strerror', 'dlerror'): return CStr(False, z3.Const(fresh_name('err'), S))
    if qn in ('perror', 'std::perror'): st.events = st.events + (('stderr', E.line),); return VOID
    if qn in ('getpid', 'gettid'):
        r = z3.Int(qn); st.assume(r >= 1, r < 2**31); return r
    if qn in ('fopen', 'std::fopen'):
        ok = z3.Bool(fresh_name('fopen_ok'))
        st.ghost['fopened'] = st.ghost.get('fopened', 0) + 1
        l = E.newtemp(st, Opaque('FILE', {'std': False, 'text': sink_hook(E).start(E, st) if sink_hook(E) else zs(''), 'path': text(E, st, A[0])}))
        st.ghost['file_loc'] = l
        return PtrV(z3.Not(ok), l)
    if qn in ('fclose', 'std::fclose', 'fflush', 'std::fflush'):
        st.events = st.events + ((name,),)
        r = z3.Int(fresh_name(name)); return r
    if qn in ('fprintf', 'std::fprintf', 'printf', 'std::printf', 'fputs', 'std::fputs'): return fprintf(E, st, qn, A, args, fn)
    if qn == 'base64_encode' or qn == 'base64_decode': return None
    if qn == 'nlohmann::basic_json<>::array' or (name == 'array' and qn.startswith('nlohmann')):
        if A and isinstance(A[0], VecV) and conc(A[0].n) not in (0, None): raise Unsupported('json array of values')
        return JsonV(J.jarr(z3.K(I, J.jnull), 0))
    if name == 'object' and qn.startswith('nlohmann'): return JsonV(J.jobj(z3.K(S, J.jnull), z3.K(S, z3.BoolVal(False))))
    if qn == 'std::reverse' and isinstance(A[0], IterV):
        v = E.read(st, A[0].loc)
        if isinstance(v, VecV) and conc(A[0].pos) == 0 and A[1].pos is v.n: return call_vec(E, st, 'reverse', v, A[0].loc, [], node, fn)
    if qn in ('std::abs', 'abs', 'labs', 'llabs', 'std::labs') and A and not (isz(A[0]) and A[0].sort() == R):
        t = E.ty(fn['ret']); return E.fit(st, z3.If(zi(A[0]) < 0, -zi(A[0]), zi(A[0])), t, 'abs')
    return None

def env(E, st, name):
    g = st.ghost.setdefault('env', {})
    if name not in g:
        st.ghost['env'] = dict(g); g = st.ghost['env']
        nm = name if isinstance(name, str) else fresh_name('env')
        g[name] = CStr(z3.Bool('env_unset_' + nm), z3.Const('env_' + nm, S))
        st.assume(z3.Not(z3.Contains(g[name].s, zs(b'\0'))))
    return g[name]

def make_shared(E, st, t, A, args, fn, node):
    c = t.cls()
    if c in ('vec', 'string', 'path', 'map', 'set', 'json'):
        v = None
        if not A: v = E.default(st, t)
        elif c == 'vec' and (isinstance(A[0], int) or (isz(A[0]) and A[0].sort() == I)):
            n = E.fit(st, A[0], E.ty(node['fn']['ps'][0]).e if False else SIZET(E))
            fill = elem_enc(E, st, A[1], t.args[0]) if len(A) > 1 else E.c.enc(zero(E, st, t.args[0]), t.args[0])
            st.events = st.events + (('alloc', n),)
            v = VecV(t.args[0], z3.K(I, fill), n)
        elif c == 'vec' and isinstance(A[0], VecV):
            v = VecV(t.args[0], A[0].a, A[0].n)
        elif c == 'vec' and isinstance(A[0], PtrV) and len(A) == 2:
            src = E.read(st, A[0].loc)
            n = zi(off0(A[1])) - zi(off0(A[0]))
            E.oblige(st, 'source range holds the bytes', And(_le(0, n), Or(Eq(n, 0), And(Not(A[0].null), _le(zi(off0(A[0])) + n, src.n)))), 'ub')
            v = vec_slice(E, st, t.args[0], src, off0(A[0]), n)
        elif c in ('string', 'path'): v = text(E, st, A[0])
        elif len(A) == 1: v = A[0]
        if v is None: raise Unsupported('make_shared of ' + t.key())
        return E.alloc(st, t, v)
    if t.k == 'c':
        m = E.cfg.get('make_shared')
        if m:
            r = m(E, st, t, A, args, fn)
            if r is not None: return r
        cs = [f for f in E.u.functions if f.get('isctor') and E.ty(f['cls']).d.get('d') == t.d['d'] and not f.get('defaulted')]
        cs = [f for f in cs if len(f['params']) == len(A)] or [f for f in cs if len(f['params']) >= len(A)]
        if len(cs) > 1:
            def okp(f):
                for p, a in zip(f['params'], A):
                    pt = E.ty(p['t']); pt = pt.e if pt.isref() else pt
                    if isinstance(a, StructV) and pt.cls() != a.tn and pt.key() != a.tn: return False
                    if pt.k == 'c' and pt.d['d'] == t.d['d'] and not isinstance(a, StructV): return False
                return True
            cs = [f for f in cs if okp(f)]
        if len(cs) != 1: raise Unsupported('make_shared of %s: %d constructors' % (t.key(), len(cs)))
        f = cs[0]
        def gen():
            vals = list(args)
            def conv(s):
                out = []
                for p, a in zip(f['params'], vals):
                    pt = E.ty(p['t']); v = E.val(s, a)
                    if (pt.cls() == 'string' or (pt.isref() and pt.e.cls() == 'string')) and isinstance(v, (CStr, Opaque)): out.append(text(E, s, v))
                    else: out.append(a)
                return out
            def defaults(s, out, ps):
                if not ps: yield s, out; return
                p = ps[0]
                if p.get('init') is None: raise Unsupported('missing argument')
                for s2, v in E.ev(s, p['init']): yield from defaults(s2, out + [v], ps[1:])
            for s0, out in defaults(st, conv(st), f['params'][len(vals):]):
                for s, v in E.construct(s0, t, f, out):
                    if isinstance(v, (Thrown, Exited)): yield s, v
                    else:
                        l = E.newtemp(s, v, t)
                        sp = E.alloc(s, t, v); yield s, sp
        return gen()
    raise Unsupported('make_shared of ' + t.key())

def SIZET(E):
    for i, d in enumerate(E.u.types):
        if d.get('k') == 'b' and d.get('n') == 'unsigned long' and 'c' not in d: return E.ty(i)
    raise Unsupported('size_t')

def accumulate(E, st, A, args, fn, node):
    a, b, init = A[0], A[1], A[2]
    if not isinstance(a, IterV) or a.kind != 'vec': return None
    v = E.read(st, a.loc)
    T = E.ty(fn['ps'][2])
    op = E.ty(fn['ps'][3]) if len(A) > 3 else None
    isprod = op is not None and op.n == 'std::multiplies'
    if not (isinstance(v, VecV) and isprod and conc(init) == 1 and conc(a.pos) == 0 and (b.pos is v.n or conc(Eq(zi(b.pos), zi(v.n))) is True)):
        n = conc(v.n) if isinstance(v, VecV) else None
        if n is None or n > 8: raise Unsupported('accumulate')
        acc = init
        for i in range(conc(a.pos), n):
            x = E.c.dec(v.a[i], v.et)
            if op is None or op.n == 'std::plus': acc = E.fit(st, E.add(acc, x) if not (isz(x) and x.sort() == R) else zr(acc) + x, T) if T.isint() else zr(acc) + zr(x)
            elif isprod: acc = E.fit(st, E.fit(st, zi(acc) * zi(x), v.et), T)
            else: raise Unsupported('accumulate')
        return acc
    # product of the vector, reduced modulo 2^w of the accumulator type in every step: since each step is a
    # ring homomorphism for w <= 64, only the final reduction is observable for unsigned types; for a narrower
    # signed accumulator the value is re-extended at every step, which agrees with the exact product only if it fits
    p = PROD(v.a, zi(v.n))
    prod_facts(st, v)
    if T.isint() and not T.signed() and T.width() == 64:
        return E.fit(st, p, T)
    # narrower accumulator: exact when all partial products fit; otherwise an unspecified value of the type
    r = z3.Int(fresh_name('acc')); st.assume(r >= T.lo(), r <= T.hi())
    st.assume(z3.Implies(z3.And(p >= T.lo(), p <= T.hi(), PROD_POS(v.a, zi(v.n))), r == p))
    st.assume(z3.Implies(z3.Or(p > T.hi(), p < T.lo()), r != p))
    return r
PROD_POS = z3.Function('all_positive', z3.ArraySort(I, I), I, B)

def sto(E, st, qn, A, fn):
    s = text(E, st, A[0]); base = conc(A[2]) if len(A) > 2 else 10
    t = E.ty(fn['ret'])
    if base != 10 or (len(A) > 1 and not (isinstance(A[1], PtrV) and A[1].null is True)): raise Unsupported('stoX with position or base')
    # the documented contract, over: IS_DEC (one or more decimal digits, nothing else), DEC_VALUE (its value),
    # IS_NEG_DEC ('-' then such digits), NO_NUMBER (empty, or starts with neither blank, sign nor digit)
    val = z3.If(IS_DEC(s), DEC_VALUE(s), z3.If(IS_NEG_DEC(s), (-DEC_VALUE(s) if t.signed() else z3.Int(fresh_name('stoX_wrapped'))), z3.Int(fresh_name('stoX_other'))))
    st.assume(*text_classes(s))
    def gen():
        other = z3.Bool(fresh_name('stoX_parses'))
        for x, tv in E.fork(st, z3.If(z3.Or(IS_DEC(s), IS_NEG_DEC(s)), z3.BoolVal(True), z3.If(NO_NUMBER(s), z3.BoolVal(False), other))):
            if not tv: yield x, Thrown('std::invalid_argument', None, E.line); continue
            inr = z3.And(val >= t.lo(), val <= t.hi())
            if not t.signed(): inr = z3.If(IS_DEC(s), inr, z3.Bool(fresh_name('stoX_fits')))
            for y, tv2 in E.fork(x, inr):
                if not tv2: yield y, Thrown('std::out_of_range', None, E.line); continue
                y.assume(val >= t.lo(), val <= t.hi())
                yield y, val
    return gen()
def text_classes(s):
    return [z3.Implies(z3.Or(IS_DEC(s), IS_NEG_DEC(s)), DEC_VALUE(s) >= 0), z3.Implies(IS_DEC(s), z3.Not(NO_NUMBER(s))), z3.Implies(IS_NEG_DEC(s), z3.Not(z3.Or(NO_NUMBER(s), IS_DEC(s)))),
            *[z3.Not(z3.Or(IS_DEC(zs(w)), IS_NEG_DEC(zs(w)))) for w in ('false', 'true')], *[NO_NUMBER(zs(w)) for w in ('false', 'true', '')]]
IS_DEC = z3.Function('is_decimal', S, B); IS_NEG_DEC = z3.Function('is_negative_decimal', S, B)
DEC_VALUE = z3.Function('decimal_value', S, I); NO_NUMBER = z3.Function('begins_with_no_number', S, B)

def consts(f):
    out = set(); todo = [f]; seen = set()
    while todo:
        x = todo.pop()
        if x.get_id() in seen: continue
        seen.add(x.get_id())
        if z3.is_quantifier(x): todo.append(x.body()); continue
        if z3.is_const(x) and x.decl().kind() == z3.Z3_OP_UNINTERPRETED: out.add(x.decl().name())
        todo.extend(x.children())
    return out

def quantified(E, st, qn, A, args):
    """std::all_of & co over a text or vector with a side-effect free predicate"""
    a, b, f = A
    if not isinstance(a, IterV) or a.kind != 'vec' or a.rev or not isinstance(b, IterV): return None
    c = E.read(st, a.loc)
    mark = int(fresh_name('m').split('!')[1])
    probe = st.copy()
    el = E.read(probe, a.loc / ('ix', z3.Int('el_index')))
    if not isz(el): return None
    x = z3.Const('el!0', el.sort())
    probe = st.copy()
    n0 = len(probe.pc)
    E.mute += 1
    try:
        if isinstance(f, Closure): rs = list(E.call_closure(probe, f, [x]))
        elif isinstance(f, FnV): rs = list(E.invoke(probe, f.fn, [x], None, None))
        else: return None
    finally: E.mute -= 1
    alts = []
    for s, v in rs:
        for f0 in s.pc[n0:]:
            if not any(k == 'el!0' for k in consts(f0)): st.assume(f0)
        if isinstance(v, (Thrown, Exited)): raise Unsupported('throwing predicate')
        alts.append(And(*s.pc[n0:], E.boolean(v)))
    F = zb(Or(*alts))
    for k in consts(F):
        if '!' in k and k != 'el!0' and k.split('!')[-1].isdigit() and int(k.split('!')[-1]) > mark: raise Unsupported('predicate with intermediate values')
    i = z3.Int(fresh_name('qi'))
    it = E.read(st.copy(), a.loc / ('ix', i))
    lo, hi = zi(a.pos), zi(b.pos)
    rng = z3.And(i >= lo, i < hi)
    at = z3.substitute(F, (x, it))
    nm = qn.split('::')[-1]
    if nm == 'all_of': return z3.ForAll([i], z3.Implies(rng, at))
    if nm == 'none_of': return z3.ForAll([i], z3.Implies(rng, z3.Not(at)))
    if nm == 'any_of': return z3.Not(z3.ForAll([i], z3.Implies(rng, z3.Not(at))))
    if nm in ('find_if', 'find_if_not'):
        r = z3.Int(fresh_name('found')); g = at if nm == 'find_if' else z3.Not(at)
        st.assume(r >= lo, r <= hi, z3.ForAll([i], z3.Implies(z3.And(i >= lo, i < r), z3.Not(g))), z3.Implies(r < hi, z3.substitute(g, (i, r))))
        return IterV('vec', a.loc, pos=r)
    raise Unsupported('predicate algorithm')

def fprintf(E, st, qn, A, args, fn):
    """literal format strings only"""
    if qn.endswith('fputs'): fmt = text(E, st, A[0]); f = A[1]; rest = []; whole = True
    elif qn.endswith('fprintf'): f, fmt, rest = A[0], text(E, st, A[1]), A[2:]; whole = False
    else: return z3.Int(fresh_name('printf'))
    fv = f
    loc = None
    if isinstance(f, PtrV):
        if f.loc is None: raise Unsupported('FILE pointer')
        E.oblige(st, 'FILE pointer is not null', Not(f.null), 'ub')
        loc = f.loc; fv = E.read(st, loc)
    if isinstance(fv, Opaque) and fv.data.get('std'):
        for a in rest:
            if isinstance(a, CStr): E.oblige(st, 'printed text is not null', Not(a.null), 'ub')
        st.events = st.events + (('stderr', E.line),)
        return z3.Int(fresh_name('fprintf'))
    if whole: pieces = [(fmt, 'cstr')]
    else:
        cf = conc(fmt)
        if cf is None: raise Unsupported('symbolic format string')
        pieces = []; rest = list(rest); i = 0; lit = ''
        while i < len(cf):
            if cf[i] != '%': lit += cf[i]; i += 1; continue
            if cf[i + 1] == '%': lit += '%'; i += 2; continue
            if lit: pieces.append((zs(lit), 'lit')); lit = ''
            j = i + 1
            while cf[j] in 'lzh': j += 1
            if cf[j] == 's':
                a = rest.pop(0)
                h = sink_hook(E)
                if h and isinstance(a, CStr) and not isz(a.s): pieces.append((a.s, 'sink'))
                else: pieces.append((text(E, st, a), 'cstr'))
            elif cf[j] in 'du': pieces.append((rest.pop(0), 'int'))
            else: raise Unsupported('format ' + cf)
            i = j + 1
        if lit: pieces.append((zs(lit), 'lit'))
    for p, k in pieces:
        fv = E.read(st, loc)
        h = sink_hook(E)
        nt = h.put(E, st, fv.data['text'], p, k) if h else cat(fv.data['text'], itos(zi(p)) if k == 'int' else p)
        E.write(st, loc, fv.set(text=nt))
    return z3.Int(fresh_name('fprintf'))

def call_pointer(eng, st, c, vs, e):
    m = eng.cfg.get('call_pointer')
    if m:
        r = m(eng, st, c, vs, e)
        if r is not None: return r if hasattr(r, '__next__') else iter([(st, r)])
    if isinstance(c, FnV) and c.fn is not None: return eng.invoke(st, c.fn, vs, None, e)
    raise Unsupported('call through a pointer')
