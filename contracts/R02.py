"""R02: SimpleRpcContextBuilder and SimpleRpcContext."""
import z3
from ccv.values import *
from ccv.prove import Proof, Ctx
from ccv import frontend, kit, stl
from ccv.stl import env, fs
from . import R01
NS = 'sdfg::passes::rpc::'
BLD = NS + 'SimpleRpcContextBuilder::'
FIELDS = ('server', 'endpoint', 'headers')
def unit(): return frontend.load('rpc/src/passes/rpc/rpc_context.cpp', roots=[frontend.REPO + '/'])
def unit_d(): return R01.unit()

def builder(E, st, f):
    t = E.ty(E.u.fn(BLD + 'build')['cls'])
    this = kit.fresh_obj(E, st, t, 'builder')
    return this, E.read(st, this)
def same_headers(a, b):
    x = z3.Const('h', S)
    return z3.ForAll([x], z3.And(a.dom[x] == b.dom[x], z3.Implies(a.dom[x], a.val[x] == b.val[x])))
def with_header(a, name, value):
    """a plus one header"""
    return MapV(a.kt, a.vt, z3.Store(a.dom, name, z3.BoolVal(True)), z3.Store(a.val, name, value), a.size)
def state(E, st, this, o0, server=None, endpoint=None, headers=None, tag=''):
    o = E.read(st, this)
    for n, w in (('server', server), ('endpoint', endpoint)):
        E.oblige(st, '%s %s%s' % (n, 'unchanged' if w is None else 'as specified', tag), zs(o.f[n]) == zs(o0.f[n] if w is None else w), 'post')
    E.oblige(st, 'headers %s%s' % ('unchanged' if headers is None else 'as specified', tag), same_headers(o.f['headers'], o0.f['headers'] if headers is None else headers), 'post')
def self_ref(E, st, out, this):
    E.oblige(st, 'the builder itself is returned', isinstance(out, Loc) and out.root == this.root, 'post')

def mk(name, setup, post, covers=('return',), **cfg):
    def su(E, st):
        this, o0 = builder(E, st, None)
        args, kw = setup(E, st)
        return args, this, Ctx(this=this, o0=o0, **kw)
    return Proof(name, unit, BLD + name, su, post, covers=covers, config=cfg)

def post_local(E, st, out, c):
    if isinstance(out, Thrown): E.oblige(st, 'does not fail', False, 'post'); return
    state(E, st, c.this, c.o0, zs('http://localhost:8080/docc'), zs('transfertune')); self_ref(E, st, out, c.this)

def setup_add(E, st):
    n, v = z3.Const('name', S), z3.Const('value', S)
    return [n, v], dict(n=n, v=v)
def post_add(E, st, out, c):
    if isinstance(out, Thrown): E.oblige(st, 'does not fail', False, 'post'); return
    state(E, st, c.this, c.o0, headers=with_header(c.o0.f['headers'], c.n, c.v)); self_ref(E, st, out, c.this)

# ---------------------------------------------------------------- header variable
def setup_henv(E, st):
    v = z3.Const('env_var', S); E.envname = v
    st.assume(z3.Length(v) < 1 << 30, z3.Not(z3.Contains(v, zs(b'\0'))))
    val = CStr(z3.Bool('header_unset'), z3.Const('header_value', S)); st.assume(z3.Length(val.s) < 1 << 30)
    E.header = val
    return [v], dict(val=val)
def m_getenv(E, st, args, this, node):
    a = stl.text(E, st, args[0])
    h = getattr(E, 'header', None)
    if h is not None and not E.sat(st, zs(a) != E.envname): yield st, h
    else:
        c = conc(a)
        yield st, env(E, st, c if isinstance(c, str) else None)
def post_henv(E, st, out, c):
    if isinstance(out, Thrown): E.oblige(st, 'does not fail', False, 'post'); return
    s = c.val.s; h0 = c.o0.f['headers']
    on = R01.isset(c.val); i = z3.IndexOf(s, zs(':'), 0); col = z3.Contains(s, zs(':'))
    o = E.read(st, c.this)
    E.oblige(st, 'an unset or empty variable changes no header', z3.Implies(z3.Not(on), same_headers(o.f['headers'], h0)), 'post')
    E.oblige(st, 'without a colon the text is the RPC-Hint header', z3.Implies(z3.And(on, z3.Not(col)), same_headers(o.f['headers'], with_header(h0, zs('RPC-Hint'), s))), 'post')
    k, v = z3.Const('k', S), z3.Const('v', S)
    E.oblige(st, 'otherwise it is split at its first colon', z3.Implies(z3.And(on, col, s == z3.Concat(k, zs(':'), v), z3.Not(z3.Contains(k, zs(':')))), same_headers(o.f['headers'], with_header(h0, k, v))), 'post')
    E.oblige(st, 'server unchanged', zs(o.f['server']) == zs(c.o0.f['server']), 'post')
    E.oblige(st, 'endpoint unchanged', zs(o.f['endpoint']) == zs(c.o0.f['endpoint']), 'post')
    self_ref(E, st, out, c.this)

# ---------------------------------------------------------------- configuration file
def setup_file(E, st):
    p = z3.Const('config_file', S); fs(st)
    E.r02 = Ctx(j=fs(st)['fs_j'][p], p=p, this=Loc(('o', 'builder')))
    return [p], dict(p=p, j=E.r02.j)
def str_member(j, n): return z3.And(J.is_jobj(j), J.jd(j)[zs(n)], J.is_jstr(J.jm(j)[zs(n)]))
def is_header(j, x):
    """the text member x of HEADERS"""
    h = J.jm(j)[zs('HEADERS')]
    return z3.And(J.is_jobj(j), J.jd(j)[zs('HEADERS')], J.is_jobj(h), J.jd(h)[x], J.is_jstr(J.jm(h)[x]))
def applied(m, m0, j, seen=None):
    """m is m0 overridden by the text headers of j (those already seen)"""
    x = z3.Const('h', S); h = J.jm(j)[zs('HEADERS')]
    inn = is_header(j, x) if seen is None else z3.And(is_header(j, x), seen(x))
    return z3.ForAll([x], z3.And(m.dom[x] == z3.Or(inn, m0.dom[x]), z3.Implies(m.dom[x], m.val[x] == z3.If(inn, J.js(J.jm(h)[x]), m0.val[x]))))
def inv_file(v):
    c = v.eng.r02; out = []
    en = v.st.ghost.get('enum:%s' % S)
    if en is None: return []
    ix = v.eng._enum_inv[id(en.data['en'])]
    def h(st): return v.eng.read(st, c.this).f['headers']
    out.append(('headers so far', lambda w: applied(h(w.st), h(w.entry), c.j, lambda x: ix[x] < w.k)))
    return out
def file_post(E, st, this, o0, j, tag=''):
    o = E.read(st, this)
    E.oblige(st, 'server from the file if it is a text there' + tag, zs(o.f['server']) == z3.If(str_member(j, 'SERVER'), J.js(J.jm(j)[zs('SERVER')]), zs(o0.f['server'])), 'post')
    E.oblige(st, 'endpoint from the file if it is a text there' + tag, zs(o.f['endpoint']) == z3.If(str_member(j, 'ENDPOINT'), J.js(J.jm(j)[zs('ENDPOINT')]), zs(o0.f['endpoint'])), 'post')
    E.oblige(st, 'text headers of the file are added, the others stay' + tag, applied(o.f['headers'], o0.f['headers'], j), 'post')
def opened(st): return Or(*[e[3] for e in st.events if e[0] == 'open'])
def post_file(E, st, out, c):
    if isinstance(out, Thrown):
        state(E, st, c.this, c.o0, tag=' by an unusable file')
        E.oblige(st, 'an error only for an unusable file', Or(Not(opened(st)), out.tn.endswith('parse_error')), 'post'); return
    E.oblige(st, 'the file was opened', opened(st), 'post')
    for e in st.events:
        if e[0] == 'open': E.oblige(st, 'the given file is read', zs(e[2]) == c.p, 'post')
    file_post(E, st, c.this, c.o0, c.j); self_ref(E, st, out, c.this)

def m_from_file(E, st, args, this, node):
    """contract of from_file (proved above)"""
    p = zs(stl.text(E, st, args[0])); st.events = st.events + (('from_file', p),)
    o0 = E.read(st, this); bad = z3.Bool(fresh_name('unusable'))
    for s, tv in E.fork(st, bad):
        if tv: yield s, Thrown('std::runtime_error', None, E.line); continue
        o = E.fresh(s, E.ty(E.u.fn(BLD + 'build')['cls']), 'configured')
        j = fs(s)['fs_j'][p]
        s.assume(zs(o.f['server']) == z3.If(str_member(j, 'SERVER'), J.js(J.jm(j)[zs('SERVER')]), zs(o0.f['server'])),
                 zs(o.f['endpoint']) == z3.If(str_member(j, 'ENDPOINT'), J.js(J.jm(j)[zs('ENDPOINT')]), zs(o0.f['endpoint'])), applied(o.f['headers'], o0.f['headers'], j))
        E.write(s, this, o); yield s, this
def setup_env(E, st):
    a, k = setup_henv(E, st); fs(st); return a, k
def post_env(E, st, out, c):
    on = R01.isset(c.val); fc = [e[1] for e in st.events if e[0] == 'from_file']
    for p in fc: E.oblige(st, 'the named file is read', p == c.val.s, 'post')
    if isinstance(out, Thrown):
        E.oblige(st, 'an error only from the file', bool(fc), 'post'); state(E, st, c.this, c.o0, tag=' by an unusable file'); return
    E.oblige(st, 'a set variable is followed once', z3.Implies(on, z3.BoolVal(len(fc) == 1)), 'post')
    E.oblige(st, 'an unset or empty variable reads no file', z3.Implies(z3.Not(on), z3.BoolVal(not fc)), 'post')
    if fc: file_post(E, st, c.this, c.o0, fs(st)['fs_j'][c.val.s])
    else: state(E, st, c.this, c.o0)
    self_ref(E, st, out, c.this)

# ---------------------------------------------------------------- credentials
def m_find(E, st, args, this, node):
    has, tok, job = z3.Bool(fresh_name('has')), z3.Const(fresh_name('token'), S), z3.Bool(fresh_name('job'))
    st.ghost['auth'] = (has, tok, job)
    t = E.ty(node['fn']['ret']); t = t.e if t.isref() else t
    yield st, OptV(t.args[0], has, StructV('pair', {'first': tok, 'second': job}))
def m_build_header(E, st, args, this, node):
    a = E.val(st, args[0]); yield st, R01.header(zs(stl.text(E, st, a.f['first'])), zb(a.f['second']))
def post_docc(E, st, out, c):
    if isinstance(out, Thrown): E.oblige(st, 'does not fail', False, 'post'); return
    if 'auth' not in st.ghost: E.oblige(st, 'the credential is looked up', False, 'post'); return
    has, tok, job = st.ghost['auth']; o = E.read(st, c.this); h0 = c.o0.f['headers']
    E.oblige(st, 'server: the override, else the built-in one', zs(o.f['server']) == z3.If(has, R01.server_of(E, st), zs(c.o0.f['server'])), 'post')
    E.oblige(st, 'the built-in endpoint', zs(o.f['endpoint']) == z3.If(has, zs('transfertune'), zs(c.o0.f['endpoint'])), 'post')
    E.oblige(st, 'the credential is added', z3.Implies(has, same_headers(o.f['headers'], with_header(h0, zs('Authorization'), R01.header(tok, job)))), 'post')
    E.oblige(st, 'nothing changes without a credential', z3.Implies(z3.Not(has), same_headers(o.f['headers'], h0)), 'post')
    self_ref(E, st, out, c.this)

# ---------------------------------------------------------------- build
def setup_build(E, st): return [z3.Bool('print')], {}
def post_build(E, st, out, c):
    s0 = zs(c.o0.f['server'])
    if isinstance(out, Thrown):
        E.oblige(st, 'an error only without a server', s0 == zs(''), 'post'); state(E, st, c.this, c.o0); return
    E.oblige(st, 'no context without a server', s0 != zs(''), 'post')
    v = E.val(st, out)
    o = E.read(st, E.deref(st, v))
    E.oblige(st, 'the server of the builder', zs(o.f['server_']) == s0, 'post')
    E.oblige(st, 'the endpoint of the builder', zs(o.f['endpoint_']) == zs(c.o0.f['endpoint']), 'post')
    E.oblige(st, 'the headers of the builder', same_headers(o.f['headers_'], c.o0.f['headers']), 'post')
    state(E, st, c.this, c.o0)

# ---------------------------------------------------------------- the context
def ctx_proof(name, post):
    def su(E, st):
        t = E.ty(E.u.fn(NS + 'SimpleRpcContext::' + name)['cls'])
        this = kit.fresh_obj(E, st, t, 'context'); return [], this, Ctx(this=this, o0=E.read(st, this))
    return Proof('SimpleRpcContext::' + name, unit, NS + 'SimpleRpcContext::' + name, su, post)
def post_addr(E, st, out, c):
    if isinstance(out, Thrown): E.oblige(st, 'does not fail', False, 'post'); return
    E.oblige(st, 'server/endpoint', zs(stl.text(E, st, out)) == z3.Concat(zs(c.o0.f['server_']), zs('/'), zs(c.o0.f['endpoint_'])), 'post')
def post_headers(E, st, out, c):
    if isinstance(out, Thrown): E.oblige(st, 'does not fail', False, 'post'); return
    m = E.val(st, out); m = E.read(st, m) if isinstance(m, Loc) else m
    E.oblige(st, 'exactly the headers', same_headers(m, c.o0.f['headers_']), 'post')
def setup_ctor(E, st):
    t = E.ty(E.u.fn(R01.D + 'DaisytunerRpcContext')['cls'])
    this = kit.fresh_obj(E, st, t, 'context')
    tok, job = z3.Const('license_token', S), z3.Bool('is_job_token')
    return [tok, job], this, Ctx(this=this, cls=t, tok=tok, job=job)
def post_ctor(E, st, out, c):
    if isinstance(out, Thrown): E.oblige(st, 'does not fail', False, 'post'); return
    o = out if isinstance(out, StructV) else E.read(st, c.this)
    E.oblige(st, 'the override wins over the built-in server', zs(o.f['server_']) == R01.server_of(E, st), 'post')
    E.oblige(st, 'the built-in endpoint', zs(o.f['endpoint_']) == zs('transfertune'), 'post')
    E.oblige(st, 'the authorization header only', R01.only_header(o.f['headers_'], zs('Authorization'), R01.header(c.tok, c.job)), 'post')

GE = {'std::getenv': m_getenv, 'getenv': m_getenv}
PROOFS = [mk('initialize_local_default', lambda E, st: ([], {}), post_local),
          mk('add_header', setup_add, post_add),
          mk('from_header_env', setup_henv, post_henv, models=GE),
          mk('from_file', setup_file, post_file, covers=('return', 'throw'), loopinv=inv_file),
          mk('from_env', setup_env, post_env, covers=('return', 'throw'), models=dict(GE, **{BLD + 'from_file': m_from_file})),
          mk('from_docc_config', lambda E, st: ([], {}), post_docc, models={R01.D + 'find_docc_auth': m_find, R01.D + 'build_auth_header_content': m_build_header}),
          mk('build', setup_build, post_build, covers=('return', 'throw')),
          ctx_proof('get_remote_address', post_addr), ctx_proof('get_auth_headers', post_headers),
          Proof('DaisytunerRpcContext', unit_d, R01.D + 'DaisytunerRpcContext', setup_ctor, post_ctor)]
REPLAY = [dict(src='r02.cpp', repo=['rpc/src/passes/rpc/daisytuner_rpc_context.cpp', 'rpc/src/passes/rpc/rpc_context.cpp'], libs=['-ldl'])]
ASSUME = ['the environment and the configuration file do not change during the call; texts below 2^30 bytes',
          'find_docc_auth and build_auth_header_content by their contracts (proved in R01 on the same tree)', 'nlohmann::json parses the file to the value it denotes']
