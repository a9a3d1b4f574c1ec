"""R01: find_docc_auth, build_auth_header_content, from_docc_config."""
import z3
from ccv.values import *
from ccv.prove import Proof, Ctx
from ccv import frontend, kit, stl
from ccv.stl import env, FTEXT, path_join

D = 'sdfg::passes::rpc::DaisytunerRpcContext::'
def unit(): return frontend.load('rpc/src/passes/rpc/daisytuner_rpc_context.cpp', roots=[frontend.REPO + '/'])
READABLE = z3.Function('readable', S, B)
WS = z3.Union(*[z3.Re(zs(c)) for c in ' \n\r\t'])
def isset(c): return z3.And(z3.Not(zb(c.null)), c.s != zs(''))
def trimmed(r, t):
    """r is t without its trailing whitespace"""
    n = z3.Length(r)
    return z3.And(z3.PrefixOf(r, t), z3.InRe(z3.SubString(t, n, z3.Length(t) - n), z3.Star(WS)), z3.Or(n == 0, z3.Not(z3.InRe(z3.SubString(r, n - 1, 1), WS))))
def token_file(E, st):
    h = env(E, st, 'HOME').s
    p = h
    for x in ('.config', 'docc', 'token'): p = path_join(p, zs(x))
    return p
SESSION = zs('/var/lib/daisytuner/session')

def setup_f(E, st):
    st.assume(z3.Length(FTEXT(SESSION)) < 1 << 40, z3.Length(FTEXT(token_file(E, st))) < 1 << 40)
    return [], None, Ctx()
def credential(E, st, opt, has, tok, job):
    """the documented order"""
    J_, A, H = env(E, st, 'DOCC_JOB_TOKEN'), env(E, st, 'DOCC_ACCESS_TOKEN'), env(E, st, 'HOME')
    uf = token_file(E, st)
    user = z3.And(isset(H), READABLE(uf)); ses = READABLE(SESSION)
    nj = z3.Not(isset(J_)); na = z3.And(nj, z3.Not(isset(A))); nu = z3.And(na, z3.Not(user))
    return [('the job token if there is one', z3.Implies(isset(J_), z3.And(has, tok == J_.s, job))),
            ('else the access token', z3.Implies(z3.And(nj, isset(A)), z3.And(has, tok == A.s, z3.Not(job)))),
            ('else the user token file', z3.Implies(z3.And(na, user), z3.And(has, trimmed(tok, FTEXT(uf)), z3.Not(job)))),
            ('else the session file', z3.Implies(z3.And(nu, ses), z3.And(has, trimmed(tok, FTEXT(SESSION)), z3.Not(job)))),
            ('none otherwise', z3.Implies(z3.And(nu, z3.Not(ses)), z3.Not(has)))]
def opt_parts(E, st, out):
    o = out if isinstance(out, OptV) else E.read(st, out)
    if o.v is None: return zb(o.has), zs(''), z3.BoolVal(False)
    return zb(o.has), zs(o.v.f['first']), zb(o.v.f['second'])
def post_f(E, st, out, ctx):
    if isinstance(out, Thrown): E.oblige(st, 'looking for a credential does not fail', False, 'post'); return
    h, t, j = opt_parts(E, st, out)
    for n, f in credential(E, st, out, h, t, j): E.oblige(st, n, f, 'post')

def setup_b(E, st):
    t, j = z3.Const('token', S), z3.Bool('is_job')
    return [StructV('pair', {'first': t, 'second': j})], None, Ctx(t=t, j=j)
def header(t, j): return z3.Concat(z3.If(j, zs('Job '), zs('Token ')), t)
def post_b(E, st, out, ctx):
    if isinstance(out, Thrown): E.oblige(st, 'does not fail', False, 'post'); return
    E.oblige(st, 'Job <token> or Token <token>', zs(stl.text(E, st, E.val(st, out))) == header(ctx.t, ctx.j), 'post')

def m_find(E, st, args, this, node):
    """contract of find_docc_auth (proved above)"""
    has, tok, job = z3.Bool(fresh_name('has')), z3.Const(fresh_name('token'), S), z3.Bool(fresh_name('job'))
    for n, f in credential(E, st, None, has, tok, job): st.assume(f)
    t = E.ty(E.u.fn(D + 'find_docc_auth')['ret'])
    st.ghost['auth'] = (has, tok, job)
    yield st, OptV(t.args[0], has, StructV('pair', {'first': tok, 'second': job}))
def setup_c(E, st): return [], None, Ctx()
DEFAULT_SERVER = zs('https://docc-backend-1080482399950.europe-west1.run.app/docc')
def server_of(E, st):
    r = env(E, st, 'RPC_SERVER'); return z3.If(isset(r), r.s, DEFAULT_SERVER)
def only_header(m, name, value):
    x = z3.Const('h', S)
    return z3.And(m.dom[name], m.val[name] == value, z3.ForAll([x], z3.Implies(x != name, z3.Not(m.dom[x]))))
def post_c(E, st, out, ctx):
    if 'auth' not in st.ghost: E.oblige(st, 'the credential is looked up', False, 'post'); return
    has, tok, job = st.ghost['auth']
    if isinstance(out, Thrown): E.oblige(st, 'an error only without a credential', z3.Not(has), 'post'); return
    E.oblige(st, 'no context without a credential', has, 'post')
    v = E.val(st, out); o = E.read(st, E.deref(st, v))
    E.oblige(st, 'the authorization header carries the credential', only_header(o.f['headers_'], zs('Authorization'), header(tok, job)), 'post')
    E.oblige(st, 'the server override wins over the built-in server', zs(o.f['server_']) == server_of(E, st), 'post')
    E.oblige(st, 'the built-in endpoint', zs(o.f['endpoint_']) == zs('transfertune'), 'post')

PROOFS = [Proof('find_docc_auth', unit, D + 'find_docc_auth', setup_f, post_f, config=dict(readable=lambda p: READABLE(p))),
          Proof('build_auth_header_content', unit, D + 'build_auth_header_content', setup_b, post_b),
          Proof('from_docc_config', unit, D + 'from_docc_config', setup_c, post_c, covers=('return', 'throw'), config=dict(models={D + 'find_docc_auth': m_find}))]
REPLAY = [dict(src='r01.cpp', repo=['rpc/src/passes/rpc/daisytuner_rpc_context.cpp', 'rpc/src/passes/rpc/rpc_context.cpp'], libs=['-ldl'])]
ASSUME = ['the environment and the files do not change during the call', 'a file that opens can be read to its end', 'files below 2^40 bytes']
