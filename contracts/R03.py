"""R03: post_json. libcurl by an assumed contract: options are recorded, perform delivers the body to the write
function in arbitrary chunks."""
import z3
from ccv.values import *
from ccv.prove import Proof, Ctx
from ccv import frontend, kit, stl, engine

def unit(): return frontend.load('rpc/src/util/utils_curl.cpp', roots=[frontend.REPO + '/'])
WRITEDATA, URL, POSTFIELDS, HTTPHEADER, WRITEFUNCTION, RESPONSE_CODE = 10001, 10002, 10015, 10023, 20011, 0x200002
NAMES = {WRITEDATA: 'write data', URL: 'address', POSTFIELDS: 'payload', HTTPHEADER: 'headers', WRITEFUNCTION: 'write function'}

def m_setopt(E, st, args, this, node):
    opt = conc(E.val(st, args[1])); v = E.val(st, args[2])
    if opt is None: raise Unsupported('curl option')
    st.ghost['opt'] = dict(st.ghost.get('opt', {})); st.ghost['opt'][int(opt)] = v
    E.oblige(st, 'options are set on the given handle', is_handle(E, st, args[0]), 'pre')
    yield st, z3.IntVal(0)
def is_handle(E, st, a):
    v = E.val(st, a); return isinstance(v, PtrV) and v.loc is not None and v.loc.root == ('o', 'curl')
def m_perform(E, st, args, this, node):
    o = st.ghost.get('opt', {}); c = E.r03
    E.oblige(st, 'the request uses the given handle', is_handle(E, st, args[0]), 'post')
    def same_text(v, w):
        if isinstance(v, PtrV) and v.null is True: return z3.BoolVal(False)
        return zs(stl.text(E, st, v)) == w
    E.oblige(st, 'sent to the given address', same_text(o[URL], c.url) if URL in o else False, 'post')
    E.oblige(st, 'with the given payload', same_text(o[POSTFIELDS], c.payload) if POSTFIELDS in o else False, 'post')
    h = o.get(HTTPHEADER)
    if h is None: E.oblige(st, 'headers are left out only if there are none', zb(c.nohdr), 'post')
    else: E.oblige(st, 'with the given headers', isinstance(h, PtrV) and h.loc is not None and h.loc.root == ('o', 'headers') or zb(c.nohdr), 'post')
    for k in o:
        if k not in NAMES: raise Unsupported('curl option %d' % k)
    code = z3.Int('curl_code'); st.assume(code >= 0, code <= 100); body = z3.Const('received', S); st.assume(z3.Length(body) < 1 << 40)
    st.events = st.events + (('perform', code, body),)
    wf, wd = o.get(WRITEFUNCTION), o.get(WRITEDATA)
    if not isinstance(wf, (FnV, Closure)) or not isinstance(wd, PtrV) or wd.loc is None: raise Unsupported('write function %r %r' % (wf, wd))
    chunk_contract(E, st, wf, wd)
    # the contract just established for any chunk, applied to all of them: the received body is appended
    cur = E.read(st, wd.loc)
    E.oblige(st, 'nothing precedes the received body', zs(cur) == zs(''), 'post')
    E.write(st, wd.loc, z3.Concat(zs(cur), body))
    yield st, code
def chunk_contract(E, st, wf, wd):
    """the write function, given any chunk, appends exactly its bytes to the data it was registered with and reports
    all of them as taken"""
    s0 = st.copy(); before = z3.Const('delivered', S); E.write(s0, wd.loc, before)
    size, n = z3.Ints('chunk_size chunk_nmemb'); a = z3.Const('chunk', z3.ArraySort(I, I)); i = z3.Int('i')
    s0.assume(size >= 0, n >= 0, size < 1 << 63, n < 1 << 63, size * n < 1 << 40, z3.Length(before) < 1 << 40, z3.ForAll([i], z3.And(a[i] >= -128, a[i] <= 127), patterns=[a[i]]))
    r = ('o', 'chunk'); s0.store[r] = VecV(None, a, size * n); s0.types[r] = None
    ptr = PtrV(False, Loc(r), z3.IntVal(0)); chunk = stl.buf_text(E, s0, ptr, size * n)
    gen = E.call_closure(s0, wf, [ptr, size, n, wd]) if isinstance(wf, Closure) else E.call_body(s0, wf.fn, [ptr, size, n, wd])
    for s, out in gen:
        if isinstance(out, Thrown): E.oblige(s, 'taking a chunk does not fail', False, 'post'); continue
        E.oblige(s, 'every byte of a chunk is reported as taken', zi(E.val(s, out)) == size * n, 'post')
        E.oblige(s, 'exactly the chunk is appended', zs(E.read(s, wd.loc)) == z3.Concat(before, chunk), 'post')
def m_strerror(E, st, args, this, node):
    s = z3.Const(fresh_name('strerror'), S); st.assume(z3.Length(s) > 0, z3.Length(s) < 1 << 20); yield st, CStr(False, s)
def m_getinfo(E, st, args, this, node):
    if conc(E.val(st, args[1])) != RESPONSE_CODE: raise Unsupported('curl info')
    E.oblige(st, 'the status is asked for after the transfer', any(e[0] == 'perform' for e in st.events), 'post')
    p = E.val(st, args[2]); E.write(st, p.loc, z3.Int('status')); yield st, z3.IntVal(0)

def setup(E, st):
    c = Ctx(url=z3.Const('url', S), payload=z3.Const('payload', S), nohdr=z3.Bool('no_headers')); E.r03 = c
    nul = zs(b'\0')
    st.assume(z3.Not(z3.Contains(c.url, nul)), z3.Not(z3.Contains(c.payload, nul)), z3.Length(c.url) < 1 << 40, z3.Length(c.payload) < 1 << 40, z3.Int('status') >= 0, z3.Int('status') < 1000)
    for r in ('curl', 'headers'): st.store[('o', r)] = Opaque(r); st.types[('o', r)] = None
    return [PtrV(False, Loc(('o', 'curl'))), c.url, c.payload, PtrV(c.nohdr, Loc(('o', 'headers')))], None, c
def contains(a, b): return z3.Contains(a, b)
def post(E, st, out, c):
    if isinstance(out, Thrown): E.oblige(st, 'does not fail', False, 'post'); return
    o = out if isinstance(out, StructV) else E.read(st, out)
    pf = [e for e in st.events if e[0] == 'perform']
    if len(pf) != 1: E.oblige(st, 'one request is made', False, 'post'); return
    _, code, body = pf[0]; status = z3.Int('status')
    err, b = zs(stl.text(E, st, o.f['error_message'])), zs(stl.text(E, st, o.f['body']))
    E.oblige(st, 'the complete body', b == body, 'post')
    E.oblige(st, 'the transfer code', zi(o.f['curl_code']) == code, 'post')
    E.oblige(st, 'the status of a completed transfer', z3.Implies(code == 0, zi(o.f['http_status']) == status), 'post')
    E.oblige(st, 'no error for 200 to 203', z3.Implies(z3.And(code == 0, status >= 200, status <= 203), err == zs('')), 'post')
    E.oblige(st, 'an error for a failed transfer', z3.Implies(code != 0, err != zs('')), 'post')
    E.oblige(st, 'an error for any other status', z3.Implies(z3.And(code == 0, z3.Or(status < 200, status > 203)), err != zs('')), 'post')
    auth = z3.Contains(err, zs('authentication'))
    E.oblige(st, '401 is an authentication problem', z3.Implies(z3.And(code == 0, status == 401), auth), 'post')
    E.oblige(st, 'and only 401', z3.Implies(z3.And(code == 0, z3.Or(status < 200, status > 203), status != 401), z3.Not(z3.PrefixOf(zs('[ERROR] RPC optimization query authentication issue'), err))), 'post')

BYTES = z3.Function('text_of_bytes', z3.ArraySort(I, I), I, I, S)
def buf_text(E, st, p, n):
    v = E.read(st, p.loc); off = zi(0 if p.off is None else p.off); n = zi(n)
    E.oblige(st, 'only bytes of the chunk are read', z3.And(off >= 0, n >= 0, off + n <= zi(v.n)), 'ub')
    st.assume(z3.Length(BYTES(v.a, off, n)) == n); return BYTES(v.a, off, n)
CURL = {'curl_easy_setopt': m_setopt, 'curl_easy_perform': m_perform, 'curl_easy_strerror': m_strerror, 'curl_easy_getinfo': m_getinfo}
PROOFS = [Proof('post_json', unit, 'post_json', setup, post, config=dict(models=CURL, buf_text=buf_text))]
REPLAY = [dict(src='r03.cpp', repo=['rpc/src/util/utils_curl.cpp'], libs=['-lcurl'])]
ASSUME = ['libcurl delivers the body to the write function in order and only during curl_easy_perform, and reports the status it received; a fresh handle (no earlier options)', 'address and payload without NUL bytes']
