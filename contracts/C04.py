"""C04: base64_encode and base64_decode."""
import z3
from ccv.values import *
from ccv.prove import Proof, Ctx
from ccv import frontend, kit

def unit(): return frontend.load('arg-capture-io/src/base64.cpp')
MAXLEN = 1 << 50
def ch(v):
    """the standard alphabet (RFC 4648)"""
    return z3.If(v < 26, 65 + v, z3.If(v < 52, 71 + v, z3.If(v < 62, v - 4, z3.If(v == 62, z3.IntVal(43), z3.IntVal(47)))))
ALPHABET = [x for x in b'ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/']
def byte(D, N, i): return z3.If(i < N, D[i], z3.IntVal(0))
def sext(D, N, g, r):
    """r-th sextet of group g, missing bytes taken as zero"""
    a, b, c = byte(D, N, 3 * g), byte(D, N, 3 * g + 1), byte(D, N, 3 * g + 2)
    return [a / 4, (a % 4) * 16 + b / 16, (b % 16) * 4 + c / 64, c % 64][r]
def chars_of(N): return 4 * (N / 3) + z3.If(N % 3 == 0, z3.IntVal(0), N % 3 + 1)
def text_at(T, D, N, g):
    """the four characters of group g are as the standard says"""
    return z3.And(*[T[4 * g + r] == z3.If(4 * g + r < chars_of(N), ch(sext(D, N, g, r)), z3.IntVal(61)) for r in range(4)])

# ---------------------------------------------------------------- encode
def setup_e(E, st):
    N = z3.Int('N'); D = z3.Const('D', z3.ArraySort(I, I)); i = z3.Int('i')
    st.assume(N >= 0, N <= MAXLEN, z3.ForAll([i], z3.And(D[i] >= 0, D[i] <= 255), patterns=[D[i]]))
    f = E.u.fn('base64_encode'); t = E.ty(f['params'][0]['t'])
    r = ('o', 'bytes'); st.store[r] = VecV(t.e, D, N); st.types[r] = None
    E.b64 = Ctx(D=D, N=N, root=r)
    if E.bmc is not None: st.assume(N <= 7)
    return [PtrV(False, Loc(r), z3.IntVal(0)), N], None, E.b64

def post_e(E, st, out, ctx):
    if isinstance(out, Thrown): E.oblige(st, 'encoding does not fail', False, 'post'); return
    T = out if isinstance(out, VecV) else E.read(st, out)
    D, N = ctx.D, ctx.N; g = z3.Int('g')
    E.oblige(st, 'a multiple of four characters, as many groups as needed', zi(T.n) == 4 * ((N + 2) / 3), 'post')
    E.oblige(st, 'every complete group is standard', z3.Implies(z3.And(g >= 0, g < N / 3), text_at(T.a, D, N, g)), 'post')
    E.oblige(st, 'the last group is standard and padded', z3.Implies(N % 3 != 0, text_at(T.a, D, N, N / 3)), 'post')

def roles(v):
    """what may count the consumed bytes: the iterations, or three or four per iteration"""
    return [('k', lambda w: w.k), ('3k', lambda w: 3 * w.k), ('4k', lambda w: 4 * w.k)]
def strides(v):
    """variables and pointers that advance by three or four per iteration"""
    out = []
    for r, x in list(v.entry.store.items()):
        if r[0] != 'v' or (r, ()) not in v.mods: continue
        if isinstance(x, PtrV) and x.off is not None: val = lambda s, r=r: zi(s.store[r].off)
        elif (isinstance(x, int) and not isinstance(x, bool)) or (isz(x) and x.sort() == I): val = lambda s, r=r: zi(s.store[r])
        else: continue
        for m in (3, -3, 4, -4): out.append(('stride %d' % m, lambda w, val=val, m=m: val(w.st) == val(w.entry) + m * w.k))
    return out
def buffers(v): return [r for r, x in v.entry.store.items() if r[0] == 'v' and isinstance(x, VecV) and conc(x.n) in (3, 4)]
def outs(v, entry=False):
    out = []
    for r, x in v.entry.store.items():
        if isinstance(x, VecV) and (r, ()) in v.mods and conc(x.n) not in (3, 4): out.append(r)
    return out

def inv_e(v):
    c = v.eng.b64; D, N = c.D, c.N; out = []; g = z3.Int('g')
    R = roles(v); ints = v.ints(True); out += strides(v)
    for nm, f in R:
        out.append(('consumed in range (%s)' % nm, lambda w, f=f: z3.And(f(w) >= 0, f(w) <= N)))
        for r, n in ints:
            out.append(('%s = %s mod 3' % (n, nm), lambda w, f=f, r=r: zi(w.st.store[r]) == f(w) % 3))
        for o in outs(v):
            out.append(('length of the text', lambda w, f=f, o=o: zi(w.st.store[o].n) == 4 * (f(w) / 3)))
            out.append(('groups so far are standard', lambda w, f=f, o=o: z3.ForAll([g], z3.Implies(z3.And(g >= 0, g < f(w) / 3), text_at(w.st.store[o].a, D, N, g)))))
        for b in buffers(v):
            out.append(('pending bytes', lambda w, f=f, b=b: z3.And(*[z3.Implies(t < f(w) % 3, w.st.store[b].a[t] == D[f(w) - f(w) % 3 + t]) for t in range(3)])))
    return out
def var_e(v):
    c = v.eng.b64
    return [zi(v.st.store[r]) for r, n in v.ints(True)] + [c.N - f(v) for nm, f in roles(v)]

# ---------------------------------------------------------------- decode: any text (safety)
def setup_d(E, st):
    T = z3.Const('T', z3.ArraySort(I, I)); L = z3.Int('L'); i = z3.Int('i')
    st.assume(L >= 0, L <= 2 * MAXLEN, z3.ForAll([i], z3.And(T[i] >= -128, T[i] <= 127), patterns=[T[i]]))
    r = ('o', 'text'); st.store[r] = VecV(None, T, L); st.types[r] = None
    D, N = z3.Const('D', z3.ArraySort(I, I)), z3.Int('N')
    E.b64 = Ctx(T=T, L=L, D=D, N=N, root=r, rt=False)
    if E.bmc is not None: st.assume(L <= 9)
    return [Loc(r)], None, E.b64
def post_d(E, st, out, ctx):
    if isinstance(out, Thrown): E.oblige(st, 'decoding does not fail', False, 'post'); return
    o = out if isinstance(out, VecV) else E.read(st, out)
    E.oblige(st, 'at most three bytes for four characters', z3.And(zi(o.n) >= 0, 4 * zi(o.n) <= 3 * ctx.L), 'post')

def setup_rt(E, st):
    a = setup_d(E, st); c = E.b64; c.rt = True
    N, D, T, L = c.N, c.D, c.T, c.L; i, g = z3.Int('i'), z3.Int('g')
    st.assume(N >= 0, N <= MAXLEN, z3.ForAll([i], z3.And(D[i] >= 0, D[i] <= 255), patterns=[D[i]]), L == 4 * ((N + 2) / 3))
    # the text is the standard encoding of D (that is what base64_encode is proved to produce); the proof takes it
    # group by group, through the instances of the lemmas below given at the loop head
    if E.bmc is not None: st.assume(N <= 5, *[z3.Implies(g < (N + 2) / 3, text_at(T, D, N, z3.IntVal(g))) for g in range(2)])
    return a
def post_rt(E, st, out, ctx):
    if isinstance(out, Thrown): E.oblige(st, 'decoding does not fail', False, 'post'); return
    o = out if isinstance(out, VecV) else E.read(st, out)
    g = z3.Int('g')
    E.oblige(st, 'the original length', zi(o.n) == ctx.N, 'post')
    for r in range(3): E.oblige(st, 'the original bytes (3g + %d)' % r, z3.Implies(z3.And(g >= 0, 3 * g + r < ctx.N), o.a[3 * g + r] == ctx.D[3 * g + r]), 'post')

def inv_d(v):
    c = v.eng.b64; D, N, T, L = c.D, c.N, c.T, c.L; out = []; g = z3.Int('g')
    R = roles(v); ints = v.ints(True); out += strides(v)
    for nm, f in R:
        out.append(('consumed in range (%s)' % nm, lambda w, f=f: z3.And(f(w) >= 0, f(w) <= L)))
        for r, n in ints:
            out.append(('%s = %s mod 4' % (n, nm), lambda w, f=f, r=r: zi(w.st.store[r]) == f(w) % 4))
        for o in outs(v): out.append(('length of the output', lambda w, f=f, o=o: zi(w.st.store[o].n) == 3 * (f(w) / 4)))
        if not c.rt: continue
        out.append(('consumed characters are data (%s)' % nm, lambda w, f=f: f(w) <= chars_of(N)))
        for o in outs(v):
            for t in range(3):
                out.append(('bytes so far (3g + %d)' % t, lambda w, f=f, o=o, t=t: z3.ForAll([g], z3.Implies(z3.And(g >= 0, g < f(w) / 4), w.st.store[o].a[3 * g + t] == D[3 * g + t]))))
        for b in buffers(v):
            out.append(('pending characters', lambda w, f=f, b=b: z3.And(*[z3.Implies(t < f(w) % 4, w.st.store[b].a[t] == T[f(w) - f(w) % 4 + t]) for t in range(4)])))
    return out
def is_data(x): return z3.Or(z3.And(x >= 48, x <= 57), z3.And(x >= 65, x <= 90), z3.And(x >= 97, x <= 122), x == 43, x == 47)
def group_facts(T, D, N, g):
    """what text_at says about the characters of one group (lemma 'characters of a group')"""
    out = []
    for r in range(4):
        q = 4 * g + r
        out.append(z3.Implies(q < chars_of(N), is_data(T[q])))
        out.append(z3.Implies(q >= chars_of(N), T[q] == 61))
    return out
def byte_facts(D, N, g):
    """sextets give the bytes back (lemma 'bytes from sextets')"""
    a, b, c = byte(D, N, 3 * g), byte(D, N, 3 * g + 1), byte(D, N, 3 * g + 2)
    s1, s2 = sext(D, N, g, 1), sext(D, N, g, 2)
    return [a / 4 >= 0, a / 4 < 64, s1 >= 0, s1 < 64, s2 >= 0, s2 < 64, c % 64 < 64, s1 / 16 == a % 4, s1 % 16 == b / 16, s2 / 4 == b % 16, s2 % 4 == c / 64]
def facts_d(v):
    c = v.eng.b64
    if not c.rt: return []
    g = v.k / 4
    inr = z3.And(g >= 0, g < (c.N + 2) / 3)
    out = [z3.Implies(inr, f) for f in group_facts(c.T, c.D, c.N, g)] + byte_facts(c.D, c.N, g)
    # positions in the table of the code, computed from its actual contents (lemma 'table')
    for F, tab in getattr(v.eng, 'find_tables', {}).values():
        if tab == ALPHABET:
            for r in range(4): out.append(z3.Implies(z3.And(inr, 4 * g + r < chars_of(c.N)), F(c.T[4 * g + r]) == sext(c.D, c.N, g, r)))
    return out
def lemmas():
    D, T, N, g = z3.Const('D', z3.ArraySort(I, I)), z3.Const('T', z3.ArraySort(I, I)), z3.Int('N'), z3.Int('g')
    hyp = [N >= 0, g >= 0, g < (N + 2) / 3] + [z3.And(D[3 * g + r] >= 0, D[3 * g + r] <= 255) for r in range(3)]
    x = z3.Int('x'); tab = z3.IntVal(-1)
    for i in range(63, -1, -1): tab = z3.If(x == ALPHABET[i], z3.IntVal(i), tab)
    v = z3.Int('v')
    return [('characters of a group', hyp + [text_at(T, D, N, g)], z3.And(*group_facts(T, D, N, g))),
            ('bytes from sextets', hyp, z3.And(*byte_facts(D, N, g))),
            ('table: the position of the v-th character is v', [v >= 0, v < 64, x == ch(v)], tab == v)]
def var_d(v):
    c = v.eng.b64
    return [zi(v.st.store[r]) for r, n in v.ints(True)] + [c.L - f(v) for nm, f in roles(v)]

PROOFS = [Proof('base64_encode', unit, 'base64_encode', setup_e, post_e, strmode='arr', unroll=5, config=dict(loopinv=inv_e, variant=var_e)),
          Proof('base64_decode of any text', unit, 'base64_decode', setup_d, post_d, strmode='arr', unroll=5, config=dict(loopinv=inv_d, variant=var_d)),
          Proof('base64_decode of encoded bytes', unit, 'base64_decode', setup_rt, post_rt, strmode='arr', unroll=5, config=dict(loopinv=inv_d, loop_facts=facts_d, variant=var_d, find_function=True))]
REPLAY = [dict(src='c04.cpp', repo=['arg-capture-io/src/base64.cpp'])]
ASSUME = ['fewer than 2^50 bytes', 'std::string and std::vector as arrays with a length (assumed library contracts)']
