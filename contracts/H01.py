"""H01: split and join."""
import z3
from ccv.values import *
from ccv.prove import Proof, Ctx
from ccv import frontend, kit

WRAP = '''#include <sdfg/helpers/helpers.h>
#include <iostream>
std::string join_string(std::vector<std::string>& e, std::string& d) { return sdfg::helpers::join(e, d); }
std::string join_literal(std::vector<std::string>& e) { return sdfg::helpers::join(e, ", "); }
std::string join_int(std::vector<int>& e, std::string& d) { return sdfg::helpers::join(e, d); }
'''
def unit(): return frontend.load('sdfg/include/sdfg/helpers/helpers.h', wrapper=WRAP, roots=[frontend.REPO + '/', frontend.BUILD + '/'])

# ---------------------------------------------------------------- split
def on_push(E, st, loc, old, x):
    """ghost: the text the pieces appended so far join to, and whether they all avoid the delimiter"""
    if st.ghost.get('target') is None or loc.root != st.ghost['target'][0]: return
    j, c = st.ghost['joined'], st.ghost['count']
    d = st.ghost['target'][1]
    st.ghost['joined'] = z3.If(zi(c) == 0, x, z3.Concat(j, d, x))
    st.ghost['clean'] = z3.And(zb(st.ghost['clean']), z3.Not(z3.Contains(x, d)))
    st.ghost['count'] = z3.simplify(zi(c) + 1)

def setup_split(E, st):
    f = E.u.fn('sdfg::helpers::split')
    res = kit.fresh_param(E, st, f, 0, 'result')
    s, d = z3.Const('s', S), z3.Const('del', S)
    st.assume(z3.Length(d) >= 1, z3.Length(s) <= (1 << 60), z3.Length(d) <= (1 << 60))
    st.ghost['target'] = (res.root, d); st.ghost['joined'] = z3.StringVal(''); st.ghost['clean'] = z3.BoolVal(True); st.ghost['count'] = z3.IntVal(0)
    old = E.read(st, res)
    st.assume(zi(old.n) <= 1 << 50)
    return [res, s, d], None, Ctx(s=s, d=d, res=res, old=old)

def post_split(E, st, out, ctx):
    if isinstance(out, Thrown): E.oblige(st, 'split does not fail', False, 'post'); return
    g = st.ghost
    E.oblige(st, 'the pieces joined with the delimiter give the string back', z3.And(g['joined'] == ctx.s, g['count'] >= 1), 'post')
    E.oblige(st, 'no piece contains the delimiter', g['clean'], 'post')
    new = E.read(st, ctx.res); i = z3.Int('i')
    E.oblige(st, 'the pieces are appended', zi(new.n) == zi(ctx.old.n) + g['count'], 'post')
    E.oblige(st, 'earlier contents stay', z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < zi(ctx.old.n)), new.a[i] == ctx.old.a[i])), 'post')

NP = (1 << 64) - 1
def inv_split(v):
    out = []
    s, d = z3.Const('s', S), z3.Const('del', S)
    L, D = z3.Length(s), z3.Length(d)
    rest = lambda x: z3.SubString(s, x, L - x)
    g = lambda w: w.st.ghost
    for r, n in v.ints():
        x = lambda w, r=r: zi(w.st.store[r])
        none = lambda w, r=r: z3.Or(x(w, r) == -1, x(w, r) == NP)
        # position of a delimiter found (or none left)
        out.append(('delimiter position', lambda w, x=x, none=none: z3.If(none(w), g(w)['joined'] == s,
                    z3.And(x(w) >= 0, x(w) + D <= L, g(w)['joined'] == z3.SubString(s, 0, x(w)), z3.SubString(s, x(w), D) == d))))
        # start of the next piece
        out.append(('start of the next piece', lambda w, x=x: z3.And(x(w) >= 0, x(w) <= L, z3.If(g(w)['count'] == 0, x(w) == 0, z3.Concat(g(w)['joined'], d) == z3.SubString(s, 0, x(w))))))
        out.append(('not past the end', lambda w, x=x: z3.And(x(w) >= 0, x(w) <= L)))
    out.append(('pieces are clean', lambda w: zb(g(w)['clean'])))
    out.append(('a piece was appended', lambda w: g(w)['count'] >= 1))
    out.append(('count is not negative', lambda w: g(w)['count'] >= 0))
    def res(w):
        now = w.param(0, entry=False)
        old = w.eng.read(w.eng.entry0, Loc(('o', 'result')))
        return now, old
    i = z3.Int('i')
    out.append(('length', lambda w: zi(res(w)[0].n) == zi(res(w)[1].n) + g(w)['count']))
    out.append(('earlier contents', lambda w: z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < zi(res(w)[1].n)), res(w)[0].a[i] == res(w)[1].a[i]))))
    return out

def var_split(v):
    L = z3.Length(z3.Const('s', S))
    out = []
    for r, n in v.ints(True):
        x = zi(v.st.store[r])
        out.append(z3.If(z3.Or(x < 0, x == NP), z3.IntVal(0), L - x + 1))
    return out

def setup_split0(E, st):
    r = setup_split(E, st)
    E.entry0 = st.copy()
    return r

# ---------------------------------------------------------------- join
def joined(sort):
    return z3.Function('joined_%s' % sort, z3.ArraySort(I, sort), S, I, S)
def jdef(J, a, d, k, tx):
    """definition of the joined text of the first k elements"""
    return [J(a, d, z3.IntVal(0)) == z3.StringVal(''), z3.Implies(k >= 1, J(a, d, k) == z3.If(k == 1, tx(a[z3.IntVal(0)]), z3.Concat(J(a, d, k - 1), d, tx(a[k - 1])))), J(a, d, z3.IntVal(1)) == tx(a[z3.IntVal(0)])]

def mkjoin(fn, kind, lit=None):
    def setup(E, st):
        f = E.u.fn(fn)
        e = kit.fresh_param(E, st, f, 0, 'elems')
        v = E.read(st, e)
        if lit is None:
            d = kit.fresh_obj(E, st, E.ty(f['params'][1]['t']).e, 'delim'); ds = E.read(st, d); args = [e, d]
        else: ds = z3.StringVal(lit); args = [e]
        if kind == 'int': tx = lambda x: z3.If(x >= 0, z3.IntToStr(x), z3.Concat(z3.StringVal('-'), z3.IntToStr(-x)))
        else: tx = lambda x: x
        J = joined(v.a.sort().range())
        ctx = Ctx(J=J, a=v.a, n=zi(v.n), d=ds, tx=tx, e=e)
        E.jctx = ctx
        st.assume(*jdef(J, v.a, ds, zi(v.n), tx))
        return args, None, ctx
    def post(E, st, out, ctx):
        if isinstance(out, Thrown): E.oblige(st, 'join does not fail', False, 'post'); return
        E.oblige(st, 'each element once in order, a delimiter between neighbours', zs(out) == ctx.J(ctx.a, ctx.d, ctx.n), 'post')
        now = E.read(st, ctx.e)
        E.oblige(st, 'the elements are not changed', z3.And(now.a == ctx.a, zi(now.n) == ctx.n), 'post')
    def positions(w):
        out = []
        for r, x in list(w.entry.store.items()):
            if r[0] == 'v' and isinstance(x, IterV) and x.kind == 'vec' and x.pos is not None and (r, ()) in w.mods: out.append(lambda u, r=r: zi(u.st.store[r].pos))
        for r, x in list(w.entry.store.items()):
            if r[0] == 'v' and isinstance(r[1], str): out.append(lambda u, r=r: zi(u.st.store[r]))
        for r, n in w.ints(True): out.append(lambda u, r=r: zi(u.st.store[r]))
        return out
    def texts(w):
        out = []
        for r, x in list(w.entry.store.items()):
            if isinstance(x, Opaque) and x.tn == 'stream' and 'text' in x.data: out.append(lambda u, r=r: u.st.store[r].data['text'])
            elif r[0] == 'v' and isz(x) and x.sort() == S: out.append(lambda u, r=r: u.st.store[r])
            elif r[0] == 'v' and isinstance(x, Loc) and not x.path and isz(w.entry.store.get(x.root)) and w.entry.store[x.root].sort() == S: out.append(lambda u, r=x.root: u.st.store[r])
        return out
    def inv(v):
        c = v.eng.jctx; out = []
        for p in positions(v):
            out.append(('position in range', lambda w, p=p: z3.And(p(w) >= 0, p(w) <= c.n)))
            out.append(('position in range, not first', lambda w, p=p: z3.And(p(w) >= 1, p(w) <= c.n)))
            for t in texts(v): out.append(('text so far', lambda w, p=p, t=t: t(w) == c.J(c.a, c.d, p(w))))
        return out
    def facts(v):
        c = v.eng.jctx; out = []
        for p in positions(v):
            x = p(v)
            out += jdef(c.J, c.a, c.d, x, c.tx) + jdef(c.J, c.a, c.d, x + 1, c.tx)
        return out
    def var(v): return [v.eng.jctx.n - p(v) for p in positions(v)]
    return Proof('join (%s%s)' % (kind, ', literal delimiter' if lit is not None else ''), unit, fn, setup, post,
                 config=dict(loopinv=inv, loop_facts=facts, variant=var))

PROOFS = [Proof('split', unit, 'sdfg::helpers::split', setup_split0, post_split, config=dict(on_push=on_push, loopinv=inv_split, variant=var_split)),
          mkjoin('join_string', 'string'), mkjoin('join_literal', 'string', ', '), mkjoin('join_int', 'int')]
REPLAY = [dict(src='h01.cpp')]
ASSUME = ['texts are shorter than 2^60 characters', 'std::string, std::stringstream and std::vector behave as documented (sequence models)',
          'join is a template: proved for string and int elements with string and literal delimiters']
