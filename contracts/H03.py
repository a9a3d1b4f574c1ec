"""H03: endswith and sets_intersect."""
import z3
from ccv.values import *
from ccv.prove import Proof, Ctx
from ccv import frontend, kit

WRAP = '''#include <sdfg/helpers/helpers.h>
#include <iostream>
bool meet_string(std::unordered_set<std::string>& a, std::unordered_set<std::string>& b) { return sdfg::helpers::sets_intersect(a, b); }
bool meet_int(std::unordered_set<int>& a, std::unordered_set<int>& b) { return sdfg::helpers::sets_intersect(a, b); }
'''
def unit(): return frontend.load('sdfg/include/sdfg/helpers/helpers.h', wrapper=WRAP, roots=[frontend.REPO + '/', frontend.BUILD + '/'])

def setup_e(E, st):
    v, e = z3.Const('value', S), z3.Const('ending', S)
    st.assume(z3.Length(v) <= (1 << 60), z3.Length(e) <= (1 << 60))
    return [v, e], None, Ctx(v=v, e=e)
def post_e(E, st, out, ctx):
    if isinstance(out, Thrown): E.oblige(st, 'endswith does not fail', False, 'post'); return
    v, e = ctx.v, ctx.e; 
    suffix = z3.SuffixOf(e, v)
    r = zb(E.boolean(out))
    E.oblige(st, 'true only for a suffix', z3.Implies(r, suffix), 'post')
    E.oblige(st, 'false only for a non-suffix', z3.Implies(z3.Not(r), z3.Not(suffix)), 'post')

def mkmeet(fn):
    def setup(E, st):
        f = E.u.fn(fn)
        a, b = kit.fresh_param(E, st, f, 0, 'a'), kit.fresh_param(E, st, f, 1, 'b')
        ctx = Ctx(a=a, b=b, a0=E.read(st, a), b0=E.read(st, b))
        E.mctx = ctx
        return [a, b], None, ctx
    def post(E, st, out, ctx):
        if isinstance(out, Thrown): E.oblige(st, 'sets_intersect does not fail', False, 'post'); return
        x = z3.Const('x', ctx.a0.dom.sort().domain())
        common = z3.Exists([x], z3.And(ctx.a0.dom[x], ctx.b0.dom[x]))
        r = zb(E.boolean(out))
        E.oblige(st, 'true only with a common element', z3.Implies(r, common), 'post')
        E.oblige(st, 'false only without one', z3.Implies(z3.Not(r), z3.Not(common)), 'post')
        E.oblige(st, 'the sets are not changed', z3.And(E.read(st, ctx.a).dom == ctx.a0.dom, E.read(st, ctx.b).dom == ctx.b0.dom), 'post')
    def inv(v):
        E = v.eng; c = E.mctx; out = []; i = z3.Int('i')
        for r, x in list(v.entry.store.items()):
            if r[0] == 'v' and isinstance(r[1], str): pos = lambda w, r=r: zi(w.st.store[r])
            elif r[0] == 'v' and isinstance(x, IterV) and x.pos is not None and (r, ()) in v.mods: pos = lambda w, r=r: zi(w.st.store[r].pos)
            else: continue
            for s, o, l in ((c.a0, c.b0, None if isinstance(r[1], str) else c.a), (c.b0, c.a0, None if isinstance(r[1], str) else c.b)):
                def f(w, pos=pos, s=s, o=o, l=l):
                    en = E.stl.enumeration(E, w.st, s, l)
                    return z3.And(pos(w) >= 0, pos(w) <= zi(s.size), z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < pos(w)), z3.Not(o.dom[en[i]])), patterns=[en[i]]))
                out.append(('no common element so far', f))
        return out
    def var(v):
        return [zi(s.size) - zi(x if not isinstance(x, IterV) else x.pos) for r, x in v.st.store.items() for s in (v.eng.mctx.a0, v.eng.mctx.b0) if r[0] == 'v' and (isinstance(r[1], str) or isinstance(x, IterV) and x.pos is not None)]
    return Proof(fn, unit, fn, setup, post, config=dict(loopinv=inv, variant=var))

PROOFS = [Proof('endswith', unit, 'sdfg::helpers::endswith', setup_e, post_e), mkmeet('meet_string'), mkmeet('meet_int')]
REPLAY = [dict(src='h03.cpp')]
ASSUME = ['std::string and std::unordered_set behave as documented; iteration visits each element once in an unspecified order',
          'sets_intersect is a template: proved for string and int elements']
