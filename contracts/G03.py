"""G03: all_simple_paths and its recursive worker.

P is one arbitrary edge sequence (ghost). CNT(list) counts how often P stands in a list of paths. The worker's contract:
CNT of the list grows by one exactly when P is  current_path ++ (a path that starts with `edge`, ends at v and visits no
vertex twice nor a visited one), and current_path and visited come back as they were. As P is arbitrary, soundness,
completeness and absence of duplicates follow at once."""
import z3
from ccv.values import *
from ccv.prove import Proof, Ctx
from ccv import frontend, kit, engine, stl
from contracts import graphs
from contracts.graphs import *

NS = 'sdfg::graph::'
P = z3.Const('P', A(I, I)); PN = z3.Int('PN')
_cnt = {}
def paths_dt(E): return E.c.sort(E.ty(E.u.fn(NS + 'all_simple_paths_dfs')['params'][3]['t']).e.args[0])
def CNT(E):
    return z3.Function('count_P', z3.ArraySort(I, paths_dt(E)), I, I)
def acc(E, x): d = paths_dt(E); return d.accessor(0, 0)(x), d.accessor(0, 1)(x)
def isP(E, a, n):
    k = z3.Int('kq')
    return z3.And(n == PN, FA([k], z3.Implies(z3.And(k >= 0, k < PN), a[k] == P[k]), P[k]))
def count_axioms(E):
    c = CNT(E); d = paths_dt(E)
    a = z3.Const('a', z3.ArraySort(I, d)); n = z3.Int('n'); x = z3.Const('x', d); m = z3.Int('m')
    xa, xn = acc(E, x)
    return [FA([a], c(a, 0) == 0, c(a, 0)),
            # the definition, one step: an entry appended at position n counts if it is P (an entry at n does not change the count below n)
            FA([a, n, x], z3.Implies(n >= 0, c(z3.Store(a, n, x), n + 1) == c(a, n) + z3.If(isP(E, xa, xn), 1, 0)), z3.Store(a, n, x))]
def T(m, ca, vis, v):
    """P continues the m-prefix ca by a non-empty simple path of edges to v avoiding vis (chained to the prefix by the caller)"""
    k, j = z3.Ints('kp jp')
    return z3.And(PN > m, FA([k], z3.Implies(z3.And(k >= 0, k < m), P[k] == ca[k]), P[k]), simple(m, vis, v))
def simple(m, vis, v):
    k, j = z3.Ints('kp jp')
    return z3.And(FA([k], z3.Implies(z3.And(k >= m, k < PN), z3.And(ISE(P[k]), z3.Not(vis[TGT(P[k])]))), P[k]),
                  FA([k, j], z3.Implies(z3.And(k >= m, k < j, j < PN), TGT(P[k]) != TGT(P[j])), z3.MultiPattern(P[k], P[j])),
                  FA([k], z3.Implies(z3.And(k > m, k < PN), SRC(P[k]) == TGT(P[k - 1])), P[k]),
                  TGT(P[PN - 1]) == v)
def W(edge, n, ca, vis, v): return z3.And(P[n] == edge, T(n, ca, vis, v))

def subset(vis):
    x = z3.Int('xv'); return FA([x], z3.Implies(vis[x], ISV(x)), vis[x])
def pre(edge, v, cur, vis): return [ISE(edge), ISV(v), zi(cur.n) >= 0, zi(cur.n) <= zi(vis.size), zi(vis.size) >= 0, subset(vis.dom)]
def finite(vis): return z3.Implies(subset(vis.dom), zi(vis.size) <= VN)       # a set of vertices is no larger than the graph

def same_list(a, b):
    k = z3.Int('ks'); return z3.And(zi(a.n) == zi(b.n), FA([k], z3.Implies(z3.And(k >= 0, k < zi(a.n)), a.a[k] == b.a[k]), a.a[k]))
def same_set(a, b): return z3.And(a.dom == b.dom, zi(a.size) == zi(b.size))

def dfs_model(E, s, a, this, node):
    """the worker's contract, used at the recursive call and in all_simple_paths"""
    edge = zi(E.val(s, a[1])); v = zi(E.val(s, a[2])); la, lc, lv = a[3:6]
    ap, cur, vis = [E.read(s, l) for l in (la, lc, lv)]
    need(E, s, 'the worker is called on an edge, with vertices of the graph marked', z3.And(*pre(edge, v, cur, vis)))
    if E.frame.fn['qn'] == NS + 'all_simple_paths_dfs':
        s.assume(finite(vis))
        E.oblige(s, 'the recursion terminates (the marked vertices grow, within the graph)', z3.And(zi(vis.size) > VIS0.size0, zi(vis.size) <= VN), 'term')
    c = CNT(E)
    na = z3.Const(fresh_name('paths'), ap.a.sort()); nn = z3.Int(fresh_name('npaths'))
    ca = z3.Const(fresh_name('cur'), cur.a.sort())
    k = z3.Int('ks')
    s.assume(nn >= zi(ap.n), nn < 1 << 60, c(na, nn) == c(ap.a, zi(ap.n)) + z3.If(W(edge, zi(cur.n), cur.a, vis.dom, v), 1, 0),
             FA([k], z3.Implies(z3.And(k >= 0, k < zi(cur.n)), ca[k] == cur.a[k]), ca[k]))
    E.write(s, la, VecV(ap.et, na, nn)); E.write(s, lc, VecV(cur.et, ca, cur.n))
    s.writes = s.writes | {(la.root, ()), (lc.root, ())}
    yield s, VOID
class VIS0: size0 = None

def roots(view):
    """the three containers, wherever they live: (paths, current, visited) locations"""
    ap = cur = vis = None
    for r, x in view.entry.store.items():
        if isinstance(x, VecV) and z3.is_array_sort(x.a.sort()) if False else False: pass
    return ap, cur, vis

def setup_dfs(E, st):
    f = E.u.fn(NS + 'all_simple_paths_dfs')
    st.assume(*graph_axioms()); st.assume(*count_axioms(E)); st.assume(PN >= 0)
    g = the_graph(E, st, E.ty(f['params'][0]['t']).e)
    a = [g] + [kit.fresh_param(E, st, f, i) for i in range(1, 6)]
    edge, v = zi(a[1]), zi(a[2])
    ap, cur, vis = [E.read(st, l) for l in a[3:6]]
    st.assume(*pre(edge, v, cur, vis)); st.assume(finite(vis))
    VIS0.size0 = zi(vis.size)
    return a, None, Ctx(a=a, edge=edge, v=v, ap=ap, cur=cur, vis=vis)
def post_dfs(E, st, out, ctx):
    if isinstance(out, (Thrown, Exited)): E.oblige(st, 'the worker does not fail', False, 'post'); return
    ap, cur, vis = [E.read(st, l) for l in ctx.a[3:6]]
    c = CNT(E)
    E.oblige(st, 'the path in progress comes back as it was', same_list(cur, ctx.cur), 'post')
    E.oblige(st, 'the marked vertices come back as they were', same_set(vis, ctx.vis), 'post')
    E.oblige(st, 'no path found before is lost', zi(ap.n) >= zi(ctx.ap.n), 'post')
    E.oblige(st, 'a path is added exactly when it is a simple continuation, and once', c(ap.a, zi(ap.n)) == c(ctx.ap.a, zi(ctx.ap.n)) + z3.If(W(ctx.edge, zi(ctx.cur.n), ctx.cur.a, ctx.vis.dom, ctx.v), 1, 0), 'post')

def inv(view):
    out = []; E = view.eng; c = CNT(E)
    d = paths_dt(E)
    ent = [(r, x) for r, x in view.entry.store.items() if r[0] in ('o', 'v', 't')]
    aps = [r for r, x in ent if isinstance(x, VecV) and x.a.sort().range() == d]
    curs = [r for r, x in ent if isinstance(x, VecV) and x.a.sort() == A(I, I) and (r, ()) in view.mods]
    viss = [r for r, x in ent if isinstance(x, SetV)]
    poss = [r for r, x in view.entry.store.items() if isinstance(r[1], str) and r[0] == 'v' and r[1].startswith('pos') and (r, ()) in view.mods]
    its = [r for r, x in view.entry.store.items() if r[0] == 'v' and isinstance(x, IterV) and x.pos is not None and (r, ()) in view.mods]
    rec = [(r, False) for r in poss] + [(r, True) for r in its]
    for r in curs:
        if len(aps) == 1: out.append(('the path in progress is as before the loop', lambda w, r=r: same_list(w.st.store[r], w.entry.store[r])))
    for r in viss:
        if (r, ()) in view.mods: out.append(('the marked vertices are as before the loop', lambda w, r=r: same_set(w.st.store[r], w.entry.store[r])))
    allc = [r for r, x in ent if isinstance(x, VecV) and x.a.sort() == A(I, I)]
    for ra in aps:
        out.append(('no path is lost', lambda w, ra=ra: zi(w.st.store[ra].n) >= zi(w.entry.store[ra].n)))
        for rc in allc:
            for rv in viss:
                for rp, isit in rec:
                    for v in VV(E):
                        for u in VV2(E):
                            def f(w, ra=ra, rc=rc, rv=rv, rp=rp, isit=isit, v=v, u=u):
                                x = w.st.store[rp]; pos = zi(x.pos) if isit else zi(x)
                                e0, cur, vis = w.entry.store[ra], w.entry.store[rc], w.entry.store[rv]
                                n = zi(cur.n); now = w.st.store[ra]
                                return c(now.a, zi(now.n)) == c(e0.a, zi(e0.n)) + z3.If(z3.And(T(n, cur.a, vis.dom, v), SRC(P[n]) == u, POS(P[n]) < pos), 1, 0)
                            out.append(('the continuations through the edges seen so far are counted', f))
    return out
class Cur: v = (); u = ()
def VV(E): return Cur.v
def VV2(E): return Cur.u

def setup_dfs_(E, st):
    r = setup_dfs(E, st); Cur.v = (r[2].v,); Cur.u = (TGT(r[2].edge),); return r

def setup_all(E, st):
    f = E.u.fn(NS + 'all_simple_paths')
    st.assume(*graph_axioms()); st.assume(*count_axioms(E)); st.assume(PN >= 0)
    g = the_graph(E, st, E.ty(f['params'][0]['t']).e)
    src, dst = z3.Ints('from to')
    st.assume(ISV(src), ISV(dst), src != dst)
    Cur.v = (dst,); Cur.u = (src,)
    return [g, src, dst], None, Ctx(src=src, dst=dst)
def post_all(E, st, out, ctx):
    if isinstance(out, (Thrown, Exited)): E.oblige(st, 'the enumeration does not fail', False, 'post'); return
    r = E.val(st, out); c = CNT(E)
    k, j = z3.Ints('kp jp')
    want = z3.And(PN > 0, simple(0, z3.Store(z3.K(I, False), ctx.src, True), ctx.dst), SRC(P[0]) == ctx.src)
    E.oblige(st, 'an edge sequence is listed exactly when it is a simple path between the two vertices, and once', c(r.a, zi(r.n)) == z3.If(want, 1, 0), 'post')

MODELS = {NS + 'all_simple_paths_dfs': dfs_model}
cfg = dict(CFG, models=MODELS, loopinv=inv)
PROOFS = [Proof('all_simple_paths_dfs', unit, NS + 'all_simple_paths_dfs', setup_dfs_, post_dfs, config=cfg),
          Proof('all_simple_paths', unit, NS + 'all_simple_paths', setup_all, post_all, config=cfg)]
REPLAY = [dict(src='graph.cpp', repo=['sdfg/src/graph/graph.cpp'])]
ASSUME = graphs.ASSUME + ['a set of vertices of the graph has at most as many elements as the graph has vertices (used for termination of the recursion)']
