"""G06: depth_first_search, back_edges and the visitor."""
import z3
from ccv.values import *
from ccv.prove import Proof, Ctx
from ccv import frontend, kit, engine, stl
from contracts import graphs
from contracts.graphs import *
NS = 'sdfg::graph::'
DN = z3.Function('dfs_order', I, A(I, I)); BE = z3.Function('dfs_back_edges', I, A(I, I)); BN = z3.Function('num_back_edges', I, I)
def changed(s0, s1): return [r for r in s0.store if s1.store.get(r) is not s0.store[r]]
def appends(E, s, vis, name, arg, g):
    """what one call of a visitor method does: the root of the list it appends its argument to (None: nothing)"""
    t = E.read(s, vis); f = [x for x in E.u.functions if x['qn'] == E.viscls + '::' + name]
    if not f: return None                       # inherited from default_dfs_visitor: does nothing
    s0 = s.copy(); roots = None
    for s1, out in E.call_body(s0.copy(), f[0], [arg, g], vis):
        if isinstance(out, (Thrown, Exited)): raise Unsupported('visitor that fails')
        r = [x for x in s0.store if s1.store.get(x) is not s0.store[x] and x[0] in ('v', 'o')]
        if roots is not None: raise Unsupported('visitor with several paths')
        if not r: roots = (); continue
        a, b = s0.store[r[0]], s1.store[r[0]]
        if len(r) != 1 or not isinstance(a, VecV) or not isinstance(b, VecV): raise Unsupported('visitor that does more than append')
        E.oblige(s1, 'the visitor appends what it is told, once', z3.And(zi(b.n) == zi(a.n) + 1, b.a[zi(a.n)] == arg, z3.ForAll([z3.Int('iq')], z3.Implies(z3.And(z3.Int('iq') >= 0, z3.Int('iq') < zi(a.n)), b.a[z3.Int('iq')] == a.a[z3.Int('iq')]))), 'visitor')
        roots = (r[0],)
    return roots[0] if roots else None
EVENTS = ['initialize_vertex', 'start_vertex', 'examine_edge', 'tree_edge', 'forward_or_cross_edge', 'finish_vertex', 'finish_edge']
def b_dfs(E, s, a, this, node):
    """boost::depth_first_search(g, visitor, colours, start): calls discover_vertex once per vertex in depth-first order from start,
    back_edge once per edge to an open vertex; the calls of one visitor that appends to lists append those sequences"""
    plain(GS(E, s, a[0]), 'depth_first_search')
    vis = a[1] if isinstance(a[1], Loc) else E.newtemp(s, a[1])
    v = E.read(s, vis)
    if not isinstance(v, StructV): raise Unsupported('visitor')
    E.viscls = v.tn
    need_white(E, s, E.val(s, a[2]))
    start = zi(E.val(s, a[3])); need(E, s, 'the search starts at a vertex of the graph', ISV(start))
    av = z3.Int('any_vertex'); ae = z3.Int('any_edge')
    probe = s.copy(); probe.assume(ISV(av), ISE(ae))
    rd = appends(E, probe, vis, 'discover_vertex', av, a[0]); rb = appends(E, probe, vis, 'back_edge', ae, a[0])
    for ev in EVENTS:
        if any(x['qn'] == v.tn + '::' + ev for x in E.u.functions): raise Unsupported('visitor with ' + ev)
    if rd is not None and rd == rb: raise Unsupported('vertices and edges in one list')
    j = z3.Int(fresh_name('j'))
    for r, seq_, n2 in ((rd, DN(start), VN), (rb, BE(start), BN(start))):
        if r is None: continue
        x = s.store[r]; n = zi(x.n)
        s.store[r] = VecV(x.et, z3.Lambda([j], z3.If(j < n, x.a[j], seq_[j - n])), n + n2); s.writes = s.writes | {(r, ())}
    yield s, VOID
def b_dfs_named(E, s, a, this, node):
    raise Unsupported('depth_first_search with named parameters')
graphs.TABLE['boost::depth_first_search'] = b_dfs

def setup(fn):
    def go(E, st):
        f = E.u.fn(NS + fn)
        st.assume(*graph_axioms())
        start = z3.Int('start'); st.assume(ISV(start), BN(start) >= 0, BN(start) < 1 << 60)
        return [the_graph(E, st, E.ty(f['params'][0]['t']).e), start], None, Ctx(start=start)
    return go
def post(arr, num, what):
    def go(E, st, out, ctx):
        if isinstance(out, (Thrown, Exited)): E.oblige(st, 'the search answers', False, 'post'); return
        r = E.val(st, out); i = z3.Int('iq')
        E.oblige(st, what + ': as many as the search has', zi(r.n) == num(ctx.start), 'post')
        E.oblige(st, what + ': exactly those of the search from the start vertex', z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < num(ctx.start)), r.a[i] == arr(ctx.start)[i])), 'post')
    return go
PROOFS = [Proof('depth_first_search', unit, NS + 'depth_first_search', setup('depth_first_search'), post(DN, lambda s: VN, 'vertices listed'), config=CFG),
          Proof('back_edges', unit, NS + 'back_edges', setup('back_edges'), post(BE, BN, 'back edges'), config=CFG)]
REPLAY = [dict(src='graph.cpp', repo=['sdfg/src/graph/graph.cpp'])]
ASSUME = graphs.ASSUME + ['boost::depth_first_search with all-white colours discovers every vertex once, the start vertex first, and reports exactly the edges to open vertices as back edges (its documented contract; the campaign runs the real one and checks the result against the definition)']
