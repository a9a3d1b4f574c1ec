"""G02: dominator_tree and post_dominator_tree over the assumed contract of boost's Lengauer-Tarjan."""
import z3
from ccv.values import *
from ccv.prove import Proof, Ctx
from ccv import frontend, kit, engine, stl
from contracts import graphs
from contracts.graphs import *
NS = 'sdfg::graph::'
MAXI = (1 << 64) - 1
IDOM = z3.Function('idom', I, I, I)            # (entry, vertex) in the graph; null: none
PDOM1 = z3.Function('idom_reversed', I, I, I)  # in the reversed graph
PDOMX = z3.Function('idom_reversed_synthetic', I, I)   # in the reversed graph with one synthetic exit behind all exits
def isexit(v): return z3.And(ISV(v), DEG(v) == 0)

def whole(E, s, m, g, what, fill):
    """a property map over a vector with one slot per index, all slots holding `fill`"""
    if not (isinstance(m, Opaque) and m.tn == 'ipm'): raise Unsupported('map of lengauer_tarjan')
    v = E.read(s, m.data['vec'])
    slots(E, s, v, g, what, fill)
    return m.data['vec']
def slots(E, s, v, g, what, fill):
    i = z3.Int('is')
    need(E, s, what + ' has one slot per vertex', zi(v.n) >= g.VN)
    need(E, s, what + ' masks the vertices not reached', z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < zi(v.n)), v.a[i] == fill)))
def b_lt(E, s, a, this, node):
    """boost::lengauer_tarjan_dominator_tree: requires an index map, unreachable vertices masked in the depth-first numbers (max),
    parents (null), vertex list (null); writes the immediate dominator of every vertex reachable from src into the predecessor map"""
    g = GS(E, s, a[0])
    if g.u: raise Unsupported('lengauer_tarjan of this graph')
    src = zi(E.val(s, a[1]))
    need(E, s, 'the entry is a vertex of the graph', g.isv(src))
    idx = E.val(s, a[2]); mv = need_index(E, s, g, idx)
    df, par, dom = [E.val(s, a[i]) for i in (3, 4, 6)]
    ld = whole(E, s, df, g, 'the depth-first numbering', MAXI); lp = whole(E, s, par, g, 'the parent map', 0)
    if not isinstance(a[5], Loc): raise Unsupported('vertex list of lengauer_tarjan')
    vv = E.read(s, a[5]); slots(E, s, vv, g, 'the vertex list', 0)
    lt = whole(E, s, dom, g, 'the dominator map', 0)
    if len({str(x.root) + str(x.path) for x in (ld, lp, a[5], lt)}) != 4: raise Unsupported('shared vectors')
    for m in (df, par, dom):
        if m.data['idx'].root != idx.data['loc'].root: raise Unsupported('another index map')
    if g.rev and g.xv is True:
        k = z3.Int('kx')
        need(E, s, 'the search starts at the synthetic exit', src == X)
        need(E, s, 'exactly the exits lead to the synthetic exit', z3.ForAll([k], s.ghost['xe'][k] == isexit(k)))
        res = lambda v: PDOMX(v)
    elif g.rev:
        k = z3.Int('kx')
        need(E, s, 'the search starts at the only exit', z3.And(isexit(src), z3.ForAll([k], z3.Implies(isexit(k), k == src))))
        res = lambda v: PDOM1(src, v)
    elif g.xv is False: res = lambda v: IDOM(src, v)
    else: raise Unsupported('dominators with a synthetic vertex')
    for l in (ld, lp, a[5]):
        v = E.read(s, l); n = E.havoc_value(s, v, None, 'lt'); E.write(s, l, VecV(v.et, n.a, v.n)); s.writes = s.writes | {(l.root, ())}
    v = E.read(s, lt); na = z3.Const(fresh_name('domtree'), v.a.sort()); k = z3.Int('kd')
    s.assume(FA([k], z3.Implies(g.isv(k), na[mv.val[k]] == res(k)), mv.val[k]))
    E.write(s, lt, VecV(v.et, na, v.n)); s.writes = s.writes | {(lt.root, ())}
    yield s, VOID
graphs.TABLE['boost::lengauer_tarjan_dominator_tree'] = b_lt

def base(E, st):
    k, e = z3.Ints('k e')
    st.assume(*graph_axioms()); st.assume(z3.Not(ISV(X)), X > 0, X <= MAXI)
    st.assume(FA([k, e], z3.Implies(ISV(k), z3.And(z3.Or(ISV(IDOM(e, k)), IDOM(e, k) == 0))), IDOM(e, k)),
              FA([k, e], z3.Implies(ISV(k), z3.And(z3.Or(ISV(PDOM1(e, k)), PDOM1(e, k) == 0))), PDOM1(e, k)),
              FA([k], z3.And(z3.Or(ISV(PDOMX(k)), PDOMX(k) == 0, PDOMX(k) == X)), PDOMX(k)))
def setup_dom(E, st):
    f = E.u.fn(NS + 'dominator_tree'); base(E, st)
    src = z3.Int('entry'); st.assume(ISV(src))
    return [the_graph(E, st, E.ty(f['params'][0]['t']).e), src], None, Ctx(src=src)
def setup_pdom(E, st):
    f = E.u.fn(NS + 'post_dominator_tree'); base(E, st)
    ex = z3.Int('some_exit'); st.assume(isexit(ex))       # the analysis needs an exit
    st.ghost['xv'] = False; st.ghost['xe'] = z3.K(I, z3.BoolVal(False))
    return [the_graph(E, st, E.ty(f['params'][0]['t']).e)], None, Ctx(ex=ex)
def post_dom(E, st, out, ctx):
    if isinstance(out, (Thrown, Exited)): E.oblige(st, 'the tree is returned', False, 'post'); return
    m = E.val(st, out); k = z3.Int('kq')
    E.oblige(st, 'the result covers exactly the vertices', z3.ForAll([k], m.dom[k] == ISV(k)), 'post')
    E.oblige(st, 'every vertex has its immediate dominator', z3.ForAll([k], z3.Implies(ISV(k), m.val[k] == IDOM(ctx.src, k))), 'post')
def post_pdom(E, st, out, ctx):
    if isinstance(out, (Thrown, Exited)): E.oblige(st, 'the tree is returned', False, 'post'); return
    m = E.val(st, out); k, j = z3.Ints('kq jq')
    E.oblige(st, 'no vertex was added to the graph for good', st.ghost['xv'] is False, 'post')
    E.oblige(st, 'no edge was added to the graph for good', st.ghost['xe'] == z3.K(I, z3.BoolVal(False)), 'post')
    E.oblige(st, 'the result covers exactly the vertices', z3.ForAll([k], m.dom[k] == ISV(k)), 'post')
    single = z3.ForAll([j], z3.Implies(isexit(j), j == ctx.ex))
    E.oblige(st, 'with one exit: every vertex has its immediate post-dominator', z3.Implies(single, z3.ForAll([k], z3.Implies(ISV(k), m.val[k] == PDOM1(ctx.ex, k)))), 'post')
    E.oblige(st, 'with several exits: every vertex has its immediate post-dominator, none where only the synthetic exit is', z3.Implies(z3.Not(single), z3.ForAll([k], z3.Implies(ISV(k), m.val[k] == z3.If(PDOMX(k) == X, 0, PDOMX(k))))), 'post')

def inv(view):
    import os
    E = view.eng; out = []
    gx = view.entry.ghost.get('xv')
    isv = (lambda k: z3.Or(ISV(k), k == X)) if gx is True else ISV
    pos = (lambda k: z3.If(k == X, VN, VPOS(k))) if gx is True else VPOS
    specs = [('index of each vertex', lambda w, k, p: z3.And(isv(k), pos(k) < p), lambda w, k: pos(k)),
             ('the exits', lambda w, k, p: z3.And(isexit(k), VPOS(k) < p), None)]
    vecs = [r for r, x in view.entry.store.items() if isinstance(x, VecV) and x.a.sort() == A(I, I) and (r, ()) not in view.mods and r[0] == 'v']
    P = progress(view)
    for r, x in view.entry.store.items():
        if isinstance(x, (MapV, SetV)):
            ix = order_of(view, x.dom)
            if ix is None: continue
            if (r, ()) not in view.mods and isinstance(x, MapV):
                if view.node['k'] == 'forrange': specs = [t for t in specs if t[0] != 'index of each vertex']     # a range over the map
                specs.append(('dominator of each vertex', lambda w, k, p, ix=ix, x=x: z3.And(x.dom[k], ix(k) < p), [lambda w, k, x=x, rv=rv: w.entry.store[rv].a[x.val[k]] for rv in vecs]))
            if (r, ()) in view.mods and isinstance(x, MapV):
                k = z3.Int('km')
                for p in P:
                    out.append(('the synthetic vertex is replaced by none so far', lambda w, r=r, x=x, ix=ix, p=p: FA([k], z3.Implies(x.dom[k], w.st.store[r].val[k] == z3.If(z3.And(ix(k) < p(w), x.val[k] == X), 0, x.val[k])), w.st.store[r].val[k])))
            if isinstance(x, SetV) and gx is True and (r, ()) not in view.mods:
                k = z3.Int('km')
                for p in P:
                    out.append(('the exits so far lead to the synthetic exit', lambda w, x=x, ix=ix, p=p: FA([k], w.st.ghost['xe'][k] == z3.And(x.dom[k], ix(k) < p(w)), w.st.ghost['xe'][k])))
    for r in setvars(view):
        for p in P: out.append(('an exit passed is in the set', lambda w, r=r, p=p: zi(w.st.store[r].size) >= z3.If(VPOS(z3.Int('some_exit')) < p(w), 1, 0)))
    return out + built(view, specs) + same_pos(view)
cfg = dict(CFG, loopinv=inv)
PROOFS = [Proof('dominator_tree', unit, NS + 'dominator_tree', setup_dom, post_dom, config=cfg),
          Proof('post_dominator_tree', unit, NS + 'post_dominator_tree', setup_pdom, post_pdom, config=cfg)]
BUDGET = 400
REPLAY = [dict(src='graph.cpp', repo=['sdfg/src/graph/graph.cpp'])]
ASSUME = graphs.ASSUME + ['boost::lengauer_tarjan_dominator_tree computes the immediate dominator of every vertex reachable from the entry and leaves the others alone, if the vertices not reached are masked as it requires (its documented contract; the campaign runs the real one)',
                          'post-dominators with several exits are the dominators in the reversed graph with one synthetic exit behind all of them (the definition used by the specification)']
