"""G05: undirected() and reverse()."""
import z3
from ccv.values import *
from ccv.prove import Proof, Ctx
from ccv import frontend, kit, engine, stl
from contracts import graphs
from contracts.graphs import *
NS = 'sdfg::graph::'
def setup(fn):
    def go(E, st):
        f = E.u.fn(NS + fn)
        st.assume(*graph_axioms()); st.assume(*uv_axioms())
        return [the_graph(E, st, E.ty(f['params'][0]['t']).e)], None, Ctx()
    return go
FWD = ('vertex to image', lambda w, k, p: z3.And(ISV(k), VPOS(k) < p), lambda w, k: UV[VPOS(k)])
BWD = ('image to vertex', lambda w, k, p: isu(k, p), lambda w, k: VS[UPOS(k)])
def edge_at(g, i):
    e = ES[i]; a, b = UV[VPOS(SRC(e))], UV[VPOS(TGT(e))]; x, y = g['ues'][i], g['uet'][i]
    return z3.Or(z3.And(x == a, y == b), z3.And(x == b, y == a))
def inv(view):
    out = built(view, [FWD, BWD]) + same_pos(view); j = z3.Int('je')
    for p in progress(view):
        out.append(('one new vertex per step', lambda w, p=p: zi(w.st.ghost['un']) == zi(w.entry.ghost['un']) + p(w)))
        out.append(('one new edge per step', lambda w, p=p: zi(w.st.ghost['uen']) == zi(w.entry.ghost['uen']) + p(w)))
        out.append(('the new edges connect the images', lambda w, p=p: FA([j], z3.Implies(z3.And(j >= 0, j < p(w)), edge_at(w.st.ghost, j)), w.st.ghost['ues'][j])))
    return out
def post_und(E, st, out, ctx):
    if isinstance(out, (Thrown, Exited)): E.oblige(st, 'the view is made', False, 'post'); return
    t = E.val(st, out); k = z3.Int('kq'); g = st.ghost
    m, r = E.val(st, t.f['_1']), E.val(st, t.f['_2'])
    sp = E.val(st, t.f['_0'])
    E.oblige(st, 'a graph is returned', zi(sp.addr) != 0, 'post')
    E.oblige(st, 'one new vertex per vertex', zi(g['un']) == VN, 'post')
    E.oblige(st, 'one new edge per edge', zi(g['uen']) == EN, 'post')
    E.oblige(st, 'the mapping covers exactly the vertices', z3.And(zi(m.size) == VN, z3.ForAll([k], m.dom[k] == ISV(k))), 'post')
    E.oblige(st, 'every vertex is mapped to a vertex of the view', z3.ForAll([k], z3.Implies(ISV(k), isu(m.val[k], VN))), 'post')
    E.oblige(st, 'the reverse mapping covers exactly the vertices of the view', z3.And(zi(r.size) == VN, z3.ForAll([k], r.dom[k] == isu(k, VN))), 'post')
    E.oblige(st, 'the mappings are inverse to each other', z3.ForAll([k], z3.And(z3.Implies(ISV(k), r.val[m.val[k]] == k), z3.Implies(isu(k, VN), m.val[r.val[k]] == k))), 'post')
    i = z3.Int('ie'); e = ES[i]; a, b = m.val[SRC(e)], m.val[TGT(e)]; x, y = g['ues'][i], g['uet'][i]
    E.oblige(st, 'each edge has its image', z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < EN), z3.Or(z3.And(x == a, y == b), z3.And(x == b, y == a)))), 'post')
def post_rev(E, st, out, ctx):
    if isinstance(out, (Thrown, Exited)): E.oblige(st, 'the view is made', False, 'post'); return
    v = E.val(st, out)
    ok = isinstance(v, Opaque) and v.tn == 'reversed' and isinstance(v.data['of'], Loc) and v.data['of'].root == ('o', 'graph')
    E.oblige(st, 'the view is the reverse of the given graph itself', ok, 'post')
cfg = dict(CFG, loopinv=inv)
PROOFS = [Proof('undirected', unit, NS + 'undirected', setup('undirected'), post_und, config=cfg),
          Proof('reverse', unit, NS + 'reverse', setup('reverse'), post_rev, config=cfg)]
REPLAY = [dict(src='graph.cpp', repo=['sdfg/src/graph/graph.cpp'])]
ASSUME = graphs.ASSUME + ['boost::reverse_graph is the reverse of the graph it is built over (its documented contract; the campaign runs the real one)']
BUDGET = 300
