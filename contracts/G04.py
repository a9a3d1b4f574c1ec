"""G04: strongly_connected_components and weakly_connected_components."""
import z3
from ccv.values import *
from ccv.prove import Proof, Ctx
from ccv import frontend, kit, engine, stl
from contracts import graphs, G05
from contracts.graphs import *
NS = 'sdfg::graph::'
SCC = z3.Function('strong_component', I, I); SN = z3.Int('num_strong')
UCC = z3.Function('component_of_view', I, I); UN = z3.Int('num_components_of_view')
def b_components(lab, num, want_u, nm):
    def go(E, s, a, this, node):
        """boost's component algorithms: label every vertex 0..n-1 by component and return n"""
        g = GS(E, s, a[0])
        if g.u != want_u or g.rev or g.xv is not False: raise Unsupported(nm + ' of this graph')
        vs = [E.val(s, x) for x in a[1:]]
        need_index(E, s, g, named(vs, 'index'))
        m = vs[0]
        if not (isinstance(m, Opaque) and m.tn == 'apm'): raise Unsupported(nm + ' into this map')
        l = m.data['loc']; old = E.read(s, l); k = z3.Int('kc')
        need(E, s, 'the component map is empty', z3.ForAll([k], z3.Not(old.dom[k])))
        n = E.havoc_value(s, old, None, 'components')
        s.assume(FA([k], n.dom[k] == g.isv(k), n.dom[k]), FA([k], z3.Implies(g.isv(k), n.val[k] == lab(k)), n.val[k]), zi(n.size) == g.VN)
        E.write(s, l, n); s.writes = s.writes | {(l.root, ())}
        yield s, num
    return go
graphs.TABLE.update({'boost::strong_components': b_components(SCC, SN, False, 'strong_components'), 'boost::connected_components': b_components(UCC, UN, True, 'connected_components')})

def und(E, s, a, this, node):
    """undirected()'s contract (proved in G05)"""
    plain(GS(E, s, a[0]), 'undirected')
    if 'un' in s.ghost: raise Unsupported('a second undirected view')
    t = E.ty(node['t'])
    ks = z3.Int('ku')
    sp = E.alloc(s, t.args[0].args[0], Opaque(t.args[0].args[0].key(), {'term': z3.Const('ugraph', E.c.sort(t.args[0].args[0]))}))
    ms = []
    for i in (1, 2):
        f = []; ms.append(E.c.fresh(t.args[i], 'mapping%d' % i, f)); s.assume(*f)
    m, r = ms
    s.assume(zi(m.size) == VN, zi(r.size) == VN, FA([ks], m.dom[ks] == ISV(ks), m.dom[ks]), FA([ks], r.dom[ks] == isu(ks, VN), r.dom[ks]),
             FA([ks], z3.Implies(ISV(ks), z3.And(isu(m.val[ks], VN), r.val[m.val[ks]] == ks)), m.val[ks]),
             FA([ks], z3.Implies(isu(ks, VN), z3.And(ISV(r.val[ks]), m.val[r.val[ks]] == ks)), r.val[ks]))
    s.ghost.update(un=VN, M=m.val, RM=r.val)
    yield s, StructV('tuple', {'_0': sp, '_1': m, '_2': r})

def setup(fn):
    def go(E, st):
        f = E.u.fn(NS + fn)
        k = z3.Int('k')
        st.assume(*graph_axioms()); st.assume(*uv_axioms())
        # the count is returned as an int
        st.assume(VN < 1 << 31, SN >= 0, SN <= VN, UN >= 0, UN <= VN, FA([k], z3.And(SCC(k) >= 0, SCC(k) <= W64), SCC(k)), FA([k], z3.And(UCC(k) >= 0, UCC(k) <= W64), UCC(k)))
        return [the_graph(E, st, E.ty(f['params'][0]['t']).e)], None, Ctx()
    return go
def inv(view):
    E = view.eng
    specs = [('index of each vertex', lambda w, k, p: z3.And(ISV(k), VPOS(k) < p), lambda w, k: VPOS(k)),
             ('index of each vertex of the view', lambda w, k, p: isu(k, p), lambda w, k: UPOS(k))]
    # along another map: keys are images of its keys, in iteration order
    for r, x in view.entry.store.items():
        if isinstance(x, MapV) and (r, ()) not in view.mods and 'M' in view.entry.ghost:
            ix = order_of(view, x.dom)
            if ix is None: continue
            M = view.entry.ghost['M']
            specs.append(('label of each vertex', lambda w, k, p, ix=ix, M=M: z3.And(ISV(k), ix(M[k]) < p), lambda w, k, M=M: UCC(M[k])))
    return built(view, specs) + same_pos(view)
def post(num, lab):
    def go(E, st, out, ctx):
        if isinstance(out, (Thrown, Exited)): E.oblige(st, 'the labelling is returned', False, 'post'); return
        r = E.val(st, out); n = zi(E.val(st, r.f['first'])); m = E.val(st, r.f['second']); k = z3.Int('kq')
        E.oblige(st, 'the reported count is the number of components', n == num, 'post')
        E.oblige(st, 'exactly the vertices are labelled', z3.ForAll([k], m.dom[k] == ISV(k)), 'post')
        L = lab(st)
        E.oblige(st, 'every vertex has the label of its component', z3.ForAll([k], z3.Implies(ISV(k), m.val[k] == L(k))), 'post')
    return go
cfg = dict(CFG, loopinv=inv, models={NS + 'undirected': und})
PROOFS = [Proof('strongly_connected_components', unit, NS + 'strongly_connected_components', setup('strongly_connected_components'), post(SN, lambda st: SCC), config=cfg),
          Proof('weakly_connected_components', unit, NS + 'weakly_connected_components', setup('weakly_connected_components'), post(UN, lambda st: (lambda k: UCC(st.ghost['M'][k]))), config=cfg)]
PROOFS += [p for p in G05.PROOFS if p.name == 'undirected']
REPLAY = [dict(src='graph.cpp', repo=['sdfg/src/graph/graph.cpp'])]
ASSUME = graphs.ASSUME + ['boost::strong_components and boost::connected_components give two vertices the same label exactly when each reaches the other (when connected), with labels 0..n-1 all used (documented contracts; the campaign runs the real ones)',
                          'the graph has fewer than 2^31 vertices (the count is returned as an int)',
                          'weak connectivity in the graph is connectivity of the images in the undirected view (edges of the view are exactly the images, G05)']
BUDGET = 300
