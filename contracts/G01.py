"""G01: topological_sort and is_acyclic over boost's assumed contract."""
import z3
from ccv.values import *
from ccv.prove import Proof, Ctx
from ccv import frontend, kit, engine, stl
from contracts import graphs
from contracts.graphs import *
NS = 'sdfg::graph::'
CYCLIC = z3.Bool('graph_has_a_cycle')
RT = z3.Const('boost_order', A(I, I)); RPOS = z3.Function('boost_pos', I, I)
def axioms():
    i, v, e = z3.Ints('i v e')
    return graph_axioms() + [z3.Implies(z3.Not(CYCLIC), z3.And(
        FA([i], z3.Implies(z3.And(i >= 0, i < VN), z3.And(ISV(RT[i]), RPOS(RT[i]) == i)), RT[i]),
        FA([v], z3.Implies(ISV(v), z3.And(RPOS(v) >= 0, RPOS(v) < VN, RT[RPOS(v)] == v)), ISV(v)),
        FA([e], z3.Implies(ISE(e), RPOS(TGT(e)) < RPOS(SRC(e))), ISE(e))))]
def b_topo(E, s, a, this, node):
    """boost::topological_sort: puts the vertices out in reverse topological order; not_a_dag if there is a cycle"""
    plain(GS(E, s, a[0]), 'topological_sort')
    vs = [E.val(s, x) for x in a[1:]]
    color = named(vs, 'color')
    if color is None: raise Unsupported('topological_sort without a colour map')
    need_white(E, s, color)
    ins = vs[0]
    if not isinstance(ins, Opaque) or ins.tn not in ('back_inserter', 'front_inserter'): raise Unsupported('output iterator of topological_sort')
    l = ins.data['loc']; v = E.read(s, l)
    bad = s.copy(); bad.assume(CYCLIC)
    if E.sat(bad):
        E.write(bad, l, E.havoc_value(bad, v, None, 'partial_order')); bad.writes = bad.writes | {(l.root, ())}
        yield bad, Thrown('boost::not_a_dag', None, E.line)
    s.assume(z3.Not(CYCLIC))
    j = z3.Int(fresh_name('j')); n = zi(v.n)
    if ins.tn == 'back_inserter': na = z3.Lambda([j], z3.If(j < n, v.a[j], RT[j - n]))
    else: na = z3.Lambda([j], z3.If(j < VN, RT[VN - 1 - j], v.a[j - VN]))
    E.write(s, l, VecV(v.et, na, n + VN)); s.writes = s.writes | {(l.root, ())}
    yield s, VOID
def inserter(kind):
    def f(E, s, a, this, node): yield s, Opaque(kind, {'loc': a[0]})
    return f
graphs.TABLE.update({'boost::topological_sort': b_topo, 'std::front_inserter': inserter('front_inserter'), 'std::back_inserter': inserter('back_inserter')})

def setup(fn):
    def go(E, st):
        f = E.u.fn(NS + fn)
        st.assume(*axioms())
        return [the_graph(E, st, E.ty(f['params'][0]['t']).e)], None, Ctx()
    return go
def post_topo(E, st, out, ctx):
    if isinstance(out, Thrown):
        E.oblige(st, 'an acyclic graph has an order', CYCLIC, 'post')
        E.oblige(st, 'the failure is the one is_acyclic expects', out.tn == 'boost::not_a_dag', 'post'); return
    r = E.val(st, out); i, v, e = z3.Ints('iq vq eq')
    E.oblige(st, 'a cyclic graph has no order', z3.Not(CYCLIC), 'post')
    E.oblige(st, 'the order has as many entries as the graph has vertices', zi(r.n) == VN, 'post')
    E.oblige(st, 'every entry is a vertex', z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < VN), ISV(r.a[i]))), 'post')
    # position in the returned order, given by the reverse of boost's
    pos = lambda v: VN - 1 - RPOS(v)
    E.oblige(st, 'every vertex is listed', z3.ForAll([v], z3.Implies(ISV(v), z3.And(pos(v) >= 0, pos(v) < VN, r.a[pos(v)] == v))), 'post')
    E.oblige(st, 'no vertex is listed twice', z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < VN), pos(r.a[i]) == i)), 'post')
    E.oblige(st, 'the source of every edge comes before its target', z3.ForAll([e], z3.Implies(ISE(e), pos(SRC(e)) < pos(TGT(e)))), 'post')
def post_acyclic(E, st, out, ctx):
    if isinstance(out, (Thrown, Exited)): E.oblige(st, 'the test answers', False, 'post'); return
    E.oblige(st, 'the answer is true exactly for acyclic graphs', zb(E.boolean(E.val(st, out))) == z3.Not(CYCLIC), 'post')

PROOFS = [Proof('topological_sort', unit, NS + 'topological_sort', setup('topological_sort'), post_topo, covers=('return', 'throw'), config=CFG),
          Proof('is_acyclic', unit, NS + 'is_acyclic', setup('is_acyclic'), post_acyclic, config=CFG)]
REPLAY = [dict(src='graph.cpp', repo=['sdfg/src/graph/graph.cpp'])]
ASSUME = graphs.ASSUME + ['boost::topological_sort puts out every vertex once with the target of each edge before its source, and throws not_a_dag exactly for cyclic graphs (its documented contract; the campaign runs the real one)']
