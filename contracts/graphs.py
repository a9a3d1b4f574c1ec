"""Shared contracts of the graph algorithms (sdfg/src/graph/graph.cpp).

Abstraction, stated once: vertex and edge descriptors are identities (integers; null_vertex is 0). A graph is the
sequence of its vertices, the sequence of its edges, source and target of an edge, and the out-edge list of a vertex.
The boost calls below are assumed to do what boost documents; each is one contract here."""
import z3
from ccv.values import *
from ccv.prove import Proof, Ctx
from ccv import frontend, kit, engine, stl

DESC = ('boost::detail::edge_desc_impl',)
def unit():
    u = frontend.load('sdfg/src/graph/graph.cpp')
    if not getattr(u, 'descriptors_abstracted', False):
        # descriptors become integers
        for i, t in enumerate(u.types):
            if t['k'] == 'p' and u.types[t['e']].get('n') == 'void' or t['k'] == 'c' and t.get('n') in DESC:
                c = {'c': 1} if 'c' in t else {}
                t.clear(); t.update(k='b', n='unsigned long', w=64, s=0, **c)
        u.descriptors_abstracted = True
    return u

def A(*s):
    f = s[-1]
    for x in reversed(s[:-1]): f = z3.ArraySort(x, f)
    return f
SRC = z3.Function('src', I, I); TGT = z3.Function('tgt', I, I)
ISV = z3.Function('is_vertex', I, B); ISE = z3.Function('is_edge', I, B)
VS = z3.Const('vertices', A(I, I)); VN = z3.Int('num_vertices'); VPOS = z3.Function('vertex_pos', I, I)
ES = z3.Const('edges', A(I, I)); EN = z3.Int('num_edges'); EPOS = z3.Function('edge_pos', I, I)
OUT = z3.Function('out_edges', I, A(I, I)); DEG = z3.Function('out_degree', I, I); POS = z3.Function('out_pos', I, I)
NULLV = z3.IntVal(0)
W64 = (1 << 64) - 1

def FA(xs, body, *pats):
    if pats:
        try: return z3.ForAll(xs, body, patterns=list(pats))
        except z3.Z3Exception: pass                    # e.g. a conditional in the pattern
    return z3.ForAll(xs, body)

def graph_axioms():
    """an arbitrary finite directed multigraph: what boost::adjacency_list guarantees about its own lists"""
    i, e, v = z3.Ints('i e v')
    return [VN >= 0, EN >= 0, VN < 1 << 60, EN < 1 << 60, z3.Not(ISV(NULLV)),
            FA([i], z3.Implies(z3.And(i >= 0, i < VN), z3.And(ISV(VS[i]), VPOS(VS[i]) == i)), VS[i]),
            FA([v], z3.Implies(ISV(v), z3.And(v > 0, v <= W64, VPOS(v) >= 0, VPOS(v) < VN, VS[VPOS(v)] == v)), ISV(v)),
            FA([i], z3.Implies(z3.And(i >= 0, i < EN), z3.And(ISE(ES[i]), EPOS(ES[i]) == i)), ES[i]),
            FA([e], z3.Implies(ISE(e), z3.And(e > 0, e <= W64, EPOS(e) >= 0, EPOS(e) < EN, ES[EPOS(e)] == e, ISV(SRC(e)), ISV(TGT(e)))), ISE(e)),
            FA([v], z3.And(DEG(v) >= 0, DEG(v) <= EN), DEG(v)),
            FA([v, i], z3.Implies(z3.And(ISV(v), i >= 0, i < DEG(v)), z3.And(ISE(OUT(v)[i]), SRC(OUT(v)[i]) == v, POS(OUT(v)[i]) == i)), OUT(v)[i]),
            FA([e], z3.Implies(ISE(e), z3.And(POS(e) >= 0, POS(e) < DEG(SRC(e)), OUT(SRC(e))[POS(e)] == e)), ISE(e))]

def intty(E):
    for i, t in enumerate(E.u.types):
        if t.get('k') == 'b' and t.get('w') == 64 and not t.get('s'): return E.ty(i)

def seq(E, s, arr, n, name):
    """a pair of iterators over a list that stands in the graph"""
    r = ('o', fresh_name(name)); s.store[r] = VecV(intty(E), arr, n); s.types[r] = None
    return Loc(r)
def pair_of(E, s, loc, n): return StructV('pair', {'first': IterV('vec', loc, pos=0), 'second': IterV('vec', loc, pos=n)})

X = z3.Int('synthetic_vertex')                     # the vertex a later add_vertex(graph) returns: new, not null
UV = z3.Const('new_vertices', A(I, I)); UPOS = z3.Function('new_vertex_pos', I, I)   # the vertices add_vertex(undirected) returns, in order
def uv_axioms():
    i = z3.Int('i')
    return [FA([i], z3.Implies(i >= 0, z3.And(UPOS(UV[i]) == i, UV[i] > 0, UV[i] <= W64)), UV[i])]
def isu(x, n): return z3.And(UPOS(x) >= 0, UPOS(x) < n, UV[UPOS(x)] == x)

class GS:
    """the graph an operation sees: kind 'g' (the graph, possibly with the synthetic vertex added), 'r' (its reverse), 'u' (undirected)"""
    def __init__(self, E, s, l):
        v = E.read(s, l) if isinstance(l, Loc) else l
        if not isinstance(v, Opaque): raise Unsupported('a graph of unknown origin')
        self.rev = v.tn == 'reversed'
        if self.rev: l = v.data['of']
        self.u = 'undirectedS' in v.tn
        if not self.u and not (isinstance(l, Loc) and l.root == ('o', 'graph')): raise Unsupported('a copy of the graph')
        self.xv = s.ghost.get('xv', False)
        self.s = s
        if self.u:
            if 'un' not in s.ghost: raise Unsupported('an undirected graph of unknown origin')
            self.VS, self.VN = UV, zi(s.ghost['un']); self.isv = lambda v: isu(v, self.VN); self.pos = UPOS
        elif self.xv is True:
            self.VS, self.VN = z3.Store(VS, VN, X), VN + 1
            self.isv = lambda v: z3.Or(ISV(v), v == X); self.pos = lambda v: z3.If(v == X, VN, VPOS(v))
        elif self.xv is False:
            self.VS, self.VN = VS, VN; self.isv = ISV; self.pos = VPOS
        else: raise Unsupported('a graph whose vertices depend on the path taken')

def need(E, s, what, c): E.oblige(s, what, c, 'pre')
def plain(g, what):
    if g.u or g.rev or g.xv is not False: raise Unsupported(what + ' of this graph')
def g_source(E, s, a, this, node): plain(GS(E, s, a[1]), 'source'); yield s, SRC(zi(E.val(s, a[0])))
def g_target(E, s, a, this, node): plain(GS(E, s, a[1]), 'target'); yield s, TGT(zi(E.val(s, a[0])))
def g_out_edges(E, s, a, this, node):
    plain(GS(E, s, a[1]), 'out_edges')
    v = zi(E.val(s, a[0])); need(E, s, 'out_edges is asked about a vertex of the graph', ISV(v))
    yield s, pair_of(E, s, seq(E, s, OUT(v), DEG(v), 'outs'), DEG(v))
def g_out_degree(E, s, a, this, node):
    plain(GS(E, s, a[1]), 'out_degree')
    v = zi(E.val(s, a[0])); need(E, s, 'out_degree is asked about a vertex of the graph', ISV(v)); yield s, DEG(v)
def g_vertices(E, s, a, this, node): g = GS(E, s, a[0]); yield s, pair_of(E, s, seq(E, s, g.VS, g.VN, 'verts'), g.VN)
def g_edges(E, s, a, this, node): plain(GS(E, s, a[0]), 'edges'); yield s, pair_of(E, s, seq(E, s, ES, EN, 'edges'), EN)
def g_num_vertices(E, s, a, this, node): yield s, GS(E, s, a[0]).VN
def g_num_edges(E, s, a, this, node): plain(GS(E, s, a[0]), 'num_edges'); yield s, EN
def g_null(E, s, a, this, node): yield s, 0
def g_tie(E, s, a, this, node): yield s, Opaque('tie', {'locs': list(a)})
def g_tie_assign(E, s, a, this, node):
    p = E.val(s, a[0]); t = E.read(s, this)
    for l, k in zip(t.data['locs'], ('first', 'second')):
        v = p.f[k]; v = E.val(s, v)
        E.write(s, l, v); s.writes = s.writes | {(l.root, ())}
    yield s, this
def g_subrange(E, s, a, this, node):
    b, e = [E.val(s, x) for x in a[:2]] if len(a) >= 2 else [E.val(s, x) for x in E.val(s, a[0]).f.values()]
    if not (isinstance(b, IterV) and isinstance(e, IterV) and b.loc is not None and b.loc.root == e.loc.root and conc(b.pos) == 0): raise Unsupported('a range over part of a list')
    v = E.read(s, b.loc)
    if not zi(e.pos).eq(zi(v.n)): raise Unsupported('a range over part of a list')
    yield s, v
def g_reverse(E, s, a, this, node): yield s, Opaque('reversed', {'of': a[0]})

# ---- changes
def g_add_vertex(E, s, a, this, node):
    g = GS(E, s, a[0])
    if g.u:
        v = UV[zi(s.ghost['un'])]; s.ghost['un'] = zi(s.ghost['un']) + 1; yield s, v; return
    if g.rev or g.xv is not False: raise Unsupported('a second vertex added to the graph')
    s.ghost['xv'] = True; s.ghost['xe'] = z3.K(I, z3.BoolVal(False))
    yield s, X
def g_add_edge(E, s, a, this, node):
    g = GS(E, s, a[2]); u, v = zi(E.val(s, a[0])), zi(E.val(s, a[1]))
    need(E, s, 'edges are added between vertices of the graph', z3.And(g.isv(u), g.isv(v)))
    r = StructV('pair', {'first': z3.Int(fresh_name('edge')), 'second': True})
    if g.u:
        n = zi(s.ghost['uen']); s.ghost['ues'] = asto(s.ghost['ues'], n, u); s.ghost['uet'] = asto(s.ghost['uet'], n, v); s.ghost['uen'] = n + 1
        yield s, r; return
    if g.xv is not True or not E.sat(s, v == X) or E.sat(s, v != X): raise Unsupported('an edge added to the graph')
    need(E, s, 'only edges from vertices of the original graph lead to the synthetic vertex, one each', z3.And(ISV(u), z3.Not(s.ghost['xe'][u])))
    s.ghost['xe'] = z3.Store(s.ghost['xe'], u, True)
    yield s, r
def g_clear_vertex(E, s, a, this, node):
    g = GS(E, s, a[1]); v = zi(E.val(s, a[0]))
    if g.u or g.rev or g.xv is not True: raise Unsupported('clear_vertex of this graph')
    need(E, s, 'only the synthetic vertex is taken out of the graph', v == X)
    s.ghost['xe'] = z3.K(I, z3.BoolVal(False)); yield s, VOID
def g_remove_vertex(E, s, a, this, node):
    g = GS(E, s, a[1]); v = zi(E.val(s, a[0]))
    if g.u or g.rev or g.xv is not True: raise Unsupported('remove_vertex of this graph')
    need(E, s, 'only the synthetic vertex is taken out of the graph', v == X)
    need(E, s, 'a vertex is removed only without edges', s.ghost['xe'] == z3.K(I, z3.BoolVal(False)))
    s.ghost['xv'] = False; yield s, VOID
def g_make_unique(E, s, a, this, node):
    t = E.ety(node)
    if a or 'undirectedS' not in t.key() or 'un' in s.ghost: raise Unsupported('make_unique')
    s.ghost.update(un=z3.IntVal(0), uen=z3.IntVal(0), ues=z3.Const('ues0', A(I, I)), uet=z3.Const('uet0', A(I, I)))
    yield s, E.alloc(s, t.args[0], Opaque(t.args[0].key(), {'term': z3.Const('ugraph', E.c.sort(t.args[0]))}))

# ---- property maps and named parameters
def g_apm(E, s, a, this, node):
    v = E.val(s, a[0])
    if isinstance(v, Opaque) and v.tn == 'apm': yield s, v; return
    if not isinstance(a[0], Loc): raise Unsupported('property map over a temporary')
    yield s, Opaque('apm', {'loc': a[0]})
def g_ipm(E, s, a, this, node):
    it, ix = E.val(s, a[0]), E.val(s, a[1])
    if not isinstance(it, IterV) or conc(it.pos) != 0 or not isinstance(ix, Opaque) or ix.tn != 'apm': raise Unsupported('iterator property map')
    yield s, Opaque('ipm', {'vec': it.loc, 'idx': ix.data['loc']})
def g_named(nm):
    def f(E, s, a, this, node): yield s, Opaque('named', {nm: E.val(s, a[0])})
    return f
def g_noparam(E, s, a, this, node): yield s, Opaque('noparam')
def g_put(E, s, a, this, node):
    m = E.val(s, a[0])
    if not isinstance(m, Opaque) or m.tn != 'apm': raise Unsupported('put into this property map')
    l = m.data['loc']; mv = E.read(s, l); k = zi(E.val(s, a[1])); v = zi(E.val(s, a[2]))
    E.write(s, l, MapV(mv.kt, mv.vt, asto(mv.dom, k, z3.BoolVal(True)), asto(mv.val, k, v), z3.If(mv.dom[k], zi(mv.size), zi(mv.size) + 1)))
    s.writes = s.writes | {(l.root, ())}
    yield s, VOID
def named(a, nm):
    for x in a:
        if isinstance(x, Opaque) and x.tn == 'named' and nm in x.data: return x.data[nm]
    return None
def need_index(E, s, g, m):
    """the index map numbers the vertices of the graph from 0 without gaps or repetition"""
    if m is None or m.tn != 'apm': raise Unsupported('no index map')
    mv = E.read(s, m.data['loc']); x, y = z3.Ints('xi yi')
    need(E, s, 'every vertex has an index in range', FA([x], z3.Implies(g.isv(x), z3.And(mv.dom[x], mv.val[x] >= 0, mv.val[x] < g.VN)), mv.val[x]))
    need(E, s, 'no two vertices share an index', z3.ForAll([x, y], z3.Implies(z3.And(g.isv(x), g.isv(y), x != y), mv.val[x] != mv.val[y])))
    return mv
def need_white(E, s, m):
    """default colours: an associative colour map without entries is white everywhere"""
    if not (isinstance(m, Opaque) and m.tn == 'apm'): raise Unsupported('no colour map')
    mv = E.read(s, m.data['loc']); x = z3.Int('xi')
    need(E, s, 'every vertex starts uncoloured', z3.ForAll([x], z3.Implies(mv.dom[x], mv.val[x] == 0)))
    E.write(s, m.data['loc'], E.havoc_value(s, mv, None, 'colours')); s.writes = s.writes | {(m.data['loc'].root, ())}

TABLE = {'boost::source': g_source, 'boost::target': g_target, 'boost::out_edges': g_out_edges, 'boost::out_degree': g_out_degree,
         'boost::vertices': g_vertices, 'boost::edges': g_edges, 'boost::num_vertices': g_num_vertices, 'boost::num_edges': g_num_edges,
         'boost::tuples::tie': g_tie, 'boost::tie': g_tie, 'boost::add_vertex': g_add_vertex, 'boost::add_edge': g_add_edge,
         'boost::clear_vertex': g_clear_vertex, 'boost::remove_vertex': g_remove_vertex, 'std::make_unique': g_make_unique,
         'boost::make_assoc_property_map': g_apm, 'boost::make_iterator_property_map': g_ipm, 'boost::put': g_put,
         'boost::vertex_index_map': g_named('index'), 'boost::color_map': g_named('color'), 'boost::make_iterator_range': g_subrange,
         'boost::make_reverse_graph': g_reverse}
def model_for(qn):
    b = qn.split('<')[0]
    r = TABLE.get(b)
    if r: return r
    if qn.endswith('::null_vertex') and qn.startswith('boost::graph_traits<'): return g_null
    if qn.endswith('::operator=') and qn.startswith('boost::tuples::tuple<'): return g_tie_assign
    if qn.endswith('::subrange') and b == 'std::ranges::subrange': return g_subrange
    if qn.endswith('::reverse_graph') and b == 'boost::reverse_graph': return g_reverse
    if qn.endswith('::associative_property_map'): return g_apm
    if qn.endswith('::no_parameter') or qn.endswith('::dfs_visitor') and b == 'boost::dfs_visitor' or qn.endswith('::null_visitor'): return g_noparam
    return None

# ---- loop invariants: maps built along a list or along another map
def progress(view):
    """how far a loop has come: positions of modified iterators, hidden range positions, counters"""
    out = []
    for r, x in view.entry.store.items():
        if r[0] != 'v': continue
        ks = [k[1] for k in view.mods if k[0] == r]
        if not ks: continue
        if isinstance(x, IterV) and x.pos is not None: out.append(lambda w, r=r: zi(w.st.store[r].pos))
        elif isinstance(r[1], str) and r[1].startswith('pos'): out.append(lambda w, r=r: zi(w.st.store[r]))
        elif isinstance(x, StructV) and x.tn in ('pair', 'std::pair'):
            for k, y in x.f.items():
                if isinstance(y, IterV) and y.pos is not None and any(not pre or pre[0] == ('f', k) for pre in ks): out.append(lambda w, r=r, k=k: zi(w.st.store[r].f[k].pos))
    if not out: out.append(lambda w: zi(w.k))
    return out
def same_pos(view):
    """counters and iterators that move in step"""
    P = progress(view); out = []
    for p in P: out.append(('one step at a time', lambda w, p=p: z3.And(p(w) == p(LoopAt(w)) + zi(w.k), p(w) <= z3.If(p(LoopAt(w)) > VN + 1, p(LoopAt(w)), VN + 1))))
    for p in P: out.append(('one step at a time', lambda w, p=p: z3.And(p(w) == p(LoopAt(w)) + zi(w.k), p(w) <= VN)))
    for r, n in view.ints(True):
        for p in P: out.append(('counters move in step', lambda w, r=r, p=p: zi(w.st.store[r]) - zi(w.entry.store[r]) == p(w) - p(LoopAt(w))))
    return out
class LoopAt:
    def __init__(self, w): self.st = w.entry; self.entry = w.entry; self.k = z3.IntVal(0)
def mapvars(view): return [r for r, x in view.entry.store.items() if isinstance(x, MapV) and (r, ()) in view.mods]
def setvars(view): return [r for r, x in view.entry.store.items() if isinstance(x, SetV) and (r, ()) in view.mods]
def built(view, specs):
    """candidates: the map holds f(key) for exactly the keys passed so far; specs: (name, isin(w, key, pos), value(w, key) or None)"""
    out = []; k = z3.Int('km')
    for r in mapvars(view) + setvars(view):
        if r in mapvars(view) and view.st.store[r].dom.eq(view.entry.store[r].dom): continue      # only values change
        for p in progress(view):
            for nm, isin, val in specs:
                if len(specs) > 2 and (val is None) != (r in setvars(view)): continue
                def dom(w, r=r, p=p, isin=isin):
                    m = w.st.store[r]; return FA([k], m.dom[k] == z3.Or(w.entry.store[r].dom[k], isin(w, k, p(w))), m.dom[k])
                out.append(('exactly the keys passed so far are entered (%s)' % nm, dom))
                for v1 in ([] if val is None or r not in mapvars(view) else val if isinstance(val, list) else [val]):
                    def vals(w, r=r, val=v1):
                        m = w.st.store[r]; return FA([k], z3.Implies(m.dom[k], m.val[k] == val(w, k)), m.val[k])
                    out.append(('the values entered so far are right (%s)' % nm, vals))
            out.append(('one entry per step', lambda w, r=r, p=p: zi(w.st.store[r].size) == zi(w.entry.store[r].size) + p(w)))
    return out
def order_of(view, dom):
    """position of a key in the iteration over a map or set with this domain (None before it is fixed)"""
    E = view.eng
    g = view.entry.ghost.get('enum:%s' % dom.domain())
    if g is not None and g.data['c'].dom.eq(dom):
        ix = E._enum_inv[id(g.data['en'])]
        return lambda key: ix[key]
    for k, (en, ax, d) in E.__dict__.get('_enums', {}).items():
        if d.eq(dom): return lambda key, ix=E._enum_inv[id(en)]: ix[key]
    return None

def the_graph(E, st, t):
    r = ('o', 'graph'); st.store[r] = Opaque(t.key(), {'term': z3.Const('graph0', E.c.sort(t))}); st.types[r] = t
    return Loc(r)

CFG = dict(model_for=model_for)
ASSUME = ['boost::adjacency_list (vertices, edges, out_edges, source, target, add_vertex, add_edge, clear_vertex, remove_vertex) behaves as documented: assumed contracts over an arbitrary finite multigraph, in which descriptors are identities']
