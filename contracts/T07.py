"""T07: Tasklet's classification of an assignment as a conversion (sdfg/src/data_flow/tasklet.cpp)."""
import z3
from ccv.values import *
from ccv.prove import Proof, Ctx
from ccv import frontend, kit
from contracts.T05 import plain
STUBS = '-I' + frontend.VERIF + '/stubs'
D = 'sdfg::data_flow::'
def unit(): return frontend.load('sdfg/src/data_flow/tasklet.cpp', roots=[frontend.REPO + '/', frontend.BUILD + '/'], extra=[STUBS])
# ------------------------------------------------------------------ assumed contracts of the data-flow graph
# a tasklet has one incoming and one outgoing edge (Tasklet::validate); an edge is represented by a number, and an
# edge carries one type for a given function
EDGE = {'in_edges': 0, 'out_edges': 1}
def tag(E, st, x): return zi(E.val(st, x))
def m_tag(k):
    def m(E, st, args, this, node): yield st, z3.IntVal(k)
    return m
def m_keep(E, st, args, this, node): yield st, tag(E, st, this if this is not None else args[0])
def m_deref(E, st, args, this, node):
    yield st, E.newtemp(st, tag(E, st, this if this is not None else args[0]), E.ty(node['t']))
def m_parent(E, st, args, this, node): yield st, E.newtemp(st, z3.IntVal(-1), E.ty(node['t']))
def m_type(E, st, args, this, node):
    yield st, PtrV(False, E.newtemp(st, tag(E, st, this), E.ty(E.proof.unit().fn(D + 'Tasklet::is_assign')['cls'])))
def m_primitive(E, st, args, this, node):
    c = E.ctx; yield st, z3.If(tag(E, st, this) == 0, c.i, c.o)
def m_arrow(E, st, args, this, node): yield st, E.val(st, this)
def m_star(E, st, args, this, node): yield st, E.val(st, this).loc
MODELS = {'std::unique_ptr::operator->': m_arrow, 'std::unique_ptr::get': m_arrow, 'std::unique_ptr::operator*': m_star,
          D + 'DataFlowNode::get_parent': m_parent, D + 'DataFlowGraph::in_edges': m_tag(0), D + 'DataFlowGraph::out_edges': m_tag(1),
          'std::ranges::transform_view::begin': m_keep, 'std::ranges::transform_view::_Iterator::operator*': m_deref,
          'std::ranges::view_interface::front': m_deref, D + 'Memlet::result_type': m_type, 'sdfg::types::IType::primitive_type': m_primitive}
CFG = dict(model_for=lambda q: MODELS.get(plain(q)))
# ------------------------------------------------------------------
WIDTH = [0, 1, 8, 16, 32, 64, 128, 8, 16, 32, 64, 128, 16, 16, 32, 64, 80, 128, 128]
SIGNED, UNSIGNED, FLOAT, INT = range(2, 7), range(7, 12), range(12, 19), range(1, 12)
def signed(i): return z3.And(i >= 2, i <= 6)
def unsigned(i): return z3.And(i >= 7, i <= 11)
def flt(i): return z3.And(i >= 12, i <= 18)
def intg(i): return z3.And(i >= 1, i <= 11)
def width(i):
    e = z3.IntVal(0)
    for k, w in enumerate(WIDTH): e = z3.If(i == k, z3.IntVal(w), e)
    return e
def wider(i, o): return width(o) > width(i)
SPEC = {'is_trivial': lambda i, o: i == o, 'is_cast': lambda i, o: i != o,
        'is_zext': lambda i, o: z3.And(unsigned(i), unsigned(o), wider(i, o)),
        'is_sext': lambda i, o: z3.And(signed(i), signed(o), wider(i, o)),
        'is_trunc': lambda i, o: z3.And(intg(i), intg(o), unsigned(i) == unsigned(o), wider(o, i)),
        'is_fptoui': lambda i, o: z3.And(flt(i), unsigned(o)), 'is_fptosi': lambda i, o: z3.And(flt(i), signed(o)),
        'is_uitofp': lambda i, o: z3.And(unsigned(i), flt(o)), 'is_sitofp': lambda i, o: z3.And(signed(i), flt(o)),
        'is_fpext': lambda i, o: z3.And(flt(i), flt(o), wider(i, o)), 'is_fptrunc': lambda i, o: z3.And(flt(i), flt(o), wider(o, i))}
def setup(E, st):
    t = E.ty(E.proof.unit().fn(D + 'Tasklet::is_assign')['cls'])
    f = {}
    for n, ft in E.c.record(t):
        try: f[n] = E.fresh(st, ft, n)
        except Unsupported: f[n] = z3.Int(fresh_name(n))      # the place in the graph: nothing reads it
    this = E.newtemp(st, StructV(t.key(), f), t)
    i, o = z3.Int('input_type'), z3.Int('output_type')
    st.assume(i >= 0, i <= 18, o >= 0, o <= 18)
    E.ctx = c = Ctx(i=i, o=o, code=zi(E.read(st, this).f['code_']))
    return [E.newtemp(st, z3.IntVal(0), t)], this, c
def post_of(n):
    f = SPEC[n]
    def post(E, st, out, c):
        if isinstance(out, Thrown): E.oblige(st, 'classifying does not fail', False, 'post'); return
        E.oblige(st, 'exactly the assignments of the kind', zb(E.boolean(out)) == z3.And(c.code == 0, f(c.i, c.o)), 'post')
    return post
def lemmas():
    """the kinds exclude each other, and none of them applies to an assignment that keeps its type"""
    i, o = z3.Int('i'), z3.Int('o'); d = [i >= 0, i <= 18, o >= 0, o <= 18]
    k = [f(i, o) for n, f in SPEC.items() if n not in ('is_trivial', 'is_cast')]
    return [('an assignment is of at most one kind', d, z3.And([z3.Not(z3.And(a, b)) for x, a in enumerate(k) for b in k[:x]])),
            ('an assignment of some kind is a cast', d, z3.Implies(z3.Or(k), i != o)),
            ('a cast is not trivial', d, z3.Not(z3.And(SPEC['is_cast'](i, o), SPEC['is_trivial'](i, o))))]
PROOFS = [Proof(n, unit, D + 'Tasklet::' + n, setup, post_of(n), config=CFG) for n in SPEC]
REPLAY = [dict(src='t07.cpp', san='address', repo=['sdfg/src/data_flow/tasklet.cpp', 'sdfg/src/data_flow/code_node.cpp', 'sdfg/src/data_flow/data_flow_node.cpp', 'sdfg/src/element.cpp', 'sdfg/src/types/scalar.cpp'], flags=[STUBS, '-no-pie', '-Wl,--unresolved-symbols=ignore-all'])]
ASSUME = ['an assign tasklet has one incoming and one outgoing edge (Tasklet::validate), and the type an edge carries (Memlet::result_type) depends on the edge and the function only',
          'the SymEngine classes the headers mention are parsed from declarations without behaviour (stubs/symengine); no verified function uses them']
