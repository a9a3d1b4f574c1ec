"""T03: the tasklet operation metadata of sdfg/data_flow/tasklet.h."""
import z3
from ccv.values import *
from ccv.prove import Proof, Ctx
from ccv import frontend
STUBS = '-I' + frontend.VERIF + '/stubs'
GHOST = r'''
#include <sdfg/data_flow/tasklet.h>
namespace ghost {
using namespace sdfg::data_flow;
inline bool one_class(TaskletCode c) {
    int n = (is_integer(c) ? 1 : 0) + (is_floating_point(c) ? 1 : 0) + (c == TaskletCode::assign ? 1 : 0);
    return n == 1;
}
inline bool unsigned_is_integer(TaskletCode c) { return !is_unsigned(c) || is_integer(c); }
}
'''
def unit(): return frontend.load('sdfg/include/sdfg/data_flow/tasklet.h', wrapper=GHOST, roots=[frontend.REPO + '/', frontend.BUILD + '/'], extra=[STUBS])
def codes():
    for n, e in unit().enums.items():
        if n.endswith('TaskletCode'): return {c['n']: int(c['v']) for c in e['cs']}
    raise frontend.ExtractionError('no enumeration TaskletCode')
CMP = ['eq', 'ne', 'ge', 'gt', 'le', 'lt']
ARITY = {'assign': 1, 'fp_neg': 1, 'fp_fma': 3, 'int_abs': 1}
for o in ['add', 'sub', 'mul', 'div', 'rem', 'ord', 'uno'] + ['o' + c for c in CMP] + ['u' + c for c in CMP]: ARITY['fp_' + o] = 2
for o in ['add', 'sub', 'mul', 'sdiv', 'srem', 'udiv', 'urem', 'and', 'or', 'xor', 'shl', 'ashr', 'lshr', 'smin', 'smax', 'scmp', 'umin', 'umax', 'ucmp', 'eq', 'ne'] + ['s' + c for c in CMP[2:]] + ['u' + c for c in CMP[2:]]: ARITY['int_' + o] = 2
UNSIGNED = ['int_udiv', 'int_urem', 'int_lshr', 'int_umin', 'int_umax', 'int_ucmp', 'int_uge', 'int_ugt', 'int_ule', 'int_ult']
def setup(E, st):
    c = z3.Int('c'); k = codes(); st.assume(z3.Or([c == v for v in k.values()]))
    return [c], None, Ctx(c=c, k=k)
def post_arity(E, st, out, ctx):
    if isinstance(out, Thrown): E.oblige(st, 'every operation has an arity', False, 'post'); return
    for n, v in ctx.k.items(): E.oblige(st, 'arity of %s' % n, z3.Implies(ctx.c == v, zi(out) == ARITY[n] if n in ARITY else zi(out) >= 1), 'post')
def post_class(f, what):
    def post(E, st, out, ctx):
        if isinstance(out, Thrown): E.oblige(st, 'no failure', False, 'post'); return
        r = zb(E.boolean(out))
        for n, v in ctx.k.items():
            if n in ARITY: E.oblige(st, '%s is %s%s' % (n, '' if f(n) else 'not ', what), z3.Implies(ctx.c == v, r if f(n) else z3.Not(r)), 'post')
    return post
def post_true(name):
    def post(E, st, out, ctx):
        if isinstance(out, Thrown): E.oblige(st, name + ': no failure', False, 'post'); return
        E.oblige(st, name, zb(E.boolean(out)), 'post')
    return post
D = 'sdfg::data_flow::'
PROOFS = [Proof('arity', unit, D + 'arity', setup, post_arity),
          Proof('is_integer', unit, D + 'is_integer', setup, post_class(lambda n: n.startswith('int_'), 'an integer operation')),
          Proof('is_floating_point', unit, D + 'is_floating_point', setup, post_class(lambda n: n.startswith('fp_'), 'a floating-point operation')),
          Proof('is_unsigned', unit, D + 'is_unsigned', setup, post_class(lambda n: n in UNSIGNED, 'an unsigned operation')),
          Proof('one class per operation', unit, 'ghost::one_class', setup, post_true('exactly one of integer, floating-point and assignment')),
          Proof('unsigned operations', unit, 'ghost::unsigned_is_integer', setup, post_true('unsigned operations are integer operations'))]
REPLAY = [dict(src='t03.cpp', flags=[STUBS])]
ASSUME = ['the operation an enumerator denotes is the one its name and documentation say (table in the contract)',
          'the SymEngine classes the headers mention are parsed from declarations without behaviour (stubs/symengine); no verified function uses them']
