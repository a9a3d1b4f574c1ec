"""T02: the primitive-type helpers of sdfg/types/type.h are consistent with each other.

The consistency statements are ghost functions over the real helpers, written in the wrapper that includes the
header: each is executed symbolically with the helpers' real bodies, for every argument."""
import z3
from ccv.values import *
from ccv.prove import Proof, Ctx
from ccv import frontend
STUBS = '-I' + frontend.VERIF + '/stubs'
GHOST = r'''
#include <sdfg/types/type.h>
namespace ghost {
using namespace sdfg::types;
inline PrimitiveType round_trip(PrimitiveType e) { return primitive_type_from_string(primitive_type_to_string(e)); }
inline bool text(std::string_view s) { return s == primitive_type_to_string(primitive_type_from_string(s)); }
inline bool one_class(PrimitiveType e) {
    int n = (is_integer(e) ? 1 : 0) + (is_floating_point(e) ? 1 : 0) + (e == Void ? 1 : 0);
    return n == 1;
}
inline bool signs(PrimitiveType e) {
    bool s = is_signed(e), u = is_unsigned(e), i = is_integer(e);
    if (s && u) return false;
    if ((s || u) && !i) return false;
    return (s || u) == (i && e != Bool);
}
inline bool counterparts(PrimitiveType e) {
    PrimitiveType s = as_signed(e), u = as_unsigned(e);
    bool sign = is_signed(e), unsign = is_unsigned(e);
    if (!sign && !unsign) return s == e && u == e;
    if (bit_width(s) != bit_width(e) || bit_width(u) != bit_width(e)) return false;
    if (!is_signed(s) || !is_unsigned(u)) return false;
    return sign ? s == e && as_signed(u) == e : u == e && as_unsigned(s) == e;
}
}
'''
def unit(): return frontend.load('sdfg/include/sdfg/types/type.h', wrapper=GHOST, roots=[frontend.REPO + '/', frontend.BUILD + '/'], extra=[STUBS])
WIDTH = [0, 1, 8, 16, 32, 64, 128, 8, 16, 32, 64, 128, 16, 16, 32, 64, 80, 128, 128]
def setup_e(E, st):
    e = z3.Int('e'); st.assume(e >= 0, e <= 18)
    return [e], None, Ctx(e=e)
def setup_s(E, st):
    s = z3.Const('s', S); st.assume(z3.Length(s) <= (1 << 60))
    return [s], None, Ctx(s=s)
def setup_bad(E, st):
    e = z3.Int('e'); st.assume(z3.Or(e < 0, e > 18), e >= -(1 << 31), e < (1 << 31))
    return [e], None, Ctx(e=e)
def post_rt(E, st, out, ctx):
    if isinstance(out, Thrown): E.oblige(st, 'the text of a type is accepted', False, 'post'); return
    E.oblige(st, 'text and back is the identity', zi(out) == ctx.e, 'post')
def post_text(E, st, out, ctx):
    if isinstance(out, Thrown): return
    E.oblige(st, 'accepted text is the text of the type', zb(E.boolean(out)), 'post')
def post_true(name):
    def post(E, st, out, ctx):
        if isinstance(out, Thrown): E.oblige(st, name + ': no failure', False, 'post'); return
        E.oblige(st, name, zb(E.boolean(out)), 'post')
    return post
def post_width(E, st, out, ctx):
    if isinstance(out, Thrown): E.oblige(st, 'every type has a width', False, 'post'); return
    for k, w in enumerate(WIDTH): E.oblige(st, 'width of type %d' % k, z3.Implies(ctx.e == k, zi(out) == w), 'post')
SIGNED = range(2, 7); UNSIGNED = range(7, 12); FLOAT = range(12, 19); INT = range(1, 12)
def post_class(rng):
    def post(E, st, out, ctx):
        if isinstance(out, Thrown): E.oblige(st, 'no failure', False, 'post'); return
        E.oblige(st, 'exactly the types of the class', zb(E.boolean(out)) == z3.Or([ctx.e == k for k in rng]), 'post')
    return post
def post_map(f):
    def post(E, st, out, ctx):
        if isinstance(out, Thrown): E.oblige(st, 'no failure', False, 'post'); return
        for k in range(19): E.oblige(st, 'counterpart of type %d' % k, z3.Implies(ctx.e == k, zi(out) == f(k)), 'post')
    return post
T = 'sdfg::types::'
PROOFS = [Proof('primitive_type_from_string . primitive_type_to_string', unit, 'ghost::round_trip', setup_e, post_rt),
          Proof('primitive_type_to_string . primitive_type_from_string', unit, 'ghost::text', setup_s, post_text),
          Proof('bit_width', unit, T + 'bit_width', setup_e, post_width),
          Proof('is_integer', unit, T + 'is_integer', setup_e, post_class(INT)),
          Proof('is_floating_point', unit, T + 'is_floating_point', setup_e, post_class(FLOAT)),
          Proof('is_signed', unit, T + 'is_signed', setup_e, post_class(SIGNED)),
          Proof('is_unsigned', unit, T + 'is_unsigned', setup_e, post_class(UNSIGNED)),
          Proof('as_signed', unit, T + 'as_signed', setup_e, post_map(lambda k: k - 5 if k in UNSIGNED else k)),
          Proof('as_unsigned', unit, T + 'as_unsigned', setup_e, post_map(lambda k: k + 5 if k in SIGNED else k)),
          Proof('one class per type', unit, 'ghost::one_class', setup_e, post_true('exactly one of integer, floating-point and void')),
          Proof('signedness', unit, 'ghost::signs', setup_e, post_true('signed and unsigned split the integers other than Bool')),
          Proof('counterparts', unit, 'ghost::counterparts', setup_e, post_true('counterparts keep the width, flip the signedness and are inverse'))]
REPLAY = [dict(src='t02.cpp', flags=[STUBS])]
ASSUME = ['the SymEngine classes the header mentions are parsed from declarations without behaviour (stubs/symengine); no verified function uses them']
