"""T01: the runtime's primitive-type tables (arg-capture-io/primitive_types.h) against the enumeration and the
compiler's (sdfg/types/type.h)."""
import z3
from fractions import Fraction
from ccv.values import *
from ccv.prove import Proof, Ctx
from ccv import frontend
STUBS = '-I' + frontend.VERIF + '/stubs'
GHOST = r'''
#include <daisy_rtl/primitive_types.h>
#include <sdfg/types/type.h>
#include <string_view>
namespace ghost {
inline bool same_name(int i) { return std::string_view(arg_capture::to_string(static_cast<arg_capture::PrimitiveType>(i))) == sdfg::types::primitive_type_to_string(static_cast<sdfg::types::PrimitiveType>(i)); }
inline bool marker(int i) { return std::string_view(arg_capture::to_string(static_cast<arg_capture::PrimitiveType>(i))) == "[unknown]"; }
inline std::string_view name(int i) { return arg_capture::primitive_type_names[i]; }
inline std::string_view spelling(int i) { return arg_capture::primitive_type_cppspellings[i]; }
inline double epsilon(int i) { return arg_capture::primitive_type_machine_epsilons[i]; }
inline int same_numbers() {
    int bad = 0;
    if (static_cast<int>(arg_capture::PrimitiveType::Void) != static_cast<int>(sdfg::types::Void)) bad++;
%s
    if (static_cast<int>(arg_capture::PrimitiveType::PRIMITIVE_TYPE_COUNT) != static_cast<int>(sdfg::types::PPC_FP128) + 1) bad++;
    if (sizeof(arg_capture::primitive_type_names) / sizeof(const char*) != 19) bad++;
    if (sizeof(arg_capture::primitive_type_cppspellings) / sizeof(const char*) != 19) bad++;
    if (sizeof(arg_capture::primitive_type_machine_epsilons) / sizeof(double) != 19) bad++;
    return bad;
}
}
'''
NAMES = 'Void Bool Int8 Int16 Int32 Int64 Int128 UInt8 UInt16 UInt32 UInt64 UInt128 Half BFloat Float Double X86_FP80 FP128 PPC_FP128'.split()
GHOST = GHOST % '\n'.join('    if (static_cast<int>(arg_capture::PrimitiveType::%s) != %d || static_cast<int>(sdfg::types::%s) != %d) bad++;' % (n, i, n, i) for i, n in enumerate(NAMES))
def unit(): return frontend.load('arg-capture-io/include/daisy_rtl/primitive_types.h', wrapper=GHOST, roots=[frontend.REPO + '/', frontend.BUILD + '/'], extra=[STUBS])
SPELL = [['void'], ['bool'], ['int8_t', 'std::int8_t', 'signed char'], ['int16_t', 'std::int16_t', 'short'], ['int32_t', 'std::int32_t', 'int'], ['int64_t', 'std::int64_t', 'long', 'long long'], ['__int128', '__int128_t', 'signed __int128'],
         ['uint8_t', 'std::uint8_t', 'unsigned char'], ['uint16_t', 'std::uint16_t', 'unsigned short'], ['uint32_t', 'std::uint32_t', 'unsigned int', 'unsigned'], ['uint64_t', 'std::uint64_t', 'unsigned long', 'unsigned long long'], ['unsigned __int128', '__uint128_t'],
         ['__fp16', '_Float16', 'half', 'std::float16_t'], ['bfloat16_t', '__bf16', 'std::bfloat16_t'], ['float'], ['double'], ['long double', '__float80'], ['__float128', '_Float128'], ['__ibm128']]
EPS = {12: 10, 13: 7, 14: 23, 15: 52, 16: 63, 17: 112}
def setup_i(E, st):
    e = z3.Int('e'); st.assume(e >= 0, e <= 18)
    return [e], None, Ctx(e=e)
def setup_out(E, st):
    e = z3.Int('e'); st.assume(z3.Or(e < 0, e > 18), e >= -(1 << 31), e < (1 << 31))
    return [e], None, Ctx(e=e)
def setup_all(E, st):
    e = z3.Int('e'); st.assume(e >= -(1 << 31), e < (1 << 31))
    return [e], None, Ctx(e=e)
def setup_none(E, st): return [], None, Ctx()
def post_true(name):
    def post(E, st, out, ctx):
        if isinstance(out, Thrown): E.oblige(st, name + ': no failure', False, 'post'); return
        E.oblige(st, name, zb(E.boolean(out)), 'post')
    return post
def post_numbers(E, st, out, ctx):
    E.oblige(st, 'both enumerations give every type its number and every table has one entry per type', zi(out) == 0, 'post')
def text(E, st, v):
    return E.stl.text(E, st, v) if hasattr(E, 'stl') and hasattr(E.stl, 'text') else v
def post_in(table, what):
    def post(E, st, out, ctx):
        if isinstance(out, Thrown): E.oblige(st, 'no failure', False, 'post'); return
        for k, t in enumerate(table): E.oblige(st, '%s of %s' % (what, NAMES[k]), z3.Implies(ctx.e == k, z3.Or([out == z3.StringVal(x) for x in t])), 'post')
    return post
def post_eps(E, st, out, ctx):
    if isinstance(out, Thrown): E.oblige(st, 'no failure', False, 'post'); return
    v = zr(out)
    for k in range(19):
        if k in EPS:
            want = Fraction(1, 2 ** EPS[k])
            # the table holds decimal approximations; PPC_FP128 (a pair of doubles) has no machine epsilon in this sense
            lo, hi = want * (1 - Fraction(1, 10 ** 6)), want * (1 + Fraction(1, 10 ** 6))
            E.oblige(st, 'epsilon of %s' % NAMES[k], z3.Implies(ctx.e == k, z3.And(v >= z3.RealVal(str(lo)), v <= z3.RealVal(str(hi)))), 'post')
        elif k < 12: E.oblige(st, 'epsilon of %s is 0' % NAMES[k], z3.Implies(ctx.e == k, v == 0), 'post')
        else: E.oblige(st, 'epsilon of %s is between 0 and that of double' % NAMES[k], z3.Implies(ctx.e == k, z3.And(v > 0, v < z3.RealVal('1/4503599627370496'))), 'post')
PROOFS = [Proof('numbers and table sizes', unit, 'ghost::same_numbers', setup_none, post_numbers),
          Proof('to_string against primitive_type_to_string', unit, 'ghost::same_name', setup_i, post_true('the same name on both sides')),
          Proof('to_string outside the enumeration', unit, 'ghost::marker', setup_out, post_true('numbers outside the enumeration give the marker')),
          Proof('primitive_type_names', unit, 'ghost::name', setup_i, post_in([[n] for n in NAMES], 'name')),
          Proof('primitive_type_cppspellings', unit, 'ghost::spelling', setup_i, post_in(SPELL, 'spelling')),
          Proof('primitive_type_machine_epsilons', unit, 'ghost::epsilon', setup_i, post_eps)]
REPLAY = [dict(src='t01.cpp', flags=[STUBS])]
ASSUME = ['the SymEngine classes the compiler header mentions are parsed from declarations without behaviour (stubs/symengine); no verified function uses them',
          'the C++ spellings that count as correct for a type are listed in the contract (for example int32_t or int; __fp16 or _Float16)',
          'epsilon entries are compared with 2^-(p-1) to a relative 1e-6; the double-double type has no such epsilon, its entry only has to lie between 0 and that of double']
