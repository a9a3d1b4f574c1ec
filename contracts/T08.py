"""T08: the tables of C math functions (cmath_node.h, cmath_node.cpp)."""
import z3
from ccv.values import *
from ccv.prove import Proof, Ctx
from ccv import frontend
STUBS = '-I' + frontend.VERIF + '/stubs'
F = 'sdfg/src/data_flow/library_nodes/math/cmath/cmath_node.cpp'
D = 'sdfg::math::cmath::'
GHOST = r'''
#include "%s/%s"
namespace ghost {
using namespace sdfg::math::cmath;
// what is written for a function is read back as that function
inline bool written_is_read(CMathFunction f, sdfg::types::PrimitiveType p) {
    return string_to_cmath_function(get_cmath_intrinsic_name(f, p)) == f;
}
inline bool stem_is_read(CMathFunction f) { return string_to_cmath_function(cmath_function_to_stem(f)) == f; }
// a name that is read is the name of the function for one of the C floating-point types
inline bool read_is_written(const std::string& name) {
    CMathFunction f = string_to_cmath_function(name);
    std::string stem = cmath_function_to_stem(f);
    return name == stem || name == stem + "f" || name == stem + "l";
}
}
'''
def unit(): return frontend.load(F, wrapper=GHOST % (frontend.REPO, F), roots=[frontend.REPO + '/', frontend.BUILD + '/'], extra=[STUBS])
# <math.h>: the functions in the order of CMathFunction, with the number of their parameters
MATH_H = [('sin', 1), ('cos', 1), ('tan', 1), ('asin', 1), ('acos', 1), ('atan', 1), ('atan2', 2), ('sinh', 1), ('cosh', 1), ('tanh', 1), ('asinh', 1), ('acosh', 1), ('atanh', 1),
          ('exp', 1), ('exp2', 1), ('exp10', 1), ('expm1', 1), ('log', 1), ('log10', 1), ('log2', 1), ('log1p', 1), ('pow', 2), ('sqrt', 1), ('cbrt', 1), ('hypot', 2),
          ('erf', 1), ('erfc', 1), ('tgamma', 1), ('lgamma', 1), ('fabs', 1), ('ceil', 1), ('floor', 1), ('trunc', 1), ('round', 1), ('lround', 1), ('llround', 1), ('roundeven', 1),
          ('nearbyint', 1), ('rint', 1), ('lrint', 1), ('llrint', 1), ('fmod', 2), ('remainder', 2), ('frexp', 2), ('ldexp', 2), ('modf', 2), ('scalbn', 2), ('scalbln', 2),
          ('ilogb', 1), ('logb', 1), ('nextafter', 2), ('nexttoward', 2), ('copysign', 2), ('fmax', 2), ('fmin', 2), ('fdim', 2), ('fma', 3)]
N = len(MATH_H)
def some_f(st):
    f = z3.Int('function'); st.assume(f >= 0, f < N); return f
def setup_f(E, st):
    f = some_f(st); return [f], None, Ctx(f=f)
def setup_fp(E, st):
    f, p = some_f(st), z3.Int('type'); st.assume(p >= 0, p <= 18); return [f, p], None, Ctx(f=f, p=p)
def setup_fp_ok(E, st):
    a, b, c = setup_fp(E, st); st.assume(c.p >= 12); return a, b, c
def setup_s(E, st):
    s = z3.Const('s', S); st.assume(z3.Length(s) <= (1 << 60)); return [s], None, Ctx(s=s)
def post_arity(E, st, out, c):
    if isinstance(out, Thrown): E.oblige(st, 'every function has an arity', False, 'post'); return
    for k, (n, a) in enumerate(MATH_H): E.oblige(st, 'arity of %s' % n, z3.Implies(c.f == k, zi(out) == a), 'post')
def text(E, st, x): return zs(x.s if isinstance(x, CStr) else E.val(st, x))
def post_stem(E, st, out, c):
    if isinstance(out, Thrown): E.oblige(st, 'every function has a name', False, 'post'); return
    for k, (n, a) in enumerate(MATH_H): E.oblige(st, 'name of %s' % n, z3.Implies(c.f == k, text(E, st, out) == zs(n)), 'post')
SUFFIX = {12: 'f', 13: 'f', 14: 'f', 15: '', 16: 'l', 17: 'l', 18: 'l'}
def post_name(E, st, out, c):
    if isinstance(out, Thrown): E.oblige(st, 'only types that are not floating-point fail', c.p < 12, 'post'); return
    E.oblige(st, 'types that are not floating-point fail', c.p >= 12, 'post')
    t, x = zs(''), zs('')
    for k, (n, a) in enumerate(MATH_H): t = z3.If(c.f == k, zs(n), t)
    for p, y in SUFFIX.items(): x = z3.If(c.p == p, zs(y), x)
    E.oblige(st, 'the name of the function for the type', text(E, st, out) == z3.Concat(t, x), 'post')
def post_read(E, st, out, c):
    if isinstance(out, Thrown): E.oblige(st, 'only names that are not of <math.h> fail', z3.And([c.s != zs(n + x) for n, _ in MATH_H for x in ('', 'f', 'l')]), 'post'); return
    for k, (n, a) in enumerate(MATH_H): E.oblige(st, 'reads %s' % n, (zi(out) == k) == z3.Or([c.s == zs(n + x) for x in ('', 'f', 'l')]), 'post')
def post_true(name, may_fail=False):
    def post(E, st, out, c):
        if isinstance(out, Thrown):
            if not may_fail: E.oblige(st, name + ': no failure', False, 'post')
            return
        E.oblige(st, name, zb(E.boolean(out)), 'post')
    return post
PROOFS = [Proof('cmath_function_to_arity', unit, D + 'cmath_function_to_arity', setup_f, post_arity),
          Proof('cmath_function_to_stem', unit, D + 'cmath_function_to_stem', setup_f, post_stem),
          Proof('get_cmath_intrinsic_name', unit, D + 'get_cmath_intrinsic_name', setup_fp, post_name, covers=('return', 'throw')),
          Proof('string_to_cmath_function', unit, D + 'string_to_cmath_function', setup_s, post_read, covers=('return', 'throw')),
          Proof('the stem of a function is read back', unit, 'ghost::stem_is_read', setup_f, post_true('the stem is read as the function')),
          Proof('the name of a function is read back', unit, 'ghost::written_is_read', setup_fp_ok, post_true('the name is read as the function'))]
BUDGET = 400
REPLAY = [dict(src='t08.cpp', repo=[F], san='address', flags=[STUBS, '-D_GNU_SOURCE', '-D__STDC_WANT_IEC_60559_FUNCS_EXT__', '-D__STDC_WANT_IEC_60559_BFP_EXT__', '-no-pie', '-Wl,--unresolved-symbols=ignore-all'])]
ASSUME = ['the SymEngine classes the headers mention are parsed from declarations without behaviour (stubs/symengine); no verified function uses them']
