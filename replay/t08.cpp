// the tables of C math functions against the functions <math.h> declares
#include "common.h"
#include <math.h>
#include <sdfg/data_flow/library_nodes/math/cmath/cmath_node.h>
using namespace rp; using namespace sdfg; using namespace sdfg::math::cmath;
#define ALL(X) \
    X(sin) \
    X(cos) \
    X(tan) \
    X(asin) \
    X(acos) \
    X(atan) \
    X(atan2) \
    X(sinh) \
    X(cosh) \
    X(tanh) \
    X(asinh) \
    X(acosh) \
    X(atanh) \
    X(exp) \
    X(exp2) \
    X(exp10) \
    X(expm1) \
    X(log) \
    X(log10) \
    X(log2) \
    X(log1p) \
    X(pow) \
    X(sqrt) \
    X(cbrt) \
    X(hypot) \
    X(erf) \
    X(erfc) \
    X(tgamma) \
    X(lgamma) \
    X(fabs) \
    X(ceil) \
    X(floor) \
    X(trunc) \
    X(round) \
    X(lround) \
    X(llround) \
    X(roundeven) \
    X(nearbyint) \
    X(rint) \
    X(lrint) \
    X(llrint) \
    X(fmod) \
    X(remainder) \
    X(frexp) \
    X(ldexp) \
    X(modf) \
    X(scalbn) \
    X(scalbln) \
    X(ilogb) \
    X(logb) \
    X(nextafter) \
    X(nexttoward) \
    X(copysign) \
    X(fmax) \
    X(fmin) \
    X(fdim) \
    X(fma)
template <class R, class... A> constexpr size_t params(R (*)(A...)) { return sizeof...(A); }
template <class R, class... A> constexpr size_t params(R (*)(A...) noexcept) { return sizeof...(A); }
// the functions for double: their number of parameters as <math.h> declares them
#define DECL(n) static const size_t A_##n = params((decltype(&::n##f)) nullptr);
ALL(DECL)
struct R { CMathFunction f; const char* n; size_t a; };
static const R T[] = {
#define ROW(n) {CMathFunction::n, #n, A_##n},
ALL(ROW)
};
static void read(const std::string& s) {
    const R* want = nullptr;
    for (auto& r : T) for (auto x : {"", "f", "l"}) if (s == std::string(r.n) + x) want = &r;
    at("name \"" + s + "\"", want != nullptr);
    bool th = false; CMathFunction f{};
    try { f = string_to_cmath_function(s); } catch (std::runtime_error&) { th = true; }
    CHECK(th == !want, (th ? "is rejected" : "is accepted"));
    if (want && !th) CHECK(f == want->f, "is read as function " << (int) f);
}
int main(int argc, char** argv) {
    init(argc, argv, 3, 10);
    puts("RULE every function, with every primitive type; the names of the functions with each suffix, and with a character removed, changed or inserted; random short names; non-trivial: the functions and their names");
    for (auto& r : T) {
        at(std::string("function ") + r.n, true);
        CHECK(cmath_function_to_stem(r.f) == std::string(r.n), "is named " << cmath_function_to_stem(r.f));
        CHECK(cmath_function_to_arity(r.f) == r.a, "arity " << cmath_function_to_arity(r.f) << ", <math.h> declares " << r.a << " parameters");
        for (int p = 0; p < 19; p++) {
            std::string want = r.n; want += p == 15 ? "" : p >= 16 ? "l" : "f";
            at(std::string("function ") + r.n + " for type " + types::primitive_type_to_string((types::PrimitiveType) p), p >= 12);
            std::string got; bool th = false; try { got = get_cmath_intrinsic_name(r.f, (types::PrimitiveType) p); } catch (InvalidSDFGException&) { th = true; }
            CHECK(th == (p < 12) && (th || got == want), (th ? std::string("fails") : "is named " + got));
        }
        for (auto x : {"", "f", "l"}) {
            std::string s = std::string(r.n) + x; read(s);
            for (size_t k = 0; k < s.size(); k++) { auto t = s; t.erase(k, 1); read(t); for (int c = 97; c < 123; c++) { t = s; t[k] = (char) c; read(t); t = s; t.insert(k, 1, (char) c); read(t); } }
            for (int c = 0; c < 256; c++) read(s + (char) c);
        }
    }
    while (more()) { std::string s = T[rnd(sizeof T / sizeof *T)].n; for (int k = (int) rnd(3); k >= 0; k--) { if (s.empty() || coin()) s.insert(rnd(s.size() + 1), 1, (char) rr(1, 255)); else s.erase(rnd(s.size()), 1); } read(s); }
    return done();
}
