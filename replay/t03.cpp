// every tasklet operation through the metadata helpers
#include "common.h"
#include <sdfg/data_flow/tasklet.h>
using namespace rp; using namespace sdfg::data_flow;
int main(int argc, char** argv) {
    init(argc, argv, 2, 4);
    puts("RULE every tasklet operation; non-trivial: every operation");
    struct R { TaskletCode c; const char* n; size_t a; bool u; };
#define F(n, a) {fp_##n, "fp_" #n, a, false}
#define I(n, a) {int_##n, "int_" #n, a, false}
#define U(n, a) {int_##n, "int_" #n, a, true}
    static const R T[] = {{assign, "assign", 1, false}, F(neg, 1), F(add, 2), F(sub, 2), F(mul, 2), F(div, 2), F(rem, 2), F(fma, 3), F(oeq, 2), F(one, 2), F(oge, 2), F(ogt, 2), F(ole, 2), F(olt, 2), F(ord, 2), F(ueq, 2), F(une, 2), F(ugt, 2), F(uge, 2), F(ult, 2), F(ule, 2), F(uno, 2),
        I(add, 2), I(sub, 2), I(mul, 2), I(sdiv, 2), I(srem, 2), U(udiv, 2), U(urem, 2), I(and, 2), I(or, 2), I(xor, 2), I(shl, 2), I(ashr, 2), U(lshr, 2), I(smin, 2), I(smax, 2), I(scmp, 2), U(umin, 2), U(umax, 2), U(ucmp, 2), I(eq, 2), I(ne, 2), I(sge, 2), I(sgt, 2), I(sle, 2), I(slt, 2), U(uge, 2), U(ugt, 2), U(ule, 2), U(ult, 2), I(abs, 1)};
    for (auto& r : T) {
        at(r.n, true);
        try {
            CHECK(arity(r.c) == r.a, "arity " << arity(r.c));
            CHECK(is_integer(r.c) == (r.n[0] == 'i') && is_floating_point(r.c) == (r.n[0] == 'f'), "in the wrong class");
            CHECK(is_unsigned(r.c) == r.u, (r.u ? "not classified unsigned" : "classified unsigned"));
        } catch (std::exception& x) { CHECK(false, "fails: " << x.what()); }
    }
    return done();
}
