// every number of the enumerations, and numbers outside them, through the runtime's and the compiler's tables
#include "common.h"
#include <daisy_rtl/primitive_types.h>
#include <sdfg/types/type.h>
#include <cmath>
using namespace rp;
template<size_t N> static size_t len(const char* const (&)[N]) { return N; }
int main(int argc, char** argv) {
    init(argc, argv, 3, 10);
    puts("RULE every type number, the numbers around and far outside the enumeration, and the table entries; non-trivial: every type number and the first one behind the enumeration");
    static const char* N[] = {"Void", "Bool", "Int8", "Int16", "Int32", "Int64", "Int128", "UInt8", "UInt16", "UInt32", "UInt64", "UInt128", "Half", "BFloat", "Float", "Double", "X86_FP80", "FP128", "PPC_FP128"};
    static const int P[] = {0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 10, 7, 23, 52, 63, 112, -1};
    at("table sizes", true);
    CHECK(len(arg_capture::primitive_type_names) == 19 && len(arg_capture::primitive_type_cppspellings) == 19 && sizeof arg_capture::primitive_type_machine_epsilons / sizeof(double) == 19, "a table has not one entry per type");
    std::set<std::string> seen;
    for (int i = 0; i < 19; i++) {
        at("type " + std::to_string(i) + " (" + N[i] + ")", true);
        std::string r = arg_capture::to_string((arg_capture::PrimitiveType) i), c = sdfg::types::primitive_type_to_string((sdfg::types::PrimitiveType) i);
        CHECK(r == c, "the runtime says " << r << ", the compiler " << c);
        CHECK(r == N[i], "the runtime says " << r);
        CHECK(seen.insert(r).second, "two types have this name");
        double e = arg_capture::primitive_type_machine_epsilons[i];
        if (P[i] > 0) CHECK(std::fabs(e * std::ldexp(1.0, P[i]) - 1) < 1e-6, "epsilon " << e << " instead of 2^-" << P[i]);
        else if (!P[i]) CHECK(e == 0, "epsilon " << e); else CHECK(e > 0 && e < std::ldexp(1.0, -52), "epsilon " << e);
        std::string sp = arg_capture::primitive_type_cppspellings[i];
        CHECK(!sp.empty() && !isdigit(sp[0]), "spelling " << sp);
        if (i >= 2 && i <= 11 && sp.find("128") == std::string::npos && sp.find("_t") != std::string::npos) {
            std::string want = std::string(i >= 7 ? "uint" : "int") + std::to_string(8 << ((i - 2) % 5)) + "_t";
            CHECK(sp == want || sp == "std::" + want, "spelling " << sp << " instead of " << want);
        }
        bool th = false; long double v = 0; try { v = arg_capture::primitive_type_epsilon((arg_capture::PrimitiveType) i); } catch (std::runtime_error&) { th = true; }
        if (i == 14) CHECK(!th && v == 0x1p-23L, "primitive_type_epsilon"); else if (i == 15) CHECK(!th && v == 0x1p-52L, "primitive_type_epsilon"); else if (i == 16) CHECK(!th && v == 0x1p-63L, "primitive_type_epsilon"); else CHECK(th || i >= 12, "primitive_type_epsilon of a type without one");
    }
    CHECK((int) arg_capture::PrimitiveType::PRIMITIVE_TYPE_COUNT == 19, "count");
    auto out = [](long long i) { at("number " + std::to_string(i), i == 19); CHECK(std::string(arg_capture::to_string((arg_capture::PrimitiveType) (int) i)) == "[unknown]", "is named " << arg_capture::to_string((arg_capture::PrimitiveType) (int) i)); };
    for (int i = 19; i < 3000; i++) out(i);
    for (int i = -3000; i < 0; i++) out(i);
    out(INT32_MAX); out(INT32_MIN);
    while (more()) { long long i = rr(INT32_MIN, INT32_MAX); if (i < 0 || i > 18) out(i); }
    return done();
}
