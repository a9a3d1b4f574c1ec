// every primitive type and many texts through the helpers of type.h
#include "common.h"
#include <sdfg/types/type.h>
using namespace rp; using namespace sdfg::types;
static const char* N[] = {"Void", "Bool", "Int8", "Int16", "Int32", "Int64", "Int128", "UInt8", "UInt16", "UInt32", "UInt64", "UInt128", "Half", "BFloat", "Float", "Double", "X86_FP80", "FP128", "PPC_FP128"};
static void text(const std::string& s) {
    bool th = false; PrimitiveType e = Void; try { e = primitive_type_from_string(s); } catch (std::invalid_argument&) { th = true; }
    bool known = false; for (int i = 0; i < 19; i++) known |= s == primitive_type_to_string((PrimitiveType) i);
    at("text \"" + s + "\"", known);
    CHECK(th == !known, (th ? "is rejected" : "is accepted"));
    if (!th) CHECK(s == primitive_type_to_string(e), "becomes type " << (int) e << ", " << primitive_type_to_string(e));
}
int main(int argc, char** argv) {
    init(argc, argv, 3, 10);
    puts("RULE every primitive type through every helper; the names of the types, each with a character removed, changed, inserted, doubled or in the other case, and random short texts; non-trivial: the types and their names");
    static const int W[] = {0, 1, 8, 16, 32, 64, 128, 8, 16, 32, 64, 128, 16, 16, 32, 64, 80, 128, 128};
    for (int i = 0; i < 19; i++) {
        auto e = (PrimitiveType) i; at(std::string("type ") + N[i], true);
        try { CHECK(primitive_type_from_string(primitive_type_to_string(e)) == e, "text and back is another type"); } catch (std::exception& x) { CHECK(false, "text and back fails: " << x.what()); }
        CHECK((int) bit_width(e) == W[i], "width " << bit_width(e));
        CHECK(is_integer(e) == (i >= 1 && i <= 11) && is_floating_point(e) == (i >= 12) && is_signed(e) == (i >= 2 && i <= 6) && is_unsigned(e) == (i >= 7 && i <= 11), "classified wrongly");
        CHECK(as_signed(e) == (i >= 7 && i <= 11 ? i - 5 : i), "signed counterpart " << (int) as_signed(e));
        CHECK(as_unsigned(e) == (i >= 2 && i <= 6 ? i + 5 : i), "unsigned counterpart " << (int) as_unsigned(e));
    }
    text("");
    for (auto n : N) {
        std::string s = n; text(s); text(s + s); text(" " + s); text(s + std::string(1, '\0'));
        for (size_t k = 0; k < s.size(); k++) { auto t = s; t.erase(k, 1); text(t); t = s; t[k] ^= 32; text(t); for (int c = 32; c < 127; c++) { t = s; t[k] = (char) c; text(t); t = s; t.insert(k, 1, (char) c); text(t); } }
        for (int c = 0; c < 256; c++) text(s + (char) c);
    }
    while (more()) { std::string s = N[rnd(19)]; for (int k = (int) rnd(3); k >= 0; k--) { if (s.empty() || coin()) s.insert(rnd(s.size() + 1), 1, (char) rr(1, 255)); else s.erase(rnd(s.size()), 1); } text(s); }
    return done();
}
