#include "common.h"
#include <daisy_rtl/daisy_rtl.h>
using namespace rp;
// exact power, by repeated multiplication in 128 bits; nullopt when not representable in int
static bool exact(long long b, long long e, int& out) {
    __int128 r = 1;
    if (b == 0 || b == 1) { out = e == 0 ? 1 : (int) b; return true; }
    if (b == -1) { out = e % 2 ? -1 : 1; return true; }
    for (long long i = 0; i < e; i++) {
        r *= b;
        if (r > INT32_MAX || r < INT32_MIN) return false;
    }
    out = (int) r;
    return true;
}
static void one(int b, int e) {
    at("pow(" + std::to_string(b) + ", " + std::to_string(e) + ")", b != 0 && e > 0, 5);
    int want;
    if (e < 0) { int got = __daisy_sym_pow(b, e); CHECK(got == 0, "negative exponent gives " << got); return; }
    if (!exact(b, e, want)) return;
    int got = __daisy_sym_pow(b, e);
    CHECK(got == want, "got " << got << ", want " << want);
}
int main(int argc, char** argv) {
    init(argc, argv, 8, 60);
    puts("RULE every base with every representable power for |base| <= 70000 and exponents up to 70, the type's extremes, then random pairs; non-trivial: base != 0, exponent > 0");
    for (int b : {INT32_MIN, INT32_MIN + 1, -65536, -46341, -46340, -3, -2, -1, 0, 1, 2, 3, 10, 46340, 46341, 65535, 65536, INT32_MAX - 1, INT32_MAX})
        for (int e : {INT32_MIN, -17, -1, 0, 1, 2, 3, 4, 5, 29, 30, 31, 32, 33, 64, 1000, INT32_MAX - 1, INT32_MAX}) one(b, e);
    for (int e = 0; e <= 70; e++)
        for (int b = -1300; b <= 1300; b++) one(b, e);
    for (int b = -70000; b <= 70000; b += thorough ? 1 : 7) for (int e = 1; e <= 3; e++) one(b, e);
    while (more()) one((int) rng(), (int) rr(-4, 6));
    return done();
}
