#include "common.h"
#include <daisy_rtl/base64.h>
#include <memory>
using namespace rp;
static std::string ref_encode(const std::string& d) {
    static const char* A = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/";
    std::string r; unsigned bits = 0; int nb = 0;
    for (unsigned char c : d) { bits = (bits << 8 | c) & 0xffffff; nb += 8; while (nb >= 6) { r += A[bits >> (nb - 6) & 63]; nb -= 6; } }
    if (nb) r += A[bits << (6 - nb) & 63];
    while (r.size() % 4) r += '=';
    return r;
}
static std::string hex(const std::string& d) { std::string r; char b[4]; for (size_t i = 0; i < d.size() && i < 200; i++) { snprintf(b, 4, "%02x", (unsigned char) d[i]); r += b; } return r; }
static void one(const std::string& d) {
    at(std::to_string(d.size()) + " bytes " + hex(d), d.size() > 0, 10);
    std::unique_ptr<unsigned char[]> p(new unsigned char[d.size()]); // exact size: an access beyond it is seen
    memcpy(p.get(), d.data(), d.size());
    std::string t = base64_encode(p.get(), d.size());
    CHECK(memcmp(p.get(), d.data(), d.size()) == 0, "the input is changed");
    CHECK(t == ref_encode(d), "text " << t.substr(0, 300) << ", want " << ref_encode(d).substr(0, 300));
    auto b = base64_decode(t);
    CHECK(std::string(b.begin(), b.end()) == d, "decodes to " << b.size() << " bytes " << hex(std::string(b.begin(), b.end())));
}
static void any(const std::string& t) {
    at("decoding \"" + t + "\"", t.size() > 0, 10);
    std::string x(t); x.shrink_to_fit();
    auto b = base64_decode(x);
    CHECK(4 * b.size() <= 3 * t.size(), b.size() << " bytes from " << t.size() << " characters");
    CHECK(x == t, "the input is changed");
}
int main(int argc, char** argv) {
    init(argc, argv, 8, 90);
    puts("RULE all byte strings of length 0..2, every byte in each position of a group, every length up to 700 with random bytes, random lengths up to 100000; arbitrary texts (decoder safety): every text of up to 2 bytes, damaged encodings; non-trivial: not empty");
    one(""); for (int a = 0; a < 256; a++) { one(std::string(1, (char) a)); for (int b = 0; b < 256; b++) one(std::string({(char) a, (char) b})); }
    for (int a = 0; a < 256; a++) for (int p = 0; p < 6; p++) { auto s = rbytes(6); s[p] = (char) a; one(s); one(std::string(5, (char) a)); }
    for (int n = 0; n <= 700; n++) one(rbytes(n));
    for (int a = 0; a < 256; a++) { any(std::string(1, (char) a)); for (int b = 0; b < 256; b += 3) any(std::string({(char) a, (char) b})); }
    while (more()) {
        size_t n = coin(30) ? rnd(100000) : rnd(80);
        auto d = rbytes(n); one(d); if (n) { d = std::string(n, (char) pick<int>({0, 255, 61, 128})); one(d); }
        auto t = ref_encode(rbytes(rnd(40)));
        any(t.substr(0, rnd(t.size() + 1))); if (!t.empty()) { t[rnd(t.size())] = (char) rng(); any(t); t[rnd(t.size())] = '='; any(t); any(t + t); }
        any(rbytes(rnd(30)));
    }
    return done();
}
