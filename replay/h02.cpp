#include "common.h"
#include <iostream>
#include <sdfg/helpers/helpers.h>
using namespace rp; using namespace sdfg::helpers;
static bool all_digits(const std::string& s) { if (s.empty()) return false; for (char c : s) if (c < '0' || c > '9') return false; return true; }
static unsigned __int128 value(const std::string& d, bool& over) {
    unsigned __int128 v = 0; over = false;
    for (char c : d) { v = v * 10 + (c - '0'); if (v >> 100) { over = true; return 0; } }
    return v;
}
template<class F> static int call(F f, const std::string& s, decltype(f(s))& out) { try { out = f(s); return 0; } catch (std::invalid_argument&) { return 1; } catch (std::out_of_range&) { return 2; } }
static void one(const std::string& s) {
    at("\"" + s + "\"", all_digits(s) || (s.size() > 1 && s[0] == '-' && all_digits(s.substr(1))), 5);
    bool dec = all_digits(s);
    CHECK(is_number(s) == dec, "is_number gives " << is_number(s));
    uint64_t u = 0; int64_t i = 0;
    int ru = call([](const std::string& x) { return parse_number_unsigned(x); }, s, u), ri = call([](const std::string& x) { return parse_number_signed(x); }, s, i);
    bool over; bool neg = s.size() > 1 && s[0] == '-' && all_digits(s.substr(1));
    if (s == "false" || s == "true") { CHECK(ru == 0 && ri == 0 && u == (s == "true") && i == (s == "true"), "parsed to " << u << " / " << i); }
    else if (dec) {
        auto v = value(s, over);
        if (over || v > UINT64_MAX) CHECK(ru != 0, "no error, unsigned " << u); else CHECK(ru == 0 && u == (uint64_t) v, (ru ? "error" : "") << " unsigned " << u);
        if (over || v > INT64_MAX) CHECK(ri != 0, "no error, signed " << i); else CHECK(ri == 0 && i == (int64_t) v, (ri ? "error" : "") << " signed " << i);
    } else if (neg) {
        auto v = value(s.substr(1), over);
        if (over || v > (unsigned __int128) INT64_MAX + 1) CHECK(ri != 0, "no error, signed " << i); else CHECK(ri == 0 && (__int128) i == -(__int128) v, (ri ? "error" : "") << " signed " << i);
    } else {
        bool start = !s.empty() && (isdigit((unsigned char) s[0]) || isspace((unsigned char) s[0]) || s[0] == '+' || s[0] == '-');
        if (!start) CHECK(ru != 0 && ri != 0, "text that begins with no number is accepted: " << u << " / " << i);
    }
}
int main(int argc, char** argv) {
    init(argc, argv, 6, 60);
    puts("RULE every text of up to 2 bytes, the neighbourhoods of 0, powers of ten and the limits of both 64-bit types, random digit strings with an optional sign and with one character replaced or inserted; non-trivial: a decimal number");
    one(""); for (auto w : {"false", "true", "False", "TRUE", "tru", "truee", "falsey", " true", "0x10", "1e3", "10.5", "٣"}) one(w);
    for (int a = 0; a < 256; a++) { one(std::string(1, (char) a)); for (int b = 0; b < 256; b++) one(std::string({(char) a, (char) b})); }
    std::vector<unsigned __int128> mid = {0, INT32_MAX, UINT32_MAX, INT64_MAX, UINT64_MAX, (unsigned __int128) 1 << 65}; unsigned __int128 t = 1;
    for (int i = 0; i < 22; i++, t *= 10) mid.push_back(t);
    for (auto m : mid) for (int d = -4; d <= 4; d++) {
        if (d < 0 && m < (unsigned) -d) continue;
        unsigned __int128 v = m + d; std::string s; do s.insert(s.begin(), '0' + (int) (v % 10)); while (v /= 10);
        for (auto p : {"", "-", "0", "00", "-0", "+"}) one(p + s);
    }
    while (more()) {
        std::string s; if (coin(3)) s = "-";
        for (int n = (int) rr(1, 22); n > 0; n--) s += (char) ('0' + rnd(10));
        one(s);
        s.insert(s.begin() + rnd(s.size() + 1), (char) rng()); one(s);
        s[rnd(s.size())] = pick<char>({'-', '+', ' ', '.', 'a', '/', ':', 0}); one(s);
    }
    return done();
}
