#include "common.h"
#include <iostream>
#include <sdfg/helpers/helpers.h>
using namespace rp;
using V = std::vector<std::string>;
static std::string show(const V& v) { std::string r = "{"; for (auto& x : v) r += "\"" + x + "\","; return r + "}"; }
static std::string rtext(int n) { // few letters, so that delimiters occur, overlap and touch the ends
    static const std::vector<char> A = {'a', 'b', ',', ' ', 'a', (char) 0xe9, 0};
    int k = (int) rr(1, 6); std::string s;
    for (int i = 0; i < n; i++) s += coin(40) ? A[rnd(A.size())] : A[rnd(std::min<int>(k, 4))];
    return s;
}
static V ref_split(const std::string& s, const std::string& d) {
    V r; std::string cur; size_t i = 0;
    while (i < s.size()) {
        if (i + d.size() <= s.size() && std::memcmp(s.data() + i, d.data(), d.size()) == 0) { r.push_back(cur); cur.clear(); i += d.size(); }
        else cur += s[i++];
    }
    r.push_back(cur);
    return r;
}
template<class T> static std::string ref_join(const std::vector<T>& v, const std::string& d) {
    std::string r;
    for (size_t i = 0; i < v.size(); i++) { if (i) r += d; if constexpr (std::is_same_v<T, std::string>) r += v[i]; else r += std::to_string(v[i]); }
    return r;
}
static void check_split(const std::string& s, const std::string& d, const V& before) {
    at("split(" + show(before) + ", \"" + s + "\", \"" + d + "\")", s.find(d) != std::string::npos, 10);
    V r = before, want = before;
    for (auto& x : ref_split(s, d)) want.push_back(x);
    try { if (d == " " && coin()) sdfg::helpers::split(r, s); else sdfg::helpers::split(r, s, d); }
    catch (std::exception& e) { fail(std::string("throws ") + e.what()); return; }
    CHECK(r == want, "got " << show(r) << ", want " << show(want));
    V pieces(r.begin() + std::min(before.size(), r.size()), r.end());
    std::string dd = d;
    CHECK(sdfg::helpers::join(pieces, dd) == s, "joining the pieces gives " << sdfg::helpers::join(pieces, dd));
    for (auto& p : pieces) CHECK(p.find(d) == std::string::npos, "piece contains the delimiter: " << p);
}
int main(int argc, char** argv) {
    init(argc, argv, 8, 60);
    puts("RULE every text of up to 6 letters over {a,b} with every delimiter of up to 3 letters, texts of random length over few letters with delimiters of length 1..4 that occur, overlap and touch the ends, joins of random string and int lists; non-trivial: the delimiter occurs / the list has two elements or more");
    for (int n = 0; n <= 6; n++) for (int m = 0; m < (1 << n); m++)
        for (int dn = 1; dn <= 3; dn++) for (int dm = 0; dm < (1 << dn); dm++) {
            std::string s, d;
            for (int i = 0; i < n; i++) s += (m >> i & 1) ? 'b' : 'a';
            for (int i = 0; i < dn; i++) d += (dm >> i & 1) ? 'b' : 'a';
            check_split(s, d, {});
        }
    if (thorough) { // beyond the range of int
        std::string s((1ull << 31) + 100, 'x'); s += ",tail,"; V r;
        at("split of 2^31+106 characters", true, 120);
        try { sdfg::helpers::split(r, s, ","); CHECK(r.size() == 3 && r[1] == "tail" && r[2].empty() && r[0].size() == (1ull << 31) + 100, "got " << r.size() << " pieces"); }
        catch (std::exception& e) { fail(std::string("throws ") + e.what()); }
    }
    while (more()) {
        V before; for (int i = (int) rnd(3); i > 0; i--) before.push_back(rtext((int) rnd(4)));
        std::string s = rtext((int) rnd(coin(5) ? 400 : 24)), d = coin() ? std::string(" ") : rtext((int) rr(1, 4));
        check_split(s, d, before);
        V e; for (int i = (int) rnd(7); i > 0; i--) e.push_back(rtext((int) rnd(6)));
        std::string jd = rtext((int) rnd(4)); V e0 = e;
        at("join(" + show(e) + ", \"" + jd + "\")", e.size() >= 2, 10);
        auto got = sdfg::helpers::join(e, jd);
        CHECK(got == ref_join(e, jd), "got " << got);
        CHECK(e == e0, "the list is changed");
        at("join(" + show(e) + ", \", \" literal)", e.size() >= 2, 10);
        auto got2 = sdfg::helpers::join(e, ", ");
        CHECK(got2 == ref_join(e, ", "), "got " << got2);
        std::vector<int> iv; for (int i = (int) rnd(7); i > 0; i--) iv.push_back(coin() ? (int) rr(-3, 3) : (int) rng());
        std::vector<long long> lv(iv.begin(), iv.end());
        at("join of " + std::to_string(iv.size()) + " ints with \"" + jd + "\": " + ref_join(iv, "/"), iv.size() >= 2, 10);
        CHECK(sdfg::helpers::join(iv, jd) == ref_join(iv, jd), "got " << sdfg::helpers::join(iv, jd));
        CHECK(sdfg::helpers::join(lv, jd) == ref_join(lv, jd), "got " << sdfg::helpers::join(lv, jd));
    }
    return done();
}
