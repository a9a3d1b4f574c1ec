#include "common.h"
#include <iostream>
#include <sdfg/helpers/helpers.h>
using namespace rp; using namespace sdfg::helpers;
static bool ends(const std::string& v, const std::string& e) {
    if (e.size() > v.size()) return false;
    for (size_t i = 0; i < e.size(); i++) if (v[v.size() - e.size() + i] != e[i]) return false;
    return true;
}
static void one(const std::string& v, const std::string& e) {
    at("endswith(\"" + v + "\", \"" + e + "\")", !v.empty() && !e.empty(), 5);
    bool g = endswith(v, e);
    CHECK(g == ends(v, e), "got " << g);
}
template<class T> static std::string show(const std::unordered_set<T>& s) { std::ostringstream o; o << "{"; for (auto& x : s) o << x << ","; return o.str() + "}"; }
template<class T> static void meet(const std::unordered_set<T>& a, const std::unordered_set<T>& b) {
    at("sets_intersect(" + show(a) + ", " + show(b) + ")", !a.empty() && !b.empty(), 5);
    bool want = false; for (auto& x : a) for (auto& y : b) if (x == y) want = true;
    auto a0 = a, b0 = b;
    CHECK(sets_intersect(a, b) == want, "want " << want);
    CHECK(a0 == a && b0 == b, "a set is changed");
}
int main(int argc, char** argv) {
    init(argc, argv, 6, 60);
    puts("RULE every pair of texts of up to 5 letters over {a,b}; random texts whose ending is a true suffix, one with a changed letter, or longer; every pair of subsets of {0..4}; random sets of ints and strings of different sizes sharing none, one or many elements; non-trivial: both non-empty");
    std::vector<std::string> W; for (int n = 0; n <= 5; n++) for (int m = 0; m < (1 << n); m++) { std::string s; for (int i = 0; i < n; i++) s += (m >> i & 1) ? 'b' : 'a'; W.push_back(s); }
    for (auto& v : W) for (auto& e : W) one(v, e);
    for (int m = 0; m < 32; m++) for (int k = 0; k < 32; k++) { std::unordered_set<int> a, b; for (int i = 0; i < 5; i++) { if (m >> i & 1) a.insert(i); if (k >> i & 1) b.insert(i); } meet(a, b); }
    while (more()) {
        std::string v = rbytes(rnd(30)), e = v.substr(rnd(v.size() + 1)); one(v, e); one(e, v); one(v, v);
        if (!e.empty()) { auto f = e; f[rnd(f.size())] ^= 1 << rnd(8); one(v, f); one(v, "x" + f); one(v, e.substr(0, e.size() - 1)); }
        std::unordered_set<int> a, b; int base = coin() ? 0 : 1000;
        for (int i = (int) rnd(40); i > 0; i--) a.insert((int) rr(0, 900)); for (int i = (int) rnd(40); i > 0; i--) b.insert((int) rr(base, base + 900));
        meet(a, b); if (!a.empty()) { b.insert(*std::next(a.begin(), rnd(a.size()))); meet(a, b); meet(b, a); }
        std::unordered_set<std::string> sa, sb; for (int i : a) sa.insert(std::to_string(i)); for (int i : b) sb.insert(std::to_string(i)); meet(sa, sb); sb.insert(""); meet(sa, sb); sa.insert(""); meet(sb, sa);
    }
    return done();
}
