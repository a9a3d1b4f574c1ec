// merging source ranges
#include "common.h"
#include <sdfg/element.h>
using namespace rp; using sdfg::DebugInfo;
static std::string show(const DebugInfo& d) { std::ostringstream o; if (!d.has()) o << "none"; else o << d.filename() << "/" << d.function() << " " << d.start_line() << ":" << d.start_column() << "-" << d.end_line() << ":" << d.end_column(); return o.str(); }
static bool same(const DebugInfo& a, const DebugInfo& b) { return show(a) == show(b); }
static DebugInfo some() {
    if (coin(12)) return DebugInfo();
    static const char* fi[] = {"a.c", "b.c", ""}; static const char* fu[] = {"f", "g", ""};
    size_t k = coin(8) ? 100000 : 4, a = rr(0, k), b = rr(0, 6), c = a + rr(0, k), d = rr(0, 6);
    if (c == a && d < b) std::swap(b, d);
    std::string f = coin(70) ? "a.c" : fi[rr(0, 2)];
    return coin(30) ? DebugInfo(f, a, b, c, d) : DebugInfo(f, fu[rr(0, 2)], a, b, c, d);
}
int main(int argc, char** argv) {
    init(argc, argv, 6, 30);
    puts("RULE two source ranges with lines and columns that often coincide; non-trivial: both have a range in the same file and a compatible function");
    while (more()) {
        DebugInfo l = some(), r = some();
        bool both = l.has() && r.has(), fit = both && l.filename() == r.filename() && (l.function() == r.function() || l.function().empty() || r.function().empty());
        at("merge(" + show(l) + ", " + show(r) + ")", fit);
        DebugInfo m = DebugInfo::merge(l, r);
        if (!both) CHECK(same(m, l.has() ? l : r), "gives " << show(m));
        else if (!fit) CHECK(same(m, l), "gives " << show(m));
        else {
            auto st = [](const DebugInfo& d) { return std::make_pair(d.start_line(), d.start_column()); };
            auto en = [](const DebugInfo& d) { return std::make_pair(d.end_line(), d.end_column()); };
            CHECK(m.has() && m.filename() == l.filename() && m.function() == (l.function().empty() ? r.function() : l.function()), "gives " << show(m));
            CHECK(st(m) == std::min(st(l), st(r)) && en(m) == std::max(en(l), en(r)), "gives " << show(m) << ", which does not cover both exactly");
        }
    }
    return done();
}
