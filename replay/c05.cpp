#include "cap.h"
using namespace cap;
namespace fs = std::filesystem;
int main(int argc, char** argv) {
    init(argc, argv, 10, 90);
    quiet();
    puts("RULE histories of 2 to 40 captures, inline or to a file (with and without success), of very few arguments, both directions and few elements so that most recapture an entry, with clears, invocations and repeated captures of equal shape between them; the whole store is compared with a reference after each; non-trivial: an entry is replaced");
    fs::path base = fs::path(WORK) / "caps";
    unsigned long round = 0;
    while (more()) {
        fs::remove_all(base); fs::create_directories(base);
        Model m; m.name = "t";
        Pub io("t");
        auto ev = elems(); std::vector<std::string> es{pick(ev), pick(ev), pick(ev)};
        if (coin(3)) es = {pick(ev)};
        std::vector<int> as{rarg(), rarg()}; if (coin()) as = {(int) rnd(2), 1 + (int) rnd(2)};
        Dims fixed = rdims(300); bool same = coin(3);
        int n = 2 + rnd(39);
        for (int i = 0; i < n; i++) {
            if (coin(12)) { at("clear at step " + std::to_string(i)); io.clear(); m.e.clear(); compare(io, m); CHECK(io.get_captures().empty() || [&] { for (auto& x : io.get_captures()) if (!x.second.empty()) return false; return true; }(), "an entry survives"); }
            if (coin(8)) { auto e = pick(es); io.invocation(e); m.inv[e] = m.inv.count(e) ? m.inv[e] + 1 : 0; compare(io, m); }
            auto e = pick(es); int a = pick(as), pt = rnd(19); bool o = coin(); auto d = same ? fixed : rdims(300);
            Buf b(rbytes(bytes(d)));
            bool repl = m.e.count(e) && m.e[e].count({a, o});
            if (coin()) {
                at("inline " + show(e, a, o, pt, d) + " step " + std::to_string(i), repl);
                inline_capture(io, m, e, a, o, pt, d, b);
                if (b.n) memset(b.p.get(), 1, b.n);
            } else {
                fs::path file = base / ("f" + std::to_string(coin(3) ? rnd(3) : round++));
                bool bad = b.n && coin(4);
                at(std::string(bad ? "failing " : "") + "file " + show(e, a, o, pt, d) + " step " + std::to_string(i), repl);
                bool ok = io.create_and_capture_to_file(a, o, pt, d, file, bad ? nullptr : b.p.get(), e);
                CHECK(ok == !bad, "reported as " << ok);
                m.e[e][{a, o}] = Entry{pt, d, {}, ok ? std::optional<std::string>(file) : std::nullopt};
            }
            compare(io, m);
        }
    }
    fs::remove_all(base);
    return done();
}
