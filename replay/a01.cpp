#include "common.h"
#include <sdfg/codegen/code_compilation/argument_registry.h>
using namespace rp;
using sdfg::codegen::ArgumentRegistry;
using V = std::vector<std::string>;
int main(int argc, char** argv) {
    init(argc, argv, 6, 60);
    puts("RULE random histories of up to 60 registrations and queries over a few colliding names, compared after every step with two plain maps");
    V names = {"", "a", "b", "cuda", "openmp", std::string("a\0b", 3), "A", "very long target name .................................................."};
    while (more()) {
        std::ostringstream h;
        ArgumentRegistry r;
        std::map<std::string, V> m[2];
        int n = rr(1, 60);
        std::string hist;
        for (int i = 0; i < n; i++) {
            int k = rnd(2); std::string t = pick(names); if (coin(6)) t += std::to_string(rnd(50));
            V a; for (int j = rnd(4); j > 0; j--) a.push_back(coin(3) ? "" : "-arg" + std::to_string(rnd(9)) + std::string(rnd(30), 'x'));
            int op = rnd(3);
            hist += (op == 0 ? "reg" : op == 1 ? "get" : "size"); hist += k ? "L(" : "C("; hist += t + ") ";
            at(hist);
            if (op == 0) {
                bool threw = false;
                try { k ? r.register_linker_args(t, a) : r.register_compile_args(t, a); } catch (const std::runtime_error&) { threw = true; }
                CHECK(threw == (m[k].count(t) > 0), "registration of '" << t << "' " << (threw ? "failed" : "succeeded"));
                if (!threw) m[k][t] = a;
            }
            for (int kk = 0; kk < 2; kk++) {
                size_t s = kk ? r.size_linker_args() : r.size_compile_args();
                CHECK(s == m[kk].size(), "count " << s << " instead of " << m[kk].size());
                for (auto& nm : names) {
                    V got = kk ? r.get_linker_args(nm) : r.get_compile_args(nm);
                    V want = m[kk].count(nm) ? m[kk][nm] : V{};
                    CHECK(got == want, (kk ? "linker" : "compile") << " arguments of '" << nm << "' differ: " << got.size() << " entries, want " << want.size());
                }
                V got = kk ? r.get_linker_args(t) : r.get_compile_args(t);
                CHECK(got == (m[kk].count(t) ? m[kk][t] : V{}), "arguments of '" << t << "' differ");
                got.push_back("scribble");   // callers own their copy
            }
        }
        if (!more()) break;
    }
    CHECK(&ArgumentRegistry::instance() == &ArgumentRegistry::instance(), "the shared instance is not unique");
    return done();
}
