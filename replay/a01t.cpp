// the same operations from several threads, under the thread sanitizer
#include "common.h"
#include <thread>
#include <atomic>
#include <sdfg/codegen/code_compilation/argument_registry.h>
using namespace rp;
using sdfg::codegen::ArgumentRegistry;
int main(int argc, char** argv) {
    init(argc, argv, 5, 40);
    puts("RULE four threads register and query concurrently; thread sanitizer reports races; every list observed is complete");
    while (more()) {
        ArgumentRegistry r;
        at("concurrent round " + std::to_string(cases));
        std::atomic<int> ok{0}, bad{0};
        std::vector<std::thread> ts;
        for (int t = 0; t < 4; t++)
            ts.emplace_back([&, t] {
                for (int i = 0; i < 40; i++) {
                    std::string n = "t" + std::to_string(i);
                    std::vector<std::string> a(5, std::to_string(t));
                    try { (i & 1) ? r.register_linker_args(n, a) : r.register_compile_args(n, a); ok++; } catch (const std::runtime_error&) {}
                    auto g = (i & 1) ? r.get_linker_args(n) : r.get_compile_args(n);
                    if (g.size() != 5) bad++;
                    for (auto& x : g) if (x != g[0]) bad++;
                    r.size_compile_args(); r.size_linker_args();
                }
            });
        for (auto& t : ts) t.join();
        CHECK(bad == 0, "a torn list was observed");
        CHECK(ok == 40, "registration succeeded " << ok << " times for 40 targets");
    }
    return done();
}
