// I09: the instrumentation operations from several threads, under the thread sanitizer
#include "common.h"
#include <atomic>
#include <cstring>
#include <daisy_rtl/daisy_rtl.h>
#include <map>
#include <nlohmann/json.hpp>
#include <set>
#include <sys/mman.h>
#include <thread>
using namespace rp;
using json = nlohmann::ordered_json;
static __daisy_metadata_t meta(const char* uuid, const char* fn) {
    __daisy_metadata_t m; memset(&m, 0, sizeof m);
    m.file_name = "/x/y.c"; m.function_name = fn; m.region_uuid = uuid; return m;
}
int main(int argc, char** argv) {
    init(argc, argv, 24, 200);
    puts("RULE four threads register, enter, exit, measure and finalize concurrently (own and shared regions); thread sanitizer reports races; ids, events and metric counts are complete");
    struct Sh { std::atomic<int> bad; }* sh = (Sh*) mmap(nullptr, 4096, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    std::string trace = WORK + "/trace.json";
    while (more()) {
        bool agg = coin(); int es = rnd(3); int K = 5 + rnd(12), R = 2 + rnd(6); bool fin = coin();
        at("four threads, " + std::string(agg ? "aggregated" : "per event") + ", event set " + std::to_string(es) + ", " + std::to_string(R) + " regions per thread, " + std::to_string(K) + " rounds" + (fin ? ", finalizing" : ""));
        sh->bad = 0; unlink(trace.c_str());
        std::string out;
        int st = in_child([&] {
            setenv("DAISY_PAPI_PATH", getenv("SO_fakepapi"), 1); setenv("__DAISY_PAPI_VERSION", "0x7000000", 1);
            setenv("__DAISY_INSTRUMENTATION_MODE", agg ? "aggregate" : "events", 1); setenv("__DAISY_INSTRUMENTATION_FILE", trace.c_str(), 1);
            setenv("__DAISY_INSTRUMENTATION_EVENTS", "A,B", 1); setenv("__DAISY_INSTRUMENTATION_EVENTS_CUDA", "C", 1);
            static std::vector<std::string> u, f; static size_t id[4][16], shared[4][64];
            for (int t = 0; t < 4; t++) for (int r = 0; r < R; r++) { u.push_back("u" + std::to_string(t) + "_" + std::to_string(r)); f.push_back("f" + std::to_string(t) + "_" + std::to_string(r)); }
            std::vector<std::thread> ts;
            for (int t = 0; t < 4; t++) ts.emplace_back([&, t] {
                auto sm = meta("shared", "shared");
                for (int k = 0; k < K; k++) {
                    for (int r = 0; r < R; r++) {
                        auto m = meta(u[t * R + r].c_str(), f[t * R + r].c_str());
                        if (k == 0 || fin) { size_t i = __daisy_instrumentation_init(&m, (__daisy_event_set) es); if (k && i != id[t][r]) sh->bad++; id[t][r] = i; }
                        __daisy_instrumentation_enter(id[t][r]);
                        if (k % 2) __daisy_instrumentation_increment(id[t][r], "n", k);
                        __daisy_instrumentation_exit(id[t][r]);
                        if (fin) __daisy_instrumentation_finalize(id[t][r]);
                    }
                    size_t s = shared[t][k] = __daisy_instrumentation_init(&sm, (__daisy_event_set) es);
                    __daisy_instrumentation_metric(s, "m", 1.0); __daisy_instrumentation_increment(s, "i", 2);
                    if (s != shared[t][0]) sh->bad++;
                }
            });
            for (auto& t : ts) t.join();
            std::set<size_t> ids; for (int t = 0; t < 4; t++) { for (int r = 0; r < R; r++) ids.insert(id[t][r]); if (shared[t][0] != shared[0][0]) sh->bad++; }
            if (ids.size() != (size_t) (4 * R) || ids.count(shared[0][0]) || ids.count(0)) sh->bad++;
            exit(0);
        }, &out, 60);
        CHECK(WIFEXITED(st) && WEXITSTATUS(st) == 0, "the process ended with " << (WIFEXITED(st) ? WEXITSTATUS(st) : -WTERMSIG(st)) << ": " << out.substr(0, 3000));
        if (!(WIFEXITED(st) && WEXITSTATUS(st) == 0)) continue;
        CHECK(sh->bad == 0, "region ids of concurrent registrations are not stable and distinct");
        json j;
        try { j = json::parse(slurp(trace)); } catch (const std::exception& e) { fail("the trace is not JSON: " + std::string(e.what())); continue; }
        std::map<std::string, int> n;
        for (auto& e : j["traceEvents"]) {
            std::string fn = e["args"]["function"]; n[fn]++;
            if (!agg) continue;
            auto& m = e["args"]["metrics"];
            if (fn == "shared") { CHECK(m["static:::m"]["count"] == 4 * K && m["static:::i"]["count"] == 4 * K, "shared metric counts " << m << " instead of " << 4 * K); CHECK(m["static:::i"]["mean"] == 2, "shared metric mean " << m); }
            else { CHECK(m["runtime"]["count"] == K, "count " << m["runtime"] << " of " << fn << " instead of " << K); if (K > 1) CHECK(m["static:::n"]["count"] == K / 2, "metric count of " << fn); }
        }
        for (int t = 0; t < 4; t++) for (int r = 0; r < R; r++) { std::string fn = "f" + std::to_string(t) + "_" + std::to_string(r); CHECK(n[fn] == (agg ? 1 : K), n[fn] << " events of " << fn << " instead of " << (agg ? 1 : K)); }
    }
    return done();
}
