// Random histories of the instrumentation interface in child processes, with a recording stand-in for libpapi;
// the trace file and the recorded calls are compared with an independent account of the history.
#include "common.h"
#include "fakepapi.h"
#include <cmath>
#include <dlfcn.h>
#include <daisy_rtl/daisy_rtl.h>
#include <nlohmann/json.hpp>
#include <optional>
#include <sys/mman.h>
using namespace rp;
using json = nlohmann::ordered_json;
static papi_shm* shm;
static bool is(const char* p) { return PROP == p; }
enum Kind { INIT, ENTER, EXIT, METRIC, INC, FIN, NULLINIT, BAD };
struct Op { Kind k; int r; std::string name; double v = 0; long long iv = 0; size_t bad = 0; int badkind = 0; };
struct Reg { __daisy_metadata_t md; __daisy_event_set es; std::string fn, file, mod, uuid; std::optional<std::string> s[7]; };
struct Hist { bool agg; std::optional<std::string> cpu, cuda; std::vector<Reg> regs; std::vector<Op> ops; std::string text; };
static std::vector<std::string> split(const std::optional<std::string>& s) {
    std::vector<std::string> r; if (!s || s->empty()) return r;
    std::string c; for (char x : *s) if (x == ',') { r.push_back(c); c = ""; } else c += x;
    r.push_back(c); return r;
}
static std::string word(bool weird) {
    static const char* W[] = {"main", "kernel", "a", "gemm_0", "loop", "corr elation", "x.y", "/p/q.c"};
    std::string s = W[rnd(8)];
    if (weird) { static const char* X[] = {"\"", "\\", "\n", "\t", "\x01", "/", "{", "],", "\\\"", "é", "%s", "%"}; s += X[rnd(12)]; s += W[rnd(8)]; }
    return s;
}
static Hist make(int nreg, int nops, bool misuse) {
    Hist h; h.agg = coin(); bool weird = coin(3) && (is("I04") || coin(4));
    auto list = [&]() -> std::optional<std::string> {
        if (is("I08")) {
            if (coin(8)) return std::nullopt;
            static const char* E[] = {"CYCLES", "A", "", "L1:MISS", " x ", "perf::INSTR", "ev\"q"};
            std::string s; int n = rnd(7); for (int i = 0; i < n; i++) { if (i) s += ","; s += E[rnd(coin(3) ? 7 : 6)]; if (coin()) s += std::to_string(i); }
            return s;
        }
        int n = rnd(4); if (!n) return coin() ? std::optional<std::string>() : std::optional<std::string>("");
        std::string s; for (int i = 0; i < n; i++) { if (i) s += ","; s += std::string(coin() ? "PAPI_" : "ev:") + (char) ('A' + (i * 7 + rnd(3)) % 26) + std::to_string(i); if (weird && coin(4)) s += "\\"; }
        return s;
    };
    h.cpu = list(); h.cuda = list();
    h.regs.resize(nreg);
    for (int i = 0; i < nreg; i++) {
        Reg& r = h.regs[i]; memset(&r.md, 0, sizeof r.md);
        r.uuid = (coin(4) ? "u" : "region_") + std::to_string(i * 1000 + 7) + (coin(3) ? "_x" : "");
        r.fn = "f" + std::to_string(i) + "_" + word(weird); r.mod = "m" + std::to_string(i) + (weird && coin() ? "\"q" : "") + ".c"; r.file = (coin() ? "/src/" : coin() ? "" : "a b/") + r.mod;
        for (auto& s : r.s) if (!coin(3)) s = coin(8) ? "" : word(weird);
        r.md.line_begin = rr(0, 5000); r.md.line_end = r.md.line_begin + rr(0, 99); r.md.column_begin = rr(0, 99); r.md.column_end = rr(0, 99);
        r.md.element_id = coin(5) ? (size_t) -1 - rnd(4) : rnd(9999); r.md.loopnest_index = (int) rr(-2, 99);
        r.md.num_loops = rnd(9); r.md.num_maps = rnd(9) + 10; r.md.num_fors = rnd(9) + 20; r.md.num_whiles = rnd(9) + 30; r.md.max_depth = rnd(9) + 40;
        r.md.is_perfectly_nested = coin(); r.md.is_perfectly_parallel = coin(); r.md.is_elementwise = coin(); r.md.has_side_effects = coin();
        r.es = (__daisy_event_set) rnd(3);
    }
    for (auto& r : h.regs) {
        r.md.function_name = r.fn.c_str(); r.md.file_name = r.file.c_str(); r.md.region_uuid = r.uuid.c_str();
        auto c = [&](int i) { return r.s[i] ? r.s[i]->c_str() : nullptr; };
        r.md.sdfg_name = c(0); r.md.sdfg_file = c(1); r.md.arg_capture_path = c(2); r.md.features_file = c(3); r.md.opt_report_file = c(4); r.md.element_type = c(5); r.md.target_type = c(6);
    }
    long long base = coin(4) ? 1LL << 24 : 0;      // close to each other and beyond what a float tells apart
    std::vector<int> st(nreg, 0), open(nreg, 0);   // 0 never, 1 active, 2 finalized
    for (int i = 0; i < nops; i++) {
        int r = rnd(nreg); Op o{INIT, r};
        if (misuse && coin(12)) { o.k = NULLINIT; h.ops.push_back(o); continue; }
        if (st[r] == 0 || st[r] == 2) {
            if (st[r] == 2 && misuse && coin(6)) { o.k = FIN; h.ops.push_back(o); continue; }
            if (coin(6)) continue;
            o.k = INIT; st[r] = 1;
        } else if (open[r]) {
            if (coin(4)) { o.k = coin() ? METRIC : INC; }
            else { o.k = EXIT; open[r] = 0; }
        } else {
            int c = rnd(10);
            if (c < 5) { o.k = ENTER; open[r] = 1; }
            else if (c < 7) o.k = coin() ? METRIC : INC;
            else if (c < 9) { o.k = FIN; st[r] = 2; }
            else if (misuse || coin(3)) o.k = INIT; else continue;
        }
        if (o.k == METRIC || o.k == INC) {
            static const char* N[] = {"flops", "bytes", "a b", "n", "q\"", "x\\y"};
            o.name = N[rnd(weird ? 6 : 4)];
            if (o.k == INC) o.iv = base ? base + rr(0, 20) : coin(6) ? rr(-1000000000000LL, 1000000000000LL) : rr(-20, 20);
            else o.v = coin(20) ? (coin() ? NAN : INFINITY) : coin(5) ? (double) rr(-1000000, 1000000) * 1e7 : (double) rr(-4000, 4000) / 8;
        }
        h.ops.push_back(o);
    }
    if (coin(4)) for (int r = 0; r < nreg; r++) if (open[r]) { h.ops.push_back({EXIT, r}); }
    for (size_t i = 0; i < h.ops.size(); i++) { static const char* K[] = {"init", "enter", "exit", "metric", "inc", "fin", "init0", "bad"}; if (i < 60) h.text += std::string(K[h.ops[i].k]) + std::to_string(h.ops[i].r) + " "; }
    h.text = (h.agg ? "aggregate " : "events ") + std::string("cpu=") + h.cpu.value_or("unset") + " cuda=" + h.cuda.value_or("unset") + " regions=" + std::to_string(nreg) + ": " + h.text;
    return h;
}
static void mark(long long i) { int n = __atomic_fetch_add(&shm->n, 1, __ATOMIC_RELAXED); if (n < PAPI_LOG) { shm->ev[n].op = P_MARK; shm->ev[n].v = i; } }
static void environment(const Hist& h, const std::string& trace) {
    setenv("DAISY_PAPI_PATH", getenv("SO_fakepapi"), 1); setenv("__DAISY_PAPI_VERSION", "0x7000000", 1);
    if (h.agg) setenv("__DAISY_INSTRUMENTATION_MODE", "aggregate", 1); else if (coin()) setenv("__DAISY_INSTRUMENTATION_MODE", "events", 1); else unsetenv("__DAISY_INSTRUMENTATION_MODE");
    if (trace.empty()) unsetenv("__DAISY_INSTRUMENTATION_FILE"); else setenv("__DAISY_INSTRUMENTATION_FILE", trace.c_str(), 1);
    if (h.cpu) setenv("__DAISY_INSTRUMENTATION_EVENTS", h.cpu->c_str(), 1); else unsetenv("__DAISY_INSTRUMENTATION_EVENTS");
    if (h.cuda) setenv("__DAISY_INSTRUMENTATION_EVENTS_CUDA", h.cuda->c_str(), 1); else unsetenv("__DAISY_INSTRUMENTATION_EVENTS_CUDA");
    void* l = dlopen(getenv("SO_fakepapi"), RTLD_LAZY); if (!l) { fprintf(stderr, "%s", dlerror()); _exit(77); }
    *(papi_shm**) dlsym(l, "papi_shm") = shm;
}
static void perform(Hist& h) {
    std::vector<size_t> id(h.regs.size(), 0);
    for (size_t i = 0; i < h.ops.size(); i++) {
        Op& o = h.ops[i]; mark(i); long long ret = 0;
        switch (o.k) {
        case INIT: ret = (long long) (id[o.r] = __daisy_instrumentation_init(&h.regs[o.r].md, h.regs[o.r].es)); break;
        case NULLINIT: ret = (long long) __daisy_instrumentation_init(nullptr, h.regs[o.r].es); break;
        case ENTER: __daisy_instrumentation_enter(id[o.r]); break;
        case EXIT: __daisy_instrumentation_exit(id[o.r]); break;
        case METRIC: { std::string n = o.name; __daisy_instrumentation_metric(id[o.r], n.c_str(), o.v); for (auto& c : n) c = '#'; break; }
        case INC: __daisy_instrumentation_increment(id[o.r], o.name.c_str(), o.iv); break;
        case FIN: __daisy_instrumentation_finalize(id[o.r]); break;
        case BAD:
            if (o.badkind == 0) __daisy_instrumentation_enter(o.bad);
            else if (o.badkind == 1) __daisy_instrumentation_exit(o.bad);
            else if (o.badkind == 2) __daisy_instrumentation_metric(o.bad, "m", 1);
            else if (o.badkind == 3) __daisy_instrumentation_increment(o.bad, "m", 1);
            else __daisy_instrumentation_finalize(o.bad);
            ret = 1; break;
        }
        if (i < 4096) shm->ret[i] = ret;
    }
    mark(h.ops.size());
    exit(0);
}
// ---- the account
struct Stat { long long n = 0; std::vector<long double> x; void add(long double v) { n++; x.push_back(v); }
    long double mean() const { long double s = 0; for (auto v : x) s += v; return s / n; }
    long double var() const { long double m = mean(), s = 0; for (auto v : x) s += (v - m) * (v - m); return s / n; }
    long double min() const { return *std::min_element(x.begin(), x.end()); }
    long double max() const { return *std::max_element(x.begin(), x.end()); } };
struct Pair { std::vector<long long> t0, t1; std::vector<std::vector<long long>> c0, c1; bool done = false; };
struct Acc { std::vector<Pair> p; std::map<std::string, Stat> m; bool known = false; std::vector<long long> first; };
static bool near(long double a, long double b, long double scale = 0) { return std::fabs((double) (a - b)) <= 2e-5L * std::max(std::fabs((double) b), (double) scale) + 1e-9; }
static std::string name_of(const Reg& r) { return r.fn + " [L" + std::to_string(r.md.line_begin) + "-" + std::to_string(r.md.line_end) + "]"; }
static void metadata(const Reg& r, const json& e, bool agg, pid_t pid) {
    auto& a = e["args"];
    CHECK(e["ph"] == "X", "phase"); CHECK(e["cat"] == (agg ? "aggregated_region,daisy" : "region,daisy"), "category " << e["cat"]);
    CHECK(e["pid"] == pid && e["tid"] == pid, "process id " << e["pid"] << " instead of " << pid);
    CHECK(a["function"] == r.fn && a["module"] == r.mod, "function or module of " << r.fn << ": " << a["function"] << a["module"]);
    auto& s = a["source_ranges"]; CHECK(s.size() == 1 && s[0]["file"] == r.file && s[0]["from"]["line"] == r.md.line_begin && s[0]["to"]["line"] == r.md.line_end && s[0]["from"]["col"] == r.md.column_begin && s[0]["to"]["col"] == r.md.column_end, "source range " << s);
    auto& d = a["docc"]; auto t = [&](int i) { return r.s[i].value_or(""); };
    CHECK(d["sdfg_name"] == t(0) && d["sdfg_file"] == t(1) && d["arg_capture_path"] == t(2) && d["features_file"] == t(3) && d["opt_report_file"] == t(4), "docc metadata " << d);
    CHECK(a["target_type"] == t(6), "target type " << a["target_type"]);
    if (r.s[0] && r.s[1]) {
        auto& l = d["loop_info"];
        CHECK(d["element_id"] == r.md.element_id && d["element_type"] == t(5) && d["loopnest_index"] == r.md.loopnest_index, "element metadata " << d);
        CHECK(l["loopnest_index"] == r.md.loopnest_index && l["num_loops"] == r.md.num_loops && l["num_maps"] == r.md.num_maps && l["num_fors"] == r.md.num_fors && l["num_whiles"] == r.md.num_whiles && l["max_depth"] == r.md.max_depth
            && l["is_perfectly_nested"] == r.md.is_perfectly_nested && l["is_perfectly_parallel"] == r.md.is_perfectly_parallel && l["is_elementwise"] == r.md.is_elementwise && l["has_side_effects"] == r.md.has_side_effects, "loop info " << l);
    }
}
static const std::vector<std::string> NONE;
static void judge(Hist& h, int upto, const std::string& trace, pid_t pid) {
    auto evcpu = split(h.cpu), evcuda = split(h.cuda);
    auto events = [&](int r) -> const std::vector<std::string>& { return h.regs[r].es == 0 ? evcpu : h.regs[r].es == 1 ? evcuda : NONE; };
    int nr = h.regs.size();
    std::vector<Acc> acc(nr);
    // ids
    std::map<int, long long> id; std::set<long long> used;
    for (int i = 0; i < upto && i < 4096; i++) {
        Op& o = h.ops[i];
        if (o.k == NULLINIT && is("I01")) CHECK(shm->ret[i] == 0, "registering no metadata returned " << shm->ret[i]);
        if (o.k != INIT) continue;
        long long v = shm->ret[i];
        if (is("I01")) {
            CHECK(v != 0, "registering region " << o.r << " returned 0");
            if (id.count(o.r)) CHECK(id[o.r] == v, "region " << o.r << " got id " << v << ", first it was " << id[o.r]);
            else CHECK(!used.count(v), "the new region " << o.r << " got id " << v << " of another region");
        }
        id.emplace(o.r, v); used.insert(v); acc[o.r].known = true;
    }
    // the log
    int n = std::min(shm->n, PAPI_LOG); long long cur = -1;
    struct Set { int region; bool live = true, started = false; std::vector<std::string> ev; };
    std::map<int, Set> sets; std::vector<int> state(nr, 0); std::vector<int> sleeping; std::vector<int> owner(nr, -1);
    auto opk = [&](long long i) -> Op* { return i >= 0 && i < (long long) h.ops.size() ? &h.ops[i] : nullptr; };
    auto finish = [&](long long i) {            // the state after operation i
        Op* o = opk(i); if (!o || i >= upto) return;
        if (o->k == INIT) { if (state[o->r] == 2) std::erase(sleeping, o->r); state[o->r] = 1;
            if (is("I05")) { CHECK(owner[o->r] >= 0 && sets[owner[o->r]].live, "region " << o->r << " is active without a live event set after operation " << i);
                CHECK(sets[owner[o->r]].ev == events(o->r), "the event set of region " << o->r << " does not hold the configured events");
                CHECK(sets[owner[o->r]].started, "the event set of region " << o->r << " was not started"); } }
        if (o->k == FIN && state[o->r] == 1) { state[o->r] = 2; sleeping.push_back(o->r); if (sleeping.size() > 10) { int v = sleeping.front(); sleeping.erase(sleeping.begin()); state[v] = 3;
                if (is("I05")) CHECK(owner[v] < 0, "the longest-finalized region " << v << " keeps its event set though ten others are cached"); }
            if (is("I05")) for (int r : sleeping) CHECK(owner[r] >= 0, "the event set of finalized region " << r << " was released with only " << sleeping.size() << " cached"); }
        if (is("I05")) { int live = 0; for (auto& [s, x] : sets) live += x.live; int act = 0; for (int r = 0; r < nr; r++) act += state[r] == 1; CHECK(live <= act + 10, live << " live event sets with " << act << " active regions"); }
    };
    std::map<int, int> reads; bool atexit_ = false;
    for (int i = 0; i < n; i++) {
        auto& e = shm->ev[i];
        Op* o = opk(cur);
        switch (e.op) {
        case P_MARK: finish(cur); cur = e.v; o = opk(cur); atexit_ = cur >= (long long) h.ops.size();
            if (o && o->k == ENTER) acc[o->r].p.push_back({});
            break;
        case P_CLOCK: if (o && acc[o->r].p.size()) { auto& p = acc[o->r].p.back(); if (o->k == ENTER) p.t0.push_back(e.v); if (o->k == EXIT) p.t1.push_back(e.v); } break;
        case P_READ: if (o && acc[o->r].p.size()) { auto& p = acc[o->r].p.back(); if (o->k == ENTER) p.c0.push_back({}); if (o->k == EXIT) p.c1.push_back({}); }
            if (is("I05")) CHECK(sets.count(e.es) && sets[e.es].live, "a counter of a dead event set " << e.es << " is read"); break;
        case P_VALUE: if (o && acc[o->r].p.size()) { auto& p = acc[o->r].p.back(); if (o->k == ENTER) p.c0.back().push_back(e.v); if (o->k == EXIT) p.c1.back().push_back(e.v); } break;
        case P_CREATE:
            sets[e.es] = Set{o ? o->r : -1};
            if (is("I05")) { CHECK(o && o->k == INIT, "an event set is created outside of a registration"); if (o) { CHECK(owner[o->r] < 0, "region " << o->r << " owns live event set " << owner[o->r] << " and gets another one"); } }
            if (o) owner[o->r] = e.es;
            break;
        case P_ADD: if (is("I05")) CHECK(sets.count(e.es) && sets[e.es].live && !sets[e.es].started, "an event is added to a dead or started set"); sets[e.es].ev.push_back(e.name); break;
        case P_START: if (is("I05")) { CHECK(sets.count(e.es) && sets[e.es].live, "a dead event set " << e.es << " is started"); if (o) { CHECK(sets[e.es].region == o->r, "the event set of another region is started"); CHECK(sets[e.es].ev == events(o->r), "started before the configured events were added"); } } sets[e.es].started = true; break;
        case P_STOP: case P_RESET: if (is("I05")) CHECK(sets.count(e.es) && sets[e.es].live, "a dead event set " << e.es << " is stopped"); break;
        case P_CLEANUP: case P_DESTROY:
            if (is("I05")) { CHECK(sets.count(e.es) && sets[e.es].live, "event set " << e.es << " is released again");
                if (sets.count(e.es) && sets[e.es].region >= 0) { int r = sets[e.es].region; bool fin = o && o->k == FIN && o->r == r; CHECK(state[r] != 1 || fin, "the event set of active region " << r << " is released");
                    CHECK(e.op == P_DESTROY || !e.v, "the event set of region " << r << " is cleaned up while it counts");
                    if (!atexit_) CHECK(sleeping.size() >= 10 && sleeping.front() == r, "not the longest-finalized region is released (region " << r << ")"); } }
            if (e.op == P_DESTROY) { if (sets.count(e.es)) { if (sets[e.es].region >= 0) owner[sets[e.es].region] = -1; sets[e.es].live = false; } }
            break;
        }
    }
    if (n == PAPI_LOG) return;
    if (upto == (int) h.ops.size() && is("I05")) for (auto& [s, x] : sets) if (x.region >= 0 && state[x.region] != 1) CHECK(!x.live, "the cached event set of region " << x.region << " is never released");
    if (is("I08")) {
        for (auto& [s, x] : sets) if (x.region >= 0) CHECK(x.ev == events(x.region), "configured '" << (h.regs[x.region].es == 0 ? h.cpu : h.regs[x.region].es == 1 ? h.cuda : std::optional<std::string>("(none)")).value_or("unset") << "' but " << x.ev.size() << " events were used");
        return;
    }
    if (is("I05")) return;
    // values
    for (int i = 0; i < upto; i++) { Op& o = h.ops[i];
        if (o.k == METRIC) acc[o.r].m[o.name].add(o.v);
        if (o.k == INC) acc[o.r].m[o.name].add((double) o.iv); }
    { std::vector<size_t> at(nr, 0); for (int i = 0; i < upto; i++) { Op& o = h.ops[i]; if (o.k == ENTER) at[o.r]++; if (o.k == EXIT && at[o.r] && at[o.r] <= acc[o.r].p.size()) acc[o.r].p[at[o.r] - 1].done = true; } }
    std::string text = slurp(trace); json j;
    try { j = json::parse(text); } catch (std::exception& x) { if (is("I04") || is("I07")) fail(std::string("the trace is no JSON document: ") + x.what()); return; }
    if (!j.is_object() || !j.contains("traceEvents") || !j["traceEvents"].is_array()) { if (is("I04")) fail("no array of trace events"); return; }
    std::map<std::string, std::vector<json>> by; size_t total = 0;
    for (auto& e : j["traceEvents"]) by[e.value("name", "?")].push_back(e);
    for (int r = 0; r < nr; r++) {
        auto& reg = h.regs[r]; auto& a = acc[r]; auto& es = by[name_of(reg)];
        size_t want = h.agg ? (a.known ? 1 : 0) : a.p.size(); total += want;
        if (is("I04") || is("I02") || is("I03") || is("I06") || is("I01") || is("I07")) CHECK(es.size() == want, es.size() << " trace events of region " << r << " instead of " << want);
        if (es.size() != want) continue;
        for (size_t k = 0; k < want; k++) {
            auto& e = es[k]; auto& m = e["args"]["metrics"];
            if (is("I04") || is("I01") || is("I07")) metadata(reg, e, h.agg, pid);
            if (!h.agg) {
                auto& p = a.p[k];
                if (is("I02") || is("I04") || is("I01")) {
                    bool okt = false; for (auto t : p.t0) okt |= e["ts"] == t / 1000;
                    CHECK(okt, "start " << e["ts"] << " of event " << k << " of region " << r << ", clock was " << (p.t0.empty() ? -1 : p.t0[0]));
                    if (p.done) {
                        bool okd = false; for (auto t : p.t0) for (auto u : p.t1) okd |= e.contains("dur") && near(e["dur"].get<double>(), (u - t) / 1000.0L);
                        CHECK(okd, "duration " << (e.contains("dur") ? e["dur"].dump() : "missing") << " of event " << k << " of region " << r << ", clock says " << (p.t1.empty() ? -1 : p.t1.back() - p.t0[0]));
                        auto& en = events(r); bool ok = false;
                        std::vector<std::string> got; for (auto& [key, v] : m.items()) got.push_back(key);
                        std::set<std::string> uniq(en.begin(), en.end());
                        if (en.empty()) CHECK(got.empty() && m.is_object(), "counters " << m << " of a region without counters");
                        else if (uniq.size() == en.size()) {
                            CHECK(got == en, "counters " << m << " are not the configured ones in order");
                            for (auto& c0 : p.c0) for (auto& c1 : p.c1) { bool all = c0.size() == en.size() && c1.size() == en.size(); for (size_t q = 0; all && q < en.size(); q++) all = m.value(en[q], 0LL) == c1[q] - c0[q]; ok |= all; }
                            CHECK(ok, "counters " << m << " of event " << k << " of region " << r << " are not the differences of the values read");
                        }
                    }
                }
                continue;
            }
            // aggregated
            if (is("I03") || is("I04") || is("I01")) {
                Stat d; std::vector<Stat> c(events(r).size()); bool amb = false;
                for (auto& p : a.p) if (p.done) { if (p.t0.size() != 1 || p.t1.size() != 1) { amb = true; break; } d.add(p.t1[0] - p.t0[0]); if (c.size()) { if (p.c0.size() != 1 || p.c1.size() != 1 || p.c0[0].size() != c.size() || p.c1[0].size() != c.size()) { amb = true; break; } for (size_t q = 0; q < c.size(); q++) c[q].add((double) 0 + (long double) (p.c1[0][q] - p.c0[0][q])); } }
                if (amb) continue;
                auto cmp = [&](const std::string& what, const json& x, const Stat& s, long double f) {
                    CHECK(x.is_object() && x["count"] == s.n, what << ": count " << x << " instead of " << s.n);
                    if (!s.n) return;
                    CHECK(near(x["min"].get<double>(), s.min() / f) && near(x["max"].get<double>(), s.max() / f), what << ": extrema " << x << " instead of " << (double) (s.min() / f) << ", " << (double) (s.max() / f));
                    CHECK(near(x["mean"].get<double>(), s.mean() / f, 1e-9 * std::fabs((double) s.max())), what << ": mean " << x << " instead of " << (double) (s.mean() / f));
                    CHECK(near(x["variance"].get<double>(), s.var() / f / f, 1e-6L * s.max() * s.max() / f / f), what << ": variance " << x << " instead of " << (double) (s.var() / f / f));
                    if (f == 1) CHECK(x["min"].get<long long>() == (long long) s.min() && x["max"].get<long long>() == (long long) s.max(), what << ": extrema are not exact " << x);
                };
                cmp("runtime of region " + std::to_string(r), m.value("runtime", json()), d, 1000);
                auto& en = events(r); std::set<std::string> uniq(en.begin(), en.end());
                if (uniq.size() == en.size()) for (size_t q = 0; q < en.size(); q++) cmp("counter " + en[q] + " of region " + std::to_string(r), m.value(en[q], json()), c[q], 1);
                if (a.p.size() && a.p[0].t0.size() == 1) CHECK(e["ts"] == a.p[0].t0[0] / 1000, "start " << e["ts"] << " instead of the first enter " << a.p[0].t0[0]);
                if (d.n) { long double s = 0; for (auto v : d.x) s += v; CHECK(near(e["dur"].get<double>(), s / 1000), "duration " << e["dur"] << " instead of the total " << (double) (s / 1000)); }
            }
            if (is("I06") || is("I04") || is("I01")) {
                size_t stat = 0; for (auto& [key, v] : m.items()) stat += key.starts_with("static:::");
                CHECK(stat == a.m.size(), stat << " static counters of region " << r << " instead of " << a.m.size());
                for (auto& [nm, s] : a.m) {
                    auto& x = m["static:::" + nm]; bool fin = true; for (auto v : s.x) fin &= std::isfinite((double) v);
                    CHECK(x.is_object() && x["count"] == s.n, "metric " << nm << ": count " << x << " instead of " << s.n);
                    if (!x.is_object()) continue;
                    if (!fin) { CHECK(x["mean"].is_null(), "metric " << nm << ": mean " << x["mean"] << " of values that are not finite"); continue; }
                    long double big = std::max(std::fabs((double) s.min()), std::fabs((double) s.max()));
                    CHECK(near(x["min"].get<double>(), s.min()) && near(x["max"].get<double>(), s.max()), "metric " << nm << ": extrema " << x << " instead of " << (double) s.min() << ", " << (double) s.max());
                    CHECK(near(x["mean"].get<double>(), s.mean(), 1e-9L * big), "metric " << nm << ": mean " << x << " instead of " << (double) s.mean());
                    CHECK(near(x["variance"].get<double>(), s.var(), 4e-11L * big * big), "metric " << nm << ": variance " << x << " instead of " << (double) s.var());
                }
            }
        }
    }
    if (is("I04") || is("I07") || is("I01")) CHECK(j["traceEvents"].size() == total, j["traceEvents"].size() << " trace events instead of " << total);
}
int main(int argc, char** argv) {
    puts("RULE random histories of init/enter/exit/metric/increment/finalize over 1..16 regions, both modes, random event lists and metadata");
    init(argc, argv, 14, 150);
    shm = (papi_shm*) mmap(nullptr, sizeof(papi_shm), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    std::string trace = WORK + "/trace.json";
    for (int it = 0; more(); it++) {
        bool many = is("I05") || coin(3);
        int nreg = it == 0 ? 1 : many ? rr(11, 16) : rr(1, 5), nops = it == 0 ? 0 : coin(5) ? rr(0, 4) : many ? rr(40, 160) : rr(2, 70);
        Hist h = make(nreg, nops, is("I01") || is("I05"));
        if (is("I03") || is("I06")) h.agg = true;
        if (is("I02")) h.agg = false;
        int upto = h.ops.size(); bool bad = is("I07");
        if (bad) {
            size_t cut = rnd(h.ops.size() + 1); h.ops.resize(cut); upto = cut;
            std::set<int> seen; for (auto& o : h.ops) if (o.k == INIT) seen.insert(o.r);
            Op o{BAD, 0}; o.badkind = it % 5; size_t k = seen.size();
            o.bad = coin(3) ? 0 : coin() ? k + 1 : coin() ? k + 1 + rnd(100) : (size_t) rng() | (1ull << 40);
            h.ops.push_back(o); h.text += " then kind " + std::to_string(o.badkind) + " with unknown id " + std::to_string(o.bad);
        }
        bool deflt = coin(6); std::string file = deflt ? WORK + "/daisy_trace.json" : trace;
        unlink(trace.c_str()); unlink((WORK + "/daisy_trace.json").c_str());
        at(h.text, h.ops.size() > 2);
        shm->n = 0; shm->quiet = 0; memset(shm->ret, 0xff, sizeof shm->ret); shm->seed = rng(); shm->init_fails = 0;
        std::string out; pid_t pid = 0; int* pp = (int*) &shm->ret[4095];
        int st = in_child([&] { *pp = getpid(); if (chdir(WORK.c_str())) {} environment(h, deflt ? "" : trace); perform(h); }, &out, 15);
        pid = *pp;
        if (!WIFEXITED(st)) { fail("the process died with signal " + std::to_string(WTERMSIG(st)) + ": " + out); continue; }
        int rc = WEXITSTATUS(st);
        if (rc == 77) { fprintf(stderr, "%s\n", out.c_str()); _exit(3); }
        if (rc == 99 || rc == 98) { fail("undefined behaviour: " + out); continue; }
        if (bad) {
            int i = h.ops.size() - 1;
            CHECK(rc != 0 && shm->ret[i] != 1, "using unknown id " << h.ops[i].bad << " returns normally (exit status " << rc << ")");
            CHECK(!out.empty(), "using unknown id " << h.ops[i].bad << " is not diagnosed");
            judge(h, upto, file, pid); continue;
        }
        CHECK(rc == 0, "exit status " << rc << ": " << out);
        if (rc) continue;
        bool any = false; for (auto& o : h.ops) any |= o.k != NULLINIT;
        if (!any) { if (is("I01")) CHECK(!std::filesystem::exists(file) || json::parse(slurp(file))["traceEvents"].empty(), "a region appeared"); continue; }
        judge(h, upto, file, pid);
    }
    return done();
}
