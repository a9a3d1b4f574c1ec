#include "rtl.h"
#include <nlohmann/json.hpp>
using namespace rtl;
int main(int argc, char** argv) {
    init(argc, argv, 12, 90);
    quiet();
    puts("RULE histories of 1 to 200 (now and then 70000) entries over 1 to 5 elements (ids 0, 1, 10, 2^31, 2^32, 2^64-1 and others, in rounds, nested and at random) in 1 to 3 contexts at once, under every strategy (all, once, never, absent, empty, other spellings) and base directory setting (argument, environment, neither); each answer of enter is compared with the rule, captures are made whatever enter says, and the invocation number in the index is read back; the null context is used with every call; non-trivial: a context and at least two entries");
    fs::path base = fs::path(WORK) / "strat"; fs::create_directories(base); fs::current_path(base);
    std::vector<std::optional<std::string>> strats{std::nullopt, "all", "once", "never", "", "ALL", "All", "all ", " all", "onc", "nevermore", "neve", "a", "al", "0", "1", "4294967295", "first", "always", "on\xc3\xa9"};
    std::vector<size_t> ids{0, 1, 2, 10, 11, 100, size_t(1) << 31, size_t(1) << 32, (size_t(1) << 32) + 1, ~size_t(0), ~size_t(0) - 1, rng()};
    while (more()) {
        for (auto& x : fs::directory_iterator(base)) fs::remove_all(x.path());
        int nc = 1 + rnd(3); struct C { __daisy_capture_t* c; std::string name; fs::path dir; bool all, never; std::map<size_t, uint64_t> n; };
        std::vector<C> cs; std::string what;
        for (int i = 0; i < nc; i++) {
            auto s = coin() ? strats[rnd(4)] : pick(strats); std::string name = "ctx" + std::to_string(i), arg = (base / ("arg" + std::to_string(i))).string(), ev = (base / ("env" + std::to_string(i))).string();
            bool useenv = coin(3), usearg = coin(4) ? false : true;
            strategy(s); base_env(useenv ? std::optional<std::string>(ev) : std::nullopt);
            C c{open_ctx(name.c_str(), usearg ? arg.c_str() : nullptr), name, useenv ? ev : usearg ? arg : (base / "arg_captures").string(), s == "all", s == "never", {}};
            what += name + " strategy " + rtl::show(s) + (useenv ? " base from environment; " : usearg ? " base given; " : " default base; ");
            at(what, false);
            CHECK((c.c == nullptr) == c.never, "strategy " << rtl::show(s) << " yields " << (c.c ? "a" : "no") << " context");
            if (coin(4)) { strategy("never"); base_env((base / "later").string()); }   // settings of later contexts do not matter to this one
            cs.push_back(c);
        }
        std::vector<size_t> el; for (int i = 0, k = 1 + rnd(5); i < k; i++) el.push_back(pick(ids));
        int steps = coin(400) ? 70000 : coin(4) ? 200 : 1 + rnd(20); bool round = coin(3);
        for (int q = 0; q < steps; q++) {
            C& c = cs[rnd(cs.size())]; size_t e = round ? el[q % el.size()] : coin(3) ? el[0] : pick(el);
            bool nt = c.c && q > 0;
            if (q < 8 || q % 50 == 0) at(what + "entry " + std::to_string(q) + " of element " + std::to_string(e) + " in " + c.name, nt);
            bool r = __daisy_capture_enter(c.c, e);
            uint64_t k = c.n.count(e) ? c.n[e] + 1 : 0;
            if (c.c) c.n[e] = k;
            bool want = c.c && (c.all || k == 0);
            CHECK(r == want, "entry " << k << " of element " << e << " in " << c.name << (r ? " is" : " is not") << " selected");
            if (steps > 1000) continue;
            if (!coin(3)) continue;
            auto before = files(base); auto b = rbytes(40);
            bool ok = rtl::call(c.c, 3, b.data(), 8, 4, coin() ? std::vector<size_t>{} : coin() ? std::vector<size_t>{5} : coin() ? std::vector<size_t>{1, 5} : std::vector<size_t>{1, 1, 5}, coin(), e);
            __daisy_capture_end(c.c);
            auto now = files(base);
            if (!c.c) { CHECK(ok, "a capture without a context raises an error"); CHECK(now == before, "a capture without a context writes files"); continue; }
            CHECK(ok, "the capture fails");
            std::vector<std::string> idx; for (auto& f : now) if (is_index(f) && fs::path(f).filename().string().starts_with(c.name + "_")) idx.push_back(f);
            bool found = false;
            for (auto& f : idx) {
                CHECK(fs::path(f).parent_path() == c.dir, "the index is in " << fs::path(f).parent_path() << ", want " << c.dir);
                auto j = nlohmann::json::parse(slurp(f));
                if (j["element_id"] == std::to_string(e) && j["invocation"] == k) found = true;
                if (j["element_id"] == std::to_string(e)) CHECK(j["invocation"].get<uint64_t>() <= k, "element " << e << " has an invocation numbered " << j["invocation"] << " after " << k);
            }
            CHECK(found, "no index of element " << e << " says invocation " << k);
            if (coin(3)) for (auto& f : now) fs::remove(f);
        }
        at(what + "no context", false);
        CHECK(!__daisy_capture_enter(nullptr, 0), "enter without a context says capture"); CHECK(rtl::call(nullptr, 0, nullptr, 8, 1, {1}, true, 0), "capture without a context raises an error"); __daisy_capture_end(nullptr);
    }
    fs::current_path(WORK); fs::remove_all(base);
    return done();
}
