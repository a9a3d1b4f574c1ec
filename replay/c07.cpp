#include "rtl.h"
#include <nlohmann/json.hpp>
using namespace rtl;
int main(int argc, char** argv) {
    init(argc, argv, 12, 90);
    quiet();
    puts("RULE one context under strategy all; histories that cover every combination of small and confusable element ids (1, 11, 111, 10, 101, ...), invocations 0 to 30, argument indices (0, 1, 11, 111, ...) and directions, target names that look like parts of file names, output directories with unusual text; every capture has its own bytes; at the end each capture has its own file still holding its bytes, every index its own file, all inside the output directory, none shared; non-trivial: two captures or more");
    fs::path base = fs::path(WORK) / "names"; fs::create_directories(base);
    std::vector<std::string> names{"t", "t_inv0", "x_inv1_arg1", "a_in_1", "1", "_", "k.bin", "k.index.json", "\xc3\xa9 b", "inv"};
    std::vector<size_t> ids{0, 1, 11, 111, 10, 101, 2, 12, 112, 21, 211, size_t(1) << 32, ~size_t(0), (size_t) -1 / 10};
    std::vector<int> args{0, 1, 11, 111, 2, 12, 10, 21, 0x7fffffff, 214748364};
    strategy("all");
    while (more()) {
        for (auto& x : fs::directory_iterator(base)) fs::remove_all(x.path());
        fs::path dir = base / pick<std::string>({"out", "o_inv1", "a b/c", "x.bin", "out/"}); base_env(std::nullopt);
        if (coin(4)) base_env(dir.string());
        std::string name = pick(names);
        auto* c = open_ctx(name.c_str(), dir.c_str());
        std::vector<size_t> el; for (int i = 0, k = 1 + rnd(4); i < k; i++) el.push_back(pick(ids));
        std::map<std::string, std::string> caps, idx; // file -> what it holds
        std::map<size_t, int> inv; std::map<std::string, std::string> bytes_of; std::string hist = "target '" + name + "' in " + dir.lexically_relative(base).string() + ":"; unsigned long serial = 0;
        std::set<std::string> keys;
        for (int q = 0, n = 1 + rnd(coin(5) ? 60 : 12); q < n; q++) {
            size_t e = pick(el); __daisy_capture_enter(c, e); int k = inv.count(e) ? ++inv[e] : (inv[e] = 0);
            if (coin(5)) continue;
            std::set<std::pair<int, bool>> done_;
            for (int z = 0, m = 1 + rnd(5); z < m; z++) {
                int a = pick(args); bool o = coin(); if (!done_.insert({a, o}).second) continue;
                auto before = files(base);
                std::string b = "capture " + std::to_string(serial++) + rbytes(33); size_t w = coin() ? 0 : 1; std::vector<size_t> ex; size_t size = b.size();
                if (w) { int r = 1 + rnd(3); ex.assign(r, 1); ex[rnd(r)] = size; size = 1; }
                std::string key = std::to_string(e) + "/" + std::to_string(k) + "/" + std::to_string(a) + (o ? "/out" : "/in"); hist += " " + key;
                at(hist.size() > 900 ? hist.substr(0, 100) + "..." + hist.substr(hist.size() - 700) : hist, serial > 1);
                if (!rtl::call(c, a, b.data(), size, 1, ex, o, e)) { CHECK(false, "the capture fails"); continue; }
                std::vector<std::string> fresh; for (auto& f : files(base)) if (!before.count(f)) fresh.push_back(f);
                CHECK(fresh.size() == 1, "capture " << key << " makes " << fresh.size() << " new files: an older file is written again");
                for (auto& f : fresh) {
                    CHECK(fs::path(f).parent_path() == fs::path(dir.string().back() == '/' ? dir.parent_path() : dir), "capture " << key << " lies in " << fs::path(f).parent_path());
                    CHECK(!is_index(f), "capture " << key << " is in the index file " << f);
                    caps[f] = b;
                }
                for (auto& [f, s] : caps) CHECK(slurp(f) == s, "capture " << key << " changes the file " << f << " of another capture");
                for (auto& [f, s] : idx) CHECK(slurp(f) == s, "capture " << key << " changes the index " << f);
            }
            if (coin(6)) continue;
            auto before = files(base);
            try { __daisy_capture_end(c); } catch (std::exception& x) { CHECK(false, "the index cannot be written: " << x.what()); }
            std::vector<std::string> fresh; for (auto& f : files(base)) if (!before.count(f)) fresh.push_back(f);
            CHECK(fresh.size() == 1, "the index of element " << e << " invocation " << k << " makes " << fresh.size() << " new files");
            for (auto& f : fresh) {
                CHECK(is_index(f) && fs::path(f).parent_path() == fs::path(dir.string().back() == '/' ? dir.parent_path() : dir), "the index is " << f);
                idx[f] = slurp(f);
                auto j = nlohmann::json::parse(idx[f]); CHECK(j["element_id"] == std::to_string(e) && j["invocation"] == k, "the index says element " << j["element_id"] << " invocation " << j["invocation"]);
                for (auto& x : j["captures"]) {
                    CHECK(x.contains("ext_file"), "a capture names no file"); if (!x.contains("ext_file")) continue;
                    CHECK(caps.count((fs::path(f).parent_path() / x["ext_file"].get<std::string>()).string()), "the index refers to " << x["ext_file"]);
                }
            }
            for (auto& [f, s] : caps) CHECK(slurp(f) == s, "writing an index changes the capture " << f);
            for (auto& [f, s] : idx) CHECK(slurp(f) == s, "writing an index changes the index " << f);
        }
        auto all = files(base); CHECK(all.size() == caps.size() + idx.size(), all.size() << " files, want " << caps.size() << " captures and " << idx.size() << " indexes");
    }
    fs::remove_all(base);
    return done();
}
