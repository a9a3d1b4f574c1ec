#include "cap.h"
#include <nlohmann/json.hpp>
using namespace cap;
namespace fs = std::filesystem;
static bool file_name_ok(const std::string& e) { return e.find('/') == std::string::npos; }
static void one(const Model& m, const fs::path& f, const std::string& e, const fs::path& dir) {
    std::shared_ptr<Pub> got;
    try { got = arg_capture::ArgCaptureIO::from_index<Pub>(f); } catch (std::exception& x) { CHECK(false, "the index of '" << e << "' cannot be loaded: " << x.what()); return; }
    Model w; w.name = m.name; w.inv[e] = m.inv.at(e); w.e[e] = m.e.at(e);
    for (auto& [k, x] : w.e[e]) if (x.file) x.file = (dir / fs::path(*x.file).filename()).string();
    compare(*got, w);
    for (auto& [el, c] : got->get_captures()) CHECK(el == e || c.empty(), "captures of element '" << el << "' appear in the index of '" << e << "'");
}
static bool rejected(const fs::path& f) {
    try { arg_capture::ArgCaptureIO::from_index<Pub>(f); return false; } catch (std::exception&) { return true; }
}
int main(int argc, char** argv) {
    init(argc, argv, 12, 90);
    quiet();
    puts("RULE stores of 1 to 6 elements with 0 to 40 captures each, inline and in files, over argument indices (also negative and extreme), directions, types, dimensions (also zero extents, 0 to 8 of them, above 2^32) and byte strings; element ids and target names with spaces, quotes, non-ASCII, digits and empty ones; counters over 0 to 2^32-1; the index of every element is loaded back and compared; the directory is moved; older longer indexes are overwritten; missing, empty, truncated, non-JSON and foreign-format indexes and members; indexes that cannot be written (device full, a directory in the way); non-trivial: at least one capture");
    fs::path base = fs::path(WORK) / "idx";
    std::vector<std::string> names{"t", "target", "a b", "q\"\\", "\xc3\xa9", "x_inv0_1", "", "tab\tnew\nline"};
    unsigned long round = 0;
    while (more()) {
        fs::remove_all(base); fs::path dir = base / (coin(4) ? "deep/er dir" : "d"); fs::create_directories(dir);
        Model m; m.name = pick(names); Pub io(m.name.c_str());
        auto ev = elems(); int ne = 1 + rnd(coin() ? 2 : 6), big = coin(4); std::string what = "target '" + m.name + "'"; size_t total = 0;
        for (int q = 0; q < ne; q++) {
            std::string e = pick(ev);
            if (!m.inv.count(e)) { uint32_t v = coin(3) ? 0 : pick<uint32_t>({0, 1, 2, 9, 10, 41, 0x7fffffff, 0x80000000u, 0xffffffffu}); io.invokes_[e] = v; m.inv[e] = v; }
            int n = coin(8) ? 1 : rnd(big ? 40 : 5);
            for (int i = 0; i < n; i++) {
                int a = coin() ? i / 2 : rarg(), pt = rnd(19); bool o = coin() ? i & 1 : coin(); auto d = rdims(coin(5) ? 20000 : 200);
                if (coin(12)) d.assign(rnd(9), 1 + rnd(2));
                if (coin(15)) { d = {size_t(1) << (32 + rnd(32)), 0, rnd(3)}; }
                Buf b(rbytes(bytes(d))); what += "; " + show(e, a, o, pt, d);
                if (coin(3)) {
                    fs::path f = dir / (coin(6) ? "sp \xc3\xa9 " + std::to_string(round) : "f" + std::to_string(round)); round++;
                    bool ok = io.create_and_capture_to_file(a, o, pt, d, f, b.p.get() ? (void*) b.p.get() : (void*) &b, e);
                    m.e[e][{a, o}] = Entry{pt, d, {}, ok ? std::optional<std::string>(f) : std::nullopt};
                } else { inline_capture(io, m, e, a, o, pt, d, b); }
                total++;
            }
        }
        if (what.size() > 1500) what = what.substr(0, 1500) + "...";
        at(what, total > 0);
        std::map<std::string, fs::path> files;
        for (auto& [e, c] : m.e) files[e] = dir / (m.name + "_inv" + std::to_string(m.inv[e]) + "_" + e + ".index.json");
        if (coin(3)) for (auto& [e, f] : files) spit(f, std::string(20000, 'z'));
        try { io.write_index(dir); } catch (std::exception& x) { CHECK(false, "writing the index fails: " << x.what()); continue; }
        compare(io, m);
        size_t n = 0; for (auto& x : fs::directory_iterator(dir)) n += x.path().string().ends_with(".index.json");
        std::set<fs::path> distinct; for (auto& [e, f] : files) distinct.insert(f);
        CHECK(n == distinct.size(), n << " index files, want " << distinct.size());
        if (distinct.size() == files.size()) for (auto& [e, f] : files) one(m, f, e, dir);
        if (coin(4) && distinct.size() == files.size()) {
            fs::path d2 = base / "moved"; fs::rename(dir, d2);
            for (auto& [e, f] : files) one(m, d2 / f.filename(), e, d2);
            fs::rename(d2, dir);
        }
        if (files.empty()) continue;
        // captures again: the index describes the newer ones
        auto it = files.begin(); std::advance(it, rnd(files.size())); auto [e, f] = *it;
        if (coin(3)) {
            io.clear(); for (auto& [k, c] : m.e) c.clear();
            Buf b(rbytes(8)); inline_capture(io, m, e, 0, true, 3, {8}, b); m.e.erase(m.e.begin(), m.e.end()); m.e[e][{0, true}] = Entry{3, {8}, b.str(), {}};
            io.write_index(dir); one(m, f, e, dir);
        }
        // indexes that have to be rejected
        auto text = slurp(f); auto j = nlohmann::json::parse(text);
        fs::path bad = dir / "bad.index.json";
        CHECK(rejected(dir / "missing.index.json"), "a missing index is accepted");
        CHECK(rejected(dir), "a directory is accepted as an index");
        spit(bad, ""); CHECK(rejected(bad), "an empty index is accepted");
        spit(bad, text.substr(0, rnd(text.size()))); CHECK(rejected(bad), "a truncated index is accepted");
        for (long v : {0L, 2L, 3L, 255L, 257L, 65537L, -1L}) { auto k = j; k["format"] = v; spit(bad, k.dump()); CHECK(rejected(bad), "an index of format " << v << " is accepted"); }
        { auto k = j; k.erase("format"); spit(bad, k.dump()); CHECK(rejected(bad), "an index without a format is accepted"); }
        for (auto key : {"target", "invocation", "element_id"}) { auto k = j; k.erase(key); spit(bad, k.dump()); CHECK(rejected(bad), "an index without " << key << " is accepted"); }
        { auto k = j; spit(bad, k.dump(coin() ? 4 : -1)); CHECK(!rejected(bad), "an index laid out differently is rejected"); }
        // faults while writing
        fs::remove(f); int fault = rnd(2);
        if (fault == 0) fs::create_symlink("/dev/full", f); else fs::create_directory(f);
        bool threw = false; try { io.write_index(dir); } catch (std::exception&) { threw = true; }
        if (m.e.count(e)) CHECK(threw, "an index that cannot be written (" << (fault ? "a directory is there" : "device full") << ") is reported as written");
        fs::remove(f);
    }
    fs::remove_all(base);
    return done();
}
