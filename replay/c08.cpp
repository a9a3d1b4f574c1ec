#include "rtl.h"
using namespace rtl;
struct Want { int pt; Dims dims; std::string bytes; bool saved; };
int main(int argc, char** argv) {
    init(argc, argv, 12, 90);
    quiet();
    signal(SIGXFSZ, SIG_IGN);
    puts("RULE contexts with histories of 1 to 12 raw, 1-D, 2-D and 3-D captures of several entered elements, over element sizes 0 to 40 and 4096, extents 0 to 60 (all different, so that an exchange shows), types, arguments (also extreme) and directions, the same argument captured again in another shape; the source is overwritten after the call; faults: a size limit cuts the write at any byte, the directory cannot be made, the data pointer is null; what the indexes and files then say is compared with the calls; non-trivial: at least one byte or a fault");
    fs::path base = fs::path(WORK) / "shape";
    strategy("all"); base_env(std::nullopt);
    std::vector<size_t> ids{0, 1, 7, 12, ~size_t(0), size_t(1) << 33};
    while (more()) {
        fs::remove_all(base); fs::create_directories(base);
        fs::path dir = base / "out";
        auto* c = open_ctx("shape", dir.c_str());
        std::map<size_t, std::map<std::pair<int, bool>, Want>> m;
        size_t e = pick(ids); __daisy_capture_enter(c, e); std::string hist;
        std::vector<size_t> entered{e};
        bool blocked = coin(10); if (blocked) spit(dir, "in the way");
        for (int q = 0, n = 1 + rnd(12); q < n; q++) {
            int rank = rnd(4); bool narrow = coin();
            size_t size = coin(12) ? 0 : coin() ? pick<size_t>({1, 2, 4, 8, 16}) : coin(8) ? 4096 : 1 + rnd(40);
            std::vector<size_t> ex; size_t total = size;
            for (int i = 0; i < rank; i++) { size_t x = coin(15) ? 0 : coin(20) ? 60 : 1 + rnd(12); ex.push_back(x); total *= x; }
            if (coin(60) && rank) { ex[rnd(rank)] = 0; ex[rnd(rank)] = 0; if (coin()) { for (auto& x : ex) if (x) x = size_t(1) << 31; } total = size; for (auto x : ex) total *= x; }
            int a = narrow ? (int) rnd(2) : rarg(), pt = rnd(19); bool o = coin();
            Buf b(rbytes(total)); auto bytes = b.str();
            bool null = coin(12) && total > (rank ? 0 : 32), cut = !null && coin(6) && total > 0;
            size_t limit = cut ? rnd(total) : 0;
            std::string d = (rank == 0 ? std::string("raw") : std::to_string(rank) + "d") + " element " + std::to_string(e) + " arg " + std::to_string(a) + (o ? " out" : " in") + " type " + std::to_string(pt) + " size " + std::to_string(size) + " extents " + cap::show(ex)
                + (null ? " null data" : cut ? " size limit " + std::to_string(limit) : blocked ? " no directory" : "");
            hist += "; " + d; at(hist.size() > 1200 ? "..." + hist.substr(hist.size() - 1200) : hist, total > 0 || null);
            rlimit old; getrlimit(RLIMIT_FSIZE, &old);
            if (cut) { rlimit l{limit, old.rlim_max}; setrlimit(RLIMIT_FSIZE, &l); }
            bool ok = rtl::call(c, a, null ? nullptr : b.p ? b.p.get() : (char*) &b, size, pt, ex, o, e);
            setrlimit(RLIMIT_FSIZE, &old);
            CHECK(b.str() == bytes, "the argument is changed");
            if (b.n) memset(b.p.get(), 0x5a, b.n);
            if (!null && !cut && !blocked) CHECK(ok, "the capture raises an error");
            if (null) CHECK(!ok, "a capture without data returns normally");
            Dims dims{size}; for (auto x : ex) dims.push_back(x);
            if (ok || m[e].count({a, o})) m[e][{a, o}] = Want{pt, dims, bytes, ok};
            else m[e].erase({a, o});
            if (!ok) m[e][{a, o}] = Want{pt, dims, bytes, false};
        }
        bool threw = false; try { __daisy_capture_end(c); } catch (std::exception&) { threw = true; }
        if (blocked) { for (auto& [k, w] : m[e]) CHECK(!w.saved || w.bytes.size() <= 32, "a capture returns normally although no file can be made"); continue; }
        CHECK(!threw, "the index cannot be written");
        std::map<size_t, std::shared_ptr<Pub>> got;
        for (auto& f : files(dir)) if (is_index(f)) {
            try { auto p = arg_capture::ArgCaptureIO::from_index<Pub>(f); for (auto& [el, caps] : p->get_captures()) got[std::stoull(el)] = p; } catch (std::exception& x) { CHECK(false, "the index cannot be read: " << x.what()); }
        }
        for (auto& [el, caps] : m) {
            auto& have = got[el]; if (!have) { CHECK(caps.empty(), "element " << el << " has no index"); continue; }
            auto it = have->get_captures().find(std::to_string(el)); if (it == have->get_captures().end()) { CHECK(caps.empty(), "the index is of another element"); continue; }
            for (auto& [k, r] : it->second) CHECK(caps.count(k), "a capture of arg " << k.first << " appears from nowhere");
            for (auto& [k, w] : caps) {
                auto x = it->second.find(k); std::string who = cap::show(std::to_string(el), k.first, k.second, w.pt, w.dims);
                if (x == it->second.end()) { CHECK(!w.saved, "entry " << who << " is missing"); continue; }
                auto& r = x->second; std::string have_bytes; bool complete = false;
                if (r.data) { have_bytes.assign(r.data->begin(), r.data->end()); complete = true; }
                else if (r.ext_file) { have_bytes = slurp(*r.ext_file); complete = true; }
                if (!w.saved) { CHECK(!complete || (r.dims == w.dims && have_bytes == w.bytes), "entry " << who << " could not be saved but is recorded with " << have_bytes.size() << " bytes"); continue; }
                CHECK(r.arg_idx == k.first && r.after == k.second, "entry " << who << " says arg " << r.arg_idx << " after " << r.after);
                CHECK(r.primitive_type == w.pt, "entry " << who << " has type " << r.primitive_type);
                CHECK(r.dims == w.dims, "entry " << who << " has dims " << cap::show(r.dims));
                CHECK(complete, "entry " << who << " has no bytes");
                CHECK(have_bytes == w.bytes, "entry " << who << " holds " << have_bytes.size() << " bytes, want " << w.bytes.size() << (have_bytes.size() == w.bytes.size() ? " (other bytes)" : ""));
            }
        }
    }
    fs::remove_all(base);
    return done();
}
