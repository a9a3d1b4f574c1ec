#include "cap.h"
#include <sys/stat.h>
using namespace cap;
namespace fs = std::filesystem;
int main(int argc, char** argv) {
    init(argc, argv, 12, 90);
    quiet();
    signal(SIGXFSZ, SIG_IGN);
    puts("RULE histories of 1 to 12 file captures (also mixed with inline ones) over element ids, argument indices, directions, types and dimensions, to new and existing files of other sizes, in existing and new directories; faults: the device is full (at write and at close), a size limit cuts the write at any byte, the parent is a file, the path is a directory, the data pointer is null; after each capture the file and the whole store are compared with a reference; non-trivial: at least one byte or a fault");
    fs::path base = fs::path(WORK) / "caps";
    unsigned long round = 0;
    while (more()) {
        fs::remove_all(base); fs::create_directories(base);
        Model m; m.name = "t";
        Pub io("t");
        auto ev = elems(); for (auto& e : ev) if (coin(3)) { io.invocation(e); m.inv[e] = 0; }
        std::string el = pick(ev); int n = 1 + rnd(12); bool narrow = coin();
        std::map<std::string, std::string> want; // files that must keep their content
        for (int i = 0; i < n; i++) {
            std::string e = narrow && !coin(4) ? el : pick(ev);
            int a = narrow ? (int) rnd(3) : rarg(), pt = rnd(19); bool o = coin(); auto d = rdims(coin(5) ? 60000 : 3000);
            Buf b(rbytes(bytes(d))); auto before = b.str();
            if (coin(6)) { CHECK(inline_capture(io, m, e, a, o, pt, d, b), "the inline capture fails"); compare(io, m); continue; }
            fs::path file = base / ("f" + std::to_string(coin(3) ? rnd(3) : 1000 + ++round));
            if (coin(4)) file = base / ("new" + std::to_string(round++)) / "deep" / "f.bin";
            if (coin(8)) file = base / "sp ace" / "\xc3\xa9.bin";
            int fault = coin(3) ? 1 + rnd(5) : 0; if (fault == 1 && !b.n) fault = 0; bool null = false; size_t limit = 0;
            if (fault == 1) { file = base / ("full" + std::to_string(round++)); fs::create_symlink("/dev/full", file); }
            if (fault == 2) { limit = b.n ? rnd(b.n) : 0; if (!b.n) fault = 0; }
            if (fault == 3) { auto p = base / ("plain" + std::to_string(round++)); spit(p, "x"); want[p] = "x"; file = p / (coin() ? "f.bin" : "d/f.bin"); }
            if (fault == 4) { file = base / ("dir" + std::to_string(round++)); fs::create_directories(file); }
            if (fault == 5) { null = true; if (!b.n) fault = 0; }
            if (fault == 0 && coin(4)) spit((fs::create_directories(file.parent_path()), file), rbytes(rnd(9000))); // something older is there
            static const char* F[] = {"", "device full", "size limit", "parent is a file", "path is a directory", "null data"};
            at(show(e, a, o, pt, d) + " step " + std::to_string(i) + " file " + file.lexically_relative(base).string() + (fault ? std::string(" fault: ") + F[fault] + (fault == 2 ? " at " + std::to_string(limit) : "") : ""), b.n > 0 || fault);
            rlimit old; getrlimit(RLIMIT_FSIZE, &old);
            if (fault == 2) { rlimit l{limit, old.rlim_max}; setrlimit(RLIMIT_FSIZE, &l); }
            fs::path arg = file; Dims dd = d; bool ok, threw = false;
            bool direct = coin(5);
            try {
                ok = direct ? io.write_data_to_raw_file(file, null ? nullptr : b.p.get(), b.n) : io.create_and_capture_to_file(a, o, pt, dd, arg, null ? nullptr : b.p.get(), e);
            } catch (std::exception& x) { threw = true; ok = false; }
            setrlimit(RLIMIT_FSIZE, &old);
            CHECK(!threw, "the capture throws instead of reporting failure");
            CHECK(arg == file, "the path passed is changed"); CHECK(dd == d, "the dimensions passed are changed"); CHECK(b.str() == before, "the source is changed");
            CHECK(ok == (fault == 0), (ok ? "success is reported" : "failure is reported without a fault"));
            if (ok) {
                auto got = slurp(file);
                CHECK(got == before, "the file holds " << got.size() << " bytes, want " << before.size() << (got.size() == before.size() ? " (other bytes)" : ""));
            }
            if (fault != 1) { if (ok) want[file] = before; else if (fault != 3) want.erase(file); }
            for (auto& [p, s] : want) CHECK(slurp(p) == s, "file " << p << " changed");
            if (!direct) m.e[e][{a, o}] = Entry{pt, d, {}, ok ? std::optional<std::string>(file) : std::nullopt};
            compare(io, m);
        }
    }
    fs::remove_all(base);
    return done();
}
