#include "cap.h"
using namespace cap;
namespace fs = std::filesystem;
int main(int argc, char** argv) {
    init(argc, argv, 8, 60);
    puts("RULE files of 0 to 100000 random bytes read with sizes below, at and above the file size into buffers with guard bytes of every pattern (the sanitizer watches the end too), also bytes that look like text ends and newlines; missing files, directories, a missing parent, a device that ends or fails early; written by the raw writer or directly; non-trivial: size above 0");
    quiet();
    fs::path base = fs::path(WORK) / "raw"; fs::remove_all(base); fs::create_directories(base);
    std::vector<size_t> sizes{0, 1, 2, 3, 7, 8, 511, 512, 4095, 4096, 4097, 8191, 8192, 8193, 16384, 65536, 100000};
    while (more()) {
        size_t n = coin(3) ? pick(sizes) : rnd(coin(5) ? 100000 : 300);
        auto body = coin(4) ? std::string(n, pick<char>({'\r', '\n', '\x1a', '\0', '\xff', ' '})) : rbytes(n);
        fs::path f = base / (coin() ? "f.bin" : "d\xc3\xa9 x/g.bin");
        fs::create_directories(f.parent_path());
        if (coin()) spit(f, body); else { Buf b(body); arg_capture::ArgCaptureIO::write_data_to_raw_file(f, b.p.get(), n); }
        for (int k = 0; k < 4; k++) {
            size_t want = k == 0 ? n : k == 1 ? rnd(n + 1) : k == 2 ? n + 1 + rnd(coin() ? 3 : 20000) : (n ? n - 1 : 0);
            fs::path g = f; int odd = coin(6) ? 1 + rnd(4) : 0;
            if (odd && !want) want = 1;
            if (odd == 1) g = base / "missing.bin";
            if (odd == 2) g = base;
            if (odd == 3) g = base / "nodir" / "x.bin";
            if (odd == 4) g = f / "x";
            size_t extra = rnd(40); char fill = (char) rng();
            at((odd ? "unreadable " : "") + g.filename().string() + " of " + std::to_string(n) + " bytes, read " + std::to_string(want), want > 0);
            std::string init = rbytes(want) + std::string(extra, fill);
            Buf b(init); bool threw = false;
            try { arg_capture::ArgCaptureIO::read_data_from_raw_file(g, b.p.get(), want); } catch (std::exception&) { threw = true; }
            auto got = b.str();
            CHECK(got.substr(want) == init.substr(want), "bytes beyond the " << want << " asked for changed");
            if (odd || want > n) CHECK(threw, "it returns normally");
            else { CHECK(!threw, "it raises an error"); CHECK(got.substr(0, want) == body.substr(0, want), "the buffer holds other bytes"); }
            if (!odd) CHECK(slurp(f) == body, "the file changed");
        }
    }
    fs::remove_all(base);
    return done();
}
