#include "cap.h"
#include <sys/mman.h>
using namespace cap;
int main(int argc, char** argv) {
    init(argc, argv, 10, 90);
    quiet();
    puts("RULE histories of 1 to 25 inline captures over 11 element ids, 12 argument indices (negative and extreme ones too), both directions, 19 types, 1 to 6 dimensions (zero extents too); after each capture the source is overwritten and the whole store is compared with a reference; one argument over 2 GiB; non-trivial: at least one byte");
    bool big = false;
    while (more()) {
        Model m; m.name = pick<std::string>({"t", "", "some target"});
        Pub io(m.name.c_str());
        for (auto& e : elems()) if (coin()) for (int k = rnd(3); k >= 0; k--) { io.invocation(e); m.inv[e] = m.inv.count(e) ? m.inv[e] + 1 : 0; }
        auto ev = elems();
        std::string el = pick(ev); int n = 1 + rnd(25); bool narrow = coin();
        for (int i = 0; i < n; i++) {
            std::string e = narrow && !coin(4) ? el : pick(ev);
            int a = rarg(), pt = rnd(19); bool o = coin(); auto d = rdims();
            Buf b(coin(4) ? std::string(bytes(d), (char) rng()) : rbytes(bytes(d))); auto before = b.str();
            at(show(e, a, o, pt, d) + " step " + std::to_string(i), b.n > 0);
            CHECK(inline_capture(io, m, e, a, o, pt, d, b), "the capture fails");
            CHECK(b.str() == before, "the source is changed");
            if (b.n) { memset(b.p.get(), ~before[0], b.n); }
            compare(io, m);
        }
        if (!big && elapsed() > budget / 2) {
            big = true;
            Dims d{1, 65536, 32769}; size_t nb = bytes(d);
            at("one argument of " + std::to_string(nb) + " bytes", true, 120);
            char* p = (char*) mmap(0, nb, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
            if (p != MAP_FAILED) {
                p[0] = 1; p[nb - 1] = 2; p[nb / 2] = 3; p[0x7fffffff] = 4; p[65535] = 5;
                Pub io2("big"); bool ok = io2.create_and_capture_inline(0, false, 1, d, p, "b");
                CHECK(ok, "the capture fails");
                auto& c = io2.get_captures().at("b").at({0, false});
                CHECK(c.data && c.data->size() == nb, "it holds " << (c.data ? c.data->size() : 0) << " bytes");
                if (c.data && c.data->size() == nb) CHECK(!memcmp(c.data->data(), p, nb), "it holds other bytes");
                munmap(p, nb);
            }
        }
    }
    return done();
}
