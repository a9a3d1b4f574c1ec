// Reference model of a capture store, compared with the real one after every step.
#pragma once
#include "common.h"
#include <daisy_rtl/arg_capture_io.h>
#include <optional>
namespace cap {
using namespace rp;
using Dims = std::vector<size_t>;
struct Entry { int pt; Dims dims; std::optional<std::string> data, file; };
struct Model {
    std::string name;
    std::map<std::string, std::map<std::pair<int, bool>, Entry>> e;
    std::map<std::string, uint32_t> inv;
};
struct Pub : arg_capture::ArgCaptureIO { using ArgCaptureIO::ArgCaptureIO; using ArgCaptureIO::invokes_; };
inline size_t bytes(const Dims& d) { size_t n = 1; for (auto x : d) n *= x; return n; }
inline std::string show(const Dims& d) { std::string r = "{"; for (auto x : d) r += std::to_string(x) + ","; r += "}"; return r; }
inline std::string show(const std::string& e, int a, bool o, int pt, const Dims& d) {
    return "element '" + e + "' arg " + std::to_string(a) + (o ? " out" : " in") + " type " + std::to_string(pt) + " dims " + show(d);
}
inline std::vector<std::string> elems() {
    return {"", "0", "1", "12", "region", "a b", "\xc3\xa9l\xc3\xa9ment", std::string(80, 'x'), "e\"q\\", "10", "01"};
}
inline int rarg() { return pick<int>({0, 1, 2, 3, 7, 12, -1, 0x3fffffff, 0x40000000, 0x7fffffff, -0x7fffffff - 1, (int) rnd(50)}); }
inline Dims rdims(size_t lim = 5000) {
    Dims d{pick<size_t>({1, 2, 4, 8, 16, 3})};
    for (size_t n = rnd(5); n > 0; n--) {
        size_t x = coin(12) ? 0 : coin(3) ? 1 + rnd(2) : 1 + rnd(coin(6) ? 700 : 20);
        if (bytes(d) * x <= lim) d.push_back(x);
    }
    if (coin(20)) d = {rnd(lim)};
    if (coin(40)) d = {0};
    return d;
}
// what must hold of the whole store
inline void compare(const Pub& io, const Model& m) {
    CHECK(io.get_name() == m.name, "the target name is " << io.get_name());
    std::map<std::string, uint32_t> inv(io.invokes_.begin(), io.invokes_.end());
    CHECK(inv == m.inv, "an invocation counter changed");
    size_t n = 0, w = 0;
    for (auto& [e, caps] : io.get_captures()) n += caps.size();
    for (auto& [e, caps] : m.e) w += caps.size();
    CHECK(n == w, n << " entries, want " << w);
    for (auto& [e, caps] : m.e) {
        if (caps.empty()) continue;
        auto it = io.get_captures().find(e);
        if (it == io.get_captures().end()) { CHECK(false, "element '" << e << "' is lost"); continue; }
        for (auto& [k, x] : caps) {
            auto c = it->second.find(k);
            std::string who = show(e, k.first, k.second, x.pt, x.dims);
            if (c == it->second.end()) { CHECK(false, "entry " << who << " is lost"); continue; }
            auto& r = c->second;
            CHECK(r.arg_idx == k.first && r.after == k.second, "entry " << who << " says arg " << r.arg_idx << " after " << r.after);
            CHECK(r.primitive_type == x.pt, "entry " << who << " has type " << r.primitive_type);
            CHECK(r.dims == x.dims, "entry " << who << " has dims " << show(r.dims));
            CHECK((bool) r.data == (bool) x.data, "entry " << who << (r.data ? " has" : " lacks") << " inline data");
            CHECK((bool) r.ext_file == (bool) x.file, "entry " << who << (r.ext_file ? " refers to a file" : " lacks its file"));
            if (r.data && x.data) {
                CHECK(r.data->size() == x.data->size(), "entry " << who << " holds " << r.data->size() << " bytes, want " << x.data->size());
                if (r.data->size() == x.data->size()) CHECK(x.data->empty() || !memcmp(r.data->data(), x.data->data(), x.data->size()), "entry " << who << " holds other bytes");
            }
            if (r.ext_file && x.file) {
                CHECK(*r.ext_file == *x.file, "entry " << who << " refers to " << r.ext_file->string() << ", want " << *x.file);
            }
        }
    }
}
// a buffer of exactly n bytes: an access beyond it is seen
struct Buf {
    std::unique_ptr<char[]> p; size_t n;
    explicit Buf(const std::string& s) : p(s.empty() ? nullptr : new char[s.size()]), n(s.size()) { if (n) memcpy(p.get(), s.data(), n); }
    std::string str() const { return std::string(p.get() ? p.get() : "", n); }
};
inline void quiet() { std::cout.setstate(std::ios::failbit); std::cerr.setstate(std::ios::failbit); }
inline bool inline_capture(Pub& io, Model& m, const std::string& e, int a, bool o, int pt, const Dims& d, Buf& b) {
    Dims dd = d;
    bool ok = io.create_and_capture_inline(a, o, pt, dd, b.p.get(), e);
    for (auto& x : dd) { CHECK(&x - dd.data() >= 0 && x == d[&x - dd.data()], "the dimensions of the caller are changed"); x = 77; }
    m.e[e][{a, o}] = Entry{pt, d, b.str(), {}};
    return ok;
}
} // namespace cap
