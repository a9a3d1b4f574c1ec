// The runtime capture interface as generated code uses it.
#pragma once
#include "cap.h"
#include <daisy_rtl/daisy_rtl.h>
#include <fcntl.h>
namespace rtl {
using namespace cap;
namespace fs = std::filesystem;
inline void strategy(const std::optional<std::string>& s) { if (s) setenv("__DAISY_CAPTURE_STRATEGY_DEFAULT", s->c_str(), 1); else unsetenv("__DAISY_CAPTURE_STRATEGY_DEFAULT"); }
inline void base_env(const std::optional<std::string>& s) { if (s) setenv("__DAISY_CAPTURE_BASE_DIR", s->c_str(), 1); else unsetenv("__DAISY_CAPTURE_BASE_DIR"); }
// init complains about unknown strategies on stderr: not into the log
inline __daisy_capture_t* open_ctx(const char* name, const char* dir) {
    fflush(stderr); int keep = dup(2), n = open("/dev/null", O_WRONLY); dup2(n, 2); close(n);
    auto* c = __daisy_capture_init(name, dir);
    fflush(stderr); dup2(keep, 2); close(keep);
    return c;
}
inline std::set<std::string> files(const fs::path& d) {
    std::set<std::string> r;
    if (fs::exists(d)) for (auto& x : fs::recursive_directory_iterator(d)) if (!x.is_directory()) r.insert(x.path().string());
    return r;
}
inline bool is_index(const std::string& f) { return f.ends_with(".index.json"); }
inline std::string show(const std::optional<std::string>& s) { return s ? "'" + *s + "'" : "unset"; }
// one capture call with 0 (raw) to 3 extents; true if it returned normally
inline bool call(__daisy_capture_t* c, int arg, const void* p, size_t size, int pt, const std::vector<size_t>& ex, bool after, size_t el) {
    try {
        if (ex.size() == 0) __daisy_capture_raw(c, arg, p, size, pt, after, el);
        else if (ex.size() == 1) __daisy_capture_1d(c, arg, p, size, pt, ex[0], after, el);
        else if (ex.size() == 2) __daisy_capture_2d(c, arg, p, size, pt, ex[0], ex[1], after, el);
        else __daisy_capture_3d(c, arg, p, size, pt, ex[0], ex[1], ex[2], after, el);
        return true;
    } catch (std::exception&) { return false; }
}
} // namespace rtl
