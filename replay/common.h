// Shared plumbing of the replay harnesses: contracts evaluated at run time on the real code.
#pragma once
#include <csignal>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <chrono>
#include <filesystem>
#include <fstream>
#include <functional>
#include <map>
#include <random>
#include <set>
#include <sstream>
#include <string>
#include <sys/resource.h>
#include <sys/wait.h>
#include <unistd.h>
#include <unordered_set>
#include <vector>

namespace rp {
inline std::string PROP, WORK;
inline std::mt19937_64 rng;
inline unsigned long cases = 0;
inline std::unordered_set<size_t> distinct;
inline int nfail = 0, nsample = 0;
inline bool thorough = false;
inline char at_buf[4096];
inline std::chrono::steady_clock::time_point t0;
inline double budget = 20;
inline void flush_counts() {
    printf("CASES %lu\nDISTINCT %zu\n", cases, distinct.size());
    fflush(stdout);
}
inline std::string clean(std::string s) {
    std::string r;
    for (unsigned char c : s) {
        if (c == '\n') r += "\\n";
        else if (c < 32 || c > 126) { char b[8]; snprintf(b, sizeof b, "\\x%02x", c); r += b; }
        else r += (char) c;
    }
    return r.size() > 1500 ? r.substr(0, 1500) + "..." : r;
}
inline void on_alarm(int) {
    // async-signal-safe enough: the process ends here
    write(1, "\nFAIL the call does not return: ", 32);
    write(1, at_buf, strlen(at_buf));
    write(1, "\n", 1);
    _exit(1);
}
inline void on_crash(int sig) {
    char b[64];
    int n = snprintf(b, sizeof b, "\nFAIL the real code dies with signal %d in case: ", sig);
    write(1, b, n);
    write(1, at_buf, strlen(at_buf));
    write(1, "\n", 1);
    _exit(1);
}
// announces the case about to run (named in the report when the code crashes or hangs)
inline void at(const std::string& s, bool nontrivial = true, int secs = 20) {
    cases++;
    auto c = clean(s);
    if (nontrivial && distinct.size() < 300000) distinct.insert(std::hash<std::string>()(c));
    snprintf(at_buf, sizeof at_buf, "%s", c.c_str());
    if (nsample < 3 && nontrivial && cases % 7 == 3) { printf("SAMPLE %s\n", c.c_str()); nsample++; }
    alarm(secs);
}
inline void fail(const std::string& s) {
    printf("FAIL %s -- in case: %s\n", clean(s).c_str(), at_buf);
    fflush(stdout);
    if (++nfail >= 3) { flush_counts(); _exit(1); }
}
inline void known(const std::string& key, const std::string& s) {
    static std::set<std::string> seen;
    if (seen.insert(key).second) { printf("KNOWN %s %s\n", key.c_str(), clean(s).c_str()); fflush(stdout); }
}
#define CHECK(c, msg) do { if (!(c)) { std::ostringstream o_; o_ << msg; rp::fail(o_.str() + " [" #c "]"); } } while (0)
inline uint64_t rnd(uint64_t n) { return n ? rng() % n : 0; }           // [0, n)
inline int64_t rr(int64_t a, int64_t b) { return a + (int64_t) rnd((uint64_t) (b - a + 1)); }
inline bool coin(int n = 2) { return rnd(n) == 0; }
template<class T> const T& pick(const std::vector<T>& v) { return v[rnd(v.size())]; }
inline double elapsed() { return std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count(); }
inline bool more(double share = 1.0) { return elapsed() < budget * share; }
extern "C" __attribute__((weak)) void __sanitizer_set_death_callback(void (*)());
inline void on_death() {
    write(1, "\nAT ", 4);
    write(1, at_buf, strlen(at_buf));
    write(1, "\n", 1);
}
inline void init(int argc, char** argv, double quick_s = 12, double thorough_s = 120) {
    PROP = argc > 1 ? argv[1] : "";
    WORK = argc > 2 ? argv[2] : "/tmp";
    const char* s = getenv("VERIF_SEED");
    rng.seed(s ? strtoull(s, 0, 10) : 1);
    const char* t = getenv("VERIF_TIER");
    thorough = t && std::string(t) == "thorough";
    budget = thorough ? thorough_s : quick_s;
    t0 = std::chrono::steady_clock::now();
    signal(SIGALRM, on_alarm);
    signal(SIGABRT, on_crash);
    if (__sanitizer_set_death_callback) __sanitizer_set_death_callback(on_death);
    setvbuf(stdout, nullptr, _IOLBF, 0);
}
inline int done() {
    alarm(0);
    flush_counts();
    return nfail ? 1 : 0;
}
inline std::string slurp(const std::string& p) {
    std::string r;
    FILE* f = fopen(p.c_str(), "rb");
    if (!f) return r;
    static char b[65536]; size_t n;
    while ((n = fread(b, 1, sizeof b, f)) > 0) { r.append(b, n); if (r.size() > (1u << 28)) break; }
    fclose(f);
    return r;
}
inline void spit(const std::string& p, const std::string& s) {
    std::ofstream f(p, std::ios::binary | std::ios::trunc);
    f.write(s.data(), s.size());
}
inline std::string rbytes(size_t n) {
    std::string s(n, 0);
    for (auto& c : s) c = (char) rng();
    return s;
}
// runs f in a child process; returns its wait status, its stdout+stderr in out
inline int in_child(const std::function<void()>& f, std::string* out = nullptr, int secs = 30) {
    int p[2];
    if (pipe(p)) return -1;
    fflush(stdout); fflush(stderr);
    pid_t c = fork();
    if (c == 0) {
        dup2(p[1], 1); dup2(p[1], 2); close(p[0]); close(p[1]);
        signal(SIGALRM, SIG_DFL); alarm(secs);
        f();
        fflush(stdout); fflush(stderr);
        _exit(0);
    }
    close(p[1]);
    std::string o; char b[4096]; ssize_t n;
    while ((n = read(p[0], b, sizeof b)) > 0) o.append(b, n);
    close(p[0]);
    int st = 0; waitpid(c, &st, 0);
    if (out) *out = o;
    return st;
}
} // namespace rp
