// RPC configuration: environment, token files and configuration files in a scratch directory. Opening or probing
// /var/lib/daisytuner is redirected there too, so the real file is never looked at.
#pragma once
#include "common.h"
#include <cstdarg>
#include <iostream>
#include <dlfcn.h>
#include <fcntl.h>
#include <optional>
#include <sys/stat.h>
#include <sdfg/passes/rpc/daisytuner_rpc_context.h>
#include <sdfg/passes/rpc/rpc_context.h>
#include <nlohmann/json.hpp>
namespace rpcx {
inline std::string redirect(const char* p) {
    static const char pre[] = "/var/lib/daisytuner";
    std::string s = p ? p : "";
    return s.compare(0, sizeof pre - 1, pre) == 0 ? rp::WORK + "/var" + s.substr(sizeof pre - 1) : s;
}
}
extern "C" {
FILE* fopen(const char* p, const char* m) { static auto f = (FILE * (*)(const char*, const char*) ) dlsym(RTLD_NEXT, "fopen"); return f(rpcx::redirect(p).c_str(), m); }
FILE* fopen64(const char* p, const char* m) { static auto f = (FILE * (*)(const char*, const char*) ) dlsym(RTLD_NEXT, "fopen64"); return f(rpcx::redirect(p).c_str(), m); }
int open(const char* p, int fl, ...) { static auto f = (int (*)(const char*, int, ...)) dlsym(RTLD_NEXT, "open"); va_list a; va_start(a, fl); int m = va_arg(a, int); va_end(a); return f(rpcx::redirect(p).c_str(), fl, m); }
int access(const char* p, int m) { static auto f = (int (*)(const char*, int)) dlsym(RTLD_NEXT, "access"); return f(rpcx::redirect(p).c_str(), m); }
int stat(const char* __restrict p, struct stat* __restrict b) { static auto f = (int (*)(const char*, struct stat*)) dlsym(RTLD_NEXT, "stat"); return f(rpcx::redirect(p).c_str(), b); }
}
namespace rpcx {
using namespace rp;
using namespace sdfg::passes::rpc;
typedef std::map<std::string, std::string> Headers;
inline const char* SERVER = "https://docc-backend-1080482399950.europe-west1.run.app/docc";
inline std::optional<std::string> var(const char* n) { const char* v = getenv(n); return v ? std::optional<std::string>(v) : std::nullopt; }
inline void set(const char* n, const std::optional<std::string>& v) { if (v) setenv(n, v->c_str(), 1); else unsetenv(n); }
inline std::string show(const std::optional<std::string>& v) { return v ? "\"" + *v + "\"" : "unset"; }
inline bool filled(const std::optional<std::string>& v) { return v && !v->empty(); }
// a file that is present with a content, or absent
inline void put(const std::string& p, const std::optional<std::string>& v) {
    if (v) { std::filesystem::create_directories(std::filesystem::path(p).parent_path()); spit(p, *v); } else { std::error_code e; std::filesystem::remove(p, e); }
}
inline std::string trim(const std::string& s) { size_t n = s.size(); while (n && strchr(" \n\r\t", s[n - 1]) && s[n - 1]) n--; return s.substr(0, n); }
inline std::string word() {
    static const std::vector<std::string> w = {"tok", "a b", " lead", "x\ny", "t:u", "Job", "Token", "\xc3\xa9", "a\"b\\c", "=", "abc123==", "\v\f", "\t\tz", "q\r", "-"};
    std::string s; for (int n = (int) rr(1, 3); n > 0; n--) s += coin(6) ? std::string(rr(1, 40), 'k') : pick(w);
    return s;
}
inline std::string filetext() { std::string s = coin(12) ? "" : word(); for (int n = (int) rnd(4); n > 0; n--) s += pick<std::string>({" ", "\n", "\r", "\t", "\r\n"}); return s; }
struct Sources { std::optional<std::string> job, access, home, user, session, server; };
inline std::optional<std::string> maybe(bool file = false) { return coin(3) ? std::nullopt : std::optional<std::string>(coin(4) ? "" : file ? filetext() : word()); }
inline Sources sources() {
    Sources s; s.job = coin(2) ? std::nullopt : maybe(); s.access = coin(2) ? std::nullopt : maybe();
    s.home = coin(5) ? (coin() ? std::nullopt : std::optional<std::string>("")) : std::optional<std::string>(WORK + "/home");
    s.user = maybe(true); s.session = maybe(true); s.server = coin() ? std::nullopt : coin(4) ? std::optional<std::string>("") : std::optional<std::string>("http://srv/" + word());
    return s;
}
inline std::string apply(const Sources& s) {
    set("DOCC_JOB_TOKEN", s.job); set("DOCC_ACCESS_TOKEN", s.access); set("HOME", s.home); set("RPC_SERVER", s.server);
    put(WORK + "/home/.config/docc/token", s.user); put(WORK + "/var/session", s.session);
    return "DOCC_JOB_TOKEN " + show(s.job) + ", DOCC_ACCESS_TOKEN " + show(s.access) + ", HOME " + (s.home ? s.home->empty() ? "empty" : "set" : "unset") + ", user token file " + show(s.user) + ", session file " + show(s.session) + ", RPC_SERVER " + show(s.server);
}
inline std::optional<std::pair<std::string, bool>> expected(const Sources& s) {
    if (filled(s.job)) return std::make_pair(*s.job, true);
    if (filled(s.access)) return std::make_pair(*s.access, false);
    if (filled(s.home) && s.user) return std::make_pair(trim(*s.user), false);
    if (s.session) return std::make_pair(trim(*s.session), false);
    return std::nullopt;
}
inline std::string auth(const std::pair<std::string, bool>& a) { return (a.second ? "Job " : "Token ") + a.first; }
template<class M> Headers hd(const M& m) { return Headers(m.begin(), m.end()); }
inline std::string show(const Headers& h) { std::string s = "{"; for (auto& [k, v] : h) s += k + ": " + v + "; "; return s + "}"; }
}
