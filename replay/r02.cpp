#include "rpc.h"
using namespace rpcx;
struct M { std::string server, endpoint; Headers headers; };
static std::string jtext() { return coin(8) ? "" : coin(3) ? "http://h/" + word() : word(); }
static nlohmann::json odd() { switch (rnd(6)) { case 0: return nullptr; case 1: return 5; case 2: return true; case 3: return nlohmann::json::array({"x"}); case 4: return nlohmann::json::object({{"k", "v"}}); default: return 1.5; } }
static std::string key() { return pick<std::string>({"Authorization", "RPC-Hint", "X-A", "x-a", "", "k", "k:2", "SERVER"}); }
static int filec = 0;
// writes a configuration; m gets what it specifies. returns its name
static std::string config(M& m, bool& fails, std::string& d) {
    std::string p = WORK + "/cfg" + std::to_string(filec++ % 8) + ".json"; fails = false;
    std::filesystem::remove(p);
    if (coin(12)) { fails = true; d += "(absent file)"; return p; }
    if (coin(14)) { spit(p, pick<std::string>({"{", "{\"SERVER\": \"x\"", "", "{\"SERVER\": }"})); fails = true; d += "(broken file)"; return p; }
    nlohmann::json j = nlohmann::json::object();
    if (!coin(3)) { if (coin(5)) j["SERVER"] = odd(); else { auto t = jtext(); j["SERVER"] = t; m.server = t; } }
    if (!coin(3)) { if (coin(5)) j["ENDPOINT"] = odd(); else { auto t = jtext(); j["ENDPOINT"] = t; m.endpoint = t; } }
    if (!coin(3)) {
        if (coin(6)) { auto o = odd(); if (!o.is_object()) j["HEADERS"] = o; }
        else {
            nlohmann::json h = nlohmann::json::object(); Headers set;
            for (int n = (int) rnd(4); n > 0; n--) { auto k = key(); if (coin(5)) { h[k] = odd(); set.erase(k); } else { auto t = jtext(); h[k] = t; set[k] = t; } }
            for (auto& [k, v] : set) m.headers[k] = v;
            j["HEADERS"] = h;
        }
    }
    if (coin(4)) j["server"] = "decoy"; if (coin(4)) j["headers"] = {{"decoy", "x"}};
    auto t = j.dump(coin() ? -1 : 2, ' ', false, nlohmann::json::error_handler_t::replace); spit(p, t); d += t;
    return p;
}
static void check(const SimpleRpcContextBuilder& b, const M& m, const char* after) {
    CHECK(b.server == m.server, "server \"" << b.server << "\" instead of \"" << m.server << "\" after " << after);
    CHECK(b.endpoint == m.endpoint, "endpoint \"" << b.endpoint << "\" instead of \"" << m.endpoint << "\" after " << after);
    CHECK(hd(b.headers) == m.headers, "headers " << show(hd(b.headers)) << " instead of " << show(m.headers) << " after " << after);
}
static void context(RpcContext& c, const M& m) {
    CHECK(c.get_remote_address() == m.server + "/" + m.endpoint, "address " << c.get_remote_address());
    CHECK(hd(c.get_auth_headers()) == m.headers, "headers " << show(hd(c.get_auth_headers())));
}
int main(int argc, char** argv) {
    init(argc, argv, 10, 80);
    std::cerr.rdbuf(nullptr);
    puts("RULE random sequences of builder calls (defaults, configuration files with missing, mistyped and extra members, unreadable and malformed files, configuration and header variables unset, empty and set, credentials from every source), the builder compared field by field after each call; non-trivial: sequences of three or more calls");
    while (more()) {
        SimpleRpcContextBuilder b; M m; std::string d; int n = (int) rr(1, 7);
        if (coin(3)) { b.server = m.server = "s"; b.endpoint = m.endpoint = "e"; b.headers["k"] = m.headers["k"] = "v"; d = "builder s/e {k: v}; "; }
        for (int i = 0; i < n; i++) {
            switch (rnd(7)) {
            case 0: d += "local; "; at(d, i >= 2); m.server = "http://localhost:8080/docc"; m.endpoint = "transfertune"; b.initialize_local_default(); check(b, m, "initialize_local_default"); break;
            case 1: case 2: {
                bool env = coin(), fails, custom = env && coin(3); M m2 = m; d += env ? "from_env " : "from_file "; auto p = config(m2, fails, d); d += "; "; at(d, i >= 2);
                bool thrown = false;
                if (env) { setenv(custom ? "MY_CFG" : "SDFG_RPC_CONFIG", p.c_str(), 1); setenv(custom ? "SDFG_RPC_CONFIG" : "MY_CFG", "/nonexistent", 1); }
                try { if (env) { if (custom) b.from_env("MY_CFG"); else b.from_env(); } else b.from_file(p); } catch (std::exception&) { thrown = true; }
                CHECK(thrown == fails, (thrown ? "a readable file is refused" : "an unusable file is accepted"));
                if (!fails) m = m2;
                check(b, m, env ? "from_env" : "from_file"); break; }
            case 3: d += "from_env of an " + std::string(coin() ? "unset" : "empty") + " variable; "; at(d, i >= 2); if (d[d.size() - 12] == 't') unsetenv("SDFG_RPC_CONFIG"); else setenv("SDFG_RPC_CONFIG", "", 1); b.from_env(); check(b, m, "from_env"); break;
            case 4: {
                auto v = coin(4) ? std::nullopt : coin(6) ? std::optional<std::string>("") : std::optional<std::string>(coin(5) ? word() : pick<std::string>({"K", "", "Authorization", "x y", " k"}) + (coin(4) ? "" : ":") + pick<std::string>({"v", "", ":v", "a:b", " v ", "http://x:80/y"}));
                bool custom = coin(3); set(custom ? "MY_HDR" : "RPC_HEADER", v); set(custom ? "RPC_HEADER" : "MY_HDR", std::string("Wrong:1"));
                d += "header variable " + rpcx::show(v) + "; "; at(d, i >= 2);
                if (filled(v)) { auto c = v->find(':'); if (c == std::string::npos) m.headers["RPC-Hint"] = *v; else m.headers[v->substr(0, c)] = v->substr(c + 1); }
                if (custom) b.from_header_env("MY_HDR"); else b.from_header_env();
                check(b, m, "from_header_env"); break; }
            case 5: { auto k = key(), v = word(); d += "add " + k + "=" + v + "; "; at(d, i >= 2); m.headers[k] = v; b.add_header(k, v); check(b, m, "add_header"); break; }
            case 6: {
                Sources s = sources(); d += "credentials (" + apply(s) + "); "; at(d, i >= 2);
                if (auto a = expected(s)) { m.server = filled(s.server) ? *s.server : SERVER; m.endpoint = "transfertune"; m.headers["Authorization"] = auth(*a); }
                b.from_docc_config(); check(b, m, "from_docc_config");
                if (auto a = expected(s)) {
                    M c; c.server = filled(s.server) ? *s.server : SERVER; c.endpoint = "transfertune"; c.headers["Authorization"] = auth(*a);
                    context(*DaisytunerRpcContext::from_docc_config(), c);
                    DaisytunerRpcContext x(a->first, a->second); context(x, c);
                    DaisytunerRpcContext y(a->first); c.headers["Authorization"] = "Token " + a->first; context(y, c);
                }
                break; }
            }
            if (coin(3) || i == n - 1) {
                bool thrown = false; std::shared_ptr<SimpleRpcContext> c;
                try { c = coin() ? b.build() : b.build(false); } catch (std::exception&) { thrown = true; }
                CHECK(thrown == m.server.empty(), (thrown ? "building fails although a server is configured" : "building without a server succeeds"));
                if (c) context(*c, m);
                check(b, m, "build");
            }
        }
        if (coin(4)) {
            M l; l.server = "http://localhost:8080/docc"; l.endpoint = "transfertune"; context(*build_rpc_context_local(), l);
            M f; bool fails; std::string t; auto p = config(f, fails, t); at("build_rpc_context_from_file " + t, true);
            bool thrown = false; std::shared_ptr<RpcContext> c; try { c = build_rpc_context_from_file(p); } catch (std::exception&) { thrown = true; }
            CHECK(thrown == (fails || f.server.empty()), (thrown ? "a usable file is refused" : "an unusable file is accepted")); if (c && !thrown) context(*c, f);
            M a = l; t = ""; p = config(a, fails, t); setenv("SDFG_RPC_CONFIG", p.c_str(), 1); bool hv = coin(); set("RPC_HEADER", hv ? std::optional<std::string>("Q:r:s") : std::nullopt); at("build_rpc_context_auto " + t, true);
            if (hv) a.headers["Q"] = "r:s";
            thrown = false; c.reset(); try { c = build_rpc_context_auto(); } catch (std::exception&) { thrown = true; }
            CHECK(thrown == (fails || a.server.empty()), (thrown ? "a usable configuration is refused" : "an unusable configuration is accepted")); if (c && !thrown) context(*c, a);
        }
    }
    return done();
}
