#include "rpc.h"
using namespace rpcx;
int main(int argc, char** argv) {
    init(argc, argv, 8, 60);
    puts("RULE random combinations of unset, empty and set DOCC_JOB_TOKEN / DOCC_ACCESS_TOKEN / HOME / RPC_SERVER, absent or present user token and session files with arbitrary text and trailing whitespace, first every combination of presence; non-trivial: two or more sources compete");
    for (long i = 0; i < 3 * 3 * 3 * 2 * 2 || more(); i++) {
        Sources s = sources();
        if (i < 108) {
            long c = i; auto tri = [&](const char* t) -> std::optional<std::string> { int k = c % 3; c /= 3; return k == 0 ? std::nullopt : std::optional<std::string>(k == 1 ? "" : t); };
            s.job = tri("job-token"); s.access = tri("access-token"); s.home = tri((WORK + "/home").c_str());
            s.user = c % 2 ? std::optional<std::string>(" user token \r\n") : std::nullopt; c /= 2; s.session = c % 2 ? std::optional<std::string>("session\t \n") : std::nullopt;
        }
        auto d = apply(s);
        at(d, filled(s.job) + filled(s.access) + (bool) s.user + (bool) s.session >= 2);
        auto want = expected(s); auto got = DaisytunerRpcContext::find_docc_auth();
        CHECK(got.has_value() == want.has_value(), "credential " << (got ? got->first : "none"));
        if (got && want) { CHECK(got->first == want->first, "token \"" << got->first << "\" instead of \"" << want->first << "\""); CHECK(got->second == want->second, "job flag " << got->second); }
        bool thrown = false; std::shared_ptr<RpcContext> c;
        try { c = coin() ? build_rpc_context_from_docc_config() : DaisytunerRpcContext::from_docc_config(); } catch (std::exception&) { thrown = true; }
        CHECK(thrown == !want.has_value(), (thrown ? "error although there is a credential" : "no error without a credential"));
        if (c && want) {
            auto h = hd(c->get_auth_headers());
            CHECK((h == Headers{{"Authorization", auth(*want)}}), "headers " << show(h));
        }
        std::string t = word(); if (coin(8)) t = "";
        CHECK(DaisytunerRpcContext::build_auth_header_content({t, true}) == "Job " + t, DaisytunerRpcContext::build_auth_header_content({t, true}));
        CHECK(DaisytunerRpcContext::build_auth_header_content({t, false}) == "Token " + t, DaisytunerRpcContext::build_auth_header_content({t, false}));
    }
    return done();
}
