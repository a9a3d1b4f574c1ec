#include "common.h"
#include <cstdarg>
#include <sdfg/util/utils_curl.h>
#undef curl_easy_setopt
#undef curl_easy_getinfo
using namespace rp;
// stand-in for libcurl: records the request, delivers a prepared answer in chunks
struct Fake {
    std::map<int, void*> opt; bool performed = false; std::string url, payload; void* headers = nullptr;
    CURLcode code = CURLE_OK; long status = 200; std::vector<std::string> chunks; bool early = false; std::string taken;
    size_t nmemb_first = 0;
};
static Fake* F;
extern "C" {
CURLcode curl_easy_setopt(CURL* h, CURLoption o, ...) {
    va_list a; va_start(a, o); void* v = va_arg(a, void*); va_end(a);
    CHECK((void*) h == (void*) F, "option set on another handle"); F->opt[o] = v;
    if (o == CURLOPT_COPYPOSTFIELDS) { static std::string keep; keep = (char*) v; F->opt[CURLOPT_POSTFIELDS] = (void*) keep.c_str(); }
    return CURLE_OK;
}
void curl_easy_reset(CURL*) { F->opt.clear(); }
CURLcode curl_easy_perform(CURL* h) {
    CHECK((void*) h == (void*) F, "another handle is used"); F->performed = true;
    if (F->opt.count(CURLOPT_URL)) F->url = (char*) F->opt[CURLOPT_URL];
    if (F->opt.count(CURLOPT_POSTFIELDS)) { const char* p = (char*) F->opt[CURLOPT_POSTFIELDS]; F->payload = F->opt.count(CURLOPT_POSTFIELDSIZE) ? std::string(p, (size_t) F->opt[CURLOPT_POSTFIELDSIZE]) : F->opt.count(CURLOPT_POSTFIELDSIZE_LARGE) ? std::string(p, (size_t) F->opt[CURLOPT_POSTFIELDSIZE_LARGE]) : std::string(p); }
    F->headers = F->opt.count(CURLOPT_HTTPHEADER) ? F->opt[CURLOPT_HTTPHEADER] : nullptr;
    auto w = (curl_write_callback) F->opt[CURLOPT_WRITEFUNCTION];
    if (!w) { CHECK(false, "no write function"); return CURLE_WRITE_ERROR; }
    if (!F->early) for (auto& c : F->chunks) {
        std::vector<char> b(c.begin(), c.end()); b.shrink_to_fit();     // exact size: reading past the chunk is caught
        size_t size = 1, n = c.size(); if (n % 2 == 0 && F->nmemb_first) { size = 2; n /= 2; }
        size_t r = w(b.data(), size, n, F->opt[CURLOPT_WRITEDATA]);
        if (r != c.size()) { CHECK(false, "the write function takes " << r << " of " << c.size() << " bytes"); return CURLE_WRITE_ERROR; }
    }
    return F->code;
}
CURLcode curl_easy_getinfo(CURL* h, CURLINFO i, ...) {
    va_list a; va_start(a, i); void* v = va_arg(a, void*); va_end(a);
    CHECK((void*) h == (void*) F, "information of another handle");
    if (i == CURLINFO_RESPONSE_CODE) *(long*) v = F->performed ? F->status : 0;
    return CURLE_OK;
}
const char* curl_easy_strerror(CURLcode c) { static char b[40]; snprintf(b, sizeof b, "transfer error %d", (int) c); return b; }
}
static std::string text(size_t m) { std::string s(rnd(m + 1), 0); for (auto& c : s) c = (char) rr(1, 255); return s; }
int main(int argc, char** argv) {
    init(argc, argv, 6, 60);
    puts("RULE every status from 0 to 999 with and without a body, every transfer code, random addresses, payloads, header lists and bodies (with NUL bytes) delivered in random chunks; non-trivial: a body of two or more chunks or a status next to a class boundary");
    for (long i = 0; i < 1200 || more(); i++) {
        Fake f; F = &f; f.nmemb_first = coin();
        if (i < 1000) f.status = i; else if (i < 1200) f.code = (CURLcode) (i - 1000 + 1 > 99 ? 7 : i - 1000 + 1);
        else { f.status = pick<long>({0, 100, 199, 200, 201, 202, 203, 204, 205, 206, 299, 300, 301, 400, 401, 402, 403, 404, 500, 503, rr(100, 599)}); if (coin(6)) f.code = (CURLcode) rr(1, 98); }
        std::string body; for (int n = (int) rnd(5); n > 0; n--) { auto c = coin(8) ? "" : coin(20) ? rbytes(70000) : rbytes(rr(1, 60)); if (f.code == CURLE_OK || coin()) { f.chunks.push_back(c); body += c; } }
        std::string url = "http://" + text(40), payload = coin(5) ? "" : text(coin(10) ? 20000 : 200); int dummy; auto* hdr = coin() ? (curl_slist*) &dummy : nullptr;
        at("status " + std::to_string(f.status) + ", transfer code " + std::to_string(f.code) + ", " + std::to_string(f.chunks.size()) + " chunks, " + std::to_string(body.size()) + " bytes, headers " + (hdr ? "given" : "none") + ", payload of " + std::to_string(payload.size()), f.chunks.size() > 1 || i < 1000);
        HttpResult r = post_json((CURL*) &f, url, payload, hdr);
        CHECK(f.performed, "no request is made");
        CHECK(f.url == url, "address " << f.url << " instead of " << url);
        CHECK(f.payload == payload, "payload of " << f.payload.size() << " bytes");
        CHECK(f.headers == hdr, "other headers");
        CHECK(r.body == body, "body of " << r.body.size() << " instead of " << body.size() << " bytes");
        CHECK(r.curl_code == f.code, "transfer code " << r.curl_code);
        if (f.code == CURLE_OK) {
            CHECK(r.http_status == f.status, "status " << r.http_status);
            bool ok = f.status >= 200 && f.status <= 203;
            CHECK(r.error_message.empty() == ok, (ok ? "error \"" + r.error_message.substr(0, 80) + "\"" : std::string("no error")));
            if (!ok) {
                // the (random) body quoted in the message cannot spell the word
                bool auth = r.error_message.find("uthentication") != std::string::npos || r.error_message.find("uthoriz") != std::string::npos;
                CHECK(auth == (f.status == 401), "status " << f.status << " gives: " << r.error_message.substr(0, 100));
            }
        } else CHECK(!r.error_message.empty(), "a failed transfer is no error");
    }
    return done();
}
