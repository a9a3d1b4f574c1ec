// every tasklet operation through the three language extensions: the emitted expressions are compiled and run
#include <sdfg/data_flow/tasklet.h>
#include <sdfg/codegen/language_extensions/c_language_extension.h>
#include <sdfg/codegen/language_extensions/cpp_language_extension.h>
#include <sdfg/codegen/language_extensions/cuda_language_extension.h>
#include "common.h"
#include <cmath>
#include <dlfcn.h>
#include <ucontext.h>
using namespace rp;
using sdfg::data_flow::TaskletCode;
using sdfg::types::PrimitiveType;
struct Op { const char* n; int arity; char cls; char sign; };   // cls: i integer, f floating-point, a assign; sign: s, u, or * for either
#define O(n, a, c, s) {TaskletCode::n, {#n, a, c, s}}
static const std::vector<std::pair<TaskletCode, Op>> OPS = {
    O(assign, 1, 'a', '*'), O(fp_neg, 1, 'f', '*'), O(fp_add, 2, 'f', '*'), O(fp_sub, 2, 'f', '*'), O(fp_mul, 2, 'f', '*'), O(fp_div, 2, 'f', '*'), O(fp_rem, 2, 'f', '*'), O(fp_fma, 3, 'f', '*'),
    O(fp_oeq, 2, 'f', '*'), O(fp_one, 2, 'f', '*'), O(fp_oge, 2, 'f', '*'), O(fp_ogt, 2, 'f', '*'), O(fp_ole, 2, 'f', '*'), O(fp_olt, 2, 'f', '*'), O(fp_ord, 2, 'f', '*'),
    O(fp_ueq, 2, 'f', '*'), O(fp_une, 2, 'f', '*'), O(fp_ugt, 2, 'f', '*'), O(fp_uge, 2, 'f', '*'), O(fp_ult, 2, 'f', '*'), O(fp_ule, 2, 'f', '*'), O(fp_uno, 2, 'f', '*'),
    O(int_add, 2, 'i', '*'), O(int_sub, 2, 'i', '*'), O(int_mul, 2, 'i', '*'), O(int_sdiv, 2, 'i', 's'), O(int_srem, 2, 'i', 's'), O(int_udiv, 2, 'i', 'u'), O(int_urem, 2, 'i', 'u'),
    O(int_and, 2, 'i', '*'), O(int_or, 2, 'i', '*'), O(int_xor, 2, 'i', '*'), O(int_shl, 2, 'i', '*'), O(int_ashr, 2, 'i', 's'), O(int_lshr, 2, 'i', 'u'),
    O(int_smin, 2, 'i', 's'), O(int_smax, 2, 'i', 's'), O(int_scmp, 2, 'i', 's'), O(int_umin, 2, 'i', 'u'), O(int_umax, 2, 'i', 'u'), O(int_ucmp, 2, 'i', 'u'),
    O(int_eq, 2, 'i', '*'), O(int_ne, 2, 'i', '*'), O(int_sge, 2, 'i', 's'), O(int_sgt, 2, 'i', 's'), O(int_sle, 2, 'i', 's'), O(int_slt, 2, 'i', 's'),
    O(int_uge, 2, 'i', 'u'), O(int_ugt, 2, 'i', 'u'), O(int_ule, 2, 'i', 'u'), O(int_ult, 2, 'i', 'u'), O(int_abs, 1, 'i', 's')};
struct Ty { PrimitiveType p; const char* exact; char cls; int w; bool s; };
static const std::vector<Ty> TYS = {{PrimitiveType::Int8, "signed char", 'i', 8, true}, {PrimitiveType::Int16, "short", 'i', 16, true}, {PrimitiveType::Int32, "int", 'i', 32, true}, {PrimitiveType::Int64, "long long", 'i', 64, true},
    {PrimitiveType::UInt8, "unsigned char", 'i', 8, false}, {PrimitiveType::UInt16, "unsigned short", 'i', 16, false}, {PrimitiveType::UInt32, "unsigned int", 'i', 32, false}, {PrimitiveType::UInt64, "unsigned long long", 'i', 64, false},
    {PrimitiveType::Float, "float", 'f', 32, true}, {PrimitiveType::Double, "double", 'f', 64, true}};
typedef __int128 I;
static bool truth(const std::string& o) { return o.find("cmp") != o.npos || (o.size() > 4 && (o.substr(0, 3) == "fp_" ? (o == "fp_ord" || o == "fp_uno" || ((o[3] == 'o' || o[3] == 'u') && o.size() == 6)) : (o == "int_eq" || o == "int_ne" || ((o[4] == 's' || o[4] == 'u') && o.size() == 7 && (o[5] == 'g' || o[5] == 'l') && (o[6] == 'e' || o[6] == 't'))))); }
// exact integer meaning; false: not defined for these operands
static bool meaning(const std::string& o, int w, bool s, I a, I b, I& r) {
    I lo = s ? -((I) 1 << (w - 1)) : 0, hi = s ? ((I) 1 << (w - 1)) - 1 : ((I) 1 << w) - 1, m = (I) 1 << w;
    auto fit = [&](I v) { r = v; if (v >= lo && v <= hi) return true; if (s) return false; r = ((v % m) + m) % m; return true; };
    auto U = [&](I v) { return v < 0 ? v + m : v; };
    auto back = [&](I u) { u = ((u % m) + m) % m; r = s && u > hi ? u - m : u; return true; };
    if (o == "assign") return r = a, true;
    if (o == "int_add") return fit(a + b);
    if (o == "int_sub") return fit(a - b);
    if (o == "int_mul") { if (!s && w == 64) { r = (I) (uint64_t) ((uint64_t) a * (uint64_t) b); return true; } return fit(a * b); }
    if (o == "int_sdiv" || o == "int_udiv") return b != 0 && fit(a / b);
    if (o == "int_srem" || o == "int_urem") { if (b == 0 || (s && a == lo && b == -1)) return false; r = a % b; return true; }
    if (o == "int_and") return back(U(a) & U(b));
    if (o == "int_or") return back(U(a) | U(b));
    if (o == "int_xor") return back(U(a) ^ U(b));
    bool in = b >= 0 && b < w;
    if (o == "int_shl") return in && back((I) ((unsigned __int128) U(a) << (int) b) & (m - 1));
    if (o == "int_ashr" || o == "int_lshr") return in && (r = a >> (int) b, true);
    if (o == "int_smin" || o == "int_umin") return r = a < b ? a : b, true;
    if (o == "int_smax" || o == "int_umax") return r = a > b ? a : b, true;
    if (o == "int_scmp" || o == "int_ucmp") return r = a < b ? -1 : a > b, true;
    if (o == "int_abs") return fit(a < 0 ? -a : a);
    std::string c = o.size() == 6 ? o.substr(4) : o.substr(5);
    if (c == "eq") r = a == b; else if (c == "ne") r = a != b; else if (c == "lt") r = a < b; else if (c == "le") r = a <= b; else if (c == "gt") r = a > b; else r = a >= b;
    return true;
}
template<class F> static bool same(F x, F y) { return std::isnan(x) ? std::isnan(y) : x == y && std::signbit(x) == std::signbit(y); }
template<class F> static bool fp_ok(const std::string& o, const F* v, F r) {
    volatile F a = v[0], b = v[1], c = v[2];
    if (o == "assign") return same<F>(r, a);
    if (o == "fp_neg") return same<F>(r, -a);
    if (o == "fp_add") return same<F>(r, a + b);
    if (o == "fp_sub") return same<F>(r, a - b);
    if (o == "fp_mul") return same<F>(r, a * b);
    if (o == "fp_div") return same<F>(r, a / b);
    if (o == "fp_rem") return same<F>(r, std::fmod((F) a, (F) b));
    volatile F p = a * b;
    return same<F>(r, p + c) || same<F>(r, std::fma((F) a, (F) b, (F) c));
}
static bool fp_cmp(const std::string& o, double a, double b) {
    bool un = std::isnan(a) || std::isnan(b);
    if (o == "fp_ord") return !un;
    if (o == "fp_uno") return un;
    std::string c = o.substr(4);
    bool k = c == "eq" ? a == b : c == "ne" ? a < b || a > b : c == "lt" ? a < b : c == "le" ? a <= b : c == "gt" ? a > b : a >= b;
    return o[3] == 'o' ? !un && k : un || k;
}
struct Lang { const char* n; const char* cc; const char* suf; sdfg::codegen::LanguageExtension* e; };
typedef void (*Fn)(const void*, void*);
static std::string S(I v) { return std::to_string((long long) v) + (v > INT64_MAX ? "u" : ""); }
// unresolved functions are linked as address 0 (most of the compiler is not built here): a call of one decides nothing
static void on_null(int, siginfo_t* i, void* u) {
    if (((ucontext_t*) u)->uc_mcontext.gregs[REG_RIP] == 0) { write(1, "\nNOTE call of a function that is not linked\n", 44); _exit(77); }
    signal(SIGSEGV, SIG_DFL); raise(SIGSEGV);
}
int main(int argc, char** argv) {
    struct sigaction sa{}; sa.sa_sigaction = on_null; sa.sa_flags = SA_SIGINFO; sigaction(SIGSEGV, &sa, nullptr);
    init(argc, argv, 12, 90);
    puts("RULE every tasklet operation x language x operand type (8 to 64 bit integers, float, double), all pairs of boundary and special values, then random operands; the emitted expression is compiled with gcc and run. non-trivial: every such pair");
    alignas(64) static char fake[4096], fakeg[4096];
    auto& fn = *(sdfg::Function*) fake; auto& gr = *(sdfg::data_flow::DataFlowGraph*) fakeg;
    static sdfg::codegen::CLanguageExtension c(fn); static sdfg::codegen::CPPLanguageExtension cpp(fn); static sdfg::codegen::CUDALanguageExtension cuda(fn);
    std::vector<Lang> L = {{"C", "gcc", "c", &c}, {"C++", "g++", "cc", &cpp}, {"CUDA", "g++", "cc", &cuda}};
    std::vector<std::string> names = {coin() ? "_in1" : "a", coin() ? "_in2" : "b_0", coin() ? "_in3" : "x9"};
    sdfg::DebugInfo di;
    for (auto& l : L) {
        // the spelling of the types
        std::string src = std::string(l.suf) == "c" ? "#include <math.h>\n#include <stdint.h>\n#include <stdbool.h>\n" : "#include <cmath>\n#include <cstdint>\nextern \"C\" {\n";
        struct Sp { PrimitiveType p; const char* n; int size, sign, frac; };
        static const Sp SP[] = {{PrimitiveType::Bool, "Bool", 1, 0, 0}, {PrimitiveType::Int8, "Int8", 1, 1, 0}, {PrimitiveType::Int16, "Int16", 2, 1, 0}, {PrimitiveType::Int32, "Int32", 4, 1, 0}, {PrimitiveType::Int64, "Int64", 8, 1, 0}, {PrimitiveType::Int128, "Int128", 16, 1, 0},
            {PrimitiveType::UInt8, "UInt8", 1, 0, 0}, {PrimitiveType::UInt16, "UInt16", 2, 0, 0}, {PrimitiveType::UInt32, "UInt32", 4, 0, 0}, {PrimitiveType::UInt64, "UInt64", 8, 0, 0}, {PrimitiveType::UInt128, "UInt128", 16, 0, 0},
            {PrimitiveType::Float, "Float", 4, 1, 1}, {PrimitiveType::Double, "Double", 8, 1, 1}, {PrimitiveType::X86_FP80, "X86_FP80", 16, 1, 1}};
        for (auto& s : SP) {
            at(std::string(l.n) + ": spelling of " + s.n, true, 60);
            std::string t = l.e->primitive_type(s.p);
            src += std::string("void t_") + s.n + "(int* r) { r[0] = sizeof(" + t + "); r[1] = ((" + t + ") -1) < ((" + t + ") 0); r[2] = ((" + t + ") 0.5) != 0 && ((" + t + ") 0.5) != 1; }\n";
        }
        struct Case { Op op; Ty ty; std::string id, text; Fn f; };
        std::vector<Case> cs;
        for (auto& [code, op] : OPS) {
            std::vector<std::string> in(names.begin(), names.begin() + op.arity);
            sdfg::data_flow::Tasklet t(1, di, 0, gr, code, "_out", in);
            for (auto& ty : TYS) {
                if (op.cls != 'a' && op.cls != ty.cls) continue;
                if (op.sign == 's' && !ty.s) continue;
                if (op.sign == 'u' && ty.s) continue;
                at(std::string(l.n) + ": text of " + op.n, true, 60);
                std::string x; bool th = false;
                try { x = l.e->tasklet(t); } catch (std::exception& e) { th = true; x = e.what(); }
                CHECK(!th, "no text: " << x);
                if (th) continue;
                std::string id = std::string("f_") + op.n + "_" + std::to_string(ty.w) + ty.cls + (ty.s ? 's' : 'u');
                src += "void " + id + "(const void* p, void* q) {";
                for (int i = 0; i < op.arity; i++) src += std::string(" ") + ty.exact + " " + in[i] + " = ((const " + ty.exact + "*) p)[" + std::to_string(i) + "];";
                std::string ot = truth(op.n) ? "long long" : ty.exact;
                src += " " + ot + " _out; _out = " + x + "; *(" + ot + "*) q = _out; }\n";
                cs.push_back({op, ty, id, x, nullptr});
            }
        }
        if (std::string(l.suf) != "c") src += "}\n";
        std::string base = WORK + "/gen_" + (l.n[1] == '+' || l.n[1] ? std::to_string(&l - &L[0]) : "0");
        spit(base + "." + l.suf, src);
        at(std::string(l.n) + ": the emitted expressions compile", true, 100);
        std::string cmd = std::string(l.cc) + " -O1 -w -fwrapv -ffp-contract=off -shared -fPIC '" + base + "." + l.suf + "' -o '" + base + ".so' -lm > '" + base + ".log' 2>&1";
        int rc = system(cmd.c_str());
        CHECK(rc == 0, "the emitted text does not compile: " << slurp(base + ".log").substr(0, 600));
        if (rc) continue;
        void* h = dlopen((base + ".so").c_str(), RTLD_NOW);
        if (!h) { printf("FAIL cannot load: %s\n", dlerror()); return 1; }
        for (auto& s : SP) {
            at(std::string(l.n) + ": spelling of " + s.n);
            int r[3] = {0, 0, 0}; ((void (*)(int*)) dlsym(h, (std::string("t_") + s.n).c_str()))(r);
            std::string t = l.e->primitive_type(s.p);
            if (s.p == PrimitiveType::UInt8 && t == "char" && r[1]) { known(std::string("uint8-char-") + l.n, "UInt8 is spelled char, which is signed here"); continue; }
            bool fr = s.frac ? r[2] : true;
            CHECK(r[0] == s.size && r[1] == s.sign && fr && (s.frac || !r[2]), t << ": " << r[0] << " bytes, " << (r[1] ? "" : "not ") << "signed, " << (r[2] ? "" : "not ") << "fractional");
        }
        for (auto& k : cs) k.f = (Fn) dlsym(h, k.id.c_str());
        auto run = [&](const Case& k, const void* raw, const std::string& shown) {
            at(std::string(l.n) + ": " + k.op.n + " on " + k.ty.exact + " " + shown + " by " + k.text);
            long long out[2] = {0, 0};
            std::string o = k.op.n;
            if (k.ty.cls == 'i') {
                I v[3];
                for (int i = 0; i < 3; i++) switch (k.ty.w) {
                    case 8: v[i] = k.ty.s ? (I) ((const int8_t*) raw)[i] : (I) ((const uint8_t*) raw)[i]; break;
                    case 16: v[i] = k.ty.s ? (I) ((const int16_t*) raw)[i] : (I) ((const uint16_t*) raw)[i]; break;
                    case 32: v[i] = k.ty.s ? (I) ((const int32_t*) raw)[i] : (I) ((const uint32_t*) raw)[i]; break;
                    default: v[i] = k.ty.s ? (I) ((const int64_t*) raw)[i] : (I) ((const uint64_t*) raw)[i]; }
                I want; if (!meaning(o, k.ty.w, k.ty.s, v[0], v[1], want)) return;
                k.f(raw, out);
                I got = truth(o) ? (I) out[0] : k.ty.w == 8 ? (k.ty.s ? (I) *(int8_t*) out : (I) *(uint8_t*) out) : k.ty.w == 16 ? (k.ty.s ? (I) *(int16_t*) out : (I) *(uint16_t*) out) : k.ty.w == 32 ? (k.ty.s ? (I) *(int32_t*) out : (I) *(uint32_t*) out) : (k.ty.s ? (I) *(int64_t*) out : (I) *(uint64_t*) out);
                CHECK(got == want, "gives " << S(got) << " instead of " << S(want));
            } else {
                k.f(raw, out);
                if (truth(o)) { bool w = k.ty.w == 32 ? fp_cmp(o, ((const float*) raw)[0], ((const float*) raw)[1]) : fp_cmp(o, ((const double*) raw)[0], ((const double*) raw)[1]); CHECK(out[0] == w, "gives " << out[0] << " instead of " << w); }
                else if (k.ty.w == 32) CHECK(fp_ok<float>(o, (const float*) raw, *(float*) out), "gives " << *(float*) out);
                else CHECK(fp_ok<double>(o, (const double*) raw, *(double*) out), "gives " << *(double*) out);
            }
        };
        auto ival = [&](const Ty& t, int i) -> int64_t {
            int64_t m = t.w == 64 ? -1 : (1ll << t.w) - 1;
            static const int64_t B[] = {0, 1, 2, 3, 7, 8, -1, -2, -3, 5, 31, 63, 15};
            if (i < 13) return B[i] & m;
            int64_t top = 1ll << (t.w - 1);
            if (i == 13) return top & m;
            if (i == 14) return (top - 1) & m;
            if (i == 15) return (top + 1) & m;
            return (int64_t) (rng() >> rnd(64)) & m;
        };
        static const double D[] = {0.0, -0.0, 1.0, -1.0, 0.5, 2.5, -2.5, 3.0, 1e30, -1e30, INFINITY, -INFINITY, NAN, 1e-40, 7.25, -7.25, 1e-320};
        auto set = [&](const Ty& t, char* raw, int i, int j, int n) {
            std::string s;
            for (int q = 0; q < n; q++) {
                int ix = q == 0 ? i : q == 1 ? j : (i + j) % 17;
                if (t.cls == 'i') { int64_t v = ival(t, ix); memcpy(raw + q * (t.w / 8), &v, t.w / 8); s += (q ? ", " : "") + std::to_string(v); }
                else { double v = ix < 17 ? D[ix] : coin() ? (double) rr(-100, 100) / 4 : std::ldexp((double) (int64_t) rng(), (int) rr(-140, 40)); if (t.w == 32) { float f = v; memcpy(raw + q * 4, &f, 4); } else memcpy(raw + q * 8, &v, 8); char b[32]; snprintf(b, 32, "%a", v); s += (q ? ", " : "") + std::string(b); }
            }
            return s;
        };
        alignas(16) char raw[64];
        for (auto& k : cs) for (int i = 0; i < 17; i++) for (int j = 0; j < (k.op.arity > 1 ? 17 : 1); j++) { memset(raw, 0, 64); auto s = set(k.ty, raw, i, j, k.op.arity); run(k, raw, s); }
        double until = budget * (&l - &L[0] + 1) / L.size();
        while (elapsed() < until) for (int q = 0; q < 200; q++) { auto& k = pick(cs); memset(raw, 0, 64); auto s = set(k.ty, raw, (int) rnd(24), (int) rnd(24), k.op.arity); run(k, raw, s); }
        dlclose(h);
    }
    return done();
}
