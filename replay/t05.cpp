// tensor views over expressions with a small stand-in for SymEngine: polynomials in symbols, kept in normal form
#include "common.h"
#include <sdfg/types/scalar.h>
#include <sdfg/types/tensor.h>
#include <deque>
namespace SymEngine {
typedef std::map<std::vector<std::string>, long> Poly;
static std::map<const Basic*, Poly>& polys() { static std::map<const Basic*, Poly> m; return m; }
static std::map<Poly, const Basic*>& nodes() { static std::map<Poly, const Basic*> m; return m; }
static bool literal(const Poly& p) { return p.empty() || (p.size() == 1 && p.begin()->first.empty()); }
static long constant(const Poly& p) { return p.empty() ? 0 : p.begin()->second; }
static const Basic* node(Poly p) {
    for (auto i = p.begin(); i != p.end();) if (!i->second) i = p.erase(i); else ++i;
    auto& n = nodes()[p];
    if (!n) { n = literal(p) ? (const Basic*) new Integer() : new Basic(); polys()[n] = p; }
    return n;
}
static const Poly& poly(const Basic* b) { return polys().at(b); }
RCP<const Integer> integer(long v) { Poly p; if (v) p[{}] = v; return RCP<const Integer>(static_cast<const Integer*>(node(p))); }
RCP<const Basic> sym(const std::string& n) { Poly p; p[{n}] = 1; return RCP<const Basic>(node(p)); }
RCP<const Basic> add(const RCP<const Basic>& a, const RCP<const Basic>& b) { Poly p = poly(a.get()); for (auto& [m, c] : poly(b.get())) p[m] += c; return RCP<const Basic>(node(p)); }
RCP<const Basic> neg(const RCP<const Basic>& a) { Poly p = poly(a.get()); for (auto& [m, c] : p) c = -c; return RCP<const Basic>(node(p)); }
RCP<const Basic> sub(const RCP<const Basic>& a, const RCP<const Basic>& b) { return add(a, neg(b)); }
RCP<const Basic> mul(const RCP<const Basic>& a, const RCP<const Basic>& b) {
    Poly p; for (auto& [m, c] : poly(a.get())) for (auto& [n, d] : poly(b.get())) { auto k = m; k.insert(k.end(), n.begin(), n.end()); std::sort(k.begin(), k.end()); p[k] += c * d; }
    return RCP<const Basic>(node(p));
}
bool eq(const Basic& a, const Basic& b) { return poly(&a) == poly(&b); }
long Integer::as_int() const { return constant(poly(this)); }
template<class T> bool is_a(const Basic& b) { return std::is_same_v<std::remove_const_t<T>, Integer> && literal(poly(&b)); }
template<class T, class U> RCP<T> rcp_dynamic_cast(const RCP<U>& u) { return RCP<T>(dynamic_cast<T*>(u.get())); }
template<class T, class U> RCP<T> rcp_static_cast(const RCP<U>& u) { return RCP<T>(static_cast<T*>(u.get())); }
template<class T> const T& down_cast(const Basic& b) { return static_cast<const T&>(b); }
std::string Basic::__str__() const { std::string s; for (auto& [m, c] : poly(this)) { s += (s.empty() ? "" : "+") + std::to_string(c); for (auto& v : m) s += "*" + v; } return s.empty() ? "0" : s; }
}
namespace sdfg::symbolic {
Integer integer(int64_t v) { return SymEngine::integer(v); }
Integer zero() { return integer(0); }
Integer one() { return integer(1); }
Expression add(const Expression a, const Expression b) { return SymEngine::add(a, b); }
Expression sub(const Expression a, const Expression b) { return SymEngine::sub(a, b); }
Expression mul(const Expression a, const Expression b) { return SymEngine::mul(a, b); }
bool eq(const Expression a, const Expression b) { return SymEngine::eq(*a, *b); }
bool null_safe_eq(const Expression a, const Expression b) { return a.is_null() || b.is_null() ? a.is_null() && b.is_null() : eq(a, b); }
}
#include T05_SCALAR
#include T05_TENSOR
using namespace rp; using namespace sdfg; using types::Tensor;
typedef symbolic::Expression X; typedef std::vector<long> L;
static std::map<std::string, long> vals = {{"n", 3}, {"m", 2}, {"u", 1}, {"p", 5}};
static long ev(const X& e) { long r = 0; for (auto& [m, c] : SymEngine::poly(e.get())) { long t = c; for (auto& v : m) t *= vals[v]; r += t; } return r; }
static X ext() { if (coin(30)) { static const char* s[] = {"n", "m", "u", "p"}; return SymEngine::sym(s[rr(0, 3)]); } return symbolic::integer(coin(30) ? 1 : coin(6) ? 0 : rr(1, 4)); }
static L evs(const std::vector<X>& v) { L r; for (auto& e : v) r.push_back(ev(e)); return r; }
static std::string show(const L& l) { std::string s = "["; for (auto x : l) s += (s.size() > 1 ? "," : "") + std::to_string(x); return s + "]"; }
static long addr(const Tensor& t, const L& ix) { L s = evs(t.strides()); long a = ev(t.offset()); for (size_t i = 0; i < ix.size(); i++) a += ix[i] * s[i]; return a; }
static std::string desc(const Tensor& t) { return show(evs(t.shape())) + " strides " + show(evs(t.strides())) + " offset " + std::to_string(ev(t.offset())); }
static std::string text(const Tensor& t) { return t.print(); }
static L index(const L& sh, long k) { L r(sh.size()); for (size_t i = sh.size(); i-- > 0;) { r[i] = k % sh[i]; k /= sh[i]; } return r; }
static long count(const L& sh) { long n = 1; for (auto x : sh) n *= x; return n; }
static bool kept(const Tensor& a, const Tensor& b) { return a.alignment() == b.alignment() && a.initializer() == b.initializer() && a.storage_type() == b.storage_type() && a.element_type() == b.element_type() && a.element_type().alignment() == b.element_type().alignment(); }
static L lit_shape(const Tensor& t) { L r; for (auto& e : t.shape()) r.push_back(SymEngine::is_a<SymEngine::Integer>(*e) ? ev(e) : -1); return r; }
int main(int argc, char** argv) {
    init(argc, argv, 6, 40);
    puts("RULE random tensors of rank 0 to 5 with literal and symbolic extents, views of views, every element address compared; non-trivial: rank at least 2 and more than one element");
    while (more()) {
        size_t rank = rr(0, 5); std::vector<X> sh; for (size_t i = 0; i < rank; i++) sh.push_back(ext());
        types::Scalar el(types::StorageType::CPU_Heap(), rr(0, 3) * 8, "", coin(50) ? types::Float : types::Int16);
        std::unique_ptr<Tensor> t;
        { Tensor base(el, sh); L s = evs(base.strides()), e = evs(sh);
          at("Tensor of shape " + show(e), rank >= 2);
          CHECK(s.size() == rank && ev(base.offset()) == 0, "gives " << desc(base));
          long acc = 1; bool ok = s.size() == rank; for (size_t i = rank; ok && i-- > 0;) { ok = s[i] == acc; acc *= e[i]; }
          CHECK(ok, "strides " << show(s)); CHECK(ev(base.total_elements()) == acc, "total_elements " << ev(base.total_elements()));
          CHECK(evs(Tensor::strides_from_shape(sh)) == s, "strides_from_shape " << show(evs(Tensor::strides_from_shape(sh))));
          t = std::make_unique<Tensor>(coin(50) ? types::StorageType::CPU_Heap() : types::StorageType::NV_Global(), (size_t) rr(0, 4) * 16, coin(30) ? "init" : "", el, sh, base.strides(), coin(50) ? (X) symbolic::zero() : (X) SymEngine::sym("p")); }
        bool rowmajor = true;
        for (int step = rr(1, 4); step-- > 0;) {
            L e = evs(t->shape()); size_t r = e.size(); std::string what = desc(*t); long n = count(e);
            int op = rr(0, 6); size_t ax = rr(0, r + 1);
            std::unique_ptr<Tensor> v;
            if (op == 0) {
                at("flip(" + std::to_string(ax) + ") of " + what, r >= 2 && n > 1);
                try { v = t->flip(ax); } catch (std::out_of_range&) { CHECK(ax >= r, "is rejected"); continue; }
                CHECK(ax < r, "is accepted"); if (ax >= r) return done();
                CHECK(kept(*t, *v) && evs(v->shape()) == e && v->strides().size() == r, "gives " << desc(*v));
                for (long k = 0; k < n && k < 200; k++) { L i = index(e, k), j = i; j[ax] = e[ax] - 1 - i[ax]; CHECK(addr(*v, i) == addr(*t, j), "element " << show(i) << " is at " << addr(*v, i) << " instead of " << addr(*t, j)); }
                rowmajor = false;
            } else if (op <= 2) {
                at(std::string(op == 1 ? "newaxis(" : "unsqueeze(") + std::to_string(ax) + ") of " + what, r >= 2 && n > 1);
                try { v = op == 1 ? t->newaxis(ax) : t->unsqueeze(ax); } catch (std::out_of_range&) { CHECK(ax > r, "is rejected"); continue; }
                CHECK(ax <= r, "is accepted"); L e2 = e; e2.insert(e2.begin() + ax, 1);
                CHECK(kept(*t, *v) && evs(v->shape()) == e2 && v->strides().size() == r + 1, "gives " << desc(*v));
                for (long k = 0; k < n && k < 200; k++) { L i = index(e, k), j = i; j.insert(j.begin() + ax, 0); CHECK(addr(*v, j) == addr(*t, i), "element " << show(j) << " is at " << addr(*v, j) << " instead of " << addr(*t, i)); }
                rowmajor = false;
            } else if (op == 3) {
                at("squeeze(" + std::to_string(ax) + ") of " + what, r >= 2 && n > 1);
                bool ok = ax < r && lit_shape(*t)[ax] == 1;
                try { v = t->squeeze(ax); } catch (std::logic_error&) { CHECK(!ok, "is rejected"); continue; }
                CHECK(ok, "is accepted"); if (!ok) return done();
                L e2 = e; e2.erase(e2.begin() + ax);
                CHECK(kept(*t, *v) && evs(v->shape()) == e2 && v->strides().size() == r - 1, "gives " << desc(*v));
                for (long k = 0; k < n && k < 200; k++) { L i = index(e, k), j = i; j.erase(j.begin() + ax); CHECK(addr(*v, j) == addr(*t, i), "element " << show(j) << " is at " << addr(*v, j) << " instead of " << addr(*t, i)); }
            } else if (op == 4) {
                at("squeeze() of " + what, r >= 2 && n > 1);
                v = t->squeeze(); L ls = lit_shape(*t), e2; for (size_t i = 0; i < r; i++) if (ls[i] != 1) e2.push_back(e[i]);
                CHECK(kept(*t, *v) && evs(v->shape()) == e2 && v->strides().size() == e2.size(), "gives " << desc(*v));
                for (long k = 0; k < n && k < 200; k++) { L i = index(e, k), j; for (size_t q = 0; q < r; q++) if (ls[q] != 1) j.push_back(i[q]); CHECK(addr(*v, j) == addr(*t, i), "element " << show(j) << " is at " << addr(*v, j) << " instead of " << addr(*t, i)); }
            } else {
                std::vector<X> ns = t->shape(); 
                if (coin(30)) ns.insert(ns.begin() + rr(0, ns.size()), symbolic::integer(coin(70) ? 1 : 2));
                if (ns.size() > 1 && coin(50)) { size_t q = rr(0, ns.size() - 2); ns[q] = SymEngine::mul(ns[q], ns[q + 1]); ns.erase(ns.begin() + q + 1); }
                if (ns.size() > 1 && coin(30)) std::swap(ns[0], ns[1]);
                if (!ns.empty() && coin(10)) ns[rr(0, ns.size() - 1)] = ext();
                L e2 = evs(ns); X a = symbolic::one(), b = symbolic::one(); for (auto& x : t->shape()) a = SymEngine::mul(a, x); for (auto& x : ns) b = SymEngine::mul(b, x);
                bool ok = SymEngine::eq(*a, *b);
                at("reshape to " + show(e2) + " of " + what, r >= 2 && n > 1);
                try { v = t->reshape(ns); } catch (std::invalid_argument&) { CHECK(!ok, "is rejected"); continue; }
                CHECK(ok, "is accepted"); if (!ok) return done();
                CHECK(kept(*t, *v) && evs(v->shape()) == e2 && v->strides().size() == e2.size(), "gives " << desc(*v));
                for (long k = 0; k < n && k < 200; k++) { CHECK(addr(*v, index(e2, k)) == ev(t->offset()) + k, "element number " << k << " is at " << addr(*v, index(e2, k)));
                    if (rowmajor) CHECK(addr(*v, index(e2, k)) == addr(*t, index(e, k)), "element number " << k << " moved"); }
                rowmajor = true;
            }
            auto c = v->clone(); CHECK(*c == *v && *v == *c && c->print() == v->print() && kept(*v, dynamic_cast<Tensor&>(*c)), "the clone of " << text(*v) << " differs");
            CHECK((*v == *t) == (text(*v) == text(*t)), text(*v) << " and " << text(*t) << " compare " << (*v == *t));
            t = std::move(v);
        }
    }
    return done();
}
