// Declarations only, enough to parse the compiler headers that mention SymEngine (which is not installed here).
// Nothing that is verified or run by the checks depends on what these classes do: they have no behaviour.
#pragma once
#include <cassert>
#include <cstdint>
#include <functional>
#include <iostream>
#include <map>
#include <memory>
#include <set>
#include <sstream>
#include <stdexcept>
#include <string>
#include <unordered_map>
#include <unordered_set>
#include <utility>
#include <vector>
namespace SymEngine {
struct ENull {};
inline constexpr ENull null{};
template<class T> class RCP {
    T* p_ = nullptr;
public:
    RCP() {}
    RCP(ENull) {}
    explicit RCP(T* p) : p_(p) {}
    template<class U> RCP(const RCP<U>& o) : p_(o.get()) {}
    T* get() const { return p_; }
    T& operator*() const { return *p_; }
    T* operator->() const { return p_; }
    bool is_null() const { return !p_; }
};
enum TypeID { SYMENGINE_STUB };
class Visitor;
class Basic {
public:
    virtual ~Basic() {}
    std::string __str__() const;
    std::vector<RCP<const Basic>> get_args() const;
    TypeID get_type_code() const;
};
typedef std::vector<RCP<const Basic>> vec_basic;
class Boolean : public Basic {};
class Number : public Basic { public: bool is_negative() const; bool is_positive() const; bool is_zero() const; };
class Integer : public Number { public: long as_int() const; };
class Rational : public Number {};
class RealDouble : public Number { public: double as_double() const; };
class Infty : public Number { public: bool is_negative_infinity() const; bool is_positive_infinity() const; };
class NaN : public Number {};
class Symbol : public Basic { public: const std::string& get_name() const; };
class BooleanAtom : public Boolean { public: bool get_val() const; };
struct RCPBasicKeyLess { template<class A, class B> bool operator()(const A& a, const B& b) const { return (const void*) a.get() < (const void*) b.get(); } };
struct RCPBasicHash { template<class A> size_t operator()(const A& a) const { return std::hash<const void*>()(a.get()); } };
struct RCPBasicKeyEq { template<class A, class B> bool operator()(const A& a, const B& b) const { return (const void*) a.get() == (const void*) b.get(); } };
typedef std::set<RCP<const Boolean>, RCPBasicKeyLess> set_boolean;
typedef std::set<RCP<const Basic>, RCPBasicKeyLess> set_basic;
typedef std::map<RCP<const Basic>, RCP<const Basic>, RCPBasicKeyLess> map_basic_basic;
typedef std::map<RCP<const Basic>, RCP<const Number>, RCPBasicKeyLess> map_basic_num;
class And : public Boolean { public: const set_boolean& get_container() const; };
class Or : public Boolean { public: const set_boolean& get_container() const; };
class Not : public Boolean { public: RCP<const Boolean> get_arg() const; };
class Relational : public Boolean {};
class Equality : public Relational {};
class Unequality : public Relational {};
class LessThan : public Relational {};
class StrictLessThan : public Relational {};
class Add : public Basic {};
class Mul : public Basic {};
class Pow : public Basic { public: RCP<const Basic> get_base() const; RCP<const Basic> get_exp() const; };
class Function : public Basic {};
class Max : public Function {};
class Min : public Function {};
class Abs : public Function {};
class FunctionSymbol : public Function {
public:
    FunctionSymbol(const std::string&, const RCP<const Basic>&) {}
    FunctionSymbol(const std::string&, const vec_basic&) {}
    const std::string& get_name() const;
};
template<class T> set_basic atoms(const Basic&);
template<class T> bool is_a(const Basic&);
template<class T> const T& down_cast(const Basic&);
template<class T, class U> RCP<T> rcp_static_cast(const RCP<U>&);
template<class T, class U> RCP<T> rcp_dynamic_cast(const RCP<U>&);
bool eq(const Basic&, const Basic&);
RCP<const Integer> integer(long);
RCP<const Basic> add(const RCP<const Basic>&, const RCP<const Basic>&);
RCP<const Basic> sub(const RCP<const Basic>&, const RCP<const Basic>&);
RCP<const Basic> mul(const RCP<const Basic>&, const RCP<const Basic>&);
RCP<const Basic> div(const RCP<const Basic>&, const RCP<const Basic>&);
RCP<const Basic> neg(const RCP<const Basic>&);
RCP<const Basic> min(const vec_basic&);
RCP<const Basic> max(const vec_basic&);
RCP<const Number> rational(long, long);
extern RCP<const Basic> E;
RCP<const Symbol> symbol(const std::string&);
class StrPrinter { public: std::string str_; virtual ~StrPrinter() {} void bvisit(const Basic&); virtual void _print_pow(std::ostringstream&, const RCP<const Basic>&, const RCP<const Basic>&);  std::string apply(const RCP<const Basic>&); std::string apply(const vec_basic&); std::string parenthesize(const std::string&); };
class CodePrinter : public StrPrinter { public: using StrPrinter::bvisit; };
class C89CodePrinter : public CodePrinter {};
class C99CodePrinter : public C89CodePrinter {};
template<class D, class B> class BaseVisitor : public B { public: using B::B; };
}
