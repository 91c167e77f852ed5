// ECV - Executable Contract Verifier for the ENigMA templates.
//
// The library under test is a set of C++ templates over a scalar `Real`.  ECV
// instantiates the *unmodified* templates of /repo with `Real = ecv::Sym`, a
// symbolic real, and executes the compiled code once per feasible path.  A
// contract (see contract.hpp) supplies symbolic inputs constrained only by its
// precondition; every postcondition met on a path becomes a proof obligation
//        path-condition  =>  postcondition
// over all real inputs, discharged by an exact rational-function normaliser or
// by an SMT solver.  Nothing of the library is modelled or rewritten.
#pragma once
#include <cmath>
#include <complex>
#include <cstdint>
#include <functional>
#include <iosfwd>
#include <limits>
#include <map>
#include <memory>
#include <set>
#include <stdexcept>
#include <string>
#include <type_traits>
#include <vector>

namespace ecv
{
    typedef uint32_t Id;

    // term constructors (ecv.cpp)
    Id t_const_d(double v);
    Id t_const_i(long v);
    Id t_const_q(const std::string& q);
    Id t_add(Id a, Id b);
    Id t_sub(Id a, Id b);
    Id t_mul(Id a, Id b);
    Id t_div(Id a, Id b);
    Id t_neg(Id a);
    Id t_sqrt(Id a);
    Id t_fn(const char* f, Id a);
    Id t_fn2(const char* f, Id a, Id b);
    Id t_floor(Id a);
    Id t_abs(Id a);
    Id t_minmax(Id a, Id b, bool mx);
    Id t_var(const std::string& name, bool isInt = false);
    Id t_fresh(const std::string& prefix, bool isInt = false);
    bool t_is_const(Id a);
    double t_const_val(Id a);
    std::string t_str(Id a);

    // formulas
    typedef uint32_t Fid;
    Fid f_true();
    Fid f_false();
    Fid f_lt(Id a, Id b);
    Fid f_le(Id a, Id b);
    Fid f_eq(Id a, Id b);
    Fid f_not(Fid a);
    Fid f_and(Fid a, Fid b);
    Fid f_or(Fid a, Fid b);

    // path exploration
    bool decide(Fid f); // fork point
    long concretize(Id a); // integer value of a term, forking over the values it can take
    struct Infeasible { };
    struct Unsupported : std::runtime_error {
        explicit Unsupported(const std::string& s)
            : std::runtime_error(s)
        {
        }
    };

    class SymInt;

    class Sym
    {
    public:
        Id id; // no initialiser on purpose: trivial like double (value-init gives id 0 == constant 0)
        Sym() = default;
        Sym(double v) : id(t_const_d(v)) { }
        Sym(float v) : id(t_const_d(v)) { }
        Sym(long double v) : id(t_const_d((double)v)) { }
        Sym(int v) : id(t_const_i(v)) { }
        Sym(unsigned v) : id(t_const_i((long)v)) { }
        Sym(long v) : id(t_const_i(v)) { }
        Sym(unsigned long v) : id(t_const_i((long)v)) { }
        Sym(long long v) : id(t_const_i((long)v)) { }
        Sym(unsigned long long v) : id(t_const_i((long)v)) { }
        Sym(bool v) : id(t_const_i(v ? 1 : 0)) { }
        static Sym of(Id i) { Sym s; s.id = i; return s; }

        Sym& operator+=(const Sym& o) { id = t_add(id, o.id); return *this; }
        Sym& operator-=(const Sym& o) { id = t_sub(id, o.id); return *this; }
        Sym& operator*=(const Sym& o) { id = t_mul(id, o.id); return *this; }
        Sym& operator/=(const Sym& o) { id = t_div(id, o.id); return *this; }
        Sym operator-() const { return of(t_neg(id)); }
        Sym operator+() const { return *this; }
        Sym& operator++() { id = t_add(id, t_const_i(1)); return *this; }
        Sym& operator--() { id = t_sub(id, t_const_i(1)); return *this; }
        explicit operator int() const;
        explicit operator long() const;
        explicit operator unsigned long() const { return (unsigned long)(long)*this; }
        explicit operator unsigned() const { return (unsigned)(long)*this; }
        explicit operator double() const;
        explicit operator float() const { return (float)(double)*this; }
        explicit operator bool() const { return decide(f_not(f_eq(id, 0))); }
    };
    static_assert(std::is_trivial<Sym>::value, "Sym must stay trivial");

    inline Sym operator+(const Sym& a, const Sym& b) { return Sym::of(t_add(a.id, b.id)); }
    inline Sym operator-(const Sym& a, const Sym& b) { return Sym::of(t_sub(a.id, b.id)); }
    inline Sym operator*(const Sym& a, const Sym& b) { return Sym::of(t_mul(a.id, b.id)); }
    inline Sym operator/(const Sym& a, const Sym& b) { return Sym::of(t_div(a.id, b.id)); }
    inline bool operator<(const Sym& a, const Sym& b) { return decide(f_lt(a.id, b.id)); }
    inline bool operator>(const Sym& a, const Sym& b) { return decide(f_lt(b.id, a.id)); }
    inline bool operator<=(const Sym& a, const Sym& b) { return decide(f_le(a.id, b.id)); }
    inline bool operator>=(const Sym& a, const Sym& b) { return decide(f_le(b.id, a.id)); }
    inline bool operator==(const Sym& a, const Sym& b) { return decide(f_eq(a.id, b.id)); }
    inline bool operator!=(const Sym& a, const Sym& b) { return decide(f_not(f_eq(a.id, b.id))); }
    inline bool operator!(const Sym& a) { return decide(f_eq(a.id, 0)); }
    std::ostream& operator<<(std::ostream& o, const Sym& s);
    std::istream& operator>>(std::istream& i, Sym& s);

    Sym pow(const Sym& a, double e);
    Sym pow(const Sym& a, const Sym& e);
    inline Sym pow(const Sym& a, int e) { return pow(a, (double)e); }
    inline Sym pow(const Sym& a, long e) { return pow(a, (double)e); }
    inline Sym pow(double a, const Sym& e) { return pow(Sym(a), e); }
    inline Sym pow(int a, const Sym& e) { return pow(Sym(a), e); }
    inline Sym sqrt(const Sym& a) { return Sym::of(t_sqrt(a.id)); }
    inline Sym fabs(const Sym& a) { return Sym::of(t_abs(a.id)); }
    inline Sym abs(const Sym& a) { return fabs(a); }
    inline Sym abs2(const Sym& a) { return a * a; }
    inline Sym conj(const Sym& a) { return a; }
    inline Sym real(const Sym& a) { return a; }
    inline Sym imag(const Sym&) { return Sym(0); }
    inline Sym hypot(const Sym& a, const Sym& b) { return sqrt(a * a + b * b); }
    inline Sym fma(const Sym& a, const Sym& b, const Sym& c) { return a * b + c; }
    inline Sym fmin(const Sym& a, const Sym& b) { return Sym::of(t_minmax(a.id, b.id, false)); }
    inline Sym fmax(const Sym& a, const Sym& b) { return Sym::of(t_minmax(a.id, b.id, true)); }
    inline bool isnan(const Sym&) { return false; }
    inline bool isinf(const Sym&) { return false; }
    inline bool isfinite(const Sym&) { return true; }
    inline bool signbit(const Sym& a) { return a < Sym(0); }
    inline Sym copysign(const Sym& a, const Sym& b)
    {
        Sym m = fabs(a);
        return b < Sym(0) ? -m : m;
    }
    inline Sym floor(const Sym& a) { return Sym::of(t_floor(a.id)); }
    inline Sym ceil(const Sym& a) { return -Sym::of(t_floor(t_neg(a.id))); }
    inline Sym trunc(const Sym& a) { return a < Sym(0) ? ceil(a) : floor(a); }
    inline Sym round(const Sym& a) { return a < Sym(0) ? -floor(-a + Sym(0.5)) : floor(a + Sym(0.5)); }
#define ECV_FN1(f) inline Sym f(const Sym& a) { return Sym::of(t_fn(#f, a.id)); }
    ECV_FN1(acos) ECV_FN1(asin) ECV_FN1(atan) ECV_FN1(sin) ECV_FN1(cos) ECV_FN1(tan) ECV_FN1(exp) ECV_FN1(log)
    ECV_FN1(sinh) ECV_FN1(cosh) ECV_FN1(tanh) ECV_FN1(cbrt) ECV_FN1(expm1) ECV_FN1(log10) ECV_FN1(erf) ECV_FN1(erfc)
#undef ECV_FN1
    inline Sym atan2(const Sym& a, const Sym& b) { return Sym::of(t_fn2("atan2", a.id, b.id)); }
    inline Sym fmod(const Sym& a, const Sym& b) { return Sym::of(t_fn2("fmod", a.id, b.id)); }
}

namespace std
{
    using ecv::abs;
    using ecv::acos;
    using ecv::asin;
    using ecv::atan;
    using ecv::atan2;
    using ecv::cbrt;
    using ecv::ceil;
    using ecv::copysign;
    using ecv::cos;
    using ecv::cosh;
    using ecv::exp;
    using ecv::expm1;
    using ecv::fabs;
    using ecv::floor;
    using ecv::fma;
    using ecv::fmax;
    using ecv::fmin;
    using ecv::fmod;
    using ecv::hypot;
    using ecv::isfinite;
    using ecv::isinf;
    using ecv::isnan;
    using ecv::log;
    using ecv::log10;
    using ecv::pow;
    using ecv::round;
    using ecv::signbit;
    using ecv::sin;
    using ecv::sinh;
    using ecv::sqrt;
    using ecv::tan;
    using ecv::tanh;
    using ecv::trunc;
    inline ecv::Sym min(const ecv::Sym& a, const ecv::Sym& b) { return ecv::fmin(a, b); }
    inline ecv::Sym max(const ecv::Sym& a, const ecv::Sym& b) { return ecv::fmax(a, b); }

    template <>
    class numeric_limits<ecv::Sym>
    {
    public:
        static constexpr bool is_specialized = true;
        static constexpr bool is_signed = true;
        static constexpr bool is_integer = false;
        static constexpr bool is_exact = false;
        static constexpr bool has_infinity = true;
        static constexpr bool has_quiet_NaN = false;
        static constexpr bool has_signaling_NaN = false;
        static constexpr bool is_iec559 = false;
        static constexpr int radix = 2;
        static constexpr int digits = 53;
        static constexpr int digits10 = 15;
        static constexpr int max_digits10 = 17;
        static ecv::Sym max() { return ecv::Sym(1e308); }
        static ecv::Sym lowest() { return ecv::Sym(-1e308); }
        static ecv::Sym min() { return ecv::Sym(std::numeric_limits<double>::min()); }
        static ecv::Sym epsilon() { return ecv::Sym(std::numeric_limits<double>::epsilon()); }
        static ecv::Sym infinity() { return ecv::Sym(1e308); }
    };
}

// Eigen
#include <Eigen/Core>
namespace Eigen
{
    template <>
    struct NumTraits<ecv::Sym> : GenericNumTraits<ecv::Sym>
    {
        typedef ecv::Sym Real;
        typedef ecv::Sym NonInteger;
        typedef ecv::Sym Literal;
        typedef ecv::Sym Nested;
        enum { IsComplex = 0, IsInteger = 0, IsSigned = 1, RequireInitialization = 0, ReadCost = 1, AddCost = 3, MulCost = 3 };
        static inline Real epsilon() { return std::numeric_limits<ecv::Sym>::epsilon(); }
        static inline Real dummy_precision() { return ecv::Sym(1e-12); }
        static inline Real highest() { return std::numeric_limits<ecv::Sym>::max(); }
        static inline Real lowest() { return std::numeric_limits<ecv::Sym>::lowest(); }
        static inline int digits10() { return 15; }
    };
    template <typename B>
    struct ScalarBinaryOpTraits<ecv::Sym, double, B> { typedef ecv::Sym ReturnType; };
    template <typename B>
    struct ScalarBinaryOpTraits<double, ecv::Sym, B> { typedef ecv::Sym ReturnType; };
}
