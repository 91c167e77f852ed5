#include "geo_common.hpp"
#include "AnaFlow.hpp"
#include "AnaTemperature.hpp"
#include <map>
using namespace spec;
using ecv::Sym;
using ecv::Id;
using namespace ENigMA::analytical;

namespace
{
    // A scalar with its first and second derivatives in x, y, z, t. Functions of a symbolic argument are arbitrary values
    // tied to their derivatives only.
    template <class R> struct Num {
        static R sin(const R& u) { return std::sin(u); }
        static R cos(const R& u) { return std::cos(u); }
        static R sinh(const R& u, bool) { return std::sinh(u); }
        static R cosh(const R& u) { return std::cosh(u); }
        static R exp(const R& u) { return std::exp(u); }
        static R expm1(const R& u) { return std::expm1(u); }
        static void clear() { }
    };
#ifndef ECV_CONCRETE_ONLY
    template <> struct Num<Sym> {
        static std::map<std::pair<char, Id>, Sym>& memo() { static std::map<std::pair<char, Id>, Sym> m; return m; }
        static Sym fn(char f, const Sym& u, bool positive)
        {
            auto k = std::make_pair(f, u.id);
            auto i = memo().find(k);
            if (i != memo().end()) return i->second;
            Sym s = Sym::of(ecv::t_var(std::string(1, f) + std::to_string(memo().size())));
            if (positive) ecv::assume(ecv::f_lt(Sym(0.0).id, s.id));
            memo().insert({ k, s });
            return s;
        }
        static Sym sin(const Sym& u) { return fn('s', u, false); }
        static Sym cos(const Sym& u) { return fn('c', u, false); }
        // hyperbolic sines the solutions divide by have constant positive arguments
        static Sym sinh(const Sym& u, bool constant) { return fn('h', u, constant); }
        static Sym cosh(const Sym& u) { return fn('g', u, true); }
        static Sym exp(const Sym& u) { return fn('e', u, true); }
        static Sym expm1(const Sym& u)
        {
            Sym m = exp(u) - Sym(1.0);
            ecv::assume(ecv::f_or(ecv::f_not(ecv::f_lt(Sym(0.0).id, u.id)), ecv::f_lt(Sym(0.0).id, m.id))); // positive for positive arguments
            return m;
        }
        static void clear() { memo().clear(); }
    };
#endif
    template <class R> struct Jet {
        bool lazy, var; // a constant not yet lifted; depends on a variable
        double d;
        R v, g[4], h[4];
        Jet(double x = 0) : lazy(true), var(false), d(x), v(0.0) { zero(); }
        Jet(int x) : Jet((double)x) { }
        static Jet of(const R& x) { Jet j; j.lazy = false; j.v = x; return j; }
        static Jet variable(const R& x, int k) { Jet j = of(x); j.var = true; j.zero(); j.g[k] = R(1.0); return j; }
        void zero() { for (int i = 0; i < 4; ++i) g[i] = R(0.0), h[i] = R(0.0); }
        R val() const { return lazy ? R(d) : v; }
        Jet operator-() const { return Jet(0.0) - *this; }
        friend Jet operator+(const Jet& a, const Jet& b) { return lin(a, b, R(1.0)); }
        friend Jet operator-(const Jet& a, const Jet& b) { return lin(a, b, R(-1.0)); }
        static Jet lin(const Jet& a, const Jet& b, const R& s)
        {
            Jet r = of(a.val() + s * b.val());
            r.var = a.var || b.var;
            if (r.var) for (int i = 0; i < 4; ++i) r.g[i] = a.g[i] + s * b.g[i], r.h[i] = a.h[i] + s * b.h[i];
            return r;
        }
        friend Jet operator*(const Jet& a, const Jet& b)
        {
            R x = a.val(), y = b.val();
            Jet r = of(x * y);
            r.var = a.var || b.var;
            if (a.var && b.var) for (int i = 0; i < 4; ++i) r.g[i] = a.g[i] * y + x * b.g[i], r.h[i] = a.h[i] * y + R(2.0) * a.g[i] * b.g[i] + x * b.h[i];
            else if (a.var) for (int i = 0; i < 4; ++i) r.g[i] = a.g[i] * y, r.h[i] = a.h[i] * y;
            else if (b.var) for (int i = 0; i < 4; ++i) r.g[i] = x * b.g[i], r.h[i] = x * b.h[i];
            return r;
        }
        friend Jet operator/(const Jet& a, const Jet& b)
        {
            R y = b.val();
            if (!b.var)
            {
                Jet r = of(a.val() / y);
                r.var = a.var;
                if (a.var) for (int i = 0; i < 4; ++i) r.g[i] = a.g[i] / y, r.h[i] = a.h[i] / y;
                return r;
            }
            return a * b.chain(R(1.0) / y, R(-1.0) / (y * y), R(2.0) / (y * y * y));
        }
        Jet chain(const R& f, const R& f1, const R& f2) const
        {
            Jet r = of(f);
            r.var = var;
            if (var) for (int i = 0; i < 4; ++i) r.g[i] = f1 * g[i], r.h[i] = f1 * h[i] + f2 * g[i] * g[i];
            return r;
        }
        Jet& operator+=(const Jet& b) { return *this = *this + b; }
        Jet& operator-=(const Jet& b) { return *this = *this - b; }
        Jet& operator*=(const Jet& b) { return *this = *this * b; }
        friend Jet sin(const Jet& u) { R s = Num<R>::sin(u.val()), c = u.var ? Num<R>::cos(u.val()) : s; return u.chain(s, c, -s); }
        friend Jet cos(const Jet& u) { R c = Num<R>::cos(u.val()), s = u.var ? Num<R>::sin(u.val()) : c; return u.chain(c, -s, -c); }
        friend Jet sinh(const Jet& u) { R s = Num<R>::sinh(u.val(), !u.var), c = u.var ? Num<R>::cosh(u.val()) : s; return u.chain(s, c, s); }
        friend Jet exp(const Jet& u) { R e = Num<R>::exp(u.val()); return u.chain(e, e, e); }
        friend Jet expm1(const Jet& u) { R e = Num<R>::exp(u.val()), m = Num<R>::expm1(u.val()); return u.chain(m, e, e); }
        static Jet sin_(const Jet& u) { return sin(u); }
        static Jet cos_(const Jet& u) { return cos(u); }
        static Jet sinh_(const Jet& u) { return sinh(u); }
        static Jet exp_(const Jet& u) { return exp(u); }
        static Jet expm1_(const Jet& u) { return expm1(u); }
        static Jet sqrt_(const Jet& u) { return sqrt(u); }
        friend Jet sqrt(const Jet& u) { using std::sqrt; return of(sqrt(u.val())); } // of constants only
    };
    template <class R> Jet<R> pow(const Jet<R>& a, int n) { Jet<R> r(1.0); for (int i = 0; i < std::abs(n); ++i) r = r * a; return n < 0 ? Jet<R>(1.0) / r : r; }
    template <class R> Jet<R> cosh(const Jet<R>& u) { R s = Num<R>::sinh(u.val(), !u.var), c = Num<R>::cosh(u.val()); return u.chain(c, s, c); }
    // any value; concrete runs draw it from a range in which rounding stays small
    template <class C> typename C::R val(C& c, const char* n, double lo, double hi) { return C::symbolic ? c.real(n) : c.in(n, lo, hi); }
    // sum of a series until it does not change any more
    template <class F> double series(F f, int n = 400) { double s = 0; for (int p = 0; p < n; ++p) s += f(p); return s; }
    const double PI = std::acos(-1.0);
    double sgn(int p) { return p % 2 ? -1.0 : 1.0; }
    double slab(double x, double at) { return series([&](int p) { double k = (2 * p + 1) * PI; return 4 / ((2 * p + 1) * PI) * sgn(p) * std::cos(k * x) * std::exp(-at * k * k); }); }
    double shs(double a, double b) { return std::exp(a - b) * -std::expm1(-2 * a) / -std::expm1(-2 * b); } // sinh(a) / sinh(b)
    // sine (or cosine) coefficient number k of samples of a band-limited function on [0, 1]
    template <class F> double coefficient(F f, double k, bool sine, int n)
    {
        double s = 0;
        for (int i = 0; i < n; ++i) { double x = (i + 0.5) / n; s += f(x) * (sine ? std::sin(k * x) : std::cos(k * x)); }
        return 2 * s / n;
    }
}

namespace std // spelled with std:: too
{
#define JET_FN(f) template <class R> Jet<R> f(const Jet<R>& u) { return Jet<R>::f##_(u); }
    JET_FN(sin) JET_FN(cos) JET_FN(sinh) JET_FN(exp) JET_FN(expm1) JET_FN(sqrt)
    template <class R> Jet<R> pow(const Jet<R>& u, int n) { return ::pow(u, n); }
    template <class R> Jet<R> cosh(const Jet<R>& u) { return ::cosh(u); }
}

// the solutions solve the heat equation, whatever the functions of their arguments are worth
CONTRACT("A01", heat_equation_steady_2d, "CAnaTemperature::steadyStateHeatConduction2D")
{
    typedef typename C::R R;
    Num<R>::clear();
    CAnaTemperature<Jet<R>> a;
    Jet<R> x = Jet<R>::variable(val(c, "x", 0, 1), 0), y = Jet<R>::variable(val(c, "y", 0, 0.9), 1), T;
    a.steadyStateHeatConduction2D(x, y, T);
    c.ensure("the Laplacian is zero", c.eq(T.h[0], -T.h[1], 10));
}
CONTRACT("A01", heat_equation_steady_3d, "CAnaTemperature::steadyStateHeatConduction3D")
{
    typedef typename C::R R;
    Num<R>::clear();
    CAnaTemperature<Jet<R>> a;
    Jet<R> x = Jet<R>::variable(val(c, "x", 0.1, 0.9), 0), y = Jet<R>::variable(val(c, "y", 0, 1), 1), z = Jet<R>::variable(val(c, "z", 0, 1), 2), T;
    a.steadyStateHeatConduction3D(x, y, z, T);
    c.ensure("the Laplacian is zero", c.eq(T.h[0] + T.h[1], -T.h[2], 100));
}
CONTRACT("A01", heat_equation_fin, "CAnaTemperature::steadyStateHeatConduction1D with convection")
{
    typedef typename C::R R;
    Num<R>::clear();
    CAnaTemperature<Jet<R>> a;
    auto K = [&](const char* n, double lo, double hi) { return Jet<R>::of(val(c, n, lo, hi)); };
    Jet<R> x = Jet<R>::variable(val(c, "x", 0, 1), 0), Ta = K("Ta", -10, 10), Tb = K("Tb", -10, 10), h = K("h", 0.5, 4), Ti = K("Tinf", -10, 10), k = K("k", 0.5, 4), P = K("perimeter", 0.5, 4), A = K("area", 0.5, 4), L = K("length", 1, 1.25), T;
    for (auto* q : { &h, &k, &P, &A, &L }) c.require(c.gt(q->val(), R(0.0)));
    a.steadyStateHeatConduction1D(x, Ta, Tb, h, Ti, k, P, A, L, T);
    c.ensure("conduction along the beam balances convection at its sides", c.eq(k.val() * A.val() * T.h[0], h.val() * P.val() * (T.val() - Ti.val()), 10));
}
CONTRACT("A01", heat_equation_transient_1d, "CAnaTemperature::transientHeatConduction1D")
{
    typedef typename C::R R;
    Num<R>::clear();
    CAnaTemperature<Jet<R>> a;
    Jet<R> x = Jet<R>::variable(val(c, "x", 0, 1), 0), t = Jet<R>::variable(val(c, "t", 0.001, 1), 3), al = Jet<R>::of(val(c, "alpha", 0.5, 2)), T;
    a.transientHeatConduction1D(x, t, al, T);
    c.ensure("the change in time is the diffusivity times the curvature", c.eq(T.g[3], al.val() * T.h[0], 10));
}
CONTRACT("A01", heat_equation_transient_2d, "CAnaTemperature::transientHeatConduction2D")
{
    typedef typename C::R R;
    Num<R>::clear();
    CAnaTemperature<Jet<R>> a;
    Jet<R> x = Jet<R>::variable(val(c, "x", -0.5, 0.5), 0), y = Jet<R>::variable(val(c, "y", -0.5, 0.5), 1), t = Jet<R>::variable(val(c, "t", 0.001, 1), 3), al = Jet<R>::of(val(c, "alpha", 0.5, 2)), T;
    a.transientHeatConduction2D(x, y, t, al, T);
    c.ensure("the change in time is the diffusivity times the Laplacian", c.eq(T.g[3], al.val() * (T.h[0] + T.h[1]), 10));
}
CONTRACT("A01", burgers_potential, "CAnaFlow::phi, viscousBurgersEquation")
{
    typedef typename C::R R;
    Num<R>::clear();
    CAnaFlow<Jet<R>> a;
    Jet<R> x = Jet<R>::variable(val(c, "x", 0, 6), 0), t = Jet<R>::variable(val(c, "t", 0, 2), 3), L = Jet<R>::of(val(c, "L", 1, 7)), mu = Jet<R>::of(val(c, "mu", 0.25, 2));
    c.require(c.gt(mu.val(), R(0.0)) && c.gt(t.val(), R(-1.0)));
    Jet<R> f = a.phi(x, t, L, mu);
    R tt = R(2.0) * (t.val() + R(1.0));
    // f / sqrt(t + 1) diffuses while it moves at speed 4: its Cole-Hopf transform solves Burgers' equation
    c.ensure("the potential is carried and diffuses", c.eq(f.g[3] + R(4.0) * f.g[0], mu.val() * f.h[0] + f.val() / tt, 10));
    CAnaFlow<R> b;
    R dx = val(c, "dx", 1e-3, 0.5), u;
    c.require(c.ne(dx, R(0.0)));
    R p0 = b.phi(x.val(), t.val(), L.val(), mu.val()), p1 = b.phi(x.val() + dx, t.val(), L.val(), mu.val());
    c.require(c.ne(p0, R(0.0)));
    b.viscousBurgersEquation(x.val(), dx, t.val(), L.val(), mu.val(), u);
    c.ensure("the velocity is the transform of the potential", c.eq((u - R(4.0)) * p0 * dx, R(-2.0) * mu.val() * (p1 - p0)));
}

// Boundary and initial values, by the coefficients of the series, and values inside
RUNTIME_CONTRACT("A01", temperature_values, "CAnaTemperature: all solutions", "generated points, coefficients of the first eight modes")
{
    CAnaTemperature<double> a;
    std::mt19937 g(c.choose("seed", 1 << 20));
    auto U = [&](double lo, double hi) { return lo + (hi - lo) * std::uniform_real_distribution<double>(0, 1)(g); };
    double T, x = U(0, 1), y = U(0, 1), z = U(0, 1), al = U(0.25, 2), t = U(0.004, 0.5) / al;
    auto near = [&](double p, double q, double tol) { return c.is(std::fabs(p - q) <= tol); };
    int p = g() % 8, q = g() % 8;
    switch (c.choose("what", 8))
    {
    case 0:
        a.steadyStateHeatConduction1D(x, T);
        c.ensure("steady beam", near(T, x, 1e-12));
        break;
    case 1: {
        a.steadyStateHeatConduction2D(x, 0.8 * y, T);
        c.ensure("steady square", near(T, series([&](int p) { double k = (2 * p + 1) * PI; return 4 / k * std::sin(k * x) * shs(k * 0.8 * y, k); }), 1e-9));
        double s = coefficient([&](double w) { a.steadyStateHeatConduction2D(w, 1.0, T); return T; }, (2 * p + 1) * PI, true, 256);
        c.ensure("steady square: one at the top", near(s, 4 / ((2 * p + 1) * PI), 1e-9));
        c.ensure("steady square: nothing else at the top", near(coefficient([&](double w) { a.steadyStateHeatConduction2D(w, 1.0, T); return T; }, 2 * (p + 1) * PI, true, 256), 0, 1e-9));
        a.steadyStateHeatConduction2D(0.0, y, T); double l = T;
        a.steadyStateHeatConduction2D(1.0, y * 0.9, T); double r = T;
        a.steadyStateHeatConduction2D(x, 0.0, T);
        c.ensure("steady square: zero on the other sides", c.is(std::fabs(l) + std::fabs(r) + std::fabs(T) < 1e-9));
        break;
    }
    case 2: {
        double X = 0.35 + 0.3 * x, w = 0;
        for (int p = 0; p < 30; ++p) for (int q = 0; q < 30; ++q) { double k = (2 * p + 1) * PI, m = (2 * q + 1) * PI, l = std::sqrt(k * k + m * m); w += 16 / (k * m) * (0.5 * shs(l * (1 - X), l) + shs(l * X, l)) * std::sin(k * y) * std::sin(m * z); }
        a.steadyStateHeatConduction3D(X, y, z, T);
        c.ensure("steady cube", near(T, w, 1e-8));
        bool end = g() & 1;
        double s = coefficient([&](double u) { return coefficient([&](double v) { a.steadyStateHeatConduction3D(end ? 1.0 : 0.0, u, v, T); return T; }, (2 * q + 1) * PI, true, 64); }, (2 * p + 1) * PI, true, 64);
        c.ensure("steady cube: one and a half at the ends", near(s, (end ? 1 : 0.5) * 16 / ((2 * p + 1) * (2 * q + 1) * PI * PI), 1e-9));
        double e = 0;
        for (double b : { 0.0, 1.0 }) { a.steadyStateHeatConduction3D(X, b, z, T); e += std::fabs(T); a.steadyStateHeatConduction3D(X, y, b, T); e += std::fabs(T); }
        c.ensure("steady cube: zero on the sides", c.is(e < 1e-9));
        break;
    }
    case 3: {
        double Ta = U(-10, 10), Tb = U(-10, 10), h = U(0.1, 4), Ti = U(-10, 10), k = U(0.5, 4), P = U(0.5, 4), A = U(0.5, 4), L = U(0.5, 3), m = std::sqrt(h * P / (k * A));
        a.steadyStateHeatConduction1D(0.0, Ta, Tb, h, Ti, k, P, A, L, T); double l = T;
        a.steadyStateHeatConduction1D(L, Ta, Tb, h, Ti, k, P, A, L, T); double r = T;
        c.ensure("fin: temperatures at its ends", near(l, Ta, 1e-7) && near(r, Tb, 1e-6 * std::exp(m * L)));
        a.steadyStateHeatConduction1D(x * L, Ta, Tb, h, Ti, k, P, A, L, T);
        c.ensure("fin: temperature between", near(T, Ti + ((Ta - Ti) * std::sinh(m * (1 - x) * L) + (Tb - Ti) * std::sinh(m * x * L)) / std::sinh(m * L), 1e-7 * std::exp(m * L)));
        break;
    }
    case 4: {
        a.transientHeatConduction1D(x, t, al, T);
        c.ensure("transient beam", near(T, slab(x / 2, al * t / 4), 1e-9));
        a.transientHeatConduction1D(1.0, t, al, T);
        c.ensure("transient beam: zero at its end", near(T, 0, 1e-9));
        double k = (2 * p + 1) * PI / 2, s = coefficient([&](double w) { a.transientHeatConduction1D(w, 0.0, al, T); return T; }, k, false, 512);
        c.ensure("transient beam: one at the start", near(s, 2 * sgn(p) / k, 1e-9));
        break;
    }
    case 5: {
        x -= 0.5, y -= 0.5;
        a.transientHeatConduction2D(x, y, t, al, T);
        c.ensure("transient square", near(T, slab(x, al * t) * slab(y, al * t), 1e-9));
        a.transientHeatConduction2D(0.5, y, t, al, T); double e = std::fabs(T);
        a.transientHeatConduction2D(x, -0.5, t, al, T);
        c.ensure("transient square: zero on its sides", c.is(e + std::fabs(T) < 1e-9));
        break;
    }
    case 6: {
        if (g() % 8) throw ecv::Reject();
        x -= 0.5, y -= 0.5, z -= 0.5;
        a.transientHeatConduction3D(x, y, z, t, al, T);
        c.ensure("transient cube", near(T, slab(x, al * t) * slab(y, al * t) * slab(z, al * t), 1e-9));
        break;
    }
    default: {
        // the velocity follows Burgers' equation up to the step
        CAnaFlow<double> f;
        double L = 2 * PI, mu = U(0.25, 2), dx = 1e-5, X = U(0, L), s = U(0, 1);
        auto v = [&](double x, double t) { double u; f.viscousBurgersEquation(x - dx / 2, dx, t, L, mu, u); return u; };
        double d = 1e-2, ut = (8 * (v(X, s + d) - v(X, s - d)) - v(X, s + 2 * d) + v(X, s - 2 * d)) / (12 * d), ux = (8 * (v(X + d, s) - v(X - d, s)) - v(X + 2 * d, s) + v(X - 2 * d, s)) / (12 * d);
        double uxx = (16 * (v(X + d, s) + v(X - d, s)) - v(X + 2 * d, s) - v(X - 2 * d, s) - 30 * v(X, s)) / (12 * d * d), m = std::fabs(ut) + std::fabs(v(X, s) * ux) + std::fabs(mu * uxx);
        c.ensure("the velocity follows Burgers' equation", near(ut + v(X, s) * ux, mu * uxx, 1e-2 * (1 + m)));
    }
    }
}

// Root finding, for any function: the formula is given by its values at the points where it is evaluated
namespace
{
    template <class C> struct Values {
        typedef typename C::R R;
        C& c;
        std::string name;
        std::vector<std::pair<R, R>> seen;
        std::function<R(const R&)> given; // concrete runs
        bool otherVariable = false;
        Values(C& c_, const std::string& n) : c(c_), name(n) { exprtk::formula<R>::value() = [this](const std::map<std::string, R*>& m) { if (m.size() != 1 || !m.count(name)) otherVariable = true; return otherVariable ? R(0.0) : at(*m.at(name)); }; }
        ~Values() { exprtk::formula<R>::value() = nullptr; }
        R at(const R& x)
        {
            for (auto& s : seen) if (C::symbolic ? c.isTrue(c.eq(s.first, x)) : s.first == x) return s.second;
            R v = C::symbolic ? c.real("f" + std::to_string(seen.size())) : given(x);
            seen.push_back({ x, v });
            return v;
        }
        void draw()
        {
            int kind = c.choose("kind", 6);
            std::mt19937 g(c.choose("seed", 1 << 20));
            std::vector<double> k;
            for (int i = 0; i < 6; ++i) k.push_back(kind == 0 ? int(g() % 7) - 3 : 4.0 * g() / 4294967296.0 - 2);
            given = [=](const R& x) -> R {
                double y = ecv_double(x), p = ((((k[0] * y + k[1]) * y + k[2]) * y + k[3]) * y + k[4]) * y + k[5];
                return R(kind == 1 ? std::exp(k[0] * y) - 1.5 : kind == 2 ? std::sin(5 * y + k[0]) + 0.5 * k[1] : kind == 3 ? std::cbrt(y - k[0]) : kind == 4 ? (y - k[0]) * (y - k[0]) * (y - k[0]) : p);
            };
        }
        template <class T> static double ecv_double(const T& x) { return (double)x; }
        static double ecv_double(const Sym&) { return 0; }
    };
}

BOUNDED_CONTRACT("A02", bisection_brackets, "CAnaFunction::bisection, root", "up to five halvings, every function, interval and tolerance")
{
    typedef typename C::R R;
    CAnaFunction<R> a;
    a.set(std::string("v"));
    Values<C> f(c, "v");
    if (!C::symbolic) f.draw();
    R lo = C::symbolic ? c.real("lo") : c.in("lo", -4, 4), L = C::symbolic ? c.real("length") : c.in("length", 0.25, 4), tol = C::symbolic ? c.real("tol") : c.in("tol", 1e-9, 0.1);
    c.require(c.gt(L, R(0.0)) && c.gt(tol, R(0.0)));
    R f0 = f.at(lo), f1 = f.at(lo + L);
    c.require(c.le(f0 * f1, R(0.0)));
    int max = C::symbolic ? c.choose("max", 5) : c.choose("max", 60), k = -7;
    R r = c.choose("root", 2) ? a.root("v", lo, lo + L, k, max, tol) : a.bisection("v", lo, lo + L, k, max, tol);
    c.ensure("the formula is evaluated at the named variable only", c.is(!f.otherVariable));
    c.ensure("counts its halvings", c.is(k >= 0 && k <= max + 1));
    if (k < 0 || k > max + 1) return;
    R w = L;
    for (int i = 0; i < k; ++i) w = w * R(0.5);
    R h = w * R(0.5);
    c.ensure("the root lies in the interval", c.ge(r - h, lo) && c.le(r + h, lo + L));
    c.ensure("small enough, unless the halvings are used up", k >= max ? c.is(true) : c.le(w, tol));
    c.ensure("stops as soon as small enough", k == 0 ? c.is(true) : c.gt(w + w, tol));
    if (C::symbolic) c.ensure("the function changes sign around the root", c.le(f.at(r - h) * f.at(r + h), R(0.0)));
    else
    {
        bool ok = false;
        for (auto& p : f.seen) for (auto& q : f.seen) if (p.first <= r && q.first >= r && q.first - p.first <= w * R(1 + 1e-9) && p.second * q.second <= 0) ok = true;
        c.ensure("the function changes sign around the root", c.is(ok || w < R(1e-12)));
    }
}
BOUNDED_CONTRACT("A02", brent_brackets, "CAnaFunction::brent", "the first two steps for every function, up to a thousand on generated ones")
{
    typedef typename C::R R;
    CAnaFunction<R> a;
    a.set(std::string("v"));
    Values<C> f(c, "v");
    if (!C::symbolic) f.draw();
    R lo = C::symbolic ? c.real("lo") : c.in("lo", -4, 4), L = C::symbolic ? c.real("length") : c.in("length", 0.25, 4), tol = C::symbolic ? c.real("tol") : c.in("tol", 1e-9, 0.1);
    c.require(c.gt(L, R(0.0)) && c.gt(tol, R(0.0)));
    R f0 = f.at(lo), f1 = f.at(lo + L);
    c.require(c.le(f0 * f1, R(0.0)));
    int max = C::symbolic ? c.choose("steps", 2) : c.choose("max", 2) ? 1000 : 5, k = -7;
    R r = a.brent("v", lo, lo + L, k, max, tol);
    c.ensure("the formula is evaluated at the named variable only", c.is(!f.otherVariable));
    c.ensure("counts its steps", c.is(k >= 0 && k <= max + 1));
    c.ensure("the root lies in the interval", c.ge(r, lo) && c.le(r, lo + L));
    R v = f.at(r);
    // some evaluated point has the other sign, within the tolerance once the search ends on its own
    auto leq = [&](const R& x, const R& y) { return C::symbolic ? c.isTrue(c.le(x, y)) : Values<C>::ecv_double(x) <= Values<C>::ecv_double(y); };
    bool ok = leq(v, R(0.0)) && leq(R(0.0), v);
    for (auto& p : f.seen) if (!ok && leq(p.second * v, R(0.0)) && (k > max || leq(p.first - r, tol) && leq(r - p.first, tol))) ok = true;
    c.ensure("the function changes sign around the root", c.is(ok));
    if (max == 1000) c.ensure("converges", c.is(k <= max));
    if ((leq(f0, R(0.0)) && leq(R(0.0), f0)) || (leq(f1, R(0.0)) && leq(R(0.0), f1))) c.ensure("a root at an end is found", c.eq(v, R(0.0)));
}
