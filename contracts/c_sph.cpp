#include "geo_common.hpp"
#include "CmnTypes.hpp"
#include "SphConvex.hpp"
#include "SphCubicSpline.hpp"
#include "SphGaussian.hpp"
#include "SphQuintic.hpp"
#include "SphSpiky.hpp"
using namespace spec;
using namespace ENigMA::sph;

namespace
{
    const double PI = std::acos(-1.0);
    enum Kind { CUBIC, GAUSS, QUINTIC, SPIKY, CONVEX };
    // profile w(q) and its derivative on the pieces of the support, and the factor that normalises it in dimension d (h = 1)
    double support(int k) { return k == SPIKY ? 1 : k == GAUSS ? 3 : 2; }
    int pieces(int k) { return k == CUBIC ? 2 : 1; }
    template <class R> R profile(int k, int piece, const R& q)
    {
        using std::exp;
        R a = R(2) - q, b = R(1) - q;
        switch (k)
        {
        case CUBIC: return piece == 0 ? R(1) - R(1.5) * q * q + R(0.75) * q * q * q : R(0.25) * a * a * a;
        case GAUSS: return exp(-q * q);
        case QUINTIC: return (R(0.5) * a) * (R(0.5) * a) * (R(0.5) * a) * (R(0.5) * a) * (R(2) * q + R(1));
        case SPIKY: return b * b * b;
        default: return a * a * a * (R(0.5) * q + R(1));
        }
    }
    template <class R> R slope(int k, int piece, const R& q)
    {
        using std::exp;
        R a = R(2) - q, b = R(1) - q;
        switch (k)
        {
        case CUBIC: return piece == 0 ? R(-3) * q + R(2.25) * q * q : R(-0.75) * a * a;
        case GAUSS: return R(-2) * q * exp(-q * q);
        case QUINTIC: return R(-5) * q * (R(0.5) * a) * (R(0.5) * a) * (R(0.5) * a);
        case SPIKY: return R(-3) * b * b;
        default: return R(0.5) * a * a * a - R(3) * a * a * (R(0.5) * q + R(1));
        }
    }
    template <class R> R factor(int k, int d)
    {
        using std::sqrt;
        static const double num[5][3] = { { 2, 10, 1 }, { 1, 1, 1 }, { 3, 7, 21 }, { 2, 10, 15 }, { 5, 15, 21 } };
        static const double den[5][3] = { { 3, 7, 1 }, { 1, 1, 1 }, { 4, 4, 16 }, { 1, 1, 1 }, { 48, 64, 128 } };
        R f = R(num[k][d - 1]) / R(den[k][d - 1]);
        if (k == GAUSS)
        {
            R s = sqrt(R(PI));
            return d == 1 ? f / s : d == 2 ? f / R(PI) : f / (R(PI) * s);
        }
        return d == 1 ? f : f / R(PI);
    }
    template <class R> CSphKernel<R>* kernel(int k, int d)
    {
        switch (k)
        {
        case CUBIC: return new CSphCubicSpline<R>(d);
        case GAUSS: return new CSphGaussian<R>(d);
        case QUINTIC: return new CSphQuintic<R>(d);
        case SPIKY: return new CSphSpiky<R>(d);
        default: return new CSphConvex<R>(d);
        }
    }
    template <class C> struct Setup {
        typedef typename C::R R;
        std::unique_ptr<CSphKernel<R>> K;
        int k, d, piece;
        R q, h, C_; // C_: factor / h^d
        V<R> e, r;
        bool inside;
        Setup(C& c)
        {
            k = c.choose("kernel", 5), d = 1 + c.choose("dimension", 3);
            bool set = c.choose("set later", 2);
            K.reset(kernel<R>(k, set ? 1 : d));
            if (set) K->setDimension(d);
            // a unit direction
            R w = c.real("q0"), x = c.real("q1"), y = c.real("q2"), z = c.real("q3"), n = w * w + x * x + y * y + z * z;
            c.require(c.gt(n, 0));
            e = v3<R>(w * w + x * x - y * y - z * z, R(2) * (x * y + w * z), R(2) * (x * z - w * y)) * (R(1) / n);
            h = c.real("h"), q = c.real("q");
            c.require(c.gt(h, 0) && c.gt(q, 0));
            r = e * (q * h);
            inside = c.choose("inside", 2);
            piece = 0;
            if (!inside) c.require(c.gt(q, R(support(k))));
            else
            {
                piece = pieces(k) == 1 ? 0 : c.choose("piece", 2);
                if (pieces(k) == 2) c.require(piece ? c.gt(q, R(1)) && c.lt(q, R(2)) : c.lt(q, R(1)));
                else c.require(c.lt(q, R(support(k))));
            }
            C_ = factor<R>(k, d) / h;
            for (int i = 1; i < d; ++i) C_ = C_ / h;
        }
    };
}

CONTRACT("H01", kernel_value, "CSph{CubicSpline,Gaussian,Quintic,Spiky,Convex}::W, setDimension")
{
    typedef typename C::R R;
    Setup<C> s(c);
    R w = s.K->W(G(s.r), s.h);
    if (!s.inside)
    {
        c.ensure("zero outside the support", c.eq(w, R(0)));
        return;
    }
    c.ensure("the kernel is its profile times the normalising factor", c.eq(w, s.C_ * profile<R>(s.k, s.piece, s.q)));
    if (s.k != GAUSS) c.ensure("positive inside the support", c.gt(w, R(0)));
    c.ensure("even", c.eq(s.K->W(G(s.r * R(-1)), s.h), w));
}
CONTRACT("H01", kernel_derivatives, "CSph{CubicSpline,Gaussian,Quintic,Spiky,Convex}::gradientW/laplacianW")
{
    typedef typename C::R R;
    Setup<C> s(c);
    CGeoVector<R> g = s.K->gradientW(G(s.r), s.h);
    R l = s.K->laplacianW(G(s.r), s.h);
    if (!s.inside)
    {
        c.ensure("the gradient is zero outside the support", eqv(c, v<R>(g), v3<R>(R(0), R(0), R(0))));
        c.ensure("the Laplacian weight is zero outside the support", c.eq(l, R(0)));
        return;
    }
    R dw = slope<R>(s.k, s.piece, s.q);
    c.ensure("the gradient points along the distance with minus the slope of the profile", eqv(c, v<R>(g), s.e * (-s.C_ * dw * s.h)));
    if (s.k != CONVEX) c.ensure("the Laplacian weight follows from value and slope", c.eq(l, s.C_ * s.h * (R(s.d) * profile<R>(s.k, s.piece, s.q) - s.q * dw)));
}
CONTRACT("H01", convex_laplacian, "CSphConvex::laplacianW")
{
    typedef typename C::R R;
    Setup<C> s(c);
    if (s.k != CONVEX || !s.inside) return;
    R l = s.K->laplacianW(G(s.r), s.h);
    c.ensure("the Laplacian weight follows from value and slope", c.eq(l, s.C_ * s.h * (R(s.d) * profile<R>(s.k, 0, s.q) - s.q * slope<R>(s.k, 0, s.q))));
}
CONTRACT("H01", kernel_gradient_tolerance, "CSph{CubicSpline,Gaussian,Quintic,Spiky,Convex}::gradientW with a tolerance")
{
    typedef typename C::R R;
    Setup<C> s(c);
    R t = c.real("t");
    c.require(c.gt(t, s.q) && c.lt(t, R(1)));
    if (s.k == GAUSS || !s.inside) return;
    c.ensure("below the tolerance the slope is that at the tolerance", eqv(c, v<R>(s.K->gradientW(G(s.r), s.h, t)), s.e * (-s.C_ * slope<R>(s.k, 0, t) * s.h * s.q / t)));
}
// the normalisation, by quadrature over the code itself
RUNTIME_CONTRACT("H01", kernel_unit_integral, "CSph{CubicSpline,Gaussian,Quintic,Spiky,Convex}::W", "generated smoothing lengths and directions, Simpson quadrature over the radius")
{
    typedef typename C::R R;
    int k = c.choose("kernel", 5), d = 1 + c.choose("dimension", 3);
    R h = c.in("h", 0.01, 100);
    R a = c.in("angle", -3, 3);
    std::unique_ptr<CSphKernel<R>> K(kernel<R>(k, d));
    int n = 60 * 4;
    R s = R(0), dq = R(4) / R(n);
    for (int i = 0; i <= n; ++i)
    {
        R q = dq * R(i);
        R w = K->W(G(v3<R>(q * h * std::cos(a), q * h * std::sin(a), R(0))), h);
        for (int j = 1; j < d; ++j) w = w * q;
        s = s + w * R(i == 0 || i == n ? 1 : i % 2 ? 4 : 2);
    }
    s = s * dq / R(3);
    for (int j = 0; j < d; ++j) s = s * h;
    s = s * R(d == 1 ? 2 : d == 2 ? 2 * PI : 4 * PI);
    c.ensure("the kernel integrates to one", c.near(s, R(1), 2e-3));
}
