#include "geo_common.hpp"
#include "CmnTypes.hpp"
#include <array>
#include <vector>
#include "IntBeam.hpp"
#include "IntTriangle.hpp"
#include "IntQuadrilateral.hpp"
#include "IntTriangularPrism.hpp"
#include "IntHexahedron.hpp"
using namespace spec;
using namespace ENigMA::integration;

namespace
{
    double fact(int n) { return n < 2 ? 1 : n * fact(n - 1); }
    double intPow(int n) { return n % 2 ? 0.0 : 2.0 / (n + 1); } // over [-1,1]
    double simplex2(int p, int q) { return fact(p) * fact(q) / fact(p + q + 2); } // over the unit triangle
    template <class R> R ipow(R x, int n)
    {
        R r = R(1);
        for (int i = 0; i < n; ++i) r = r * x;
        return r;
    }
    // a polynomial with arbitrary coefficients of magnitude at most one, and its exact integral
    template <class C> struct Poly {
        typedef typename C::R R;
        std::vector<std::array<int, 3>> e;
        std::vector<R> k;
        R exact = R(0);
        void term(C& c, int p, int q, int r, double integral)
        {
            R a = c.in("k" + std::to_string(p) + "_" + std::to_string(q) + "_" + std::to_string(r), -1, 1);
            e.push_back({ p, q, r });
            k.push_back(a);
            exact = exact + a * R(integral);
        }
        R at(R x, R y, R z) const
        {
            R s = R(0);
            for (size_t i = 0; i < k.size(); ++i) s = s + k[i] * ipow(x, e[i][0]) * ipow(y, e[i][1]) * ipow(z, e[i][2]);
            return s;
        }
    };
}

CONTRACT("I01", beam_rules, "CIntBeam::setGaussPoints")
{
    typedef typename C::R R;
    const int pts[5] = { 1, 2, 3, 4, 6 };
    int n = pts[c.choose("rule", 5)];
    CIntBeam<R> g;
    g.m_integPoints = n;
    g.setGaussPoints();
    c.ensure("one coordinate and one weight per point", c.is((int)g.m_xi.size() == n && (int)g.m_wxi.size() == n));
    Poly<C> f;
    for (int p = 0; p <= 2 * n - 1; ++p) f.term(c, p, 0, 0, intPow(p));
    R s = R(0), w = R(0);
    for (int i = 0; i < n; ++i)
    {
        s = s + g.m_wxi[i] * f.at(g.m_xi[i], R(0), R(0));
        w = w + g.m_wxi[i];
        c.ensure("points lie inside and weights are positive", c.gt(g.m_wxi[i], 0) && c.lt(g.m_xi[i], 1) && c.gt(g.m_xi[i], -1));
    }
    c.ensure("weights add up to the length", c.near(w, R(2), 1e-7));
    c.ensure("every polynomial of the rule's degree is integrated", c.near(s, f.exact, 1e-7));
}
CONTRACT("I01", quadrilateral_rules, "CIntQuadrilateral::setGaussPoints (one and four points)")
{
    typedef typename C::R R;
    int n = c.choose("rule", 2) ? 4 : 1, d = n == 4 ? 3 : 1;
    CIntQuadrilateral<R> g;
    g.m_integPoints = n;
    g.setGaussPoints();
    c.ensure("one coordinate and one weight per point", c.is((int)g.m_xi.size() == n && (int)g.m_wxi.size() == n && (int)g.m_eta.size() == n && (int)g.m_weta.size() == n));
    Poly<C> f;
    for (int p = 0; p <= d; ++p)
        for (int q = 0; q <= d; ++q) f.term(c, p, q, 0, intPow(p) * intPow(q));
    R s = R(0);
    for (int i = 0; i < n; ++i) s = s + g.m_wxi[i] * g.m_weta[i] * f.at(g.m_xi[i], g.m_eta[i], R(0));
    c.ensure("every polynomial of the rule's degree in each variable is integrated", c.near(s, f.exact, 1e-7));
}
CONTRACT("I01", quadrilateral_eight_points, "CIntQuadrilateral::setGaussPoints (eight points)")
{
    typedef typename C::R R;
    CIntQuadrilateral<R> g;
    g.m_integPoints = 8;
    g.setGaussPoints();
    R s = R(0);
    for (int i = 0; i < 8; ++i) s = s + g.m_wxi[i] * g.m_weta[i];
    R k = c.in("k", -1, 1);
    c.ensure("the eight-point rule integrates constants", c.near(s * k, k * R(4), 1e-6));
}
CONTRACT("I01", hexahedron_rules, "CIntHexahedron::setGaussPoints")
{
    typedef typename C::R R;
    const int pts[3] = { 1, 8, 27 };
    int r = c.choose("rule", 3), n = pts[r], d = 2 * r + 1;
    CIntHexahedron<R> g;
    g.m_integPoints = n;
    g.setGaussPoints();
    c.ensure("one coordinate and one weight per point", c.is((int)g.m_xi.size() == n && (int)g.m_wxi.size() == n && (int)g.m_eta.size() == n && (int)g.m_weta.size() == n && (int)g.m_zeta.size() == n && (int)g.m_wzeta.size() == n));
    Poly<C> f;
    for (int p = 0; p <= d; ++p)
        for (int q = 0; q <= d; ++q)
            for (int t = 0; t <= d; ++t) f.term(c, p, q, t, intPow(p) * intPow(q) * intPow(t));
    R s = R(0);
    for (int i = 0; i < n; ++i) s = s + g.m_wxi[i] * g.m_weta[i] * g.m_wzeta[i] * f.at(g.m_xi[i], g.m_eta[i], g.m_zeta[i]);
    c.ensure("every polynomial of the rule's degree in each variable is integrated", c.near(s, f.exact, 1e-6));
}
CONTRACT("I01", triangle_rules, "CIntTriangle::setBarycentricGaussPoints")
{
    typedef typename C::R R;
    const int pts[8] = { 1, 3, 6, 7, 12, 16, 17, 20 }, deg[8] = { 1, 2, 4, 5, 6, 8, 8, 8 };
    int r = c.choose("rule", 8), n = pts[r];
    CIntTriangle<R> g;
    g.m_integPoints = n;
    for (int k = 0; k < 2; ++k) // setting twice changes nothing
        g.setBarycentricGaussPoints();
    c.ensure("one set of coordinates and one weight per point", c.is((int)g.m_beta1.size() == n && (int)g.m_beta2.size() == n && (int)g.m_beta3.size() == n && (int)g.m_wbeta.size() == n));
    Poly<C> f;
    for (int p = 0; p <= deg[r]; ++p)
        for (int q = 0; p + q <= deg[r]; ++q) f.term(c, p, q, 0, simplex2(p, q));
    R s = R(0), t = R(0);
    for (int i = 0; i < n; ++i)
    {
        R b1 = g.m_beta1[i], b2 = g.m_beta2[i], b3 = g.m_beta3[i];
        c.ensure("barycentric coordinates add up to one", c.near(b1 + b2 + b3, R(1), 1e-7));
        s = s + g.m_wbeta[i] * f.at(b1, b2, R(0));
        t = t + g.m_wbeta[i] * f.at(b2, b3, R(0)); // and in the other pair of coordinates
    }
    c.ensure("every polynomial of the rule's degree is integrated over the unit triangle", c.near(s, f.exact, 1e-6));
    c.ensure("and in the other pair of coordinates", c.near(t, f.exact, 1e-6));
}
CONTRACT("I01", prism_rules, "CIntTriangularPrism::setGaussPoints (one and nine points)")
{
    typedef typename C::R R;
    int n = c.choose("rule", 2) ? 9 : 1, d = n == 9 ? 2 : 1, dz = n == 9 ? 5 : 1;
    CIntTriangularPrism<R> g;
    g.m_integPoints = n;
    g.setGaussPoints();
    Poly<C> f;
    for (int p = 0; p <= d; ++p)
        for (int q = 0; p + q <= d; ++q)
            for (int t = 0; t <= dz; ++t) f.term(c, p, q, t, simplex2(p, q) * intPow(t));
    R s = R(0);
    for (int i = 0; i < n; ++i) s = s + g.m_wxi[i] * g.m_weta[i] * g.m_wzeta[i] * f.at(g.m_xi[i], g.m_eta[i], g.m_zeta[i]);
    c.ensure("every polynomial of the rule's degree is integrated over the unit prism", c.near(s, f.exact, 1e-7));
}
CONTRACT("I01", prism_six_points, "CIntTriangularPrism::setGaussPoints (six points)")
{
    typedef typename C::R R;
    CIntTriangularPrism<R> g;
    g.m_integPoints = 6;
    g.setGaussPoints();
    R s = R(0);
    for (int i = 0; i < 6; ++i) s = s + g.m_wxi[i] * g.m_weta[i] * g.m_wzeta[i];
    R k = c.in("k", -1, 1);
    c.ensure("the six-point rule integrates constants", c.near(s * k, k, 1e-6));
}
