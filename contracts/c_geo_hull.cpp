// G09: convex hulls of vertices in a plane
#include "geo_common.hpp"
#include "GeoCoordinateSystem.hpp"
#include "GeoConvexHull.hpp"
using namespace spec;
using namespace ENigMA::geometry;

namespace
{
    double size(const V<double>& x) { return std::sqrt(dot(x, x)); }
    // rows are the axes of planes in which the numbers stay rational
    const double AXES[5][2][3] = { { { 1, 0, 0 }, { 0, 1, 0 } }, { { 0, 0, 1 }, { 0, 1, 0 } }, { { 0, 1, 0 }, { 0, 0, 1 } }, { { 3, 4, 0 }, { -4, 3, 0 } }, { { 0, 0, -5 }, { 4, -3, 0 } } };
    // hull against the vertices it was made of, in coordinates (x, y) of their plane; tol in length units
    template <class C, class R> void hull(C& c, CGeoConvexHull<R>& h, const std::vector<CGeoCoordinate<R>>& p, V<R> a, V<R> b, R tol)
    {
        int n = h.nbVertices();
        auto x = [&](CGeoCoordinate<R>& q) { return dot(v<R>(q), a); };
        auto y = [&](CGeoCoordinate<R>& q) { return dot(v<R>(q), b); };
        std::vector<CGeoCoordinate<R>> q = p;
        std::vector<bool> known;
        for (int i = 0; i < n; ++i)
        {
            bool found = false;
            for (auto& w : q) found = found || (w.x() == h.vertex(i).x() && w.y() == h.vertex(i).y() && w.z() == h.vertex(i).z());
            known.push_back(found);
        }
        bool all = n >= 3;
        for (bool k : known) all = all && k;
        c.ensure("vertices of the hull are given vertices", c.is(all));
        // sense of turning from the area
        R s = R(0);
        for (int i = 0; i < n; ++i) s = s + x(h.vertex(i)) * y(h.vertex(i + 1)) - x(h.vertex(i + 1)) * y(h.vertex(i));
        bool flat = s == R(0);
        c.ensure("the hull has an area", c.is(!flat));
        R sign = s > R(0) ? R(1) : R(-1);
        bool inside = true, convex = true;
        for (int i = 0; i < n; ++i)
        {
            CGeoCoordinate<R>&u = h.vertex(i), &w = h.vertex(i + 1), &z = h.vertex(i + 2);
            R dx = x(w) - x(u), dy = y(w) - y(u);
            for (auto& k : q) inside = inside && !(sign * (dx * (y(k) - y(u)) - dy * (x(k) - x(u))) < -tol);
            convex = convex && !(sign * (dx * (y(z) - y(w)) - dy * (x(z) - x(w))) < -tol);
        }
        c.ensure("every vertex is inside", c.is(inside));
        c.ensure("turns one way", c.is(convex));
    }
}
namespace
{
    // a fixed triangle and n vertices anywhere around it
    template <class C> void around(C& c, int n)
    {
        typedef typename C::R R;
        int k = 2 * c.choose("plane", n == 1 ? 5 : 2) % 5, at = 1 + c.choose("place", 3);
        double l = k < 3 ? 1 : 5;
        auto axis = [&](int i) { return v3<R>(R(AXES[k][i][0]) / R(l), R(AXES[k][i][1]) / R(l), R(AXES[k][i][2]) / R(l)); };
        V<R> a = axis(0), b = axis(1);
        std::vector<CGeoCoordinate<R>> p;
        auto add = [&](R s, R t) { p.push_back(P(a * s + b * t)); };
        add(R(0), R(0)), add(R(8), R(0)), add(R(0), R(6));
        for (int i = 0; i < n; ++i)
        {
            R x = c.in("x" + std::to_string(i), -4, 4), y = c.in("y" + std::to_string(i), -4, 4);
            p.insert(p.begin() + at, P(a * x + b * y));
        }
        CGeoConvexHull<R> h(p);
        hull<C, R>(c, h, p, a, b, R(c.symbolic ? 0 : 1e-9));
    }
}
BOUNDED_CONTRACT("G09", hull_one_more, "CGeoConvexHull::set/vertex/nbVertices", "a fixed triangle and one vertex anywhere around it, at any later place of the list, in five planes")
{
    around(c, 1);
}
BOUNDED_CONTRACT("G09", hull_two_more, "CGeoConvexHull::set/vertex/nbVertices", "a fixed triangle and two vertices anywhere around it, coincident ones included, at any later place of the list, in two planes")
{
    around(c, 2);
}
RUNTIME_CONTRACT("G09", hull_generated, "CGeoConvexHull: construction, set, reset, addVertex, vertex", "generated sets of 3 to 24 vertices in a plane of any orientation, on a line, coincident or on a grid among them; reused hulls")
{
    typedef double R;
    std::mt19937 g(c.choose("seed", 1 << 20));
    auto U = [&](double lo, double hi) { return std::uniform_real_distribution<double>(lo, hi)(g); };
    V<R> o = v3<R>(U(-1, 1), U(-1, 1), U(-1, 1)), a, b;
    CGeoConvexHull<R> h;
    for (int round = 0; round < 2; ++round)
    {
        do
        {
            a = v3<R>(U(-1, 1), U(-1, 1), U(-1, 1)), b = v3<R>(U(-1, 1), U(-1, 1), U(-1, 1));
            if (g() % 3 == 0) a = v3<R>(g() % 3 - 1.0, g() % 3 - 1.0, g() % 2), b = v3<R>(g() % 3 - 1.0, g() % 3 - 1.0, g() % 2);
            a = a * (1 / std::max(1e-9, size(a)));
            b = b - a * dot(a, b);
        } while (size(b) < 0.1);
        b = b * (1 / size(b));
        int n = 3 + g() % 22, kind = g() % 3;
        std::vector<CGeoCoordinate<R>> p;
        R spread = 0;
        for (int i = 0; i < n; ++i)
        {
            R s = U(-3, 3), t = U(-3, 3);
            if (kind == 1) s = int(g() % 5) - 2, t = int(g() % 5) - 2; // many on lines, some twice
            if (kind == 2 && i < n - 1) t = 0.5 * s;
            p.push_back(P(o + a * s + b * t));
        }
        for (auto& u : p)
            for (auto& w : p) spread = std::max(spread, size(cross(v<R>(u) - v<R>(p[0]), v<R>(w) - v<R>(p[0]))));
        if (spread < 0.01) throw ecv::Reject();
        if (g() % 2) std::rotate(p.begin(), p.end() - 1, p.end());
        if (round) h.set(p);
        else h = CGeoConvexHull<R>(p);
        hull<C, R>(c, h, p, a, b, 1e-9);
        if (!round) continue;
        CGeoCoordinate<R> extra(9, 9, 9);
        int m = h.nbVertices();
        h.addVertex(extra);
        c.ensure("addVertex", c.is(h.nbVertices() == m + 1 && (h.vertex(m) - extra).norm() == 0));
        h.reset();
        c.ensure("reset", c.is(h.nbVertices() == 0));
        h.set(std::vector<CGeoCoordinate<R>>(p.begin(), p.begin() + 2));
        c.ensure("two vertices have no hull", c.is(h.nbVertices() == 0));
    }
}
