#include "geo_common.hpp"
#include "StlUtils.hpp"
#include "CsgBoolean.hpp"
#include "CsgCube.hpp"
#include "CsgCylinder.hpp"
#include "CsgSphere.hpp"
using namespace spec;
using namespace ENigMA::geometry;
using namespace ENigMA::csg;

namespace
{
    typedef CCsgBoolean<double> Csg;
    typedef V<double> Pt;

    Pt pt(const CGeoCoordinate<double>& a) { return v3<double>(a.x(), a.y(), a.z()); }
    double angle(const Pt& a, const Pt& b, const Pt& c2)
    {
        double la = std::sqrt(dot(a, a)), lb = std::sqrt(dot(b, b)), lc = std::sqrt(dot(c2, c2));
        return 2 * std::atan2(dot(a, cross(b, c2)), la * lb * lc + dot(a, b) * lc + dot(b, c2) * la + dot(c2, a) * lb);
    }
    // how many times the surface goes around the point
    double winding(Csg& s, const Pt& q)
    {
        double w = 0;
        for (auto& g : s.polygons())
            for (Integer i = 1; i + 1 < g.polyline().nbVertices(); ++i)
                w += angle(pt(g.polyline().vertex(0)) - q, pt(g.polyline().vertex(i)) - q, pt(g.polyline().vertex(i + 1)) - q);
        return w / (4 * M_PI);
    }
    double volume(Csg& s)
    {
        double w = 0;
        for (auto& g : s.polygons())
            for (Integer i = 1; i + 1 < g.polyline().nbVertices(); ++i)
                w += dot(pt(g.polyline().vertex(0)), cross(pt(g.polyline().vertex(i)), pt(g.polyline().vertex(i + 1)))) / 6;
        return w;
    }
    // distance to the nearest plane of a face
    double away(Csg& s, const Pt& q)
    {
        double w = 1e300;
        for (auto& g : s.polygons())
        {
            Pt a = pt(g.polyline().vertex(0)), n = cross(pt(g.polyline().vertex(1)) - a, pt(g.polyline().vertex(2)) - a);
            double l = std::sqrt(dot(n, n));
            if (l > 1e-12) w = std::min(w, std::fabs(dot(n, q - a)) / l);
        }
        return w;
    }
    struct Gen {
        std::mt19937 g;
        Gen(int seed) : g(seed + 17) { }
        double U(double lo, double hi) { return std::uniform_real_distribution<double>(lo, hi)(g); }
        double snap(double lo, double hi) { return g() % 2 || general ? U(lo, hi) : std::round(U(lo, hi) * 2) / 2; } // touching and shared planes are common
        CGeoCoordinate<double> at() { return CGeoCoordinate<double>(snap(-1, 1), snap(-1, 1), snap(-1, 1)); }
        bool general = false; // general position only
        Csg solid(int& kind)
        {
            kind = general ? 3 : g() % 4;
            Csg s;
            if (kind == 0 || kind == 3) s = CCsgCube<double>::create(at(), CGeoVector<double>(snap(0.75, 1.25), snap(0.75, 1.25), snap(0.75, 1.25)));
            else if (kind == 1)
            {
                CGeoCoordinate<double> a = at(), b = a;
                if (g() % 2) b += CGeoVector<double>(0, 0, snap(1, 2));
                else b += CGeoVector<double>(U(-1, 1), U(-1, 1), U(0.5, 1));
                s = CCsgCylinder<double>::create(a, b, snap(0.5, 1.5), 3 + g() % 8);
            }
            else
            {
                CGeoCoordinate<double> a = at();
                s = CCsgSphere<double>::create(a, snap(0.5, 1.5), 4 + g() % 5, 3 + g() % 4);
            }
            if (kind == 3) // turned
            {
                double q[4] = { U(-1, 1), U(-1, 1), U(-1, 1), U(-1, 1) }, n = 0;
                for (double x : q) n += x * x;
                Pt e[3] = { v3<double>(q[0] * q[0] + q[1] * q[1] - q[2] * q[2] - q[3] * q[3], 2 * (q[1] * q[2] + q[0] * q[3]), 2 * (q[1] * q[3] - q[0] * q[2])), v3<double>(2 * (q[1] * q[2] - q[0] * q[3]), q[0] * q[0] - q[1] * q[1] + q[2] * q[2] - q[3] * q[3], 2 * (q[2] * q[3] + q[0] * q[1])), v3<double>(2 * (q[1] * q[3] + q[0] * q[2]), 2 * (q[2] * q[3] - q[0] * q[1]), q[0] * q[0] - q[1] * q[1] - q[2] * q[2] + q[3] * q[3]) };
                std::vector<CGeoPolygon<double>> l;
                for (auto& f : s.polygons())
                {
                    CGeoPolygon<double> h;
                    for (Integer i = 0; i < 4; ++i)
                    {
                        Pt x = pt(f.polyline().vertex(i));
                        x = (e[0] * x.x + e[1] * x.y + e[2] * x.z) * (1 / n);
                        h.polyline().addVertex(CGeoCoordinate<double>(x.x, x.y, x.z));
                    }
                    h.close();
                    h.calculateNormal();
                    l.push_back(h);
                }
                s = Csg(l);
            }
            if (!general) s.setTolerance(1e-7);
            return s;
        }
    };
    bool inside(double w) { return w > 0.5; }
    bool whole(double w) { return std::fabs(w) < 1e-4 || std::fabs(w - 1) < 1e-4; }
}

RUNTIME_CONTRACT("C01", csg_solids, "CCsgCube::create, CCsgCylinder::create/point, CCsgSphere::create/vertex", "generated positions and sizes, 3 to 10 slices")
{
    Gen g(c.choose("seed", 1 << 20));
    // cube
    CGeoCoordinate<double> o = g.at();
    CGeoVector<double> r(g.U(0.1, 2), g.U(0.1, 2), g.U(0.1, 2));
    Csg q = CCsgCube<double>::create(o, r);
    c.ensure("volume of the cube", c.near(volume(q), 8 * r.x() * r.y() * r.z(), 1e-9));
    bool ok = true, n = true;
    auto normals = [&](Csg& s) {
        for (auto& f : s.polygons())
        {
            Pt a = pt(f.polyline().vertex(0)), b = cross(pt(f.polyline().vertex(1)) - a, pt(f.polyline().vertex(2)) - a);
            Pt m = v3<double>(f.normal().x(), f.normal().y(), f.normal().z());
            n = n && std::fabs(dot(m, m) - 1) < 1e-9 && std::fabs(dot(b, m) - std::sqrt(dot(b, b))) < 1e-9 && f.isClosed();
        }
    };
    for (int k = 0; k < 8; ++k)
    {
        Pt p = v3<double>(o.x() + r.x() * g.U(-2, 2), o.y() + r.y() * g.U(-2, 2), o.z() + r.z() * g.U(-2, 2));
        if (away(q, p) < 1e-3) continue;
        bool in = std::fabs(p.x - o.x()) < r.x() && std::fabs(p.y - o.y()) < r.y() && std::fabs(p.z - o.z()) < r.z();
        ok = ok && whole(winding(q, p)) && inside(winding(q, p)) == in;
    }
    normals(q);
    c.ensure("the cube encloses its inside", c.is(ok));
    // cylinder
    ok = true;
    CGeoCoordinate<double> a = g.at(), b(a.x() + g.U(-1, 1), a.y() + g.U(-1, 1), a.z() + (g.g() % 2 ? 1 : -1) * g.U(0.2, 1));
    double R = g.U(0.2, 2);
    int m = 3 + g.g() % 8;
    Csg y = CCsgCylinder<double>::create(a, b, R, m);
    Pt ax = pt(b) - pt(a);
    double h = std::sqrt(dot(ax, ax));
    c.ensure("volume of the cylinder", c.near(volume(y), h * 0.5 * m * R * R * std::sin(2 * M_PI / m), 1e-8));
    c.ensure("polygons of the cylinder", c.is(y.nbPolygons() == 3 * m));
    for (int k = 0; k < 8; ++k)
    {
        Pt p = pt(a) + v3<double>(g.U(-2, 2), g.U(-2, 2), g.U(-2, 2));
        if (away(y, p) < 1e-3) continue;
        double s = dot(p - pt(a), ax) / (h * h);
        Pt d = p - pt(a) - ax * s;
        double w = winding(y, p), t = std::sqrt(dot(d, d));
        ok = ok && whole(w);
        if (s > 0 && s < 1 && t < R * std::cos(M_PI / m)) ok = ok && inside(w);
        if (s < 0 || s > 1 || t > R) ok = ok && !inside(w);
    }
    normals(y);
    c.ensure("the cylinder encloses its inside", c.is(ok));
    // sphere
    ok = true;
    int ns = 3 + g.g() % 8, nk = 2 + g.g() % 6;
    Csg s = CCsgSphere<double>::create(a, R, ns, nk);
    double V = 0;
    for (int k = 0; k < nk; ++k)
    {
        double p0 = M_PI * k / nk, p1 = M_PI * (k + 1) / nk, r0 = R * std::sin(p0), r1 = R * std::sin(p1), hh = R * (std::cos(p0) - std::cos(p1)), A = 0.5 * ns * std::sin(2 * M_PI / ns);
        V += A * hh * (r0 * r0 + r0 * r1 + r1 * r1) / 3;
    }
    c.ensure("volume of the sphere", c.near(volume(s), V, 1e-8));
    c.ensure("polygons of the sphere", c.is(s.nbPolygons() == ns * nk));
    for (int k = 0; k < 8; ++k)
    {
        Pt p = pt(a) + v3<double>(g.U(-2, 2), g.U(-2, 2), g.U(-2, 2));
        if (away(s, p) < 1e-3) continue;
        double w = winding(s, p), t = std::sqrt(dot(p - pt(a), p - pt(a)));
        ok = ok && whole(w) && (t < R || !inside(w));
    }
    bool vertices = true;
    for (auto& f : s.polygons())
        for (Integer i = 0; i < f.polyline().nbVertices(); ++i)
        {
            Pt d = pt(f.polyline().vertex(i)) - pt(a);
            vertices = vertices && std::fabs(std::sqrt(dot(d, d)) - R) < 1e-9;
        }
    normals(s);
    c.ensure("the sphere encloses its inside", c.is(ok && vertices));
    c.ensure("outward unit normals, closed polygons", c.is(n));
}

RUNTIME_CONTRACT("C01", csg_boolean, "CCsgBoolean::add/subtract/intersect, CCsgBspNode", "generated chains of up to three operations on cubes, turned cubes, cylinders, spheres; touching faces included; generated points")
{
    Gen g(c.choose("seed", 1 << 20));
    int kind, nops = 1 + g.g() % 3;
    Csg s = g.solid(kind);
    std::vector<Csg> parts(1, s);
    std::vector<int> ops;
    bool kept = true;
    double vol = volume(s);
    bool sums = true;
    for (int k = 0; k < nops; ++k)
    {
        Csg t = g.solid(kind), s1 = s, t1 = t;
        int op = g.g() % 3;
        Csg u = s.add(t), i = s.intersect(t), d = s.subtract(t);
        sums = sums && std::fabs(volume(u) + volume(i) - volume(s) - volume(t)) < 1e-5 && std::fabs(volume(d) + volume(i) - volume(s)) < 1e-5;
        for (int w = 0; w < 2; ++w) // the operands are left alone
        {
            Csg &x = w ? t : s, &y = w ? t1 : s1;
            kept = kept && x.nbPolygons() == y.nbPolygons();
            for (int j = 0; kept && j < x.nbPolygons(); ++j) kept = x.polygons()[j].polyline().nbVertices() == y.polygons()[j].polyline().nbVertices() && x.polygons()[j].normal() == y.polygons()[j].normal() && x.polygons()[j].polyline().vertex(1) == y.polygons()[j].polyline().vertex(1);
        }
        s = op == 0 ? u : op == 1 ? i : d;
        parts.push_back(t), ops.push_back(op);
    }
    bool ok = true, once = true;
    for (int k = 0; k < 12; ++k)
    {
        Pt p = v3<double>(g.U(-2, 2), g.U(-2, 2), g.U(-2, 2));
        double f = 1e300;
        for (auto& x : parts) f = std::min(f, away(x, p));
        if (f < 1e-3) continue;
        bool in = inside(winding(parts[0], p));
        for (int j = 0; j < nops; ++j)
        {
            bool o = inside(winding(parts[j + 1], p));
            in = ops[j] == 0 ? in || o : ops[j] == 1 ? in && o : in && !o;
        }
        double w = winding(s, p);
        once = once && whole(w);
        ok = ok && inside(w) == in;
    }
    c.ensure("a point is inside the result as the operation says", c.is(ok));
    c.ensure("the surface of the result is closed and goes around once", c.is(once));
    c.ensure("volumes of union, intersection and difference", c.is(sums));
    c.ensure("operands are left alone", c.is(kept));
}

RUNTIME_CONTRACT("C01", csg_default_tolerance, "CCsgBoolean::add/subtract/intersect without setTolerance", "generated pairs of boxes on a grid (exact arithmetic), turned boxes for termination")
{
    Gen g(c.choose("seed", 1 << 20));
    auto grid = [&](double lo, double hi) { return std::round(g.U(lo, hi) * 4) / 4; };
    auto box = [&] { return CCsgCube<double>::create(CGeoCoordinate<double>(grid(-1, 1), grid(-1, 1), grid(-1, 1)), CGeoVector<double>(grid(0.5, 1.5), grid(0.5, 1.5), grid(0.5, 1.5))); };
    Csg s = box(), t = box(), u = s.add(t), i = s.intersect(t), d = s.subtract(t);
    c.ensure("union and intersection", c.near(volume(u) + volume(i), volume(s) + volume(t), 1e-6));
    c.ensure("difference and intersection", c.near(volume(d) + volume(i), volume(s), 1e-6));
    bool ok = true;
    for (int k = 0; k < 8; ++k)
    {
        Pt p = v3<double>(g.U(-2, 2), g.U(-2, 2), g.U(-2, 2));
        if (std::min(away(s, p), away(t, p)) < 1e-3) continue;
        bool a = inside(winding(s, p)), b = inside(winding(t, p));
        ok = ok && whole(winding(u, p)) && whole(winding(i, p)) && whole(winding(d, p)) && inside(winding(u, p)) == (a || b) && inside(winding(i, p)) == (a && b) && inside(winding(d, p)) == (a && !b);
    }
    c.ensure("a point is inside the result as the operation says", c.is(ok));
    // rounding of oblique planes must not keep the operations from ending
    g.general = true;
    int kind;
    Csg x = g.solid(kind), y = g.solid(kind);
    c.ensure("operations on turned boxes end", c.is(x.add(y).nbPolygons() + x.subtract(y).nbPolygons() + x.intersect(y).nbPolygons() >= 0));
}

RUNTIME_CONTRACT("C01", csg_empty, "CCsgBoolean::add/subtract/intersect with an empty solid", "generated solids")
{
    Gen g(c.choose("seed", 1 << 20));
    int kind;
    Csg s = g.solid(kind), e;
    e.setTolerance(1e-7);
    if (g.g() % 2)
    {
        Csg far = CCsgCube<double>::create(CGeoCoordinate<double>(10, 0, 0), CGeoVector<double>(1, 1, 1));
        far.setTolerance(1e-7);
        e = far.intersect(s);
        c.ensure("solids apart have nothing in common", c.is(e.nbPolygons() == 0));
    }
    const double v = volume(s);
    Csg r[6] = { s.add(e), e.add(s), s.subtract(e), e.subtract(s), s.intersect(e), e.intersect(s) };
    for (int k = 0; k < 6; ++k) c.ensure(nm("empty operand ", k), c.near(volume(r[k]), k < 3 ? v : 0, 1e-9) && c.is(k < 3 || r[k].nbPolygons() == 0));
}

RUNTIME_CONTRACT("C01", csg_stl, "CCsgBoolean::toStl/fromSTL", "generated results of one operation")
{
    Gen g(c.choose("seed", 1 << 20));
    int kind;
    Csg s = g.solid(kind), t = g.solid(kind), u = g.g() % 2 ? s.add(t) : s.subtract(t), back;
    auto stl = u.toStl();
    back.fromSTL(stl);
    c.ensure("one polygon for each facet", c.is(back.nbPolygons() == stl.stlFile().nbFacets()));
    c.ensure("the same volume", c.near(volume(back), volume(u), 1e-6));
    bool ok = true;
    for (int k = 0; k < 8; ++k)
    {
        Pt p = v3<double>(g.U(-2, 2), g.U(-2, 2), g.U(-2, 2));
        if (std::min(away(s, p), away(t, p)) < 1e-3) continue;
        ok = ok && whole(winding(back, p)) && inside(winding(back, p)) == inside(winding(u, p));
    }
    c.ensure("the facets enclose the same points", c.is(ok));
}

namespace
{
    // six times the volume, from corner to corner of each polygon
    template <class R> R volume6(std::vector<CGeoPolygon<R>>& l)
    {
        R w(0);
        for (auto& g : l)
        {
            V<R> a = v<R>(g.polyline().vertex(0));
            for (Integer i = 1; i + 1 < g.polyline().nbVertices(); ++i) w += dot(a, cross(v<R>(g.polyline().vertex(i)), v<R>(g.polyline().vertex(i + 1))));
        }
        return w;
    }
    // the box between two corners
    template <class R> CCsgBoolean<R> boxOf(const R lo[3], const R hi[3])
    {
        static const int F[6][4] = { { 0, 4, 6, 2 }, { 1, 3, 7, 5 }, { 0, 1, 5, 4 }, { 2, 6, 7, 3 }, { 0, 2, 3, 1 }, { 4, 5, 7, 6 } };
        std::vector<CGeoPolygon<R>> l;
        for (int k = 0; k < 6; ++k)
        {
            CGeoPolygon<R> p;
            for (int i : F[k]) p.polyline().addVertex(CGeoCoordinate<R>(i & 1 ? hi[0] : lo[0], i & 2 ? hi[1] : lo[1], i & 4 ? hi[2] : lo[2]));
            p.polyline().addVertex(p.polyline().vertex(0));
            int s = k % 2 ? 1 : -1;
            p.normal() << R(k / 2 == 0 ? s : 0), R(k / 2 == 1 ? s : 0), R(k / 2 == 2 ? s : 0);
            l.push_back(p);
        }
        return CCsgBoolean<R>(l, R(0));
    }
    // the thirteen orders of two intervals along an axis; consecutive ends are a positive length apart
    template <class C> bool order(C& c, const std::string& n, int k, typename C::R a[2], typename C::R b[2], typename C::R& common)
    {
        typedef typename C::R R;
        static const int K[13][4] = { { 0, 1, 2, 3 }, { 0, 1, 1, 2 }, { 0, 2, 1, 3 }, { 0, 1, 0, 2 }, { 1, 2, 0, 3 }, { 1, 2, 0, 2 }, { 0, 1, 0, 1 }, { 2, 3, 0, 1 }, { 1, 2, 0, 1 }, { 1, 3, 0, 2 }, { 0, 2, 0, 1 }, { 0, 3, 1, 2 }, { 0, 2, 1, 2 } };
        R x[4];
        x[0] = C::symbolic ? c.real(n + "0") : c.in(n + "0", -4, 4);
        for (int i = 1; i < 4; ++i)
        {
            R d = C::symbolic ? c.real(n + std::to_string(i)) : c.in(n + std::to_string(i), 0.01, 4);
            c.require(c.gt(d, R(0)));
            x[i] = x[i - 1] + d;
        }
        a[0] = x[K[k][0]], a[1] = x[K[k][1]], b[0] = x[K[k][2]], b[1] = x[K[k][3]];
        int lo = std::max(K[k][0], K[k][2]), hi = std::min(K[k][1], K[k][3]);
        common = lo < hi ? x[hi] - x[lo] : R(0);
        return lo < hi;
    }
    template <class C> void boxPair(C& c, int k, CCsgBoolean<typename C::R>& a, CCsgBoolean<typename C::R>& b, typename C::R& va, typename C::R& vb, typename C::R& vi)
    {
        typedef typename C::R R;
        R alo[3], ahi[3], blo[3], bhi[3];
        bool meet = true;
        va = vb = vi = R(1);
        for (int j = 0; j < 3; ++j)
        {
            int o = j == 0 ? k : c.choose(nm("order", j), 13);
            R p[2], q[2], m;
            meet = order(c, std::string(1, char('x' + j)), o, p, q, m) && meet;
            alo[j] = p[0], ahi[j] = p[1], blo[j] = q[0], bhi[j] = q[1];
            va = va * (p[1] - p[0]), vb = vb * (q[1] - q[0]), vi = vi * m;
        }
        if (!meet) vi = R(0);
        a = boxOf(alo, ahi), b = boxOf(blo, bhi);
    }
    template <class C> void twoBoxes(C& c, int k)
    {
        typedef typename C::R R;
        CCsgBoolean<R> a, b;
        R va, vb, vi;
        boxPair(c, k, a, b, va, vb, vi);
        const double sc = 100 * (c.mag(va) + c.mag(vb));
        CCsgBoolean<R> u = a.add(b), i = a.intersect(b), d = a.subtract(b);
        c.ensure("volume of the intersection", c.eq(volume6(i.polygons()), R(6) * vi, sc));
        c.ensure("volume of the union", c.eq(volume6(u.polygons()), R(6) * (va + vb - vi), sc));
        c.ensure("volume of the difference", c.eq(volume6(d.polygons()), R(6) * (va - vi), sc));
    }
}

BOUNDED_CONTRACT("C01", csg_two_boxes, "CCsgBoolean::add/subtract/intersect, CCsgBspNode::build/clipTo/splitPolygon/invert", "two boxes, each of the 2197 relative positions, every coordinate")
{
    twoBoxes(c, c.choose("order0", 13));
}

CONTRACT("C01", csg_cube, "CCsgCube::create")
{
    typedef typename C::R R;
    V<R> o = vec(c, "o"), r = vec(c, "r");
    c.require(c.gt(r.x, R(0.001)) && c.gt(r.y, R(0.001)) && c.gt(r.z, R(0.001)));
    CCsgBoolean<R> q = CCsgCube<R>::create(P(o), G(r));
    auto& l = q.polygons();
    c.ensure("six faces", c.is(l.size() == 6));
    c.ensure("volume", c.eq(volume6(l), R(48) * r.x * r.y * r.z, 1000 * (c.mag(r.x) + c.mag(o.x)) * (c.mag(r.y) + c.mag(o.y)) * (c.mag(r.z) + c.mag(o.z))));
    for (int k = 0; k < 6; ++k)
    {
        V<R> n = v<R>(l[k].normal()), out = k / 2 == 0 ? v3(R(1), R(0), R(0)) : k / 2 == 1 ? v3(R(0), R(1), R(0)) : v3(R(0), R(0), R(1));
        if (k % 2 == 0) out = out * R(-1);
        c.ensure(nm("normal ", k), eqv(c, n, out));
        c.ensure(nm("closed ", k), c.is(l[k].polyline().nbVertices() == 5) && eqv(c, v<R>(l[k].polyline().vertex(4)), v<R>(l[k].polyline().vertex(0))));
        for (int i = 0; i < 4; ++i)
        {
            V<R> d = v<R>(l[k].polyline().vertex(i)) - o;
            c.ensure(nm("on its face ", k, i), c.eq(dot(d, out), dot(v3(r.x, r.y, r.z), out) * dot(v3(R(1), R(1), R(1)), out), 100 * (c.mag(o.x) + c.mag(o.y) + c.mag(o.z))));
        }
    }
}
