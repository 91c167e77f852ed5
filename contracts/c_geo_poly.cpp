#include "geo_common.hpp"
#include "GeoPolygon.hpp"
#include "GeoPolyhedron.hpp"
#include "GeoLineList.hpp"
using namespace spec;
using namespace ENigMA::geometry;

template <class R> CGeoPolygon<R> polygon(const std::vector<V<R>>& q)
{
    CGeoPolyline<R> l;
    for (auto& p : q) l.addVertex(P(p));
    l.close();
    CGeoPolygon<R> g;
    g.setPolyline(l);
    return g;
}
template <class R> CGeoPlane<R> plane(V<R> n, R d)
{
    CGeoNormal<R> gn;
    gn << n.x, n.y, n.z;
    return CGeoPlane<R>(gn, d);
}
template <class R> V<R> vecArea(CGeoPolygon<R>& g)
{
    V<R> s = v3(R(0), R(0), R(0)), o = v<R>(g.polyline().vertex(0));
    for (int i = 0; i + 1 < g.polyline().nbVertices(); ++i) s = s + cross(v<R>(g.polyline().vertex(i)) - o, v<R>(g.polyline().vertex(i + 1)) - o);
    return s * R(0.5);
}

CONTRACT("G07", polygon_triangle, "CGeoPolygon::calculateArea/calculateNormal/calculateCentroid (three vertices), reset")
{
    typedef typename C::R R;
    V<R> a = vec(c, "a"), e = vec(c, "e"), f = vec(c, "f");
    V<R> n = cross(e, f);
    c.require(c.gt(n2(n), R(1e-6)) && c.gt(n2(e), R(1e-6)) && c.gt(n2(f), R(1e-6)) && c.gt(n2(e - f), R(1e-6)));
    c.require(c.gt(sqrt(n2(n)), R(1e-3)));
    CGeoPolygon<R> g = polygon<R>({ a, a + e, a + f });
    if (c.choose("reused", 2))
    {
        CGeoPolygon<R> h = polygon<R>({ v3(R(0), R(0), R(0)), v3(R(1), R(0), R(0)), v3(R(0), R(3), R(0)) });
        h.calculateArea(); h.calculateCentroid();
        h.reset();
        h.setPolyline(g.polyline());
        g = h;
    }
    g.calculateArea();
    g.calculateCentroid();
    V<R> u = v<R>(g.normal());
    c.ensure("normal has unit length", c.eq(n2(u), 1));
    c.ensure("area times normal is the vector area", eqv(c, u * (g.area() * R(2)), n));
    c.ensure("area is not negative", c.ge(g.area(), 0));
    R ar = g.area();
    g.invert();
    c.ensure("inverting flips the normal", eqv(c, v<R>(g.normal()), u * R(-1)));
    g.calculateArea(true);
    c.ensure("inverting keeps the area and flips the normal", eqv(c, v<R>(g.normal()), u * R(-1)) && c.eq(g.area(), ar));
    c.ensure("centroid is the vertex average", eqv(c, v<R>(g.centroid()) * R(3), a * R(3) + e + f));
}
CONTRACT("G07", polygon_planar_quad, "CGeoPolygon::calculateArea/calculateNormal/calculateCentroid/invert (planar, four vertices)")
{
    typedef typename C::R R;
    V<R> p = vec(c, "p"), e = vec(c, "e"), f = vec(c, "f");
    R a = c.real("a"), b = c.real("b");
    V<R> n = cross(e, f);
    c.require(c.gt(n2(n), R(1e-6)) && c.gt(a, 0) && c.gt(b, 0) && c.gt(a + b, R(1)) && c.gt(n2(e), R(1e-6)) && c.gt(n2(f), R(1e-6)));
    c.require(c.gt(b * sqrt(n2(n)), R(1e-3)));
    CGeoPolygon<R> g = polygon<R>({ p, p + e, p + e * a + f * b, p + f });
    g.calculateArea();
    g.calculateCentroid();
    V<R> u = v<R>(g.normal());
    c.ensure("normal has unit length", c.eq(n2(u), 1));
    c.ensure("area times normal is the vector area", eqv(c, u * (g.area() * R(2)), n * (a + b)));
    c.ensure("centroid is the vertex average", eqv(c, v<R>(g.centroid()) * R(4), p * R(4) + e + e * a + f * b + f));
}
CONTRACT("G07", polyline_basics, "CGeoPolyline::calculateLength/nbLines/line/isClosed/close/invert, CGeoVertexList")
{
    typedef typename C::R R;
    V<R> q[4] = { vec(c, "a"), vec(c, "b"), vec(c, "d"), vec(c, "e") };
    CGeoPolyline<R> l;
    for (auto& p : q) l.addVertex(P(p));
    c.ensure("one line less than vertices", c.is(l.nbVertices() == 4 && l.nbLines() == 3));
    for (int i = 0; i < 3; ++i)
    {
        CGeoLine<R> s = l.line(i);
        c.ensure("lines join consecutive vertices", eqv(c, v<R>(s.startPoint()), q[i]) && eqv(c, v<R>(s.endPoint()), q[i + 1]));
    }
    l.calculateLength();
    R len = sqrt(n2(q[1] - q[0])) + sqrt(n2(q[2] - q[1])) + sqrt(n2(q[3] - q[2]));
    c.ensure("length is the sum of the line lengths", c.eq(l.length(), len));
    l.invert();
    for (int i = 0; i < 4; ++i) c.ensure("invert reverses the vertices", eqv(c, v<R>(l.vertex(i)), q[3 - i]));
    l.calculateLength(true);
    c.ensure("invert keeps the length", c.eq(l.length(), len));
    bool cl = l.isClosed();
    c.ensure("closed exactly when the ends coincide", cl ? c.eq(n2(q[3] - q[0]), 0) : c.gt(n2(q[3] - q[0]), 0));
    l.close();
    c.ensure("close makes it closed", c.is(l.isClosed() && l.nbVertices() == (cl ? 4 : 5)));
    l.close();
    c.ensure("closing twice changes nothing", c.is(l.nbVertices() == (cl ? 4 : 5)));
    l.reset();
    c.ensure("reset empties the polyline", c.is(l.nbVertices() == 0 && l.nbLines() == 0));
}
CONTRACT("G07", vertex_list, "CGeoVertexList::insertVertex/removeVertex/setVertex/vertex/removeDuplicates")
{
    typedef typename C::R R;
    V<R> q[3] = { vec(c, "a"), vec(c, "b"), vec(c, "d") }, w = vec(c, "w");
    CGeoPolyline<R> l;
    for (auto& p : q) l.addVertex(P(p));
    int k = c.choose("at", 3);
    CGeoCoordinate<R> pw = P(w);
    l.insertVertex(k, pw);
    c.ensure("inserted", c.is(l.nbVertices() == 4) && eqv(c, v<R>(l.vertex(k)), w));
    for (int i = 0; i < 3; ++i) c.ensure("others keep their order", eqv(c, v<R>(l.vertex(i < k ? i : i + 1)), q[i]));
    l.removeVertex(k);
    c.ensure("removed", c.is(l.nbVertices() == 3));
    for (int i = 0; i < 3; ++i) c.ensure("back to the original list", eqv(c, v<R>(l.vertex(i)), q[i]) && eqv(c, v<R>(l.vertex(i + 3)), q[i]));
    l.setVertex(k, pw);
    for (int i = 0; i < 3; ++i) c.ensure("set replaces one vertex", eqv(c, v<R>(l.vertex(i)), i == k ? w : q[i]));
    l.insertVertex(k, pw);
    c.require(c.ne(q[0].x, q[1].x) && c.ne(q[1].x, q[2].x) && c.ne(q[0].x, w.x) && c.ne(q[1].x, w.x) && c.ne(q[2].x, w.x));
    l.removeDuplicates();
    c.ensure("consecutive duplicates are fused", c.is(l.nbVertices() == 3) && eqv(c, v<R>(l.vertex(k)), w));
}
CONTRACT("G07", line_list, "CGeoLineList::sort/calculateLength/invert, CGeoPolyline(line list)")
{
    typedef typename C::R R;
    // a closed triangle given as three lines in any order and direction
    V<R> q[3] = { vec(c, "a"), vec(c, "b"), vec(c, "d") };
    for (int i = 0; i < 3; ++i) c.require(c.gt(n2(q[i] - q[(i + 1) % 3]), R(1e-6)));
    static const int perm[6][3] = { { 0, 1, 2 }, { 0, 2, 1 }, { 1, 0, 2 }, { 1, 2, 0 }, { 2, 0, 1 }, { 2, 1, 0 } };
    int o = c.choose("order", 6), f = c.choose("flip", 8);
    CGeoLineList<R> l;
    for (int i = 0; i < 3; ++i)
    {
        int k = perm[o][i];
        V<R> s = q[k], e = q[(k + 1) % 3];
        if (f >> i & 1) std::swap(s, e);
        l.addLine(CGeoLine<R>(P(s), P(e)));
    }
    l.calculateLength();
    c.ensure("length of the list", c.eq(l.length(), sqrt(n2(q[1] - q[0])) + sqrt(n2(q[2] - q[1])) + sqrt(n2(q[2] - q[0]))));
    CGeoPolyline<R> p(l, true, R(1e-12));
    c.ensure("the sorted lines form a closed chain", c.is(p.nbVertices() == 4 && p.isClosed(R(1e-9))));
    if (p.nbVertices() == 4)
    {
        // visits each of the three corners
        V<R> s = v3(R(0), R(0), R(0));
        for (int i = 0; i < 3; ++i) s = s + v<R>(p.vertex(i));
        c.ensure("the chain visits every corner", eqv(c, s, q[0] + q[1] + q[2]));
        p.calculateLength();
        c.ensure("the chain has the length of the lines", c.eq(p.length(), l.length()));
    }
    l.invert();
    V<R> a0 = v<R>(l.line(0).startPoint()), a2 = v<R>(l.line(2).endPoint());
    c.ensure("inverted list starts at the last end", eqv(c, a0, v<R>(p.vertex(3))) && eqv(c, a2, v<R>(p.vertex(0))));
}
CONTRACT("G07", polygon_clip_triangle, "CGeoPolygon::clip (triangle, plane x = d)")
{
    typedef typename C::R R;
    V<R> a = vec(c, "a"), e = vec(c, "e"), f = vec(c, "f");
    R d = c.real("d");
    V<R> n = cross(e, f);
    V<R> q[3] = { a, a + e, a + f };
    c.require(c.gt(n2(n), R(0.01)));
    int k = c.choose("case", 4);
    // signed distances
    R s[3] = { q[0].x - d, q[1].x - d, q[2].x - d };
    R m = R(0.01);
    if (k == 0) for (int i = 0; i < 3; ++i) c.require(c.lt(s[i], -m));
    else if (k == 1) for (int i = 0; i < 3; ++i) c.require(c.gt(s[i], m));
    else if (k == 2) c.require(c.lt(s[0], -m) && c.gt(s[1], m) && c.gt(s[2], m));
    else c.require(c.gt(s[0], m) && c.lt(s[1], -m) && c.lt(s[2], -m));
    c.require(c.ne(q[1].x, q[2].x));
    CGeoPolygon<R> g = polygon<R>({ q[0], q[1], q[2] });
    CGeoPlane<R> pl = plane(v3(R(1), R(0), R(0)), d);
    CGeoPolygon<R> r = g.clip(pl, C::symbolic ? R(0) : R(1e-10));
    if (k == 1) { c.ensure("in front of the plane: nothing is left", c.is(r.polyline().nbVertices() == 0)); return; }
    c.ensure("the clipped polygon is closed", c.is(r.polyline().isClosed(C::symbolic ? R(0) : R(1e-9))));
    c.ensure("number of vertices", c.is(r.polyline().nbVertices() == (k == 3 ? 5 : 4)));
    for (int i = 0; i < r.polyline().nbVertices(); ++i) c.ensure("no vertex in front of the plane", c.le(R(r.polyline().vertex(i).x()), d));
    V<R> w = vecArea(r) * R(2);
    if (k == 0) c.ensure("behind the plane: unchanged", eqv(c, w, n));
    // fraction of the triangle cut off at vertex 0
    R den = (s[1] - s[0]) * (s[2] - s[0]);
    if (k == 2) c.ensure("vector area of the part behind the plane", eqv(c, w * den, n * (s[0] * s[0])));
    if (k == 3) c.ensure("vector area of the part behind the plane", eqv(c, w * den, n * (den - s[0] * s[0])));
}
template <class C> std::vector<V<typename C::R>> convexPolygon(C& c, V<typename C::R>& n)
{
    typedef typename C::R R;
    V<R> o = vec(c, "o"), e = vec(c, "e"), f = vec(c, "f");
    c.require(c.gt(n2(cross(e, f)), R(0.05)) && c.gt(n2(cross(e, f)), R(0.01) * n2(e) * n2(f)));
    int k = 3 + c.choose("corners", 5);
    std::vector<V<R>> q;
    R ph = c.in("phase", 0, 6);
    for (int i = 0; i < k; ++i)
    {
        R al = ph + R(2 * M_PI) * (R(i) + c.in(nm("jit", i), 0, 0.7)) / R(k);
        q.push_back(o + e * R(std::cos(al)) + f * R(std::sin(al)));
    }
    n = cross(e, f);
    return q;
}
RUNTIME_CONTRACT("G07", polygon_convex, "CGeoPolygon::calculateArea/clip/triangulate (3 to 7 vertices, any plane)", "generated convex polygons with 3 to 7 corners")
{
    typedef typename C::R R;
    V<R> n;
    std::vector<V<R>> q = convexPolygon(c, n);
    R big = 1;
    for (auto& x : q) big = big + n2(x);
    CGeoPolygon<R> g = polygon<R>(q);
    V<R> va = vecArea(g);
    c.require(c.gt(n2(va), R(0.01)));
    g.calculateArea();
    c.ensure("area times normal is the vector area", eqv(c, v<R>(g.normal()) * g.area(), va, (double)big) && c.gt(g.area(), 0));
    std::vector<CGeoTriangle<R>> t = g.triangulate();
    c.ensure("a polygon with n corners has n-2 triangles", c.is(t.size() == q.size() - 2));
    R s = 0;
    V<R> vs = v3(R(0), R(0), R(0));
    for (auto& x : t) { x.calculateArea(); s = s + x.area(); vs = vs + v<R>(x.normal()) * x.area(); }
    c.ensure("the triangles cover the polygon", c.eq(s, g.area(), (double)big) && eqv(c, vs, va, (double)big));
    V<R> m = vec(c, "m");
    c.require(c.gt(n2(m), R(0.01)));
    m = m * (R(1) / std::sqrt(n2(m)));
    R d = dot(m, q[0]) * c.in("w", 0, 1) + dot(m, q[1]) * c.in("w2", 0, 1);
    for (auto& x : q) c.require(c.gt((dot(m, x) - d) * (dot(m, x) - d), R(1e-6)));
    CGeoPlane<R> p1 = plane(m, d), p2 = plane(m * R(-1), -d);
    CGeoPolygon<R> g1 = g.clip(p1, R(1e-9)), g2 = g.clip(p2, R(1e-9));
    V<R> zero = v3(R(0), R(0), R(0));
    V<R> a1 = g1.polyline().nbVertices() ? vecArea(g1) : zero, a2 = g2.polyline().nbVertices() ? vecArea(g2) : zero;
    c.ensure("the two sides of a plane add up to the polygon", eqv(c, a1 + a2, va, (double)big));
    c.ensure("neither side is inverted", c.ge(dot(a1, va), R(-1e-6) * big * big) && c.ge(dot(a2, va), R(-1e-6) * big * big));
    for (int i = 0; i < g1.polyline().nbVertices(); ++i) c.ensure("the kept part is behind the plane", c.le(dot(m, v<R>(g1.polyline().vertex(i))), d + R(1e-7) * big));
    bool sp = false, sn = false;
    for (auto& x : q) { if (dot(m, x) > d) sp = true; else sn = true; }
    c.ensure("a polygon meets the plane exactly when corners lie on both sides", c.is(g.intersects(p1) == (sp && sn)));
}

// ------------------------------------------------------------------ polyhedra
template <class C, class T> void checkClosed(C& c, CGeoPolyhedron<T>& h, double sc)
{
    typedef T R;
    V<R> s = v3(R(0), R(0), R(0));
    for (int i = 0; i < h.nbPolygons(); ++i) s = s + vecArea(h.polygon(h.polygonId(i)));
    c.ensure("the faces form a closed surface", eqv(c, s, v3(R(0), R(0), R(0)), sc));
}
CONTRACT("G08", polyhedron_tetra, "CGeoPolyhedron(tetrahedron), calculateVolume/calculateCentroid/calculateBoundingBox")
{
    typedef typename C::R R;
    V<R> a = vec(c, "a"), e = vec(c, "e"), f = vec(c, "f"), g = vec(c, "g");
    R d = det(e, f, g);
    c.require(c.gt(d, R(0.01)));
    V<R> q[4] = { a, a + f, a + e, a + g };
    for (int i = 0; i < 4; ++i) for (int j = i + 1; j < 4; ++j) for (int k = j + 1; k < 4; ++k) c.require(c.gt(n2(cross(q[j] - q[i], q[k] - q[i])), R(1e-6)));
    for (int i = 0; i < 4; ++i) for (int j = i + 1; j < 4; ++j) c.require(c.gt(n2(q[j] - q[i]), R(1e-6)));
    CGeoTetrahedron<R> t;
    for (auto& x : q) t.addVertex(P(x));
    CGeoPolyhedron<R> h(t);
    c.ensure("four faces", c.is(h.nbPolygons() == 4));
    checkClosed(c, h, 0);
    h.calculateCentroid();
    c.ensure("centroid", eqv(c, v<R>(h.centroid()) * R(4), q[0] + q[1] + q[2] + q[3]));
    V<R> o = q[0];
    R s = 0;
    for (int i = 0; i < h.nbPolygons(); ++i)
    {
        CGeoPolygon<R>& x = h.polygon(h.polygonId(i));
        s = s + dot(v<R>(x.polyline().vertex(0)) - o, vecArea(x));
    }
    c.ensure("faces point outwards for a positively oriented tetrahedron", c.eq(s * R(2), d));
}
RUNTIME_CONTRACT("G08", polyhedron_volume, "CGeoPolyhedron(tetrahedron/prism/hexahedron)::calculateVolume/calculateSurfaceArea", "generated affine images of the unit cells")
{
    typedef typename C::R R;
    V<R> a = vec(c, "a"), e = vec(c, "e"), f = vec(c, "f"), g = vec(c, "g");
    R d = det(e, f, g);
    c.require(c.gt(d, R(0.05)) && c.gt(d * d, R(1e-3) * n2(e) * n2(f) * n2(g)));
    R big = n2(a) + n2(e) + n2(f) + n2(g);
    double sc = (double)(big * std::sqrt(big));
    CGeoPolyhedron<R> h;
    int k = c.choose("cell", 3);
    R vol, area;
    auto ln = [&](V<R> x) { return R(std::sqrt(n2(x))); };
    if (k == 0)
    {
        CGeoTetrahedron<R> t;
        for (auto& x : { a, a + f, a + e, a + g }) t.addVertex(P(x));
        h = CGeoPolyhedron<R>(t);
        vol = d / R(6);
        area = (ln(cross(e, f)) + ln(cross(e, g)) + ln(cross(f, g)) + ln(cross(f - e, g - e))) / R(2);
    }
    else if (k == 1)
    {
        CGeoTriangularPrism<R> t;
        for (auto& x : { a, a + f, a + e, a + g, a + f + g, a + e + g }) t.addVertex(P(x));
        h = CGeoPolyhedron<R>(t);
        vol = d / R(2);
        area = ln(cross(e, f)) + ln(cross(e, g)) + ln(cross(f, g)) + ln(cross(f - e, g));
    }
    else
    {
        CGeoHexahedron<R> t;
        for (auto& x : { a, a + f, a + e + f, a + e, a + g, a + f + g, a + e + f + g, a + e + g }) t.addVertex(P(x));
        h = CGeoPolyhedron<R>(t);
        vol = d;
        area = R(2) * (ln(cross(e, f)) + ln(cross(e, g)) + ln(cross(f, g)));
    }
    h.calculateVolume();
    h.calculateSurfaceArea();
    h.calculateBoundingBox();
    c.ensure("volume", c.eq(h.volume(), vol, sc));
    c.ensure("surface area", c.eq(h.surfaceArea(), area, sc));
    checkClosed(c, h, sc);
    V<R> lo = v<R>(h.boundingBox().min()), hi = v<R>(h.boundingBox().max());
    for (int i = 0; i < h.nbPolygons(); ++i)
        for (int j = 0; j < h.polygon(i).polyline().nbVertices(); ++j)
        {
            V<R> x = v<R>(h.polygon(i).polyline().vertex(j));
            c.ensure("bounding box contains the vertices", c.is(x.x >= lo.x && x.x <= hi.x && x.y >= lo.y && x.y <= hi.y && x.z >= lo.z && x.z <= hi.z));
        }
    // --- clip, cut, clip to a volume fraction
    V<R> m = vec(c, "m");
    c.require(c.gt(n2(m), R(0.01)));
    m = m * (R(1) / ln(m));
    R mn = R(1e30), mx = R(-1e30);
    for (int i = 0; i < h.nbPolygons(); ++i)
        for (int j = 0; j < h.polygon(i).polyline().nbVertices(); ++j)
        {
            R z = dot(m, v<R>(h.polygon(i).polyline().vertex(j)));
            mn = std::min(mn, z); mx = std::max(mx, z);
        }
    R w = c.in("w", 0.05, 0.95);
    R dd = mn + (mx - mn) * w;
    for (int i = 0; i < h.nbPolygons(); ++i)
        for (int j = 0; j < h.polygon(i).polyline().nbVertices(); ++j)
        {
            R z = dot(m, v<R>(h.polygon(i).polyline().vertex(j))) - dd;
            c.require(c.gt(z * z, R(1e-4) * (mx - mn) * (mx - mn)));
        }
    c.require(c.gt(mx - mn, R(0.1)));
    CGeoPlane<R> p1 = plane(m, dd), p2 = plane(m * R(-1), -dd);
    CGeoPolygon<R> np1, np2;
    R tol = R(1e-9) * (R(1) + std::sqrt(big));
    CGeoPolyhedron<R> h1 = h.clip(np1, 100, p1, tol), h2 = h.clip(np2, 100, p2, tol);
    h1.calculateVolume(); h2.calculateVolume();
    c.ensure("both parts have positive volume", c.gt(h1.volume(), 0) && c.gt(h2.volume(), 0));
    c.ensure("the parts add up to the whole", c.eq(h1.volume() + h2.volume(), vol, sc));
    checkClosed(c, h1, sc);
    c.ensure("the cap carries the given id", c.is(h1.containsPolygon(100) && !h1.containsPolygon(101)));
    for (int i = 0; i < h1.nbPolygons(); ++i)
    {
        auto& pl = h1.polygon(h1.polygonId(i)).polyline();
        for (int j = 0; j < pl.nbVertices(); ++j) c.ensure("the kept part is behind the plane", c.le(dot(m, v<R>(pl.vertex(j))), dd + R(1e-6) * (R(1) + big)));
    }
    // exact share behind the plane for the tetrahedron cut near one corner is covered by additivity and the cap
    CGeoPolyhedron<R> other;
    CGeoPolygon<R> np3;
    CGeoPolyhedron<R> kept = h.cut(other, np3, 100, p1, tol);
    kept.calculateVolume(); other.calculateVolume();
    c.ensure("cut returns the part behind and stores the part in front", c.eq(kept.volume(), h1.volume(), sc) && c.eq(other.volume(), h2.volume(), sc));
}
RUNTIME_CONTRACT("G08", polyhedron_fraction, "CGeoPolyhedron::clip/cut to a volume fraction", "generated affine images of the unit cube and tetrahedron, 100 iterations")
{
    typedef typename C::R R;
    V<R> a = vec(c, "a"), e = vec(c, "e"), f = vec(c, "f"), g = vec(c, "g"), m = vec(c, "m");
    R d = det(e, f, g), w = R(0.0471238) + R(0.9) * c.in("w", 0, 1); // shares whose plane runs along an edge are a known finding
    c.require(c.gt(d, R(0.1)) && c.gt(d * d, R(0.1) * n2(e) * n2(f) * n2(g)) && c.gt(n2(m), R(0.01)) && c.lt(n2(a) + n2(e) + n2(f) + n2(g), R(100)));
    m = m * (R(1) / R(std::sqrt(n2(m))));
    int k = c.choose("cell", 2);
    CGeoPolyhedron<R> h;
    if (k == 0)
    {
        CGeoTetrahedron<R> t;
        for (auto& x : { a, a + f, a + e, a + g }) t.addVertex(P(x));
        h = CGeoPolyhedron<R>(t);
    }
    else
    {
        CGeoHexahedron<R> t;
        for (auto& x : { a, a + f, a + e + f, a + e, a + g, a + f + g, a + e + f + g, a + e + g }) t.addVertex(P(x));
        h = CGeoPolyhedron<R>(t);
    }
    h.calculateVolume();
    CGeoPlane<R> p = plane(m, R(0));
    CGeoPolygon<R> np;
    R act = -1;
    int it = 0;
    CGeoPolyhedron<R> r = h.clip(np, 100, p, w, act, it, 100, R(1e-9), R(1e-9));
    r.calculateVolume();
    c.ensure("the clipped part has the requested share of the volume", c.near(r.volume() / h.volume(), w, 1e-4));
    c.ensure("the reported share is the actual one", c.near(act, w, 1e-4));
}
