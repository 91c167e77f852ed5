#include "geo_common.hpp"
#include "GeoTriangle.hpp"
#include "GeoQuadrilateral.hpp"
#include "GeoTetrahedron.hpp"
using namespace spec;
using namespace ENigMA::geometry;

template <class T, class R> void add(T& t, V<R> p) { t.addVertex(P(p)); }

CONTRACT("G04", triangle_contains_inside, "CGeoTriangle::contains (points inside)")
{
    typedef typename C::R R;
    V<R> a = vec(c, "a"), e = vec(c, "e"), f = vec(c, "f");
    R s = c.real("s"), t = c.real("t");
    c.require(c.gt(n2(cross(e, f)), R(1e-6)));
    c.require(c.gt(s, 0) && c.gt(t, 0) && c.lt(s + t, 1));
    CGeoTriangle<R> k;
    add(k, a); add(k, a + e); add(k, a + f);
    CGeoIntersectionType it;
    bool r = k.contains(P(a + e * s + f * t), it, R(1e-9));
    c.ensure("an inner point is contained", c.is(r));
    c.ensure("an intersection type is reported", c.is(!r || !(it == IT_NONE)));
}
CONTRACT("G04", triangle_contains_outside, "CGeoTriangle::contains (points of the plane outside)")
{
    typedef typename C::R R;
    V<R> a = vec(c, "a"), e = vec(c, "e"), f = vec(c, "f");
    R s = c.real("s"), t = c.real("t");
    V<R> n = cross(e, f);
    c.require(c.gt(n2(n), R(1e-6)));
    int k = c.choose("side", 3);
    if (k == 0) c.require(c.lt(s, 0));
    else if (k == 1) c.require(c.lt(t, 0));
    else c.require(c.gt(s + t, 1));
    // further outside than the tolerance
    R m = k == 0 ? s : k == 1 ? t : R(1) - s - t;
    if (!C::symbolic) c.require(c.gt(m * m * n2(n), R(1e-6)));
    CGeoTriangle<R> z;
    add(z, a); add(z, a + e); add(z, a + f);
    V<R> p = a + e * s + f * t;
    if (!C::symbolic) c.require(c.gt(n2(p - a), R(1e-6)) && c.gt(n2(p - a - e), R(1e-6)) && c.gt(n2(p - a - f), R(1e-6)));
    else c.require(c.gt(n2(p - a), 0) && c.gt(n2(p - a - e), 0) && c.gt(n2(p - a - f), 0));
    CGeoIntersectionType it;
    bool r = z.contains(P(p), it, C::symbolic ? R(0) : R(1e-9));
    c.ensure("a point of the plane outside the triangle is not contained", c.is(!r && it == IT_NONE));
}
CONTRACT("G04", triangle_contains_vertex, "CGeoTriangle::contains (vertices)")
{
    typedef typename C::R R;
    V<R> q[3] = { vec(c, "a"), vec(c, "b"), vec(c, "d") };
    c.require(c.gt(n2(cross(q[1] - q[0], q[2] - q[0])), R(1e-6)));
    CGeoTriangle<R> z;
    for (int i = 0; i < 3; ++i) add(z, q[i]);
    int k = c.choose("vertex", 3);
    CGeoIntersectionType it;
    bool r = z.contains(P(q[k]), it, R(1e-9));
    c.ensure("a vertex is contained and reported as a vertex", c.is(r && it == IT_VERTEX));
}
CONTRACT("G04", tetra_contains, "CGeoTetrahedron::contains")
{
    typedef typename C::R R;
    V<R> a = vec(c, "a"), e = vec(c, "e"), f = vec(c, "f"), g = vec(c, "g");
    if (!C::symbolic && c.choose("small", 2)) { e = e * R(0.015625); f = f * R(0.015625); g = g * R(0.015625); } // the proof covers every size
    R s = c.real("s"), t = c.real("t"), u = c.real("u");
    R d = det(e, f, g);
    V<R> q[4] = { a, a + f, a + e, a + g };
    c.require(c.gt(d, R(C::symbolic ? 0 : 1e-9)));
    R tol = c.in("tol", 0, 0.01);
    CGeoTetrahedron<R> z;
    for (int i = 0; i < 4; ++i) add(z, q[i]);
    z.calculateVolume();
    c.lemma("this orientation has positive volume", c.eq(z.volume() * R(6), d));
    V<R> p = a + e * s + f * t + g * u;
    R m[4] = { s, t, u, R(1) - s - t - u };
    int k = c.choose("case", 5);
    c.branchTimeout(1.5);
    if (k < 4) { c.require(c.lt(m[k], 0)); if (!C::symbolic) c.require(c.lt(m[k], R(-1e-6))); }
    else for (int i = 0; i < 4; ++i) c.require(C::symbolic ? c.ge(m[i], 0) : c.gt(m[i], 0));
    bool r = z.contains(P(p), tol);
    if (k == 4) c.ensure("points inside are contained", c.is(r));
    else c.ensure("points outside are not contained", c.is(!r));
}
CONTRACT("G04", quad_contains, "CGeoQuadrilateral::contains (planar convex)")
{
    typedef typename C::R R;
    V<R> p = vec(c, "p"), e = vec(c, "e"), f = vec(c, "f");
    R s = c.real("s"), t = c.real("t"), h = c.real("h");
    c.require(c.gt(n2(cross(e, f)), R(1e-6)) && c.gt(h, R(0.1)));
    c.require(c.gt(s, 0) && c.gt(t, 0) && c.lt(s + t, 1));
    // trapezium p, p+e, p+e*h+f, p+f; the point is inside one of the two halves
    CGeoQuadrilateral<R> z;
    int half = c.choose("half", 2);
    if (half) p.z = e.z = f.z = R(0); // second half: proved in the x-y plane
    V<R> w = e * h + f;
    add(z, p); add(z, p + e); add(z, p + w); add(z, p + f);
    V<R> x = half ? p + w * s + f * t : p + e * s + w * t;
    CGeoIntersectionType it;
    bool r = z.contains(P(x), it, R(1e-9));
    c.ensure("an inner point is contained", c.is(r));
}
RUNTIME_CONTRACT("G04", quad_contains_outside, "CGeoQuadrilateral::contains (points of the plane outside)", "generated planar convex quadrilaterals")
{
    typedef typename C::R R;
    V<R> p = vec(c, "p"), e = vec(c, "e"), f = vec(c, "f");
    R a = c.in("a", 0, 3), b = c.in("b", 0, 3), s = c.real("s"), t = c.real("t");
    c.require(c.gt(n2(cross(e, f)), R(0.01)) && c.gt(a, R(0.1)) && c.gt(b, R(0.1)) && c.gt(a + b, R(1.1)));
    V<R> q[4] = { p, p + e, p + e * a + f * b, p + f };
    CGeoQuadrilateral<R> z;
    for (int i = 0; i < 4; ++i) add(z, q[i]);
    V<R> x = p + e * s + f * t, n = cross(e, f);
    R m[4];
    bool out = false, in = true;
    for (int i = 0; i < 4; ++i)
    {
        m[i] = dot(cross(q[(i + 1) % 4] - q[i], x - q[i]), n);
        if (m[i] < R(-1e-3)) out = true;
        if (m[i] < R(1e-3)) in = false;
    }
    c.require(c.is(in || out));
    if (out) for (int i = 0; i < 4; ++i) c.require(c.gt(n2(x - q[i]), R(1e-6)));
    CGeoIntersectionType it;
    bool r = z.contains(P(x), it, R(1e-9));
    c.ensure(in ? "inside" : "outside", c.is(r == in));
}
RUNTIME_CONTRACT("G04", triangle_distance, "CGeoTriangle::distance", "generated triangles and points")
{
    typedef typename C::R R;
    V<R> a = vec(c, "a"), e = vec(c, "e"), f = vec(c, "f"), p = vec(c, "p");
    R s = c.in("s", 0, 1), t = c.in("t", 0, 1);
    R k = n2(cross(e, f));
    c.require(c.gt(k, R(0.01)) && c.gt(k, R(1e-3) * n2(e) * n2(f)));
    c.require(c.le(s + t, 1));
    CGeoTriangle<R> z;
    add(z, a); add(z, a + e); add(z, a + f);
    CGeoCoordinate<R> q;
    R d = -1;
    bool ok = z.distance(P(p), q, d);
    c.ensure("succeeds", c.is(ok));
    V<R> x = v<R>(q), y = a + e * s + f * t;
    c.ensure("distance to the returned point", c.eq(d * d, n2(p - x), (double)n2(p)) && c.ge(d, 0));
    // barycentric coordinates of the returned point
    V<R> n = cross(e, f);
    R bs = dot(cross(x - a, f), n) / k, bt = dot(cross(e, x - a), n) / k;
    R h = dot(x - a, n);
    c.ensure("returned point is in the triangle", c.ge(bs, R(-1e-6)) && c.ge(bt, R(-1e-6)) && c.le(bs + bt, R(1) + R(1e-6)) && c.eq(h, 0, (double)(n2(p) + n2(a) + n2(e) + n2(f)) * (double)(n2(n) + 1)));
    c.ensure("no point of the triangle is closer", c.le(n2(p - x), n2(p - y) + R(1e-6) * (n2(p) + n2(a) + n2(e) + n2(f))));
}
RUNTIME_CONTRACT("G04", triangle_line, "CGeoTriangle::intersects(line)", "generated triangles and lines")
{
    typedef typename C::R R;
    V<R> a = vec(c, "a"), e = vec(c, "e"), f = vec(c, "f"), g = vec(c, "g");
    R s = c.real("s"), t = c.real("t"), u = c.in("u", -1, 2);
    R k = n2(cross(e, f));
    V<R> n = cross(e, f);
    c.require(c.gt(k, R(0.01)) && c.gt(k, R(1e-3) * n2(e) * n2(f)));
    c.require(c.gt(dot(g, n) * dot(g, n), R(1e-3) * n2(g) * k) && c.gt(n2(g), R(1e-3)));
    R m[3] = { s, t, R(1) - s - t };
    bool in = true, out = false;
    for (int i = 0; i < 3; ++i) { if (m[i] < R(1e-3)) in = false; if (m[i] < R(-1e-2)) out = true; }
    bool cross_ = u > R(1e-3) && u < R(0.999), miss = u < R(-1e-3) || u > R(1.001);
    V<R> x = a + e * s + f * t;
    if (out) c.require(c.gt(n2(x - a), R(1e-3)) && c.gt(n2(x - a - e), R(1e-3)) && c.gt(n2(x - a - f), R(1e-3)));
    c.require(c.is((in || out) && (cross_ || miss)));
    CGeoTriangle<R> z;
    add(z, a); add(z, a + e); add(z, a + f);
    z.calculateNormal();
    CGeoLine<R> l(P(x - g * u), P(x + g * (R(1) - u)));
    CGeoCoordinate<R> q;
    CGeoIntersectionType it;
    bool r = z.intersects(l, q, it, R(1e-9));
    c.ensure(in && cross_ ? "a segment through the inside meets the triangle" : "other segments do not", c.is(r == (in && cross_)));
    if (r) c.ensure("in the crossing point", eqv(c, v<R>(q), x, 100 * (double)(n2(g) + n2(x))));
}
// separation oracle: do two triangles overlap by a clear margin, or stay clear of each other by a margin
template <class R> R sepGap(const V<R>* p, const V<R>* q, V<R> ax)
{
    R l = std::sqrt(n2(ax));
    if (l < R(1e-3)) return R(-1e9);
    R pl = R(1e30), ph = R(-1e30), ql = R(1e30), qh = R(-1e30);
    for (int i = 0; i < 3; ++i)
    {
        R a = dot(p[i], ax) / l, b = dot(q[i], ax) / l;
        pl = std::min(pl, a); ph = std::max(ph, a); ql = std::min(ql, b); qh = std::max(qh, b);
    }
    return std::max(ql - ph, pl - qh); // > 0: separated along this axis
}
RUNTIME_CONTRACT("G04", triangle_triangle, "CGeoTriangle::intersects(triangle)", "generated triangles in general position; separating axes as the oracle")
{
    typedef typename C::R R;
    V<R> p[3] = { vec(c, "a"), vec(c, "b"), vec(c, "d") }, q[3] = { vec(c, "e"), vec(c, "f"), vec(c, "g") };
    V<R> n = cross(p[1] - p[0], p[2] - p[0]), m = cross(q[1] - q[0], q[2] - q[0]);
    c.require(c.gt(n2(n), R(0.05)) && c.gt(n2(m), R(0.05)));
    // not coplanar: the planes are at an angle
    c.require(c.gt(n2(cross(n, m)), R(0.01) * n2(n) * n2(m)));
    R gap = std::max(sepGap(p, q, n), sepGap(p, q, m));
    for (int i = 0; i < 3; ++i)
        for (int j = 0; j < 3; ++j) gap = std::max(gap, sepGap(p, q, cross(p[(i + 1) % 3] - p[i], q[(j + 1) % 3] - q[j])));
    c.require(c.is(gap > R(0.01) || gap < R(-0.01)));
    CGeoTriangle<R> s, t;
    for (int i = 0; i < 3; ++i) { add(s, p[i]); add(t, q[i]); }
    CGeoIntersectionType i1, i2;
    bool r1 = s.intersects(t, i1, R(1e-9)), r2 = t.intersects(s, i2, R(1e-9));
    c.ensure("symmetric", c.is(r1 == r2));
    c.ensure(gap < 0 ? "overlapping triangles intersect" : "separated triangles do not intersect", c.is(r1 == (gap < 0)));
}
