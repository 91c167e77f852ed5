#include "geo_common.hpp"
#include "GeoCircle.hpp"
#include "GeoSphere.hpp"
using namespace spec;
using namespace ENigMA::geometry;

CONTRACT("G06", circle_circumscribed, "CGeoCircle(point, point, point)")
{
    typedef typename C::R R;
    R z = c.real("z");
    V<R> p[3] = { v3(c.real("ax"), c.real("ay"), z), v3(c.real("bx"), c.real("by"), z), v3(c.real("cx"), c.real("cy"), z) };
    R d = (p[1].x - p[0].x) * (p[2].y - p[0].y) - (p[1].y - p[0].y) * (p[2].x - p[0].x);
    c.require(c.ne(d, 0));
    CGeoCircle<R> k(P(p[0]), P(p[1]), P(p[2]));
    V<R> m = v<R>(k.center());
    c.ensure("radius is the distance to the first point", c.eq(k.radius() * k.radius(), n2(p[0] - m)) && c.ge(k.radius(), 0));
    c.ensure("the second point is on the circle", c.eq(n2(p[1] - m), n2(p[0] - m)));
    c.ensure("the third point is on the circle", c.eq(n2(p[2] - m), n2(p[0] - m)));
    c.ensure("center is in the plane of the points", c.eq(m.z, z));
}
CONTRACT("G06", circle_measures, "CGeoCircle::calculateArea/calculateCentroid/calculateBoundingBox/contains")
{
    typedef typename C::R R;
    V<R> m = vec(c, "m"), p = vec(c, "p");
    R r = c.real("r"), t = c.real("t");
    c.require(c.gt(r, 0) && c.ge(t, 0));
    CGeoCircle<R> k(P(m), r);
    k.calculateArea();
    k.calculateCentroid();
    k.calculateBoundingBox();
    c.ensure("area", c.eq(k.area(), c.pi() * r * r));
    c.ensure("centroid is the center", eqv(c, v<R>(k.centroid()), m));
    c.ensure("bounding box", eqv(c, v<R>(k.boundingBox().min()), m - v3(r, r, R(0))) && eqv(c, v<R>(k.boundingBox().max()), m + v3(r, r, R(0))));
    bool in = k.contains(P(p), t);
    auto b = c.le(n2(p - m), (r + t) * (r + t));
    c.ensure("contains exactly the points within the radius", in ? b : !b);
}
CONTRACT("G06", sphere_measures, "CGeoSphere::calculateVolume/calculateSurfaceArea/calculateCentroid/calculateBoundingBox/contains")
{
    typedef typename C::R R;
    V<R> m = vec(c, "m"), p = vec(c, "p");
    R r = c.real("r"), t = c.real("t");
    c.require(c.gt(r, 0) && c.ge(t, 0));
    CGeoSphere<R> k(P(m), r);
    k.calculateVolume();
    k.calculateSurfaceArea();
    k.calculateCentroid();
    k.calculateBoundingBox();
    c.ensure("volume", c.eq(k.volume() * R(3), c.pi() * r * r * r * R(4)));
    c.ensure("surface area", c.eq(k.surfaceArea(), c.pi() * r * r * R(4)));
    c.ensure("centroid is the center", eqv(c, v<R>(k.centroid()), m));
    c.ensure("bounding box", eqv(c, v<R>(k.boundingBox().min()), m - v3(r, r, r)) && eqv(c, v<R>(k.boundingBox().max()), m + v3(r, r, r)));
    bool in = k.contains(P(p), t);
    auto b = c.le(n2(p - m), (r + t) * (r + t));
    c.ensure("contains exactly the points within the radius", in ? b : !b);
}
CONTRACT("G06", sphere_circumscribed, "CGeoSphere(point, point, point, point)")
{
    typedef typename C::R R;
    V<R> a = vec(c, "a"), e = vec(c, "e"), f = vec(c, "f"), g = vec(c, "g");
    c.require(c.ne(det(e, f, g), 0));
    V<R> p[4] = { a, a + e, a + f, a + g };
    V<R> w = (cross(f, g) * n2(e) + cross(g, e) * n2(f) + cross(e, f) * n2(g)) * (R(0.5) / det(e, f, g));
    c.squares(w.x, w.y, w.z);
    CGeoSphere<R> k(P(p[0]), P(p[1]), P(p[2]), P(p[3]));
    V<R> m = v<R>(k.center());
    c.ensure("equal distance to the first and second point", c.eq(n2(p[1] - m), n2(p[0] - m)));
    c.ensure("equal distance to the first and third point", c.eq(n2(p[2] - m), n2(p[0] - m)));
    c.ensure("equal distance to the first and fourth point", c.eq(n2(p[3] - m), n2(p[0] - m)));
    R r = k.radius();
    c.ensure("radius is that distance", c.eq(r * r, n2(p[0] - m)) && c.ge(r, 0));
}
CONTRACT("G06", round_collinear, "CGeoCircle, CGeoSphere from degenerate points")
{
    typedef typename C::R R;
    auto in3 = [&](const char* n) { std::string k(n); R x = c.in(k + ".x", -2, 2), y = c.in(k + ".y", -2, 2), z = c.in(k + ".z", -2, 2); return v3(x, y, z); };
    V<R> a = in3("a"), e = in3("e"), f = in3("f");
    R s = c.in("s", -2, 2), t = c.in("t", -2, 2);
    CGeoSphere<R> k(P(a), P(a + e), P(a + f), P(a + e * s + f * t), R(1e-3));
    c.ensure("coplanar points give a sphere of zero radius", c.eq(k.radius(), 0));
    a.z = R(0); e.z = R(0);
    CGeoCircle<R> q(P(a), P(a + e), P(a + e * s), R(1e-3));
    c.ensure("collinear points give a circle of zero radius", c.eq(q.radius(), 0));
}
