#include "geo_common.hpp"
#include "GeoTriangle.hpp"
#include "GeoQuadrilateral.hpp"
using namespace spec;
using namespace ENigMA::geometry;

template <class R> void fill(CGeoTriangle<R>& t, V<R> a, V<R> b, V<R> d) { t.addVertex(P(a)); t.addVertex(P(b)); t.addVertex(P(d)); }
template <class R> void fill(CGeoQuadrilateral<R>& t, V<R> a, V<R> b, V<R> d, V<R> e) { t.addVertex(P(a)); t.addVertex(P(b)); t.addVertex(P(d)); t.addVertex(P(e)); }

CONTRACT("G01", triangle_measures, "CGeoTriangle::calculateArea/calculateNormal/calculateCentroid/getPlane")
{
    typedef typename C::R R;
    V<R> a = vec(c, "a"), b = vec(c, "b"), d = vec(c, "d");
    CGeoTriangle<R> t;
    fill(t, a, b, d);
    V<R> n = cross(b - a, d - a);
    c.require(c.gt(n2(n), 0));
    t.calculateArea();
    t.calculateNormal();
    t.calculateCentroid();
    c.ensure("four times the squared area is the squared cross product", c.eq(t.area() * t.area() * 4, n2(n)));
    c.ensure("area is positive", c.gt(t.area(), 0));
    V<R> u = v<R>(t.normal());
    c.ensure("normal has unit length", c.eq(n2(u), 1));
    c.ensure("normal is orthogonal to the edges", c.eq(dot(u, b - a), 0) && c.eq(dot(u, d - a), 0));
    c.ensure("normal follows the right-hand rule", c.gt(dot(u, n), 0));
    c.ensure("area times normal is half the cross product", eqv(c, u * (t.area() * R(2)), n));
    c.ensure("centroid is the vertex average", eqv(c, v<R>(t.centroid()) * R(3), a + b + d));
    CGeoPlane<R> pl = t.getPlane();
    c.ensure("plane contains the vertices", c.eq(dot(v<R>(pl.normal()), a), pl.d()) && c.eq(dot(v<R>(pl.normal()), b), pl.d()) && c.eq(dot(v<R>(pl.normal()), d), pl.d()));
}
CONTRACT("G01", triangle_degenerate, "CGeoTriangle::calculateArea on collinear vertices")
{
    typedef typename C::R R;
    V<R> a = vec(c, "a"), e = vec(c, "e");
    R s = c.real("s");
    CGeoTriangle<R> t;
    fill(t, a, a + e, a + e * s);
    t.calculateArea();
    c.ensure("collinear vertices have zero area", c.eq(t.area(), 0));
}
CONTRACT("G01", triangle_cyclic_and_flip, "CGeoTriangle::calculateArea/calculateNormal/invert")
{
    typedef typename C::R R;
    V<R> a = vec(c, "a"), b = vec(c, "b"), d = vec(c, "d");
    c.require(c.gt(n2(cross(b - a, d - a)), 0));
    CGeoTriangle<R> t, s, w;
    fill(t, a, b, d);
    fill(s, b, d, a);
    fill(w, a, b, d);
    w.invert();
    t.calculateArea(); s.calculateArea(); w.calculateArea();
    c.ensure("area is invariant under rotation of the vertex list", c.eq(t.area(), s.area()));
    c.ensure("normal is invariant under rotation of the vertex list", eqv(c, v<R>(t.normal()), v<R>(s.normal())));
    c.ensure("inverting keeps the area", c.eq(t.area(), w.area()));
    c.ensure("inverting flips the normal", eqv(c, v<R>(t.normal()), v<R>(w.normal()) * R(-1)));
}
CONTRACT("G01", triangle_cache, "CGeoTriangle::reset and the recalculate flag")
{
    typedef typename C::R R;
    V<R> a = vec(c, "a"), b = vec(c, "b"), d = vec(c, "d"), e = vec(c, "e");
    c.require(c.gt(n2(cross(b - a, d - a)), 0) && c.gt(n2(cross(b - a, e - a)), 0));
    CGeoTriangle<R> t, u;
    fill(t, a, b, d);
    t.calculateArea(); t.calculateNormal(); t.calculateCentroid(); t.calculateBoundingBox();
    fill(u, a, b, e);
    u.calculateArea(); u.calculateNormal(); u.calculateCentroid(); u.calculateBoundingBox();
    if (c.choose("how", 2))
    {
        t.reset();
        fill(t, a, b, e);
        t.calculateArea(); t.calculateNormal(); t.calculateCentroid(); t.calculateBoundingBox();
    }
    else
    {
        t.setVertex(2, P(e));
        t.calculateArea(true); t.calculateNormal(true); t.calculateCentroid(true); t.calculateBoundingBox(true);
    }
    c.ensure("measures follow the current vertices", c.eq(t.area(), u.area()) && eqv(c, v<R>(t.normal()), v<R>(u.normal())) && eqv(c, v<R>(t.centroid()), v<R>(u.centroid())));
    c.ensure("bounding box follows the current vertices", eqv(c, v<R>(t.boundingBox().min()), v<R>(u.boundingBox().min())) && eqv(c, v<R>(t.boundingBox().max()), v<R>(u.boundingBox().max())));
}
CONTRACT("G01", quad_planar, "CGeoQuadrilateral::calculateArea/calculateNormal/calculateCentroid/decimate")
{
    typedef typename C::R R;
    V<R> p = vec(c, "p"), e = vec(c, "e"), f = vec(c, "f");
    R a = c.real("a"), b = c.real("b");
    c.require(c.gt(a, 0) && c.gt(b, 0) && c.gt(a + b, 1));
    V<R> n = cross(e, f);
    c.require(c.gt(n2(n), 0));
    V<R> q[4] = { p, p + e, p + e * a + f * b, p + f };
    CGeoQuadrilateral<R> t;
    fill(t, q[0], q[1], q[2], q[3]);
    t.calculateArea(); t.calculateNormal(); t.calculateCentroid();
    c.ensure("planar convex quadrilateral area", c.eq(t.area() * t.area() * 4, n2(n) * (a + b) * (a + b)) && c.gt(t.area(), 0));
    V<R> u = v<R>(t.normal());
    c.ensure("normal has unit length", c.eq(n2(u), 1));
    c.ensure("normal follows the right-hand rule", c.gt(dot(u, n), 0) && eqv(c, cross(u, n), v3(R(0), R(0), R(0))));
    c.ensure("centroid is the vertex average", eqv(c, v<R>(t.centroid()) * R(4), q[0] + q[1] + q[2] + q[3]));
    std::vector<CGeoTriangle<R>> tr;
    t.decimate(tr);
    c.ensure("two triangles", c.is(tr.size() == 2));
    if (tr.size() == 2)
    {
        tr[0].calculateArea(); tr[1].calculateArea();
        c.ensure("triangle areas add up to the quadrilateral area", c.eq(tr[0].area() + tr[1].area(), t.area()));
        c.ensure("triangles keep the orientation", c.gt(dot(v<R>(tr[0].normal()), n), 0) && c.gt(dot(v<R>(tr[1].normal()), n), 0));
    }
}
CONTRACT("G01", quad_general, "CGeoQuadrilateral::calculateArea/calculateNormal (any four points), calculateBoundingBox")
{
    typedef typename C::R R;
    V<R> q[4] = { vec(c, "a"), vec(c, "b"), vec(c, "d"), vec(c, "e") };
    V<R> n = cross(q[2] - q[0], q[3] - q[1]);
    c.require(c.gt(n2(n), 0));
    CGeoQuadrilateral<R> t;
    fill(t, q[0], q[1], q[2], q[3]);
    t.calculateArea();
    t.calculateBoundingBox();
    c.ensure("vector area is half the cross product of the diagonals", eqv(c, v<R>(t.normal()) * (t.area() * R(2)), n));
    c.ensure("normal has unit length", c.eq(n2(v<R>(t.normal())), 1));
    for (int k = 0; k < 4; ++k)
    {
        V<R> lo = v<R>(t.boundingBox().min()), hi = v<R>(t.boundingBox().max());
        c.ensure("bounding box contains the vertices", c.le(lo.x, q[k].x) && c.le(lo.y, q[k].y) && c.le(lo.z, q[k].z) && c.ge(hi.x, q[k].x) && c.ge(hi.y, q[k].y) && c.ge(hi.z, q[k].z));
    }
}
CONTRACT("G01", quad_cache, "CGeoQuadrilateral::reset and the recalculate flag")
{
    typedef typename C::R R;
    V<R> a = vec(c, "a"), b = vec(c, "b"), d = vec(c, "d"), e = vec(c, "e"), g = vec(c, "g");
    c.require(c.gt(n2(cross(d - a, e - b)), 0) && c.gt(n2(cross(d - a, g - b)), 0));
    CGeoQuadrilateral<R> t, u;
    fill(t, a, b, d, e);
    t.calculateArea(); t.calculateNormal(); t.calculateCentroid();
    fill(u, a, b, d, g);
    u.calculateArea(); u.calculateNormal(); u.calculateCentroid();
    if (c.choose("how", 2))
    {
        t.reset();
        fill(t, a, b, d, g);
        t.calculateArea(); t.calculateNormal(); t.calculateCentroid();
    }
    else
    {
        t.setVertex(3, P(g));
        t.calculateArea(true); t.calculateNormal(true); t.calculateCentroid(true);
    }
    c.ensure("measures follow the current vertices", c.eq(t.area(), u.area()) && eqv(c, v<R>(t.normal()), v<R>(u.normal())) && eqv(c, v<R>(t.centroid()), v<R>(u.centroid())));
}
