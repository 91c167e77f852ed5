#include "geo_common.hpp"
#include "GeoBoundingBox.hpp"
#include "GeoTriangle.hpp"
#include "GeoTetrahedron.hpp"
using namespace spec;
using namespace ENigMA::geometry;

template <class R> R lo3(R a, R b, R d) { return std::min(std::min(a, b), d); }
template <class R> R hi3(R a, R b, R d) { return std::max(std::max(a, b), d); }
template <class C> CGeoBoundingBox<typename C::R> box(C& c, const std::string& n, V<typename C::R>& lo, V<typename C::R>& hi)
{
    typedef typename C::R R;
    lo = vec(c, n + "lo");
    hi = vec(c, n + "hi");
    c.require(c.le(lo.x, hi.x) && c.le(lo.y, hi.y) && c.le(lo.z, hi.z));
    return CGeoBoundingBox<R>(lo.x, lo.y, lo.z, hi.x, hi.y, hi.z);
}
template <class C, class R> typename C::B inside(C& c, V<R> p, V<R> lo, V<R> hi)
{
    return c.ge(p.x, lo.x) && c.le(p.x, hi.x) && c.ge(p.y, lo.y) && c.le(p.y, hi.y) && c.ge(p.z, lo.z) && c.le(p.z, hi.z);
}

CONTRACT("G05", box_add, "CGeoBoundingBox::reset/addCoordinate/min/max")
{
    typedef typename C::R R;
    V<R> a = vec(c, "a"), b = vec(c, "b"), d = vec(c, "d");
    CGeoBoundingBox<R> x;
    if (c.choose("reused", 2)) { x.addCoordinate(point(c, "z")); x.reset(); }
    x.addCoordinate(P(a));
    c.ensure("one point: degenerate box", eqv(c, v<R>(x.min()), a) && eqv(c, v<R>(x.max()), a));
    x.addCoordinate(P(b));
    x.addCoordinate(P(d));
    c.ensure("minimum is the componentwise minimum", eqv(c, v<R>(x.min()), v3(lo3(a.x, b.x, d.x), lo3(a.y, b.y, d.y), lo3(a.z, b.z, d.z))));
    c.ensure("maximum is the componentwise maximum", eqv(c, v<R>(x.max()), v3(hi3(a.x, b.x, d.x), hi3(a.y, b.y, d.y), hi3(a.z, b.z, d.z))));
}
CONTRACT("G05", box_add_inductive, "CGeoBoundingBox::addCoordinate (inductive step: any box, any point)")
{
    typedef typename C::R R;
    V<R> lo, hi, p = vec(c, "p");
    CGeoBoundingBox<R> x = box(c, "", lo, hi);
    x.addCoordinate(P(p));
    c.ensure("minimum", eqv(c, v<R>(x.min()), v3(std::min(lo.x, p.x), std::min(lo.y, p.y), std::min(lo.z, p.z))));
    c.ensure("maximum", eqv(c, v<R>(x.max()), v3(std::max(hi.x, p.x), std::max(hi.y, p.y), std::max(hi.z, p.z))));
}
CONTRACT("G05", box_contains_point, "CGeoBoundingBox::contains(point)")
{
    typedef typename C::R R;
    V<R> lo, hi, p = vec(c, "p");
    R t = c.real("t");
    c.require(c.ge(t, 0));
    CGeoBoundingBox<R> x = box(c, "", lo, hi);
    bool r = x.contains(P(p), t);
    V<R> tt = v3(t, t, t);
    auto in = inside(c, p, lo - tt, hi + tt);
    c.ensure("contains exactly the points within the tolerance of the box", r ? in : !in);
    c.ensure("the box is not changed", eqv(c, v<R>(x.min()), lo) && eqv(c, v<R>(x.max()), hi));
}
CONTRACT("G05", box_contains_box, "CGeoBoundingBox::contains(box)")
{
    typedef typename C::R R;
    V<R> lo, hi, l2, h2;
    R t = c.real("t");
    c.require(c.ge(t, 0));
    CGeoBoundingBox<R> x = box(c, "", lo, hi), y = box(c, "o", l2, h2);
    bool r = x.contains(y, t);
    V<R> tt = v3(t, t, t);
    auto in = inside(c, l2, lo - tt, hi + tt) && inside(c, h2, lo - tt, hi + tt);
    c.ensure("contains a box exactly when it contains both of its corners", r ? in : !in);
}
CONTRACT("G05", box_intersects_box, "CGeoBoundingBox::intersects(box)")
{
    typedef typename C::R R;
    V<R> lo, hi, l2, h2;
    R t = c.real("t");
    c.require(c.ge(t, 0));
    CGeoBoundingBox<R> x = box(c, "", lo, hi), y = box(c, "o", l2, h2);
    bool r = x.intersects(y, t), s = y.intersects(x, t);
    auto m = c.le(std::max(lo.x, l2.x), std::min(hi.x, h2.x) + t) && c.le(std::max(lo.y, l2.y), std::min(hi.y, h2.y) + t) && c.le(std::max(lo.z, l2.z), std::min(hi.z, h2.z) + t);
    c.ensure("symmetric", c.is(r == s));
    c.ensure("boxes intersect exactly when the intervals overlap on every axis", r ? m : !m);
}
CONTRACT("G05", box_grow_shrink, "CGeoBoundingBox::grow/shrink")
{
    typedef typename C::R R;
    V<R> lo, hi, w = vec(c, "w");
    R t = c.real("t");
    CGeoBoundingBox<R> x = box(c, "", lo, hi);
    V<R> tt = v3(t, t, t);
    x.grow(t);
    c.ensure("grow moves every side outwards by the amount", eqv(c, v<R>(x.min()), lo - tt) && eqv(c, v<R>(x.max()), hi + tt));
    x.shrink(t);
    c.ensure("shrink undoes grow", eqv(c, v<R>(x.min()), lo) && eqv(c, v<R>(x.max()), hi));
    x.grow(w.x, w.y, w.z);
    c.ensure("grow per axis", eqv(c, v<R>(x.min()), lo - w) && eqv(c, v<R>(x.max()), hi + w));
}
CONTRACT("G05", box_reset_intersects, "CGeoBoundingBox::reset")
{
    typedef typename C::R R;
    V<R> lo, hi;
    CGeoBoundingBox<R> x, y = box(c, "", lo, hi);
    c.ensure("an empty box meets no other box", c.is(!x.intersects(y) && !y.intersects(x)));
    c.ensure("an empty box contains no point", c.is(!x.contains(P(lo))));
}
CONTRACT("G05", tetra_box, "CGeoTetrahedron::calculateBoundingBox, CGeoTriangle::calculateBoundingBox")
{
    typedef typename C::R R;
    V<R> q[4] = { vec(c, "a"), vec(c, "b"), vec(c, "d"), vec(c, "e") };
    CGeoTetrahedron<R> t;
    CGeoTriangle<R> s;
    for (int i = 0; i < 4; ++i) t.addVertex(P(q[i]));
    for (int i = 0; i < 3; ++i) s.addVertex(P(q[i]));
    t.calculateBoundingBox();
    s.calculateBoundingBox();
    c.ensure("tetrahedron box", eqv(c, v<R>(t.boundingBox().min()), v3(std::min(lo3(q[0].x, q[1].x, q[2].x), q[3].x), std::min(lo3(q[0].y, q[1].y, q[2].y), q[3].y), std::min(lo3(q[0].z, q[1].z, q[2].z), q[3].z))) && eqv(c, v<R>(t.boundingBox().max()), v3(std::max(hi3(q[0].x, q[1].x, q[2].x), q[3].x), std::max(hi3(q[0].y, q[1].y, q[2].y), q[3].y), std::max(hi3(q[0].z, q[1].z, q[2].z), q[3].z))));
    c.ensure("triangle box", eqv(c, v<R>(s.boundingBox().min()), v3(lo3(q[0].x, q[1].x, q[2].x), lo3(q[0].y, q[1].y, q[2].y), lo3(q[0].z, q[1].z, q[2].z))) && eqv(c, v<R>(s.boundingBox().max()), v3(hi3(q[0].x, q[1].x, q[2].x), hi3(q[0].y, q[1].y, q[2].y), hi3(q[0].z, q[1].z, q[2].z))));
}
