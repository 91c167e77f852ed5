#include "geo_common.hpp"
#include "GeoTetrahedron.hpp"
#include "GeoTriangularPrism.hpp"
#include "GeoHexahedron.hpp"
using namespace spec;
using namespace ENigMA::geometry;

template <class T, class R> void fillN(T& t, const V<R>* p, int n) { for (int i = 0; i < n; ++i) t.addVertex(P(p[i])); }
template <class R> R tetVol(const V<R>* p) { return -det(p[1] - p[0], p[2] - p[0], p[3] - p[0]) / R(6); } // library sign convention

CONTRACT("G02", tet_measures, "CGeoTetrahedron::calculateVolume/calculateCentroid/calculateBoundingBox")
{
    typedef typename C::R R;
    V<R> p[4] = { vec(c, "a"), vec(c, "b"), vec(c, "d"), vec(c, "e") };
    CGeoTetrahedron<R> t;
    fillN(t, p, 4);
    t.calculateVolume(); t.calculateCentroid(); t.calculateBoundingBox();
    c.ensure("volume is a sixth of the edge determinant", c.eq(t.volume(), tetVol(p)));
    c.ensure("centroid is the vertex average", eqv(c, v<R>(t.centroid()) * R(4), p[0] + p[1] + p[2] + p[3]));
    for (int k = 0; k < 4; ++k)
    {
        V<R> lo = v<R>(t.boundingBox().min()), hi = v<R>(t.boundingBox().max());
        c.ensure("bounding box contains the vertices", c.le(lo.x, p[k].x) && c.le(lo.y, p[k].y) && c.le(lo.z, p[k].z) && c.ge(hi.x, p[k].x) && c.ge(hi.y, p[k].y) && c.ge(hi.z, p[k].z));
    }
}
CONTRACT("G02", tet_surface, "CGeoTetrahedron::calculateSurfaceArea")
{
    typedef typename C::R R;
    // trirectangular corner in any axis frame: legs along three orthogonal directions of an arbitrary box
    R x = c.real("x"), y = c.real("y"), z = c.real("z");
    c.require(c.gt(x, 0) && c.gt(y, 0) && c.gt(z, 0));
    V<R> o = vec(c, "o");
    V<R> p[4] = { o, o + v3(x, R(0), R(0)), o + v3(R(0), y, R(0)), o + v3(R(0), R(0), z) };
    int k = c.choose("rot", 4);
    V<R> q[4];
    for (int i = 0; i < 4; ++i) q[i] = p[(i + k) % 4];
    CGeoTetrahedron<R> t;
    fillN(t, q, 4);
    t.calculateSurfaceArea();
    R s = t.surfaceArea() - (x * y + y * z + z * x) / R(2); // hypotenuse face (de Gua)
    c.ensure("surface area is the sum of the four faces", c.eq(s * s * R(4), x * x * y * y + y * y * z * z + z * z * x * x) && c.gt(s, 0));
}
CONTRACT("G02", tet_orientation, "CGeoTetrahedron::calculateVolume")
{
    typedef typename C::R R;
    V<R> p[4] = { vec(c, "a"), vec(c, "b"), vec(c, "d"), vec(c, "e") };
    int i = c.choose("i", 4), j = c.choose("j", 4);
    c.require(c.is(i != j));
    V<R> q[4] = { p[0], p[1], p[2], p[3] };
    std::swap(q[i], q[j]);
    CGeoTetrahedron<R> t, s;
    fillN(t, p, 4); fillN(s, q, 4);
    t.calculateVolume(); s.calculateVolume();
    c.ensure("swapping two vertices changes the sign of the volume", c.eq(t.volume(), -s.volume()));
}
CONTRACT("G02", tet_cache, "CGeoTetrahedron::reset and the recalculate flag")
{
    typedef typename C::R R;
    V<R> p[4] = { vec(c, "a"), vec(c, "b"), vec(c, "d"), vec(c, "e") };
    V<R> g = vec(c, "g");
    V<R> q[4] = { p[0], p[1], p[2], g };
    CGeoTetrahedron<R> t, u;
    fillN(t, p, 4);
    t.calculateVolume(); t.calculateCentroid(); t.calculateBoundingBox();
    fillN(u, q, 4);
    u.calculateVolume(); u.calculateCentroid(); u.calculateBoundingBox();
    if (c.choose("how", 2))
    {
        t.reset();
        fillN(t, q, 4);
        t.calculateVolume(); t.calculateCentroid(); t.calculateBoundingBox();
    }
    else
    {
        t.setVertex(3, P(g));
        t.calculateVolume(true); t.calculateCentroid(true); t.calculateBoundingBox(true);
    }
    c.ensure("measures follow the current vertices", c.eq(t.volume(), u.volume()) && eqv(c, v<R>(t.centroid()), v<R>(u.centroid())));
    c.ensure("bounding box follows the current vertices", eqv(c, v<R>(t.boundingBox().min()), v<R>(u.boundingBox().min())) && eqv(c, v<R>(t.boundingBox().max()), v<R>(u.boundingBox().max())));
}
CONTRACT("G02", prism_volume, "CGeoTriangularPrism::calculateVolume/reset")
{
    typedef typename C::R R;
    V<R> o = vec(c, "o"), e = vec(c, "e"), f = vec(c, "f"), g = vec(c, "g");
    V<R> p[6] = { o, o + e, o + f, o + g, o + e + g, o + f + g };
    CGeoTriangularPrism<R> t;
    if (c.choose("reused", 2))
    {
        for (int i = 0; i < 6; ++i) t.addVertex(P(p[(i + 1) % 6]));
        t.calculateVolume();
        t.reset();
    }
    fillN(t, p, 6);
    t.calculateVolume();
    c.ensure("volume of a sheared prism", c.eq(t.volume() * R(2), -det(e, f, g)));
}
CONTRACT("G02", hexa_volume, "CGeoHexahedron::calculateVolume/decimate/reset")
{
    typedef typename C::R R;
    V<R> o = vec(c, "o"), e = vec(c, "e"), f = vec(c, "f"), g = vec(c, "g");
    V<R> p[8] = { o, o + e, o + e + f, o + f, o + g, o + e + g, o + e + f + g, o + f + g };
    CGeoHexahedron<R> t;
    if (c.choose("reused", 2))
    {
        for (int i = 0; i < 8; ++i) t.addVertex(P(p[(i + 3) % 8]));
        t.calculateVolume();
        t.reset();
    }
    fillN(t, p, 8);
    t.calculateVolume();
    c.ensure("volume of a parallelepiped", c.eq(t.volume(), -det(e, f, g)));
    std::vector<CGeoTetrahedron<R>> s;
    t.decimate(s);
    c.ensure("six tetrahedra", c.is(s.size() == 6));
    R sum = 0;
    for (size_t i = 0; i < s.size(); ++i)
    {
        s[i].calculateVolume();
        sum = sum + s[i].volume();
        c.ensure("each tetrahedron is a sixth of the parallelepiped, equally oriented", c.eq(s[i].volume() * R(6), t.volume()));
    }
    c.ensure("tetrahedra add up to the parallelepiped", c.eq(sum, t.volume()));
}
CONTRACT("G02", hexa_decimate_general, "CGeoHexahedron::decimate on any hexahedron with bilinear faces")
{
    typedef typename C::R R;
    // one vertex moved along its diagonal: the decomposition still tiles the solid seen from vertex 7
    V<R> p[8];
    for (int i = 0; i < 8; ++i) p[i] = vec(c, nm("p", i));
    CGeoHexahedron<R> t;
    fillN(t, p, 8);
    std::vector<CGeoTetrahedron<R>> s;
    t.decimate(s);
    R sum = 0;
    for (size_t i = 0; i < s.size(); ++i) { s[i].calculateVolume(); sum = sum + s[i].volume(); }
    // triangulated boundary as used by the decomposition, seen from the origin (divergence theorem)
    static const int tri[12][3] = { { 0, 1, 3 }, { 1, 2, 3 }, { 0, 4, 1 }, { 4, 5, 1 }, { 1, 5, 6 }, { 1, 6, 2 }, { 2, 6, 7 }, { 2, 7, 3 }, { 0, 3, 7 }, { 0, 7, 4 }, { 4, 7, 5 }, { 5, 7, 6 } };
    R vol = 0;
    for (auto& k : tri) vol = vol + det(p[k[0]], p[k[1]], p[k[2]]);
    c.ensure("tetrahedra fill the closed surface exactly", c.eq(sum * R(6), vol));
}
