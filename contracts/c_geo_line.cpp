#include "geo_common.hpp"
#include "GeoLine.hpp"
#include "GeoPlane.hpp"
using namespace spec;
using namespace ENigMA::geometry;

template <class C> CGeoPlane<typename C::R> unitPlane(C& c, V<typename C::R>& n, typename C::R& d)
{
    typedef typename C::R R;
    // any unit normal: normalised by the contract, not by the library
    V<R> m = vec(c, "n");
    c.require(c.gt(n2(m), 0));
    n = m * (R(1) / sqrt(n2(m)));
    d = c.real("d");
    CGeoNormal<R> gn;
    gn << n.x, n.y, n.z;
    return CGeoPlane<R>(gn, d);
}
CONTRACT("G03", line_basics, "CGeoLine ctor/setters/vector/midPoint/length/invert")
{
    typedef typename C::R R;
    V<R> a = vec(c, "a"), b = vec(c, "b");
    R f = c.real("f");
    CGeoLine<R> l;
    int how = c.choose("how", 4);
    if (how == 0) l = CGeoLine<R>(P(a), P(b));
    else if (how == 1) { l.setStartPoint(P(a)); l.setEndPoint(P(b)); }
    else if (how == 2) { l.setEndPoint(P(b)); l.setStartPoint(P(a)); }
    else { V<R> z = vec(c, "z"); l = CGeoLine<R>(P(z), P(b)); l.setStartPoint(P(a)); }
    c.ensure("direction vector is end minus start", eqv(c, v<R>(l.vector()), b - a));
    c.ensure("end points are those set", eqv(c, v<R>(l.startPoint()), a) && eqv(c, v<R>(l.endPoint()), b));
    c.ensure("midPoint interpolates linearly", eqv(c, v<R>(l.midPoint(f)), a * (R(1) - f) + b * f));
    l.calculateLength();
    c.ensure("length", c.eq(l.length() * l.length(), n2(b - a)) && c.ge(l.length(), 0));
    l.calculateBoundingBox();
    V<R> lo = v<R>(l.boundingBox().min()), hi = v<R>(l.boundingBox().max());
    c.ensure("bounding box contains both ends", c.le(lo.x, a.x) && c.le(lo.x, b.x) && c.ge(hi.x, a.x) && c.ge(hi.x, b.x) && c.le(lo.y, a.y) && c.le(lo.y, b.y) && c.ge(hi.y, a.y) && c.ge(hi.y, b.y) && c.le(lo.z, a.z) && c.le(lo.z, b.z) && c.ge(hi.z, a.z) && c.ge(hi.z, b.z));
    l.invert();
    c.ensure("invert swaps the ends", eqv(c, v<R>(l.startPoint()), b) && eqv(c, v<R>(l.endPoint()), a) && eqv(c, v<R>(l.vector()), a - b));
}
CONTRACT("G03", plane_distance, "CGeoPlane::distance/invert/set")
{
    typedef typename C::R R;
    V<R> n;
    R d;
    CGeoPlane<R> pl = unitPlane(c, n, d);
    V<R> p = vec(c, "p");
    CGeoCoordinate<R> q;
    R s = dot(n, p) - d;
    R r = pl.distance(P(p), q), r1 = pl.distance(P(p));
    c.ensure("distance is the absolute signed distance", c.eq(r * r, s * s) && c.ge(r, 0) && c.eq(r, r1));
    c.ensure("projection lies on the plane", c.eq(dot(n, v<R>(q)), d));
    c.ensure("projection is along the normal", eqv(c, cross(v<R>(q) - p, n), v3(R(0), R(0), R(0))));
    c.ensure("distance is the length of the projection step", c.eq(n2(v<R>(q) - p), r * r));
    pl.invert();
    c.ensure("inverting keeps the plane", c.eq(pl.distance(P(p)), r) && eqv(c, v<R>(pl.normal()), n * R(-1)) && c.eq(pl.d(), -d));
}
CONTRACT("G03", line_plane_intersection, "CGeoLine::intersects(plane)")
{
    typedef typename C::R R;
    V<R> n;
    R d;
    CGeoPlane<R> pl = unitPlane(c, n, d);
    V<R> a = vec(c, "a"), b = vec(c, "b");
    R sa = dot(n, a) - d, sb = dot(n, b) - d;
    CGeoLine<R> l(P(a), P(b));
    CGeoCoordinate<R> q;
    CGeoIntersectionType it;
    c.require(c.ne(sa, sb));
    // the line is crossed exactly when the end points are on different sides (or on the plane)
    int k = c.choose("case", 3);
    if (k == 0) c.require(c.gt(sa, 0) && c.lt(sb, 0));
    else if (k == 1) c.require(c.lt(sa, 0) && c.gt(sb, 0));
    else c.require(c.gt(sa * sb, 0));
    bool hit = l.intersects(pl, q, it);
    if (k < 2)
    {
        c.ensure("opposite sides: intersects", c.is(hit));
        if (hit)
        {
            V<R> x = v<R>(q);
            c.ensure("point is on the plane", c.eq(dot(n, x), d));
            c.ensure("point is on the line", eqv(c, x * (sa - sb), b * sa - a * sb));
            c.ensure("type is internal", c.is(it == IT_INTERNAL));
        }
    }
    else c.ensure("same side: no intersection", c.is(!hit && it == IT_NONE));
}
CONTRACT("G03", line_plane_clip, "CGeoLine::clip(plane)")
{
    typedef typename C::R R;
    V<R> n;
    R d;
    CGeoPlane<R> pl = unitPlane(c, n, d);
    V<R> a = vec(c, "a"), b = vec(c, "b");
    R sa = dot(n, a) - d, sb = dot(n, b) - d;
    CGeoLine<R> l(P(a), P(b));
    int k = c.choose("case", 4);
    if (k == 0) c.require(c.gt(sa, 0) && c.gt(sb, 0) && c.ne(sa, sb));
    else if (k == 1) c.require(c.lt(sa, 0) && c.lt(sb, 0) && c.ne(sa, sb));
    else if (k == 2) c.require(c.lt(sa, 0) && c.gt(sb, 0));
    else c.require(c.gt(sa, 0) && c.lt(sb, 0));
    CGeoLine<R> r = l.clip(pl);
    V<R> x = v<R>(r.startPoint()), y = v<R>(r.endPoint());
    if (k == 0) c.ensure("in front of the plane: nothing is left", eqv(c, x, y));
    else if (k == 1) c.ensure("behind the plane: the line is kept", eqv(c, x, a) && eqv(c, y, b));
    else if (k == 2) c.ensure("the part behind the plane is kept (start side)", eqv(c, x, a) && eqv(c, y * (sa - sb), b * sa - a * sb));
    else c.ensure("the part behind the plane is kept (end side)", eqv(c, y, b) && eqv(c, x * (sa - sb), b * sa - a * sb));
    c.ensure("clipped line keeps vector and ends in step", eqv(c, v<R>(r.vector()), y - x));
}
CONTRACT("G03", line_point_distance, "CGeoLine::distance(point)")
{
    typedef typename C::R R;
    V<R> a = vec(c, "a"), e = vec(c, "e"), p = vec(c, "p");
    c.require(c.gt(n2(e), 0));
    CGeoLine<R> l(P(a), P(a + e));
    CGeoCoordinate<R> q;
    R dist = -1;
    bool ok = l.distance(P(p), q, dist);
    c.ensure("succeeds for a proper line", c.is(ok));
    if (!ok) return;
    V<R> x = v<R>(q);
    R t = dot(x - a, e); // parameter times |e|^2
    c.ensure("distance is the distance to the returned point", c.eq(dist * dist, n2(p - x)) && c.ge(dist, 0));
    c.ensure("returned point is on the line", eqv(c, (x - a) * n2(e), e * t));
    c.ensure("returned point is between the ends", c.ge(t, 0) && c.le(t, n2(e)));
    // first-order optimality on a convex segment
    R g = dot(p - x, e);
    c.ensure("no point of the line is closer", c.eq(g, 0) || (c.eq(t, 0) && c.lt(g, 0)) || (c.eq(t, n2(e)) && c.gt(g, 0)));
}
CONTRACT("G03", line_line_distance, "CGeoLine::distance(line)")
{
    typedef typename C::R R;
    V<R> a = vec(c, "a"), e = vec(c, "e"), b = vec(c, "b"), f = vec(c, "f");
    R den = n2(e) * n2(f) - dot(e, f) * dot(e, f);
    c.require(c.gt(n2(e), 0) && c.gt(n2(f), 0) && c.gt(den, 0));
    CGeoLine<R> l(P(a), P(a + e)), m(P(b), P(b + f));
    CGeoCoordinate<R> q1, q2;
    R dist = -1;
    bool ok = l.distance(m, q1, q2, dist);
    c.ensure("succeeds for lines that are not parallel", c.is(ok));
    if (!ok) return;
    V<R> x = v<R>(q1), y = v<R>(q2);
    c.ensure("distance is the distance of the returned points", c.eq(dist * dist, n2(x - y)) && c.ge(dist, 0));
    c.ensure("first point is on the first line", eqv(c, (x - a) * n2(e), e * dot(x - a, e)));
    c.ensure("second point is on the second line", eqv(c, (y - b) * n2(f), f * dot(y - b, f)));
    R s = dot(x - a, e), t = dot(y - b, f);
    c.ensure("first point is between the ends", c.ge(s, 0) && c.le(s, n2(e)));
    c.ensure("second point is between the ends", c.ge(t, 0) && c.le(t, n2(f)));
    R g1 = dot(x - y, e); // gradient of half the squared distance
    c.ensure("no point of the first line is closer to the second point", c.eq(g1, 0) || (c.eq(s, 0) && c.gt(g1, 0)) || (c.eq(s, n2(e)) && c.lt(g1, 0)));
}
RUNTIME_CONTRACT("G03", line_line_distance_optimal, "CGeoLine::distance(line), optimality on the second line", "generated lines; the obligation is beyond nlsat for symbolic end points")
{
    typedef typename C::R R;
    V<R> a = vec(c, "a"), e = vec(c, "e"), b = vec(c, "b"), f = vec(c, "f");
    R den = n2(e) * n2(f) - dot(e, f) * dot(e, f);
    c.require(c.gt(den, R(0.01) * n2(e) * n2(f)) && c.gt(n2(e), R(0.01)) && c.gt(n2(f), R(0.01)));
    CGeoLine<R> l(P(a), P(a + e)), m(P(b), P(b + f));
    CGeoCoordinate<R> q1, q2;
    R dist = -1;
    bool ok = l.distance(m, q1, q2, dist);
    c.ensure("succeeds for lines that are not parallel", c.is(ok));
    if (!ok) return;
    V<R> x = v<R>(q1), y = v<R>(q2);
    R t = dot(y - b, f), g2 = dot(y - x, f);
    R S = n2(f) + n2(e) + n2(a - b);
    c.ensure("no point of the second line is closer to the first point", c.eq(g2, 0, (double)S) || (c.eq(t, 0, (double)S) && c.gt(g2, 0)) || (c.eq(t, n2(f), (double)S) && c.lt(g2, 0)));
}
RUNTIME_CONTRACT("G03", line_line_intersection, "CGeoLine::intersects(line)", "generated crossing segments; the membership test uses acos of a quotient of norms")
{
    typedef typename C::R R;
    V<R> x = vec(c, "x"), e = vec(c, "e"), f = vec(c, "f");
    R s = c.in("s", 0, 1), t = c.in("t", 0, 1);
    c.require(c.gt(s, R(0.05)) && c.lt(s, R(0.95)) && c.gt(t, R(0.05)) && c.lt(t, R(0.95)));
    c.require(c.gt(n2(cross(e, f)), R(0.01) * n2(e) * n2(f)) && c.gt(n2(e), R(0.01)) && c.gt(n2(f), R(0.01)));
    // two segments that cross at x
    V<R> a = x - e * s, b = x - f * t;
    CGeoLine<R> l(P(a), P(a + e)), m(P(b), P(b + f));
    CGeoCoordinate<R> q;
    CGeoIntersectionType it;
    const R tol = R(1e-9);
    bool hit = l.intersects(m, q, it, tol);
    c.ensure("crossing segments intersect", c.is(hit));
    if (hit) c.ensure("at the crossing point", eqv(c, v<R>(q), x));
    if (hit) c.ensure("inside", c.is(it == IT_INTERNAL));
}
CONTRACT("G03", vector_angle, "CGeoVector::angle")
{
    typedef typename C::R R;
    V<R> a = vec(c, "a"), b = vec(c, "b");
    c.require(c.gt(n2(a), R(0.01)) && c.gt(n2(b), R(0.01)));
    CGeoVector<R> u = G(a), w = G(b);
    R x = u.angle(w), y = w.angle(u);
    c.ensure("angle is symmetric", c.eq(x, y));
    c.ensure("angle is between 0 and pi", c.ge(x, 0) && c.le(x, c.pi()));
    using std::cos;
    R k = cos(x);
    c.ensure("cosine of the angle", c.eq(k * k * n2(a) * n2(b), dot(a, b) * dot(a, b), 100) && c.ge(k * dot(a, b), 0));
}
CONTRACT("G03", vector_rotate, "CGeoVector::rotate")
{
    typedef typename C::R R;
    V<R> a = vec(c, "a");
    R t = c.real("t");
    using std::cos;
    using std::sin;
    CGeoVector<R> u = G(a);
    u.rotate(t);
    c.ensure("rotation about z by the angle", eqv(c, v<R>(u), v3(a.x * cos(t) - a.y * sin(t), a.x * sin(t) + a.y * cos(t), a.z)));
}
