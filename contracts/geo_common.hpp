#pragma once
#include "../ecv/contract.hpp"
#include "GeoCoordinate.hpp"
#include "GeoVector.hpp"
#include "GeoNormal.hpp"
namespace spec
{
    using ENigMA::geometry::CGeoCoordinate;
    using ENigMA::geometry::CGeoNormal;
    using ENigMA::geometry::CGeoVector;
    // plain 3-vectors of the specification (independent of the library's own vector class)
    template <class R> struct V { R x, y, z; };
    template <class R> V<R> v3(R x, R y, R z) { return V<R> { x, y, z }; }
    template <class R, class P> V<R> v(const P& p) { return V<R> { p.x(), p.y(), p.z() }; }
    template <class R> V<R> operator-(V<R> a, V<R> b) { return V<R> { a.x - b.x, a.y - b.y, a.z - b.z }; }
    template <class R> V<R> operator+(V<R> a, V<R> b) { return V<R> { a.x + b.x, a.y + b.y, a.z + b.z }; }
    template <class R> V<R> operator*(V<R> a, R s) { return V<R> { a.x * s, a.y * s, a.z * s }; }
    template <class R> V<R> cross(V<R> a, V<R> b) { return V<R> { a.y * b.z - a.z * b.y, a.z * b.x - a.x * b.z, a.x * b.y - a.y * b.x }; }
    template <class R> R dot(V<R> a, V<R> b) { return a.x * b.x + a.y * b.y + a.z * b.z; }
    template <class R> R n2(V<R> a) { return dot(a, a); }
    template <class R> R det(V<R> a, V<R> b, V<R> c) { return dot(a, cross(b, c)); }
    template <class C, class R> typename C::B eqv(C& c, V<R> a, V<R> b, double s = 0) { return c.eq(a.x, b.x, s) && c.eq(a.y, b.y, s) && c.eq(a.z, b.z, s); }
    template <class C> V<typename C::R> vec(C& c, const std::string& n)
    {
        typedef typename C::R R;
        R x = c.real(n + ".x"), y = c.real(n + ".y"), z = c.real(n + ".z");
        return V<R> { x, y, z };
    }
    template <class R> CGeoCoordinate<R> P(V<R> a) { return CGeoCoordinate<R>(a.x, a.y, a.z); }
    template <class R> CGeoVector<R> G(V<R> a) { CGeoVector<R> r; r << a.x, a.y, a.z; return r; }
    template <class C> CGeoCoordinate<typename C::R> point(C& c, const std::string& n) { return P(vec(c, n)); }
    template <class R> R sgn1(bool b) { return b ? R(1) : R(-1); }
    inline std::string nm(const char* s, int i) { return std::string(s) + std::to_string(i); }
    inline std::string nm(const char* s, int i, int j) { return std::string(s) + std::to_string(i) + "_" + std::to_string(j); }
    // sign of a real, decided on the path
    template <class C, class R> bool isPos(C& c, const R& a) { return a > R(0); }
}
