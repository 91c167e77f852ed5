// S01: spatial search structures answer exactly the geometric query
#include "geo_common.hpp"
#include <algorithm>
#include <iostream>
#include <vector>
#include <map>
#include <array>
#include <cstring>
#include <random>
#include <set>
#include "GeoHashGrid.hpp"
#include "GeoAdtree.hpp"
#include "GeoOctree.hpp"
#include "GeoRtree.hpp"
using namespace spec;
using namespace ENigMA::geometry;

namespace
{
    template <class R> CGeoBoundingBox<R> bb(V<R> a, V<R> b)
    {
        CGeoBoundingBox<R> r;
        r.addCoordinate(P(a));
        r.addCoordinate(P(b));
        return r;
    }
    inline int times(const std::vector<Integer>& s, int id)
    {
        int n = 0;
        for (auto x : s) n += x == id;
        return n;
    }
    // a random point cloud: clustered, planar, linear, duplicated points included
    template <class R> struct Cloud {
        std::mt19937 g;
        int kind;
        std::vector<V<R>> p;
        double u() { return std::uniform_real_distribution<double>(-1, 1)(g); }
        R coord(int axis, double scale)
        {
            if (kind == 1 && axis == 2) return R(0.5);           // planar
            if (kind == 2 && axis != 1) return R(-0.25);         // linear
            if (kind == 3) return R(std::floor(u() * 4) / 4);    // lattice
            if (kind == 4) return R(u() * u() * u() * scale);    // clustered
            if (kind == 5) return R(axis == 0 ? 7 : axis == 1 ? -3 : 2); // all points the same
            return R(u() * scale);
        }
        Cloud(unsigned seed, int n, double scale) : g(seed), kind(seed % 7)
        {
            for (int i = 0; i < n; ++i)
            {
                V<R> q { coord(0, scale), coord(1, scale), coord(2, scale) };
                if (i && g() % 8 == 0) q = p[g() % i];
                p.push_back(q);
            }
        }
    };
    template <class C, class T, class R> void checkPoints(C& c, T& s, const std::vector<V<R>>& p, const std::vector<int>& ids, V<R> q, R tol)
    {
        std::vector<Integer> r;
        s.find(r, P(q), tol);
        bool all = true, only = true, once = true;
        for (size_t i = 0; i < p.size(); ++i)
        {
            R d = std::sqrt(n2(p[i] - q));
            int k = times(r, ids[i]);
            if (d < tol - R(1e-9) * (R(1) + tol) && !k) all = false;
            if (d > tol + R(1e-9) * (R(1) + tol) && k) only = false;
            if (k > 1) once = false;
        }
        for (auto x : r) if (std::find(ids.begin(), ids.end(), x) == ids.end()) only = false;
        c.ensure("every point within the tolerance is found", c.is(all));
        c.ensure("no other point is reported", c.is(only));
        c.ensure("no point is reported twice", c.is(once));
    }
    template <class C, class T> void pointHistory(C& c, T& s, int maxn)
    {
        typedef typename C::R R;
        unsigned seed = c.choose("seed", 1 << 20);
        int n = 1 + c.choose("n", maxn), rounds = 1 + c.choose("rounds", 3), queries = 6;
        Cloud<R> cl(seed, 0, 1);
        std::vector<V<R>> pts;
        std::vector<int> ids;
        for (int k = 0; k < rounds; ++k)
        {
            Cloud<R> z(seed + 77 * k, n, k == 1 ? 30.0 : 2.0);
            bool fresh = (seed >> k) & 1;
            if (fresh) { s.reset(); pts.clear(); ids.clear(); }
            for (auto& x : z.p)
            {
                int id = 5000 - 3 * (int)pts.size() + (seed & 7);
                s.addGeometricObject(id, P(x));
                pts.push_back(x);
                ids.push_back(id);
            }
            s.build();
            for (int q = 0; q < queries; ++q)
            {
                V<R> x = q % 2 ? pts[z.g() % pts.size()] : V<R> { R(z.u() * 2), R(z.u() * 2), R(z.u() * 2) };
                if (q == 5) x = V<R> { R(z.u() * 200), R(z.u() * 2), R(z.u() * 200) }; // far outside
                R tol = q == 0 ? R(2.5) : q == 1 ? R(0) : q == 2 ? R(1) : q == 3 ? R(0.3) : q == 4 ? R(4) : R(190);
                checkPoints(c, s, pts, ids, x, tol);
            }
        }
    }
}

BOUNDED_CONTRACT("S01", hashgrid_line, "CGeoHashGrid::build/find", "eight points on a line in a 2x2x2 grid, one of them anywhere between the others, and two far corners; any query point on the line and tolerance")
{
    typedef typename C::R R;
    R z = R(4.5);
    int ax = c.choose("axis", 3), at = 3 * ax + 1;
    R a = c.in("a", 0, 8);
    c.branchTimeout(10);
    auto pt = [&](R x) { return ax == 0 ? v3(x, z, z) : ax == 1 ? v3(z, x, z) : v3(z, z, x); };
    const double fix[7] = { 8, 0, 3, 2.5, 7, 4, 4 };
    CGeoHashGrid<R> g;
    R x[8];
    for (int i = 0, k = 0; i < 8; ++i) { x[i] = i == at ? a : R(fix[k++]); g.addGeometricObject(90 - 7 * i, P(pt(x[i]))); }
    g.addGeometricObject(1001, CGeoCoordinate<R>(R(0), R(0), R(0)));
    g.addGeometricObject(1002, CGeoCoordinate<R>(R(8), R(8), R(8)));
    g.build();
    R q = c.in("q", -4, 12), t = c.in("t", 0, 4);
    std::vector<Integer> r;
    g.find(r, P(pt(q)), t);
    int n = 0;
    for (int i = 0; i < 8; ++i)
    {
        int k = times(r, 90 - 7 * i);
        n += k;
        typename C::B nr = c.le(x[i] - q, t) && c.le(q - x[i], t);
        c.ensure("a point is found once exactly when it is within the tolerance", k == 1 ? nr : k == 0 ? !nr : c.is(false));
    }
    c.ensure("nothing else is found", c.is((int)r.size() == n));
}
RUNTIME_CONTRACT("S01", hashgrid_history, "CGeoHashGrid::addGeometricObject/build/find/reset", "generated clouds of up to 60 points (planar, linear, coincident, clustered), up to three rounds on one object")
{
    CGeoHashGrid<typename C::R> g;
    pointHistory(c, g, 60);
}
RUNTIME_CONTRACT("S01", octree_history, "CGeoOctree::addGeometricObject/build/find/reset", "generated clouds of up to 60 points, up to three rounds on one object")
{
    CGeoOctree<typename C::R> g;
    pointHistory(c, g, 60);
}
RUNTIME_CONTRACT("S01", octree_deep, "CGeoOctree::createRecursive/findRecursive", "generated clouds of 1200 to 9000 points, so that octants split")
{
    CGeoOctree<typename C::R> g;
    typedef typename C::R R;
    unsigned seed = c.choose("seed", 1 << 20);
    Cloud<R> z(seed, 1200 + 1300 * c.choose("n", 7), 2.0);
    std::vector<int> ids;
    for (size_t i = 0; i < z.p.size(); ++i) { ids.push_back(20000 - 2 * (int)i); g.addGeometricObject(ids[i], P(z.p[i])); }
    g.build();
    for (int q = 0; q < 3; ++q) checkPoints(c, g, z.p, ids, q ? z.p[z.g() % z.p.size()] : V<R> { R(z.u() / 8), R(z.u() / 8), R(z.u() / 8) }, R(q == 0 ? 0.3 : q == 1 ? 0.05 : 0));
}

BOUNDED_CONTRACT("S01", adtree_boxes, "CGeoAdtree::addGeometricObject/find (search tree of intervals)", "four boxes and a query box, one of them removed or none, any position on one axis, any tolerance")
{
    typedef typename C::R R;
    int ax = c.choose("axis", 3);
    CGeoAdtree<R> t;
    R z0 = R(0), z1 = R(1);
    auto pt = [&](R x, R y) { return ax == 0 ? v3(x, y, y) : ax == 1 ? v3(y, x, y) : v3(y, y, x); };
    CGeoBoundingBox<R> dom = bb(pt(R(-10), z0), pt(R(10), z1));
    t.set(dom);
    R lo[4], hi[4];
    const int n = 4, id[4] = { 31, 7, 12, 88 };
    int rem = c.choose("removed", 3) - 1; // the first, the second or none is removed before the last is added
    for (int i = 0; i < n; ++i)
    {
        if (i == 3 && rem >= 0) t.removeGeometricObject(id[rem]);
        lo[i] = c.in(nm("lo", i), -10, 10);
        hi[i] = lo[i] + c.in(nm("len", i), 0, 20);
        t.addGeometricObject(id[i], bb(pt(lo[i], z0), pt(hi[i], z1)));
    }
    R ql = c.in("ql", -12, 12), qh = ql + c.in("qlen", 0, 20), tol = c.in("tol", 0, 3);
    std::vector<Integer> r;
    t.find(r, bb(pt(ql, z0), pt(qh, z1)), tol);
    int k[4];
    for (int i = 0; i < n; ++i)
    {
        k[i] = times(r, id[i]);
        typename C::B hit = c.le(lo[i], qh + tol) && c.ge(hi[i], ql - tol);
        if (i == rem) { c.ensure("a removed box is not reported", c.is(k[i] == 0)); continue; }
        c.ensure("a box is reported once exactly when it meets the query", k[i] == 1 ? hit : k[i] == 0 ? !hit : c.is(false));
    }
    c.ensure("nothing else is reported", c.is((int)r.size() == k[0] + k[1] + k[2] + k[3]));
}
namespace
{
    template <class C, class T> void boxHistory(C& c, T& t, bool adt)
    {
        typedef typename C::R R;
        unsigned seed = c.choose("seed", 1 << 20);
        int n = 1 + c.choose("n", 60);
        Cloud<R> z(seed, n, 4.0);
        std::map<int, CGeoBoundingBox<R>> alive;
        auto mk = [&](V<R> a) {
            V<R> b = V<R> { R(z.u()), R(z.u()), R(z.u()) };
            if (seed % 3 == 0) b.z = R(0);
            if (seed % 5 == 0) b = b * R(0);
            return bb(a, a + b);
        };
        auto check = [&]() {
            for (int q = 0; q < 4; ++q)
            {
                R tol = q == 3 ? R(0.5) : R(0);
                V<R> a = q % 2 ? z.p[z.g() % n] : V<R> { R(z.u() * 4), R(z.u() * 4), R(z.u() * 4) };
                CGeoBoundingBox<R> qb = q == 2 ? bb(V<R> { R(-50), R(-50), R(-50) }, V<R> { R(50), R(50), R(50) }) : mk(a);
                std::vector<Integer> r;
                r.push_back(4711); // answers of an earlier query are dropped
                t.find(r, qb, tol);
                bool ok = true, once = true;
                for (auto& x : alive)
                {
                    auto gap = [&](int k) { return std::max(x.second.min()(k) - qb.max()(k), qb.min()(k) - x.second.max()(k)); };
                    R g = std::max(gap(0), std::max(gap(1), gap(2)));
                    int k = times(r, x.first);
                    if (k > 1) once = false;
                    if (g < tol - R(1e-9) && k == 0) ok = false;
                    if (g == R(0) && tol == R(0) && k == 0) ok = false;
                    if (g > tol + R(1e-9) && k) ok = false;
                }
                bool only = true;
                for (auto x : r) if (!alive.count(x)) only = false;
                c.ensure("exactly the stored boxes that meet the query within the tolerance are reported", c.is(ok));
                c.ensure("a box is reported once", c.is(once));
                c.ensure("removed or foreign boxes are not reported", c.is(only));
            }
        };
        int id = 100 + seed % 50;
        for (int k = 0; k < n; ++k)
        {
            int op = z.g() % 10;
            if (op < 7 || alive.empty())
            {
                CGeoBoundingBox<R> b = mk(z.p[k]);
                id += 1 + z.g() % 3;
                t.addGeometricObject(id, b);
                alive[id] = b;
            }
            else if (op < 9 || seed % 4)
            {
                auto it = alive.begin();
                std::advance(it, z.g() % alive.size());
                CGeoBoundingBox<R> b = it->second;
                if (adt) t.removeGeometricObject(it->first);
                else t.removeGeometricObject(it->first, b);
                alive.erase(it);
            }
            else { t.reset(); alive.clear(); }
            if (k % 8 == 7) check();
        }
        t.build();
        check();
    }
}
RUNTIME_CONTRACT("S01", adtree_history, "CGeoAdtree::set/addGeometricObject/removeGeometricObject/reset/find", "generated histories of up to 60 operations, boxes inside and outside the domain")
{
    typedef typename C::R R;
    CGeoAdtree<R> t;
    CGeoBoundingBox<R> dom = bb(v3(R(-4), R(-4), R(-4)), v3(R(4), R(4), R(4)));
    t.set(dom);
    boxHistory(c, static_cast<CGeoContainer<CGeoBoundingBox<R>, R>&>(t), true);
}
RUNTIME_CONTRACT("S01", rtree_history, "CGeoRtree::addGeometricObject/removeGeometricObject/reset/find", "generated histories of up to 60 operations (three node levels)")
{
    CGeoRtree<typename C::R> t;
    typedef typename C::R R;
    boxHistory(c, static_cast<CGeoContainer<CGeoBoundingBox<R>, R>&>(t), false);
}
