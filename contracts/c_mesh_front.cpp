// M05: advancing front meshes tile the domain given by their boundary
#include "geo_common.hpp"
#include <algorithm>
#include <iostream>
#include <array>
#include <vector>
#include <map>
#include <random>
#include <set>
#include <functional>
#include "GeoHashGrid.hpp"
#include "GeoRtree.hpp"
#include "MshMesh.hpp"
#include "MshMeshQuery.hpp"
#include "MshBasicMesher.hpp"
#include "MshTriangleMesher.hpp"
#include "MshQuadrilateralMesher.hpp"
#include "MshTetrahedronMesher.hpp"
using namespace spec;
using namespace ENigMA::geometry;
using namespace ENigMA::mesh;

namespace
{
    struct Quiet {
        std::streambuf* o;
        Quiet() : o(std::cout.rdbuf(nullptr)) { }
        ~Quiet() { std::cout.rdbuf(o); }
    };
    template <class R> V<R> node(const CMshMesh<R>& m, int id) { return v<R>(m.node(id)); }
    template <class R> void loop(CMshMesh<R>& m, const std::vector<V<R>>& p, bool shuffled, std::mt19937& g)
    {
        int n0 = m.nextNodeId(), e0 = m.nextElementId(), n = p.size();
        for (int i = 0; i < n; ++i)
        {
            CMshNode<R> k;
            k << p[i].x, p[i].y, R(0);
            m.addNode(n0 + i, k);
        }
        std::vector<int> order;
        for (int i = 0; i < n; ++i) order.push_back(i);
        if (shuffled) std::shuffle(order.begin(), order.end(), g);
        for (int i = 0; i < n; ++i)
        {
            CMshElement<R> e(ET_BEAM);
            e.addNodeId(n0 + order[i]);
            e.addNodeId(n0 + (order[i] + 1) % n);
            m.addElement(e0 + i, e);
        }
    }
    template <class R> R area2(const std::vector<V<R>>& p)
    {
        R s(0);
        for (size_t i = 0; i < p.size(); ++i) { auto &a = p[i], &b = p[(i + 1) % p.size()]; s = s + a.x * b.y - a.y * b.x; }
        return s;
    }
    // checks a planar mesh against its boundary edges; returns the sum of element areas times two
    template <class C, class R> void tiles(C& c, CMshMesh<R>& m, CMshMesh<R>& edges, R total, R scale)
    {
        std::map<std::pair<int, int>, int> use;
        bool type = true, positive = true;
        R s(0);
        for (int i = 0; i < m.nbElements(); ++i)
        {
            auto& e = m.element(m.elementId(i));
            int n = e.nbNodeIds();
            type = type && ((e.elementType() == ET_TRIANGLE && n == 3) || (e.elementType() == ET_QUADRILATERAL && n == 4));
            std::vector<V<R>> p;
            for (int k = 0; k < n; ++k)
            {
                use[{ e.nodeId(k), e.nodeId((k + 1) % n) }]++;
                p.push_back(node(m, e.nodeId(k)));
            }
            R a = area2(p);
            if (!(a > R(0))) positive = false;
            s = s + a;
        }
        bool once = true;
        int open = 0, matched = 0;
        for (auto& u : use)
        {
            once = once && u.second == 1;
            if (use.count({ u.first.second, u.first.first })) continue;
            ++open;
            V<R> a = node(m, u.first.first), b = node(m, u.first.second);
            for (int i = 0; i < edges.nbElements(); ++i)
            {
                auto& e = edges.element(edges.elementId(i));
                if (n2(a - node(edges, e.nodeId(0))) <= R(1e-18) * scale * scale && n2(b - node(edges, e.nodeId(1))) <= R(1e-18) * scale * scale) ++matched;
            }
        }
        c.ensure("element shapes", c.is(type));
        c.ensure("every element has positive area", c.is(positive));
        c.ensure("elements meet edge to edge, one on each side", c.is(once));
        c.ensure("the free edges are exactly the given boundary", c.is(open == edges.nbElements() && matched == open));
        c.ensure("the elements cover the domain", c.is(std::fabs(s - total) <= R(1e-9) * scale * scale));
    }
    // tetrahedra face to face, positively oriented, filling the given closed surface; vol6 = six times the volume
    template <class C, class R> void tilesVolume(C& c, CMshMesh<R>& m, CMshMesh<R>& surface, R vol6)
    {
        std::map<std::array<int, 3>, std::pair<int, int>> use; // sorted face -> (even, odd) uses
        bool type = true, positive = true;
        R s(0);
        for (int i = 0; i < m.nbElements(); ++i)
        {
            auto& e = m.element(m.elementId(i));
            if (e.elementType() != ET_TETRAHEDRON || e.nbNodeIds() != 4) { type = false; continue; }
            V<R> p[4];
            int id[4];
            for (int k = 0; k < 4; ++k) p[k] = node(m, id[k] = e.nodeId(k));
            R d = -det(p[1] - p[0], p[2] - p[0], p[3] - p[0]); // the sign convention of CGeoTetrahedron
            positive = positive && d > R(0);
            s = s + d;
            static const int F[4][3] = { { 1, 2, 3 }, { 0, 3, 2 }, { 0, 1, 3 }, { 0, 2, 1 } };
            for (auto& f : F)
            {
                std::array<int, 3> k { id[f[0]], id[f[1]], id[f[2]] };
                bool odd = (k[0] > k[1]) ^ (k[0] > k[2]) ^ (k[1] > k[2]);
                std::sort(k.begin(), k.end());
                ++(odd ? use[k].second : use[k].first);
            }
        }
        bool once = true;
        int open = 0, matched = 0;
        for (auto& u : use)
        {
            once = once && u.second.first <= 1 && u.second.second <= 1;
            if (u.second.first + u.second.second != 1) continue;
            ++open;
            for (int i = 0; i < surface.nbElements(); ++i)
            {
                auto& e = surface.element(surface.elementId(i));
                int hit = 0;
                for (int a = 0; a < 3; ++a)
                    for (int b = 0; b < 3; ++b) hit += n2(node(m, u.first[a]) - node(surface, e.nodeId(b))) == R(0);
                matched += hit == 3;
            }
        }
        c.ensure("only tetrahedra", c.is(type));
        c.ensure("every tetrahedron has positive volume", c.is(positive));
        c.ensure("tetrahedra meet face to face, one on each side", c.is(once));
        c.ensure("the free faces are exactly the given surface", c.is(open == surface.nbElements() && matched == open));
        c.ensure("the tetrahedra fill the domain", c.is(std::fabs(s - vol6) <= R(1e-9) * std::fabs(vol6)));
    }
    template <class R> std::vector<V<R>> polygon(std::mt19937& g, int kind, R size)
    {
        auto u = [&] { return std::uniform_real_distribution<double>(-1, 1)(g); };
        std::vector<V<R>> p;
        int n = (kind == 2 ? 4 : 3) + g() % 7;
        double ph = 3 * u();
        for (int i = 0; i < n; ++i)
        {
            double a = ph + 2 * 3.14159265358979 * (i + (kind == 1 ? 0.2 * u() : 0)) / n, r = kind == 2 ? (i % 2 ? 1 : 0.7) : 1;
            p.push_back(V<R> { R(r * std::cos(a)) * size, R(r * std::sin(a)) * size * (kind == 1 ? R(0.7) : R(1)), R(0) });
        }
        return p;
    }
}

RUNTIME_CONTRACT("M05", triangle_mesher, "CMshTriangleMesher::remesh/generate/flipEdges/relaxNodes", "generated convex and star-shaped polygons with three to ten corners, with or without a hole, with up to two interior points")
{
    typedef typename C::R R;
    std::mt19937 g(c.choose("seed", 1 << 20));
    int kind = c.choose("kind", 3), hole = c.choose("hole", 2), again = c.choose("again", 2), inner = c.choose("inner", 3);
    Quiet quiet;
    CMshTriangleMesher<R> t;
    for (int round = 0; round <= again; ++round)
    {
        R size = R(std::exp(2 * std::uniform_real_distribution<double>(-1, 1)(g)));
        auto p = polygon<R>(g, kind, size);
        CMshMesh<R> e;
        loop(e, p, g() % 2, g);
        R total = area2(p);
        if (hole)
        {
            std::vector<V<R>> q;
            int n = 3 + g() % 4;
            for (int i = 0; i < n; ++i) q.push_back(V<R> { R(std::cos(-6.2831853 * i / n)) * size * R(0.12), R(std::sin(-6.2831853 * i / n)) * size * R(0.12), R(0) });
            loop(e, q, g() % 2, g);
            total = total + area2(q);
        }
        R h = size * R(0.15 + 0.1 * (g() % 4));
        R tol = size * R(1e-6);
        e.generateFaces(tol);
        t.remesh(e, h);
        e.generateFaces(tol);
        std::vector<CGeoCoordinate<R>> pts;
        for (int k = 0; k < inner; ++k) pts.push_back(CGeoCoordinate<R>(size * R(k ? -0.25 : 0.21), size * R(0.05), R(0)));
        bool ok = false;
        try { ok = t.generate(e, 5000, pts, h, h * R(0.1), h * R(10), tol); } catch (...) { }
        if (!hole && kind != 1 && !inner) c.ensure("a mesh is found for a regular polygon or star", c.is(ok));
        if (!ok) return; // no mesh is not a wrong mesh
        tiles(c, t.mesh(), e, total, size);
        t.flipEdges(t.mesh(), tol);
        tiles(c, t.mesh(), e, total, size);
        t.relaxNodes(t.mesh(), tol);
        tiles(c, t.mesh(), e, total, size);
    }
}

RUNTIME_CONTRACT("M05", quadrilateral_mesher, "CMshQuadrilateralMesher::remesh/generate/flipEdges", "generated rectangles of up to 12x12 cells, scaled, turned and shifted")
{
    typedef typename C::R R;
    std::mt19937 g(c.choose("seed", 1 << 20));
    int again = c.choose("again", 2);
    Quiet quiet;
    auto u = [&](double a, double b) { return std::uniform_real_distribution<double>(a, b)(g); };
    CMshQuadrilateralMesher<R> t;
    for (int round = 0; round <= again; ++round)
    {
        double h = std::exp(u(-2, 2)), th = u(-3, 3), ox = h * u(-5, 5), oy = h * u(-5, 5);
        int nu = 1 + g() % 12, nv = 1 + g() % 12;
        std::vector<V<R>> p;
        for (int k = 0; k < 4; ++k)
        {
            double x = h * nu * (k == 1 || k == 2), y = h * nv * (k >= 2);
            p.push_back(V<R> { R(ox + x * std::cos(th) - y * std::sin(th)), R(oy + x * std::sin(th) + y * std::cos(th)), R(0) });
        }
        CMshMesh<R> e;
        loop(e, p, false, g);
        R total = area2(p), tol = R(h * 1e-5), size = R(h * (nu + nv));
        e.generateFaces(tol);
        t.remesh(e, R(h));
        e.generateFaces(tol);
        c.ensure("the boundary is divided into pieces of the asked length", c.is(int(e.nbElements()) == 2 * (nu + nv)));
        std::vector<CGeoCoordinate<R>> pts;
        bool ok = false;
        try { ok = t.generate(e, 5000, pts, R(h), R(h * 0.1), R(h * 10), tol); } catch (...) { }
        c.ensure("a mesh is found", c.is(ok));
        if (!ok) return;
        tiles(c, t.mesh(), e, total, size);
        c.ensure("a rectangle gets square cells only", c.is(int(t.mesh().nbElements()) == nu * nv));
        t.flipEdges(t.mesh(), tol);
        tiles(c, t.mesh(), e, total, size);
    }
}

RUNTIME_CONTRACT("M05", tetrahedron_mesher, "CMshTetrahedronMesher::generate/relaxNodes/flipEdges23/flipEdges32", "generated triangulated boxes with up to 3x3x3 cells")
{
    typedef typename C::R R;
    std::mt19937 g(c.choose("seed", 1 << 20));
    int again = c.choose("again", 2), inner = c.choose("inner", 2);
    Quiet quiet;
    auto u = [&](double a, double b) { return std::uniform_real_distribution<double>(a, b)(g); };
    CMshTetrahedronMesher<R> t;
    for (int round = 0; round <= again; ++round)
    {
        int n[3];
        for (int& k : n) k = 1 + g() % 3;
        double s = std::exp(u(-2, 2));
        V<R> o { R(s * u(-1, 1)), R(s * u(-1, 1)), R(s * u(-1, 1)) };
        V<R> ax { R(s * n[0]), R(0), R(0) }, ay { R(s * n[1] * u(-.2, .2)), R(s * n[1]), R(0) }, az { R(s * n[2] * u(-.2, .2)), R(s * n[2] * u(-.2, .2)), R(-s * n[2]) };
        CGeoHexahedron<R> h;
        V<R> q[8] = { o, o + ax, o + ax + ay, o + ay, o + az, o + ax + az, o + ax + ay + az, o + ay + az };
        for (auto& x : q) h.addVertex(P(x));
        CMshBasicMesher<R> b;
        b.generate(h, n[0], n[1], n[2], true);
        CMshMesh<R> f = b.mesh().extractBoundary(R(s * 1e-6));
        f.generateFaces(R(s * 1e-5));
        std::vector<CGeoCoordinate<R>> pts;
        if (inner) pts.push_back(P(o + ax * R(u(.4, .6)) + ay * R(u(.4, .6)) + az * R(u(.4, .6))));
        bool ok = false;
        try { ok = t.generate(f, 5000, pts, R(s * u(.8, 1.2)), R(s * .1), R(s * 10), R(s * 1e-3)); } catch (...) { }
        if (!ok) return;
        R vol = std::fabs(det(ax, ay, az)) * R(6);
        tilesVolume(c, t.mesh(), f, vol);
        t.flipEdges23(t.mesh(), R(s * 1e-6));
        tilesVolume(c, t.mesh(), f, vol);
        t.flipEdges32(t.mesh(), R(s * 1e-6));
        tilesVolume(c, t.mesh(), f, vol);
        t.relaxNodes(t.mesh(), R(0.5), R(s * 1e-6));
        tilesVolume(c, t.mesh(), f, vol);
    }
}
