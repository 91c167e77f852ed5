// M03: structured and extruded meshes tile their domain; M04: merging, inverting, scaling, boxes, quality
#include "geo_common.hpp"
#include <algorithm>
#include <iostream>
#include <vector>
#include <map>
#include <random>
#include <set>
#include "GeoHashGrid.hpp"
#include "GeoRtree.hpp"
#include "MshMesh.hpp"
#include "MshBasicMesher.hpp"
#include "MshExtrudedMesher.hpp"
using namespace spec;
using namespace ENigMA::geometry;
using namespace ENigMA::mesh;

namespace
{
    template <class R> V<R> node(CMshMesh<R>& m, int id) { return v<R>(m.node(id)); }
    template <class R> std::vector<V<R>> corners(CMshMesh<R>& m, int i)
    {
        std::vector<V<R>> p;
        auto& e = m.element(m.elementId(i));
        for (int k = 0; k < e.nbNodeIds(); ++k) p.push_back(node(m, e.nodeId(k)));
        return p;
    }
    template <class R> R tetra(const std::vector<V<R>>& p) { return det(p[1] - p[0], p[2] - p[0], p[3] - p[0]) * (R(1) / R(6)); }
    // volume of a cell given by opposite faces 0..n-1 and n..2n-1 (exact for affine images)
    template <class R> R cell(const std::vector<V<R>>& p)
    {
        if (p.size() == 4) return tetra(p);
        int n = p.size() / 2;
        return det(p[1] - p[0], p[n - 1] - p[0], p[n] - p[0]) * (n == 3 ? R(0.5) : R(1));
    }
    // faces of the elements by node set (own table, not the library's)
    template <class R> std::map<std::vector<int>, int> faceUse(CMshMesh<R>& m)
    {
        static const std::vector<std::vector<int>> T[] = {
            {}, { { 0, 1 }, { 1, 2 }, { 2, 0 } }, { { 0, 1 }, { 1, 2 }, { 2, 3 }, { 3, 0 } },
            { { 0, 1, 2 }, { 0, 1, 3 }, { 0, 2, 3 }, { 1, 2, 3 } },
            { { 0, 1, 2 }, { 3, 4, 5 }, { 0, 1, 3, 4 }, { 1, 2, 4, 5 }, { 0, 2, 3, 5 } },
            { { 0, 1, 2, 3 }, { 4, 5, 6, 7 }, { 0, 1, 4, 5 }, { 1, 2, 5, 6 }, { 2, 3, 6, 7 }, { 0, 3, 4, 7 } }
        };
        std::map<std::vector<int>, int> n;
        for (int i = 0; i < m.nbElements(); ++i)
        {
            auto& e = m.element(m.elementId(i));
            int t = e.elementType() == ET_TRIANGLE ? 1 : e.elementType() == ET_QUADRILATERAL ? 2 : e.elementType() == ET_TETRAHEDRON ? 3 : e.elementType() == ET_TRIANGULAR_PRISM ? 4 : 5;
            for (auto& f : T[t])
            {
                std::vector<int> s;
                for (int k : f) s.push_back(e.nodeId(k));
                std::sort(s.begin(), s.end());
                n[s]++;
            }
        }
        return n;
    }
    template <class R> bool conforming(CMshMesh<R>& m, int boundary)
    {
        int b = 0;
        for (auto& f : faceUse(m))
        {
            if (f.second > 2) return false;
            b += f.second == 1;
        }
        return b == boundary;
    }
}

BOUNDED_CONTRACT("M03", basic_line, "CMshBasicMesher::generate(line)", "up to eight divisions, any end points")
{
    typedef typename C::R R;
    int nu = 1 + c.choose("nu", 8);
    V<R> a = vec(c, "a"), b = vec(c, "b");
    c.require(n2(b - a) > R(0));
    CGeoLine<R> l(P(a), P(b));
    CMshBasicMesher<R> g;
    if (c.choose("reuse", 2)) g.generate(l, 2);
    g.generate(l, nu);
    auto& m = g.mesh();
    c.ensure("counts", c.is(m.nbNodes() == nu + 1 && m.nbElements() == nu));
    for (int i = 0; i <= nu; ++i) c.ensure("nodes divide the line evenly", eqv(c, node(m, i), a + (b - a) * (R(i) / R(nu)), 10));
    for (int i = 0; i < nu; ++i)
    {
        auto& e = m.element(m.elementId(i));
        c.ensure("elements join consecutive nodes", c.is(e.elementType() == ET_BEAM && e.nbNodeIds() == 2 && e.nodeId(0) == i && e.nodeId(1) == i + 1));
    }
    c.ensure("mesh size", m.dx() > R(0) && c.eq(m.dx() * m.dx() * R(nu * nu), n2(b - a), 10));
}
BOUNDED_CONTRACT("M03", basic_quad, "CMshBasicMesher::generate(quadrilateral)", "up to four divisions each way, any parallelogram")
{
    typedef typename C::R R;
    int nu = 1 + c.choose("nu", 4), nv = 1 + c.choose("nv", 4), tri = c.choose("decimate", 2);
    V<R> o = vec(c, "o"), a = vec(c, "a"), b = vec(c, "b");
    c.require(n2(a) > R(0));
    c.require(n2(b) > R(0));
    CGeoQuadrilateral<R> q;
    q.addVertex(P(o)); q.addVertex(P(o + a)); q.addVertex(P(o + a + b)); q.addVertex(P(o + b));
    CMshBasicMesher<R> g;
    g.generate(q, nu, nv, tri);
    auto& m = g.mesh();
    c.ensure("counts", c.is(m.nbNodes() == (nu + 1) * (nv + 1) && m.nbElements() == nu * nv * (tri ? 2 : 1)));
    for (int i = 0; i <= nu; ++i) for (int j = 0; j <= nv; ++j)
        c.ensure("nodes form the regular grid", eqv(c, node(m, m.nodeId(j * (nu + 1) + i)), o + a * (R(i) / R(nu)) + b * (R(j) / R(nv)), 10));
    c.ensure("elements meet edge to edge", c.is(conforming(m, 2 * (nu + nv))));
    V<R> cell = cross(a, b) * (R(1) / R(nu * nv * (tri ? 2 : 1)));
    for (int i = 0; i < m.nbElements(); ++i)
    {
        auto p = corners(m, i);
        bool ok = m.element(m.elementId(i)).elementType() == (tri ? ET_TRIANGLE : ET_QUADRILATERAL) && p.size() == (tri ? 3 : 4);
        c.ensure("element type", c.is(ok));
        V<R> w = tri ? cross(p[1] - p[0], p[2] - p[0]) * R(0.5) : cross(p[2] - p[0], p[3] - p[1]) * R(0.5);
        c.ensure("elements have equal area and the orientation of the domain", eqv(c, w, cell, 10));
        if (!tri) c.ensure("cells are parallelograms", eqv(c, p[2] - p[1], p[3] - p[0], 10));
    }
    c.ensure("mesh sizes", m.dx() > R(0) && m.dy() > R(0) && c.eq(m.dx() * m.dx() * R(nu * nu), n2(a), 10) && c.eq(m.dy() * m.dy() * R(nv * nv), n2(b), 10));
}
BOUNDED_CONTRACT("M03", basic_hexa, "CMshBasicMesher::generate(hexahedron)", "up to three divisions each way, any parallelepiped")
{
    typedef typename C::R R;
    int nu = 1 + c.choose("nu", 3), nv = 1 + c.choose("nv", 3), nw = 1 + c.choose("nw", 3), tet = c.choose("decimate", 2);
    V<R> o = vec(c, "o"), a = vec(c, "a"), b = vec(c, "b"), h = vec(c, "h");
    c.require(n2(a) > R(0));
    c.require(n2(b) > R(0));
    c.require(n2(h) > R(0));
    CGeoHexahedron<R> q;
    for (auto& x : { o, o + a, o + a + b, o + b, o + h, o + a + h, o + a + b + h, o + b + h }) q.addVertex(P(x));
    CMshBasicMesher<R> g;
    g.generate(q, nu, nv, nw, tet);
    auto& m = g.mesh();
    c.ensure("counts", c.is(m.nbNodes() == (nu + 1) * (nv + 1) * (nw + 1) && m.nbElements() == nu * nv * nw * (tet ? 6 : 1)));
    for (int k = 0; k <= nw; ++k) for (int i = 0; i <= nu; ++i) for (int j = 0; j <= nv; ++j)
        c.ensure("nodes form the regular grid", eqv(c, node(m, m.nodeId((k * (nv + 1) + j) * (nu + 1) + i)), o + a * (R(i) / R(nu)) + b * (R(j) / R(nv)) + h * (R(k) / R(nw)), 10));
    c.ensure("elements meet face to face", c.is(conforming(m, 2 * (nu * nv + nv * nw + nw * nu) * (tet ? 2 : 1))));
    R vol = det(a, b, h) * (R(1) / R(nu * nv * nw * (tet ? 6 : 1)));
    for (int i = 0; i < m.nbElements(); ++i)
    {
        auto p = corners(m, i);
        bool ok = m.element(m.elementId(i)).elementType() == (tet ? ET_TETRAHEDRON : ET_HEXAHEDRON) && p.size() == (tet ? 4 : 8);
        c.ensure("element type", c.is(ok));
        c.ensure("elements have equal volume and the orientation of the domain", c.eq(tet ? tetra(p) : cell(p), vol, 100));
        if (!tet)
            for (int k = 0; k < 4; ++k) c.ensure("top above base", eqv(c, p[4 + k] - p[k], h * (R(1) / R(nw)), 10));
        if (!tet) c.ensure("base is a parallelogram", eqv(c, p[2] - p[1], p[3] - p[0], 10));
    }
    c.ensure("mesh sizes", m.dx() > R(0) && m.dy() > R(0) && m.dz() > R(0) && c.eq(m.dx() * m.dx() * R(nu * nu), n2(a), 10) && c.eq(m.dy() * m.dy() * R(nv * nv), n2(b), 10) && c.eq(m.dz() * m.dz() * R(nw * nw), n2(h), 10));
}
RUNTIME_CONTRACT("M03", basic_large, "CMshBasicMesher::generate (quadrilateral, hexahedron, bounding box)", "generated parallelepipeds and boxes with up to nine divisions each way")
{
    typedef typename C::R R;
    int nu = 1 + c.choose("nu", 9), nv = 1 + c.choose("nv", 9), nw = 1 + c.choose("nw", 9), tet = c.choose("decimate", 2), how = c.choose("how", 3);
    CMshBasicMesher<R> g;
    auto& m = g.mesh();
    V<R> o = vec(c, "o"), a = vec(c, "a"), b = vec(c, "b"), h = vec(c, "h");
    if (how == 0)
    {
        nw = 0;
        c.require(n2(a) > R(1e-3));
        c.require(n2(b) > R(1e-3));
        CGeoQuadrilateral<R> q;
        q.addVertex(P(o)); q.addVertex(P(o + a)); q.addVertex(P(o + a + b)); q.addVertex(P(o + b));
        g.generate(q, nu, nv, tet);
        c.ensure("counts", c.is(m.nbNodes() == (nu + 1) * (nv + 1) && m.nbElements() == nu * nv * (tet ? 2 : 1)));
        c.ensure("elements meet edge to edge", c.is(conforming(m, 2 * (nu + nv))));
        a = a * (R(1) / R(nu));
        b = b * (R(1) / R(nv));
    }
    else if (how == 1)
    {
        c.require(n2(a) > R(1e-3));
        c.require(n2(b) > R(1e-3));
        c.require(n2(h) > R(1e-3));
        CGeoHexahedron<R> q;
        for (auto& x : { o, o + a, o + a + b, o + b, o + h, o + a + h, o + a + b + h, o + b + h }) q.addVertex(P(x));
        g.generate(q, nu, nv, nw, tet);
        a = a * (R(1) / R(nu));
        b = b * (R(1) / R(nv));
        h = h * (R(1) / R(nw));
    }
    else
    {
        R s = c.in("size", 0.05, 3);
        R f[3] = { c.in("fu", 0.05, 0.95), c.in("fv", 0.05, 0.95), c.in("fw", 0.05, 0.95) };
        CGeoBoundingBox<R> box;
        box.addCoordinate(P(o));
        box.addCoordinate(P(o + V<R> { s * (R(nu) + f[0]), s * (R(nv) + f[1]), s * (R(nw) + f[2]) }));
        g.generate(box, s, tet);
        a = V<R> { s, R(0), R(0) };
        b = V<R> { R(0), s, R(0) };
        h = V<R> { R(0), R(0), s };
        c.ensure("mesh sizes", c.eq(m.dx(), s, 10) && c.eq(m.dy(), s, 10) && c.eq(m.dz(), s, 10));
    }
    if (how)
    {
        c.ensure("counts", c.is(m.nbNodes() == (nu + 1) * (nv + 1) * (nw + 1) && m.nbElements() == nu * nv * nw * (tet ? 6 : 1)));
        c.ensure("elements meet face to face", c.is(conforming(m, 2 * (nu * nv + nv * nw + nw * nu) * (tet ? 2 : 1))));
    }
    if (m.nbNodes() != (nu + 1) * (nv + 1) * (nw + 1)) return;
    R worst(0), scale = R(1) + std::sqrt(n2(o)) + R(9) * (std::sqrt(n2(a)) + std::sqrt(n2(b)) + std::sqrt(n2(h)));
    for (int k = 0; k <= nw; ++k) for (int i = 0; i <= nu; ++i) for (int j = 0; j <= nv; ++j)
    {
        R d = std::sqrt(n2(node(m, m.nodeId((k * (nv + 1) + j) * (nu + 1) + i)) - (o + a * R(i) + b * R(j) + h * R(k))));
        if (d > worst) worst = d;
    }
    c.ensure("nodes form the regular grid", worst <= R(1e-9) * scale);
    worst = R(0);
    V<R> w2 = cross(a, b) * R(tet ? 0.5 : 1);
    R w3 = det(a, b, h) * R(tet ? 1. / 6 : 1);
    for (int i = 0; i < m.nbElements(); ++i)
    {
        auto p = corners(m, i);
        R d = how ? R(std::fabs(cell(p) - w3)) : R(std::sqrt(n2((tet ? cross(p[1] - p[0], p[2] - p[0]) : cross(p[2] - p[0], p[3] - p[1])) * R(0.5) - w2)));
        if (d > worst) worst = d;
    }
    c.ensure("elements have equal measure and the orientation of the domain", worst <= R(1e-9) * scale * scale * scale);
}
RUNTIME_CONTRACT("M03", extruded, "CMshExtrudedMesher::generate", "generated planar and folded surfaces of triangles or quadrilaterals, up to three layers of either sign")
{
    typedef typename C::R R;
    std::mt19937 g(c.choose("seed", 1 << 20));
    auto u = [&] { return std::uniform_real_distribution<double>(-1, 1)(g); };
    int nu = 1 + g() % 3, nv = 1 + g() % 3, tri = c.choose("triangles", 2), flat = c.choose("flat", 2), layers = 1 + g() % 3;
    V<R> o = vec(c, "o"), a = vec(c, "a"), b = vec(c, "b");
    c.require(n2(cross(a, b)) > R(0.05) * n2(a) * n2(b));
    c.require(n2(a) > R(0.01) && n2(b) > R(0.01));
    R size = std::sqrt(n2(a)) + std::sqrt(n2(b));
    CMshMesh<R> s;
    V<R> nrm = cross(a, b);
    nrm = nrm * (R(1) / std::sqrt(n2(nrm)));
    bool ids = g() % 2;
    auto id = [&](int i, int j) { int k = j * (nu + 1) + i; return ids ? 100 - 3 * k : k; };
    for (int j = 0; j <= nv; ++j) for (int i = 0; i <= nu; ++i)
    {
        R lift = flat ? R(0) : R(0.1 * u()) * size / R(nu + nv);
        V<R> p = o + a * (R(i) / R(nu)) + b * (R(j) / R(nv)) + nrm * lift;
        CMshNode<R> n;
        n << p.x, p.y, p.z;
        s.addNode(id(i, j), n);
    }
    int ne = 0;
    for (int j = 0; j < nv; ++j) for (int i = 0; i < nu; ++i)
    {
        std::vector<std::vector<int>> el = { { id(i, j), id(i + 1, j), id(i + 1, j + 1), id(i, j + 1) } };
        if (tri) el = { { el[0][0], el[0][1], el[0][2] }, { el[0][0], el[0][2], el[0][3] } };
        for (auto& n : el)
        {
            CMshElement<R> e(tri ? ET_TRIANGLE : ET_QUADRILATERAL);
            for (int k : n) e.addNodeId(k);
            s.addElement(ids ? 50 - ne : 7 + ne, e);
            ++ne;
        }
    }
    CMshExtrudedMesher<R> x;
    R total(0), tol = R(1e-9) * (R(1) + size + std::sqrt(n2(o)));
    for (int l = 0; l < layers; ++l)
    {
        R d = R(u()) * size * R(0.3);
        CMshMesh<R> before;
        before = s;
        // unit averages of the element normals at every node
        std::map<int, V<R>> dir;
        for (int i = 0; i < s.nbElements(); ++i)
        {
            auto p = corners(s, i);
            V<R> w = cross(p[1] - p[0], p[2] - p[0]);
            w = w * (R(1) / std::sqrt(n2(w)));
            auto& e = s.element(s.elementId(i));
            for (int k = 0; k < e.nbNodeIds(); ++k)
            {
                auto it = dir.find(e.nodeId(k));
                if (it == dir.end()) dir[e.nodeId(k)] = w;
                else it->second = it->second + w;
            }
        }
        std::map<int, V<R>> top;
        for (auto& k : dir) top[k.first] = node(before, k.first) - k.second * (d / std::sqrt(n2(k.second)));
        int n0 = x.mesh().nbNodes(), e0 = x.mesh().nbElements(), per = tri ? 3 : 4;
        x.generate(s, d, R(1e-6));
        auto& m = x.mesh();
        c.ensure("one prism or hexahedron is added for every surface element", c.is(m.nbElements() == e0 + s.nbElements() && m.nbNodes() == n0 + 2 * per * s.nbElements()));
        bool shape = true, surf = true, type = true;
        for (int i = 0; i < s.nbElements() && e0 + i < m.nbElements(); ++i)
        {
            auto p = corners(m, e0 + i);
            auto& e = before.element(before.elementId(i));
            type = type && m.element(m.elementId(e0 + i)).elementType() == (tri ? ET_TRIANGULAR_PRISM : ET_HEXAHEDRON) && (int)p.size() == 2 * per;
            if (!type) break;
            for (int k = 0; k < per; ++k)
            {
                shape = shape && n2(p[k] - node(before, e.nodeId(k))) <= tol * tol;
                shape = shape && n2(p[per + k] - top[e.nodeId(k)]) <= tol * tol;
            }
            if (flat) total = total + std::fabs(cell(p));
        }
        for (auto& k : top) surf = surf && n2(node(s, k.first) - k.second) <= tol * tol;
        c.ensure("element types", c.is(type));
        c.ensure("each lies between the surface element and its copy moved along the node normals, corner above corner", c.is(shape));
        c.ensure("the surface mesh moves to the new layer", c.is(surf));
    }
}

RUNTIME_CONTRACT("M04", merge_nodes, "CMshMesh::mergeNodes/removeInvalidElements", "generated meshes of separate cells whose corners coincide, exactly or within the tolerance, with ids in any order")
{
    typedef typename C::R R;
    std::mt19937 g(c.choose("seed", 1 << 20));
    auto u = [&] { return std::uniform_real_distribution<double>(-1, 1)(g); };
    int nx = 1 + g() % 4, ny = 1 + g() % 3, exact = c.choose("exact", 2), faces = g() % 2, degenerate = g() % 3 == 0;
    R h = R(std::exp(3 * u())), tol = exact ? (g() % 2 ? R(0) : h * R(0.01)) : h * R(0.01), off = exact ? R(0) : tol * R(0.49) / R(std::sqrt(3.0));
    CMshMesh<R> m;
    // every quadrilateral has its own corners
    std::vector<int> ids;
    for (int i = 0; i < 4 * nx * ny; ++i) ids.push_back(5 + 2 * i);
    if (g() % 2) std::shuffle(ids.begin(), ids.end(), g);
    int at = 0, ne = 0;
    std::map<int, std::pair<int, int>> site; // lattice point of every node
    std::vector<std::vector<std::pair<int, int>>> want;
    for (int j = 0; j < ny; ++j) for (int i = 0; i < nx; ++i)
    {
        CMshElement<R> e(ET_QUADRILATERAL);
        CMshFace<R> f(FT_QUADRILATERAL);
        want.emplace_back();
        for (auto& k : std::vector<std::pair<int, int>> { { i, j }, { i + 1, j }, { i + 1, j + 1 }, { i, j + 1 } })
        {
            auto q = k;
            if (degenerate && i == 0 && j == 0 && k.first == 1 && k.second == 0) q = { 0, 0 };
            CMshNode<R> n;
            n << h * R(q.first) + off * R(u()), h * R(q.second) + off * R(u()), off * R(u());
            site[ids[at]] = q;
            m.addNode(ids[at], n);
            e.addNodeId(ids[at]);
            f.addNodeId(ids[at]);
            want.back().push_back(q);
            ++at;
        }
        m.addElement(90 - 7 * ne, e);
        if (faces) { f.setElementId(90 - 7 * ne); m.addFace(3 * ne, f); }
        ++ne;
    }
    CMshMesh<R> before;
    before = m;
    m.mergeNodes(tol);
    // one node per lattice point, the one with the smallest id
    std::map<std::pair<int, int>, int> lowest;
    for (auto& s : site) if (!lowest.count(s.second) || s.first < lowest[s.second]) lowest[s.second] = s.first;
    std::set<int> keep, got;
    for (auto& l : lowest) keep.insert(l.second);
    bool ok = true, place = true, ref = true;
    for (int i = 0; i < m.nbNodes(); ++i)
    {
        got.insert(m.nodeId(i));
        place = place && m.nodeIndex(m.nodeId(i)) == i && n2(node(m, m.nodeId(i)) - node(before, m.nodeId(i))) == R(0);
    }
    c.ensure("of the nodes at one place exactly one remains, which keeps its position", c.is(got.size() == lowest.size() && (int)got.size() == m.nbNodes() && place));
    std::set<std::pair<int, int>> sites;
    for (int k : got) sites.insert(site[k]);
    c.ensure("and one remains at every place", c.is(sites.size() == lowest.size()));
    int n = 0;
    for (int q = 0; q < ne; ++q)
    {
        std::set<std::pair<int, int>> distinct(want[q].begin(), want[q].end());
        bool valid = distinct.size() == 4, found = false;
        for (int i = 0; i < m.nbElements(); ++i) if (m.elementId(i) == 90 - 7 * q) found = true;
        ok = ok && found == valid;
        n += valid;
        if (!found) continue;
        auto& e = m.element(90 - 7 * q);
        for (int k = 0; k < 4; ++k) ref = ref && got.count(e.nodeId(k)) && site[e.nodeId(k)] == want[q][k];
        if (faces) for (int k = 0; k < 4; ++k) ref = ref && got.count(m.face(3 * q).nodeId(k)) && site[m.face(3 * q).nodeId(k)] == want[q][k];
        ok = ok && e.elementType() == ET_QUADRILATERAL && e.nbNodeIds() == 4;
    }
    c.ensure("elements and faces refer to the remaining node at the same place", c.is(ref));
    c.ensure("exactly the elements with coinciding corners are removed", c.is(ok && m.nbElements() == n));
}
BOUNDED_CONTRACT("M04", scale_box, "CMshMesh::scale/boundingBox/invert", "meshes of three nodes, any coordinates and factor")
{
    typedef typename C::R R;
    CMshMesh<R> m;
    std::vector<V<R>> p;
    for (int k = 0; k < 3; ++k)
    {
        p.push_back(vec(c, nm("p", k)));
        CMshNode<R> n;
        n << p[k].x, p[k].y, p[k].z;
        m.addNode(4 - k, n);
    }
    CMshElement<R> e(ET_TRIANGLE);
    for (int k = 0; k < 3; ++k) e.addNodeId(4 - k);
    m.addElement(7, e);
    int what = c.choose("what", 3);
    if (what == 0)
    {
        R f = c.real("factor");
        m.scale(f);
        for (int k = 0; k < 3; ++k) c.ensure("every node is scaled about the origin", eqv(c, node(m, 4 - k), p[k] * f, 10));
    }
    else if (what == 1)
    {
        auto b = c.choose("element", 2) ? m.boundingBox(7) : m.boundingBox();
        auto lo = v<R>(b.min()), hi = v<R>(b.max());
        R V<R>::*ax[] = { &V<R>::x, &V<R>::y, &V<R>::z };
        for (auto a : ax)
        {
            c.ensure("the box contains every node", lo.*a <= p[0].*a && lo.*a <= p[1].*a && lo.*a <= p[2].*a && hi.*a >= p[0].*a && hi.*a >= p[1].*a && hi.*a >= p[2].*a);
            c.ensure("the box is tight", (lo.*a == p[0].*a || lo.*a == p[1].*a || lo.*a == p[2].*a) && (hi.*a == p[0].*a || hi.*a == p[1].*a || hi.*a == p[2].*a));
        }
    }
    else
    {
        m.invert();
        auto q = corners(m, 0);
        c.ensure("inverting reverses the orientation", eqv(c, cross(q[1] - q[0], q[2] - q[0]), cross(p[1] - p[0], p[2] - p[0]) * R(-1), 10));
        m.invert();
        q = corners(m, 0);
        for (int k = 0; k < 3; ++k) c.ensure("twice is nothing", eqv(c, q[k], p[k], 10));
    }
}
CONTRACT("M04", quality_quad, "CMshQuadrilateral::calculateQuality, CMshMesh::quality")
{
    typedef typename C::R R;
    // planar quadrilaterals in convex position: 2 A <= sum of products of adjacent sides
    V<R> o = vec(c, "o"), a = vec(c, "a"), b = vec(c, "b");
    R s = c.in("s", -4, 4), t = c.in("t", -4, 4);
    c.require(s > R(0));
    c.require(t > R(0));
    c.require(s + t > R(1));
    V<R> n = cross(a, b);
    c.require(n2(n) > R(0));
    V<R> p[] = { o, o + a, o + a * s + b * t, o + b };
    CMshQuadrilateral<R> q;
    for (auto& x : p) q.addVertex(P(x));
    q.calculateQuality();
    R sides = n2(p[1] - p[0]) + n2(p[2] - p[1]) + n2(p[3] - p[2]) + n2(p[0] - p[3]);
    R x = q.quality();
    c.ensure("is four times the area over the sum of squared sides", x >= R(0) && c.eq(x * x * sides * sides, R(4) * n2(cross(p[2] - p[0], p[3] - p[1])), 1e3));
}
CONTRACT("M04", quality_quad_bound, "CMshQuadrilateral::calculateQuality")
{
    typedef typename C::R R;
    // in the plane z = 0 (rotation does not matter, see quality_quad)
    R ax = c.real("ax"), bx = c.real("bx"), by = c.real("by"), cx = c.real("cx"), cy = c.real("cy");
    V<R> p[] = { { R(0), R(0), R(0) }, { ax, R(0), R(0) }, { bx, by, R(0) }, { cx, cy, R(0) } };
    R sides = n2(p[1] - p[0]) + n2(p[2] - p[1]) + n2(p[3] - p[2]) + n2(p[0] - p[3]);
    V<R> w = cross(p[2] - p[0], p[3] - p[1]);
    c.require(n2(w) > R(0));
    CMshQuadrilateral<R> q;
    for (auto& x : p) q.addVertex(P(x));
    q.calculateQuality();
    // twice the area is at most half the sum of squared sides
    c.lemma("isoperimetric", R(2) * std::fabs(w.z) <= sides + R(1e-9) * sides);
    c.ensure("is at most one", q.quality() <= R(1) + R(1e-9));
}
RUNTIME_CONTRACT("M04", quality, "CMshTriangle/CMshQuadrilateral/CMshTetrahedron/CMshTriangularPrism::calculateQuality, CMshMesh::quality/meshQuality", "generated element shapes from regular to degenerate, at any size")
{
    typedef typename C::R R;
    std::mt19937 g(c.choose("seed", 1 << 20));
    auto u = [&] { return std::uniform_real_distribution<double>(-1, 1)(g); };
    auto rv = [&] { return V<R> { R(u()), R(u()), R(u()) }; };
    CMshMesh<R> m;
    std::vector<R> want;
    int n = 1 + g() % 5, nn = 0;
    bool ok = true, range = true;
    auto tri = [&](V<R> a, V<R> b, V<R> d) { // 2 r / R = 8 area^2 ... over the sides
        R x = std::sqrt(n2(b - a)), y = std::sqrt(n2(d - b)), z = std::sqrt(n2(a - d)), s = std::sqrt(n2(cross(b - a, d - a)));
        return R(4) * s * s / (x * y * z * (x + y + z));
    };
    for (int i = 0; i < n; ++i)
    {
        int kind = g() % 5;
        R sc = R(std::exp(4 * u()));
        std::vector<V<R>> p;
        EElementType t = ET_TRIANGLE;
        R q(1);
        V<R> o = rv() * R(3), a = rv(), b = rv(), h = rv();
        // keep clear of the zero-length guard of CGeoVector::angle
        if (n2(a) < R(0.01)) a.x = a.x + R(1);
        if (n2(b) < R(0.01)) b.y = b.y + R(1);
        if (n2(b - a) < R(0.01)) b.z = b.z + R(1);
        if (g() % 4 == 0) { a = V<R> { R(1), R(0), R(0) }; b = V<R> { R(0.5), R(std::sqrt(3.0) / 2), R(0) }; h = V<R> { R(0.5), R(std::sqrt(3.0) / 6), R(std::sqrt(2.0 / 3)) }; }
        a = a * sc; b = b * sc; h = h * sc;
        if (kind == 0) { p = { o, o + a, o + b }; q = tri(p[0], p[1], p[2]); }
        if (kind == 1)
        {
            t = ET_QUADRILATERAL;
            R s1 = R(0.6 + 0.4 * u()), s2 = R(1.6 + 0.4 * u()) - s1;
            p = { o, o + a, o + a * s1 + b * s2, o + b };
            R sides = n2(p[1] - p[0]) + n2(p[2] - p[1]) + n2(p[3] - p[2]) + n2(p[0] - p[3]);
            q = R(2) * std::sqrt(n2(cross(p[2] - p[0], p[3] - p[1]))) / sides;
        }
        if (kind == 2)
        {
            t = ET_TETRAHEDRON;
            p = { o, o + a, o + b, o + h };
            R L(0), S(0);
            for (int x = 0; x < 4; ++x)
            {
                for (int y = 0; y < x; ++y) L = std::max(L, R(std::sqrt(n2(p[x] - p[y]))));
                V<R> f[3];
                for (int y = 0, k = 0; y < 4; ++y) if (y != x) f[k++] = p[y];
                S = S + std::sqrt(n2(cross(f[1] - f[0], f[2] - f[0]))) * R(0.5);
            }
            q = R(6 * std::sqrt(6.0)) * std::fabs(tetra(p)) / (S * L);
        }
        if (kind == 3)
        {
            t = ET_TRIANGULAR_PRISM;
            V<R> o2 = o + h;
            p = { o, o + a, o + b, o2, o2 + a * R(2), o2 + b };
            q = (tri(p[0], p[1], p[2]) + tri(p[3], p[4], p[5])) * R(0.5);
        }
        if (kind == 4) { t = ET_HEXAHEDRON; p = { o, o + a, o + b, o + h, o + a, o + b, o + h, o }; q = R(1); }
        CMshElement<R> e(t);
        for (auto& x : p)
        {
            CMshNode<R> k;
            k << x.x, x.y, x.z;
            m.addNode(nn, k);
            e.addNodeId(nn++);
        }
        m.addElement(3 * i, e);
        want.push_back(q);
        R got = m.quality(3 * i);
        ok = ok && std::fabs(got - q) <= R(1e-6);
        range = range && got >= R(0) && got <= R(1) + R(1e-9);
    }
    c.ensure("triangle quality is twice the ratio of inner to outer radius, tetrahedron quality the scaled volume over surface and longest edge", c.is(ok));
    c.ensure("qualities lie between zero and one", c.is(range));
    R lo, hi, av, s(0), mn(1), mx(0);
    m.meshQuality(lo, hi, av);
    for (auto q : want) { s = s + q; mn = std::min(mn, q); mx = std::max(mx, q); }
    c.ensure("mesh quality is the minimum, maximum and average over the elements", c.is(std::fabs(lo - mn) <= R(1e-6) && std::fabs(hi - mx) <= R(1e-6) && std::fabs(av - s / R(n)) <= R(1e-6)));
}
