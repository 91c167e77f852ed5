#include "geo_common.hpp"
#include <set>
#include "StlUtils.hpp"
#include <sys/stat.h>
#include <unistd.h>
using namespace spec;
using namespace ENigMA::geometry;
using namespace ENigMA::mesh;
using namespace ENigMA::stl;

namespace
{
    typedef V<double> Pt;
    typedef CStlUtils<double> Stl;
    Pt pt(const CGeoCoordinate<double>& a) { return v3(a.x(), a.y(), a.z()); }
    bool same(const Pt& a, const Pt& b, double t = 1e-9) { return n2(a - b) <= t * t; }

    struct Gen {
        std::mt19937 g;
        std::vector<Pt> nodes;
        std::vector<std::array<int, 3>> tri;
        std::vector<int> ids;
        bool closed;
        Gen(int seed) : g(seed + 5) { }
        double U(double lo, double hi) { return std::uniform_real_distribution<double>(lo, hi)(g); }
        int node(std::map<std::array<int, 3>, int>& at, int i, int j, int k, int n, double shake)
        {
            std::array<int, 3> key = { i, j, k };
            auto f = at.find(key);
            if (f != at.end()) return f->second;
            Pt p = v3(double(i), double(j), double(k));
            bool bi = i % n == 0, bj = j % n == 0, bk = k % n == 0;
            if (!bi) p.x += U(-shake, shake);
            if (!bj) p.y += U(-shake, shake);
            if (!bk) p.z += U(-shake, shake);
            at[key] = int(nodes.size());
            nodes.push_back(p);
            return at[key];
        }
        void quad(int a, int b, int c, int d)
        {
            if (g() % 2) tri.push_back({ a, b, c }), tri.push_back({ a, c, d });
            else tri.push_back({ a, b, d }), tri.push_back({ b, c, d });
        }
        // surface of a box, outward, or a patch in a plane; nodes shaken in their faces
        void surface(bool c, int n, double shake, double bend)
        {
            closed = c;
            std::map<std::array<int, 3>, int> at;
            auto N = [&](int i, int j, int k) { return node(at, i, j, k, n, shake); };
            for (int i = 0; i < n; ++i)
                for (int j = 0; j < n; ++j)
                {
                    quad(N(i, j, n), N(i + 1, j, n), N(i + 1, j + 1, n), N(i, j + 1, n));
                    if (!c) continue;
                    quad(N(i, j, 0), N(i, j + 1, 0), N(i + 1, j + 1, 0), N(i + 1, j, 0));
                    quad(N(n, i, j), N(n, i + 1, j), N(n, i + 1, j + 1), N(n, i, j + 1));
                    quad(N(0, i, j), N(0, i, j + 1), N(0, i + 1, j + 1), N(0, i + 1, j));
                    quad(N(i, n, j), N(i, n, j + 1), N(i + 1, n, j + 1), N(i + 1, n, j));
                    quad(N(i, 0, j), N(i + 1, 0, j), N(i + 1, 0, j + 1), N(i, 0, j + 1));
                }
            place(bend);
        }
        // facets around a vertex: a full or open fan, or two cones on one rim
        void fan(int n, int kind)
        {
            closed = kind == 2;
            nodes.push_back(v3(0.0, 0.0, 1.0));
            for (int i = 0; i < n + (kind == 1); ++i) nodes.push_back(v3(std::cos(6.2831853 * i / (n + 1.0)), std::sin(6.2831853 * i / (n + 1.0)), 0.0));
            if (kind == 2) nodes.push_back(v3(0.0, 0.0, -1.0));
            for (int i = 0; i < n; ++i)
            {
                int j = kind == 1 ? i + 1 : (i + 1) % n;
                tri.push_back({ 0, 1 + i, 1 + j });
                if (kind == 2) tri.push_back({ n + 1, 1 + j, 1 + i });
            }
            place(0);
        }
        void place(double bend)
        {
            // any placement
            double q[4] = { U(-1, 1), U(-1, 1), U(-1, 1), U(0.1, 1) }, l = q[0] * q[0] + q[1] * q[1] + q[2] * q[2] + q[3] * q[3];
            Pt e[3] = { v3(q[0] * q[0] + q[1] * q[1] - q[2] * q[2] - q[3] * q[3], 2 * (q[1] * q[2] + q[0] * q[3]), 2 * (q[1] * q[3] - q[0] * q[2])), v3(2 * (q[1] * q[2] - q[0] * q[3]), q[0] * q[0] - q[1] * q[1] + q[2] * q[2] - q[3] * q[3], 2 * (q[2] * q[3] + q[0] * q[1])), v3(2 * (q[1] * q[3] + q[0] * q[2]), 2 * (q[2] * q[3] - q[0] * q[1]), q[0] * q[0] - q[1] * q[1] - q[2] * q[2] + q[3] * q[3]) };
            Pt o = v3(U(-5, 5), U(-5, 5), U(-5, 5));
            for (auto& p : nodes)
            {
                Pt s = p + v3(U(-bend, bend), U(-bend, bend), U(-bend, bend));
                p = o + (e[0] * s.x + e[1] * s.y + e[2] * s.z) * (1 / l);
            }
            std::shuffle(tri.begin(), tri.end(), g);
            for (auto& t : tri) std::rotate(t.begin(), t.begin() + g() % 3, t.end());
            std::set<int> u;
            bool dense = g() % 2;
            while (u.size() < tri.size()) u.insert(dense ? int(u.size()) : int(g() % (4 * tri.size())));
            ids.assign(u.begin(), u.end());
            std::shuffle(ids.begin(), ids.end(), g);
        }
        void turnSome()
        {
            for (auto& t : tri)
                if (g() % 3 == 0) std::swap(t[0], t[1]);
        }
        Stl stl()
        {
            Stl s;
            for (size_t i = 0; i < tri.size(); ++i)
            {
                CStlFacet<double> f;
                for (int k : tri[i]) f.addVertex(CGeoCoordinate<double>(nodes[k].x, nodes[k].y, nodes[k].z));
                s.addFacet(ids[i], f);
            }
            return s;
        }
        // the facet across each edge, by nodes: id and the vertex not on the edge
        std::map<std::pair<int, int>, std::pair<int, int>> across()
        {
            std::map<std::pair<int, int>, std::pair<int, int>> r;
            std::map<std::pair<int, int>, std::vector<std::pair<int, int>>> e;
            for (size_t i = 0; i < tri.size(); ++i)
                for (int k = 0; k < 3; ++k) e[std::minmax(tri[i][k], tri[i][(k + 1) % 3])].push_back({ int(i), k });
            for (auto& x : e)
                for (int k = 0; k < 2 && x.second.size() == 2; ++k) r[{ ids[x.second[k].first], x.second[k].second }] = { ids[x.second[1 - k].first], (x.second[1 - k].second + 2) % 3 };
            return r;
        }
    };
    std::vector<int> idsOf(Stl& s)
    {
        std::vector<int> r;
        for (int i = 0; i < s.stlFile().nbFacets(); ++i) r.push_back(s.stlFile().facetId(i));
        return r;
    }
    Pt corner(Stl& s, int id, int k) { return pt(s.stlFile().facet(id).vertex(k)); }
    double volume(Stl& s)
    {
        double w = 0;
        for (int id : idsOf(s)) w += det(corner(s, id, 0), corner(s, id, 1), corner(s, id, 2)) / 6;
        return w;
    }
    Pt areaVector(Stl& s, int id) { return cross(corner(s, id, 1) - corner(s, id, 0), corner(s, id, 2) - corner(s, id, 0)) * 0.5; }
    double area(Stl& s)
    {
        double w = 0;
        for (int id : idsOf(s)) w += std::sqrt(n2(areaVector(s, id)));
        return w;
    }
    Pt totalVector(Stl& s)
    {
        Pt w = v3(0.0, 0.0, 0.0);
        for (int id : idsOf(s)) w = w + areaVector(s, id);
        return w;
    }
    // facets of three vertices, every neighbour refers back, and shares the edge (in opposite directions when oriented)
    bool linked(Stl& s, bool oriented, double t = 1e-7)
    {
        auto& f = s.stlFile();
        std::vector<int> all = idsOf(s);
        std::set<int> known(all.begin(), all.end());
        if (known.size() != all.size()) return false;
        for (int id : all)
            for (int j = 0; j < 3; ++j)
            {
                int n = f.facet(id).edge(j).neighbor(), w = f.facet(id).edge(j).whichVertexNot();
                if (n == -1)
                {
                    if (w != -1) return false;
                    continue;
                }
                if (!known.count(n) || w < 0 || w > 2) return false;
                if (f.facet(n).edge((w + 1) % 3).neighbor() != id || f.facet(n).edge((w + 1) % 3).whichVertexNot() != (j + 2) % 3) return false;
                Pt a = corner(s, id, j), b = corner(s, id, (j + 1) % 3), c = corner(s, n, (w + 1) % 3), d = corner(s, n, (w + 2) % 3);
                bool against = same(a, d, t) && same(b, c, t), along = same(a, c, t) && same(b, d, t);
                if (!(against || (!oriented && along))) return false;
            }
        return true;
    }
    // every edge of the surface is used once in each direction (boundary edges once)
    bool watertight(Stl& s, int& naked)
    {
        std::map<std::array<long, 3>, int> at;
        std::vector<Pt> p;
        auto id = [&](const Pt& x) {
            for (size_t i = 0; i < p.size(); ++i)
                if (same(p[i], x, 1e-7)) return int(i);
            p.push_back(x);
            return int(p.size()) - 1;
        };
        std::map<std::pair<int, int>, int> e;
        for (int f : idsOf(s))
        {
            int k[3] = { id(corner(s, f, 0)), id(corner(s, f, 1)), id(corner(s, f, 2)) };
            for (int j = 0; j < 3; ++j) ++e[{ k[j], k[(j + 1) % 3] }];
        }
        naked = 0;
        for (auto& x : e)
        {
            if (x.second != 1) return false;
            if (!e.count({ x.first.second, x.first.first })) ++naked;
        }
        return true;
    }
    struct Scratch {
        char dir[64];
        std::string file;
        Scratch()
        {
            strcpy(dir, "/tmp/ecv_stl_XXXXXX");
            if (!mkdtemp(dir)) throw std::runtime_error("mkdtemp");
            file = std::string(dir) + "/a.stl";
        }
        ~Scratch()
        {
            unlink(file.c_str());
            rmdir(dir);
        }
    };
}

RUNTIME_CONTRACT("S02", stl_files, "CStlUtils::save/load, calculateStatistics, set, add", "generated surfaces of 1 to 108 facets, text and binary")
{
    Gen g(c.choose("seed", 1 << 20));
    g.surface(g.g() % 2, 1 + g.g() % 3, 0.3, 0.2);
    if (g.g() % 3 == 0) g.tri.resize(std::min(g.tri.size(), size_t(1 + g.g() % 3))), g.ids.resize(g.tri.size()); // files of a few facets
    Stl s = g.stl(), r;
    bool text = g.g() % 2;
    s.stlFile().stats.type = text ? FT_ASCII : FT_BINARY;
    if (g.g() % 2) // something loaded before
    {
        CStlFacet<double> f;
        for (int k = 0; k < 3; ++k) f.addVertex(CGeoCoordinate<double>(k, 100, 7 * k));
        r.addFacet(50, f);
    }
    Scratch x;
    for (int id : idsOf(s)) s.stlFile().facet(id).extra = { char(id % 100), 7 };
    c.ensure("saved and loaded", c.is(s.save(x.file) && r.load(x.file)));
    bool ok = r.stlFile().nbFacets() == s.stlFile().nbFacets(), normals = true, extra = true;
    c.ensure("the type of the file is recognised", c.is(r.stlFile().stats.type == s.stlFile().stats.type));
    Pt lo = v3(1e300, 1e300, 1e300), hi = lo * -1.0;
    for (size_t i = 0; ok && i < g.tri.size(); ++i)
    {
        int id = r.stlFile().facetId(i);
        for (int k = 0; k < 3; ++k)
        {
            Pt p = corner(r, id, k);
            ok = ok && same(p, g.nodes[g.tri[i][k]], text ? 2e-7 : 2e-6);
            lo = v3(std::min(lo.x, p.x), std::min(lo.y, p.y), std::min(lo.z, p.z)), hi = v3(std::max(hi.x, p.x), std::max(hi.y, p.y), std::max(hi.z, p.z));
        }
        auto& n = r.stlFile().facet(id).normal();
        Pt a = areaVector(s, g.ids[i]), m = v3<double>(n.x(), n.y(), n.z());
        normals = normals && same(m, a * (1 / std::sqrt(n2(a))), 1e-5);
        if (!text) extra = extra && r.stlFile().facet(id).extra == s.stlFile().facet(g.ids[i]).extra;
    }
    c.ensure("the facets come back in order", c.is(ok));
    c.ensure("with their normals", c.is(normals));
    c.ensure("and their attributes", c.is(extra));
    auto& t = r.stlFile().stats;
    c.ensure("extent", c.is(same(v3<double>(t.min.x(), t.min.y(), t.min.z()), lo) && same(v3<double>(t.max.x(), t.max.y(), t.max.z()), hi) && same(v3<double>(t.size.x(), t.size.y(), t.size.z()), hi - lo)));
    c.ensure("a file that is not there", c.is(!Stl().load(x.file + "x")));
    // adding one surface to another
    Stl two = s;
    two.add(r);
    ok = two.stlFile().nbFacets() == 2 * s.stlFile().nbFacets();
    std::vector<int> all = idsOf(two);
    ok = ok && std::set<int>(all.begin(), all.end()).size() == all.size();
    for (size_t i = 0; ok && i < g.tri.size(); ++i)
        for (int k = 0; k < 3; ++k) ok = ok && same(corner(two, all[i], k), corner(s, all[i], k), 0) && same(corner(two, all[g.tri.size() + i], k), corner(r, i, k), 0);
    c.ensure("adding keeps both", c.is(ok));
}

RUNTIME_CONTRACT("S02", stl_connectivity, "CStlUtils::generateConnectivity, checkEdges", "generated surfaces of up to 108 facets in any direction and numbering, up to 252 facets around a vertex")
{
    Gen g(c.choose("seed", 1 << 20));
    g.surface(g.g() % 2, 1 + g.g() % 3, 0.3, 0.2);
    g.turnSome();
    Stl s = g.stl();
    s.generateConnectivity(1e-9);
    auto e = g.across();
    bool ok = true, outline = true, naked = true;
    for (size_t i = 0; i < g.tri.size(); ++i)
        for (int k = 0; k < 3; ++k)
        {
            auto f = e.find({ g.ids[i], k });
            auto& d = s.stlFile().facet(g.ids[i]).edge(k);
            ok = ok && (f == e.end() ? d.neighbor() == -1 && d.whichVertexNot() == -1 : d.neighbor() == f->second.first && d.whichVertexNot() == f->second.second);
        }
    c.ensure("the facet across each edge", c.is(ok));
    double angle = g.U(0.2, 2.5);
    s.checkEdges(angle);
    for (size_t i = 0; i < g.tri.size(); ++i)
        for (int k = 0; k < 3; ++k)
        {
            auto f = e.find({ g.ids[i], k });
            auto& d = s.stlFile().facet(g.ids[i]).edge(k);
            naked = naked && d.naked() == (f == e.end());
            if (f == e.end()) outline = outline && !d.outline();
            else
            {
                Pt a = areaVector(s, g.ids[i]), b = areaVector(s, f->second.first);
                double t = std::acos(std::max(-1.0, std::min(1.0, dot(a, b) / std::sqrt(n2(a) * n2(b)))));
                if (std::fabs(t - angle) > 1e-6) outline = outline && d.outline() == (t > angle);
            }
        }
    c.ensure("edges without neighbour", c.is(naked));
    c.ensure("edges where the surface turns by more than the angle", c.is(outline));
    // from facets to a mesh and back
    Gen h(c.choose("seed2", 1 << 20));
    if (h.g() % 4 == 0) h.fan(3 + h.g() % (h.g() % 8 ? 30 : 250), h.g() % 3);
    else h.surface(h.g() % 2, 1 + h.g() % 3, 0.3, 0.2);
    Stl t = h.stl();
    t.generateConnectivity(1e-9);
    CMshMesh<double> m = t.mesh();
    ok = m.nbNodes() == Integer(h.nodes.size()) && m.nbElements() == Integer(h.tri.size());
    for (size_t i = 0; ok && i < h.tri.size(); ++i)
        for (int k = 0; k < 3; ++k)
        {
            Pt p = pt(m.node(m.element(h.ids[i]).nodeId(k)));
            ok = ok && same(p, h.nodes[h.tri[i][k]], 1e-9);
        }
    c.ensure("one node for each vertex", c.is(ok));
    Stl back(m);
    ok = back.stlFile().nbFacets() == t.stlFile().nbFacets();
    for (int id : h.ids)
        for (int k = 0; ok && k < 3; ++k) ok = same(corner(back, id, k), corner(t, id, k), 1e-9);
    c.ensure("the mesh gives the facets back", c.is(ok));
}

RUNTIME_CONTRACT("S02", stl_orientation, "CStlUtils::setOrientation, invertFacet", "generated surfaces of up to 108 facets with turned facets")
{
    Gen g(c.choose("seed", 1 << 20));
    g.surface(g.g() % 2, 1 + g.g() % 3, 0.25, 0.1);
    Stl straight = g.stl();
    g.turnSome();
    Stl s = g.stl();
    s.generateConnectivity(1e-9);
    auto ordered = [&](Stl& a) {
        bool ok = a.stlFile().nbFacets() == Integer(g.tri.size());
        for (size_t i = 0; ok && i < g.tri.size(); ++i)
            for (int k = 0; k < 3; ++k)
            {
                bool found = false;
                for (int j = 0; j < 3; ++j) found = found || same(corner(a, g.ids[i], j), g.nodes[g.tri[i][k]], 0);
                ok = ok && found;
            }
        return ok;
    };
    auto agrees = [&](Stl& a, int id) { return dot(areaVector(a, id), areaVector(straight, id)) > 0; };
    int pivot = g.ids[g.g() % g.ids.size()];
    bool way = agrees(s, pivot), ok = true;
    Stl a = s;
    a.setOrientation(Integer(pivot), 1e-9);
    for (int id : g.ids) ok = ok && agrees(a, id) == way;
    c.ensure("every facet follows the pivot", c.is(ok));
    c.ensure("the facets stay where they are", c.is(ordered(a)));
    c.ensure("neighbours still refer to each other", c.is(linked(a, true)));
    if (g.closed)
    {
        bool out = g.g() % 2;
        Stl b = s;
        b.setOrientation(out, 1e-9);
        ok = true;
        for (int id : g.ids) ok = ok && agrees(b, id) == out;
        c.ensure("all facets look outward or inward as asked", c.is(ok));
        c.ensure("and stay where they are", c.is(ordered(b)));
    }
}

RUNTIME_CONTRACT("S02", stl_cleaning, "CStlUtils::removeDuplicateFacets/removeInvalidFacets, CStlFile::addFacet/removeFacet/nextFacetId", "generated surfaces of up to 108 facets with repeated and degenerate facets")
{
    Gen g(c.choose("seed", 1 << 20));
    g.surface(g.g() % 2, 1 + g.g() % 3, 0.3, 0.2);
    size_t n = g.tri.size();
    std::vector<std::array<int, 3>> had = g.tri;
    std::set<int> used(g.ids.begin(), g.ids.end());
    auto fresh = [&] {
        int k;
        do k = g.g() % 2000;
        while (used.count(k));
        used.insert(k);
        return k;
    };
    int extra = g.g() % 6;
    for (int k = 0; k < extra; ++k)
    {
        size_t at = g.g() % (g.tri.size() + 1);
        std::array<int, 3> t = had[g.g() % n];
        std::rotate(t.begin(), t.begin() + g.g() % 3, t.end());
        g.tri.insert(g.tri.begin() + at, t);
        g.ids.insert(g.ids.begin() + at, fresh());
    }
    Stl s = g.stl();
    s.removeDuplicateFacets(1e-3);
    auto key = [&](Stl& a, int id) {
        std::array<int, 3> k;
        for (int j = 0; j < 3; ++j)
            for (size_t i = 0; i < g.nodes.size(); ++i)
                if (same(corner(a, id, j), g.nodes[i], 1e-12)) k[j] = int(i);
        std::sort(k.begin(), k.end());
        return k;
    };
    std::set<std::array<int, 3>> left;
    for (int id : idsOf(s)) left.insert(key(s, id));
    c.ensure("one of the repeated facets stays", c.is(s.stlFile().nbFacets() == Integer(n) && left.size() == n));
    // degenerate ones
    int bad = g.g() % 6;
    std::set<int> badIds;
    for (int k = 0; k < bad; ++k)
    {
        std::array<int, 3> t = had[g.g() % n];
        int w = g.g() % 3;
        t[w] = t[(w + 1) % 3];
        CStlFacet<double> f;
        for (int j : t) f.addVertex(CGeoCoordinate<double>(g.nodes[j].x, g.nodes[j].y, g.nodes[j].z));
        int id = fresh();
        badIds.insert(id);
        s.addFacet(id, f);
    }
    int next = s.stlFile().nextFacetId();
    for (int id : idsOf(s)) c.ensure("a new id", c.is(next > id));
    s.removeInvalidFacets(1e-6);
    bool gone = true;
    for (int id : idsOf(s)) gone = gone && !badIds.count(id);
    c.ensure("degenerate facets go, the others stay", c.is(gone && s.stlFile().nbFacets() == Integer(n)));
    s.generateConnectivity(1e-9);
    c.ensure("what is left is the surface", c.is(linked(s, true)));
    int one = s.stlFile().facetId(g.g() % n);
    s.removeFacet(one);
    bool there = false;
    for (int id : idsOf(s)) there = there || id == one;
    c.ensure("a facet is removed", c.is(!there && s.stlFile().nbFacets() == Integer(n) - 1));
}

RUNTIME_CONTRACT("S02", stl_remeshing, "CStlUtils::splitFacets/relaxVertices/flipEdges/collapseEdges", "generated surfaces of up to 108 facets in any numbering")
{
    Gen g(c.choose("seed", 1 << 20));
    bool box = g.g() % 2;
    g.surface(box, 1 + g.g() % 3, 0.3, 0);
    Stl s = g.stl();
    s.generateConnectivity(1e-9);
    s.checkEdges(0.5);
    const double A = area(s), vol = volume(s);
    const Pt T = totalVector(s);
    auto sound = [&](const std::string& n, Stl& a) {
        int naked;
        c.ensure(n + ": the surface has no holes or overlaps", c.is(watertight(a, naked)) && c.is(!box || naked == 0));
        c.ensure(n + ": area", c.near(area(a), A, 1e-6)); // flat faces
        c.ensure(n + ": enclosed volume or area vector", box ? c.near(volume(a), vol, 1e-6) : c.is(same(totalVector(a), T, 1e-6)));
    };
    Stl a = s;
    a.splitFacets(g.U(0.4, 1.5), g.g() % 2 ? -1 : g.U(0, 0.3));
    sound("split", a);
    c.ensure("split: neighbours refer to each other", c.is(linked(a, true)));
    Stl b = g.g() % 2 ? a : s;
    b.checkEdges(0.5);
    const int nb = b.stlFile().nbFacets();
    b.relaxVertices();
    sound("relax", b);
    c.ensure("relax: neighbours refer to each other", c.is(linked(b, true) && b.stlFile().nbFacets() == nb));
    Stl d = g.g() % 2 ? a : s;
    const int nd = d.stlFile().nbFacets();
    d.flipEdges(0.1);
    sound("flip", d);
    c.ensure("flip: as many facets", c.is(d.stlFile().nbFacets() == nd));
    Stl e = s;
    e.collapseEdges(g.U(0.3, 0.9), 0.1);
    e.removeInvalidFacets(1e-6);
    sound("collapse", e);
}
