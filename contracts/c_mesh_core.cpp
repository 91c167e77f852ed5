// M01: mesh entities, ids and indices; M02: faces, pairing and boundary
#include "geo_common.hpp"
#include <algorithm>
#include <iostream>
#include <fstream>
#include <vector>
#include <map>
#include <random>
#include <set>
#include "GeoHashGrid.hpp"
#include "GeoRtree.hpp"
#include "MshMesh.hpp"
#include "MshMeshQuery.hpp"
#include "MshCheckMesh.hpp"
using namespace spec;
using namespace ENigMA::geometry;
using namespace ENigMA::mesh;

namespace
{
    // what a mesh is supposed to hold: the entities in order of insertion
    template <class R> struct Spec {
        struct Face { std::vector<int> n; int type; bool pair; int pairId, elem; };
        struct Elem { std::vector<int> n, f; int type; };
        std::vector<int> nid, fid, eid;
        std::map<int, V<R>> node;
        std::map<int, Face> face;
        std::map<int, Elem> elem;
        void check(const char* when, CMshMesh<R>& m, bool& ok, std::string& why)
        {
            auto bad = [&](const char* w) { if (ok) { ok = false; why = w; } };
            if (m.nbNodes() != (int)nid.size() || m.nbFaces() != (int)fid.size() || m.nbElements() != (int)eid.size()) { bad("counts"); return; }
            for (int i = 0; i < (int)nid.size(); ++i)
            {
                if (m.nodeId(i) != nid[i]) bad("nodeId");
                if (m.nodeIndex(nid[i]) != i) bad("nodeIndex");
                auto& p = m.node(nid[i]);
                auto& q = node[nid[i]];
                if (!(p.x() == q.x && p.y() == q.y && p.z() == q.z)) bad("node");
            }
            for (int i = 0; i < (int)fid.size(); ++i)
            {
                if (m.faceId(i) != fid[i]) bad("faceId");
                if (m.faceIndex(fid[i]) != i) bad("faceIndex");
                auto& f = m.face(fid[i]);
                auto& g = face[fid[i]];
                if (f.nbNodeIds() != (int)g.n.size()) { bad("face size"); continue; }
                for (int k = 0; k < (int)g.n.size(); ++k) if (f.nodeId(k) != g.n[k]) bad("face node");
                if ((int)f.faceType() != g.type) bad("face type");
                if (f.hasPair() != g.pair) bad("face has pair");
                if (g.pair && f.pairFaceId() != g.pairId) bad("face pair");
                if (f.elementId() != g.elem) bad("face element");
            }
            for (int i = 0; i < (int)eid.size(); ++i)
            {
                if (m.elementId(i) != eid[i]) bad("elementId");
                if (m.elementIndex(eid[i]) != i) bad("elementIndex");
                auto& f = m.element(eid[i]);
                auto& g = elem[eid[i]];
                if (f.nbNodeIds() != (int)g.n.size() || f.nbFaceIds() != (int)g.f.size()) { bad("element size"); continue; }
                for (int k = 0; k < (int)g.n.size(); ++k) if (f.nodeId(k) != g.n[k]) bad("element node");
                for (int k = 0; k < (int)g.f.size(); ++k) if (f.faceId(k) != g.f[k]) bad("element face");
                if ((int)f.elementType() != g.type) bad("element type");
            }
            if (node.count(m.nextNodeId()) || face.count(m.nextFaceId()) || elem.count(m.nextElementId())) bad("next id is in use");
        }
        template <class I> static void drop(I& ids, int id) { ids.erase(std::find(ids.begin(), ids.end(), id)); }
        void renumber()
        {
            std::map<int, int> n, f, e;
            for (int i = 0; i < (int)nid.size(); ++i) n[nid[i]] = i;
            for (int i = 0; i < (int)fid.size(); ++i) f[fid[i]] = i;
            for (int i = 0; i < (int)eid.size(); ++i) e[eid[i]] = i;
            *this = mapped(n, f, e);
        }
        Spec mapped(std::map<int, int>& n, std::map<int, int>& f, std::map<int, int>& e)
        {
            Spec s;
            for (int i : nid) { s.nid.push_back(n[i]); s.node[n[i]] = node[i]; }
            for (int i : fid)
            {
                s.fid.push_back(f[i]);
                Face g = face[i];
                for (auto& k : g.n) k = n[k];
                if (g.pair) g.pairId = f[g.pairId];
                if (e.count(g.elem)) g.elem = e[g.elem];
                s.face[f[i]] = g;
            }
            for (int i : eid)
            {
                s.eid.push_back(e[i]);
                Elem g = elem[i];
                for (auto& k : g.n) k = n[k];
                for (auto& k : g.f) if (f.count(k)) k = f[k];
                s.elem[e[i]] = g;
            }
            return s;
        }
        void add(Spec& o)
        {
            auto next = [](auto& m) { return m.empty() ? 0 : m.rbegin()->first + 1; };
            std::map<int, int> n, f, e;
            int a = next(node), b = next(face), d = next(elem);
            for (int i : o.nid) n[i] = a++;
            for (int i : o.fid) f[i] = b++;
            for (int i : o.eid) e[i] = d++;
            Spec p = o.mapped(n, f, e);
            nid.insert(nid.end(), p.nid.begin(), p.nid.end());
            fid.insert(fid.end(), p.fid.begin(), p.fid.end());
            eid.insert(eid.end(), p.eid.begin(), p.eid.end());
            node.insert(p.node.begin(), p.node.end());
            face.insert(p.face.begin(), p.face.end());
            elem.insert(p.elem.begin(), p.elem.end());
        }
        void danglingRemoved()
        {
            std::set<int> used;
            for (auto& e : elem) used.insert(e.second.n.begin(), e.second.n.end());
            for (auto& e : face) used.insert(e.second.n.begin(), e.second.n.end());
            for (int i : std::vector<int>(nid)) if (!used.count(i)) { drop(nid, i); node.erase(i); }
        }
        void invalidRemoved()
        {
            for (int i : std::vector<int>(eid))
            {
                std::set<int> s(elem[i].n.begin(), elem[i].n.end());
                if (s.size() != elem[i].n.size()) { drop(eid, i); elem.erase(i); }
            }
        }
        void fromFaces(CMshMesh<R>& m) // read back what generateFaces made (its meaning is M02's concern)
        {
            fid.clear();
            face.clear();
            for (int i = 0; i < m.nbFaces(); ++i)
            {
                int id = m.faceId(i);
                fid.push_back(id);
                auto& f = m.face(id);
                Face g { {}, (int)f.faceType(), f.hasPair(), f.pairFaceId(), f.elementId() };
                for (int k = 0; k < f.nbNodeIds(); ++k) g.n.push_back(f.nodeId(k));
                face[id] = g;
            }
            for (int i : eid)
            {
                elem[i].f.clear();
                for (int k = 0; k < m.element(i).nbFaceIds(); ++k) elem[i].f.push_back(m.element(i).faceId(k));
            }
        }
    };
    const EElementType kTypes[] = { ET_BEAM, ET_TRIANGLE, ET_QUADRILATERAL, ET_TETRAHEDRON, ET_TRIANGULAR_PRISM, ET_HEXAHEDRON };
    const int kNodes[] = { 2, 3, 4, 4, 6, 8 };
    template <class R> struct Mesh {
        CMshMesh<R> m;
        Spec<R> s;
        void addNode(int id, V<R> p)
        {
            CMshNode<R> n;
            n << p.x, p.y, p.z;
            m.addNode(id, n);
            s.nid.push_back(id);
            s.node[id] = p;
        }
        void addElement(int id, int t, std::vector<int> n)
        {
            CMshElement<R> e(kTypes[t]);
            for (int i : n) e.addNodeId(i);
            m.addElement(id, e);
            s.eid.push_back(id);
            s.elem[id] = { n, {}, (int)kTypes[t] };
        }
        void addFace(int id, int t, std::vector<int> n, int elem)
        {
            CMshFace<R> f(t == 0 ? FT_LINE : t == 1 ? FT_TRIANGLE : FT_QUADRILATERAL);
            for (int i : n) f.addNodeId(i);
            f.setElementId(elem);
            m.addFace(id, f);
            s.fid.push_back(id);
            s.face[id] = { n, (int)f.faceType(), false, 0, elem };
        }
    };
    template <class R, class P> void history(P&& pick, int steps, bool& ok, std::string& why)
    {
        Mesh<R> a, b;
        int cnt = 0;
        auto fresh = [&](auto& m, int how) -> int {
            if (how == 0) return m.empty() ? 0 : m.rbegin()->first + 1;
            if (how == 1) { int k = m.empty() ? 40 : m.begin()->first - 1; return k; }
            for (int k = 17;; k += 10) if (!m.count(k)) return k;
        };
        for (int s = 0; s < steps && ok; ++s)
        {
            int op = pick(12);
            switch (op)
            {
            case 0: case 1: { R x(++cnt); a.addNode(fresh(a.s.node, pick(3)), V<R> { x, x * R(0.5), -x }); break; }
            case 2: case 3: {
                int t = pick(6);
                if ((int)a.s.nid.size() < 2) break;
                std::vector<int> n;
                int z = (int)a.s.nid.size(), at = pick(z), step = 1 + pick(2), dup = pick(3);
                for (int k = 0; k < kNodes[t]; ++k) n.push_back(a.s.nid[(at + k * step) % z]);
                if (dup == 0) n[1] = n[0];
                a.addElement(fresh(a.s.elem, pick(3)), t, n);
                break;
            }
            case 4: {
                if (a.s.nid.size() < 4) break;
                int t = pick(3);
                std::vector<int> n;
                int z = (int)a.s.nid.size(), at = pick(z);
                for (int k = 0; k < t + 2; ++k) n.push_back(a.s.nid[(at + k) % z]);
                a.addFace(fresh(a.s.face, pick(3)), t, n, a.s.eid.empty() ? 0 : a.s.eid[pick((int)a.s.eid.size())]);
                break;
            }
            case 5: {
                int w = pick(3);
                if (w == 0 && a.s.nid.size())
                {
                    // a node in use may not go
                    int id = a.s.nid[pick((int)a.s.nid.size())];
                    bool used = false;
                    for (auto& e : a.s.elem) used = used || std::count(e.second.n.begin(), e.second.n.end(), id);
                    for (auto& e : a.s.face) used = used || std::count(e.second.n.begin(), e.second.n.end(), id);
                    if (!used) { a.m.removeNode(id); Spec<R>::drop(a.s.nid, id); a.s.node.erase(id); }
                }
                if (w == 1 && a.s.fid.size())
                {
                    int id = a.s.fid[pick((int)a.s.fid.size())];
                    bool used = a.s.face[id].pair;
                    for (auto& e : a.s.elem) used = used || std::count(e.second.f.begin(), e.second.f.end(), id);
                    if (!used) { a.m.removeFace(id); Spec<R>::drop(a.s.fid, id); a.s.face.erase(id); }
                }
                if (w == 2 && a.s.eid.size())
                {
                    int id = a.s.eid[pick((int)a.s.eid.size())];
                    bool used = false;
                    for (auto& e : a.s.face) used = used || e.second.elem == id;
                    if (!used) { a.m.removeElement(id); Spec<R>::drop(a.s.eid, id); a.s.elem.erase(id); }
                }
                a.m.rebuildIndices();
                break;
            }
            case 6: { a.m.renumber(); a.s.renumber(); break; }
            case 7: { a.m.removeDanglingNodes(); a.s.danglingRemoved(); break; }
            case 8: {
                bool facesUse = false;
                for (auto& e : a.s.elem)
                {
                    std::set<int> u(e.second.n.begin(), e.second.n.end());
                    if (u.size() != e.second.n.size()) for (auto& f : a.s.face) if (f.second.elem == e.first) facesUse = true;
                }
                if (!facesUse) { a.m.removeInvalidElements(); a.s.invalidRemoved(); }
                break;
            }
            case 9: {
                R w = a.m.dx() + R(1);
                a.m.setDx(w); a.m.setDy(w + R(1)); a.m.setDz(w + R(2));
                CMshMesh<R> k(a.m);
                a.s.check("copy", k, ok, why);
                if (!(k.dx() == w && k.dy() == w + R(1) && k.dz() == w + R(2)) || k.nbBoundaryFaces() != a.m.nbBoundaryFaces()) { ok = false; why = "copied sizes"; }
                if (pick(2)) { b.m = a.m; b.s = a.s; }
                break;
            }
            case 10: { if (a.s.nid.size() < 60) { a.m.addMesh(b.m); a.s.add(b.s); } break; }
            case 11: {
                int w = pick(4);
                if (w == 0) { a.m.reset(); a.s = Spec<R>(); }
                else if (w == 1) { std::swap(a.m, b.m); std::swap(a.s, b.s); }
                else { a.m.generateFaces(); a.s.fromFaces(a.m); }
                break;
            }
            }
            a.s.check("step", a.m, ok, why);
            if (s == steps - 1) b.s.check("other", b.m, ok, why);
        }
    }
}

RUNTIME_CONTRACT("M01", mesh_histories, "CMshMesh add/remove/renumber/rebuildIndices/removeDanglingNodes/removeInvalidElements/addMesh/copy/reset", "generated histories of up to 60 operations on two meshes, node ids in any order")
{
    typedef typename C::R R;
    std::mt19937 g(c.choose("seed", 1 << 20));
    int steps = 1 + c.choose("steps", 60);
    bool ok = true;
    std::string why;
    history<R>([&](int n) { return (int)(g() % n); }, steps, ok, why);
    if (!ok) std::cerr << "mesh history: " << why << "\n";
    c.ensure("nodes, faces and elements, their ids, indices and cross references are those of the history", c.is(ok));
}
BOUNDED_CONTRACT("M01", short_histories, "CMshMesh add/remove/renumber/rebuildIndices/copy/reset", "every operation on a mesh of three nodes with unordered ids, a triangle and its faces")
{
    typedef typename C::R R;
    bool ok = true;
    std::string why;
    int pre[] = { 0, 0, 0, 1, 0, 2, 2, 1, 0, 0, 1, 0, 11, 2 }, at = 0, k = 0;
    history<R>([&](int n) { if (at < 14) return pre[at++] % n; return c.choose(nm("c", k++), n); }, 6, ok, why);
    c.ensure("nodes, faces and elements, their ids, indices and cross references are those of the history", c.is(ok));
}

namespace
{
    template <class R> V<R> faceVector(const std::vector<V<R>>& p, const std::vector<int>& f)
    {
        if (f.size() == 3) return cross(p[f[1]] - p[f[0]], p[f[2]] - p[f[0]]) * R(0.5);
        return cross(p[f[2]] - p[f[0]], p[f[3]] - p[f[1]]) * R(0.5);
    }
    // signed volume enclosed by triangulated faces (fan from the first node)
    template <class R> R enclosed(const std::vector<V<R>>& p, const std::vector<std::vector<int>>& fs)
    {
        R s(0);
        for (auto& f : fs) for (size_t k = 2; k < f.size(); ++k) s = s + det(p[f[0]], p[f[k - 1]], p[f[k]]) * (R(1) / R(6));
        return s;
    }
    template <class R> std::vector<std::vector<int>> facesOf(CMshElement<R>& e, std::vector<int>& types)
    {
        std::vector<CMshFace<R>> s;
        e.generateFaces(s);
        std::vector<std::vector<int>> r;
        for (auto& f : s)
        {
            r.emplace_back();
            for (int k = 0; k < f.nbNodeIds(); ++k) r.back().push_back(f.nodeId(k));
            types.push_back((int)f.faceType());
        }
        return r;
    }
    // every edge of the surface is used once in each direction
    inline bool closedSurface(const std::vector<std::vector<int>>& fs)
    {
        std::map<std::pair<int, int>, int> n;
        for (auto& f : fs) for (size_t k = 0; k < f.size(); ++k) n[{ f[k], f[(k + 1) % f.size()] }]++;
        for (auto& e : n)
        {
            if (e.second != 1) return false;
            auto o = n.find({ e.first.second, e.first.first });
            if (o == n.end()) return false;
        }
        return true;
    }
    const int kNbFaces[] = { 2, 3, 4, 4, 5, 6 };
}

CONTRACT("M02", element_faces, "CMshElement::generateFaces/invert for every element type")
{
    typedef typename C::R R;
    int t = c.choose("type", 6), inv = c.choose("inverted", 2);
    CMshElement<R> e(kTypes[t]);
    for (int k = 0; k < kNodes[t]; ++k) e.addNodeId(k);
    if (inv) e.invert();
    e.addFaceId(99); // left over from an earlier generation
    std::vector<int> types;
    auto fs = facesOf(e, types);
    c.ensure("number of faces of the element type", c.is((int)fs.size() == kNbFaces[t]));
    c.ensure("a new generation forgets the old face ids", c.is(e.nbFaceIds() == 0));
    bool ok = true;
    for (size_t i = 0; i < fs.size(); ++i)
    {
        int want = t == 0 ? 1 : t < 3 ? 2 : t == 3 ? 3 : t == 4 ? (i < 2 ? 3 : 4) : 4;
        ok = ok && (int)fs[i].size() == want;
        ok = ok && types[i] == (want == 1 ? FT_POINT : want == 2 ? FT_LINE : want == 3 ? FT_TRIANGLE : FT_QUADRILATERAL);
        std::set<int> u(fs[i].begin(), fs[i].end());
        ok = ok && u.size() == fs[i].size();
    }
    c.ensure("faces have the nodes and type of their shape", c.is(ok));
    if (!ok) return;
    std::vector<V<R>> p;
    for (int k = 0; k < kNodes[t]; ++k) p.push_back(vec(c, nm("p", k)));
    if (t == 0)
    {
        c.ensure("a beam ends in its two nodes", c.is(fs[0][0] + fs[1][0] == 1 && fs[0][0] == inv));
        return;
    }
    if (t < 3)
    {
        // the edges chain around the element in its orientation
        bool ring = true;
        V<R> s { R(0), R(0), R(0) };
        for (size_t i = 0; i < fs.size(); ++i)
        {
            ring = ring && fs[i][1] == fs[(i + 1) % fs.size()][0];
            s = s + cross(p[fs[i][0]], p[fs[i][1]]) * R(0.5);
        }
        V<R> a = t == 1 ? cross(p[1] - p[0], p[2] - p[0]) * R(0.5) : cross(p[2] - p[0], p[3] - p[1]) * R(0.5);
        if (inv) a = a * R(-1);
        c.ensure("edges go once around the element", c.is(ring));
        c.ensure("edges enclose the vector area of the element, reversed when inverted", eqv(c, s, a));
        return;
    }
    c.ensure("every edge joins two faces, passed in opposite directions", c.is(closedSurface(fs)));
    V<R> s { R(0), R(0), R(0) };
    for (auto& f : fs) s = s + faceVector(p, f);
    c.ensure("the vector areas of the faces add up to zero", eqv(c, s, V<R> { R(0), R(0), R(0) }));
    if (t == 3)
    {
        R v = det(p[1] - p[0], p[2] - p[0], p[3] - p[0]) * (R(1) / R(6));
        c.ensure("the faces look inwards for a positive tetrahedron, outwards when inverted", c.eq(enclosed(p, fs), inv ? v : v * R(-1)));
    }
    else
    {
        // affine image of the unit prism or cube
        V<R> o = p[0], a = p[1] - p[0], b = (t == 4 ? p[2] : p[3]) - p[0], h = p[t == 4 ? 3 : 4] - p[0];
        std::vector<V<R>> q;
        if (t == 4) q = { o, o + a, o + b, o + h, o + a + h, o + b + h };
        else q = { o, o + a, o + a + b, o + b, o + h, o + a + h, o + a + b + h, o + b + h };
        R v = det(a, b, h) * (t == 4 ? R(0.5) : R(1));
        R w = enclosed(q, fs);
        // prisms and hexahedra list the base face first, so their faces look inwards like those of a tetrahedron
        c.ensure("the faces of a positive cell look inwards, outwards when inverted", c.eq(w, inv ? v : v * R(-1)));
    }
}
namespace
{
    // a conforming mesh with ids in random order: a block of cells of one kind with some elements missing
    template <class R> void block(CMshMesh<R>& m, std::mt19937& g, int kind, int n1, int n2, int n3, int drop, bool distort)
    {
        auto u = [&] { return std::uniform_real_distribution<double>(-1, 1)(g); };
        int dim = kind == 0 ? 1 : kind < 3 || kind == 6 ? 2 : 3, mix = kind;
        unsigned columns = g(); // which columns of a mixed mesh are split
        if (dim < 3) n3 = 0;
        if (dim < 2) n2 = 0;
        int N = (n1 + 1) * (n2 + 1) * (n3 + 1);
        std::vector<int> id(N);
        int mode = g() % 3;
        for (int i = 0; i < N; ++i) id[i] = mode == 0 ? i : 3 * i + 5;
        if (mode == 2) std::shuffle(id.begin(), id.end(), g);
        auto at = [&](int i, int j, int k) { return id[(k * (n2 + 1) + j) * (n1 + 1) + i]; };
        R sc(1);
        if (g() % 3 == 0) sc = R(1e-3);
        if (g() % 5 == 0) sc = R(1e4);
        std::vector<std::pair<int, CMshNode<R>>> nodes;
        for (int k = 0; k <= n3; ++k) for (int j = 0; j <= n2; ++j) for (int i = 0; i <= n1; ++i)
        {
            CMshNode<R> n;
            double e = distort ? 0.11 : 0;
            n << (R(i) + R(e * u())) * sc, (R(j) + R(e * u())) * sc, (R(k) + R(e * u())) * sc;
            nodes.push_back({ at(i, j, k), n });
        }
        if (g() % 2) std::shuffle(nodes.begin(), nodes.end(), g);
        for (auto& n : nodes) m.addNode(n.first, n.second);
        std::vector<std::pair<EElementType, std::vector<int>>> el;
        for (int k = 0; k < (dim > 2 ? n3 : 1); ++k) for (int j = 0; j < (dim > 1 ? n2 : 1); ++j) for (int i = 0; i < n1; ++i)
        {
            if (mix > 5) kind = (columns >> (3 * j + i) & 1 ? 1 : 2) + (mix == 7 ? 3 : 0);
            if (kind == 0) { el.push_back({ ET_BEAM, { at(i, 0, 0), at(i + 1, 0, 0) } }); continue; }
            int a = at(i, j, k), b = at(i + 1, j, k), c2 = at(i + 1, j + 1, k), d = at(i, j + 1, k);
            if (kind == 1) { el.push_back({ ET_TRIANGLE, { a, b, c2 } }); el.push_back({ ET_TRIANGLE, { a, c2, d } }); continue; }
            if (kind == 2) { el.push_back({ ET_QUADRILATERAL, { a, b, c2, d } }); continue; }
            int e = at(i, j, k + 1), f = at(i + 1, j, k + 1), h = at(i + 1, j + 1, k + 1), l = at(i, j + 1, k + 1);
            if (kind == 3)
            {
                // Kuhn subdivision: six tetrahedra around the diagonal a-h
                int p[6][4] = { { a, b, c2, h }, { a, c2, d, h }, { a, d, l, h }, { a, l, e, h }, { a, e, f, h }, { a, f, b, h } };
                for (auto& q : p) el.push_back({ ET_TETRAHEDRON, { q[0], q[1], q[2], q[3] } });
            }
            if (kind == 4) { el.push_back({ ET_TRIANGULAR_PRISM, { a, b, c2, e, f, h } }); el.push_back({ ET_TRIANGULAR_PRISM, { a, c2, d, e, h, l } }); }
            if (kind == 5) el.push_back({ ET_HEXAHEDRON, { a, b, c2, d, e, f, h, l } });
        }
        if (g() % 2) std::shuffle(el.begin(), el.end(), g);
        int eid = g() % 2 ? 0 : 11;
        for (auto& e : el)
        {
            eid += 1 + g() % 2;
            if (drop && g() % drop == 0 && m.nbElements()) continue;
            CMshElement<R> x(e.first);
            // any cyclic start for flat elements: same element, other list
            if (dim == 2) std::rotate(e.second.begin(), e.second.begin() + g() % e.second.size(), e.second.end());
            for (int i : e.second) x.addNodeId(i);
            m.addElement(1000 - eid, x);
        }
    }
    template <class R> std::vector<int> sortedNodes(CMshFace<R>& f)
    {
        std::vector<int> n;
        for (int k = 0; k < f.nbNodeIds(); ++k) n.push_back(f.nodeId(k));
        std::sort(n.begin(), n.end());
        return n;
    }
    int typeIndex(EElementType t) { return t == ET_BEAM ? 0 : t == ET_TRIANGLE ? 1 : t == ET_QUADRILATERAL ? 2 : t == ET_TETRAHEDRON ? 3 : t == ET_TRIANGULAR_PRISM ? 4 : 5; }
    template <class C, class R> void centroids(C& c, CMshMesh<R>& m)
    {
        m.calculateFaceCentroid();
        m.calculateElementCentroid();
        bool cen = true;
        for (int i = 0; i < m.nbFaces(); ++i)
        {
            int id = m.faceId(i);
            auto& f = m.face(id);
            V<R> s { R(0), R(0), R(0) };
            for (int k = 0; k < f.nbNodeIds(); ++k) s = s + v<R>(m.node(f.nodeId(k)));
            s = s * (R(1) / R(f.nbNodeIds()));
            R d = std::sqrt(n2(s - v<R>(m.faceCentroid(id))));
            cen = cen && d <= R(1e-9) * (R(1) + std::sqrt(n2(s)));
        }
        for (int i = 0; i < m.nbElements(); ++i)
        {
            int id = m.elementId(i);
            auto& f = m.element(id);
            V<R> s { R(0), R(0), R(0) };
            for (int k = 0; k < f.nbNodeIds(); ++k) s = s + v<R>(m.node(f.nodeId(k)));
            s = s * (R(1) / R(f.nbNodeIds()));
            R d = std::sqrt(n2(s - v<R>(m.elementCentroid(id))));
            cen = cen && d <= R(1e-9) * (R(1) + std::sqrt(n2(s)));
        }
        c.ensure("face and element centroids are the averages of their nodes", c.is(cen));
    }
}

RUNTIME_CONTRACT("M02", mesh_faces, "CMshMesh::generateFaces/extractBoundary/nbBoundaryFaces/faceCentroid, CMshCheckMesh::checkOpen, CMshMeshQuery", "generated conforming meshes of one element type, of triangles and quadrilaterals or of prisms and hexahedra, up to 4x3x3 cells, with missing elements, distorted nodes and ids in any order")
{
    typedef typename C::R R;
    std::mt19937 g(c.choose("seed", 1 << 20));
    int kind = c.choose("kind", 8), drop = c.choose("drop", 3);
    CMshMesh<R> m;
    block(m, g, kind, 1 + g() % 4, 1 + g() % 3, 1 + g() % 3, drop == 0 ? 0 : drop == 1 ? 3 : 2, g() % 3 != 0);
    int rounds = 1 + g() % 2;
    for (int k = 0; k < rounds; ++k) m.generateFaces(g() % 2 ? R(0) : R(1e-9));
    // independent pairing by node set
    std::map<std::vector<int>, std::vector<int>> byNodes;
    bool owner = true, count = true, fresh = true;
    int total = 0, single = 0;
    std::set<int> seen;
    for (int i = 0; i < m.nbElements(); ++i)
    {
        int id = m.elementId(i);
        auto& e = m.element(id);
        count = count && e.nbFaceIds() == kNbFaces[typeIndex(e.elementType())];
        std::vector<int> types;
        CMshElement<R> copy(e);
        auto fs = facesOf(copy, types);
        for (int k = 0; k < e.nbFaceIds() && k < (int)fs.size(); ++k)
        {
            auto& f = m.face(e.faceId(k));
            owner = owner && f.elementId() == id && f.nbNodeIds() == (int)fs[k].size();
            for (int q = 0; q < f.nbNodeIds(); ++q) owner = owner && f.nodeId(q) == fs[k][q];
            byNodes[sortedNodes(f)].push_back(e.faceId(k));
            fresh = fresh && seen.insert(e.faceId(k)).second;
            ++total;
        }
    }
    c.ensure("every element owns its own faces, which name it back", c.is(owner && count && fresh && total == m.nbFaces()));
    bool pairs = true;
    std::set<int> boundary;
    for (auto& b : byNodes)
    {
        if (b.second.size() == 1) { pairs = pairs && !m.face(b.second[0]).hasPair(); ++single; boundary.insert(b.second[0]); }
        else if (b.second.size() == 2)
        {
            auto &f = m.face(b.second[0]), &h = m.face(b.second[1]);
            pairs = pairs && f.hasPair() && h.hasPair() && f.pairFaceId() == b.second[1] && h.pairFaceId() == b.second[0];
        }
    }
    c.ensure("faces on the same nodes are paired with each other and the others are not", c.is(pairs));
    c.ensure("the number of boundary faces is the number of unpaired faces", c.is(m.nbBoundaryFaces() == single));
    CMshCheckMesh<R> chk;
    c.ensure("a mesh is open exactly when it has a boundary face", c.is(chk.checkOpen(m) == (single > 0)));
    // centroids, also with face ids in no order
    if (g() % 2)
    {
        std::vector<int> ids, at;
        for (int i = 0; i < m.nbFaces(); ++i) ids.push_back(m.faceId(i));
        at = ids;
        std::shuffle(at.begin(), at.end(), g);
        std::map<int, CMshFace<R>> keep;
        for (int i : ids) keep.emplace(i, m.face(i));
        CMshMesh<R> other(m);
        for (int i : ids) other.removeFace(i);
        for (int i : at) other.addFace(i, keep.at(i));
        other.rebuildIndices();
        centroids(c, other);
    }
    centroids(c, m);
    // boundary mesh
    std::vector<std::vector<int>> bf;
    for (int id : boundary) { bf.emplace_back(); for (int k = 0; k < m.face(id).nbNodeIds(); ++k) bf.back().push_back(m.face(id).nodeId(k)); }
    if (kind > 0)
    {
        CMshMesh<R> b = m.extractBoundary(R(0));
        std::vector<std::vector<int>> got;
        bool type = true, nodes = b.nbNodes() == m.nbNodes();
        for (int i = 0; i < b.nbElements(); ++i)
        {
            auto& e = b.element(b.elementId(i));
            got.emplace_back();
            for (int k = 0; k < e.nbNodeIds(); ++k) got.back().push_back(e.nodeId(k));
            type = type && e.elementType() == (got.back().size() == 2 ? ET_BEAM : got.back().size() == 3 ? ET_TRIANGLE : ET_QUADRILATERAL);
        }
        for (int i = 0; nodes && i < m.nbNodes(); ++i) { int id = m.nodeId(i); nodes = nodes && n2(v<R>(m.node(id)) - v<R>(b.node(id))) == R(0); }
        std::sort(got.begin(), got.end());
        std::sort(bf.begin(), bf.end());
        c.ensure("the boundary mesh has one element for every unpaired face, on its nodes in their order", c.is(got == bf && type && nodes));
    }
    // queries
    CMshMeshQuery<R> q(m);
    bool share = true;
    for (int r = 0; r < 6; ++r)
    {
        int a = m.nodeId(g() % m.nbNodes()), b = m.nodeId(g() % m.nbNodes());
        if (r > 2) { auto& e = m.element(m.elementId(g() % m.nbElements())); a = e.nodeId(0); b = e.nodeId(1); }
        std::vector<Integer> s1, s2, w1, w2;
        q.elementsSharingNode(a, s1);
        q.elementsSharingNodes(a, b, s2);
        for (int i = 0; i < m.nbElements(); ++i)
        {
            int id = m.elementId(i);
            auto& e = m.element(id);
            bool ha = false, hb = false;
            for (int k = 0; k < e.nbNodeIds(); ++k) { ha = ha || e.nodeId(k) == a; hb = hb || e.nodeId(k) == b; }
            if (ha) w1.push_back(id);
            if (ha && hb) w2.push_back(id);
        }
        for (auto* w : { &s1, &s2, &w1, &w2 }) std::sort(w->begin(), w->end());
        share = share && s1 == w1 && s2 == w2;
    }
    c.ensure("the elements sharing one or two nodes are found", c.is(share));
}
