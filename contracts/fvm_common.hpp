#pragma once
#include <array>
#include "geo_common.hpp"
#include "CmnTypes.hpp"
#include "PdeEquation.hpp"
#include "MshBasicMesher.hpp"
#include "MshExtrudedMesher.hpp"
#include "FvmMesh.hpp"
#include "FvmMeshSearch.hpp"
namespace spec
{
    using namespace ENigMA::geometry;
    using namespace ENigMA::mesh;
    using namespace ENigMA::fvm;
    template <class R> R len(V<R> a) { return R(std::sqrt(n2(a))); }
    // a generated mesh of a parallelepiped: hexahedra, tetrahedra (inner nodes displaced) or prisms, shuffled numbering, faces generated
    template <class R> struct Solid {
        std::mt19937 g;
        CMshMesh<R> mesh;
        R volume;
        V<R> o, a[3];
        int kind, n[3];
        R U(double lo, double hi) { return R(std::uniform_real_distribution<double>(lo, hi)(g)); }
        CGeoCoordinate<R> corner(int i, int j, int k) { return P(o + a[0] * R(i) + a[1] * R(j) + a[2] * R(k)); }
        // skew: whether the axes may be oblique
        Solid(unsigned seed, int kinds, bool skew, int most = 3)
            : g(seed)
        {
            kind = g() % kinds;
            for (int& x : n) x = 1 + g() % most;
            o = v3(U(-2, 2), U(-2, 2), U(-2, 2));
            R q[4], N = R(0);
            do
            {
                N = R(0);
                for (R& x : q) x = U(-1, 1), N = N + x * x;
            } while (N < R(0.05));
            R w = q[0], x = q[1], y = q[2], z = q[3];
            V<R> ax[3] = { v3<R>(w * w + x * x - y * y - z * z, R(2) * (x * y + w * z), R(2) * (x * z - w * y)) * (R(1) / N),
                v3<R>(R(2) * (x * y - w * z), w * w - x * x + y * y - z * z, R(2) * (y * z + w * x)) * (R(1) / N),
                v3<R>(R(2) * (x * z + w * y), R(2) * (y * z - w * x), w * w - x * x - y * y + z * z) * (R(1) / N) };
            for (int i = 0; i < 3; ++i) a[i] = ax[i] * U(0.5, 2);
            if (skew) a[1] = a[1] + a[0] * U(-0.3, 0.3), a[2] = a[2] + a[0] * U(-0.3, 0.3) + a[1] * U(-0.3, 0.3);
            // the library counts a hexahedron positive whose second face lies below the first
            a[2] = a[2] * R(-1);
            volume = -det(a[0], a[1], a[2]);
            CMshMesh<R> m;
            if (kind < 2)
            {
                CGeoHexahedron<R> s;
                for (int k = 0; k < 2; ++k) s.addVertex(corner(0, 0, k)), s.addVertex(corner(1, 0, k)), s.addVertex(corner(1, 1, k)), s.addVertex(corner(0, 1, k));
                CMshBasicMesher<R> b;
                b.generate(s, n[0], n[1], n[2], kind == 1);
                m = b.mesh();
            }
            else
            {
                a[2] = ax[2] * U(-2, -0.5); // prisms grow against the normal of the surface
                volume = -det(a[0], a[1], a[2]);
                CGeoQuadrilateral<R> s;
                s.addVertex(corner(0, 0, 0)), s.addVertex(corner(1, 0, 0)), s.addVertex(corner(1, 1, 0)), s.addVertex(corner(0, 1, 0));
                CMshBasicMesher<R> b;
                b.generate(s, n[0], n[1], true);
                CMshExtrudedMesher<R> e;
                R h = len(a[2]) / R(n[2]);
                for (int l = 0; l < n[2]; ++l) e.generate(b.mesh(), h, R(1e-9));
                m = e.mesh();
                m.mergeNodes(R(1e-6));
            }
            int nn = m.nbNodes();
            std::vector<int> order(nn), back(nn), eo(m.nbElements());
            for (int i = 0; i < nn; ++i) order[i] = i;
            std::shuffle(order.begin(), order.end(), g);
            for (int i = 0; i < nn; ++i)
            {
                V<R> p = v<R>(m.node(m.nodeId(order[i])));
                bool border = false;
                V<R> t = p - o;
                R D = det(a[0], a[1], a[2]), f[3] = { det(t, a[1], a[2]) / D, det(a[0], t, a[2]) / D, det(a[0], a[1], t) / D };
                for (R u : f) border = border || u < R(1e-6) || u > R(1 - 1e-6);
                if (!border && kind == 1)
                    for (int d = 0; d < 3; ++d) p = p + a[d] * (U(-0.1, 0.1) / R(n[d]));
                back[order[i]] = i;
                mesh.addNode(1000 - i * 3, CMshNode<R>(p.x, p.y, p.z));
            }
            for (size_t i = 0; i < eo.size(); ++i) eo[i] = int(i);
            std::shuffle(eo.begin(), eo.end(), g);
            // ids in the order of the elements or in any order
            std::vector<int> id(eo.size());
            for (size_t i = 0; i < id.size(); ++i) id[i] = int(i);
            if (seed % 4) std::shuffle(id.begin(), id.end(), g);
            for (size_t k = 0; k < eo.size(); ++k)
            {
                CMshElement<R>& e = m.element(m.elementId(eo[k]));
                CMshElement<R> f(e.elementType());
                for (int i = 0; i < e.nbNodeIds(); ++i) f.addNodeId(1000 - 3 * back[m.nodeIndex(e.nodeId(i))]);
                mesh.addElement(id[k] * 2 + 11, f);
            }
            mesh.generateFaces(R(1e-6));
            mesh.calculateFaceCentroid();
            mesh.calculateElementCentroid();
        }
        std::vector<V<R>> corners(Integer faceId)
        {
            std::vector<V<R>> p;
            for (int j = 0; j < mesh.face(faceId).nbNodeIds(); ++j) p.push_back(v<R>(mesh.node(mesh.face(faceId).nodeId(j))));
            return p;
        }
        // area times outward normal of a mesh face (planar)
        V<R> area(Integer faceId)
        {
            std::vector<V<R>> p = corners(faceId);
            V<R> s = v3(R(0), R(0), R(0));
            for (size_t i = 1; i + 1 < p.size(); ++i) s = s + cross(p[i] - p[0], p[i + 1] - p[0]) * R(0.5);
            return s;
        }
        V<R> mean(const std::vector<V<R>>& p)
        {
            V<R> s = v3(R(0), R(0), R(0));
            for (auto& x : p) s = s + x;
            return s * (R(1) / R(int(p.size())));
        }
        V<R> faceMean(Integer id) { return mean(corners(id)); }
        V<R> elementMean(Integer id)
        {
            std::vector<V<R>> p;
            for (int j = 0; j < mesh.element(id).nbNodeIds(); ++j) p.push_back(v<R>(mesh.node(mesh.element(id).nodeId(j))));
            return mean(p);
        }
        R size(Integer id)
        {
            R s = R(0);
            for (int j = 0; j < mesh.element(id).nbFaceIds(); ++j) s = s + dot(faceMean(mesh.element(id).faceId(j)) - o, area(mesh.element(id).faceId(j)));
            return s / R(3);
        }
    };
    // one to three boxes of any size, two in a row and the third beside the second; numbers neither from zero nor in order
    template <class C> CMshMesh<typename C::R> boxMesh(C& c, int turn, int n)
    {
        typedef typename C::R R;
        CMshMesh<R> m;
        std::map<std::array<int, 3>, int> at;
        R x[4] = { R(0) }, y[3] = { R(0) }, z = R(0);
        for (int i = 0; i < 3; ++i)
        {
            R s = c.real("x" + std::to_string(i));
            c.require(c.gt(s, R(0.01)));
            x[i + 1] = x[i] + s;
        }
        for (int i = 0; i < 2; ++i)
        {
            R s = c.real("y" + std::to_string(i));
            c.require(c.gt(s, R(0.01)));
            y[i + 1] = y[i] + s;
        }
        z = c.real("z");
        c.require(c.gt(z, R(0.01)));
        const int cell[3][2] = { { 0, 0 }, { 1, 0 }, { 1, 1 } };
        const int K[8][3] = { { 0, 0, 1 }, { 1, 0, 1 }, { 1, 1, 1 }, { 0, 1, 1 }, { 0, 0, 0 }, { 1, 0, 0 }, { 1, 1, 0 }, { 0, 1, 0 } };
        int next = 40;
        for (int e = n - 1; e >= 0; --e)
        {
            CMshElement<R> el(ET_HEXAHEDRON);
            for (auto& k : K)
            {
                std::array<int, 3> p = { cell[e][0] + k[0], cell[e][1] + k[1], k[2] };
                if (!at.count(p))
                {
                    R q[3] = { R(p[0]), R(p[1]), R(p[2]) };
                    at[p] = next;
                    m.addNode(next, CMshNode<R>(q[turn], q[(turn + 1) % 3], q[(turn + 2) % 3]));
                    next -= 3;
                }
                el.addNodeId(at[p]);
            }
            m.addElement(7 - 2 * e, el);
        }
        m.generateFaces(R(1e-6));
        for (auto& kv : at)
        {
            R q[3] = { x[kv.first[0]], y[kv.first[1]], kv.first[2] ? z : R(0) };
            CMshNode<R>& nd = m.node(kv.second);
            nd.x() = q[turn], nd.y() = q[(turn + 1) % 3], nd.z() = q[(turn + 2) % 3];
        }
        return m;
    }
}
