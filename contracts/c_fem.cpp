#include "geo_common.hpp"
#include "CmnTypes.hpp"
#include "GeoCoordinateSystem.hpp"
#include "FemBeam.hpp"
#include "FemTriangle.hpp"
#include "FemQuadrilateral.hpp"
#include "FemTetrahedron.hpp"
#include "FemTriangularPrism.hpp"
#include "FemHexahedron.hpp"
#include "FemLinearTemperatureBeam.hpp"
#include "FemLinearTemperatureTriangle.hpp"
#include "FemLinearTemperatureQuadrilateral.hpp"
#include "FemConstantStrainTriangle.hpp"
#include "FemConstantStrainTetrahedron.hpp"
#include "FemFlowTriangle.hpp"
#include "FemFlowTetrahedron.hpp"
using namespace spec;
using namespace ENigMA::geometry;
using namespace ENigMA::fem;
using namespace ENigMA::fem::thermal;
using namespace ENigMA::fem::structural;
using namespace ENigMA::fem::flow;

namespace
{
    template <class C, class M> void symmetricZeroSums(C& c, const std::string& what, const M& K, int n)
    {
        typedef typename C::R R;
        c.ensure(what + " is " + std::to_string(n) + " by " + std::to_string(n), c.is(K.rows() == n && K.cols() == n));
        for (int i = 0; i < n; ++i)
        {
            R s = R(0);
            double m = 1;
            for (int j = 0; j < n; ++j) m += c.mag(K(i, j));
            for (int j = 0; j < n; ++j)
            {
                if (j > i) c.ensure(what + " is symmetric", c.eq(K(i, j), K(j, i), m));
                s = s + K(i, j);
            }
            c.ensure(what + " leaves constants alone (zero row sums)", c.eq(s, R(0), m));
        }
    }
    template <class R, class M> R bilinear(const M& K, const std::vector<R>& a, const std::vector<R>& b)
    {
        R s = R(0);
        for (size_t i = 0; i < a.size(); ++i)
            for (size_t j = 0; j < b.size(); ++j) s = s + a[i] * K(i, j) * b[j];
        return s;
    }
    template <class R> R coord(const V<R>& p, int k) { return k == 0 ? p.x : k == 1 ? p.y : p.z; }
    // nodal values of the k-th coordinate
    template <class R> std::vector<R> nodal(const std::vector<V<R>>& p, int k)
    {
        std::vector<R> r;
        for (size_t i = 0; i < p.size(); ++i) r.push_back(coord(p[i], k));
        return r;
    }
    // energy of linear fields: u'K w = -measure * grad u . grad w
    template <class C, class M> void linearEnergy(C& c, const M& K, const std::vector<V<typename C::R>>& p, int dim, typename C::R measure)
    {
        typedef typename C::R R;
        for (int k = 0; k < dim; ++k)
            for (int l = 0; l < dim; ++l)
            {
                double m = 4;
                for (size_t i = 0; i < p.size(); ++i)
                    for (size_t j = 0; j < p.size(); ++j) m += c.mag(coord(p[i], k) * K(i, j) * coord(p[j], l));
                c.ensure("energy of linear fields is minus the measure times the product of the gradients", c.eq(bilinear<R>(K, nodal(p, k), nodal(p, l)), k == l ? -measure : R(0), m));
            }
    }
    // the first two axes of an arbitrary orthonormal frame
    template <class C> void frame(C& c, V<typename C::R>& e1, V<typename C::R>& e2)
    {
        typedef typename C::R R;
        R w = c.real("q0"), x = c.real("q1"), y = c.real("q2"), z = c.real("q3"), n = w * w + x * x + y * y + z * z;
        c.require(c.gt(n, 0));
        e1 = v3<R>(w * w + x * x - y * y - z * z, R(2) * (x * y + w * z), R(2) * (x * z - w * y)) * (R(1) / n);
        e2 = v3<R>(R(2) * (x * y - w * z), w * w - x * x + y * y - z * z, R(2) * (y * z + w * x)) * (R(1) / n);
    }
    // equal up to the accuracy of the tabulated Gauss points
    template <class C, class R> typename C::B within(C& c, R a, R b, R scale)
    {
        return c.le(a - b, scale * R(1e-7)) && c.le(b - a, scale * R(1e-7));
    }
    template <class E, class R> void addAll(E& e, const std::vector<V<R>>& p)
    {
        for (size_t i = 0; i < p.size(); ++i) e.addVertex(P(p[i]));
    }
}

CONTRACT("F01", beam, "CFemBeam::update (laplacian, divergence, ddt), setSourceOnNode")
{
    typedef typename C::R R;
    V<R> a = vec(c, "a"), b = vec(c, "b");
    R k = c.real("k"), u = c.real("u"), dt = c.real("dt"), A = c.real("A");
    c.require(c.gt(n2(b - a), 0));
    c.require(c.gt(dt, 0));
    CFemBeam<R, 2, 1, 1> e;
    CGeoCoordinate<R> pa = P(a), pb = P(b);
    e.setStartPoint(pa);
    e.setEndPoint(pb);
    e.calculateLength();
    e.m_sectionArea = A;
    e.setDiffusionCoefficient(k);
    e.setConvectionCoefficient(u);
    e.setDt(dt);
    bool tr = c.choose("transient", 2);
    e.setTransient(tr);
    int twice = c.choose("updates", 2);
    for (int i = 0; i <= twice; ++i) e.update();
    R L = e.length();
    for (int i = 0; i < 2; ++i)
        for (int j = 0; j < 2; ++j)
        {
            c.ensure("diffusion is k A / L times the difference matrix", c.eq(e.laplacian(i, j) * L, (i == j ? R(-1) : R(1)) * k * A));
            c.ensure("convection is u/2 times the difference of the nodes", c.eq(e.divergence(i, j) * R(2), (j == 0 ? R(-1) : R(1)) * u));
            if (tr) c.ensure("the mass matrix is A L (1/3, 1/6) over the time step", c.eq(e.ddt(i, j) * dt * R(6), A * L * (i == j ? R(2) : R(1))));
        }
    R s = c.real("s");
    int n = c.choose("node", 2);
    e.setSourceOnNode(n, s);
    e.setSourceOnNode(n, s);
    c.ensure("sources accumulate on their node", c.eq(e.source(n), s * R(2)) && c.eq(e.source(1 - n), R(0)));
}
CONTRACT("F01", triangle, "CFemTriangle::rebuild/update (laplacian, ddt) in any plane")
{
    typedef typename C::R R;
    std::vector<V<R>> p;
    if (c.choose("plane z=0", 2))
        for (int i = 0; i < 3; ++i)
        {
            R x = c.real(nm("x", i)), y = c.real(nm("y", i));
            p.push_back(v3<R>(x, y, R(0)));
        }
    else
    {
        // every triangle in space: first corner, length of the first edge along a unit vector, rest in the plane
        V<R> o = vec(c, "o"), e1, e2;
        frame(c, e1, e2);
        R l = c.real("l"), a = c.real("a"), b = c.real("b");
        c.require(c.gt(l, 0));
        p = { o, o + e1 * l, o + e1 * a + e2 * b };
    }
    R t = c.real("t"), dt = c.real("dt");
    c.require(c.gt(dt, 0));
    c.require(c.gt(n2(cross(p[1] - p[0], p[2] - p[0])), 0));
    CFemTriangle<R, 3, 1, 1> e;
    addAll(e, p);
    e.calculateArea();
    e.setThickness(t);
    e.setDt(dt);
    bool tr = c.choose("transient", 2);
    e.setTransient(tr);
    e.update();
    R A = e.area();
    c.ensure("laplacian is 3 by 3", c.is(e.laplacian.rows() == 3 && e.laplacian.cols() == 3));
    for (int i = 0; i < 3; ++i)
        for (int j = 0; j < 3; ++j)
        {
            V<R> ei = p[(i + 2) % 3] - p[(i + 1) % 3], ej = p[(j + 2) % 3] - p[(j + 1) % 3];
            c.ensure("diffusion matrix is minus the product of the opposite edges over four areas", c.eq(e.laplacian(i, j) * A * R(4), -t * dot(ei, ej)));
            if (tr) c.ensure("mass matrix is A t (1/6, 1/12) over the time step", c.eq(e.ddt(i, j) * dt * R(12), A * t * (i == j ? R(2) : R(1))));
        }
    symmetricZeroSums(c, "diffusion matrix", e.laplacian, 3);
}
CONTRACT("F01", sources, "CFemTriangle/CFemQuadrilateral/CFemTetrahedron/CFemTriangularPrism/CFemHexahedron::setSourceOnNode/setSourceOnEdge on top of any sources")
{
    typedef typename C::R R;
    R s = c.real("s"), w = c.real("w");
    int kind = c.choose("kind", 5), nodes[] = { 3, 4, 4, 6, 8 }, N = nodes[kind];
    auto run = [&](auto& e) {
        int i = c.choose("edge", kind < 2 ? N : N - 1), n = c.choose("node", N);
        std::vector<R> before(N);
        for (int k = 0; k < N; ++k) c.ensure("no source at first", c.eq(e.source(k), R(0)));
        for (int k = 0; k < N; ++k) e.source(k) = before[k] = c.real(nm("before", k));
        e.setSourceOnEdge(i, s);
        e.setSourceOnNode(n, w);
        for (int k = 0; k < N; ++k)
            c.ensure("an edge load is shared by its two nodes, a nodal one stays, others are kept", c.eq(e.source(k), before[k] + (k == i || k == (i + 1) % N ? s / R(2) : R(0)) + (k == n ? w : R(0))));
    };
    if (kind == 0) { CFemTriangle<R, 3, 1, 1> e; run(e); }
    if (kind == 1) { CFemQuadrilateral<R, 4, 1, 1> e; run(e); }
    if (kind == 2) { CFemTetrahedron<R, 4, 1, 1> e; run(e); }
    if (kind == 3) { CFemTriangularPrism<R, 6, 1, 1> e; run(e); }
    if (kind == 4) { CFemHexahedron<R, 8, 1, 1> e; run(e); }
}
CONTRACT("F01", quadrilateral, "CFemQuadrilateral::rebuild/update (laplacian) for convex quadrilaterals in any plane")
{
    typedef typename C::R R;
    // every convex quadrilateral: corners 0, 1, 3 of a triangle and the fourth beyond the diagonal
    V<R> o, d, f;
    R s = c.real("s"), r = c.real("r");
    c.require(c.gt(s, 0) && c.gt(r, 0) && c.gt(s + r, R(1)));
    R d0, d1, f0, f1; // in-plane coordinates
    if (c.choose("plane z=0", 2))
    {
        R x = c.real("x"), y = c.real("y");
        o = v3<R>(x, y, R(0));
        d0 = c.real("dx"), d1 = c.real("dy"), f0 = c.real("fx"), f1 = c.real("fy");
        d = v3<R>(d0, d1, R(0));
        f = v3<R>(f0, f1, R(0));
    }
    else
    {
        V<R> e1, e2;
        frame(c, e1, e2);
        o = vec(c, "o");
        d0 = c.real("l"), d1 = R(0), f0 = c.real("a"), f1 = c.real("b");
        c.require(c.gt(d0, 0));
        d = e1 * d0;
        f = e1 * f0 + e2 * f1;
        c.require(c.ne(o.z, R(0)) || c.ne(o.z + d.z, R(0)) || c.ne(o.z + d.z * s + f.z * r, R(0))); // not the plane z=0
    }
    R k = d0 * f1 - d1 * f0;
    bool ccw = c.choose("ccw", 2);
    c.require(ccw ? c.gt(k, 0) : c.lt(k, 0));
    std::vector<V<R>> p { o, o + d, o + d * s + f * r, o + f };
    R t = c.real("t");
    CFemQuadrilateral<R, 4, 1, 1> e;
    addAll(e, p);
    e.setThickness(t);
    e.update();
    R A = k * (s + r) * (ccw ? R(0.5) : R(-0.5));
    symmetricZeroSums(c, "diffusion matrix", e.laplacian, 4);
    std::vector<V<R>> u { v3<R>(R(0), R(0), R(0)), v3<R>(d0, d1, R(0)), v3<R>(d0 * s + f0 * r, d1 * s + f1 * r, R(0)), v3<R>(f0, f1, R(0)) };
    linearEnergy(c, e.laplacian, u, 2, A * t);
}
CONTRACT("F01", quadrilateral_parallelogram, "CFemQuadrilateral::update (laplacian, ddt) for parallelograms in z=0")
{
    typedef typename C::R R;
    R ox = c.real("ox"), oy = c.real("oy"), dx = c.real("dx"), dy = c.real("dy"), ex = c.real("ex"), ey = c.real("ey");
    V<R> o = v3<R>(ox, oy, R(0)), d = v3<R>(dx, dy, R(0)), f = v3<R>(ex, ey, R(0));
    R k = dx * ey - dy * ex;
    bool ccw = c.choose("ccw", 2);
    c.require(ccw ? c.gt(k, 0) : c.lt(k, 0));
    std::vector<V<R>> p { o, o + d, o + d + f, o + f };
    R t = c.real("t"), dt = c.real("dt");
    c.require(c.gt(dt, 0) && c.gt(t, 0));
    CFemQuadrilateral<R, 4, 1, 1> e;
    addAll(e, p);
    e.setThickness(t);
    bool tr = c.choose("transient", 2);
    e.setTransient(tr);
    e.setDt(dt);
    e.update();
    R A = ccw ? k : -k;
    if (tr)
        for (int i = 0; i < 4; ++i)
            for (int j = 0; j < 4; ++j)
            {
                int m = (j - i + 4) % 4;
                c.ensure("mass matrix is A t / 36 times (4, 2, 1, 2) over the time step", within(c, e.ddt(i, j) * dt * R(36), A * t * R(m == 0 ? 4 : m == 2 ? 1 : 2), A * t));
            }
    // the twist mode, which linear fields do not see: integral of the squared gradient of xi*eta
    std::vector<R> h { R(1), R(-1), R(1), R(-1) };
    R S = dx * dx + dy * dy + ex * ex + ey * ey;
    c.ensure("energy of the twist mode", within(c, bilinear<R>(e.laplacian, h, h) * A * R(3), -t * S * R(4), t * S));
}
CONTRACT("F01", tetrahedron, "CFemTetrahedron::rebuild/update (laplacian, ddt), sources")
{
    typedef typename C::R R;
    std::vector<V<R>> p;
    for (int i = 0; i < 4; ++i) p.push_back(vec(c, nm("p", i)));
    R dt = c.real("dt");
    c.require(c.gt(dt, 0));
    CFemTetrahedron<R, 4, 1, 1> e;
    addAll(e, p);
    e.calculateVolume();
    int inv = c.choose("inverted", 2);
    R sg = inv ? R(-1) : R(1), vol = e.volume() * sg; // either orientation of the nodes
    c.require(c.gt(vol, 0));
    bool tr = c.choose("transient", 2);
    e.setTransient(tr);
    e.setDt(dt);
    e.update();
    if (tr)
    {
        for (int i = 0; i < 4; ++i)
            for (int j = 0; j < 4; ++j) c.ensure("mass matrix is V (1/10, 1/20) over the time step", c.eq(e.ddt(i, j) * dt * R(20), vol * (i == j ? R(2) : R(1))));
        return;
    }
    symmetricZeroSums(c, "diffusion matrix", e.laplacian, 4);
    linearEnergy(c, e.laplacian, p, 3, vol);
    R s = c.real("s"), w = c.real("w");
    int i = c.choose("edge", 3), n = c.choose("node", 4);
    e.setSourceOnEdge(i, s);
    e.setSourceOnNode(n, w);
    for (int k = 0; k < 4; ++k)
        c.ensure("an edge load is shared by its two nodes, a nodal one stays", c.eq(e.source(k), (k == i || k == i + 1 ? s / R(2) : R(0)) + (k == n ? w : R(0))));
}
namespace
{
    // affine image of a unit cell: corner and three edge vectors, volume positive
    template <class C> struct Affine {
        typedef typename C::R R;
        V<R> o, a, b, d;
        R det;
        Affine(C& c)
        {
            o = vec(c, "o"), a = vec(c, "a"), b = vec(c, "b"), d = vec(c, "d");
            det = dot(d, cross(a, b));
            c.require(c.gt(det, 0));
        }
        V<R> at(int i, int j, int k) const { return o + a * R(i) + b * R(j) + d * R(k); }
    };
}
CONTRACT("F01", prism, "CFemTriangularPrism::update (laplacian) for affine prisms")
{
    typedef typename C::R R;
    Affine<C> g(c);
    std::vector<V<R>> p { g.at(0, 0, 0), g.at(1, 0, 0), g.at(0, 1, 0), g.at(0, 0, 1), g.at(1, 0, 1), g.at(0, 1, 1) };
    CFemTriangularPrism<R, 6, 1, 1> e;
    addAll(e, p);
    e.update();
    symmetricZeroSums(c, "diffusion matrix", e.laplacian, 6);
    R m = bilinear<R>(e.laplacian, nodal(p, 0), nodal(p, 0));
    c.ensure("energy is negative", c.lt(m, R(0)));
    linearEnergy(c, e.laplacian, p, 3, -m);
}
CONTRACT("F01", prism_exact, "CFemTriangularPrism::update (laplacian), scale")
{
    typedef typename C::R R;
    R h = c.in("h", 0.5, 2);
    std::vector<V<R>> p;
    for (int k = 0; k < 2; ++k)
    {
        p.push_back(v3<R>(R(0), R(0), h * R(k)));
        p.push_back(v3<R>(R(1), R(0), h * R(k)));
        p.push_back(v3<R>(R(0), R(1), h * R(k)));
    }
    CFemTriangularPrism<R, 6, 1, 1> e;
    addAll(e, p);
    e.update();
    c.ensure("energy of a linear field is minus the volume", c.eq(bilinear<R>(e.laplacian, nodal(p, 0), nodal(p, 0)) * R(2), -h));
}
CONTRACT("F01", hexahedron, "CFemHexahedron::update (laplacian, ddt) for affine cells numbered along xi, eta, zeta")
{
    typedef typename C::R R;
    Affine<C> g(c);
    std::vector<V<R>> p;
    for (int n = 0; n < 8; ++n) p.push_back(g.at(n & 1, n >> 1 & 1, n >> 2));
    R dt = c.real("dt");
    c.require(c.gt(dt, 0));
    CFemHexahedron<R, 8, 1, 1> e;
    addAll(e, p);
    bool tr = c.choose("transient", 2);
    e.setTransient(tr);
    e.setDt(dt);
    e.update();
    if (tr)
    {
        for (int i = 0; i < 8; ++i)
            for (int j = 0; j < 8; ++j)
            {
                int k = i ^ j, s = ((k & 1) ? 1 : 2) * ((k & 2) ? 1 : 2) * ((k & 4) ? 1 : 2);
                c.ensure("mass matrix is V / 216 times the product of 2 or 1 per direction", within(c, e.ddt(i, j) * dt * R(216), g.det * R(s), g.det));
            }
        return;
    }
    symmetricZeroSums(c, "diffusion matrix", e.laplacian, 8);
    linearEnergy(c, e.laplacian, p, 3, g.det);
}
RUNTIME_CONTRACT("F01", hexahedron_mesh_numbering, "CFemHexahedron::update with the corners numbered as in the mesh", "generated affine cells")
{
    typedef typename C::R R;
    Affine<C> g(c);
    std::vector<V<R>> p { g.at(0, 0, 0), g.at(1, 0, 0), g.at(1, 1, 0), g.at(0, 1, 0), g.at(0, 0, 1), g.at(1, 0, 1), g.at(1, 1, 1), g.at(0, 1, 1) };
    CFemHexahedron<R, 8, 1, 1> e;
    addAll(e, p);
    e.update();
    linearEnergy(c, e.laplacian, p, 3, g.det);
}
RUNTIME_CONTRACT("F01", hexahedron_distorted, "CFemHexahedron::update (laplacian) on distorted cells", "generated distortions of a cube by up to 15 percent of its side")
{
    typedef typename C::R R;
    std::vector<V<R>> p;
    for (int n = 0; n < 8; ++n)
    {
        R x = c.in(nm("x", n), -0.15, 0.15), y = c.in(nm("y", n), -0.15, 0.15), z = c.in(nm("z", n), -0.15, 0.15);
        p.push_back(v3<R>(x + R(n & 1), y + R(n >> 1 & 1), z + R(n >> 2)));
    }
    // volume of the trilinear cell
    R vol = R(0);
    const double gp[3] = { -std::sqrt(0.6), 0, std::sqrt(0.6) }, gw[3] = { 5.0 / 9, 8.0 / 9, 5.0 / 9 };
    for (int a = 0; a < 27; ++a)
    {
        double q[3] = { gp[a % 3], gp[a / 3 % 3], gp[a / 9] };
        V<R> d[3];
        for (int k = 0; k < 3; ++k)
        {
            d[k] = v3<R>(R(0), R(0), R(0));
            for (int n = 0; n < 8; ++n)
            {
                double f = 0.125;
                for (int l = 0; l < 3; ++l)
                {
                    int s = (n >> l & 1) ? 1 : -1;
                    f *= l == k ? s : 1 + s * q[l];
                }
                d[k] = d[k] + p[n] * R(f);
            }
        }
        vol = vol + R(gw[a % 3] * gw[a / 3 % 3] * gw[a / 9]) * det(d[0], d[1], d[2]);
    }
    CFemHexahedron<R, 8, 1, 1> e;
    addAll(e, p);
    e.update();
    symmetricZeroSums(c, "diffusion matrix", e.laplacian, 8);
    linearEnergy(c, e.laplacian, p, 3, vol);
}
CONTRACT("F01", convection_edge, "CFemLinearTemperatureTriangle/Quadrilateral/Beam::setConvectionOnEdge")
{
    typedef typename C::R R;
    R h = c.real("h"), T = c.real("T"), t = c.real("t");
    int n = 3 + c.choose("quad", 2);
    std::vector<V<R>> p;
    for (int i = 0; i < n; ++i) p.push_back(vec(c, nm("p", i)));
    int i = c.choose("edge", n), j = (i + 1) % n;
    c.require(c.gt(n2(p[j] - p[i]), 0));
    auto run = [&](auto& e) {
        addAll(e, p);
        e.setThickness(t);
        e.laplacian.resize(n, n);
        R k0 = c.real("k0"), s0 = c.real("s0");
        for (int a = 0; a < n; ++a)
        {
            e.source(a) = s0;
            for (int b = 0; b < n; ++b) e.laplacian(a, b) = k0;
        }
        e.setConvectionOnEdge(i, h, T);
        // what the condition adds
        for (int a = 0; a < n; ++a)
        {
            e.source(a) -= s0;
            for (int b = 0; b < n; ++b) e.laplacian(a, b) -= k0;
        }
        R L2 = n2(p[j] - p[i]);
        for (int a = 0; a < n; ++a)
        {
            bool on = a == i || a == j;
            R s = R(0);
            for (int b = 0; b < n; ++b)
            {
                R k = e.laplacian(a, b);
                s = s + k;
                bool onb = b == i || b == j;
                c.ensure("exchange couples the nodes of the edge only", !on || !onb ? c.eq(k, R(0)) : c.eq(k * k * R(36), h * h * t * t * L2 * R(a == b ? 4 : 1)));
                c.ensure("exchange is positive with the coefficient and thickness", !on || !onb ? c.eq(k, R(0)) : c.ge(k * h * t, R(0)));
            }
            c.ensure("a body at the surrounding temperature exchanges nothing", c.eq(s * T, e.source(a)));
        }
    };
    if (n == 3) { CFemLinearTemperatureTriangle<R, 3, 1, 1> e; run(e); }
    else { CFemLinearTemperatureQuadrilateral<R, 4, 1, 1> e; run(e); }
}
CONTRACT("F01", convection_beam, "CFemLinearTemperatureBeam::setConvectionOnEdge")
{
    typedef typename C::R R;
    R h = c.real("h"), T = c.real("T"), P_ = c.real("P");
    V<R> a = vec(c, "a"), b = vec(c, "b");
    c.require(c.gt(n2(b - a), 0));
    CFemLinearTemperatureBeam<R, 2, 1, 1> e;
    CGeoCoordinate<R> pa = P(a), pb = P(b);
    e.setStartPoint(pa);
    e.setEndPoint(pb);
    e.calculateLength();
    e.m_perimeter = P_;
    e.update();
    R s0 = c.real("s0"), s1 = c.real("s1");
    e.source(0) = s0;
    e.source(1) = s1;
    R k00 = e.laplacian(0, 0), k11 = e.laplacian(1, 1), k01 = e.laplacian(0, 1), k10 = e.laplacian(1, 0);
    e.setConvectionOnEdge(h, T);
    e.source(0) -= s0;
    e.source(1) -= s1;
    R tot = h * P_ * e.length();
    c.ensure("the exchange coefficients add up to that of the surface", c.eq(e.laplacian(0, 0) + e.laplacian(1, 1) + e.laplacian(0, 1) + e.laplacian(1, 0) - k00 - k11 - k01 - k10, tot));
    c.ensure("the loads add up to that of the surface", c.eq(e.source(0) + e.source(1), tot * T));
    c.ensure("and are shared equally", c.eq(e.source(0), e.source(1)) && c.eq(e.laplacian(0, 0) - k00, e.laplacian(1, 1) - k11));
    c.ensure("a body at the surrounding temperature exchanges nothing", c.eq((e.laplacian(0, 0) - k00 + e.laplacian(0, 1) - k01) * T, e.source(0)));
}
// ---- elasticity
CONTRACT("F02", strain_triangle, "CFemConstantStrainTriangle::update (laplacian), CFemTriangle<3,2,1>::calculateB")
{
    typedef typename C::R R;
    std::vector<V<R>> p;
    for (int i = 0; i < 3; ++i)
    {
        R x = c.real(nm("x", i)), y = c.real(nm("y", i));
        p.push_back(v3<R>(x, y, R(0)));
    }
    R k = cross(p[1] - p[0], p[2] - p[0]).z;
    c.require(c.gt(k, 0));
    R E = c.real("E"), nu = c.real("nu"), t = c.real("t");
    c.require(c.ne(nu, R(1)) && c.ne(nu, R(-1)));
    CFemConstantStrainTriangle<R, 3, 2, 1> e;
    c.ensure("one load per degree of freedom, initially zero", c.is(e.source.size() == 6));
    for (int i = 0; i < (int)e.source.size(); ++i) c.ensure("one load per degree of freedom, initially zero", c.eq(e.source(i), R(0)));
    addAll(e, p);
    e.setThickness(t);
    e.setElasticModulus(E);
    e.setCoeffPoisson(nu);
    e.calculateArea();
    e.update();
    auto& K = e.laplacian;
    c.ensure("stiffness is 6 by 6", c.is(K.rows() == 6 && K.cols() == 6));
    for (int i = 0; i < 6; ++i)
        for (int j = i + 1; j < 6; ++j) c.ensure("stiffness is symmetric", c.eq(K(i, j), K(j, i)));
    // displacement fields u_m = coordinate q in direction d; strains exx, eyy, gxy
    for (int i = 0; i < 6; ++i)
    {
        R tx = R(0), ty = R(0), ro = R(0);
        for (int n = 0; n < 3; ++n)
        {
            tx = tx + K(i, 2 * n);
            ty = ty + K(i, 2 * n + 1);
            ro = ro - K(i, 2 * n) * p[n].y + K(i, 2 * n + 1) * p[n].x;
        }
        c.ensure("translations and rotations cause no forces", c.eq(tx, R(0), 1) && c.eq(ty, R(0), 1) && c.eq(ro, R(0), 1));
    }
    auto field = [&](int d, int q) {
        std::vector<R> u;
        for (int n = 0; n < 3; ++n)
            for (int m = 0; m < 2; ++m) u.push_back(m == d ? (q == 0 ? p[n].x : p[n].y) : R(0));
        return u;
    };
    R A = e.area(), f = E * A * t;
    std::vector<R> ux = field(0, 0), uy = field(1, 1), us = field(0, 1);
    R w = R(1) - nu * nu;
    c.ensure("energy of stretching along x", c.eq(bilinear<R>(K, ux, ux) * w, f));
    c.ensure("energy of stretching along y", c.eq(bilinear<R>(K, uy, uy) * w, f));
    c.ensure("energy coupling of the stretches", c.eq(bilinear<R>(K, ux, uy) * w, f * nu));
    c.ensure("energy of shearing", c.eq(bilinear<R>(K, us, us) * (R(1) + nu) * R(2), f));
    c.ensure("shear and stretch do not couple", c.eq(bilinear<R>(K, us, ux), R(0), 1) && c.eq(bilinear<R>(K, us, uy), R(0), 1));
}
CONTRACT("F02", strain_tetrahedron, "CFemConstantStrainTetrahedron::update (laplacian), CFemTetrahedron<4,3,1>::calculateB")
{
    typedef typename C::R R;
    std::vector<V<R>> p;
    for (int i = 0; i < 4; ++i) p.push_back(vec(c, nm("p", i)));
    R E = c.real("E"), nu = c.real("nu");
    c.require(c.ne(nu, R(0.5)) && c.ne(nu, R(-1)));
    CFemConstantStrainTetrahedron<R, 4, 3, 1> e;
    addAll(e, p);
    e.setElasticModulus(E);
    e.setCoeffPoisson(nu);
    e.calculateVolume();
    int inv = c.choose("inverted", 2);
    R sg = inv ? R(-1) : R(1), vol = e.volume() * sg; // either orientation of the nodes
    c.require(c.gt(vol, 0));
    e.update();
    auto& K = e.laplacian;
    c.ensure("one load per degree of freedom, initially zero", c.is(e.source.size() == 12));
    for (int i = 0; i < (int)e.source.size(); ++i) c.ensure("one load per degree of freedom, initially zero", c.eq(e.source(i), R(0)));
    c.ensure("stiffness is 12 by 12", c.is(K.rows() == 12 && K.cols() == 12));
    for (int i = 0; i < 12; ++i)
        for (int j = i + 1; j < 12; ++j) c.ensure("stiffness is symmetric", c.eq(K(i, j), K(j, i)));
    for (int i = 0; i < 12; ++i)
        for (int d = 0; d < 3; ++d)
        {
            R t = R(0);
            for (int n = 0; n < 4; ++n) t = t + K(i, 3 * n + d);
            c.ensure("translations cause no forces", c.eq(t, R(0), 1));
        }
    auto field = [&](int d, int q) {
        std::vector<R> u;
        for (int n = 0; n < 4; ++n)
            for (int m = 0; m < 3; ++m) u.push_back(m == d ? coord(p[n], q) : R(0));
        return u;
    };
    // u'Kw = vol * (lambda tr e tr e' + 2 mu e:e') for the linear fields x_q in direction d
    R w = (R(1) + nu) * (R(1) - R(2) * nu);
    for (int a = 0; a < 9; ++a)
        for (int b = a; b < 9; ++b)
        {
            int d = a / 3, q = a % 3, d2 = b / 3, q2 = b % 3;
            R lam = (d == q && d2 == q2) ? nu : R(0);                                            // times E / w
            R mu = R((d == d2 && q == q2 ? 1 : 0) + (d == q2 && q == d2 ? 1 : 0)) * (R(0.5) - nu); // times E / w
            c.ensure("energy of linear displacement fields follows Hooke's law", c.eq(bilinear<R>(K, field(d, q), field(d2, q2)) * w, vol * E * (lam + mu)));
        }
}
// ---- flow
CONTRACT("F03", flow_triangle, "CFemFlowTriangle::calculate{Transient,Diffusive,Convective,Gradient}Term")
{
    typedef typename C::R R;
    std::vector<V<R>> p;
    for (int i = 0; i < 3; ++i)
    {
        R x = c.real(nm("x", i)), y = c.real(nm("y", i));
        p.push_back(v3<R>(x, y, R(0)));
    }
    R k = cross(p[1] - p[0], p[2] - p[0]).z;
    c.require(c.gt(k, 0));
    R dt = c.real("dt");
    c.require(c.gt(dt, 0));
    CFemFlowTriangle<R, 3, 1, 1> e;
    addAll(e, p);
    e.calculateArea();
    e.setDt(dt);
    R A = k * R(0.5), u[3], w[3], us = R(0), ws = R(0);
    for (int i = 0; i < 3; ++i) { u[i] = c.real(nm("u", i)); w[i] = c.real(nm("w", i)); us = us + u[i]; ws = ws + w[i]; }
    e.calculateConvectiveTerm(u, w);
    // shape function gradients times twice the area
    R b[3], g[3];
    for (int i = 0; i < 3; ++i)
    {
        V<R> o = p[(i + 2) % 3] - p[(i + 1) % 3];
        b[i] = -o.y;
        g[i] = o.x;
    }
    for (int i = 0; i < 3; ++i)
        for (int j = 0; j < 3; ++j)
        {
            // integral of N_i u . grad N_j, and the streamline term with the mean velocity
            R cv = ((us + u[i]) * b[j] + (ws + w[i]) * g[j]) / R(24);
            R st = dt * (us * b[i] + ws * g[i]) * (us * b[j] + ws * g[j]) / R(36);
            c.ensure("convection is the integral of N_i u.grad N_j minus the streamline term", c.eq((e.divergence(i, j) - cv) * A, -st));
        }
    for (int q = 0; q < 2; ++q)
    {
        e.calculateGradientTerm(q);
        for (int i = 0; i < 3; ++i)
            for (int j = 0; j < 3; ++j) c.ensure("gradient is the integral of N_i dN_j", c.eq(e.gradient(i, j) * R(6), q ? g[j] : b[j]));
    }
    e.calculateDiffusiveTerm();
    e.calculateTransientTerm();
    for (int i = 0; i < 3; ++i)
        for (int j = 0; j < 3; ++j)
        {
            c.ensure("diffusion is minus the integral of the gradients", c.eq(e.laplacian(i, j) * A * R(4), -(b[i] * b[j] + g[i] * g[j])));
            c.ensure("mass matrix is A (1/6, 1/12) over the time step", c.eq(e.ddt(i, j) * dt * R(12), A * (i == j ? R(2) : R(1))));
        }
}
CONTRACT("F03", flow_tetrahedron, "CFemFlowTetrahedron::calculate{Transient,Diffusive,Convective,Gradient}Term")
{
    typedef typename C::R R;
    std::vector<V<R>> p;
    for (int i = 0; i < 4; ++i) p.push_back(vec(c, nm("p", i)));
    R dt = c.real("dt");
    c.require(c.gt(dt, 0));
    CFemFlowTetrahedron<R, 4, 1, 1> e;
    addAll(e, p);
    e.calculateVolume();
    int inv = c.choose("inverted", 2);
    R sg = inv ? R(-1) : R(1), vol = e.volume() * sg; // either orientation of the nodes
    c.require(c.gt(vol, 0));
    e.setDt(dt);
    // shape function gradients times six volumes: linear, one at their node, zero at the others
    V<R> G_[4];
    R us[3] = { R(0), R(0), R(0) }, u[3][4];
    for (int i = 0; i < 4; ++i)
    {
        int a = (i + 1) % 4, b = (i + 2) % 4, d = (i + 3) % 4;
        V<R> n = cross(p[b] - p[a], p[d] - p[a]) * sg;
        R s = dot(n, p[i] - p[a]);                 // plus or minus six volumes
        G_[i] = n * ((i % 2) ? R(-1) : R(1));
        c.lemma("orientation of the facets", c.eq(s * ((i % 2) ? R(-1) : R(1)), vol * R(6)));
    }
    for (int q = 0; q < 3; ++q)
        for (int i = 0; i < 4; ++i) { u[q][i] = c.real(nm("u", q, i)); us[q] = us[q] + u[q][i]; }
    int part = c.choose("term", 3);
    if (part == 0)
    {
        e.calculateConvectiveTerm(u[0], u[1], u[2]);
        for (int i = 0; i < 4; ++i)
            for (int j = 0; j < 4; ++j)
            {
                R cv = R(0), si = R(0), sj = R(0);
                for (int q = 0; q < 3; ++q)
                {
                    cv = cv + (us[q] + u[q][i]) * coord(G_[j], q) / R(120);
                    si = si + us[q] * coord(G_[i], q);
                    sj = sj + us[q] * coord(G_[j], q);
                }
                c.ensure("convection is the integral of N_i u.grad N_j minus the streamline term", c.eq((e.divergence(i, j) - cv) * vol * R(576), -dt * si * sj));
            }
    }
    else if (part == 1)
        for (int q = 0; q < 3; ++q)
        {
            e.calculateGradientTerm(q);
            for (int i = 0; i < 4; ++i)
                for (int j = 0; j < 4; ++j) c.ensure("gradient is the integral of N_i dN_j", c.eq(e.gradient(i, j) * R(24), coord(G_[j], q)));
        }
    else
    {
        e.calculateDiffusiveTerm();
        e.calculateTransientTerm();
        for (int i = 0; i < 4; ++i)
            for (int j = 0; j < 4; ++j)
            {
                c.ensure("diffusion is minus the integral of the gradients", c.eq(e.laplacian(i, j) * vol * R(36), -dot(G_[i], G_[j])));
                c.ensure("mass matrix is V (1/10, 1/20) over the time step", c.eq(e.ddt(i, j) * dt * R(20), vol * (i == j ? R(2) : R(1))));
            }
    }
}
