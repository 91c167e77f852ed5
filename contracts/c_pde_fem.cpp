// The FEM operators: the system is the sum of the element matrices (whose own contracts are in c_fem.cpp),
// scattered by node index, whatever the ids of nodes and elements.
#include "geo_common.hpp"
#include "CmnTypes.hpp"
#include "PdeEquation.hpp"
#include "MshBasicMesher.hpp"
using namespace spec;
using namespace ENigMA::geometry;
using namespace ENigMA::mesh;
using namespace ENigMA::sle;
using namespace ENigMA::pde;
using namespace ENigMA::fem;
using namespace ENigMA::fem::thermal;
using namespace ENigMA::fem::structural;
using namespace ENigMA::fem::flow;

namespace
{
    const int NN = 9; // nodes of the test mesh, one of them in no element
    const EElementType TYPES[6] = { ET_BEAM, ET_TRIANGLE, ET_QUADRILATERAL, ET_TETRAHEDRON, ET_TRIANGULAR_PRISM, ET_HEXAHEDRON };
    const int SIZE[6] = { 2, 3, 4, 4, 6, 8 };
    // node numbers of two elements of a type: they share nodes, none or one is inverted
    const int CONN[6][2][8] = { { { 0, 3 }, { 3, 5 } }, { { 0, 3, 5 }, { 5, 3, 7 } }, { { 0, 1, 2, 3 }, { 3, 2, 6, 7 } }, { { 0, 1, 3, 4 }, { 4, 1, 3, 6 } },
        { { 0, 1, 3, 4, 5, 7 }, { 1, 2, 3, 5, 6, 7 } }, { { 0, 1, 2, 3, 4, 5, 6, 7 }, { 0, 1, 2, 3, 4, 5, 6, 7 } } };
    const double POS[8][3] = { { 0, 0, 0 }, { 1, 0, 0 }, { 1, 1, 0 }, { 0, 1, 0 }, { 0, 0, 2 }, { 1, 0, 2 }, { 1, 1, 2 }, { 0, 1, 2 } };

    template <class R> struct Local { // what one element contributes
        Eigen::Matrix<R, Eigen::Dynamic, Eigen::Dynamic> L, D, M;
        Eigen::Matrix<R, Eigen::Dynamic, 1> s;
    };
    template <class E, class R> Local<R> take(E& e)
    {
        Local<R> l;
        l.L = e.CFemElement<R>::laplacian, l.D = e.CFemElement<R>::divergence, l.M = e.CFemElement<R>::ddt, l.s = e.CFemElement<R>::source;
        return l;
    }
    template <class R> void size(CFemFace<R>& e) { e.calculateArea(); }
    template <class E> auto measure(E& e, int) -> decltype(e.calculateVolume()) { e.calculateVolume(); }
    template <class E> auto measure(E& e, long) -> decltype(e.calculateArea()) { e.calculateArea(); }
    template <class R> struct Convection {
        bool on = false;
        int side = 0;
        R h, t;
    };
    template <class R> void convection(CFemLinearTemperatureTriangle<R, 3, 1, 1>& e, const Convection<R>& v) { if (v.on) e.setConvectionOnEdge(v.side, v.h, v.t); }
    template <class E, class R> void convection(E&, const Convection<R>&) { }
    template <class E, class R> Local<R> solid(const std::vector<V<R>>& p, bool transient, const Convection<R>& v)
    {
        E e;
        for (size_t i = 0; i < p.size(); ++i) e.addVertex(P(p[i]));
        measure(e, 0);
        e.setTransient(transient);
        e.update();
        convection(e, v);
        return take<E, R>(e);
    }
    template <class R> void convection(CFemLinearTemperatureBeam<R, 2, 1, 1>& e, const Convection<R>& v) { if (v.on) e.setConvectionOnEdge(v.h, v.t); }
    template <class E, class R> Local<R> beam(const std::vector<V<R>>& p, bool transient, const Convection<R>& v)
    {
        E e;
        CGeoCoordinate<R> a = P(p[0]), b = P(p[1]);
        e.setStartPoint(a);
        e.setEndPoint(b);
        e.calculateLength();
        e.setTransient(transient);
        e.update();
        convection(e, v);
        return take<E, R>(e);
    }
    template <class R> Local<R> local(int type, bool thermal, const std::vector<V<R>>& p, bool tr, const Convection<R>& v)
    {
        switch (type * 2 + thermal)
        {
        case 0: return beam<CFemBeam<R, 2, 1, 1>, R>(p, tr, v);
        case 1: return beam<CFemLinearTemperatureBeam<R, 2, 1, 1>, R>(p, tr, v);
        case 2: return solid<CFemTriangle<R, 3, 1, 1>, R>(p, tr, v);
        case 3: return solid<CFemLinearTemperatureTriangle<R, 3, 1, 1>, R>(p, tr, v);
        case 4: return solid<CFemQuadrilateral<R, 4, 1, 1>, R>(p, tr, v);
        case 5: return solid<CFemLinearTemperatureQuadrilateral<R, 4, 1, 1>, R>(p, tr, v);
        case 6: return solid<CFemTetrahedron<R, 4, 1, 1>, R>(p, tr, v);
        case 7: return solid<CFemLinearTemperatureTetrahedron<R, 4, 1, 1>, R>(p, tr, v);
        case 8: return solid<CFemTriangularPrism<R, 6, 1, 1>, R>(p, tr, v);
        case 9: return solid<CFemLinearTemperatureTriangularPrism<R, 6, 1, 1>, R>(p, tr, v);
        case 10: return solid<CFemHexahedron<R, 8, 1, 1>, R>(p, tr, v);
        default: return solid<CFemLinearTemperatureHexahedron<R, 8, 1, 1>, R>(p, tr, v);
        }
    }
    // a mesh of two elements of one type and a lone node, with arbitrary ids and an id order different from the index order
    template <class C> struct Two {
        typedef typename C::R R;
        CMshMesh<R> mesh;
        std::vector<V<R>> p;
        std::vector<std::vector<int>> e; // node indices of the elements
        int nodeId[NN], elementId[2], type;
        R thickness[2];
        Two(C& c, int t, bool symbolic) : type(t)
        {
            int ids = c.choose("ids", 3);
            for (int i = 0; i < NN; ++i)
            {
                nodeId[i] = ids == 0 ? i : ids == 1 ? NN - 1 - i : (i * 5 % NN) * 3 + 20;
                V<R> q = v3<R>(R(i < 8 ? POS[i][0] : 5), R(i < 8 ? POS[i][1] : 5), R(i < 8 ? POS[i][2] : 5));
                if (symbolic)
                {
                    R x = c.real(nm("x", i)), y = c.real(nm("y", i));
                    q = v3<R>(x, y, c.real(nm("z", i)));
                }
                p.push_back(q);
            }
            elementId[0] = ids == 0 ? 0 : ids == 1 ? 1 : 71, elementId[1] = ids == 0 ? 1 : ids == 1 ? 0 : 7;
            for (int i = 0; i < NN; ++i) mesh.addNode(nodeId[i], CMshNode<R>(p[i].x, p[i].y, p[i].z));
            for (int k = 0; k < 2; ++k)
            {
                CMshElement<R> el(TYPES[t]);
                thickness[k] = R(1);
                std::vector<int> n(CONN[t][k], CONN[t][k] + SIZE[t]);
                for (int i : n) el.addNodeId(nodeId[i]);
                e.push_back(n);
                mesh.addElement(elementId[k], el);
            }
        }
        std::vector<V<R>> points(int k)
        {
            std::vector<V<R>> r;
            for (int i : e[k]) r.push_back(p[i]);
            return r;
        }
    };
    template <class C> CPdeField<typename C::R> field(Two<C>& m, ESimulationType s, int dofs)
    {
        CPdeField<typename C::R> f;
        f.setMesh(m.mesh);
        f.setDiscretMethod(DM_FEM);
        f.setDiscretLocation(DL_NODE);
        f.setSimulationType(s);
        f.setNbDofs(dofs);
        f.init();
        return f;
    }
    // what the sum over the elements must be
    template <class C> struct Sum {
        typedef typename C::R R;
        int n;
        std::vector<std::vector<R>> A;
        std::vector<R> b;
        Sum(int size) : n(size), A(size, std::vector<R>(size, R(0))), b(size, R(0)) { }
        template <class M> void add(const std::vector<int>& e, const M& K, int dofs = 1)
        {
            for (size_t i = 0; i < e.size(); ++i)
                for (size_t j = 0; j < e.size(); ++j)
                    for (int k = 0; k < dofs; ++k)
                        for (int l = 0; l < dofs; ++l) A[e[i] * dofs + k][e[j] * dofs + l] = A[e[i] * dofs + k][e[j] * dofs + l] + K(i * dofs + k, j * dofs + l);
        }
        void check(C& c, const CSleSystem<R>& s, const std::string& what)
        {
            c.ensure(what + ": one equation for each unknown", c.is(s.matrixA.rows() == n && s.matrixA.cols() == n && s.vectorB.size() == n));
            if (s.matrixA.rows() != n || s.vectorB.size() != n) return;
            typename C::B ok = c.is(true), ob = c.is(true);
            for (int i = 0; i < n; ++i)
            {
                double m = 0, mb = c.mag(b[i]);
                for (int j = 0; j < n; ++j) m += c.mag(A[i][j]);
                for (int j = 0; j < n; ++j) ok = ok && c.eq(s.matrixA.coeff(i, j), A[i][j], m);
                ob = ob && c.eq(s.vectorB(i), b[i], mb + m);
            }
            c.ensure(what + ": the matrix is the sum of the element matrices, by node index", ok);
            c.ensure(what + ": the right side is the sum of the element sources, by node index", ob);
        }
    };
    template <class C> void assembly(C& c, int t, bool symbolic, bool thermal)
    {
        typedef typename C::R R;
        Two<C> m(c, t, symbolic);
        CPdeField<R> f = field(m, thermal ? ST_THERMAL : ST_GENERIC, 1);
        for (int i = 0; i < NN; ++i) f.setValue(i, c.real(nm("u", i)));
        Convection<R> v[2];
        if (thermal && (t == 0 || t == 1))
        {
            int k = c.choose("element with convection", 2);
            v[k].on = true, v[k].side = t == 0 ? 0 : c.choose("edge with convection", 3), v[k].h = c.real("h"), v[k].t = c.real("Tinf");
            CPdeBoundaryCondition<R> bc(BT_HEAT_CONVECTIVE), other(BT_GENERIC_FIXED_VALUE);
            bc.addCondition(CT_HEAT_TRANSFER_COEFFICIENT, v[k].h);
            bc.addCondition(CT_HEAT_INFINITESIMAL_TEMPERATURE, v[k].t);
            f.addBCElement(m.elementId[k], v[k].side, bc);
            f.addBCElement(m.elementId[1 - k], 0, other);
        }
        int op = c.choose("operator", t == 0 ? 3 : t == 4 ? 1 : 2);
        Sum<C> s(NN);
        for (int k = 0; k < 2; ++k)
        {
            Local<R> l = local<R>(t, thermal, m.points(k), op == 1, op == 0 ? v[k] : Convection<R>());
            s.add(m.e[k], op == 0 ? l.L : op == 1 ? l.M : l.D);
            if (op == 0)
                for (size_t i = 0; i < m.e[k].size(); ++i) s.b[m.e[k][i]] = s.b[m.e[k][i]] + l.s(i);
        }
        if (op == 1)
            for (int i = 0; i < NN; ++i)
                for (int j = 0; j < NN; ++j) s.b[i] = s.b[i] + s.A[i][j] * f.value(j);
        CSleSystem<R> sys = op == 0 ? laplacian<R>(f) : op == 1 ? ddt<R>(f) : divergence<R>(f);
        s.check(c, sys, op == 0 ? "laplacian" : op == 1 ? "ddt" : "divergence");
        c.ensure("a matrix solved as symmetric is one", c.is(op == 2 ? sys.matrixType != MT_SPARSE_SYMMETRIC : sys.matrixType == MT_SPARSE_SYMMETRIC));
    }
}

BOUNDED_CONTRACT("P02", assembly_beam, "generic/thermal FEM ddt, laplacian, divergence on beams", "two elements sharing nodes, three numberings of nodes and elements; every coordinate, value and convection")
{
    assembly(c, 0, true, c.choose("thermal", 2));
}
BOUNDED_CONTRACT("P02", assembly_triangle, "generic/thermal FEM ddt, laplacian on triangles, convection on their edges", "two fixed elements sharing nodes, three numberings of nodes and elements; every value and convection")
{
    assembly(c, 1, false, c.choose("thermal", 2));
}
BOUNDED_CONTRACT("P02", assembly_tetrahedron, "generic/thermal FEM ddt, laplacian on tetrahedra", "two elements sharing nodes, three numberings of nodes and elements; every coordinate and value")
{
    assembly(c, 3, true, c.choose("thermal", 2));
}
BOUNDED_CONTRACT("P02", assembly_other, "generic/thermal FEM ddt, laplacian on quadrilaterals, triangular prisms, hexahedra", "two fixed elements sharing nodes, three numberings of nodes and elements; every value")
{
    int t = c.choose("cell", 3);
    assembly(c, t == 0 ? 2 : t + 3, false, c.choose("thermal", 2));
}
namespace
{
    template <class C> void withMaterial(C& c, CPdeField<typename C::R>& f, ENigMA::material::EPropertyType a, typename C::R x, ENigMA::material::EPropertyType b, typename C::R y)
    {
        ENigMA::material::CMatMaterial<typename C::R> m;
        m.addProperty(a, x);
        m.addProperty(b, y);
        f.setMaterial(m);
    }
}
BOUNDED_CONTRACT("P02", assembly_structural, "structural FEM laplacian on triangles, tetrahedra", "two fixed elements sharing nodes, three numberings of nodes and elements; every modulus, Poisson coefficient, thickness")
{
    using namespace ENigMA::material;
    typedef typename C::R R;
    int solidOne = c.choose("solid", 2), dofs = solidOne ? 3 : 2;
    Two<C> m(c, solidOne ? 3 : 1, false);
    R E = c.real("E"), nu = c.in("nu", 0.05, 0.45), th = c.real("thickness");
    m.mesh.element(m.elementId[1]).setThickness(th);
    CPdeField<R> f = field(m, ST_STRUCTURAL, dofs);
    withMaterial(c, f, PT_ELASTIC_MODULUS, E, PT_POISSON_COEFFICIENT, nu);
    Sum<C> s(NN * dofs);
    for (int k = 0; k < 2; ++k)
    {
        std::vector<V<R>> p = m.points(k);
        if (solidOne)
        {
            CFemConstantStrainTetrahedron<R, 4, 3, 1> e;
            e.setElasticModulus(E), e.setCoeffPoisson(nu);
            for (auto& q : p) e.addVertex(P(q));
            e.calculateVolume(), e.setTransient(false), e.update();
            s.add(m.e[k], e.CFemElement<R>::laplacian, dofs);
        }
        else
        {
            CFemConstantStrainTriangle<R, 3, 2, 1> e;
            e.setElasticModulus(E), e.setCoeffPoisson(nu);
            if (k == 1) e.setThickness(th);
            for (auto& q : p) e.addVertex(P(q));
            e.calculateArea(), e.setTransient(false), e.update();
            s.add(m.e[k], e.CFemElement<R>::laplacian, dofs);
        }
    }
    CSleSystem<R> sys = laplacian<R>(f);
    s.check(c, sys, "structural laplacian");
}
BOUNDED_CONTRACT("P02", assembly_flow, "flow FEM ddt, laplacian, divergence (two or three velocity components), gradient on triangles, tetrahedra", "two fixed elements sharing nodes, three numberings of nodes and elements; every velocity, density, viscosity, time step, thickness")
{
    using namespace ENigMA::material;
    typedef typename C::R R;
    int solidOne = c.choose("solid", 2);
    Two<C> m(c, solidOne ? 3 : 1, false);
    R rho = c.real("rho"), mu = c.real("mu"), th = c.real("thickness"), dt = c.real("dt");
    int op = c.choose("operator", 4);
    if (op > 0) m.mesh.element(m.elementId[1]).setThickness(th);
    CPdeField<R> f[3] = { field(m, ST_FLOW, 1), field(m, ST_FLOW, 1), field(m, ST_FLOW, 1) };
    for (int d = 0; d < 3; ++d)
    {
        withMaterial(c, f[d], PT_DENSITY, rho, PT_VISCOSITY, mu);
        for (int i = 0; i < NN; ++i) f[d].setValue(i, c.real("u" + std::to_string(d) + std::to_string(i)));
    }
    EComponent comp = EComponent(int(CP_X) + c.choose("component", solidOne ? 3 : 2));
    Sum<C> s(NN);
    for (int k = 0; k < 2; ++k)
    {
        std::vector<V<R>> p = m.points(k);
        R u[3][4];
        for (size_t i = 0; i < p.size(); ++i)
            for (int d = 0; d < 3; ++d) u[d][i] = f[d].value(m.e[k][i]);
        if (solidOne)
        {
            CFemFlowTetrahedron<R, 4, 1, 1> e;
            for (auto& q : p) e.addVertex(P(q));
            e.calculateVolume(), e.setDensity(rho), e.setViscosity(mu), e.setDt(op == 2 ? dt : e.dt());
            if (op == 0) e.calculateTransientTerm(), s.add(m.e[k], e.CFemElement<R>::ddt);
            if (op == 1) e.calculateDiffusiveTerm(), s.add(m.e[k], e.CFemElement<R>::laplacian);
            if (op == 2) e.calculateConvectiveTerm(u[0], u[1], u[2]), s.add(m.e[k], e.CFemElement<R>::divergence);
            if (op == 3) e.calculateGradientTerm(comp), s.add(m.e[k], e.CFemElement<R>::gradient);
        }
        else
        {
            CFemFlowTriangle<R, 3, 1, 1> e;
            for (auto& q : p) e.addVertex(P(q));
            e.calculateArea(), e.setDensity(rho), e.setViscosity(mu), e.setDt(op == 2 ? dt : e.dt());
            if (k == 1 && op > 0) e.setThickness(th);
            if (op == 0) e.calculateTransientTerm(), s.add(m.e[k], e.CFemElement<R>::ddt);
            if (op == 1) e.calculateDiffusiveTerm(), s.add(m.e[k], e.CFemElement<R>::laplacian);
            if (op == 2) e.calculateConvectiveTerm(u[0], u[1]), s.add(m.e[k], e.CFemElement<R>::divergence);
            if (op == 3) e.calculateGradientTerm(comp), s.add(m.e[k], e.CFemElement<R>::gradient);
        }
    }
    if (op == 0)
        for (int i = 0; i < NN; ++i)
            for (int j = 0; j < NN; ++j) s.b[i] = s.b[i] + s.A[i][j] * f[0].value(j);
    CSleSystem<R> sys = op == 0 ? ddt<R>(f[0]) : op == 1 ? laplacian<R>(f[0]) : op == 2 ? (solidOne ? divergence<R>(f[0], f[1], f[2], dt) : divergence<R>(f[0], f[1], dt)) : gradient<R>(f[0], comp);
    s.check(c, sys, op == 0 ? "ddt" : op == 1 ? "laplacian" : op == 2 ? "divergence" : "gradient");
}
// end to end: on any mesh a linear (steady) field and a constant (transient) field are reproduced exactly
RUNTIME_CONTRACT("P02", patch_test, "laplacian, ddt, setElimination, solve on FEM fields", "generated meshes of up to 64 cells with displaced inner nodes, in a generated frame, nodes and elements renumbered")
{
    typedef typename C::R R;
    std::mt19937 g(c.choose("seed", 1 << 20));
    auto U = [&](double lo, double hi) { return R(std::uniform_real_distribution<double>(lo, hi)(g)); };
    int kind = g() % 4, n[3] = { int(1 + g() % 4), int(1 + g() % 4), int(1 + g() % 3) };
    bool thermal = g() % 2, transient = g() % 2;
    R q[4], N = R(0);
    for (R& x : q) x = U(-1, 1), N = N + x * x;
    if (N < R(0.05)) return;
    R w = q[0], x = q[1], y = q[2], z = q[3];
    V<R> ax[3] = { v3<R>(w * w + x * x - y * y - z * z, R(2) * (x * y + w * z), R(2) * (x * z - w * y)) * (R(1) / N),
        v3<R>(R(2) * (x * y - w * z), w * w - x * x + y * y - z * z, R(2) * (y * z + w * x)) * (R(1) / N),
        v3<R>(R(2) * (x * z + w * y), R(2) * (y * z - w * x), w * w - x * x - y * y + z * z) * (R(1) / N) };
    V<R> o = v3<R>(U(-2, 2), U(-2, 2), U(-2, 2)), a[3] = { ax[0] * U(0.5, 2), ax[1] * U(0.5, 2), ax[2] * U(0.5, 2) };
    auto corner = [&](int i, int j, int k) { return P(o + a[0] * R(i) + a[1] * R(j) + a[2] * R(k)); };
    CMshBasicMesher<R> mesher;
    if (kind == 0)
    {
        CGeoLine<R> l(corner(0, 0, 0), corner(1, 0, 0));
        mesher.generate(l, n[0] * 2);
    }
    else if (kind < 3)
    {
        CGeoQuadrilateral<R> s;
        s.addVertex(corner(0, 0, 0)), s.addVertex(corner(1, 0, 0)), s.addVertex(corner(1, 1, 0)), s.addVertex(corner(0, 1, 0));
        mesher.generate(s, n[0] * 2, n[1] * 2, kind == 2);
    }
    else
    {
        CGeoHexahedron<R> s;
        for (int k = 0; k < 2; ++k) s.addVertex(corner(0, 0, k)), s.addVertex(corner(1, 0, k)), s.addVertex(corner(1, 1, k)), s.addVertex(corner(0, 1, k));
        mesher.generate(s, n[0], n[1], n[2], true);
    }
    CMshMesh<R>& m = mesher.mesh();
    int dim = kind == 0 ? 1 : kind == 3 ? 3 : 2, nn = m.nbNodes();
    // position along the axes, boundary, displacement of inner nodes
    R h[3] = { R(1) / R(kind == 3 ? n[0] : n[0] * 2), R(1) / R(kind == 3 ? n[1] : n[1] * 2), R(1) / R(n[2]) };
    CMshMesh<R> r; // renumbered copy
    std::vector<int> order(nn), back(nn);
    std::vector<bool> fixed(nn);
    for (int i = 0; i < nn; ++i) order[i] = i;
    std::shuffle(order.begin(), order.end(), g);
    for (int i = 0; i < nn; ++i)
    {
        V<R> p = v<R>(m.node(m.nodeId(order[i])));
        bool border = false;
        for (int d = 0; d < dim; ++d)
        {
            R t = dot(p - o, a[d]) / n2(a[d]);
            if (t < R(1e-6) || t > R(1 - 1e-6)) border = true;
        }
        fixed[i] = border;
        if (!border)
            for (int d = 0; d < dim; ++d) p = p + a[d] * (h[d] * U(-0.15, 0.15));
        back[order[i]] = i;
        r.addNode(100 - i * 3, CMshNode<R>(p.x, p.y, p.z));
    }
    std::vector<int> eo(m.nbElements()), elementIds;
    for (size_t i = 0; i < eo.size(); ++i) eo[i] = int(i);
    elementIds = eo;
    if (g() % 4) std::shuffle(elementIds.begin(), elementIds.end(), g);
    std::shuffle(eo.begin(), eo.end(), g);
    for (size_t k = 0; k < eo.size(); ++k)
    {
        CMshElement<R>& e = m.element(m.elementId(eo[k]));
        CMshElement<R> f(e.elementType());
        for (int i = 0; i < e.nbNodeIds(); ++i) f.addNodeId(100 - 3 * back[m.nodeIndex(e.nodeId(i))]);
        r.addElement(elementIds[k] * 2 + 11, f);
    }
    CPdeField<R> f;
    f.setMesh(r);
    f.setDiscretMethod(DM_FEM);
    f.setDiscretLocation(DL_NODE);
    f.setSimulationType(thermal ? ST_THERMAL : ST_GENERIC);
    f.setNbDofs(1);
    f.init();
    V<R> grad = transient ? v3<R>(R(0), R(0), R(0)) : v3<R>(U(-1, 1), U(-1, 1), U(-1, 1));
    R c0 = U(-3, 3);
    auto value = [&](int i) { return c0 + dot(v<R>(r.node(r.nodeId(i))), grad); };
    for (int i = 0; i < nn; ++i)
    {
        f.setValue(i, transient ? value(i) : U(-1, 1));
        if (fixed[i]) f.setFixedValue(i, value(i));
    }
    CSleSystem<R> s = transient ? U(0.1, 10) * ddt<R>(f) - laplacian<R>(f) : laplacian<R>(f);
    CPdeEquation<R> e(s);
    e.setElimination(f);
    e.solve(f);
    R worst = R(0);
    for (int i = 0; i < nn; ++i) worst = std::max<R>(worst, std::fabs(f.value(i) - value(i)));
    c.ensure(transient ? "a constant field stays constant" : "a linear field is reproduced", c.near(worst, R(0), 1e-5));
}
