// The finite volume operators: per cell sums over its faces, divided by the cell's volume.
#include "fvm_common.hpp"
using namespace spec;
using namespace ENigMA::sle;
using namespace ENigMA::pde;

namespace
{
    // face tables of the mesh, measured here
    template <class R> struct Cells {
        int n;
        std::vector<R> size;
        std::vector<V<R>> centre;
        struct Face { int cell, other; V<R> area, centre; R measure; Integer id; bool fixed; R value; };
        std::vector<Face> faces;
    };
    template <class R> Cells<R> measure(CMshMesh<R>& m)
    {
        Cells<R> t;
        t.n = m.nbElements();
        for (int e = 0; e < t.n; ++e)
        {
            CMshElement<R>& el = m.element(m.elementId(e));
            V<R> s = v3(R(0), R(0), R(0));
            for (int i = 0; i < el.nbNodeIds(); ++i) s = s + v<R>(m.node(el.nodeId(i)));
            t.centre.push_back(s * (R(1) / R(el.nbNodeIds())));
            V<R> ref = v<R>(m.node(el.nodeId(0)));
            R vol = R(0);
            for (int i = 0; i < el.nbFaceIds(); ++i)
            {
                CMshFace<R>& f = m.face(el.faceId(i));
                int k = f.nbNodeIds();
                std::vector<V<R>> p;
                for (int j = 0; j < k; ++j) p.push_back(v<R>(m.node(f.nodeId(j))));
                // a triangle or a parallelogram
                V<R> a = cross(p[1] - p[0], p[k - 1] - p[0]) * (R(1) / R(k == 3 ? 2 : 1)), c = v3(R(0), R(0), R(0));
                for (auto& x : p) c = c + x;
                c = c * (R(1) / R(k));
                vol = vol + dot(c - ref, a) / R(3);
                t.faces.push_back({ e, f.hasPair() ? int(m.elementIndex(m.face(f.pairFaceId()).elementId())) : -1, a, c, len(a), el.faceId(i), false, R(0) });
            }
            t.size.push_back(vol);
        }
        return t;
    }
    template <class R> struct Dense {
        std::vector<std::vector<R>> A;
        std::vector<R> b;
        Dense(int n) : A(n, std::vector<R>(n, R(0))), b(n, R(0)) { }
    };
    template <class R> Dense<R> expectLaplacian(const Cells<R>& t)
    {
        Dense<R> d(t.n);
        for (auto& f : t.faces)
        {
            if (f.other >= 0)
            {
                R a = f.measure / len(t.centre[f.other] - t.centre[f.cell]) / t.size[f.cell];
                d.A[f.cell][f.cell] = d.A[f.cell][f.cell] - a, d.A[f.cell][f.other] = d.A[f.cell][f.other] + a;
            }
            else if (f.fixed)
            {
                R a = f.measure / len(f.centre - t.centre[f.cell]) / t.size[f.cell];
                d.A[f.cell][f.cell] = d.A[f.cell][f.cell] - a, d.b[f.cell] = d.b[f.cell] - a * f.value;
            }
        }
        return d;
    }
    template <class R> Dense<R> expectDivergence(const Cells<R>& t, const std::vector<R>& w)
    {
        Dense<R> d(t.n);
        for (auto& f : t.faces)
        {
            R a = (f.area.x + f.area.y + f.area.z) / t.size[f.cell] * w[f.cell];
            if (f.other >= 0) d.A[f.cell][f.cell] = d.A[f.cell][f.cell] + a / R(2), d.A[f.cell][f.other] = d.A[f.cell][f.other] + a / R(2);
            else if (f.fixed) d.b[f.cell] = d.b[f.cell] - a * f.value;
        }
        return d;
    }
    template <class C, class R> void same(C& c, const std::string& what, const CSleSystem<R>& s, const Dense<R>& d)
    {
        int n = int(d.b.size());
        bool size = s.matrixA.rows() == n && s.matrixA.cols() == n && s.vectorB.size() == n;
        c.ensure(what + ": size", c.is(size));
        if (!size) return;
        typename C::B A = c.is(true), b = c.is(true);
        double scale = 0;
        for (auto& r : d.A) for (auto& x : r) scale = std::max(scale, c.mag(x));
        for (int i = 0; i < n; ++i)
        {
            for (int j = 0; j < n; ++j) A = A && c.eq(s.matrixA.coeff(i, j), d.A[i][j], scale);
            b = b && c.eq(s.vectorB(i), d.b[i], scale);
        }
        c.ensure(what + ": matrix", A);
        c.ensure(what + ": right side", b);
    }
    template <class R> void setup(CPdeField<R>& f, const CMshMesh<R>& m, int type)
    {
        f.setMesh(m);
        f.setDiscretMethod(DM_FVM);
        f.setDiscretLocation(DL_ELEMENT_CENTER);
        f.setSimulationType(type == 0 ? ST_GENERIC : type == 1 ? ST_THERMAL : ST_FLOW);
        f.setNbDofs(1);
        f.init();
    }
    template <class R> void fixFace(CPdeField<R>& f, Integer id, R value)
    {
        CPdeBoundaryCondition<R> b(BT_GENERIC_FIXED_VALUE);
        b.addCondition(CT_GENERIC_FIXED_VALUE, value);
        f.addBCFace(id, b);
    }
    // three boxes in a row, the last one below the first two when bent; cells of any size
    template <class C> struct Boxes {
        typedef typename C::R R;
        int type;
        CPdeField<R> f;
        Cells<R> t;
        std::vector<R> u;
        Boxes(C& c)
        {
            type = c.choose("type", 3);
            int turn = c.choose("turn", 3), n = 1 + c.choose("cells", 3), with = c.choose("conditions", 4);
            CMshMesh<R> m = boxMesh<C>(c, turn, n);
            m.calculateFaceCentroid();
            m.calculateElementCentroid();
            setup(f, m, type);
            t = measure(f.mesh());
            for (int i = 0; i < n; ++i) u.push_back(c.real("u" + std::to_string(i))), f.setValue(i, u[i]);
            // no conditions; every third boundary face; all of them; on faces between cells (without effect), too
            int k = 0;
            for (auto& a : t.faces)
            {
                ++k;
                if (with == 0 || (with == 1 && k % 3) || (with < 3 && a.other >= 0)) continue;
                a.fixed = true;
                a.value = c.real("b" + std::to_string(k));
                fixFace(f, a.id, a.value);
            }
            if (with == 1)
                for (auto& a : t.faces)
                    if (!a.fixed)
                    {
                        // a condition of another kind is none of theirs
                        CPdeBoundaryCondition<R> b(BT_HEAT_CONVECTIVE);
                        b.addCondition(CT_HEAT_TRANSFER_COEFFICIENT, R(3));
                        f.addBCFace(a.id, b);
                        break;
                    }
        }
    };
}
BOUNDED_CONTRACT("V02", fvm_ddt, "generic/thermal/flow FVM ddt", "one to three boxes of any size in three orientations, fixed values on no, some or all boundary faces, every value")
{
    typedef typename C::R R;
    Boxes<C> b(c);
    std::vector<R> rhs = b.u;
    if (b.type == 2 && c.choose("fixed cell", 2)) rhs[0] = c.real("fixed"), b.f.setFixedValue(0, rhs[0]);
    CSleSystem<R> s = ddt<R>(b.f);
    Dense<R> d(b.t.n);
    for (int i = 0; i < b.t.n; ++i) d.A[i][i] = R(1), d.b[i] = rhs[i];
    same(c, "ddt", s, d);
}
BOUNDED_CONTRACT("V02", fvm_laplacian, "generic/thermal/flow FVM laplacian", "one to three boxes of any size in three orientations, fixed values on no, some or all boundary faces, every value")
{
    typedef typename C::R R;
    Boxes<C> b(c);
    CSleSystem<R> s = laplacian<R>(b.f);
    same(c, "laplacian", s, expectLaplacian(b.t));
    c.ensure("type", c.is(s.matrixType == MT_SPARSE));
}
BOUNDED_CONTRACT("V02", fvm_divergence, "generic/thermal/flow FVM divergence", "one to three boxes of any size in three orientations, fixed values on no, some or all boundary faces, every value")
{
    typedef typename C::R R;
    Boxes<C> b(c);
    CSleSystem<R> s = divergence<R>(b.f);
    same(c, "divergence", s, expectDivergence(b.t, b.type == 2 ? b.u : std::vector<R>(b.t.n, R(1))));
    c.ensure("type", c.is(s.matrixType == MT_SPARSE));
}
RUNTIME_CONTRACT("V02", fvm_assembly, "generic/thermal/flow FVM ddt, laplacian, divergence", "generated meshes of up to 27 distorted hexahedra, tetrahedra or prisms with shuffled numbering and fixed faces")
{
    typedef typename C::R R;
    int seed = c.choose("seed", 1 << 20);
    Solid<R> s(seed, 3, true);
    std::mt19937 g(seed + 1);
    auto U = [&](double lo, double hi) { return R(std::uniform_real_distribution<double>(lo, hi)(g)); };
    int type = g() % 3, rate = g() % 4;
    CPdeField<R> f;
    setup(f, s.mesh, type);
    Cells<R> t = measure(f.mesh());
    std::vector<R> u;
    for (int i = 0; i < t.n; ++i) u.push_back(U(-2, 2)), f.setValue(i, u[i]);
    for (auto& a : t.faces)
        if (g() % 4 < unsigned(rate)) a.fixed = true, a.value = U(-2, 2), fixFace(f, a.id, a.value);
    same(c, "laplacian", laplacian<R>(f), expectLaplacian(t));
    same(c, "divergence", divergence<R>(f), expectDivergence(t, type == 2 ? u : std::vector<R>(t.n, R(1))));
    Dense<R> d(t.n);
    for (int i = 0; i < t.n; ++i) d.A[i][i] = R(1), d.b[i] = u[i];
    same(c, "ddt", ddt<R>(f), d);
}
RUNTIME_CONTRACT("V02", fvm_solution, "FVM operators, CPdeEquation::solve", "generated orthogonal grids with fixed values, random meshes for conservation and constants")
{
    typedef typename C::R R;
    int seed = c.choose("seed", 1 << 20);
    std::mt19937 g(seed + 2);
    auto U = [&](double lo, double hi) { return R(std::uniform_real_distribution<double>(lo, hi)(g)); };
    int what = g() % 3;
    Solid<R> s(seed, what == 0 ? 1 : 3, what != 0, 4);
    CPdeField<R> f;
    setup(f, s.mesh, g() % 2);
    Cells<R> t = measure(f.mesh());
    R c0 = U(-2, 2);
    V<R> gr = v3(U(-2, 2), U(-2, 2), U(-2, 2));
    if (what) gr = v3(R(0), R(0), R(0));
    auto value = [&](V<R> p) { return c0 + dot(gr, p - s.o); };
    for (int i = 0; i < t.n; ++i) f.setValue(i, what == 2 ? U(-2, 2) : value(t.centre[i]));
    if (what < 2)
        for (auto& a : t.faces)
            if (a.other < 0) fixFace(f, a.id, value(a.centre));
    R dt = U(0.01, 1), k = U(0.1, 3), w = U(-1, 1);
    if (what == 0 || what == 1)
    {
        // a linear field is a steady state of diffusion (orthogonal grid), a constant one of convection, too; they stay so in time
        bool steady = what == 0 && g() % 2;
        CSleSystem<R> q = steady ? CSleSystem<R>(k * laplacian<R>(f)) : what == 0 ? CSleSystem<R>((R(1) / dt) * ddt<R>(f) - k * laplacian<R>(f))
                                 : CSleSystem<R>((R(1) / dt) * ddt<R>(f) + w * divergence<R>(f) - k * laplacian<R>(f));
        CPdeEquation<R> e(q);
        if (steady)
            for (int i = 0; i < t.n; ++i) f.setValue(i, U(-2, 2));
        e.solve(f);
        R worst = R(0);
        for (int i = 0; i < t.n; ++i) worst = std::max<R>(worst, std::fabs(f.value(i) - value(t.centre[i])));
        c.ensure(what == 0 ? "a linear field is kept" : "a constant field is kept", c.near(worst, R(0), 1e-5));
    }
    else
    {
        // without conditions the total amount is kept
        R before = R(0), after = R(0);
        for (int i = 0; i < t.n; ++i) before = before + f.value(i) * t.size[i];
        CPdeEquation<R> e((R(1) / dt) * ddt<R>(f) - k * laplacian<R>(f));
        e.solve(f);
        for (int i = 0; i < t.n; ++i) after = after + f.value(i) * t.size[i];
        c.ensure("amount", c.near(after, before, 1e-5 * (1 + std::fabs(double(s.volume)))));
    }
}
