#include "geo_common.hpp"
#include "CmnTypes.hpp"
#include "PdeEquation.hpp"
#include "MshBasicMesher.hpp"
using namespace spec;
using namespace ENigMA::geometry;
using namespace ENigMA::mesh;
using namespace ENigMA::sle;
using namespace ENigMA::pde;

namespace
{
    // a system of n unknowns with arbitrary coefficients on a chosen pattern of stored entries
    template <class C> CSleSystem<typename C::R> anySystem(C& c, const std::string& nm, int n, EMatrixType t, int pattern)
    {
        typedef typename C::R R;
        CSleSystem<R> s;
        s.matrixType = t;
        s.matrixA.resize(n, n);
        s.vectorB.resize(n);
        for (int i = 0; i < n; ++i)
            for (int j = 0; j < n; ++j)
                if (pattern == 0 || (pattern == 1 && i <= j) || (pattern == 2 && (i == j || i == j + 1)))
                    s.matrixA.coeffRef(i, j) = c.real(nm + std::to_string(i) + std::to_string(j));
        for (int i = 0; i < n; ++i) s.vectorB(i) = c.real(nm + "b" + std::to_string(i));
        return s;
    }
    template <class R> R A(const CSleSystem<R>& s, int i, int j) { return s.matrixA.coeff(i, j); }
    template <class C, class R, class FA, class FB> void is(C& c, const CSleSystem<R>& s, int n, const std::string& what, FA fa, FB fb)
    {
        c.ensure(what + ": size", c.is(s.matrixA.rows() == n && s.matrixA.cols() == n && s.vectorB.size() == n));
        if (s.matrixA.rows() != n || s.vectorB.size() != n) return;
        typename C::B ok = c.is(true), ob = c.is(true);
        for (int i = 0; i < n; ++i)
        {
            for (int j = 0; j < n; ++j) ok = ok && c.eq(s.matrixA.coeff(i, j), fa(i, j));
            ob = ob && c.eq(s.vectorB(i), fb(i));
        }
        c.ensure(what + ": matrix", ok);
        c.ensure(what + ": right side", ob);
    }
}

BOUNDED_CONTRACT("P01", system_algebra, "operator+/-/* on CSleSystem, CSleSystem::operator=", "systems of 3 unknowns, 3 patterns of stored entries each, every scalar value")
{
    typedef typename C::R R;
    const int n = 3;
    int ta = c.choose("type", 4) - 1, tb = c.choose("other type", 4) - 1;
    int pa = c.choose("pattern", 3), pb = ta == 0 && tb == 0 ? c.choose("other pattern", 3) : (pa + 1) % 3;
    CSleSystem<R> a = anySystem(c, "a", n, EMatrixType(ta), pa), b = anySystem(c, "b", n, EMatrixType(tb), pb);
    CSleSystem<R> s = a + b, d = a - b;
    is(c, s, n, "sum", [&](int i, int j) { return A(a, i, j) + A(b, i, j); }, [&](int i) { return a.vectorB(i) + b.vectorB(i); });
    is(c, d, n, "difference", [&](int i, int j) { return A(a, i, j) - A(b, i, j); }, [&](int i) { return a.vectorB(i) - b.vectorB(i); });
    c.ensure("a sum is solved as the more general of the two", c.is(s.matrixType == std::max(ta, tb) && d.matrixType == std::max(ta, tb)));
    R k = c.real("k");
    CSleSystem<R> m = k * a;
    is(c, m, n, "multiple", [&](int i, int j) { return k * A(a, i, j); }, [&](int i) { return k * a.vectorB(i); });
    c.ensure("a multiple is solved as the system itself", c.is(m.matrixType == ta));
    CSleSystem<R> r = a;
    c.ensure("assignment of a number returns the system", c.is(&(r = k) == &r));
    is(c, r, n, "assignment of a number", [&](int i, int j) { return A(a, i, j); }, [&](int i) { return a.vectorB(i) + k; });
    Eigen::Matrix<R, Eigen::Dynamic, 1> v = b.vectorB;
    r = a;
    r = v;
    is(c, r, n, "assignment of a vector", [&](int i, int j) { return A(a, i, j); }, [&](int i) { return a.vectorB(i) + v(i); });
    c.ensure("assignment keeps the type", c.is(r.matrixType == ta));
}
BOUNDED_CONTRACT("P01", system_rows, "operator*(vector, CSleSystem), operator*(number, CPdeField)", "systems of 3 unknowns, 3 patterns of stored entries, every scalar value")
{
    typedef typename C::R R;
    const int n = 3;
    int ta = c.choose("type", 4) - 1;
    CSleSystem<R> a = anySystem(c, "a", n, EMatrixType(ta), c.choose("pattern", 3));
    Eigen::Matrix<R, Eigen::Dynamic, 1> v(n);
    for (int i = 0; i < n; ++i) v(i) = c.real("v" + std::to_string(i));
    CSleSystem<R> r = v * a;
    is(c, r, n, "scaled rows", [&](int i, int j) { return v(i) * A(a, i, j); }, [&](int i) { return v(i) * a.vectorB(i); });
    c.ensure("scaled rows are not solved as a symmetric system", c.is(r.matrixType != MT_SPARSE_SYMMETRIC));
    c.ensure("scaled rows are solved as the system otherwise", c.is(ta == MT_SPARSE_SYMMETRIC || r.matrixType == ta));
    CPdeField<R> f;
    f.setSize(n);
    R k = c.real("k");
    CSleSystem<R> e = k * f;
    is(c, e, n, "multiple of the unknown", [&](int i, int j) { return i == j ? k : R(0); }, [&](int) { return R(0); });
}
BOUNDED_CONTRACT("P01", elimination, "CPdeEquation::setElimination/setSources, CPdeField::setFixedValue/setSource", "systems of 4 unknowns, every set of fixed unknowns, every scalar value")
{
    typedef typename C::R R;
    const int n = 4;
    int mask = c.choose("fixed", 16), pattern = c.choose("pattern", 3), dofs = 1 + c.choose("degrees of freedom", 2);
    int tt = c.choose("type", 4) - 1;
    CSleSystem<R> a = anySystem(c, "a", n, EMatrixType(tt), pattern);
    CPdeField<R> f;
    f.setDiscretMethod(DM_FEM);
    f.setNbDofs(dofs);
    std::vector<R> x(n), src(n);
    std::vector<int> freeOnes;
    for (int i = 0; i < n; ++i)
    {
        x[i] = R(0), src[i] = R(0);
        if (mask >> i & 1)
        {
            x[i] = c.real("x" + std::to_string(i));
            f.setFixedValue(i / dofs, i % dofs, R(17));
            if (dofs == 1) f.setFixedValue(i, x[i]); // the last value counts
            else f.setFixedValue(i / dofs, i % dofs, x[i]);
        }
        else freeOnes.push_back(i);
        if (i == 1 || i == 2)
        {
            src[i] = c.real("s" + std::to_string(i));
            if (dofs == 1) f.setSource(i, src[i]);
            else f.setSource(i / dofs, i % dofs, src[i]);
        }
    }
    CPdeEquation<R> e(a);
    e.setSources(f);
    is(c, e.system(), n, "sources", [&](int i, int j) { return A(a, i, j); }, [&](int i) { return a.vectorB(i) + src[i]; });
    e.setElimination(f);
    is(c, e.system(), int(freeOnes.size()), "eliminated", [&](int i, int j) { return A(a, freeOnes[i], freeOnes[j]); },
        [&](int i) {
            R b = a.vectorB(freeOnes[i]) + src[freeOnes[i]];
            for (int k = 0; k < n; ++k)
                if (mask >> k & 1) b = b - A(a, freeOnes[i], k) * x[k];
            return b;
        });
    c.ensure("elimination keeps the type", c.is(e.system().matrixType == tt));
}
BOUNDED_CONTRACT("P01", penalty, "CPdeEquation::setPenaltyFactor", "systems of 4 unknowns, every set of fixed unknowns, every scalar value")
{
    typedef typename C::R R;
    const int n = 4;
    int mask = c.choose("fixed", 16), pattern = c.choose("pattern", 3), m = c.choose("method", 3);
    CSleSystem<R> a = anySystem(c, "a", n, MT_SPARSE, pattern);
    CPdeField<R> f;
    f.setDiscretMethod(m == 0 ? DM_FEM : m == 1 ? DM_FDM : DM_FVM);
    f.setNbDofs(1);
    R p = c.real("p");
    std::vector<R> x(n);
    for (int i = 0; i < n; ++i)
        if (mask >> i & 1) f.setFixedValue(i, x[i] = c.real("x" + std::to_string(i)));
    CPdeEquation<R> e(a);
    e.setPenaltyFactor(f, p);
    is(c, e.system(), n, "penalised", [&](int i, int j) { return i == j && m < 2 && (mask >> i & 1) ? p : A(a, i, j); },
        [&](int i) { return m < 2 && (mask >> i & 1) ? p * x[i] : a.vectorB(i); });
}
BOUNDED_CONTRACT("P01", conditions, "CPdeField::addBCNode/Face/Element, nodeBC/faceBC/elementBC, hasMaterial/addMaterial, CPdeBoundaryCondition::addCondition/conditionValue", "three keys")
{
    typedef typename C::R R;
    CPdeField<R> f;
    R a = c.real("a"), b = c.real("b"), d = c.real("d");
    CPdeBoundaryCondition<R> x(BT_HEAT_CONVECTIVE), y(BT_GENERIC_FIXED_VALUE), z;
    x.addCondition(CT_HEAT_TRANSFER_COEFFICIENT, d);
    x.addCondition(CT_HEAT_TRANSFER_COEFFICIENT, a);
    x.addCondition(CT_HEAT_INFINITESIMAL_TEMPERATURE, b);
    y.addCondition(CT_GENERIC_FIXED_VALUE, d);
    c.ensure("a condition keeps its values", c.eq(x.conditionValue(CT_HEAT_TRANSFER_COEFFICIENT), a) && c.eq(x.conditionValue(CT_HEAT_INFINITESIMAL_TEMPERATURE), b));
    c.ensure("and its type", c.is(x.boundaryConditionType() == BT_HEAT_CONVECTIVE && y.boundaryConditionType() == BT_GENERIC_FIXED_VALUE));
    int k = c.choose("key", 3) * 7;
    f.addBCNode(k, y), f.addBCFace(k + 1, x), f.addBCElement(k + 2, 3, x), f.addBCElement(k + 2, 2, y);
    for (int i = 0; i < 20; ++i)
    {
        c.ensure("conditions are found where they were put", c.is(f.nodeHasBC(i) == (i == k) && f.faceHasBC(i) == (i == k + 1)));
        for (int j = 0; j < 5; ++j) c.ensure("element conditions are found where they were put", c.is(f.elementHasBC(i, j) == (i == k + 2 && (j == 2 || j == 3))));
    }
    c.ensure("the condition of a node", c.eq(f.nodeBC(k).conditionValue(CT_GENERIC_FIXED_VALUE), d));
    c.ensure("the condition of a face", c.eq(f.faceBC(k + 1).conditionValue(CT_HEAT_TRANSFER_COEFFICIENT), a));
    c.ensure("the condition of an element side", c.eq(f.elementBC(k + 2, 3).conditionValue(CT_HEAT_INFINITESIMAL_TEMPERATURE), b)
            && c.eq(f.elementBC(k + 2, 2).conditionValue(CT_GENERIC_FIXED_VALUE), d));
    ENigMA::material::CMatMaterial<R> m;
    m.addProperty(ENigMA::material::PT_DENSITY, a);
    f.addMaterial(k, m);
    c.ensure("an element's material", c.is(f.hasMaterial(k) && !f.hasMaterial(k + 1)) && c.eq(f.material(k).propertyValue(ENigMA::material::PT_DENSITY), a));
}
// the solvers, on generated systems
RUNTIME_CONTRACT("P01", solution, "CSleSystem::solve, CPdeEquation::solve/setElimination/setPenaltyFactor", "generated diagonally dominant systems of 1 to 12 unknowns")
{
    typedef typename C::R R;
    typedef Eigen::Matrix<R, Eigen::Dynamic, 1> Vec;
    std::mt19937 g(c.choose("seed", 1 << 20));
    auto U = [&](double lo, double hi) { return R(std::uniform_real_distribution<double>(lo, hi)(g)); };
    int n = 1 + g() % 12, t = g() % 3, how = g() % 4;
    double density = 0.1 + 0.9 * double(g() % 100) / 100;
    CSleSystem<R> a;
    a.matrixType = EMatrixType(t);
    a.matrixA.resize(n, n);
    a.vectorB.resize(n);
    std::vector<std::vector<R>> M(n, std::vector<R>(n, R(0)));
    for (int i = 0; i < n; ++i)
        for (int j = 0; j < n; ++j)
            if (i != j && double(g() % 1000) / 1000 < density)
            {
                M[i][j] = U(-1, 1);
                if (t == MT_SPARSE_SYMMETRIC) M[j][i] = M[i][j];
            }
    for (int i = 0; i < n; ++i)
    {
        R s = U(0.5, 1.5);
        for (int j = 0; j < n; ++j)
            if (j != i) s = s + std::max(std::fabs(M[i][j]), std::fabs(M[j][i]));
        M[i][i] = s;
        a.vectorB(i) = U(-5, 5);
    }
    for (int i = 0; i < n; ++i)
        for (int j = 0; j < n; ++j)
            if (M[i][j] != R(0)) a.matrixA.coeffRef(i, j) = M[i][j];
    auto residual = [&](const CSleSystem<R>& s, const Vec& x, int skip) {
        R m = R(0);
        for (int i = 0; i < n; ++i)
        {
            if (skip >> i & 1) continue;
            R r = -s.vectorB(i);
            for (int j = 0; j < n; ++j) r = r + s.matrixA.coeff(i, j) * x(j);
            m = std::max<R>(m, std::fabs(r));
        }
        return m;
    };
    if (how == 0)
    {
        Vec x = a.solve();
        c.ensure("the solution has the system's size", c.is(x.size() == n));
        if (x.size() != n) return;
        c.ensure("the solution satisfies the system", c.near(residual(a, x, 0), R(0), 1e-6));
        return;
    }
    if (how == 1)
    {
        Vec v(n);
        for (int i = 0; i < n; ++i) v(i) = U(0.5, 2);
        CSleSystem<R> b = v * a;
        Vec x = b.solve();
        c.ensure("the solution of a system with scaled rows satisfies it", c.is(x.size() == n) && c.near(x.size() == n ? residual(b, x, 0) : R(1), R(0), 1e-6));
        return;
    }
    CPdeField<R> f;
    f.setDiscretMethod(DM_FEM);
    f.setNbDofs(1);
    int mask = int(g() % (1u << n));
    if (mask == (1 << n) - 1) mask ^= 1;
    for (int i = 0; i < n; ++i)
        if (mask >> i & 1) f.setFixedValue(i, U(-3, 3));
    CPdeEquation<R> e(a);
    if (how == 2) e.setElimination(f);
    else e.setPenaltyFactor(f, R(1e7));
    e.solve(f);
    c.ensure("every unknown has a value", c.is(f.u.size() == n));
    if (f.u.size() != n) return;
    for (int i = 0; i < n; ++i)
        if (mask >> i & 1) c.ensure("a fixed value is the solution there", c.is(f.value(i) == f.uFixed[i]));
    c.ensure("the solution satisfies the equations of the free unknowns", c.near(residual(a, f.u, mask), R(0), how == 2 ? 1e-6 : 1e-4));
}
