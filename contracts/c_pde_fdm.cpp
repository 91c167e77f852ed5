// The finite difference operators on an equidistant line of nodes.
#include "geo_common.hpp"
#include "CmnTypes.hpp"
#include "PdeEquation.hpp"
using namespace spec;
using namespace ENigMA::geometry;
using namespace ENigMA::mesh;
using namespace ENigMA::sle;
using namespace ENigMA::pde;

namespace
{
    template <class C> struct Line {
        typedef typename C::R R;
        int n;
        bool fixed[6] = {};
        R dx, x[6], u[6];
        CPdeField<R> f;
        Line(C& c)
        {
            n = 2 + c.choose("nodes", 5);
            // the ends free or fixed; one inner node may be fixed, too
            fixed[0] = c.choose("first fixed", 2), fixed[n - 1] = c.choose("last fixed", 2);
            if (n > 2 && c.choose("inner fixed", 2)) fixed[1 + c.choose("which", n - 2)] = true;
            bool thermal = c.choose("thermal", 2);
            dx = c.real("dx");
            c.require(c.ne(dx, R(0)));
            CMshMesh<R> m;
            for (int i = 0; i < n; ++i) m.addNode(20 - 3 * i, CMshNode<R>(dx * R(i), R(0), R(0)));
            m.setDx(dx);
            f.setMesh(m);
            f.setDiscretMethod(DM_FDM);
            f.setDiscretLocation(DL_NODE);
            f.setSimulationType(thermal ? ST_THERMAL : ST_GENERIC);
            f.setNbDofs(1);
            f.init();
            for (int i = 0; i < n; ++i)
            {
                u[i] = c.real("u" + std::to_string(i));
                f.setValue(i, u[i]);
                x[i] = R(0);
                if (fixed[i]) x[i] = c.real("x" + std::to_string(i)), f.setFixedValue(i, x[i]);
            }
        }
    };
    template <class C, class R, class FA, class FB> void is(C& c, const CSleSystem<R>& s, int n, int from, int to, FA fa, FB fb)
    {
        c.ensure("size", c.is(s.matrixA.rows() == n && s.matrixA.cols() == n && s.vectorB.size() == n));
        if (s.matrixA.rows() != n || s.matrixA.cols() != n || s.vectorB.size() != n) return;
        typename C::B ok = c.is(true), ob = c.is(true);
        for (int i = from; i < to; ++i)
        {
            for (int j = 0; j < n; ++j) ok = ok && c.eq(s.matrixA.coeff(i, j), fa(i, j));
            ob = ob && c.eq(s.vectorB(i), fb(i));
        }
        c.ensure("matrix", ok);
        c.ensure("right side", ob);
    }
}

BOUNDED_CONTRACT("P03", fdm_ddt, "generic/thermal FDM ddt", "lines of 2 to 6 nodes, ends and at most one inner node fixed, every value and spacing")
{
    typedef typename C::R R;
    Line<C> l(c);
    CSleSystem<R> s = ddt<R>(l.f);
    is(c, s, l.n, 0, l.n, [&](int i, int j) { return R(i == j ? 1 : 0); }, [&](int i) { return l.fixed[i] ? l.x[i] : l.u[i]; });
}
BOUNDED_CONTRACT("P03", fdm_laplacian, "generic/thermal FDM laplacian", "lines of 2 to 6 nodes, ends and at most one inner node fixed, every value and spacing")
{
    typedef typename C::R R;
    Line<C> l(c);
    CSleSystem<R> s = laplacian<R>(l.f);
    const int n = l.n;
    // one row per node: the neighbours minus the node, a fixed end having the fixed value beyond it, a free end nothing
    is(c, s, n, 0, n,
        [&](int i, int j) {
            int around = (i > 0) + (i < n - 1);
            if ((i == 0 || i == n - 1) && l.fixed[i]) around += 1;
            int a = i == j ? -around : std::abs(i - j) == 1 ? 1 : 0;
            return R(a) / (l.dx * l.dx);
        },
        [&](int i) { return (i == 0 || i == n - 1) && l.fixed[i] ? -l.x[i] / (l.dx * l.dx) : R(0); });
    c.ensure("type", c.is(s.matrixType == MT_SPARSE));
}
BOUNDED_CONTRACT("P03", fdm_divergence, "generic/thermal FDM divergence, inner nodes", "lines of 2 to 6 nodes, ends and at most one inner node fixed, every value and spacing")
{
    typedef typename C::R R;
    Line<C> l(c);
    CSleSystem<R> s = divergence<R>(l.f);
    is(c, s, l.n, 1, l.n - 1, [&](int i, int j) { return std::abs(i - j) == 1 ? R(j - i) / (R(2) * l.dx) : R(0); }, [&](int) { return R(0); });
}
RUNTIME_CONTRACT("P03", fdm_solution, "FDM ddt, laplacian, divergence, setPenaltyFactor, solve", "generated lines of 3 to 20 nodes with fixed ends")
{
    typedef typename C::R R;
    std::mt19937 g(c.choose("seed", 1 << 20));
    auto U = [&](double lo, double hi) { return R(std::uniform_real_distribution<double>(lo, hi)(g)); };
    int n = 3 + g() % 18, kind = g() % 3;
    CPdeField<R> f;
    R dx = U(0.1, 2);
    CMshMesh<R> m;
    for (int i = 0; i < n; ++i) m.addNode(100 - 3 * i, CMshNode<R>(dx * R(i), R(0), R(0)));
    m.setDx(dx);
    f.setMesh(m);
    f.setDiscretMethod(DM_FDM);
    f.setDiscretLocation(DL_NODE);
    f.setSimulationType(g() % 2 ? ST_THERMAL : ST_GENERIC);
    f.setNbDofs(1);
    f.init();
    R a = U(-3, 3), b = kind == 1 ? R(0) : U(-3, 3), k = U(0.1, 3), w = U(-1, 1), dt = U(0.01, 1);
    auto value = [&](int i) { return a + b * R(i) * dx; };
    for (int i = 0; i < n; ++i) f.setValue(i, value(i));
    // without a penalty the fixed value of an end belongs to the point beyond it
    bool penalty = kind > 0 || g() % 2;
    f.setFixedValue(0, value(penalty ? 0 : -1)), f.setFixedValue(n - 1, value(penalty ? n - 1 : n));
    // steady diffusion of a linear profile; transport and diffusion of a constant; a linear profile carried along for one step with its ends held
    CSleSystem<R> s;
    if (kind == 0) s = k * laplacian<R>(f);
    else if (kind == 1) s = (R(1) / dt) * ddt<R>(f) + w * divergence<R>(f) - k * laplacian<R>(f);
    else s = (R(1) / dt) * ddt<R>(f) - k * laplacian<R>(f);
    CPdeEquation<R> e(s);
    if (penalty) e.setPenaltyFactor(f, R(1e9));
    for (int i = 1; i < n - 1; ++i)
        if (kind == 0) f.setValue(i, U(-5, 5));
    e.solve(f);
    R worst = R(0);
    for (int i = penalty ? 0 : 1; i < (penalty ? n : n - 1); ++i) worst = std::max<R>(worst, std::fabs(f.value(i) - value(i)));
    c.ensure(kind == 1 ? "a constant is kept" : "a linear profile is kept", c.near(worst, R(0), 1e-5));
}
