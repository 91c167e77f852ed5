#include "geo_common.hpp"
#include "CmnTypes.hpp"
#include "PdeField.hpp"
using namespace ENigMA::pde; // the header expects these
using namespace ENigMA::mesh;
#include "SphParticles.hpp"
using namespace spec;
using namespace ENigMA::geometry;
using namespace ENigMA::mesh;
using namespace ENigMA::pde;
using namespace ENigMA::sph;

namespace
{
    template <class R> void node(CMshMesh<R>& m, Integer id, const V<R>& p) { m.addNode(id, CMshNode<R>(p.x, p.y, p.z)); }
    template <class C, class R> CGeoBoundingBox<R> box(C& c, const R& lo, const R& hi)
    {
        CGeoBoundingBox<R> b;
        b.addCoordinate(CGeoCoordinate<R>(lo, lo, lo));
        b.addCoordinate(CGeoCoordinate<R>(hi, hi, hi));
        return b;
    }
    template <class R> CSphKernel<R>* kernel(int k, int d)
    {
        switch (k)
        {
        case 0: return new CSphCubicSpline<R>(d);
        case 1: return new CSphGaussian<R>(d);
        case 2: return new CSphQuintic<R>(d);
        case 3: return new CSphSpiky<R>(d);
        default: return new CSphConvex<R>(d);
        }
    }
}

CONTRACT("H02", advection_step, "CSphParticles::advectParticles, init, setInitialVelocity, setBoundary")
{
    typedef typename C::R R;
    CSphSpiky<R> K(3);
    CSphParticles<R> s(K);
    CMshMesh<R> m;
    V<R> p[2] = { vec(c, "p"), vec(c, "q") }, w = vec(c, "w");
    bool cyclic = c.choose("cyclic", 2);
    int n = cyclic ? 1 : 2; // cyclic motion of one particle: every position relative to the box
    for (int i = 0; i < n; ++i) node(m, 7 - 3 * i, p[i]);
    CPdeField<R> f;
    f.setMesh(m);
    R dt = c.real("dt"), lo = c.real("lo"), hi = c.real("hi");
    c.require(c.lt(lo, hi));
    s.init(f, R(1), R(1), R(1), dt, cyclic);
    s.setInitialVelocity(f, G(w));
    s.setBoundary(box(c, lo, hi));
    s.advectParticles(f);
    for (int i = 0; i < n; ++i)
    {
        V<R> e = p[i] + w * dt, g = v<R>(f.mesh().node(7 - 3 * i));
        const R ex[3] = { e.x, e.y, e.z }, gx[3] = { g.x, g.y, g.z };
        for (int k = 0; k < 3; ++k)
        {
            std::string nk = std::string("particle ") + char('0' + i) + (k == 0 ? " x" : k == 1 ? " y" : " z");
            if (!cyclic) c.ensure(nk + " moves by velocity times step", c.eq(gx[k], ex[k]));
            else if (ex[k] >= hi) c.ensure(nk + " leaving at the top comes in at the bottom", c.eq(gx[k], lo));
            else if (ex[k] <= lo) c.ensure(nk + " leaving at the bottom comes in at the top", c.eq(gx[k], hi));
            else c.ensure(nk + " inside moves by velocity times step", c.eq(gx[k], ex[k]));
        }
    }
}
RUNTIME_CONTRACT("H02", density_and_diffusion, "CSphParticles::solve, calculateDensity, addDiffusion, buildHashGrid, density", "generated clouds of 2 to 40 particles, every kernel and dimension")
{
    typedef typename C::R R;
    std::mt19937 g(c.choose("seed", 1 << 20));
    std::uniform_real_distribution<double> U(0, 1);
    int k = g() % 5, d = 1 + g() % 3, n = 2 + g() % 39;
    std::unique_ptr<CSphKernel<R>> K(kernel<R>(k, d));
    CMshMesh<R> m;
    std::vector<Integer> id(n);
    std::vector<V<R>> p(n);
    for (int i = 0; i < n; ++i) id[i] = 3 + 2 * i;
    std::shuffle(id.begin(), id.end(), g);
    for (int i = 0; i < n; ++i) p[i] = v3<R>(R(U(g)), R(d > 1 ? U(g) : 0), R(d > 2 ? U(g) : 0)), node(m, id[i], p[i]);
    R h = R(0.15 + 0.5 * U(g)), dt = R(1e-3 * U(g)), mass = R(0.5 + U(g)), D = R(U(g));
    CPdeField<R> f;
    f.setMesh(m);
    f.init();
    f.u.resize(n);
    std::vector<R> u(n);
    std::vector<bool> fixed(n, false);
    bool constant = g() % 4 == 0;
    for (int i = 0; i < n; ++i)
    {
        u[i] = constant ? R(2.5) : R(U(g) * 10);
        f.u(i) = u[i];
        if (g() % 4 == 0)
        {
            fixed[i] = true;
            R x = constant ? R(2.5) : R(U(g) * 10);
            f.setFixedValue(i, x);
        }
    }
    bool still = g() % 2;
    V<R> w = still ? v3<R>(R(0), R(0), R(0)) : v3<R>(R(U(g)), R(U(g)), R(U(g)));
    CSphParticles<R> s(*K);
    s.init(f, mass, D, h, dt, false);
    s.setInitialVelocity(f, G(w));
    s.solve(f);
    for (int i = 0; i < n; ++i) c.ensure("the particles move with the velocity", eqv(c, v<R>(f.mesh().node(id[i])), p[i] + w * dt, 1));
    std::vector<R> rho(n);
    auto dist = [&](int i, int j) { V<R> r = p[i] - p[j]; return std::sqrt(r.x * r.x + r.y * r.y + r.z * r.z); };
    bool edge = false;
    for (int i = 0; i < n; ++i)
    {
        rho[i] = R(0);
        for (int j = 0; j < n; ++j)
        {
            R q = dist(i, j);
            if (q > h * R(1 - 1e-9) && q < h * R(1 + 1e-9)) edge = true;
            if (q <= h) rho[i] = rho[i] + mass * K->W(G(p[j] - p[i]), h);
        }
    }
    if (edge) return;
    for (int i = 0; i < n; ++i) c.ensure("the density sums the kernel over the neighbours", c.near(s.density(i), rho[i], 1e-9 * std::max(1.0, double(rho[i]))));
    // values: explicit step in the order of the particles
    for (int i = 0; i < n; ++i)
    {
        if (fixed[i])
        {
            c.ensure("a fixed value stays", c.eq(f.u(i), f.uFixed.at(i)));
            u[i] = f.uFixed.at(i);
            continue;
        }
        if (constant) c.ensure("a constant field stays", c.near(f.u(i), R(2.5), 1e-9));
        if (!still) continue;
        R fd = R(0);
        for (int j = 0; j < n; ++j)
            if (dist(i, j) <= h) fd = fd + (u[j] - u[i]) / rho[j] * K->laplacianW(G(p[j] - p[i]), h);
        u[i] = u[i] + D * fd * dt;
        c.ensure("a value changes by the diffusion from its neighbours", c.near(f.u(i), u[i], 1e-9 * std::max(1.0, std::fabs(double(u[i])))));
    }
}
