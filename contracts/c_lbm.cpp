// The lattice Boltzmann solver (D2Q9).
#include "geo_common.hpp"
#include "CmnTypes.hpp"
#include "LbmLidDrivenSolver.hpp"
using namespace spec;
using namespace ENigMA::lbm;

namespace
{
    // the lattice: rest, east, north, west, south, and the diagonals in between
    const int ex[9] = { 0, 1, 0, -1, 0, 1, -1, -1, 1 }, ey[9] = { 0, 0, 1, 0, -1, 1, 1, -1, -1 };
    int opposite(int k)
    {
        for (int m = 0; m < 9; ++m)
            if (ex[m] == -ex[k] && ey[m] == -ey[k]) return m;
        return -1;
    }
    template <class R> R weight(int k) { return k == 0 ? R(4) / R(9) : k < 5 ? R(1) / R(9) : R(1) / R(36); }
    template <class R> R equilibrium(int k, const R& rho, const R& u, const R& v)
    {
        R e = R(ex[k]) * u + R(ey[k]) * v;
        return weight<R>(k) * rho * (R(1) + R(3) * e + R(9) / R(2) * e * e - R(3) / R(2) * (u * u + v * v));
    }
    template <class R> using Lbm = CLbmLidDrivenSolver<R, 2, 9>;
    std::string at(int i, int j) { return "(" + std::to_string(i) + "," + std::to_string(j) + ")"; }
    template <class C> typename C::R val(C& c, const std::string& n, double lo, double hi) { return C::symbolic ? c.real(n) : c.in(n, lo, hi); }
    // an arbitrary state
    template <class R> struct State {
        int nx, ny;
        std::vector<std::vector<std::vector<R>>> f, u;
        std::vector<std::vector<R>> rho;
        template <class C> State(C& c, Lbm<R>& s, int nx, int ny)
            : nx(nx), ny(ny)
        {
            for (int i = 0; i <= nx; ++i)
                for (int j = 0; j <= ny; ++j)
                {
                    R r = val(c, "rho" + at(i, j), 0.5, 2), a = val(c, "u" + at(i, j), -0.3, 0.3), b = val(c, "v" + at(i, j), -0.3, 0.3);
                    s.setDensity(i, j, r);
                    s.setVelocity(i, j, 0, a);
                    s.setVelocity(i, j, 1, b);
                    for (int k = 0; k < 9; ++k) s.m_f[i][j][k] = weight<R>(k) * val(c, "f" + std::to_string(k) + at(i, j), 0.5, 2);
                }
            f = s.m_f, u = s.m_u, rho = s.m_rho;
        }
    };
}

CONTRACT("L01", lbm_equilibrium, "CLbmLidDrivenSolver::feq2 and the lattice")
{
    typedef typename C::R R;
    Lbm<R> s(3, 3, 0);
    R rho = val(c, "rho", 0.1, 3), u = val(c, "u", -1, 1), v = val(c, "v", -1, 1);
    std::vector<R> w = { u, v };
    R m = R(0), mx = R(0), my = R(0), xx = R(0), xy = R(0), yy = R(0), third = R(0);
    for (int k = 0; k < 9; ++k)
    {
        R f = s.feq2(k, rho, w);
        R e = R(s.m_e[k][0]), g = R(s.m_e[k][1]);
        m = m + f, mx = mx + e * f, my = my + g * f, xx = xx + e * e * f, xy = xy + e * g * f, yy = yy + g * g * f;
    }
    c.ensure("mass", c.eq(m, rho));
    c.ensure("momentum", c.eq(mx, rho * u) && c.eq(my, rho * v));
    c.ensure("momentum flux", c.eq(xx, rho * (R(1) / R(3) + u * u)) && c.eq(xy, rho * u * v) && c.eq(yy, rho * (R(1) / R(3) + v * v)));
    bool ok = true;
    for (int k = 0; k < 9; ++k) ok = ok && s.m_e[k][0] == ex[k] && s.m_e[k][1] == ey[k];
    c.ensure("the nine directions", c.is(ok));
}

BOUNDED_CONTRACT("L01", lbm_step, "CLbmLidDrivenSolver::evolve, setDensity, setVelocity, setBoundary", "every state and relaxation time on grids of one to four inner nodes with every set of obstacles")
{
    typedef typename C::R R;
    int nx = 2 + c.choose("columns", 2), ny = 2 + c.choose("rows", 2);
    Lbm<R> s(nx, ny, 0);
    for (int i = 0; i <= nx; ++i)
        for (int j = 0; j <= ny; ++j) s.setBoundary(i, j, i == 0 || i == nx || j == 0);
    for (int i = 1; i < nx; ++i)
        for (int j = 1; j < ny; ++j) s.setBoundary(i, j, c.choose("wall" + at(i, j), 2));
    State<R> o(c, s, nx, ny);
    R tau = val(c, "tau", 0.55, 3);
    c.require(c.gt(tau, R(0)));
    auto relaxed = [&](int i, int j, int k) { return o.f[i][j][k] + (equilibrium(k, o.rho[i][j], o.u[i][j][0], o.u[i][j][1]) - o.f[i][j][k]) / tau; };
    std::vector<std::vector<R>> rho(nx + 1, std::vector<R>(ny + 1));
    for (int i = 1; i < nx; ++i)
        for (int j = 1; j < ny; ++j)
        {
            R r = R(0);
            for (int k = 0; k < 9; ++k) r = r + relaxed(i - ex[k], j - ey[k], k);
            if (C::symbolic) c.require(c.gt(r, R(0)));
            else c.require(c.gt(r, R(0.01)));
            rho[i][j] = r;
        }
    s.evolve(tau);
    for (int i = 1; i < nx; ++i)
        for (int j = 1; j < ny; ++j)
        {
            typename C::B f = c.is(true);
            R px = R(0), py = R(0);
            for (int k = 0; k < 9; ++k)
            {
                int m = s.getBoundary(i, j) ? opposite(k) : k;
                R e = relaxed(i - ex[m], j - ey[m], m);
                f = f && c.eq(s.m_f[i][j][k], e, 4);
                px = px + R(ex[k]) * e, py = py + R(ey[k]) * e;
            }
            c.ensure("the populations arriving at an inner node, turned back in obstacles", f);
            c.ensure("density", c.eq(s.m_rho[i][j], rho[i][j], 4));
            c.ensure("velocity", c.eq(s.getVelocity(i, j, 0) * rho[i][j], px, 4) && c.eq(s.getVelocity(i, j, 1) * rho[i][j], py, 4));
        }
    for (int i = 0; i <= nx; ++i)
    {
        c.ensure("the lid keeps its velocity", c.eq(s.getVelocity(i, ny, 0), o.u[i][ny][0]) && c.eq(s.getVelocity(i, ny, 1), o.u[i][ny][1]));
        bool inner = i > 0 && i < nx;
        R r = inner ? rho[i][ny - 1] : o.rho[i][ny - 1];
        c.ensure("and takes the density below", c.eq(s.m_rho[i][ny], r, 4));
        typename C::B f = c.is(true);
        for (int k = 0; k < 9; ++k)
        {
            // the deviation from equilibrium is that of the node below
            R below = equilibrium(k, s.m_rho[i][ny - 1], s.m_u[i][ny - 1][0], s.m_u[i][ny - 1][1]);
            f = f && c.eq(s.m_f[i][ny][k] - equilibrium(k, r, o.u[i][ny][0], o.u[i][ny][1]), s.m_f[i][ny - 1][k] - below, 4);
        }
        c.ensure("and the deviation from equilibrium below", f);
    }
    for (int i = 0; i <= nx; ++i)
        for (int j = 0; j < ny; ++j)
            if (i == 0 || i == nx || j == 0)
                c.ensure("the other walls stay", c.eq(s.m_rho[i][j], o.rho[i][j]) && c.eq(s.getVelocity(i, j, 0), o.u[i][j][0]) && c.eq(s.getVelocity(i, j, 1), o.u[i][j][1]));
}

CONTRACT("L01", lbm_uniform, "CLbmLidDrivenSolver::evolve (collisions conserve mass and momentum)")
{
    // the same populations everywhere, not in equilibrium: streaming changes nothing, collisions keep density and velocity
    typedef typename C::R R;
    Lbm<R> s(3, 3, 0);
    R f[9], rho = R(0), px = R(0), py = R(0), tau = val(c, "tau", 0.55, 3);
    c.require(c.gt(tau, R(0)));
    for (int k = 0; k < 9; ++k)
    {
        f[k] = val(c, "f" + std::to_string(k), 0.1, 2);
        c.require(c.gt(f[k], R(0)));
        rho = rho + f[k], px = px + R(ex[k]) * f[k], py = py + R(ey[k]) * f[k];
    }
    for (int i = 0; i <= 3; ++i)
        for (int j = 0; j <= 3; ++j)
        {
            s.setBoundary(i, j, 0);
            s.setDensity(i, j, rho);
            s.setVelocity(i, j, 0, px / rho);
            s.setVelocity(i, j, 1, py / rho);
            for (int k = 0; k < 9; ++k) s.m_f[i][j][k] = f[k];
        }
    s.evolve(tau);
    for (int i = 1; i < 3; ++i)
        for (int j = 1; j < 3; ++j)
        {
            c.ensure("density is kept", c.eq(s.m_rho[i][j], rho));
            c.ensure("velocity is kept", c.eq(s.getVelocity(i, j, 0) * rho, px) && c.eq(s.getVelocity(i, j, 1) * rho, py));
        }
}

RUNTIME_CONTRACT("L01", lbm_cavity, "CLbmLidDrivenSolver::init, evolve", "grids of up to 12 x 12 nodes, up to 60 steps")
{
    std::mt19937 g(c.choose("seed", 1 << 20));
    std::uniform_real_distribution<double> U(0, 1);
    int nx = 2 + g() % 11, ny = 2 + g() % 11, steps = 1 + g() % 60;
    double tau = 0.6 + U(g), lid = g() % 4 ? 0.1 * (2 * U(g) - 1) : 0;
    Lbm<double> s(nx, ny, 0), t(nx, ny, 0);
    for (auto* p : { &s, &t })
    {
        p->init();
        for (int i = 0; i <= nx; ++i)
        {
            for (int j = 0; j <= ny; ++j) p->setBoundary(i, j, i == 0 || i == nx || j == 0);
            p->setVelocity(i, ny, 0, p == &s ? lid : -lid);
        }
    }
    for (int n = 0; n < steps; ++n) s.evolve(tau), t.evolve(tau);
    bool rest = true, mirrored = true, finite = true;
    for (int i = 0; i <= nx; ++i)
        for (int j = 0; j <= ny; ++j)
        {
            double u = s.getVelocity(i, j, 0), v = s.getVelocity(i, j, 1);
            finite = finite && std::fabs(u) < 1 && std::fabs(v) < 1;
            if (lid == 0) rest = rest && std::fabs(u) < 1e-13 && std::fabs(v) < 1e-13 && std::fabs(s.m_rho[i][j] - 1) < 1e-12;
            mirrored = mirrored && std::fabs(u + t.getVelocity(nx - i, j, 0)) < 1e-12 && std::fabs(v - t.getVelocity(nx - i, j, 1)) < 1e-12;
        }
    c.ensure("a fluid at rest stays at rest", c.is(rest));
    c.ensure("moving the lid the other way mirrors the flow", c.is(mirrored));
    c.ensure("velocities stay bounded", c.is(finite));
}
