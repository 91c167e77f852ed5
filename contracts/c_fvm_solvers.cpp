// The finite volume solvers: every step against its balance over the faces of a cell.
#include "fvm_common.hpp"
#include "FvmPisoSolver.hpp"
#include "FvmTemperatureSolver.hpp"
#include "FvmVofSolver.hpp"
using namespace spec;

namespace
{
    template <class R> struct Piso : CFvmPisoSolver<R> {
        typedef CFvmPisoSolver<R> B;
        using B::B; using B::m_dt; using B::m_gx; using B::m_gy; using B::m_gz; using B::m_dens; using B::m_visc; using B::m_flux; using B::m_u0; using B::m_v0; using B::m_w0;
        using B::m_u; using B::m_v; using B::m_w; using B::m_uf; using B::m_vf; using B::m_wf; using B::m_p0; using B::m_p; using B::m_pf; using B::m_ap; using B::m_Hu; using B::m_Hv; using B::m_Hw;
        using B::m_fvmMesh; using B::storePreviousQuantities; using B::calculateVelocityField; using B::calculatePressureField; using B::correctFlux; using B::correctVelocityField; using B::correctPressureField;
        using B::setTimeInterval;
    };
    template <class R> struct Heat : CFvmTemperatureSolver<R> {
        typedef CFvmTemperatureSolver<R> B;
        using B::B; using B::m_dt; using B::m_dens; using B::m_visc; using B::m_flux; using B::m_T; using B::m_T0; using B::m_Tf; using B::m_thcond; using B::m_spheat; using B::m_fvmMesh; using B::calculateTemperatureField; using B::storePreviousQuantities;
        using B::m_u; using B::m_v; using B::m_w; using B::m_p; using B::m_u0; using B::m_v0; using B::m_w0; using B::m_p0;
    };
    struct Vof : CFvmVofSolver<double> {
        typedef CFvmVofSolver<double> B;
        using B::B; using B::m_dt; using B::m_dens; using B::m_visc; using B::m_flux; using B::m_s; using B::m_s0; using B::m_sf; using B::m_betaf; using B::m_Co; using B::m_fvmMesh;
        using B::storePreviousQuantities; using B::updateProperties; using B::calculateGammaField; using B::calculateCourant; using B::predictBeta; using B::correctBeta;
    };
    // the mesh as seen here
    template <class R> struct Net {
        struct Face { int id, owner, other; V<R> area, centre; R measure; };
        std::vector<Face> faces;
        std::vector<int> cells;
        std::map<int, R> size;
        std::map<int, V<R>> centre;
        std::map<int, int> index;
        Net(CFvmMesh<R>& m)
        {
            for (int i = 0; i < m.nbFaces(); ++i)
            {
                CFvmFace<R>& f = m.face(m.faceId(i));
                CGeoPolyline<R>& l = f.polyline();
                int k = l.nbVertices() - 1; // closed
                V<R> a = cross(v<R>(l.vertex(1)) - v<R>(l.vertex(0)), v<R>(l.vertex(k - 1)) - v<R>(l.vertex(0))) * (R(1) / R(k == 3 ? 2 : 1)), c = v3(R(0), R(0), R(0));
                for (int j = 0; j < k; ++j) c = c + v<R>(l.vertex(j));
                faces.push_back({ m.faceId(i), f.controlVolumeId(), f.hasPair() ? f.neighborId(f.controlVolumeId()) : -1, a, c * (R(1) / R(k)), len(a) });
            }
            for (int i = 0; i < m.nbControlVolumes(); ++i)
            {
                int id = m.controlVolumeId(i), n = 0;
                index[id] = i;
                cells.push_back(id);
                V<R> c = v3(R(0), R(0), R(0));
                R s = R(0);
                V<R> ref;
                for (auto& f : faces)
                    if (f.owner == id || f.other == id)
                    {
                        if (!n++) ref = f.centre;
                        c = c + f.centre;
                        s = s + dot(f.centre - ref, f.area) * R(f.owner == id ? 1 : -1) / R(3);
                    }
                centre[id] = c * (R(1) / R(n));
                size[id] = s;
            }
        }
        // the net of the face from inside the cell
        R sign(const Face& f, int cell) { return R(f.owner == cell ? 1 : -1); }
        R dist(const Face& f)
        {
            R d = len(f.centre - centre[f.owner]);
            if (f.other >= 0) d = d + len(f.centre - centre[f.other]);
            return d;
        }
        template <class M, class N> V<R> gradient(M& cell, N& face, int id)
        {
            V<R> g = v3(R(0), R(0), R(0));
            for (auto& f : faces)
                if (f.owner == id || f.other == id) g = g + f.area * (sign(f, id) * (f.other < 0 ? face.at(f.id) : (cell.at(f.owner) + cell.at(f.other)) / R(2)));
            return g * (R(1) / size[id]);
        }
    };
    const EBoundaryType KIND[4] = { BT_WALL_NO_SLIP, BT_INLET_FLOW, BT_INLET_PRESSURE, BT_OUTLET };
    template <class R> struct SysOf { Eigen::Matrix<R, Eigen::Dynamic, Eigen::Dynamic> A; Eigen::Matrix<R, Eigen::Dynamic, 1> b[3]; };
    template <class R> SysOf<R> zero(int n)
    {
        SysOf<R> s;
        s.A = Eigen::Matrix<R, Eigen::Dynamic, Eigen::Dynamic>::Zero(n, n);
        for (auto& x : s.b) x = Eigen::Matrix<R, Eigen::Dynamic, 1>::Zero(n);
        return s;
    }
    // small meshes with every state
    template <class C> struct Some {
        typedef typename C::R R;
        std::unique_ptr<Piso<R>> p;
        std::unique_ptr<Net<R>> n;
        Some(C& c)
        {
            int turn = c.choose("turn", 3), k = 1 + c.choose("cells", 3);
            CMshMesh<R> m = boxMesh<C>(c, turn, k);
            CFvmMesh<R> f(m);
            p.reset(new Piso<R>(f));
            n.reset(new Net<R>(p->m_fvmMesh));
        }
        void cells(C& c, std::map<int, R>& x, const std::string& name)
        {
            for (int id : n->cells) x[id] = c.real(name + std::to_string(n->index[id]));
        }
        void faces(C& c, std::map<int, R>& x, const std::string& name, bool all = true)
        {
            for (auto& f : n->faces)
                if (all || f.other < 0) x[f.id] = c.real(name + "f" + std::to_string(f.id));
        }
    };
#define SMALL "one to three boxes of any size in three orientations, every state"
}
BOUNDED_CONTRACT("V03", piso_start, "CFvmPisoSolver: construction, setGravity, setMaterialProperties, setBoundaryVelocity/Pressure, accessors", SMALL)
{
    typedef typename C::R R;
    Some<C> s(c);
    Piso<R>& p = *s.p;
    typename C::B rest = c.is(true);
    for (int id : s.n->cells) rest = rest && c.eq(p.u(id), R(0)) && c.eq(p.v(id), R(0)) && c.eq(p.w(id), R(0)) && c.eq(p.p(id), R(0));
    for (auto& f : s.n->faces) rest = rest && c.eq(p.uf(f.id), R(0)) && c.eq(p.vf(f.id), R(0)) && c.eq(p.wf(f.id), R(0)) && c.eq(p.pf(f.id), R(0)) && c.eq(p.flux(f.id), R(0));
    c.ensure("at rest", rest);
    typename C::B geo = c.is(true);
    for (int id : s.n->cells)
    {
        CFvmControlVolume<R>& cv = p.m_fvmMesh.controlVolume(id);
        geo = geo && c.eq(cv.originalVolume(), s.n->size[id]);
        for (auto& f : s.n->faces)
            if (f.owner == id || f.other == id)
                geo = geo && c.eq(cv.faceArea(f.id), f.measure) && eqv(c, v<R>(cv.faceNormal(f.id)) * f.measure, f.area * s.n->sign(f, id)) && eqv(c, v<R>(cv.faceDist(f.id)), f.centre - s.n->centre[id]);
    }
    c.ensure("measures of the cells", geo);
    R g[3] = { c.real("gx"), c.real("gy"), c.real("gz") }, d = c.real("density"), mu = c.real("viscosity"), dt = c.real("dt"), w[4] = { c.real("bu"), c.real("bv"), c.real("bw"), c.real("bp") };
    p.setGravity(g[0], g[1], g[2]);
    p.setMaterialProperties(d, mu);
    p.setTimeInterval(dt);
    std::vector<int> odd, even;
    for (auto& f : s.n->faces) (f.id % 2 ? odd : even).push_back(f.id);
    p.setBoundaryVelocity(odd, BT_INLET_FLOW, w[0], w[1], w[2]);
    p.setBoundaryPressure(even, BT_OUTLET, w[3]);
    c.ensure("gravity and step", c.eq(p.m_gx, g[0]) && c.eq(p.m_gy, g[1]) && c.eq(p.m_gz, g[2]) && c.eq(p.m_dt, dt));
    typename C::B mat = c.is(true), bc = c.is(true);
    for (int id : s.n->cells) mat = mat && c.eq(p.m_dens.at(id), d) && c.eq(p.m_visc.at(id), mu);
    c.ensure("material", mat);
    for (auto& f : s.n->faces)
    {
        bool o = f.id % 2;
        bc = bc && c.eq(p.uf(f.id), o ? w[0] : R(0)) && c.eq(p.vf(f.id), o ? w[1] : R(0)) && c.eq(p.wf(f.id), o ? w[2] : R(0)) && c.eq(p.pf(f.id), o ? R(0) : w[3])
            && c.is(p.m_fvmMesh.face(f.id).boundaryType() == (o ? BT_INLET_FLOW : BT_OUTLET));
    }
    c.ensure("boundary", bc);
}
BOUNDED_CONTRACT("V03", piso_gradient, "CFvmPisoSolver::gradient/gradu/gradv/gradw/gradp", SMALL)
{
    typedef typename C::R R;
    Some<C> s(c);
    Piso<R>& p = *s.p;
    int what = c.choose("what", 4);
    std::map<int, R>* cell[4] = { &p.m_u, &p.m_v, &p.m_w, &p.m_p };
    std::map<int, R>* face[4] = { &p.m_uf, &p.m_vf, &p.m_wf, &p.m_pf };
    s.cells(c, *cell[what], "x");
    s.faces(c, *face[what], "x", false);
    typename C::B ok = c.is(true);
    for (int id : s.n->cells)
    {
        CGeoVector<R> g = what == 0 ? p.gradu(id) : what == 1 ? p.gradv(id) : what == 2 ? p.gradw(id) : p.gradp(id);
        ok = ok && eqv(c, v<R>(g), s.n->gradient(*cell[what], *face[what], id));
    }
    c.ensure("gradient", ok);
}
BOUNDED_CONTRACT("V03", piso_mass_check, "CFvmPisoSolver::checkMassConservation/massError/flux", SMALL)
{
    typedef typename C::R R;
    Some<C> s(c);
    Piso<R>& p = *s.p;
    s.faces(c, p.m_flux, "q");
    R total;
    p.checkMassConservation(total);
    typename C::B ok = c.is(true);
    R sum = R(0);
    for (int id : s.n->cells)
    {
        R e = R(0);
        for (auto& f : s.n->faces)
            if (f.owner == id || f.other == id) e = e + p.flux(f.id) * s.n->sign(f, id);
        ok = ok && c.eq(p.massError(id), e);
        if (e >= R(0)) sum = sum + e;
        else sum = sum - e;
    }
    c.ensure("error of a cell", ok);
    c.ensure("mean error", c.eq(total * R(int(s.n->cells.size())), sum));
}
BOUNDED_CONTRACT("V03", piso_correction, "CFvmPisoSolver::correctFlux/correctVelocityField", SMALL " with walls, inlets and outlets")
{
    typedef typename C::R R;
    Some<C> s(c);
    Piso<R>& p = *s.p;
    s.faces(c, p.m_flux, "q");
    s.faces(c, p.m_pf, "p", false);
    s.cells(c, p.m_p, "p");
    s.cells(c, p.m_Hu, "hu");
    s.cells(c, p.m_Hv, "hv");
    s.cells(c, p.m_Hw, "hw");
    for (int id : s.n->cells)
    {
        R a = c.real("a" + std::to_string(s.n->index[id]));
        c.require(c.gt(a, R(0.01)));
        p.m_ap[id] = a;
    }
    int shift = c.choose("kinds", 4), k = 0;
    for (auto& f : s.n->faces)
        if (f.other < 0) p.m_fvmMesh.face(f.id).setBoundaryType(CFvmBoundaryType(KIND[(k++ + shift) % 4]));
    std::map<int, R> q = p.m_flux, pf = p.m_pf;
    p.correctFlux();
    typename C::B fl = c.is(true), pr = c.is(true);
    for (auto& f : s.n->faces)
    {
        R a = f.other < 0 ? p.m_ap[f.owner] : (p.m_ap[f.owner] + p.m_ap[f.other]) / R(2), e = q[f.id], P = p.m_p[f.owner], w = pf[f.id];
        R k1 = f.measure / (a * s.n->dist(f));
        if (f.other >= 0) e = e - k1 * (p.m_p[f.other] - P);
        else if (p.m_fvmMesh.face(f.id).boundaryType() == BT_WALL_NO_SLIP) e = R(0), w = P;
        else if (p.m_fvmMesh.face(f.id).boundaryType() == BT_INLET_FLOW) w = P;
        else if (p.m_fvmMesh.face(f.id).boundaryType() == BT_INLET_PRESSURE) e = e - k1 * (w - P);
        else e = e + k1 * P, w = R(0);
        fl = fl && c.eq(p.m_flux[f.id], e);
        if (f.other < 0) pr = pr && c.eq(p.m_pf[f.id], w);
    }
    c.ensure("flux follows the pressure difference", fl);
    c.ensure("pressure at the boundary", pr);
    p.correctVelocityField();
    typename C::B ve = c.is(true);
    for (int id : s.n->cells)
    {
        V<R> g = s.n->gradient(p.m_p, p.m_pf, id);
        ve = ve && eqv(c, v3(p.m_u[id], p.m_v[id], p.m_w[id]) * p.m_ap[id], v3(p.m_Hu[id], p.m_Hv[id], p.m_Hw[id]) - g);
    }
    c.ensure("velocity", ve);
}
BOUNDED_CONTRACT("V03", piso_pressure_level, "CFvmPisoSolver::correctPressureField", SMALL)
{
    typedef typename C::R R;
    Some<C> s(c);
    Piso<R>& p = *s.p;
    s.cells(c, p.m_p, "p");
    s.faces(c, p.m_pf, "p");
    int kind = c.choose("kind", 4);
    for (auto& f : s.n->faces)
        if (f.other < 0) p.m_fvmMesh.face(f.id).setBoundaryType(CFvmBoundaryType(f.id == s.n->faces.back().id ? KIND[kind] : BT_WALL_NO_SLIP));
    std::map<int, R> P = p.m_p, F = p.m_pf;
    bool prescribed = kind >= 2 && s.n->faces.back().other < 0;
    p.correctPressureField();
    R d = prescribed ? R(0) : P[s.n->cells[0]] - p.m_p[s.n->cells[0]];
    typename C::B ok = c.is(true), low = c.is(false), pos = c.is(true);
    for (int id : s.n->cells)
    {
        ok = ok && c.eq(p.m_p[id], P[id] - d);
        low = low || c.eq(p.m_p[id], R(0));
        pos = pos && c.ge(p.m_p[id], R(0));
    }
    for (auto& f : s.n->faces) ok = ok && c.eq(p.m_pf[f.id], F[f.id] - d);
    c.ensure("one level for cells and faces", ok);
    if (!prescribed) c.ensure("lowest pressure is zero", low && pos);
}
BOUNDED_CONTRACT("V03", piso_residual, "CFvmPisoSolver::storePreviousQuantities/residual", SMALL)
{
    typedef typename C::R R;
    Some<C> s(c);
    Piso<R>& p = *s.p;
    s.cells(c, p.m_u, "u0"), s.cells(c, p.m_v, "v0"), s.cells(c, p.m_w, "w0"), s.cells(c, p.m_p, "p0");
    std::map<int, R> o[4] = { p.m_u, p.m_v, p.m_w, p.m_p };
    p.storePreviousQuantities();
    s.cells(c, p.m_u, "u"), s.cells(c, p.m_v, "v"), s.cells(c, p.m_w, "w"), s.cells(c, p.m_p, "p");
    R r[4], e[4] = { R(0), R(0), R(0), R(0) };
    p.residual(r[0], r[1], r[2], r[3]);
    for (int id : s.n->cells)
    {
        R d[4] = { p.m_u[id] - o[0][id], p.m_v[id] - o[1][id], p.m_w[id] - o[2][id], p.m_p[id] - o[3][id] };
        for (int i = 0; i < 4; ++i) e[i] = e[i] + d[i] * d[i];
    }
    c.ensure("sum of squares", c.eq(r[0], e[0]) && c.eq(r[1], e[1]) && c.eq(r[2], e[2]) && c.eq(r[3], e[3]));
}
namespace
{
    template <class S> void sprinkle(std::mt19937& g, S& x, double lo, double hi)
    {
        for (auto& kv : x) kv.second = std::uniform_real_distribution<double>(lo, hi)(g);
    }
    typedef Eigen::VectorXd Vec;
    double worst(const Vec& a, const Vec& b) { return a.size() == b.size() ? (a - b).cwiseAbs().maxCoeff() / (1 + b.cwiseAbs().maxCoeff()) : 1e9; }
}
RUNTIME_CONTRACT("V03", piso_momentum, "CFvmPisoSolver::calculateVelocityField", "generated meshes of up to 27 hexahedra, tetrahedra or prisms with every state")
{
    int seed = c.choose("seed", 1 << 20);
    Solid<double> s(seed, 3, true);
    std::mt19937 g(seed + 3);
    CFvmMesh<double> m(s.mesh);
    Piso<double> p(m);
    Net<double> n(p.m_fvmMesh);
    auto U = [&](double lo, double hi) { return std::uniform_real_distribution<double>(lo, hi)(g); };
    double gr[3] = { U(-5, 5), U(-5, 5), U(-5, 5) };
    p.setMaterialProperties(1, 1);
    p.setGravity(gr[0], gr[1], gr[2]);
    p.m_dt = U(0.001, 0.05);
    sprinkle(g, p.m_dens, 0.5, 3), sprinkle(g, p.m_visc, 0.5, 3), sprinkle(g, p.m_flux, -0.05, 0.05);
    sprinkle(g, p.m_u0, -1, 1), sprinkle(g, p.m_v0, -1, 1), sprinkle(g, p.m_w0, -1, 1), sprinkle(g, p.m_p, -1, 1);
    sprinkle(g, p.m_uf, -1, 1), sprinkle(g, p.m_vf, -1, 1), sprinkle(g, p.m_wf, -1, 1), sprinkle(g, p.m_pf, -1, 1);
    const int N = int(n.cells.size());
    SysOf<double> q = zero<double>(N);
    for (auto& f : n.faces)
        for (int id : { f.owner, f.other })
        {
            if (id < 0) continue;
            int i = n.index[id];
            double V = n.size[id], out = p.m_flux[f.id] * n.sign(f, id);
            if (f.other >= 0)
            {
                int o = id == f.owner ? f.other : f.owner, j = n.index[o];
                double d = (p.m_dens[id] + p.m_dens[o]) / 2, k = (p.m_visc[id] + p.m_visc[o]) / 2 * f.measure / n.dist(f);
                q.A(i, i) += (d * out / 2 + k) / V, q.A(i, j) += (d * out / 2 - k) / V;
            }
            else
            {
                double k = p.m_visc[id] * f.measure / n.dist(f);
                q.A(i, i) += k / V;
                double w[3] = { p.m_uf[f.id], p.m_vf[f.id], p.m_wf[f.id] };
                for (int a = 0; a < 3; ++a) q.b[a](i) += (k - p.m_dens[id] * out) * w[a] / V;
            }
        }
    Vec grad[3] = { Vec(N), Vec(N), Vec(N) };
    for (int id : n.cells)
    {
        int i = n.index[id];
        V<double> G = n.gradient(p.m_p, p.m_pf, id);
        double gp[3] = { G.x, G.y, G.z }, u0[3] = { p.m_u0[id], p.m_v0[id], p.m_w0[id] }, t = p.m_dens[id] / p.m_dt;
        q.A(i, i) += t;
        for (int a = 0; a < 3; ++a) q.b[a](i) += p.m_dens[id] * gr[a] + t * u0[a], grad[a](i) = gp[a];
    }
    p.calculateVelocityField();
    Vec ap(N), H[3] = { Vec(N), Vec(N), Vec(N) };
    for (int id : n.cells) ap(n.index[id]) = p.m_ap[id], H[0](n.index[id]) = p.m_Hu[id], H[1](n.index[id]) = p.m_Hv[id], H[2](n.index[id]) = p.m_Hw[id];
    c.ensure("diagonal", c.near(worst(ap, q.A.diagonal()), 0, 1e-6));
    double w = 0;
    for (int a = 0; a < 3; ++a)
    {
        Vec u = q.A.partialPivLu().solve(q.b[a] - grad[a]);
        Vec e = q.b[a] - q.A * u + Vec(q.A.diagonal().cwiseProduct(u));
        w = std::max(w, worst(H[a], e));
    }
    c.ensure("momentum without pressure", c.near(w, 0, 1e-5));
}
RUNTIME_CONTRACT("V03", piso_pressure, "CFvmPisoSolver::calculatePressureField", "generated meshes of up to 27 hexahedra, tetrahedra or prisms with every state, walls, inlets, outlets")
{
    int seed = c.choose("seed", 1 << 20);
    Solid<double> s(seed, 3, true);
    std::mt19937 g(seed + 4);
    CFvmMesh<double> m(s.mesh);
    Piso<double> p(m);
    Net<double> n(p.m_fvmMesh);
    auto U = [&](double lo, double hi) { return std::uniform_real_distribution<double>(lo, hi)(g); };
    for (int id : n.cells) p.m_ap[id] = U(0.5, 3), p.m_Hu[id] = U(-1, 1), p.m_Hv[id] = U(-1, 1), p.m_Hw[id] = U(-1, 1);
    sprinkle(g, p.m_flux, -1, 1), sprinkle(g, p.m_uf, -1, 1), sprinkle(g, p.m_vf, -1, 1), sprinkle(g, p.m_wf, -1, 1), sprinkle(g, p.m_pf, -1, 1);
    int open = g() % 3; // closed, any, any
    for (auto& f : n.faces)
        if (f.other < 0) p.m_fvmMesh.face(f.id).setBoundaryType(CFvmBoundaryType(KIND[open ? g() % 4 : 0]));
    auto q0 = p.m_flux, uf = p.m_uf, vf = p.m_vf, wf = p.m_wf;
    const int N = int(n.cells.size());
    SysOf<double> q = zero<double>(N);
    p.calculatePressureField();
    double fl = 0, ve = 0;
    bool level = false;
    for (auto& f : n.faces)
    {
        double a = f.other < 0 ? p.m_ap[f.owner] : (p.m_ap[f.owner] + p.m_ap[f.other]) / 2, k = f.measure / (a * n.dist(f));
        V<double> H = v3(p.m_Hu[f.owner], p.m_Hv[f.owner], p.m_Hw[f.owner]);
        if (f.other >= 0) H = (H + v3(p.m_Hu[f.other], p.m_Hv[f.other], p.m_Hw[f.other])) * 0.5;
        double out = dot(H, f.area) / a;
        int i = n.index[f.owner];
        EBoundaryType t = BT_NONE;
        for (auto x : KIND) if (p.m_fvmMesh.face(f.id).boundaryType() == x) t = x;
        if (f.other >= 0)
        {
            int j = n.index[f.other];
            q.A(i, i) -= k, q.A(i, j) += k, q.A(j, j) -= k, q.A(j, i) += k;
            q.b[0](i) += out, q.b[0](j) -= out;
            // the sign of the flux between cells is settled when the owner comes first
            fl = std::max(fl, std::fabs(p.m_flux[f.id] - (i < j ? out : -out)));
            continue;
        }
        if (t == BT_WALL_NO_SLIP) { fl = std::max(fl, std::fabs(p.m_flux[f.id] - q0[f.id])); continue; }
        if (t == BT_INLET_FLOW) out = dot(v3(uf[f.id], vf[f.id], wf[f.id]), f.area);
        else
        {
            level = true;
            q.A(i, i) -= k;
            if (t == BT_INLET_PRESSURE) q.b[0](i) -= k * p.m_pf[f.id];
            V<double> w = f.area * (out / (f.measure * f.measure));
            ve = std::max(ve, std::fabs(p.m_uf[f.id] - w.x) + std::fabs(p.m_vf[f.id] - w.y) + std::fabs(p.m_wf[f.id] - w.z));
        }
        q.b[0](i) += out;
        fl = std::max(fl, std::fabs(p.m_flux[f.id] - out));
    }
    c.ensure("predicted flux", c.near(fl, 0, 1e-8));
    c.ensure("velocity at open boundaries", c.near(ve, 0, 1e-8));
    if (!level && std::fabs(q.b[0].sum()) > 1e-9) return; // inflow without outflow has no solution
    Vec x(N);
    for (int id : n.cells) x(n.index[id]) = p.m_p[id];
    c.ensure("pressure balances the predicted fluxes", c.near((q.A * x - q.b[0]).cwiseAbs().maxCoeff() / (1 + q.b[0].cwiseAbs().maxCoeff()), 0, 1e-6));
}
RUNTIME_CONTRACT("V03", piso_step, "CFvmPisoSolver::iterate", "generated meshes of hexahedra, tetrahedra or prisms, one to three steps from any state, closed and open")
{
    int seed = c.choose("seed", 1 << 20);
    Solid<double> s(seed, 3, true);
    std::mt19937 g(seed + 5);
    CFvmMesh<double> m(s.mesh);
    Piso<double> p(m);
    Net<double> n(p.m_fvmMesh);
    auto U = [&](double lo, double hi) { return std::uniform_real_distribution<double>(lo, hi)(g); };
    p.setMaterialProperties(U(0.5, 2), U(0.5, 2));
    p.setGravity(U(-2, 2), U(-2, 2), U(-2, 2));
    sprinkle(g, p.m_u, -0.1, 0.1), sprinkle(g, p.m_v, -0.1, 0.1), sprinkle(g, p.m_w, -0.1, 0.1);
    int open = g() % 3;
    std::vector<int> wall, in, out;
    for (auto& f : n.faces)
        if (f.other < 0)
        {
            V<double> t = f.centre - s.o;
            double D = det(s.a[0], s.a[1], s.a[2]), u = det(t, s.a[1], s.a[2]) / D;
            (open && u < 1e-6 ? in : open && u > 1 - 1e-6 ? out : wall).push_back(f.id);
        }
    V<double> w = s.a[0] * (U(0.01, 0.1) / len(s.a[0]));
    p.setBoundaryVelocity(wall, BT_WALL_NO_SLIP, 0, 0, 0);
    if (open == 1) p.setBoundaryVelocity(in, BT_INLET_FLOW, w.x, w.y, w.z);
    double pin = U(-1, 1);
    if (open == 2) p.setBoundaryPressure(in, BT_INLET_PRESSURE, pin);
    p.setBoundaryPressure(out, BT_OUTLET, 0);
    int steps = 1 + g() % 3;
    for (int k = 0; k < steps; ++k)
    {
        auto u = p.m_u;
        p.iterate(U(0.002, 0.02));
        c.ensure("remembers the step before", c.is(p.m_u0 == u));
        double e, q = 0;
        p.checkMassConservation(e);
        for (auto& f : p.m_flux) q = std::max(q, std::fabs(f.second));
        c.ensure("mass is conserved in every cell", c.near(e / (1e-3 + q), 0, 1e-5));
    }
    double qi = 0, qe = 0, qw = 0;
    for (auto& f : n.faces)
    {
        if (std::count(wall.begin(), wall.end(), f.id)) qw = std::max(qw, std::fabs(p.flux(f.id)));
        if (std::count(in.begin(), in.end(), f.id)) qi += p.flux(f.id), qe += dot(w, f.area);
        if (std::count(in.begin(), in.end(), f.id) && open == 2) c.ensure("prescribed pressure", c.near(p.pf(f.id), pin, 1e-9));
        if (std::count(out.begin(), out.end(), f.id)) c.ensure("outlet pressure", c.near(p.pf(f.id), 0, 1e-9));
    }
    c.ensure("nothing through walls", c.near(qw, 0, 1e-12));
    if (open == 1) c.ensure("inflow as prescribed", c.near(qi, qe, 1e-9));
    double low = 1e9;
    for (int id : n.cells) low = std::min(low, p.p(id));
    if (!open) c.ensure("lowest pressure zero", c.near(low, 0, 1e-9));
}
RUNTIME_CONTRACT("V03", temperature_system, "CFvmTemperatureSolver::calculateTemperatureField/setBoundaryTemperature/storePreviousQuantities/residual", "generated meshes of up to 27 hexahedra, tetrahedra or prisms with every state")
{
    int seed = c.choose("seed", 1 << 20);
    Solid<double> s(seed, 3, true);
    std::mt19937 g(seed + 6);
    CFvmMesh<double> m(s.mesh);
    Heat<double> p(m);
    Net<double> n(p.m_fvmMesh);
    auto U = [&](double lo, double hi) { return std::uniform_real_distribution<double>(lo, hi)(g); };
    double mat[4] = { U(0.5, 3), U(0.5, 3), U(0.5, 3), U(0.5, 3) };
    p.setMaterialProperties(mat[0], mat[1], mat[2], mat[3]);
    bool set = true;
    for (int id : n.cells) set = set && p.m_dens[id] == mat[0] && p.m_visc[id] == mat[1] && p.m_thcond[id] == mat[2] && p.m_spheat[id] == mat[3] && p.T(id) == 0;
    c.ensure("material", c.is(set));
    bool steady = g() % 3 == 0;
    p.m_dt = steady ? 0 : U(0.01, 1);
    sprinkle(g, p.m_dens, 0.5, 3), sprinkle(g, p.m_thcond, 0.5, 3), sprinkle(g, p.m_spheat, 0.5, 3), sprinkle(g, p.m_T, -1, 1);
    sprinkle(g, p.m_flux, -0.1, 0.1);
    if (g() % 4 == 0) for (auto& kv : p.m_flux) kv.second = 0;
    p.storePreviousQuantities();
    c.ensure("previous temperature", c.is(p.m_T0 == p.m_T));
    std::vector<int> hot, cold;
    double th = U(-2, 2), tc = U(-2, 2);
    for (auto& f : n.faces)
        if (f.other < 0) { int k = g() % 3; if (k) (k == 1 ? hot : cold).push_back(f.id); }
    p.setBoundaryTemperature(hot, BT_WALL_NO_SLIP, th);
    p.setBoundaryTemperature(cold, BT_INLET_FLOW, tc);
    const int N = int(n.cells.size());
    SysOf<double> q = zero<double>(N);
    bool tf = true;
    for (auto& f : n.faces)
    {
        double want = std::count(hot.begin(), hot.end(), f.id) ? th : std::count(cold.begin(), cold.end(), f.id) ? tc : 0;
        tf = tf && p.Tf(f.id) == want;
        for (int id : { f.owner, f.other })
        {
            if (id < 0) continue;
            int i = n.index[id];
            double out = p.m_flux[f.id] * n.sign(f, id);
            if (f.other >= 0)
            {
                int o = id == f.owner ? f.other : f.owner, j = n.index[o];
                double k = (p.m_thcond[id] + p.m_thcond[o]) / 2 * f.measure / n.dist(f), r = (p.m_dens[id] + p.m_dens[o]) / 2 * (p.m_spheat[id] + p.m_spheat[o]) / 2 * out;
                q.A(i, i) += k, q.A(i, j) -= k;
                q.A(i, out > 0 ? i : j) += r; // heat comes with the flow
            }
            else
            {
                double k = p.m_thcond[id] * f.measure / n.dist(f), r = p.m_dens[id] * p.m_spheat[id] * out;
                q.A(i, i) += k, q.b[0](i) += k * want;
                if (out > 0) q.A(i, i) += r;
                else q.b[0](i) -= r * want;
            }
        }
    }
    c.ensure("boundary temperature", c.is(tf));
    if (!steady)
        for (int id : n.cells)
        {
            double r = n.size[id] * p.m_dens[id] * p.m_spheat[id] / p.m_dt;
            q.A(n.index[id], n.index[id]) += r, q.b[0](n.index[id]) += r * p.m_T0[id];
        }
    p.calculateTemperatureField();
    Vec x(N), e = q.A.partialPivLu().solve(q.b[0]);
    double change = 0;
    for (int id : n.cells) x(n.index[id]) = p.T(id), change += std::pow(p.T(id) - p.m_T0[id], 2);
    c.ensure("heat balance of every cell", c.near(worst(x, e), 0, 1e-6));
    sprinkle(g, p.m_u, -1, 1), sprinkle(g, p.m_v, -1, 1), sprinkle(g, p.m_w, -1, 1), sprinkle(g, p.m_p, -1, 1);
    double r[5], d[4] = { 0, 0, 0, 0 };
    p.residual(r[0], r[1], r[2], r[3], r[4]);
    for (int id : n.cells) d[0] += std::pow(p.m_u[id] - p.m_u0[id], 2), d[1] += std::pow(p.m_v[id] - p.m_v0[id], 2), d[2] += std::pow(p.m_w[id] - p.m_w0[id], 2), d[3] += std::pow(p.m_p[id] - p.m_p0[id], 2);
    c.ensure("residual", c.near(r[4], change, 1e-9 * (1 + change)) && c.near(r[0], d[0], 1e-9 * (1 + d[0])) && c.near(r[1], d[1], 1e-9 * (1 + d[1])) && c.near(r[2], d[2], 1e-9 * (1 + d[2])) && c.near(r[3], d[3], 1e-9 * (1 + d[3])));
    typename C::B gr = c.is(true);
    for (int id : n.cells)
    {
        V<double> G = n.gradient(p.m_T, p.m_Tf, id);
        CGeoVector<double> h = p.gradT(id);
        gr = gr && c.near(h.x(), G.x, 1e-7) && c.near(h.y(), G.y, 1e-7) && c.near(h.z(), G.z, 1e-7);
    }
    c.ensure("gradient", gr);
}
RUNTIME_CONTRACT("V03", temperature_profile, "CFvmTemperatureSolver::iterate", "generated orthogonal grids, any material, step and linear boundary temperature")
{
    int seed = c.choose("seed", 1 << 20);
    Solid<double> s(seed, 1, false, 4);
    std::mt19937 g(seed + 7);
    CFvmMesh<double> m(s.mesh);
    Heat<double> p(m);
    Net<double> n(p.m_fvmMesh);
    auto U = [&](double lo, double hi) { return std::uniform_real_distribution<double>(lo, hi)(g); };
    p.setMaterialProperties(U(0.5, 3), U(0.5, 3), U(0.1, 30), U(0.5, 3));
    V<double> d = v3(U(-2, 2), U(-2, 2), U(-2, 2));
    double o = U(-1, 1);
    for (auto& f : n.faces)
        if (f.other < 0) p.setBoundaryTemperature({ f.id }, BT_WALL_NO_SLIP, o + dot(d, f.centre));
    for (int id : n.cells) p.m_T[id] = o + dot(d, n.centre[id]);
    int steps = 1 + g() % 3;
    for (int k = 0; k < steps; ++k) p.iterate(U(0.01, 2));
    double w = 0;
    for (int id : n.cells) w = std::max(w, std::fabs(p.T(id) - o - dot(d, n.centre[id])));
    c.ensure("a linear profile stays", c.near(w, 0, 1e-5));
}
namespace
{
    // random fraction field between zero and one, flat in parts
    void fraction(std::mt19937& g, std::map<int, double>& s)
    {
        for (auto& kv : s)
        {
            int k = g() % 3;
            kv.second = k == 0 ? 0 : k == 1 ? 1 : std::uniform_real_distribution<double>(0, 1)(g);
        }
    }
}
RUNTIME_CONTRACT("V03", vof_mixture, "CFvmVofSolver::setMaterialProperties/updateProperties/setInitialGamma/setBoundaryGamma/calculateCourant/residual/grads", "generated meshes of up to 27 hexahedra, tetrahedra or prisms with every state")
{
    int seed = c.choose("seed", 1 << 20);
    Solid<double> s(seed, 3, true);
    std::mt19937 g(seed + 8);
    CFvmMesh<double> m(s.mesh);
    Vof p(m);
    Net<double> n(p.m_fvmMesh);
    auto U = [&](double lo, double hi) { return std::uniform_real_distribution<double>(lo, hi)(g); };
    std::map<int, double> x = p.m_s;
    fraction(g, x);
    bool zero = true, ok = true;
    for (int id : n.cells) zero = zero && p.s(id) == 0;
    for (int id : n.cells) p.setInitialGamma(id, x[id]);
    for (int id : n.cells) ok = ok && p.s(id) == x[id];
    double d0 = U(0.5, 3), d1 = U(0.5, 3), m0 = U(0.5, 3), m1 = U(0.5, 3);
    p.setMaterialProperties(d0, m0, d1, m1);
    double w = 0;
    for (int id : n.cells) w = std::max(w, std::fabs(p.m_dens[id] - d0 - x[id] * (d1 - d0)) + std::fabs(p.m_visc[id] - m0 - x[id] * (m1 - m0)));
    c.ensure("fraction", c.is(zero && ok));
    c.ensure("mixture properties", c.near(w, 0, 1e-9));
    std::vector<int> some;
    int one = -1;
    for (auto& f : n.faces)
        if (f.other < 0) { if (g() % 2) some.push_back(f.id); else one = f.id; }
    p.setBoundaryGamma(some, BT_INLET_FLOW, 0.75);
    if (one >= 0) p.setBoundaryGamma(one, BT_OUTLET, 0.25);
    bool bc = true;
    for (auto& f : n.faces)
    {
        double want = f.id == one ? 0.25 : std::count(some.begin(), some.end(), f.id) ? 0.75 : 0;
        bc = bc && p.sf(f.id) == want;
        if (want) bc = bc && p.m_fvmMesh.face(f.id).boundaryType() == (f.id == one ? BT_OUTLET : BT_INLET_FLOW);
    }
    c.ensure("boundary fraction", c.is(bc));
    sprinkle(g, p.m_flux, -1, 1);
    double dt = U(0.01, 1);
    for (int interface = 0; interface < 2; ++interface)
    {
        double most = p.calculateCourant(dt, interface), e = 0, co = 0;
        for (int id : n.cells)
        {
            double in = 0;
            for (auto& f : n.faces)
                if (f.owner == id || f.other == id) in += std::max(-p.m_flux[f.id] * n.sign(f, id), 0.0);
            in *= dt / n.size[id];
            if (interface) in *= 16 * std::pow(x[id] * (1 - x[id]), 2);
            e = std::max(e, std::fabs(in - p.m_Co[id]) / (1 + in));
            co = std::max(co, in);
        }
        c.ensure("Courant number", c.near(e, 0, 1e-9) && c.near(most, co, 1e-9 * (1 + co)));
    }
    typename C::B gr = c.is(true);
    for (int id : n.cells)
    {
        V<double> G = n.gradient(p.m_s, p.m_sf, id);
        CGeoVector<double> h = p.grads(id);
        gr = gr && c.near(h.x(), G.x, 1e-7) && c.near(h.y(), G.y, 1e-7) && c.near(h.z(), G.z, 1e-7);
    }
    c.ensure("gradient", gr);
    p.storePreviousQuantities();
    c.ensure("previous fraction", c.is(p.m_s0 == p.m_s));
    fraction(g, p.m_s);
    double r[5], change = 0;
    p.residual(r[0], r[1], r[2], r[3], r[4]);
    for (int id : n.cells) change += std::pow(p.m_s[id] - p.m_s0[id], 2);
    c.ensure("residual", c.near(r[4], change, 1e-9 * (1 + change)) && c.is(r[0] == 0 && r[1] == 0 && r[2] == 0 && r[3] == 0));
}
RUNTIME_CONTRACT("V03", vof_weights, "CFvmVofSolver::predictBeta/correctBeta", "generated meshes of up to 27 hexahedra, tetrahedra or prisms with every state")
{
    int seed = c.choose("seed", 1 << 20);
    Solid<double> s(seed, 3, true);
    std::mt19937 g(seed + 9);
    CFvmMesh<double> m(s.mesh);
    Vof p(m);
    Net<double> n(p.m_fvmMesh);
    auto U = [&](double lo, double hi) { return std::uniform_real_distribution<double>(lo, hi)(g); };
    fraction(g, p.m_s);
    sprinkle(g, p.m_flux, -1, 1);
    sprinkle(g, p.m_sf, 0, 1);
    double dt = U(0.01, 1);
    p.calculateCourant(dt, false);
    if (g() % 2) sprinkle(g, p.m_Co, 0, 1);
    p.predictBeta(1e-12);
    auto cut = [](double x) { return std::min(std::max(x, 0.0), 1.0); };
    double w = 0;
    std::map<int, double> beta;
    for (auto& f : n.faces)
    {
        double b = 1;
        bool doubtful = false;
        if (f.other >= 0)
        {
            // up: where the flow comes from, down: where it goes to
            int up = p.m_flux[f.id] < 0 ? f.other : f.owner, down = up == f.owner ? f.other : f.owner;
            double S = up == f.owner ? 1 : -1, d = len(f.centre - n.centre[f.owner]);
            V<double> G = n.gradient(p.m_s, p.m_sf, down);
            double rise = S * dot(G, f.area) / f.measure * d, far = cut(p.m_s[up] - 2 * rise), co = std::min(p.m_Co[down], 1.0);
            double range = p.m_s[up] - far;
            doubtful = std::fabs(range) < 1e-6;
            if (std::fabs(range) > 1e-12)
            {
                double x = (p.m_s[down] - far) / range;
                bool in = x >= 0 && x <= 1;
                doubtful = doubtful || std::fabs(x) < 1e-6 || std::fabs(x - 1) < 1e-6 || co < 1e-9 || len(G) * d < 1e-9;
                double cbc = in ? std::min(1.0, x / co) : x, uq = in ? std::min((8 * co * x + (1 - co) * (6 * x + 3)) / 8, cbc) : x;
                double cs = std::min(1.0, std::fabs(rise) / (len(G) * d)), q = std::min(2 * cs * cs, 1.0); // 2 cos^2
                double face = q * cbc + (1 - q) * uq;
                b = cut((face - x) / (1 - x));
            }
        }
        beta[f.id] = b;
        if (!doubtful) w = std::max(w, std::fabs(p.m_betaf[f.id] - b));
        if (!(p.m_betaf[f.id] >= 0 && p.m_betaf[f.id] <= 1)) w = 2;
    }
    c.ensure("weights of the faces", c.near(w, 0, 1e-6));
    // weights are only ever lowered, for donors outside of zero to one
    p.m_s0 = p.m_s;
    for (auto& kv : p.m_s)
        if (g() % 2) kv.second = U(-0.3, 1.3);
    auto before = p.m_betaf;
    p.correctBeta(dt, 1e-12);
    w = 0;
    for (auto& f : n.faces)
    {
        double b = before[f.id], e = b;
        if (f.other >= 0 && b >= 1e-2)
        {
            int D = p.m_flux[f.id] < 0 ? f.owner : f.other, A = D == f.owner ? f.other : f.owner;
            double co = std::min(std::fabs(p.m_flux[f.id]) * dt / n.size[f.owner], 1.0), ds = (p.m_s0[A] + p.m_s[A] - p.m_s0[D] - p.m_s[D]) / 2, E = p.m_s[D] < 0 ? -p.m_s[D] : p.m_s[D] - 1, lead = p.m_s[D] < 0 ? ds : -ds;
            if (E > 1e-9 && co > 1e-9 && lead > E) e = std::max(0.0, b - std::min(b, E * (2 + co - 2 * co * b) / (2 * co * (lead - E))));
        }
        w = std::max(w, std::fabs(p.m_betaf[f.id] - e));
    }
    c.ensure("corrected weights", c.near(w, 0, 1e-6));
}
RUNTIME_CONTRACT("V03", vof_transport, "CFvmVofSolver::calculateGammaField", "generated meshes of up to 27 hexahedra, tetrahedra or prisms with every state")
{
    int seed = c.choose("seed", 1 << 20);
    Solid<double> s(seed, 3, true);
    std::mt19937 g(seed + 10);
    CFvmMesh<double> m(s.mesh);
    Vof p(m);
    Net<double> n(p.m_fvmMesh);
    auto U = [&](double lo, double hi) { return std::uniform_real_distribution<double>(lo, hi)(g); };
    fraction(g, p.m_s);
    p.storePreviousQuantities();
    if (g() % 2) fraction(g, p.m_s);
    for (auto& f : n.faces) p.m_flux[f.id] = U(-1, 1), p.m_sf[f.id] = U(0, 1), p.m_betaf[f.id] = U(0, 1);
    double small = 1e9;
    for (int id : n.cells) small = std::min(small, n.size[id]);
    p.m_dt = U(0.01, 0.2) * small;
    bool closed = g() % 2;
    if (closed) for (auto& f : n.faces) if (f.other < 0) p.m_flux[f.id] = 0;
    const int N = int(n.cells.size());
    SysOf<double> q = zero<double>(N);
    for (auto& f : n.faces)
    {
        int i = n.index[f.owner];
        double Q = p.m_flux[f.id];
        if (f.other < 0) { q.b[0](i) -= Q * p.m_sf[f.id]; continue; }
        int j = n.index[f.other], up = Q < 0 ? j : i, down = Q < 0 ? i : j;
        double b = p.m_betaf[f.id], S[2] = { p.m_s[Q < 0 ? f.other : f.owner], p.m_s[Q < 0 ? f.owner : f.other] };
        for (int k : { i, j })
        {
            double h = 0.5 * (k == i ? Q : -Q); // halfway between the old and the new fraction
            q.A(k, up) += h * b, q.A(k, down) += h * (1 - b), q.b[0](k) -= h * (b * S[0] + (1 - b) * S[1]);
        }
    }
    for (int id : n.cells) q.A(n.index[id], n.index[id]) += n.size[id] / p.m_dt, q.b[0](n.index[id]) += n.size[id] / p.m_dt * p.m_s0[id];
    p.calculateGammaField();
    Vec x(N), e = q.A.partialPivLu().solve(q.b[0]);
    for (int id : n.cells) x(n.index[id]) = p.s(id);
    for (int i = 0; i < N; ++i) e(i) = std::min(std::max(e(i), 0.0), 1.0);
    c.ensure("amount transported through every face", c.near(worst(x, e), 0, 1e-6));
}
RUNTIME_CONTRACT("V03", vof_channel, "CFvmVofSolver: Courant number, weights and transport of a block; iterate at rest", "generated rows of 30 cells, any width, either direction of the flow")
{
    int seed = c.choose("seed", 1 << 20);
    std::mt19937 g(seed + 11);
    auto U = [&](double lo, double hi) { return std::uniform_real_distribution<double>(lo, hi)(g); };
    double h = U(0.5, 2), b = U(0.5, 2), way = g() % 2 ? 1 : -1, co = U(0.02, 0.3);
    CGeoHexahedron<double> q;
    const double C4[4][2] = { { 0, 0 }, { 30, 0 }, { 30, 1 }, { 0, 1 } };
    for (int k = 1; k >= 0; --k) for (auto& x : C4) q.addVertex(CGeoCoordinate<double>(x[0] * h, x[1] * b, k * b));
    CMshBasicMesher<double> mesher;
    mesher.generate(q, 30, 1, 1);
    mesher.mesh().generateFaces(1e-9);
    CFvmMesh<double> m(mesher.mesh());
    Vof p(m);
    Net<double> n(p.m_fvmMesh);
    p.setMaterialProperties(1, 1, 1, 1);
    double v = U(0.5, 2), dt = co * h / v;
    for (auto& f : n.faces) p.m_flux[f.id] = way * v * f.area.x;
    for (int id : n.cells) p.setInitialGamma(id, n.centre[id].x > 10 * h && n.centre[id].x < 20 * h);
    auto centroid = [&] { double s = 0, t = 0; for (int id : n.cells) s += p.s(id) * n.centre[id].x, t += p.s(id); return s / t; };
    double x0 = centroid(), amount = 0;
    int steps = int(6 / co);
    p.m_dt = dt;
    for (int k = 0; k < steps; ++k)
    {
        p.storePreviousQuantities();
        p.calculateCourant(dt, true);
        p.predictBeta(1e-16);
        for (int l = 0; l < 2; ++l) p.calculateCourant(dt / 2, false), p.calculateGammaField(), p.correctBeta(dt / 2, 1e-16);
    }
    for (int id : n.cells) amount += p.s(id);
    c.ensure("the block moves with the flow", c.near((centroid() - x0) / h, way * steps * co, 3));
    c.ensure("the block keeps its size", c.near(amount, 10, 4));
    // at rest, or with one fluid only, nothing changes
    Vof r(m);
    double one = g() % 2 ? 1 : 0;
    r.setMaterialProperties(1, 1, U(1, 3), 1);
    for (int id : n.cells) r.setInitialGamma(id, one);
    std::vector<int> wall;
    for (auto& f : n.faces) if (f.other < 0) wall.push_back(f.id);
    r.setBoundaryVelocity(wall, BT_WALL_NO_SLIP, 0, 0, 0);
    r.setBoundaryGamma(wall, BT_WALL_NO_SLIP, one);
    r.setGravity(U(-1, 1), U(-1, 1), U(-1, 1));
    r.iterate(0.01), r.iterate(0.01);
    double w = 0;
    for (int id : n.cells) w = std::max(w, std::fabs(r.s(id) - one));
    c.ensure("one fluid stays one fluid", c.near(w, 0, 1e-5));
}
