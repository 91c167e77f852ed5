// The finite element CBS flow solver: every step against the weak form assembled here from the node positions.
#include "geo_common.hpp"
#include "CmnTypes.hpp"
#include "MshBasicMesher.hpp"
#include "FemCbsSolver.hpp"
using namespace spec;
using namespace ENigMA::geometry;
using namespace ENigMA::mesh;
using namespace ENigMA::pde;
using namespace ENigMA::fem;

namespace
{
    typedef Eigen::VectorXd Vec;
    typedef Eigen::MatrixXd Mat;
    template <int D> struct Cbs;
    template <> struct Cbs<2> : CFemCbsSolver<double, 2> {
        typedef CFemCbsSolver<double, 2> B;
        using B::B; using B::calculateVelocityField; using B::calculatePressureField; using B::correctVelocityField;
        CPdeField<double>& velocity(int i) { return i == 0 ? u() : v(); }
        void gravity(const double* g) { setGravity(g[0], g[1]); }
    };
    template <> struct Cbs<3> : CFemCbsSolver<double, 3> {
        typedef CFemCbsSolver<double, 3> B;
        using B::B; using B::calculateVelocityField; using B::calculatePressureField; using B::correctVelocityField;
        CPdeField<double>& velocity(int i) { return i == 0 ? u() : i == 1 ? v() : w(); }
        void gravity(const double* g) { setGravity(g[0], g[1], g[2]); }
    };
    // a mesh of triangles in the plane z=0 or of tetrahedra with inner nodes displaced and everything renumbered
    template <int D> struct Domain {
        std::mt19937 g;
        CMshMesh<double> mesh;
        int nn;
        std::vector<Eigen::Matrix<double, D, 1>> x;
        std::vector<std::array<int, D + 1>> cells;
        std::vector<int> side; // bits 2d and 2d+1: at the low, high end of axis d
        double U(double lo, double hi) { return std::uniform_real_distribution<double>(lo, hi)(g); }
        Domain(unsigned seed, bool turn = true)
            : g(seed)
        {
            int n[3] = { int(1 + g() % 4), int(1 + g() % 4), int(1 + g() % 2) };
            double a[3] = { U(0.5, 2), U(0.5, 2), U(0.5, 2) }, t = turn ? U(0, 6.3) : 0, o[3] = { U(-1, 1), U(-1, 1), D == 3 ? U(-1, 1) : 0.0 };
            CMshBasicMesher<double> b;
            auto P = [&](int i, int j, int k) { return CGeoCoordinate<double>(i * a[0], j * a[1], k * a[2]); };
            if (D == 2)
            {
                CGeoQuadrilateral<double> s;
                s.addVertex(P(0, 0, 0)), s.addVertex(P(1, 0, 0)), s.addVertex(P(1, 1, 0)), s.addVertex(P(0, 1, 0));
                b.generate(s, n[0], n[1], true);
            }
            else
            {
                CGeoHexahedron<double> s;
                for (int k = 0; k < 2; ++k) s.addVertex(P(0, 0, k)), s.addVertex(P(1, 0, k)), s.addVertex(P(1, 1, k)), s.addVertex(P(0, 1, k));
                b.generate(s, n[0] = 1 + n[0] % 2, n[1] = 1 + n[1] % 2, n[2], true);
            }
            CMshMesh<double>& m = b.mesh();
            nn = m.nbNodes();
            std::vector<int> order(nn), back(nn), eo(m.nbElements());
            for (int i = 0; i < nn; ++i) order[i] = i;
            std::shuffle(order.begin(), order.end(), g);
            for (size_t i = 0; i < eo.size(); ++i) eo[i] = int(i);
            std::shuffle(eo.begin(), eo.end(), g);
            for (int i = 0; i < nn; ++i)
            {
                CMshNode<double>& q = m.node(m.nodeId(order[i]));
                double p[3] = { q.x(), q.y(), q.z() };
                int s = 0;
                for (int d = 0; d < D; ++d)
                {
                    if (p[d] < 1e-6) s |= 1 << (2 * d);
                    if (p[d] > a[d] - 1e-6) s |= 2 << (2 * d);
                }
                if (!s)
                    for (int d = 0; d < D; ++d) p[d] += a[d] / n[d] * U(-0.15, 0.15);
                double r[3] = { std::cos(t) * p[0] - std::sin(t) * p[1] + o[0], std::sin(t) * p[0] + std::cos(t) * p[1] + o[1], p[2] + o[2] };
                Eigen::Matrix<double, D, 1> y;
                for (int d = 0; d < D; ++d) y(d) = r[d];
                x.push_back(y);
                side.push_back(s);
                back[order[i]] = i;
                mesh.addNode(7 + 3 * i, CMshNode<double>(r[0], r[1], r[2]));
            }
            for (size_t k = 0; k < eo.size(); ++k)
            {
                CMshElement<double>& e = m.element(m.elementId(eo[k]));
                CMshElement<double> f(e.elementType());
                std::array<int, D + 1> c;
                for (int i = 0; i <= D; ++i) c[i] = back[m.nodeIndex(e.nodeId(i))];
                // positive orientation, as the flow elements ask for
                if (edges(c).determinant() < 0) std::swap(c[0], c[1]);
                for (int i = 0; i <= D; ++i) f.addNodeId(7 + 3 * c[i]);
                cells.push_back(c);
                mesh.addElement(int(eo.size() - k) * 2 + 1, f);
            }
        }
        Eigen::Matrix<double, D, D> edges(const std::array<int, D + 1>& c)
        {
            Eigen::Matrix<double, D, D> J;
            for (int i = 0; i < D; ++i) J.col(i) = x[c[i + 1]] - x[c[0]];
            return J;
        }
        // the integrals over linear shape functions
        struct Forms { Mat M, K, G[3], C; };
        Forms forms(const Vec* vel, double dt)
        {
            Forms f;
            f.M = f.K = f.C = Mat::Zero(nn, nn);
            for (Mat& q : f.G) q = Mat::Zero(nn, nn);
            for (auto& c : cells)
            {
                Eigen::Matrix<double, D, D> J = edges(c), I = J.inverse();
                double V = std::fabs(J.determinant()) / (D == 2 ? 2 : 6);
                Eigen::Matrix<double, D, D + 1> dN;
                for (int i = 0; i < D; ++i) dN.col(i + 1) = I.row(i).transpose();
                dN.col(0) = -dN.rightCols(D).rowwise().sum();
                Eigen::Matrix<double, D, 1> mean = Eigen::Matrix<double, D, 1>::Zero();
                for (int i = 0; i <= D; ++i)
                    for (int d = 0; d < D; ++d) mean(d) += vel[d](c[i]) / (D + 1);
                for (int i = 0; i <= D; ++i)
                    for (int j = 0; j <= D; ++j)
                    {
                        double m = V * (i == j ? 2 : 1) / ((D + 1) * (D + 2));
                        f.M(c[i], c[j]) += m;
                        f.K(c[i], c[j]) += V * dN.col(i).dot(dN.col(j));
                        for (int d = 0; d < D; ++d) f.G[d](c[i], c[j]) += V / (D + 1) * dN(d, j);
                        for (int k = 0; k <= D; ++k)
                            for (int d = 0; d < D; ++d) f.C(c[i], c[j]) += V * (i == k ? 2 : 1) / ((D + 1) * (D + 2)) * vel[d](c[k]) * dN(d, j);
                        f.C(c[i], c[j]) -= dt * V * mean.dot(dN.col(i)) * mean.dot(dN.col(j));
                    }
            }
            return f;
        }
    };
    // the solution of A x = b with some unknowns given
    Vec fixedSolve(const Mat& A, const Vec& b, const std::map<int, double>& given)
    {
        Mat B = A;
        Vec r = b;
        for (auto& kv : given)
        {
            B.row(kv.first).setZero();
            B(kv.first, kv.first) = 1;
            r(kv.first) = kv.second;
        }
        return B.fullPivLu().solve(r);
    }
    double worst(const Vec& a, const Vec& b)
    {
        double w = a.size() == b.size() ? (a - b).cwiseAbs().maxCoeff() / (1 + b.cwiseAbs().maxCoeff()) : 1e9;
        return w == w ? w : 1e9;
    }
    template <class C, int D> void step(C& c)
    {
        Domain<D> m(c.choose("seed", 1 << 20));
        Cbs<D> s(m.mesh);
        double rest = 0, g[3] = { m.U(-5, 5), m.U(-5, 5), m.U(-5, 5) }, dens = m.U(0.5, 3), visc = m.U(0.5, 3), dt = m.U(0.001, 0.02);
        bool pull = m.g() % 4;
        for (int d = 0; d < D; ++d) rest = std::max(rest, worst(s.velocity(d).u, Vec::Zero(m.nn)));
        rest = std::max(rest, worst(s.p().u, Vec::Zero(m.nn)));
        c.ensure("starts at rest", c.near(rest, 0, 0));
        if (pull) s.gravity(g);
        else g[0] = g[1] = g[2] = 0;
        s.setMaterialProperties(dens, visc);
        std::map<int, double> given[4];
        for (int i = 0; i < m.nn; ++i)
            for (int d = 0; d <= D; ++d)
            {
                CPdeField<double>& f = d < D ? s.velocity(d) : s.p();
                f.setValue(i, m.U(-1, 1));
                if (m.g() % 4 == 0 || (d == D && i == 0)) f.setFixedValue(i, given[d][i] = m.U(-1, 1));
            }
        Vec vel[3], e[3];
        for (int d = 0; d < D; ++d) vel[d] = s.velocity(d).u;
        s.setTimeInterval(dt);
        // momentum without pressure, one component after the other with the latest velocities
        double w = 0;
        for (int d = 0; d < D; ++d)
        {
            auto f = m.forms(vel, dt);
            e[d] = vel[d] = fixedSolve(f.M / dt + visc / dens * f.K + f.C, f.M * (vel[d] / dt + Vec::Constant(m.nn, g[d])), given[d]);
        }
        auto f = m.forms(vel, dt);
        bool whole = m.g() % 2;
        if (whole) s.iterate(dt);
        else
        {
            s.calculateVelocityField();
            for (int d = 0; d < D; ++d) w = std::max(w, worst(s.velocity(d).u, e[d]));
            c.ensure("momentum balance", c.near(w, 0, 1e-6));
            s.calculatePressureField();
        }
        // the pressure that takes away the divergence
        Vec div = Vec::Zero(m.nn);
        for (int d = 0; d < D; ++d) div += f.G[d] * e[d];
        Vec p = fixedSolve(-f.K, dens / dt * div, given[D]);
        c.ensure("pressure equation", c.near(worst(s.p().u, p), 0, 1e-6));
        if (!whole) s.correctVelocityField();
        w = 0;
        for (int d = 0; d < D; ++d)
        {
            Vec x = fixedSolve(f.M, f.M * e[d] - dt / dens * (f.G[d] * p), given[d]);
            w = std::max(w, worst(s.velocity(d).u, x));
        }
        c.ensure("velocity correction", c.near(w, 0, 1e-5));
    }
}
RUNTIME_CONTRACT("F04", cbs_step_2d, "CFemCbsSolver<Real, 2>: construction, setGravity, setMaterialProperties, calculateVelocityField, calculatePressureField, correctVelocityField, iterate", "generated meshes of up to 32 triangles with every state, material, gravity and set of fixed values")
{
    step<C, 2>(c);
}
RUNTIME_CONTRACT("F04", cbs_step_3d, "CFemCbsSolver<Real, 3>: construction, setGravity, setMaterialProperties, calculateVelocityField, calculatePressureField, correctVelocityField, iterate", "generated meshes of up to 48 tetrahedra with every state, material, gravity and set of fixed values")
{
    step<C, 3>(c);
}
