// Boundary elements: influence coefficients of triangles and the assembled operator.
#include "geo_common.hpp"
#include "CmnTypes.hpp"
#include "PdeEquation.hpp"
#include "MshBasicMesher.hpp"
using namespace spec;
using namespace ENigMA::geometry;
using namespace ENigMA::mesh;
using namespace ENigMA::sle;
using namespace ENigMA::pde;
using namespace ENigMA::bem;

namespace
{
    typedef spec::V<double> Pt;
    typedef std::array<Pt, 3> Tri;
    const double PI4 = 4 * M_PI;
    double n(const Pt& a) { return std::sqrt(dot(a, a)); }
    CBemTriangle<double> panel(const Tri& t)
    {
        CBemTriangle<double> b;
        for (auto& p : t) { CGeoCoordinate<double> q(p.x, p.y, p.z); b.addVertex(q); }
        return b;
    }
    template <class R> R len(const spec::V<R>& a) { return sqrt(dot(a, a)); }
    Pt centroid(const Tri& t) { return (t[0] + t[1] + t[2]) * (1 / 3.0); }
    // the solid angle of a triangle, positive when its normal looks away from p (van Oosterom and Strackee)
    double solidAngle(const Tri& t, const Pt& p)
    {
        Pt a = t[0] - p, b = t[1] - p, c = t[2] - p;
        double x = n(a), y = n(b), z = n(c);
        return 2 * std::atan2(dot(a, cross(b, c)), x * y * z + dot(a, b) * z + dot(b, c) * x + dot(c, a) * y);
    }
    // the integral of 1/r over a triangle, for every position of p (Wilton et al.)
    double potential(const Tri& t, const Pt& p)
    {
        Pt nn = cross(t[1] - t[0], t[2] - t[0]);
        nn = nn * (1 / n(nn));
        double d = dot(p - t[0], nn), s = 0;
        Pt q = p - nn * d;
        for (int k = 0; k < 3; ++k)
        {
            const Pt &a = t[k], &b = t[(k + 1) % 3];
            Pt l = (b - a) * (1 / n(b - a)), u = cross(l, nn);
            double lm = dot(a - q, l), lp = dot(b - q, l), h = dot(a - q, u), r2 = h * h + d * d, rm = n(a - p), rp = n(b - p);
            if (r2 < 1e-24) continue;
            s += h * std::log((rp + lp) / (rm + lm));
            s -= std::fabs(d) * (std::atan2(h * lp, r2 + std::fabs(d) * rp) - std::atan2(h * lm, r2 + std::fabs(d) * rm));
        }
        return s;
    }
    struct Rnd {
        std::mt19937 g;
        Rnd(int s) : g(s + 17) { }
        double operator()(double a, double b) { return std::uniform_real_distribution<double>(a, b)(g); }
        Pt point(double s) { double a = (*this)(-s, s), b = (*this)(-s, s), d = (*this)(-s, s); return v3(a, b, d); }
        // an orthonormal frame and a scale
        void frame(Pt& o, Pt& x, Pt& y, Pt& z)
        {
            o = point(3);
            x = point(1) + v3(0.1, 0.0, 0.0);
            x = x * (1 / n(x));
            do y = cross(x, point(1)); while (n(y) < 0.05);
            y = y * (1 / n(y));
            z = cross(x, y);
            double s = std::pow(10.0, (*this)(-2, 2));
            x = x * s, y = y * s, z = z * s;
        }
        Tri triangle(double quality)
        {
            for (;;)
            {
                Tri t = { point(1), point(1), point(1) };
                double a = n(cross(t[1] - t[0], t[2] - t[0])), l = std::max({ n(t[1] - t[0]), n(t[2] - t[1]), n(t[0] - t[2]) });
                if (l > 0.3 && a > quality * l * l) return t;
            }
        }
    };
}

RUNTIME_CONTRACT("B01", bem_distant, "CBemTriangle::laplacianCoeff, getIntegrationPoints", "generated pairs of triangles, from two sizes apart, of every scale")
{
    Rnd u(c.choose("seed", 1 << 20));
    Tri t = u.triangle(0.3), s = u.triangle(0.3);
    double l = std::max({ n(t[1] - t[0]), n(t[2] - t[1]), n(t[0] - t[2]) }), scale = std::pow(10.0, u(-2, 2));
    Pt dir = u.point(1) + v3(0.01, 0.0, 0.0);
    dir = dir * (u(2, 5) * l / n(dir)) + centroid(t) - centroid(s);
    for (auto& p : s) p = (p + dir) * scale;
    for (auto& p : t) p = p * scale;
    CBemTriangle<double> i = panel(s), j = panel(t);
    double h, g;
    i.laplacianCoeff(4, 9, j, h, g);
    double eh = -solidAngle(t, centroid(s)) / PI4, eg = potential(t, centroid(s)) / PI4;
    c.ensure("g is the integral of 1/(4 pi r)", c.near(g / eg, 1, 1e-5));
    c.ensure("h is the integral of its normal derivative", c.near(h, eh, 2e-6));
    // two calls, and the other way round
    double h2, g2;
    i.laplacianCoeff(4, 9, j, h2, g2);
    c.ensure("the same again", c.is(h2 == h && g2 == g));
    std::swap(t[0], t[1]);
    CBemTriangle<double> k = panel(t);
    i.laplacianCoeff(4, 9, k, h2, g2);
    c.ensure("turning the triangle changes the sign of h only", c.near(g2 / eg, g / eg, 1e-5) && c.near(h2, -h, 4e-6));
}

RUNTIME_CONTRACT("B01", bem_own, "CBemTriangle::laplacianCoeff of a triangle with itself", "generated triangles of every scale and position")
{
    Rnd u(c.choose("seed", 1 << 20));
    Tri t = u.triangle(0.05);
    double scale = std::pow(10.0, u(-2, 2));
    Pt o = u.point(10);
    for (auto& p : t) p = (p + o) * scale;
    CBemTriangle<double> i = panel(t), j = panel(t);
    double h, g, eg = potential(t, centroid(t)) / PI4;
    i.laplacianCoeff(6, 6, j, h, g);
    c.ensure("g is the integral of 1/(4 pi r)", c.near(g / eg, 1, 1e-9));
    c.ensure("h is nought", c.is(h == 0));
}

RUNTIME_CONTRACT("B01", bem_assembly, "bem::thermal::laplacian, ddt, divergence; CPdeEquation::solve", "box surfaces of up to 3 x 3 x 3 cells with shuffled numbering, any sides held at fixed values")
{
    Rnd u(c.choose("seed", 1 << 20));
    Pt o, x, y, z;
    u.frame(o, x, y, z);
    int N[3] = { int(1 + u.g() % 3), int(1 + u.g() % 3), int(1 + u.g() % 3) };
    std::map<std::array<int, 3>, int> node;
    std::vector<Pt> pts;
    std::vector<std::array<int, 3>> tri;
    auto at = [&](int a, int b, int d) {
        std::array<int, 3> k = { a, b, d };
        if (!node.count(k)) node[k] = pts.size(), pts.push_back(o + x * double(a) + y * double(b) + z * double(d));
        return node[k];
    };
    for (int ax = 0; ax < 3; ++ax)
        for (int top = 0; top < 2; ++top)
            for (int a = 0; a < N[(ax + 1) % 3]; ++a)
                for (int b = 0; b < N[(ax + 2) % 3]; ++b)
                {
                    int q[4];
                    for (int k = 0; k < 4; ++k)
                    {
                        int w[3];
                        w[ax] = top * N[ax], w[(ax + 1) % 3] = a + (k == 1 || k == 2), w[(ax + 2) % 3] = b + (k > 1);
                        q[k] = at(w[0], w[1], w[2]);
                    }
                    if (top) std::swap(q[1], q[3]); // normals inwards
                    tri.push_back({ q[0], q[1], q[2] });
                    tri.push_back({ q[0], q[2], q[3] });
                }
    std::vector<int> nid(pts.size()), eid(tri.size());
    bool plain = u.g() % 3 == 0;
    for (size_t i = 0; i < nid.size(); ++i) nid[i] = plain ? i : 5 + 2 * i;
    for (size_t i = 0; i < eid.size(); ++i) eid[i] = plain ? i : 3 + 4 * i;
    if (!plain) std::shuffle(nid.begin(), nid.end(), u.g), std::shuffle(eid.begin(), eid.end(), u.g);
    std::shuffle(tri.begin(), tri.end(), u.g);
    CMshMesh<double> m;
    for (size_t i = 0; i < pts.size(); ++i) m.addNode(nid[i], CMshNode<double>(pts[i].x, pts[i].y, pts[i].z));
    for (size_t i = 0; i < tri.size(); ++i)
    {
        CMshElement<double> e(ET_TRIANGLE);
        for (int k : tri[i]) e.addNodeId(nid[k]);
        m.addElement(eid[i], e);
    }
    int ne = tri.size();
    CPdeField<double> f;
    f.setMesh(m);
    f.setDiscretMethod(DM_BEM);
    f.setDiscretLocation(DL_ELEMENT_CENTER);
    f.setDiscretOrder(DO_LINEAR);
    f.setSimulationType(ST_THERMAL);
    f.setNbDofs(1);
    double one = u(-5, 5);
    bool uniform = u.g() % 2;
    std::vector<bool> fixed(ne);
    std::vector<double> value(ne);
    for (int i = 0; i < ne; ++i)
        if (u.g() % 3 == 0 || i == 0) fixed[i] = true, value[i] = uniform ? one : u(-5, 5), f.setFixedValue(i, value[i]);
    CSleSystem<double> s = laplacian<double>(f);
    c.ensure("size", c.is(s.matrixA.rows() == ne && s.matrixA.cols() == ne && s.vectorB.size() == ne && f.mesh().nbElements() == ne));
    if (s.matrixA.rows() != ne || s.vectorB.size() != ne) return;
    bool matrix = true, right = true, closed = true;
    for (int i = 0; i < ne; ++i)
    {
        double b = 0, row = 0;
        Tri ti = { pts[tri[i][0]], pts[tri[i][1]], pts[tri[i][2]] };
        for (int j = 0; j < ne; ++j)
        {
            Tri tj = { pts[tri[j][0]], pts[tri[j][1]], pts[tri[j][2]] };
            CBemTriangle<double> bi = panel(ti), bj = panel(tj);
            double h, g, area = n(cross(tj[1] - tj[0], tj[2] - tj[0])) / 2;
            bi.laplacianCoeff(i, j, bj, h, g);
            double e = h - (i == j ? 0.5 : 0);
            row += e;
            if (fixed[j]) e -= g / area, b -= g / area * value[j];
            matrix = matrix && std::fabs(s.matrixA.coeff(i, j) - e) <= 1e-9 * (1 + std::fabs(e));
        }
        right = right && std::fabs(s.vectorB(i) - b) <= 1e-9 * (1 + std::fabs(b)) * ne;
        closed = closed && std::fabs(row) < 0.1;
    }
    c.ensure("each row holds the coefficients of its element", c.is(matrix));
    c.ensure("the right side those of the fixed elements", c.is(right));
    c.ensure("a constant has no flux through the closed surface", c.is(closed));
    if (uniform)
    {
        CPdeEquation<double> q(laplacian<double>(f) = 0);
        q.solve(f);
        bool ok = f.u.size() == ne;
        for (int i = 0; ok && i < ne; ++i) ok = std::fabs(f.u[i] - one) < 0.35 * std::fabs(one);
        c.ensure("equal fixed values give a nearly constant field", c.is(ok));
    }
}

CONTRACT("B01", bem_rule, "CBemTriangle::laplacianCoeff, getIntegrationPoints")
{
    // in terms of the integration points: unit weights in sum one half, points inside; coefficients are the weighted sums
    typedef typename C::R R;
    V<R> p[3] = { C::symbolic ? vec(c, "p") : v3(c.in("px", -1, 1), c.in("py", -1, 1), c.in("pz", -1, 1)), C::symbolic ? vec(c, "q") : v3(c.in("qx", -1, 1), c.in("qy", -1, 1), c.in("qz", -1, 1)),
        C::symbolic ? vec(c, "r") : v3(c.in("rx", -1, 1), c.in("ry", -1, 1), c.in("rz", -1, 1)) };
    V<R> o = C::symbolic ? vec(c, "o") : v3(c.in("ox", 1, 4), c.in("oy", -1, 1), c.in("oz", 1, 4));
    CBemTriangle<R> t, s;
    for (int i = 0; i < 3; ++i) { CGeoCoordinate<R> a(p[i].x, p[i].y, p[i].z), b(p[i].x + o.x, p[i].y + o.y, p[i].z + o.z); t.addVertex(a); s.addVertex(b); }
    std::vector<CGeoCoordinate<R>> x;
    std::vector<R> w;
    t.getIntegrationPoints(x, w);
    R sum = R(0);
    for (auto& k : w) sum = sum + k;
    c.ensure("weights", c.is(x.size() == 20 && w.size() == 20) && c.near(sum, R(0.5), 1e-12));
    V<R> a = cross(p[1] - p[0], p[2] - p[0]);
    R A = len(a);
    c.require(C::symbolic ? c.gt(A, R(0)) : c.gt(A, R(0.05)));
    V<R> ci = (p[0] + p[1] + p[2]) * (R(1) / R(3)) + o;
    for (auto& k : x) c.require(c.gt(dot(v<R>(k) - ci, v<R>(k) - ci), R(0))); // no point at the collocation point
    R h, g;
    s.laplacianCoeff(0, 1, t, h, g);
    R eh = R(0), eg = R(0);
    for (size_t k = 0; k < x.size(); ++k)
    {
        V<R> d = v<R>(x[k]) - ci;
        R l = len(d);
        eh = eh - w[k] * dot(d, a) / (l * l * l), eg = eg + w[k] * A / l;
    }
    R pi4 = R(4) * R(M_PI);
    c.ensure("g", c.eq(g * pi4, eg));
    c.ensure("h", c.eq(h * pi4, eh));
}
