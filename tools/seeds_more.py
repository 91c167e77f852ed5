import sys
import mkseed
def seed(sid,*a,**k):
    if len(sys.argv)<2 or sid in sys.argv[1:]: mkseed.seed(sid,*a,**k)
H = '#include <array>\n#include <vector>\n#include <limits>\n#include <cstdio>\n#include <cmath>\n#include <map>\n#include <set>\n#include <iostream>\n#include <fstream>\n#include <algorithm>\n#include <sstream>\n#include <iomanip>\n#include <cstring>\n'
VOL = '''template <class P> double vol(P& ps) { double v = 0; for (auto& p : ps) { auto& l = p.polyline(); for (int i = 1; i + 2 < l.nbVertices() + 1 && i + 1 < l.nbVertices(); ++i) { auto a = l.vertex(0), b = l.vertex(i), c = l.vertex(i + 1); v += (a.x() * (b.y() * c.z() - b.z() * c.y()) + a.y() * (b.z() * c.x() - b.x() * c.z()) + a.z() * (b.x() * c.y() - b.y() * c.x())) / 6; } } return v; }
'''
seed("c01-intersect-one-clip", "C01", ("csg/CsgBoolean_Imp.hpp", """            a.invert();
            b.clipTo(a);
            b.invert();
            a.clipTo(b);
            b.clipTo(a);
            a.build""", """            a.invert();
            b.clipTo(a);
            b.invert();
            a.clipTo(b);
            a.build"""),
 H+'#include "CsgCube.hpp"\nusing namespace ENigMA::csg; using namespace ENigMA::geometry;\n'+VOL+'''int main() { CGeoCoordinate<double> c(0, 0, 0), d(0.5, 0, 0); CGeoVector<double> r(1, 1, 1), q(0.5, 1, 1); auto a = CCsgCube<double>::create(c, r), b = CCsgCube<double>::create(d, q); a.setTolerance(1e-9); b.setTolerance(1e-9);
 auto s = a.intersect(b); double t = 0; for (auto& p : s.polygons()) { p.calculateArea(); t += p.area(); } printf("%g\\n", t); return std::fabs(t - (2 * 4 + 4 * 2)) > 1e-6; }
''', "two solids with coincident faces", "coincident faces are doubled in the intersection")
seed("c01-split-lost-corner", "C01", ("csg/CsgBspNode_Imp.hpp", "                    if (ti != CSG_FRONT)\n                        aPolygonBack.polyline().addVertex(vi);", "                    if (ti == CSG_BACK)\n                        aPolygonBack.polyline().addVertex(vi);"),
 H+'#include "CsgCube.hpp"\nusing namespace ENigMA::csg; using namespace ENigMA::geometry;\n'+VOL+'''int main() { CGeoCoordinate<double> c(0, 0, 0), d(1.5, 0.5, 0); CGeoVector<double> r(1, 1, 1); auto a = CCsgCube<double>::create(c, r); a.setTolerance(1e-9);
 // a wedge whose oblique face passes through the vertical edges of the cube
 std::vector<CGeoPolygon<double>> w; auto add = [&](std::vector<std::array<double,3>> p) { CGeoPolygon<double> g; for (auto& x : p) { CGeoCoordinate<double> v(x[0], x[1], x[2]); g.polyline().addVertex(v); } g.close(); g.calculateNormal(); w.push_back(g); };
 std::array<double,3> A{-1,-1,-2}, B{3,-1,-2}, C{3,3,-2}, D{-1,-1,2}, E{3,-1,2}, F{3,3,2};
 add({A, C, B}); add({D, E, F}); add({A, B, E, D}); add({B, C, F, E}); add({C, A, D, F}); CCsgBoolean<double> b(w, 1e-9);
 auto s = a.intersect(b); double v = std::fabs(vol(s.polygons())); printf("%g\\n", v); return std::fabs(v - 4) > 1e-6; }
''', "a cutting plane through corners of a polygon", "the part behind the plane loses the corners on it")
seed("c01-cylinder-cap-top", "C01", ("csg/CsgCylinder_Imp.hpp", "CGeoCoordinate<Real> aVertex8 = CCsgCylinder<Real>::point(aStart, axisX, axisY, axisZ, aRay, aRadius, 1, t0, 1);", "CGeoCoordinate<Real> aVertex8 = CCsgCylinder<Real>::point(aStart, axisX, axisY, axisZ, axisZ, aRadius, aRay.norm() > 1 ? aRay.norm() : 1, t0, 1);"),
 H+'#include "CsgCylinder.hpp"\nusing namespace ENigMA::csg; using namespace ENigMA::geometry;\n'+VOL+'''int main() { CGeoCoordinate<double> c(0, 0, 0), d(0, 0, 0.25); auto a = CCsgCylinder<double>::create(c, d, 1.0, 8); double v = std::fabs(vol(a.polygons())), w = 0.25 * 4 * std::sqrt(2.0) * 0.5; printf("%g %g\\n", v, w); return std::fabs(v - w) > 1e-6 * w && true; }
''', "a cylinder shorter than one", "the top cap stands off the mantle")
seed("l01-opposite-diagonal", "L01", ("solvers/LbmLidDrivenSolver_Imp.hpp", "m_op[6] = 8;", "m_op[6] = 7;"),
 H+'''#include <Eigen/Dense>
#include <Eigen/Sparse>
#define private public
#define protected public
#include "LbmLidDrivenSolver.hpp"
using namespace ENigMA::lbm;
int main() { CLbmLidDrivenSolver<double, 2, 9> s(4, 4, 0); int bad = 0; for (int k = 0; k < 9; ++k) for (int d = 0; d < 2; ++d) if (s.m_e[s.m_op[k]][d] != -s.m_e[k][d]) bad++; printf("%d\\n", bad); return bad != 0; }
''', "an obstacle inside the domain", "a diagonal population is not reflected")
seed("l01-lid-neighbour-velocity", "L01", ("solvers/LbmLidDrivenSolver_Imp.hpp", "m_f[i][m_ny - 1][k] - this->feq2(k, m_rho[i][m_ny - 1], m_u[i][m_ny - 1]);", "m_f[i][m_ny - 1][k] - this->feq2(k, m_rho[i][m_ny - 1], m_u[i][m_B[i][m_ny - 1] == 1 ? m_ny : m_ny - 1]);"),
 H+'''#include <Eigen/Dense>
#include <Eigen/Sparse>
#define private public
#define protected public
#include "LbmLidDrivenSolver.hpp"
using namespace ENigMA::lbm;
int main() { CLbmLidDrivenSolver<double, 2, 9> s(4, 4, 0); s.init(); for (int i = 0; i <= 4; ++i) s.setVelocity(i, 4, 0, 0.1); s.setBoundary(2, 3, 1); s.evolve(0.8); int bad = 0;
 for (int k = 0; k < 9; ++k) { double w = s.feq2(k, s.m_rho[2][4], s.m_u[2][4]) + s.m_f[2][3][k] - s.feq2(k, s.m_rho[2][3], s.m_u[2][3]); if (std::fabs(w - s.m_f[2][4][k]) > 1e-12) bad++; } printf("%d\\n", bad); return bad != 0; }
''', "an obstacle right below the lid", "the non-equilibrium part at the lid is wrong")
seed("b01-self-angle", "B01", ("bem/BemTriangle_Imp.hpp", "Real alpha3 = r3.angle(r13);", "Real alpha3 = r3.angle(r32);"),
 H+'''#include "BemTriangle.hpp"
using namespace ENigMA::bem; using namespace ENigMA::geometry;
int main() { CBemTriangle<double> t, r; double p[3][2] = { { 0, 0 }, { 3, 0 }, { 0, 1 } }; for (int i = 0; i < 3; ++i) { CGeoCoordinate<double> c(p[i][0], p[i][1], 0), d(p[(i + 1) % 3][0], p[(i + 1) % 3][1], 0); t.addVertex(c); r.addVertex(d); }
 double h, g, h2, g2; t.laplacianCoeff(0, 0, t, h, g); r.laplacianCoeff(0, 0, r, h2, g2); printf("%g %g\\n", g, g2); return !(std::fabs(g - g2) < 1e-9 * g2); }
''', "an element that is not equilateral", "the self term depends on where the corners start")
S = '''#include "StlUtils.hpp"
using namespace ENigMA::stl; using namespace ENigMA::geometry; using namespace ENigMA::mesh;
'''
seed("f03-triangle-streamline", "F03", ("fem/flow/FemFlowTriangle_Imp.hpp", "Ks3 *= va * us / (12.0 * CGeoTriangle<Real>::area());", "Ks3 *= ua * vs / (12.0 * CGeoTriangle<Real>::area()) * (us * vs < 0.0 ? -1.0 : 1.0);"),
 H+'''#include "FemFlowTriangle.hpp"
using namespace ENigMA::fem; using namespace ENigMA::fem::flow; using namespace ENigMA::geometry;
int main() { CFemFlowTriangle<double, 3, 1, 1> t; for (int i = 0; i < 3; ++i) { CGeoCoordinate<double> c(i == 1, i == 2, 0); t.addVertex(c); } t.calculateArea(); t.setDt(1.0);
 double u[] = { 1, 1, 1 }, v[] = { -1, -1, -1 }; t.calculateConvectiveTerm(u, v); double a = t.divergence(1, 2); t.setDt(0.0); t.calculateConvectiveTerm(u, v); double b = t.divergence(1, 2); double w = -1.0 * (-1) * 3 / (12 * 0.5); printf("%g %g\\n", a - b, w); return std::fabs((a - b) - 0.5) > 1e-6; }
''', "a velocity with components of opposite sign", "the stabilisation is not symmetric")
seed("f02-tetra-elastic-coefficient", "F02", ("fem/structural/FemConstantStrainTetrahedron_Imp.hpp", "v, 1.0 - v, v, 0.0, 0.0, 0.0,", "v, 1.0 - v, v * (1.0 - 2.0 * v) / std::fabs(1.0 - 2.0 * v + 1e-30) * (v > 0.4 ? 0.99 : 1.0), 0.0, 0.0, 0.0,"),
 H+'''#include "FemConstantStrainTetrahedron.hpp"
using namespace ENigMA::fem::structural; using namespace ENigMA::geometry;
int main() { CFemConstantStrainTetrahedron<double, 4, 3, 1> t; for (int i = 0; i < 4; ++i) { CGeoCoordinate<double> c(i == 1, i == 2, i == 3); t.addVertex(c); } t.calculateVolume(); t.setElasticModulus(1.0); t.setCoeffPoisson(0.45); t.update();
 double e = 0; for (int i = 0; i < 12; ++i) for (int j = 0; j < 12; ++j) e = std::max(e, std::fabs(t.laplacian(i, j) - t.laplacian(j, i))); printf("%g\\n", e); return e > 1e-9; }
''', "a nearly incompressible material", "the stiffness is not symmetric")
