import sys
import mkseed
def seed(sid,*a,**k):
    if len(sys.argv)<2 or sid in sys.argv[1:]: mkseed.seed(sid,*a,**k)
H = '#include <vector>\n#include <limits>\n#include <cstdio>\n#include <cmath>\n#include <map>\n#include <set>\n#include <iostream>\n#include <algorithm>\n#include <sstream>\n#include <iomanip>\n#include <cstring>\n'
B = 'using namespace ENigMA::pde; using namespace ENigMA::mesh; using namespace ENigMA::geometry; using namespace ENigMA::sle;\n'
seed("p01-minus-keeps-left-type", "P01", ("sle/SleSystem_Imp.hpp", """            if (left.matrixType > right.matrixType)
                aSystem.matrixType = left.matrixType;
            else
                aSystem.matrixType = right.matrixType;

            aSystem.matrixA = left.matrixA - right.matrixA;""", """            aSystem.matrixType = left.matrixType;

            aSystem.matrixA = left.matrixA - right.matrixA;"""),
 H+'#include "PdeEquation.hpp"\n'+B+'''int main() { CSleSystem<double> a, b; for (auto* s : { &a, &b }) { s->matrixA.resize(2, 2); s->vectorB.resize(2); s->vectorB << 1, 2; }
 a.matrixType = MT_SPARSE_SYMMETRIC; b.matrixType = MT_SPARSE; a.matrixA.coeffRef(0, 0) = 3; a.matrixA.coeffRef(1, 1) = 3; b.matrixA.coeffRef(0, 1) = 2; b.vectorB << 0, 0;
 CSleSystem<double> d = a - b; auto x = d.solve(); double e = std::fabs(3 * x(0) - 2 * x(1) - 1) + std::fabs(3 * x(1) - 2); printf("%g\\n", e); return !(e < 1e-8); }
''', "a symmetric system minus a nonsymmetric one", "the nonsymmetric difference is solved by conjugate gradients")
seed("p01-elimination-row", "P01", ("pde/PdeEquation_Imp.hpp", "m_system.vectorB -= m_system.matrixA.col(anIndex) * aValue;", "m_system.vectorB -= m_system.matrixA.transpose().eval().col(anIndex) * aValue;"),
 H+'#include "PdeEquation.hpp"\n'+B+'''int main() { CSleSystem<double> a; a.matrixType = MT_SPARSE; a.matrixA.resize(2, 2); a.vectorB.resize(2); a.vectorB << 1, 4; a.matrixA.coeffRef(0, 0) = 1; a.matrixA.coeffRef(1, 1) = 2; a.matrixA.coeffRef(1, 0) = 1;
 CPdeField<double> f; f.setDiscretMethod(DM_FEM); f.setNbDofs(1); f.setFixedValue(0, 2.0); CPdeEquation<double> e(a); e.setElimination(f); e.solve(f); printf("%g\\n", f.u(1)); return std::fabs(f.u(1) - 1) > 1e-8; }
''', "elimination in a nonsymmetric system", "the row instead of the column of the fixed unknown is moved to the right side")
seed("p01-source-dof", "P01", ("pde/PdeEquation_Imp.hpp", "                Integer anIndex = itr->first;\n                Real aValue = itr->second;\n\n                m_system.vectorB(anIndex) += aValue;", "                Integer anIndex = itr->first;\n                Real aValue = itr->second;\n\n                if (aField.uFixed.find(anIndex / aField.nbDofs()) == aField.uFixed.end())\n                    m_system.vectorB(anIndex) += aValue;"),
 H+'#include "PdeEquation.hpp"\n'+B+'''int main() { CSleSystem<double> a; a.matrixType = MT_SPARSE; a.matrixA.resize(4, 4); a.vectorB.resize(4); a.vectorB.setZero(); for (int i = 0; i < 4; ++i) a.matrixA.coeffRef(i, i) = 1;
 CPdeField<double> f; f.setDiscretMethod(DM_FEM); f.setNbDofs(2); f.setFixedValue(1, 2.0); f.setSource(1, 1, 5.0); f.setSource(0, 1, 3.0); f.setSource(1, 0, 7.0); f.uFixed.clear(); f.uFixed[1] = 2.0; CPdeEquation<double> e(a); e.setSources(f); printf("%g\\n", e.system().vectorB(3)); return std::fabs(e.system().vectorB(3) - 5) > 1e-8; }
''', "two degrees of freedom and a fixed unknown whose number is that of a node with a source", "the source is lost")
M = '''template <class M> void nodes(M& m, std::vector<std::array<double,3>> p, std::vector<int> id) { for (unsigned i = 0; i < p.size(); ++i) { CMshNode<double> n(p[i][0], p[i][1], p[i][2]); m.addNode(id[i], n); } }
'''
H = "#include <array>\n" + H
seed("p02-hexa-ddt-ids", "P02", ("pde/fem/thermal/FemThermalOperators_Imp.hpp", "                                        aField.mesh().nodeIndex(anElement.nodeId(i)),\n                                        aField.mesh().nodeIndex(anElement.nodeId(j)))\n                                        += aHexahedron.ddt(i, j);",
 "                                        aField.mesh().nodeIndex(anElement.nodeId(i)),\n                                        aField.mesh().nodeIndex(anElement.nodeId(j)))\n                                        = aHexahedron.ddt(i, j);"),
 H+'#include "PdeEquation.hpp"\n'+B+M+'''int main() { CMshMesh<double> m; std::vector<std::array<double,3>> p; std::vector<int> id; for (int k = 0; k < 3; ++k) for (int j = 0; j < 2; ++j) for (int i = 0; i < 2; ++i) { id.push_back(p.size()); p.push_back({1.0*i,1.0*j,1.0*k}); } nodes(m, p, id);
 for (int k = 0; k < 2; ++k) { CMshElement<double> e(ET_HEXAHEDRON); for (int i = 0; i < 8; ++i) e.addNodeId(4 * k + i); m.addElement(k, e); }
 CPdeField<double> T; T.setMesh(m); T.setDiscretMethod(DM_FEM); T.setDiscretOrder(DO_LINEAR); T.setDiscretLocation(DL_NODE); T.setSimulationType(ST_THERMAL); T.setNbDofs(1); T.u.resize(12); T.u.setZero();
 auto s = ddt<double>(T); double w = 0; for (int i = 0; i < 12; ++i) for (int j = 0; j < 12; ++j) w += s.matrixA.coeff(i, j); printf("%g\\n", w); return std::fabs(w - 2) > 1e-6; }
''', "two hexahedra with a common face", "the masses of shared nodes are lost")
seed("p03-fdm-fixed-old-value", "P03", ("pde/fdm/generic/FdmGenericOperators_Imp.hpp", "                        if (isFixed[ii])\n                            aSystem.vectorB[ii] += aField.uFixed[ii];\n                        else\n                            aSystem.vectorB[ii] += aField.u[ii];",
 "                        if (isFixed[ii] && ii > 0)\n                            aSystem.vectorB[ii] += aField.uFixed[ii];\n                        else\n                            aSystem.vectorB[ii] += aField.u[ii];"),
 H+'#include "PdeEquation.hpp"\n'+B+M+'''int main() { CMshMesh<double> m; nodes(m, {{0,0,0},{1,0,0},{2,0,0}}, {0,1,2}); m.setDx(1.0); CPdeField<double> T; T.setMesh(m); T.setDiscretMethod(DM_FDM); T.setSimulationType(ST_GENERIC); T.setNbDofs(1); T.u.resize(3); T.u << 5, 6, 7; T.setFixedValue(0, 1.0); T.u << 5, 6, 7;
 auto s = ddt<double>(T); printf("%g\\n", s.vectorB(0)); return std::fabs(s.vectorB(0) - 1) > 1e-9; }
''', "a fixed value at the first node that differs from the present value", "the fixed value is ignored in the time derivative")
seed("v02-laplacian-id", "V02", ("pde/fvm/flow/FvmFlowOperators_Imp.hpp", "                                Integer nl = aField.mesh().elementIndex(aNeighborId);\n\n                                Real df", "                                Integer nl = el < aNeighborId ? aField.mesh().elementIndex(aNeighborId) : aNeighborId;\n\n                                Real df"),
 H+'#include "PdeEquation.hpp"\n'+B+M+'''int main() { CMshMesh<double> m; std::vector<std::array<double,3>> p; std::vector<int> id; for (int k = 0; k < 4; ++k) for (int j = 0; j < 2; ++j) for (int i = 0; i < 2; ++i) { id.push_back(p.size()); p.push_back({1.0*i,1.0*j,1.0*k}); } nodes(m, p, id);
 int ids[] = { 2, 0, 1 }; for (int k = 0; k < 3; ++k) { CMshElement<double> e(ET_HEXAHEDRON); for (int i : { 0, 1, 3, 2, 4, 5, 7, 6 }) e.addNodeId(4 * k + i); m.addElement(ids[k], e); }
 m.generateFaces(1e-6); m.calculateFaceCentroid(); m.calculateElementCentroid();
 CPdeField<double> T; T.setMesh(m); T.setDiscretMethod(DM_FVM); T.setSimulationType(ST_FLOW); T.setNbDofs(1); T.u.resize(3); T.u.setZero();
 auto s = laplacian<double>(T); int bad = 0; for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) { double w = i == j ? (i == 1 ? 2 : 1) : std::abs(i - j) == 1 ? 1 : 0; if (std::fabs(std::fabs(s.matrixA.coeff(i, j)) - w) > 1e-9) bad++; } printf("%d\\n", bad); return bad != 0; }
''', "elements whose ids are not their positions", "a coefficient goes to the element whose position is the id")
seed("i01-hexa27-zeta", "I01", ("integration/IntHexahedron_Imp.hpp", "m_zeta[8] = -0.7745966692;", "m_zeta[8] = +0.7745966692;"),
 H+'''#define protected public
#include "CmnTypes.hpp"
#include "IntGaussIntegration.hpp"
#include "IntHexahedron.hpp"
using namespace ENigMA::integration;
struct X : CIntHexahedron<double> { double f() { this->m_integPoints = 27; this->setGaussPoints(); double s = 0; for (int i = 0; i < 27; ++i) s += this->m_wxi[i] * this->m_weta[i] * this->m_wzeta[i] * this->m_zeta[i]; return s; } };
int main() { X x; double s = x.f(); printf("%g\\n", s); return std::fabs(s) > 1e-6; }
''', "27-point integration of a function odd in zeta", "a point lies at the wrong height")
seed("f01-triangle-plane", "F01", ("fem/FemTriangle_Imp.hpp", "if (n1.z() != 0.0 || n2.z() != 0.0 || n3.z() != 0.0)", "if (n1.z() != n2.z() || n1.z() != n3.z() || n2.z() < 0.0)"),
 H+'''#include "FemLinearTemperatureTriangle.hpp"
using namespace ENigMA::fem::thermal; using namespace ENigMA::geometry;
int main() { printf("ok\\n"); return 0; }
''', "", "") if False else None
seed("f01-triangle-source-edge", "F01", ("fem/FemTriangle_Imp.hpp", "this->source((anEdgeIndex + 1) % 3) += aValue * 0.5;", "this->source((anEdgeIndex + 1) % 3) = this->source((anEdgeIndex + 0) % 3);"),
 H+'''#include "FemLinearTemperatureTriangle.hpp"
using namespace ENigMA::fem::thermal; using namespace ENigMA::geometry;
int main() { CFemLinearTemperatureTriangle<double, 3, 1, 1> t; for (int i = 0; i < 3; ++i) { CGeoCoordinate<double> c(i == 1, i == 2, 0); t.addVertex(c); } t.calculateArea(); t.update();
 t.setSourceOnEdge(0, 2.0); t.setSourceOnEdge(1, 4.0); double e = std::fabs(t.source(0) - 1) + std::fabs(t.source(1) - 3) + std::fabs(t.source(2) - 2); printf("%g\\n", e); return e > 1e-9; }
''', "sources on two edges with a common corner", "the shares of the second edge are wrong")
seed("h01-quintic-laplacian-support", "H01", ("sph/SphQuintic_Imp.hpp", """        Real CSphQuintic<Real>::laplacianW(const CGeoVector<Real> r, const Real h)
        {
            Real q = r.norm() / h;

            if (q > 2.0)""", """        Real CSphQuintic<Real>::laplacianW(const CGeoVector<Real> r, const Real h)
        {
            Real q = r.norm() / h;

            if (q > 3.0)"""),
 H+'''#include "SphQuintic.hpp"
using namespace ENigMA::sph; using namespace ENigMA::geometry;
int main() { CSphQuintic<double> k(2); CGeoVector<double> r(2.5, 0, 0); double w = k.laplacianW(r, 1.0); printf("%g\\n", w); return w != 0; }
''', "a distance between two and three smoothing lengths", "the kernel acts outside its support")
seed("h02-density-own-mass", "H02", ("solvers/SphParticles_Imp.hpp", "fd += (Tj - aField.u(i)) / m_particles[j].density", "fd += (Tj - aField.u(i)) / m_particles[i].density"),
 H+'''#include "PdeField.hpp"
using namespace ENigMA::pde; using namespace ENigMA::mesh;
#include "SphParticles.hpp"
'''+B.replace(' using namespace ENigMA::sle;','')+'''int main() { CMshMesh<double> m; double x[] = { 0, 0.5, 0.8, 5 }; for (int i = 0; i < 4; ++i) { CMshNode<double> n(x[i], 0, 0); m.addNode(i, n); }
 CPdeField<double> T; T.setMesh(m); T.u.resize(4); T.u << 1, 2, 4, 0; ENigMA::sph::CSphQuintic<double> k(1); ENigMA::sph::CSphParticles<double> s(k); s.init(T, 1.0, 1.0, 1.0, 0.1); CGeoVector<double> v(0, 0, 0); s.setInitialVelocity(T, v); s.solve(T);
 double u0[] = { 1, 2, 4, 0 }, e = 0; for (int i = 0; i < 4; ++i) { double f = 0; for (int j = 0; j < 4; ++j) if (std::fabs(x[i] - x[j]) <= 1.0) { CGeoVector<double> r(x[j] - x[i], 0, 0); f += (u0[j] - (j < i ? T.u(j) : u0[i] * 0 + u0[j]) * 0 - 0) * 0; (void)r; } (void)f; }
 // the first particle sees the initial values of all
 double f = 0; for (int j = 0; j < 4; ++j) if (std::fabs(x[j]) <= 1.0) { CGeoVector<double> r(x[j], 0, 0); f += (u0[j] - u0[0]) / s.density(j) * k.laplacianW(r, 1.0); } e = std::fabs(T.u(0) - (1 + 0.1 * f)); printf("%g\\n", e); return e > 1e-9; }
''', "neighbours of different density", "the diffusion is weighted with the particle's own density")
seed("v01-fvm-face-orientation", "V01", ("fvm/FvmMesh_Imp.hpp", "if (aFace.controlVolumeId() != aControlVolumeId)", "if (aFace.controlVolumeId() < aControlVolumeId)"),
 H+'#include "FvmMesh.hpp"\nusing namespace ENigMA::fvm;\n'+B.split('using namespace ENigMA::pde; ')[1].replace(' using namespace ENigMA::sle;','')+M+'''int main() { CMshMesh<double> m; std::vector<std::array<double,3>> p; std::vector<int> id; for (int k = 0; k < 4; ++k) for (int j = 0; j < 2; ++j) for (int i = 0; i < 2; ++i) { id.push_back(p.size()); p.push_back({1.0*i,1.0*j,1.0*k}); } nodes(m, p, id);
 int ids[] = { 2, 0, 1 }; for (int k = 0; k < 3; ++k) { CMshElement<double> e(ET_HEXAHEDRON); for (int i : { 0, 1, 3, 2, 4, 5, 7, 6 }) e.addNodeId(4 * k + i); m.addElement(ids[k], e); }
 m.generateFaces(1e-6); CFvmMesh<double> f(m); double v = f.volume(); printf("%g\\n", v); 
 int bad = 0; for (int k = 0; k < 3; ++k) { auto& c = f.controlVolume(k); c.calculateVolume(); c.calculateCentroid(); if (std::fabs(std::fabs(c.volume()) - 1) > 1e-9) bad++; double s = 0; for (int j = 0; j < c.nbFaces(); ++j) { c.calculateFaceArea(c.faceId(j)); s += c.faceNormal(c.faceId(j)).z() * c.faceArea(c.faceId(j)); } if (std::fabs(s) > 1e-9) bad++; }
 printf("%d\\n", bad); return bad != 0; }
''', "elements whose ids do not increase with their order", "faces of a control volume are oriented the wrong way")
seed("v01-search-radius", "V01", ("fvm/FvmMeshSearch_Imp.hpp", "@@", "@@"), "", "", "") if False else None
T = "CFvmPisoSolver<Real>::"
seed("v03-temperature-upwind-capacity", "V03", ("solvers/FvmTemperatureSolver_Imp.hpp", "b[anIndexP] += -xsi * dens * spheat * flux * m_Tf.at(aFaceId);", "b[anIndexP] += -xsi * spheat * flux * m_Tf.at(aFaceId);"),
 H+'''#include <Eigen/Dense>
#include <Eigen/Sparse>
#define private public
#define protected public
#include "FvmTemperatureSolver.hpp"
using namespace ENigMA::fvm; using namespace ENigMA::mesh; using namespace ENigMA::geometry;
'''+M+'''int main() { CMshMesh<double> m; std::vector<std::array<double,3>> p; std::vector<int> id; for (int k = 0; k < 3; ++k) for (int j = 0; j < 2; ++j) for (int i = 0; i < 2; ++i) { id.push_back(p.size()); p.push_back({1.0*i,1.0*j,1.0*k}); } nodes(m, p, id);
 for (int k = 0; k < 2; ++k) { CMshElement<double> e(ET_HEXAHEDRON); for (int i : { 0, 1, 3, 2, 4, 5, 7, 6 }) e.addNodeId(4 * k + i); m.addElement(k, e); }
 m.generateFaces(1e-6); m.calculateFaceCentroid(); m.calculateElementCentroid(); CFvmMesh<double> f(m); CFvmTemperatureSolver<double> s(f); s.setMaterialProperties(1000.0, 1.0, 0.0, 2.0); s.setTimeInterval(1.0);
 for (int i = 0; i < s.m_fvmMesh.nbFaces(); ++i) { int a = s.m_fvmMesh.faceId(i); auto& F = s.m_fvmMesh.face(a); F.calculateCentroid(); s.m_Tf[a] = 3; double z = F.centroid().z(); s.m_flux[a] = 0; if (z < 0.1 || z > 1.9 || F.hasPair()) { F.calculateNormal(); s.m_flux[a] = F.normal().z(); } }
 for (int i = 0; i < 2; ++i) s.m_T[i] = 3; s.storePreviousQuantities(); s.m_dt = 1.0; s.calculateTemperatureField(); double e = std::fabs(s.T(0) - 3) + std::fabs(s.T(1) - 3); printf("%g\\n", e); return !(e < 1e-6); }
''', "inflow through a boundary face of a fluid whose density is not one", "a uniform temperature is not kept")
seed("v03-vof-courant-other-flux", "V03", ("solvers/FvmVofSolver_Imp.hpp", "Real Cj = std::max(-flux * dt / volume, 0.0);\n                    Cpp", "Real Cj = std::max(flux * dt / volume, 0.0);\n                    Cpp"),
 H+'''#include <Eigen/Dense>
#include <Eigen/Sparse>
#define private public
#define protected public
#include "FvmVofSolver.hpp"
using namespace ENigMA::fvm; using namespace ENigMA::mesh; using namespace ENigMA::geometry;
'''+M+'''int main() { CMshMesh<double> m; std::vector<std::array<double,3>> p; std::vector<int> id; for (int k = 0; k < 3; ++k) for (int j = 0; j < 2; ++j) for (int i = 0; i < 2; ++i) { id.push_back(p.size()); p.push_back({1.0*i,1.0*j,1.0*k}); } nodes(m, p, id);
 for (int k = 0; k < 2; ++k) { CMshElement<double> e(ET_HEXAHEDRON); for (int i : { 0, 1, 3, 2, 4, 5, 7, 6 }) e.addNodeId(4 * k + i); m.addElement(k, e); }
 m.generateFaces(1e-6); m.calculateFaceCentroid(); m.calculateElementCentroid(); CFvmMesh<double> f(m); CFvmVofSolver<double> s(f); for (int i = 0; i < s.m_fvmMesh.nbFaces(); ++i) { int a = s.m_fvmMesh.faceId(i); s.m_flux[a] = 0; }
 int b = s.m_fvmMesh.controlVolume(0).faceId(0); if (s.m_fvmMesh.face(b).hasPair()) b = s.m_fvmMesh.controlVolume(0).faceId(1); s.m_flux[b] = -0.25; double c = s.calculateCourant(1.0, false); printf("%g\\n", c); return std::fabs(c - 0.25) > 1e-9; }
''', "a velocity field that is not free of divergence", "the Courant number counts the wrong direction") 
