import sys
import mkseed
def seed(sid,*a,**k):
    if len(sys.argv)<2 or sid in sys.argv[1:]: mkseed.seed(sid,*a,**k)
H = '#include <vector>\n#include <limits>\n#include <cstdio>\n#include <cmath>\n'
seed("g02-recalc-centroid-accumulates", "G02",
 ("geometry/GeoTetrahedron_Imp.hpp", "this->m_centroid = this->m_vertices[0];\n                this->m_centroid += this->m_vertices[1];",
  "if (!this->m_bCentroid)\n                    this->m_centroid = this->m_vertices[0];\n                else\n                    this->m_centroid = this->m_centroid * 4.0 - this->m_vertices[1] - this->m_vertices[2] - this->m_vertices[3];\n                this->m_centroid += this->m_vertices[1];"),
 H + '''#include "GeoTetrahedron.hpp"
using namespace ENigMA::geometry;
int main() { CGeoTetrahedron<double> t; CGeoCoordinate<double> a(0,0,0), b(1,0,0), c(0,1,0), d(0,0,1);
 t.addVertex(a); t.addVertex(b); t.addVertex(c); t.addVertex(d); t.calculateCentroid();
 for (int k = 0; k < 4; ++k) t.setVertex(k, t.vertex(k) + CGeoCoordinate<double>(2 + k, 1, -3));
 t.calculateCentroid(true);
 CGeoCoordinate<double> e = (t.vertex(0) + t.vertex(1) + t.vertex(2) + t.vertex(3)) * 0.25;
 double err = (t.centroid() - e).norm(); printf("%g\\n", err); return err > 1e-9; }
''', "a cell whose vertices move between two centroid calculations, the second with recalculation requested", "the recalculated centroid keeps part of the old vertices")
seed("g04-tetra-contains-far-face", "G04",
 ("geometry/GeoTetrahedron_Imp.hpp", "            if (det0 <= 0.0)\n                return false;", "            if (det0 <= aTolerance * aTolerance)\n                return false;"),
 H + '''#include "GeoTetrahedron.hpp"
using namespace ENigMA::geometry;
int main() { CGeoTetrahedron<double> t; double s = 1e-2; CGeoCoordinate<double> a(0,0,0), b(s,0,0), c(0,s,0), d(0,0,s);
 t.addVertex(a); t.addVertex(c); t.addVertex(b); t.addVertex(d);
 CGeoCoordinate<double> p(s/5,s/5,s/5); bool r = t.contains(p, 2e-3); printf("%d\\n", r); return !r; }
''', "a small tetrahedron (volume below the squared tolerance) with a point well inside", "a contained point is reported outside")
seed("g05-bbox-grow-z", "G05",
 ("geometry/GeoBoundingBox_Imp.hpp", "            m_min.array() -= anAmount;\n            m_max.array() += anAmount;", "            this->grow(anAmount, anAmount, std::fabs(anAmount));"),
 H + '''#include "GeoBoundingBox.hpp"
using namespace ENigMA::geometry;
int main() { CGeoBoundingBox<double> b(0, 0, 0, 4, 4, 4); b.grow(-1.0);
 printf("%g %g\\n", b.min().z(), b.max().z()); return std::fabs(b.min().z() - 1) + std::fabs(b.max().z() - 3) + std::fabs(b.min().x() - 1) > 1e-9; }
''', "growing by a negative amount", "the z sides move the wrong way")
seed("g06-sphere-radius-origin", "G06",
 ("geometry/GeoSphere_Imp.hpp", "m_radius = sqrt(m_center.squaredNorm() - m15 / m11);", "m_radius = std::max((m_center - aPoint1).norm(), std::sqrt(std::fabs(m_center.squaredNorm() - m15 / std::max(m11, -m11))));"),
 H + '''#include "GeoSphere.hpp"
using namespace ENigMA::geometry;
int main() { CGeoCoordinate<double> a(3,0,0), b(4,0,0), c(3,1,0), d(3,0,1); int bad = 0;
 for (int k = 0; k < 2; ++k) { CGeoSphere<double> s(k ? b : a, k ? a : b, c, d, 1e-9);
  double r = s.radius(); printf("%g %g\\n", r, (a - s.center()).norm()); if (!(std::fabs(r - (a - s.center()).norm()) < 1e-9)) bad = 1; } return bad; }
''', "four points whose orientation is negative and that are not equidistant from the origin", "the radius is not the distance to the points")
seed("g07-sort-swap-keeps-direction", "G07",
 ("geometry/GeoLineList_Imp.hpp", "                        m_lines[j].invert();\n\n                        if (i + 1 != j)\n                            std::swap(m_lines[i + 1], m_lines[j]);",
  "                        if (i + 1 != j)\n                            std::swap(m_lines[i + 1], m_lines[j]);\n\n                        m_lines[j].invert();"),
 H + '''#include "GeoLineList.hpp"
using namespace ENigMA::geometry;
typedef CGeoCoordinate<double> C;
int main() { C a(0,0,0), b(1,0,0), c(0,1,0); CGeoLineList<double> l;
 l.addLine(CGeoLine<double>(a,b)); l.addLine(CGeoLine<double>(c,a)); l.addLine(CGeoLine<double>(c,b)); l.sort(1e-6);
 int bad = 0; for (int i = 0; i < 3; ++i) if ((l.line(i).endPoint() - l.line((i+1)%3).startPoint()).norm() > 1e-9) bad = 1; printf("%d\\n", bad); return bad; }
''', "three lines of which the successor of the first stands last and points the wrong way", "the sorted lines do not chain")
