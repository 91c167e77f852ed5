import sys
import mkseed
def seed(sid,*a,**k):
    if len(sys.argv)<2 or sid in sys.argv[1:]: mkseed.seed(sid,*a,**k)
H = '#include <vector>\n#include <limits>\n#include <cstdio>\n#include <cmath>\n#include <map>\n#include <set>\n#include <iostream>\n#include <algorithm>\n'
seed("s01-grid-kmax", "S01", ("geometry/GeoHashGrid_Imp.hpp",
 "Integer kmax = static_cast<Integer>((dZMax - m_adOrig[2]) * dRm1DeltaZ < std::numeric_limits<Integer>::max() ? (dZMax - m_adOrig[2]) * dRm1DeltaZ : std::numeric_limits<Integer>::max());",
 "Integer kmax = static_cast<Integer>((dZMax - m_adOrig[2]) * dRm1DeltaY < std::numeric_limits<Integer>::max() ? (dZMax - m_adOrig[2]) * dRm1DeltaY : std::numeric_limits<Integer>::max());"),
 H+'''#include "GeoHashGrid.hpp"
using namespace ENigMA::geometry;
int main() { CGeoHashGrid<double> g; std::vector<CGeoCoordinate<double>> p; int bad = 0;
 for (int i = 0; i < 4; ++i) for (int j = 0; j < 4; ++j) for (int k = 0; k < 4; ++k) { CGeoCoordinate<double> c(i, 30.0 * j, k); g.addGeometricObject((int)p.size(), c); p.push_back(c); }
 g.build();
 for (unsigned i = 0; i < p.size(); ++i) { std::vector<int> r; g.find(r, p[i], 1.1); int n = 0; for (auto& q : p) n += (q - p[i]).norm() <= 1.1; if ((int)r.size() != n) bad++; }
 printf("%d\\n", bad); return bad != 0; }
''', "a point cloud much longer in y than in z", "points above the query are not reported")
seed("s01-adtree-on-separator", "S01", ("geometry/GeoAdtree_Imp.hpp", "if (node->rightNode && bmax[dir] >= node->sep)", "if (node->rightNode && bmax[dir] > node->sep)"),
 H+'''#include "GeoAdtree.hpp"
using namespace ENigMA::geometry;
int main() { CGeoAdtree<double> t; CGeoBoundingBox<double> w(0,0,0,4,4,4); t.set(w); CGeoBoundingBox<double> a(1,1,1,2,2,2), b(2,1,1,3,2,2), q(1,1,1,2,2,2);
 t.addGeometricObject(7, a); t.addGeometricObject(9, b); std::vector<int> r; t.find(r, q, 0.0); printf("%d\\n", (int)r.size()); return r.size() != 2; }
''', "a stored box that begins exactly at the middle of the world box and a query that ends there", "the touching box is not reported")
seed("s01-rtree-stale-result", "S01", ("geometry/GeoRtree_Imp.hpp", "            boundingBoxIds.clear();\n\n            m_tree.Search", "            if (aTolerance > 0)\n                boundingBoxIds.clear();\n\n            m_tree.Search"),
 H+'''#include "GeoRtree.hpp"
using namespace ENigMA::geometry;
int main() { CGeoRtree<double> t; CGeoBoundingBox<double> a(1,1,1,2,2,2), q(5,5,5,6,6,6); t.addGeometricObject(7, a); std::vector<int> r; t.find(r, a, 0.0); t.find(r, q, 0.0); printf("%d\\n", (int)r.size()); return r.size() != 0; }
''', "two queries with tolerance zero into the same vector", "boxes of the earlier query are reported again")
seed("m01-dangling-paired-faces", "M01", ("mesh/MshMesh_Imp.hpp", "                for (Integer k = 0; k < aFace.nbNodeIds(); ++k)\n                {\n                    Integer aNodeId = aFace.nodeId(k);\n                    bDeleteNode[aNodeId] = false;",
 "                for (Integer k = 0; k < aFace.nbNodeIds() && aFace.hasPair(); ++k)\n                {\n                    Integer aNodeId = aFace.nodeId(k);\n                    bDeleteNode[aNodeId] = false;"),
 H+'''#include "MshMesh.hpp"
using namespace ENigMA::mesh;
int main() { CMshMesh<double> m; for (int i = 0; i < 4; ++i) { CMshNode<double> n(i, i * i, 0); m.addNode(i, n); }
 CMshElement<double> e(ET_TRIANGLE); for (int i = 0; i < 3; ++i) e.addNodeId(i); m.addElement(0, e); m.generateFaces(1e-6); m.removeElement(0); m.removeDanglingNodes();
 int bad = 0; for (int f = 0; f < m.nbFaces(); ++f) for (int j = 0; j < m.face(m.faceId(f)).nbNodeIds(); ++j) { try { m.node(m.face(m.faceId(f)).nodeId(j)); } catch (...) { bad++; } }
 printf("%d %d\\n", bad, m.nbNodes()); return bad != 0 || m.nbNodes() != 3; }
''', "an unpaired face whose element was removed before removing the dangling nodes", "faces refer to nodes that are gone")
seed("m01-renumber-old-faces", "M01", ("mesh/MshMesh_Imp.hpp", "                for (Integer j = 0; j < anElement.nbFaceIds(); ++j)\n                    anElement.setFaceId(j, sNewFaceIds.at(anElement.faceId(j)));\n\n                sNewElements",
 "                for (Integer j = 0; j < anElement.nbFaceIds() && anElement.elementType() != ET_BEAM; ++j)\n                    anElement.setFaceId(j, sNewFaceIds.at(anElement.faceId(j)));\n\n                sNewElements"),
 H+'''#include "MshMesh.hpp"
using namespace ENigMA::mesh;
int main() { CMshMesh<double> m; for (int i = 0; i < 4; ++i) { CMshNode<double> n(i, 0, 0); m.addNode(i, n); }
 for (int k = 0; k < 3; ++k) { CMshElement<double> e(ET_BEAM); e.addNodeId(k); e.addNodeId(k + 1); m.addElement(k, e); }
 m.generateFaces(1e-6); for (int j = 0; j < 2; ++j) m.removeFace(m.element(0).faceId(j)); m.removeElement(0); m.rebuildIndices(); m.renumber();
 int bad = 0; for (int e = 0; e < m.nbElements(); ++e) for (int j = 0; j < 2; ++j) { try { if (m.face(m.element(e).faceId(j)).nodeId(0) != m.element(e).nodeId(j)) bad++; } catch (...) { bad++; } }
 printf("%d\\n", bad); return bad != 0; }
''', "renumbering a mesh of beams whose face ids have a gap", "elements name faces that are not theirs")
seed("m02-prism-face-inwards", "M02", ("mesh/MshElement_Imp.hpp", "                aFace.addNodeId(m_nodeIds[2]);\n                aFace.addNodeId(m_nodeIds[1]);\n                aFace.addNodeId(m_nodeIds[4]);\n                aFace.addNodeId(m_nodeIds[5]);",
 "                aFace.addNodeId(m_nodeIds[1]);\n                aFace.addNodeId(m_nodeIds[2]);\n                aFace.addNodeId(m_nodeIds[5]);\n                aFace.addNodeId(m_nodeIds[4]);"),
 H+'''#include "MshMesh.hpp"
using namespace ENigMA::mesh;
int main() { CMshElement<double> e(ET_TRIANGULAR_PRISM); for (int i = 0; i < 6; ++i) e.addNodeId(i); std::vector<CMshFace<double>> f; e.generateFaces(f);
 std::map<std::pair<int,int>,int> c; for (auto& g : f) for (int j = 0; j < g.nbNodeIds(); ++j) c[{g.nodeId(j), g.nodeId((j + 1) % g.nbNodeIds())}]++;
 int bad = 0; for (auto& x : c) if (x.second != 1) bad++; printf("%d\\n", bad); return bad != 0; }
''', "prism elements", "one face of a prism looks inwards")
seed("m02-face-centroid-by-id", "M02", ("mesh/MshMesh_Imp.hpp", "return m_faceCentroid.at(faceIndex(aFaceId));", "return m_faceCentroid.at(aFaceId < nbFaces() ? aFaceId : faceIndex(aFaceId));"),
 H+'''#include "MshMesh.hpp"
using namespace ENigMA::mesh;
int main() { CMshMesh<double> m; for (int i = 0; i < 4; ++i) { CMshNode<double> n(i, i * i, 0); m.addNode(i, n); }
 for (int i = 0; i < 3; ++i) { CMshFace<double> f; f.addNodeId(i); f.addNodeId(i + 1); f.setFaceType(FT_LINE); m.addFace(2 - i, f); }
 m.calculateFaceCentroid(); int bad = 0; for (int i = 0; i < 3; ++i) if (std::fabs(m.faceCentroid(2 - i).x() - (i + 0.5)) > 1e-9) bad++; printf("%d\\n", bad); return bad != 0; }
''', "faces whose ids are not in the order they were added", "a face reports the centroid of another one")
seed("m03-box-nw-from-y", "M03", ("mesh/MshBasicMesher_Imp.hpp", "nw = static_cast<Integer>(aVectorW.norm() / meshSize);", "nw = static_cast<Integer>(std::max(aVectorW.norm(), aVectorV.norm() * (nu > nv)) / meshSize);"),
 H+'''#include "MshBasicMesher.hpp"
using namespace ENigMA::mesh; using namespace ENigMA::geometry;
int main() { CGeoBoundingBox<double> b(0,0,0,4.1,3.1,2.1); CMshBasicMesher<double> m; m.generate(b, 1.0); printf("%d\\n", m.mesh().nbElements()); return m.mesh().nbElements() != 24 || m.mesh().boundingBox().max().z() > 2.1; }
''', "meshing a bounding box that is longest in x and flattest in z", "the mesh leaves the box")
seed("m03-extruded-corner-normal", "M03", ("mesh/MshExtrudedMesher_Imp.hpp", "aNode4 += sNormals.at(anElement.nodeId(3)) * aDelta;", "aNode4 += sNormals.at(anElement.nodeId(0)) * aDelta;"),
 H+'''#include "MshExtrudedMesher.hpp"
using namespace ENigMA::mesh; using namespace ENigMA::geometry;
int main() { CMshMesh<double> s; for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) { CMshNode<double> n(i, j, 0.3 * (i - 1) * (i - 1) + 0.2 * (j - 1) * (j - 1)); s.addNode(3 * i + j, n); }
 for (int i = 0; i < 2; ++i) for (int j = 0; j < 2; ++j) { CMshElement<double> e(ET_QUADRILATERAL); e.addNodeId(3*i+j); e.addNodeId(3*(i+1)+j); e.addNodeId(3*(i+1)+j+1); e.addNodeId(3*i+j+1); s.addElement(2*i+j, e); }
 CMshExtrudedMesher<double> m; m.generate(s, 0.1, 1e-6); m.mesh().mergeNodes(1e-6); printf("%d\\n", m.mesh().nbNodes()); return m.mesh().nbNodes() != 18; }
''', "a curved surface of quadrilaterals", "the layers of neighbouring cells do not meet")
seed("m04-merge-pairs-only", "M04", ("mesh/MshMesh_Imp.hpp", "            // Renumber faces\n            for (Integer i = 0; i < static_cast<Integer>(m_faceIds.size()); ++i)\n            {\n                Integer aFaceId = m_faceIds.at(i);\n\n                CMshFace<Real>& aFace = m_faces.at(aFaceId);\n",
  "            // Renumber faces\n            for (Integer i = 0; i < static_cast<Integer>(m_elementIds.size()); ++i)\n            for (Integer f = 0; f < m_elements.at(m_elementIds.at(i)).nbFaceIds(); ++f)\n            {\n                Integer aFaceId = m_elements.at(m_elementIds.at(i)).faceId(f);\n\n                CMshFace<Real>& aFace = m_faces.at(aFaceId);\n"),
 H+'''#include "MshMesh.hpp"
using namespace ENigMA::mesh;
int main() { CMshMesh<double> m; double x[4] = {0, 1, 1, 2}; for (int i = 0; i < 4; ++i) { CMshNode<double> n(x[i], 0, 0); m.addNode(i, n); }
 CMshFace<double> f; f.addNodeId(2); f.addNodeId(3); f.setFaceType(FT_LINE); m.addFace(0, f); m.mergeNodes(1e-6);
 printf("%d\\n", m.face(0).nodeId(0)); return m.face(0).nodeId(0) != 1; }
''', "faces that no element lists", "faces keep naming merged nodes")
seed("m04-tetra-longest-edge", "M04", ("mesh/MshTetrahedron_Imp.hpp", "std::max(l4, std::max(l5, l6))", "std::max(l4, l5)"),
 H+'''#include "MshTetrahedron.hpp"
using namespace ENigMA::mesh; using namespace ENigMA::geometry;
int main() { CGeoCoordinate<double> p[4] = {{0,0,0},{1,0,0},{0.2,1,0},{0.1,-1.5,1}}; double q[2]; int o[2][4] = {{0,1,2,3},{2,0,1,3}};
 for (int k = 0; k < 2; ++k) { CMshTetrahedron<double> t; for (int i = 0; i < 4; ++i) t.addVertex(p[o[k][i]]); t.calculateQuality(); q[k] = t.quality(); }
 printf("%g %g\\n", q[0], q[1]); return std::fabs(q[0] - q[1]) > 1e-9; }
''', "a tetrahedron whose longest edge joins its last two vertices", "the quality depends on the order of the vertices")
