#include "fvm_common.hpp"
using namespace spec;

namespace
{
    template <class R> V<R> vecArea(CFvmControlVolume<R>& v, int id)
    {
        v.calculateFaceArea(id);
        return spec::v<R>(v.faceNormal(id)) * v.faceArea(id);
    }
}
CONTRACT("V01", control_volume_tetra, "CFvmControlVolume(polyhedron), nbFaces/faceId/containsFace, calculateVolume/Centroid/SurfaceArea, calculateFaceArea/Normal/Centroid, faceDist")
{
    typedef typename C::R R;
    V<R> a = vec(c, "a"), e = vec(c, "e"), f = vec(c, "f"), g = vec(c, "g");
    R d = det(e, f, g);
    c.require(c.gt(d, R(0.01)));
    V<R> q[4] = { a, a + f, a + e, a + g };
    for (int i = 0; i < 4; ++i) for (int j = i + 1; j < 4; ++j) for (int k = j + 1; k < 4; ++k) c.require(c.gt(n2(cross(q[j] - q[i], q[k] - q[i])), R(1e-6)));
    for (int i = 0; i < 4; ++i) for (int j = i + 1; j < 4; ++j) c.require(c.gt(n2(q[j] - q[i]), R(1e-6)));
    CGeoTetrahedron<R> t;
    for (auto& x : q) t.addVertex(P(x));
    CGeoPolyhedron<R> h(t);
    CFvmControlVolume<R> cv(h);
    c.ensure("not clipped at first", c.is(!cv.isClipped()));
    c.ensure("four faces", c.is(cv.nbFaces() == 4 && !cv.containsFace(4)));
    cv.calculateCentroid();
    c.ensure("centroid", eqv(c, v<R>(cv.centroid()) * R(4), q[0] + q[1] + q[2] + q[3]));
    for (int i = 0; i < 4; ++i)
    {
        c.ensure("face ids", c.is(cv.faceId(i) == h.polygonId(i) && cv.containsFace(cv.faceId(i))));
        int id = cv.faceId(i);
        cv.calculateFaceCentroid(id);
        CGeoPolyline<R>& l = h.polygon(id).polyline();
        c.ensure("distance from the centroid to the face", eqv(c, v<R>(cv.faceDist(id)) * R(12), (v<R>(l.vertex(0)) + v<R>(l.vertex(1)) + v<R>(l.vertex(2))) * R(4) - (q[0] + q[1] + q[2] + q[3]) * R(3)));
    }
}
CONTRACT("V01", recalculation, "CFvmControlVolume::addFace, calculateVolume/Centroid/SurfaceArea with and without recalculation")
{
    typedef typename C::R R;
    R x = c.real("x"), y = c.real("y"), z = c.real("z");
    c.require(c.gt(x, R(0.01)) && c.gt(y, R(0.01)) && c.gt(z, R(0.01)));
    const V<R> q[6] = { v3<R>(R(0), R(0), R(0)), v3<R>(x, R(0), R(0)), v3<R>(x, y, R(0)), v3<R>(R(0), y, R(0)), v3<R>(R(0), R(0), z), v3<R>(R(0), y, z) };
    // a wedge with its faces, the slanted one of area x, sqrt(...) left out of the first measures
    const int F[5][4] = { { 0, 3, 2, 1 }, { 0, 4, 5, 3 }, { 0, 1, 4, -1 }, { 3, 5, 2, -1 }, { 1, 2, 5, 4 } };
    CFvmControlVolume<R> cv;
    V<R> mean = v3<R>(R(0), R(0), R(0));
    R area = R(0);
    for (int i = 0; i < 5; ++i)
    {
        CFvmFace<R> f;
        int n = F[i][3] < 0 ? 3 : 4;
        V<R> m = v3<R>(R(0), R(0), R(0));
        for (int k = 0; k < n; ++k) f.addNode(CFvmNode<R>(P(q[F[i][k]]))), m = m + q[F[i][k]] * (R(1) / R(n));
        f.close();
        if (i == 4)
        {
            cv.calculateCentroid();
            cv.calculateSurfaceArea();
            c.ensure("centroid of the first faces", eqv(c, v<R>(cv.centroid()) * R(4), mean));
            c.ensure("area of the first faces", c.eq(cv.surfaceArea(), area));
        }
        cv.addFace(10 - i, f);
        mean = mean + m;
        if (i < 4) area = area + (i == 0 ? x * y : i == 1 ? y * z : x * z / R(2));
    }
    cv.calculateFaceArea(6);
    area = area + cv.faceArea(6);
    cv.calculateCentroid();
    cv.calculateSurfaceArea();
    c.ensure("measures stay until they are asked for again", eqv(c, v<R>(cv.centroid()) * R(4), mean - (q[1] + q[2] + q[4] + q[5]) * R(0.25)) && c.eq(cv.surfaceArea(), area - cv.faceArea(6)));
    cv.calculateCentroid(true);
    cv.calculateSurfaceArea(true);
    c.ensure("recalculated centroid", eqv(c, v<R>(cv.centroid()) * R(5), mean));
    c.ensure("recalculated surface", c.eq(cv.surfaceArea(), area));
    cv.calculateVolume();
    c.ensure("volume", c.eq(cv.volume(), x * y * z / R(2)));
    cv.calculateVolume(true);
    c.ensure("recalculated volume", c.eq(cv.volume(), x * y * z / R(2)));
}
CONTRACT("V01", face_sides, "CFvmFace: controlVolumeId/neighborId/setHasPair, boundary type, add nodes and reset")
{
    typedef typename C::R R;
    int own = c.choose("owner", 4), nb = c.choose("neighbour", 4), ask = c.choose("asked", 4);
    CFvmFace<R> f;
    c.ensure("no boundary type at first", c.is(f.boundaryType() == BT_NONE));
    V<R> p[3] = { vec(c, "p"), vec(c, "q"), vec(c, "r") };
    if (c.choose("reused", 2))
    {
        f.addNode(CFvmNode<R>(P(p[2])));
        f.close();
        f.reset();
    }
    for (auto& x : p) f.addNode(CFvmNode<R>(P(x)));
    c.require(c.gt(n2(p[2] - p[0]), R(1e-3)));
    for (int i = 0; i < 3; ++i) c.ensure("nodes in the order given", c.is(f.polyline().nbVertices() == 3) && eqv(c, v<R>(f.polyline().vertex(i)), p[i]));
    f.close();
    c.ensure("a face is a closed polygon", c.is(f.polyline().nbVertices() == 4) && eqv(c, v<R>(f.polyline().vertex(3)), p[0]));
    f.setControlVolumeId(own);
    f.setNeighborId(nb);
    c.ensure("owner", c.is(f.controlVolumeId() == own));
    // seen from one side: this side and the other
    if (ask == own)
    {
        c.ensure("seen from the owner", c.is(f.controlVolumeId(ask) == own && f.neighborId(ask) == nb));
    }
    else if (ask == nb)
    {
        c.ensure("seen from the neighbour", c.is(f.controlVolumeId(ask) == nb && f.neighborId(ask) == own));
    }
    f.setBoundaryType(CFvmBoundaryType(BT_WALL_SLIP));
    c.ensure("boundary type", c.is(f.boundaryType() == BT_WALL_SLIP && f.boundaryType() != BT_OUTLET && !(f.boundaryType() == BT_NONE)));
    f.boundaryType() = BT_OUTLET;
    c.ensure("changed boundary type", c.is(f.boundaryType() == BT_OUTLET));
}
BOUNDED_CONTRACT("V01", mesh_history, "CFvmMesh: addFace/setFace/removeFace/addControlVolume/faceId/faceIndex/nextFaceId/reset", "every history of up to 4 steps over 3 face numbers")
{
    typedef typename C::R R;
    CFvmMesh<R> m;
    std::vector<int> ids; // in order
    std::map<int, int> owner;
    for (int step = 0; step < 4; ++step)
    {
        int op = c.choose(nm("op", step), 3);
        int id = 2 + 5 * c.choose(nm("id", step), 3);
        bool has = std::find(ids.begin(), ids.end(), id) != ids.end();
        CFvmFace<R> f;
        f.setControlVolumeId(100 + step);
        if (op == 0 && !has)
        {
            m.addFace(id, f);
            ids.push_back(id);
            owner[id] = 100 + step;
        }
        else if (op == 1 && has)
        {
            m.removeFace(id);
            ids.erase(std::find(ids.begin(), ids.end(), id));
        }
        else if (op == 2 && has)
        {
            m.setFace(id, f);
            owner[id] = 100 + step;
        }
        bool ok = m.nbFaces() == int(ids.size());
        for (size_t i = 0; ok && i < ids.size(); ++i) ok = m.faceId(int(i)) == ids[i] && m.faceIndex(ids[i]) == int(i) && m.face(ids[i]).controlVolumeId() == owner[ids[i]];
        c.ensure("faces are found by number and position", c.is(ok));
        bool fresh = std::find(ids.begin(), ids.end(), m.nextFaceId()) == ids.end();
        c.ensure("the next number is free", c.is(fresh));
    }
    CFvmControlVolume<R> v;
    v.setControlVolumeId(7);
    m.addControlVolume(7, v);
    v.setControlVolumeId(3);
    m.addControlVolume(3, v);
    c.ensure("control volumes are found by number and position",
        c.is(m.nbControlVolumes() == 2 && m.controlVolumeId(0) == 7 && m.controlVolumeId(1) == 3 && m.controlVolumeIndex(7) == 0 && m.controlVolumeIndex(3) == 1 && m.controlVolume(3).controlVolumeId() == 3
            && m.nextControlVolumeId() == 8));
    m.reset();
    c.ensure("empty after a reset", c.is(m.nbFaces() == 0 && m.nbControlVolumes() == 0 && m.nextFaceId() == 0 && m.nextControlVolumeId() == 0));
    CFvmFace<R> f;
    m.addFace(9, f);
    c.ensure("counts from zero after a reset", c.is(m.faceIndex(9) == 0));
}
RUNTIME_CONTRACT("V01", mesh_of_control_volumes, "CFvmMesh::set, volume, CFvmControlVolume::addFace/calculateVolume/calculateFaceArea/calculateFaceNormal", "generated meshes of hexahedra, tetrahedra, prisms with shuffled numbering")
{
    typedef typename C::R R;
    Solid<R> s(c.choose("seed", 1 << 20), 3, true);
    CMshMesh<R>& m = s.mesh;
    CFvmMesh<R> f;
    if (s.g() % 2)
    {
        Solid<R> other(5, 3, true);
        f.set(other.mesh);
    }
    f.set(m);
    int facets = 0, paired = 0;
    for (int i = 0; i < m.nbFaces(); ++i) facets += 1, paired += m.face(m.faceId(i)).hasPair();
    c.ensure("one face for each pair and each boundary face", c.is(f.nbFaces() == facets - paired / 2 && paired % 2 == 0));
    c.ensure("one control volume for each element", c.is(f.nbControlVolumes() == m.nbElements()));
    c.ensure("the volumes add up", c.near(f.volume(), s.volume, 1e-7));
    std::map<int, std::vector<int>> sides;
    for (int i = 0; i < f.nbControlVolumes(); ++i)
    {
        int id = f.controlVolumeId(i);
        c.ensure("control volumes in the order of the elements", c.is(id == m.elementId(i) && f.controlVolumeIndex(id) == i && f.controlVolume(id).controlVolumeId() == id));
        CFvmControlVolume<R>& v = f.controlVolume(id);
        v.calculateVolume();
        v.calculateSurfaceArea();
        v.calculateCentroid();
        c.ensure("volume", c.near(v.volume(), s.size(id), 1e-7));
        c.ensure("one face per facet", c.is(v.nbFaces() == m.element(id).nbFaceIds()));
        V<R> sum = v3(R(0), R(0), R(0));
        R total = R(0);
        for (int k = 0; k < v.nbFaces(); ++k)
        {
            int fid = v.faceId(k);
            V<R> A = vecArea(v, fid);
            sum = sum + A, total = total + len(A);
            v.calculateFaceCentroid(fid);
            V<R> r = spec::v<R>(v.faceDist(fid));
            c.ensure("faces point outwards", c.is(dot(r, A) > R(0)));
            sides[fid].push_back(id);
            CFvmFace<R>& F = f.face(fid);
            bool own = F.controlVolumeId() == id;
            c.ensure("the face knows its control volume", c.is(own || (F.hasPair() && F.neighborId(id) != id && F.controlVolumeId(id) == id)));
            F.calculateArea();
            V<R> B = spec::v<R>(F.normal()) * F.area();
            c.ensure("the face of the mesh points away from its owner", eqv(c, A, own ? B : B * R(-1), 10));
        }
        c.ensure("the faces close the volume", eqv(c, sum, v3(R(0), R(0), R(0)), 10));
        c.ensure("surface", c.near(v.surfaceArea(), total, 1e-7));
    }
    for (int i = 0; i < f.nbFaces(); ++i)
    {
        int id = f.faceId(i);
        std::vector<int>& w = sides[id];
        CFvmFace<R>& F = f.face(id);
        c.ensure("a face lies between two control volumes or on the boundary", c.is(f.faceIndex(id) == i && int(w.size()) == (F.hasPair() ? 2 : 1)));
        if (w.size() == 2) c.ensure("and knows both", c.is(F.neighborId(w[0]) == w[1] && F.neighborId(w[1]) == w[0]));
    }
}
RUNTIME_CONTRACT("V01", clipped_control_volume, "CFvmControlVolume::clip/setClipped/calculateOriginalVolume, measures while clipped", "generated tetrahedra, boxes and prisms, generated normals and volume fractions")
{
    typedef typename C::R R;
    Solid<R> s(c.choose("seed", 1 << 20), 2, true, 1);
    CFvmMesh<R> f(s.mesh);
    CFvmControlVolume<R>& v = f.controlVolume(f.controlVolumeId(s.g() % f.nbControlVolumes()));
    V<R> n = v3(s.U(-1, 1), s.U(-1, 1), s.U(-1, 1));
    if (n2(n) < R(0.05)) return;
    n = n * (R(1) / len(n));
    R want = s.U(0.05, 0.95), got = R(-1);
    if (s.g() % 2) v.calculateVolume();
    v.calculateOriginalVolume();
    R whole = v.originalVolume();
    int it = 0, before = v.nbFaces();
    v.setClippedFaceId(999);
    CGeoNormal<R> N;
    N << n.x, n.y, n.z;
    v.clip(N, want, got, it, 200, R(1e-9), R(1e-9));
    c.ensure("clipped", c.is(v.isClipped() && v.clippedFaceId() == 999 && v.containsFace(999)));
    v.calculateVolume(true);
    c.ensure("the clipped part has the fraction asked for", c.near(v.volume() / whole, want, 1e-4));
    c.ensure("the fraction reported is that", c.near(got, want, 1e-4));
    V<R> sum = v3(R(0), R(0), R(0));
    for (int i = 0; i < v.nbFaces(); ++i) sum = sum + vecArea(v, v.faceId(i));
    c.ensure("the clipped part is closed", eqv(c, sum, v3(R(0), R(0), R(0)), 10));
    v.calculateFaceCentroid(999);
    c.ensure("the cut is normal to the direction", c.near(len(cross(spec::v<R>(v.faceNormal(999)), n)), R(0), 1e-5));
    v.clippedFace().calculateArea();
    c.ensure("the cut is the face given", c.near(v.clippedFace().area(), v.faceArea(999), 1e-6));
    v.setClipped(false);
    v.calculateVolume(true);
    c.ensure("the whole is still there", c.is(v.nbFaces() == before) && c.near(v.volume(), whole, 1e-9));
}
RUNTIME_CONTRACT("V01", boundary_search, "CFvmMeshSearch::set/build/findClosestBoundaryFaces", "generated meshes, points and distances")
{
    typedef typename C::R R;
    Solid<R> s(c.choose("seed", 1 << 20), 3, true);
    CFvmMesh<R> f(s.mesh);
    CFvmMeshSearch<R> search;
    if (s.g() % 3 == 0)
    {
        search.set(f);
        search.build();
    }
    search.set(f);
    search.build();
    for (int k = 0; k < 4; ++k)
    {
        V<R> p = s.o + s.a[0] * s.U(-0.2, 1.2) + s.a[1] * s.U(-0.2, 1.2) + s.a[2] * s.U(-0.2, 1.2);
        R r = s.U(0.05, 1.5);
        std::vector<Integer> ids(3, 77);
        CGeoCoordinate<R> q = P(p);
        search.findClosestBoundaryFaces(q, r, ids);
        std::set<Integer> found(ids.begin(), ids.end());
        c.ensure("each face once", c.is(found.size() == ids.size()));
        for (int i = 0; i < f.nbFaces(); ++i)
        {
            CFvmFace<R>& F = f.face(f.faceId(i));
            V<R> m = v3(R(0), R(0), R(0));
            int n = F.polyline().nbVertices() - 1;
            for (int j = 0; j < n; ++j) m = m + v<R>(F.polyline().vertex(j)) * (R(1) / R(n));
            R d = len(m - p);
            if (std::fabs(d - r) < R(1e-9)) continue;
            c.ensure("the boundary faces within the distance, no others", c.is(found.count(f.faceId(i)) == (!F.hasPair() && d < r)));
        }
    }
}
