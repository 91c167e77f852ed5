#include "geo_common.hpp"
#include <fstream>
#include <iomanip>
#include <map>
#include <unistd.h>
#include "PdeField.hpp"
using namespace ENigMA::pde;
using namespace ENigMA::mesh;
using namespace ENigMA::geometry;
#include "PosGmsh.hpp"
#include "PosGnuplot.hpp"
#include "PosQuickMesh.hpp"
#include "PosVtk.hpp"
using namespace spec;
using namespace ENigMA::post;

namespace
{
    struct Scratch {
        char dir[32];
        std::string file;
        Scratch()
        {
            strcpy(dir, "/tmp/ecv_pos_XXXXXX");
            if (!mkdtemp(dir)) throw std::runtime_error("mkdtemp");
            file = std::string(dir) + "/a";
        }
        ~Scratch() { unlink(file.c_str()); rmdir(dir); }
        std::string missing() { return std::string(dir) + "/none/a"; }
    };
    struct Cell {
        EElementType type;
        std::vector<int> at; // positions of its nodes
    };
    int corners(EElementType t) { return t == ET_NODE ? 1 : t == ET_BEAM ? 2 : t == ET_TRIANGLE ? 3 : t == ET_QUADRILATERAL || t == ET_TETRAHEDRON ? 4 : t == ET_HEXAHEDRON ? 8 : 6; }
    // any nodes, any elements over them, any ids
    struct Stuff {
        std::vector<std::array<double, 3>> nodes;
        std::vector<Cell> cells;
        std::vector<double> u;
        std::vector<int> nodeIds, cellIds;
        int dofs;
        bool atNodes;
        std::mt19937 g;
        CPdeField<double> field;
        double value()
        {
            double x = g() / 4294967296.0;
            switch (g() % 5) { case 0: return double(int(g() % 9) - 4); case 1: return x * 1e-7; case 2: return -x * 1e9; default: return 2 * x - 1; }
        }
        Stuff(int seed, const std::vector<EElementType>& types, int maxDofs) : g(seed)
        {
            int n = 1 + g() % 12, m = g() % 10;
            bool plain = g() % 4 == 0;
            std::vector<int> ids(3 * std::max(n, m));
            for (unsigned i = 0; i < ids.size(); ++i) ids[i] = i;
            if (!plain) std::shuffle(ids.begin(), ids.end(), g);
            CMshMesh<double> mesh;
            for (int i = 0; i < n; ++i)
            {
                nodes.push_back({ value(), value(), value() });
                nodeIds.push_back(ids[i]);
                CMshNode<double> a(nodes[i][0], nodes[i][1], nodes[i][2]);
                mesh.addNode(ids[i], a);
            }
            if (!plain) std::shuffle(ids.begin(), ids.end(), g);
            for (int i = 0; i < m; ++i)
            {
                Cell k;
                k.type = types[g() % types.size()];
                CMshElement<double> e(k.type);
                for (int j = 0; j < corners(k.type); ++j) k.at.push_back(g() % n), e.addNodeId(nodeIds[k.at.back()]);
                mesh.addElement(ids[i], e);
                cellIds.push_back(ids[i]), cells.push_back(k);
            }
            dofs = 1 + g() % maxDofs;
            atNodes = g() % 2;
            field.setMesh(mesh);
            field.setNbDofs(dofs);
            field.setDiscretLocation(atNodes ? DL_NODE : DL_ELEMENT_CENTER);
            int size = (atNodes ? n : m) * dofs;
            field.u.resize(size);
            for (int i = 0; i < size; ++i) u.push_back(value()), field.u(i) = u.back();
        }
    };
    bool same(double a, double b) { return std::fabs(a - b) <= 1e-14 * (std::fabs(a) + std::fabs(b)); }
    bool sameMesh(CMshMesh<double>& m, const std::vector<std::array<double, 3>>& nodes, const std::vector<Cell>& cells)
    {
        if (m.nbNodes() != (int)nodes.size() || m.nbElements() != (int)cells.size()) return false;
        for (unsigned i = 0; i < nodes.size(); ++i)
        {
            CMshNode<double>& a = m.node(m.nodeId(i));
            if (!same(a.x(), nodes[i][0]) || !same(a.y(), nodes[i][1]) || !same(a.z(), nodes[i][2])) return false;
        }
        for (unsigned i = 0; i < cells.size(); ++i)
        {
            CMshElement<double>& e = m.element(m.elementId(i));
            if (e.elementType() != cells[i].type || e.nbNodeIds() != (int)cells[i].at.size()) return false;
            for (unsigned j = 0; j < cells[i].at.size(); ++j) if (m.nodeIndex(e.nodeId(j)) != cells[i].at[j]) return false;
        }
        return true;
    }
    const std::vector<EElementType> solid = { ET_BEAM, ET_TRIANGLE, ET_QUADRILATERAL, ET_TETRAHEDRON, ET_HEXAHEDRON, ET_TRIANGULAR_PRISM };
    // the words of a file after a line
    bool skipTo(std::ifstream& f, const std::string& line)
    {
        std::string s;
        while (std::getline(f, s)) if (s == line) return true;
        return false;
    }
}

RUNTIME_CONTRACT("D01", gmsh_round_trip, "CPosGmsh::save, load", "generated meshes of up to 12 nodes and 10 elements of all types with any ids, up to three values each")
{
    Stuff s(c.choose("seed", 1 << 20), solid, 3), junk(s.g(), solid, 1);
    Scratch d;
    CPosGmsh<double> p;
    c.ensure("says that it cannot write", c.is(!p.save(s.field, d.missing(), "view")));
    c.ensure("says that it cannot read", c.is(!p.load(s.field, d.missing())));
    c.ensure("says that it wrote", c.is(p.save(s.field, d.file, "view")));
    c.ensure("saving leaves the field", c.is(sameMesh(s.field.mesh(), s.nodes, s.cells)));
    c.ensure("says that it read", c.is(p.load(junk.field, d.file)));
    c.ensure("what was saved is loaded, and nothing else is there", c.is(sameMesh(junk.field.mesh(), s.nodes, s.cells)));
    if (s.u.empty()) return;
    std::ifstream f(d.file);
    std::string w;
    bool ok = skipTo(f, s.atNodes ? "$NodeData" : "$ElementData");
    int strings = 0, reals = 0, ints = 0, step = -1, dofs = 0, rows = 0;
    ok = ok && (f >> strings) && strings == 1 && std::getline(f, w) && std::getline(f, w) && w.find("view") != std::string::npos && (f >> reals) && reals == 1 && (f >> w) && (f >> ints) && ints == 3 && (f >> step >> dofs >> rows) && dofs == s.dofs && rows == (int)s.u.size() / s.dofs;
    c.ensure("the head of the values", c.is(ok));
    for (int i = 0; i < rows && ok; ++i)
    {
        int n = 0;
        ok = (f >> n) && n == i + 1;
        for (int k = 0; k < dofs && ok; ++k) { double v = 0; ok = (f >> v) && same(v, s.u[i * dofs + k]); }
    }
    c.ensure("every value stands with the number of its node or element", c.is(ok));
    c.ensure("the end of the values", c.is((f >> w) && w == (s.atNodes ? "$EndNodeData" : "$EndElementData")));
}
RUNTIME_CONTRACT("D01", gmsh_load, "CPosGmsh::load", "generated files with gaps in the numbers, tags, other sections and elements of other types")
{
    Stuff s(c.choose("seed", 1 << 20), solid, 1), junk(s.g(), solid, 1);
    std::mt19937& g = s.g;
    Scratch d;
    std::ofstream f(d.file);
    f << std::setprecision(17);
    if (g() % 2) f << "$Comments\nNodes and Elements $ 3 1 2\n$EndComments\n";
    f << "$MeshFormat\n2.2 0 8\n$EndMeshFormat\n";
    if (g() % 2) f << "$PhysicalNames\n2\n1 1 \"inlet\"\n2 7 \"wall\"\n$EndPhysicalNames\n";
    f << "$Nodes\n" << s.nodes.size() << "\n";
    for (unsigned i = 0; i < s.nodes.size(); ++i) f << s.nodeIds[i] + 1 << " " << s.nodes[i][0] << " " << s.nodes[i][1] << " " << s.nodes[i][2] << "\n";
    f << "$EndNodes\n";
    std::vector<std::string> other;
    unsigned extra = g() % 3, total = s.cells.size() + extra;
    std::vector<int> order(total);
    for (unsigned i = 0; i < total; ++i) order[i] = i < s.cells.size();
    std::shuffle(order.begin(), order.end(), g);
    f << "$Elements\n" << total << "\n";
    int next = 500, at = 0;
    for (int o : order)
    {
        int tags = g() % 4;
        if (o)
        {
            Cell& k = s.cells[at];
            f << s.cellIds[at++] + 1 << " " << (k.type == ET_BEAM ? 1 : k.type == ET_TRIANGLE ? 2 : k.type == ET_QUADRILATERAL ? 3 : k.type == ET_TETRAHEDRON ? 4 : k.type == ET_HEXAHEDRON ? 5 : 6) << " " << tags;
            for (int i = 0; i < tags; ++i) f << " " << g() % 20;
            for (int q : k.at) f << " " << s.nodeIds[q] + 1;
        }
        else
        {
            int t = g() % 3; // a point, a line of three nodes, a triangle of six nodes
            f << next++ << " " << (t == 0 ? 15 : t == 1 ? 8 : 9) << " " << tags;
            for (int i = 0; i < tags; ++i) f << " " << g() % 20;
            for (int i = 0; i < (t == 0 ? 1 : t == 1 ? 3 : 6); ++i) f << " " << s.nodeIds[g() % s.nodes.size()] + 1;
        }
        f << "\n";
    }
    f << "$EndElements\n";
    f.close();
    CPosGmsh<double> p;
    c.ensure("says that it read", c.is(p.load(junk.field, d.file)));
    CMshMesh<double>& m = junk.field.mesh();
    c.ensure("the nodes and the elements of known types are loaded in order", c.is(sameMesh(m, s.nodes, s.cells)));
    bool ids = m.nbNodes() == (int)s.nodes.size() && m.nbElements() == (int)s.cells.size();
    for (unsigned i = 0; i < s.nodes.size() && ids; ++i) ids = m.nodeId(i) == s.nodeIds[i];
    for (unsigned i = 0; i < s.cells.size() && ids; ++i) ids = m.elementId(i) == s.cellIds[i];
    c.ensure("under the numbers of the file, from zero", c.is(ids));
}
RUNTIME_CONTRACT("D01", gnuplot_save, "CPosGnuplot::save", "generated meshes of up to 12 nodes and 10 elements of all types with any ids")
{
    Stuff s(c.choose("seed", 1 << 20), solid, 1);
    Scratch d;
    CPosGnuplot<double> p;
    CMshMesh<double>& m = s.field.mesh();
    m.calculateElementCentroid();
    c.ensure("says that it cannot write", c.is(!p.save(s.field, d.missing())));
    c.ensure("says that it wrote", c.is(p.save(s.field, d.file)));
    std::ifstream f(d.file);
    std::string w;
    bool ok = bool(std::getline(f, w)) && w == "# id x y z u";
    for (unsigned i = 0; i < s.u.size() && ok; ++i)
    {
        double x, y, z, v;
        int n;
        ok = bool(f >> n >> x >> y >> z >> v);
        if (s.atNodes) ok = ok && n == s.nodeIds[i] + 1 && same(x, s.nodes[i][0]) && same(y, s.nodes[i][1]) && same(z, s.nodes[i][2]);
        else
        {
            double a = 0, b = 0, e = 0, big = 0;
            for (int q : s.cells[i].at) a += s.nodes[q][0], b += s.nodes[q][1], e += s.nodes[q][2], big = std::max({ big, std::fabs(s.nodes[q][0]), std::fabs(s.nodes[q][1]), std::fabs(s.nodes[q][2]) });
            CGeoCoordinate<double> k = m.elementCentroid(s.cellIds[i]);
            ok = ok && n == s.cellIds[i] + 1 && same(x, k.x()) && same(y, k.y()) && same(z, k.z());
            int t = s.cells[i].at.size();
            ok = ok && std::fabs(x - a / t) + std::fabs(y - b / t) + std::fabs(z - e / t) <= 1e-12 * (1 + big);
        }
        ok = ok && same(v, s.u[i]);
    }
    c.ensure("a line for every value, with its number and place", c.is(ok && !(f >> w)));
}
RUNTIME_CONTRACT("D01", vtk_save, "CPosVtk::save", "generated meshes of up to 12 nodes and 10 elements of all types with any ids")
{
    Stuff s(c.choose("seed", 1 << 20), solid, 1);
    Scratch d;
    CPosVtk<double> p;
    c.ensure("says that it cannot write", c.is(!p.save(s.field, d.missing())));
    c.ensure("says that it wrote", c.is(p.save(s.field, d.file)));
    std::ifstream f(d.file);
    std::string w;
    int n = 0, m = 0, size = 0, total = 0;
    bool ok = skipTo(f, "DATASET UNSTRUCTURED_GRID") && (f >> w >> n) && w == "POINTS" && n == (int)s.nodes.size() && (f >> w);
    for (int i = 0; i < n && ok; ++i) { double x, y, z; ok = (f >> x >> y >> z) && same(x, s.nodes[i][0]) && same(y, s.nodes[i][1]) && same(z, s.nodes[i][2]); }
    c.ensure("the points", c.is(ok));
    ok = ok && (f >> w >> m >> size) && w == "CELLS" && m == (int)s.cells.size();
    for (int i = 0; i < m && ok; ++i)
    {
        int k = 0;
        std::vector<int> at, want = s.cells[i].at;
        ok = (f >> k) && k == (int)want.size();
        for (int j = 0; j < k && ok; ++j) { int q; ok = bool(f >> q); at.push_back(q); }
        if (s.cells[i].type == ET_TETRAHEDRON) std::sort(at.begin(), at.end()), std::sort(want.begin(), want.end()); // the file turns them around
        ok = ok && at == want;
        total += k + 1;
    }
    c.ensure("the cells, by positions of their nodes", c.is(ok && total == size));
    ok = ok && (f >> w >> m) && w == "CELL_TYPES" && m == (int)s.cells.size();
    for (int i = 0; i < m && ok; ++i)
    {
        int t = 0;
        EElementType e = s.cells[i].type;
        ok = (f >> t) && t == (e == ET_BEAM ? 3 : e == ET_TRIANGLE ? 5 : e == ET_QUADRILATERAL ? 9 : e == ET_TETRAHEDRON ? 10 : e == ET_HEXAHEDRON ? 12 : 13);
    }
    c.ensure("the types of the cells", c.is(ok));
    if (!s.atNodes) return; // values at elements are not written
    ok = ok && (f >> w >> n) && w == "POINT_DATA" && n == (int)s.nodes.size() && skipTo(f, "LOOKUP_TABLE default");
    for (int i = 0; i < n && ok; ++i) { double v; ok = (f >> v) && same(v, s.u[i]); }
    c.ensure("the values at the points", c.is(ok && !(f >> w)));
}
RUNTIME_CONTRACT("D01", quickmesh_round_trip, "CPosQuickMesh::save, load", "generated meshes of up to 12 nodes and 10 tetrahedra with any ids")
{
    Stuff s(c.choose("seed", 1 << 20), { ET_TETRAHEDRON }, 1);
    Scratch d;
    CPosQuickMesh<double> p;
    CPdeField<double> r;
    c.ensure("says that it cannot write", c.is(!p.save(s.field, d.missing())));
    c.ensure("says that it cannot read", c.is(!p.load(r, d.missing())));
    c.ensure("says that it wrote", c.is(p.save(s.field, d.file)));
    c.ensure("says that it read", c.is(p.load(r, d.file)));
    c.ensure("what was saved is loaded", c.is(sameMesh(r.mesh(), s.nodes, s.cells)));
}
