R3 = ["inputs"]
prop("G01", "Area, unit normal and centroid of triangles and quadrilaterals",
     "For every non-degenerate triangle, and every quadrilateral whose diagonals span a plane, the area times the unit normal equals half the cross product of two edges (of the two diagonals for a quadrilateral), the normal has unit length and follows the right-hand rule of the vertex order, and the centroid is the vertex average; collinear triangles have zero area. Rotating the vertex list changes nothing, inverting a triangle flips only the normal, splitting a planar convex quadrilateral gives two triangles of the same orientation whose areas add up. After a reset, or when recalculation is requested, all measures follow the current vertices.",
     R3, "all vertex coordinates (exact reals), all reuse histories of one object of length two",
     "The tests use a handful of axis-aligned shapes; the identity must hold for every placement in space.",
     ["geometry/GeoTriangle_Imp.hpp", "geometry/GeoQuadrilateral_Imp.hpp", "geometry/GeoArea_Imp.hpp"],
     [("CGeoTriangle::calculateNormal/calculateArea/calculateCentroid", "geometry/GeoTriangle_Imp.hpp"), ("CGeoQuadrilateral::calculateArea/decimate", "geometry/GeoQuadrilateral_Imp.hpp")],
     "every obligation discharged over exact reals")
prop("G02", "Volume, surface and decomposition of tetrahedra, prisms and hexahedra",
     "The volume of a tetrahedron equals the determinant of its edge vectors over six with the sign of its orientation, prisms and hexahedra that are affine images of the unit cell have the determinant-scaled volume, and splitting such a cell into tetrahedra gives pieces whose volumes add up to it with none inverted. The tetrahedron's surface area is the sum of its four face areas and its centroid the vertex average. After a reset, or when recalculation is requested, the measures follow the current vertices.",
     R3, "all vertex coordinates (exact reals) for tetrahedra, all affine images of the unit prism and cube",
     "The tests use unit cells; sign and decomposition must be right for every orientation and shear.",
     ["geometry/GeoTetrahedron_Imp.hpp", "geometry/GeoTriangularPrism_Imp.hpp", "geometry/GeoHexahedron_Imp.hpp", "geometry/GeoVolume_Imp.hpp"],
     [("calculateVolume/calculateSurfaceArea/calculateCentroid/decimate/reset", "geometry/GeoTetrahedron_Imp.hpp")],
     "every obligation discharged over exact reals")
prop("G03", "Lines, planes, distances, intersections, angles and rotations",
     "A line keeps its direction equal to end minus start under every setter and inversion; distances from a point to a plane or a segment and between two non-parallel segments are the true minimal distances and the returned points realise them; crossing segments, and segments whose ends lie on different sides of a plane, intersect in the crossing point and others do not. Clipping a segment with a plane keeps exactly the part behind the plane. The angle between two vectors is symmetric, in [0, pi] and has the right cosine, and rotating a vector turns it about the z axis by the given angle.",
     R3, "all end points, planes, points and angles (exact reals)",
     "The tests use axis-aligned lines in a few positions.",
     ["geometry/GeoLine_Imp.hpp", "geometry/GeoPlane_Imp.hpp", "geometry/GeoVector_Imp.hpp"],
     [("CGeoLine::distance/intersects/clip", "geometry/GeoLine_Imp.hpp"), ("CGeoPlane::distance", "geometry/GeoPlane_Imp.hpp"), ("CGeoVector::angle/rotate", "geometry/GeoVector_Imp.hpp")],
     "proof except segment-segment optimality on the second segment and segment-segment crossing, which are bounded (generated inputs)")
prop("G04", "Containment in, distance to and intersection with triangles, quads, tetrahedra",
     "A triangle, a planar convex quadrilateral and a positively oriented tetrahedron contain exactly the points (of their plane, for the flat shapes) that are convex combinations of their vertices, up to the tolerance, and a triangle reports its vertices as such. The distance from a point to a triangle is the minimum over the triangle and the returned point realises it. A triangle meets a transversal line exactly when the crossing point is inside, in that point, and two triangles in non-parallel planes intersect exactly when they have a common point, whichever is asked.",
     R3, "all vertices and points (exact reals); generated inputs for distance and intersection",
     "The tests probe a few points of one or two shapes.",
     ["geometry/GeoTriangle_Imp.hpp", "geometry/GeoQuadrilateral_Imp.hpp", "geometry/GeoTetrahedron_Imp.hpp"],
     [("contains/distance/intersects", "geometry/GeoTriangle_Imp.hpp"), ("contains", "geometry/GeoTetrahedron_Imp.hpp"), ("contains", "geometry/GeoQuadrilateral_Imp.hpp")],
     "containment proved over exact reals; distance, line and triangle intersection bounded (generated inputs against an independent oracle)")
prop("G05", "Bounding boxes are exact under add, contains, intersects, grow, shrink",
     "A bounding box built from points has the componentwise minimum and maximum as corners, starting afresh after a reset. It contains exactly the points and the boxes that lie within the tolerance of it, two boxes intersect exactly when their intervals overlap on every axis (symmetrically), growing and shrinking move every side by the given amount, and an empty box contains and meets nothing. The boxes of triangles and tetrahedra are the tight boxes of their vertices.",
     R3, "all boxes, points, tolerances (exact reals); any number of points by the inductive step",
     "The tests add a few points; the order and sign combinations are not enumerated.",
     ["geometry/GeoBoundingBox_Imp.hpp", "geometry/GeoTriangle_Imp.hpp", "geometry/GeoTetrahedron_Imp.hpp"],
     [("addCoordinate/contains/intersects/grow/shrink", "geometry/GeoBoundingBox_Imp.hpp")],
     "every obligation discharged over exact reals")
prop("G06", "Circles and spheres: circumscription, measures, boxes, containment",
     "The circle through three non-collinear points of a plane z = constant and the sphere through four non-coplanar points have all given points at distance radius from the center; degenerate points give radius zero. Area, surface, volume, centroid and bounding box follow from center and radius, and containment holds exactly for the points within the radius plus tolerance.",
     R3, "all points, centers, radii and tolerances (exact reals)",
     "The tests use one circle and one sphere in special position.",
     ["geometry/GeoCircle_Imp.hpp", "geometry/GeoSphere_Imp.hpp"],
     [("circumscribing constructors, calculate*, contains", "geometry/GeoSphere_Imp.hpp"), ("circumscribing constructor", "geometry/GeoCircle_Imp.hpp")],
     "every obligation discharged over exact reals")
prop("G07", "Polylines and convex polygons: length, closing, sorting, area, clipping",
     "A polyline has one segment less than vertices, joins consecutive vertices, its length is the sum of its segments, inverting reverses it, closing is idempotent and makes it closed; sorting the lines of a triangle in any order and direction chains them into a closed polyline. For a convex planar polygon the area times the unit normal equals the vector area, the centroid is the vertex average, and triangulation gives n-2 triangles that cover it. Clipping by a plane that avoids the vertices keeps exactly the part behind the plane: the two sides add up to the polygon.",
     R3, "all coordinates for polylines, triangles and planar quadrilaterals (exact reals); generated convex polygons with three to seven corners in any plane",
     "The tests clip squares with axis-aligned planes.",
     ["geometry/GeoPolygon_Imp.hpp", "geometry/GeoPolyline_Imp.hpp", "geometry/GeoVertexList_Imp.hpp", "geometry/GeoLineList_Imp.hpp", "geometry/GeoLine_Imp.hpp"],
     [("calculateArea/clip/triangulate", "geometry/GeoPolygon_Imp.hpp"), ("set/close/clip", "geometry/GeoPolyline_Imp.hpp"), ("sort", "geometry/GeoLineList_Imp.hpp")],
     "polylines, triangles and quadrilaterals proved over exact reals; larger polygons and arbitrary cutting planes bounded (generated inputs)")
prop("G08", "Polyhedra: closed surface, volume, cutting by planes, volume fractions",
     "The polyhedron built from a tetrahedron, prism or hexahedron has a closed outward surface and the volume, surface area, centroid and bounding box of the cell. Clipping or cutting with a plane that avoids the vertices yields closed parts on the stated sides whose volumes add up to the whole, with the cap under the given id. Clipping to a requested volume fraction delivers that share and reports it.",
     R3, "all positively oriented tetrahedra (exact reals) for the surface; generated affine images of the unit cells and planes for volumes, clipping and fractions",
     "The tests clip a unit cube a few times.",
     ["geometry/GeoPolyhedron_Imp.hpp", "geometry/GeoPolygon_Imp.hpp", "geometry/GeoPolyline_Imp.hpp", "geometry/GeoLineList_Imp.hpp"],
     [("constructors, clip, close, cut, calculateVolume", "geometry/GeoPolyhedron_Imp.hpp")],
     "construction from a tetrahedron proved over exact reals; the rest bounded (generated inputs)")

prop("G09", "Convex hull: corners among the vertices, around all of them, in any plane",
     "The convex hull of vertices that lie in a plane but not on a line is a polygon whose corners are given vertices, which turns one way and has every given vertex inside or on its border, whatever the orientation of the plane, the order of the vertices, and whether some of them coincide or lie on a line. Setting new vertices replaces the hull; fewer than three have none.",
     R3, "one or two vertices anywhere around a triangle (exact reals); generated sets of 3 to 24 vertices in any plane",
     "The test counts the corners of one square in the plane z = 0.",
     ["geometry/GeoConvexHull_Imp.hpp"],
     [("set/vertex/addVertex/reset", "geometry/GeoConvexHull_Imp.hpp")],
     "bounded numbers of vertices with symbolic positions (every obligation discharged), larger sets by generated inputs", level="exploration")
prop("S01", "Spatial search structures answer exactly the geometric query",
     "For every stored set and query, the hash grid and the octree report each point within the tolerance of the query exactly once and no other, the interval tree and the R-tree report exactly the stored boxes that meet the query box enlarged by the tolerance, under the ids they were added with. Removed boxes are no longer reported, a reset empties the structure, and it can be filled and built again.",
     R3, "any points, boxes, query and tolerance on an axis for the grid (one free point of ten) and the interval tree (four boxes, one removal), exact reals; generated clouds and operation histories for all four structures",
     "The tests store up to a dozen objects and ask one or two queries; whether a neighbour falls in another cell or subtree depends on the positions.",
     ["geometry/GeoHashGrid_Imp.hpp", "geometry/GeoAdtree_Imp.hpp", "geometry/GeoOctree_Imp.hpp", "geometry/GeoRtree_Imp.hpp", "geometry/GeoContainer_Imp.hpp"],
     [("build/find", "geometry/GeoHashGrid_Imp.hpp"), ("insert/remove/getIntersecting", "geometry/GeoAdtree_Imp.hpp"), ("createRecursive/findRecursive", "geometry/GeoOctree_Imp.hpp"), ("find", "geometry/GeoRtree_Imp.hpp")],
     "bounded: symbolic coordinates with a fixed number of objects, and generated histories against brute force", level="exploration")

prop("M01", "Meshes stay consistent through every history of edits",
     "After any sequence of adding and removing nodes, faces and elements, merging meshes, renumbering, rebuilding the indices, inverting, translating, copying and resetting, the mesh lists exactly the nodes, faces and elements it holds, each once, in the order of its index; looking an index up and looking an id up agree, the next free ids are unused, an added mesh keeps its own connectivity (elements, faces, pairs) shifted to fresh ids, renumbering keeps the connectivity and only changes the numbers, a copy equals the original, and a reset mesh is empty.",
     ["inputs", "histories"], "generated histories of up to 30 edits; all short histories of the basic edits on a small mesh",
     "The tests add a handful of nodes and elements and never remove, renumber and add again.",
     ["mesh/MshMesh_Imp.hpp", "mesh/MshMesh.hpp", "mesh/MshElement_Imp.hpp"],
     [("add*/remove*/rebuildIndices/renumber/addMesh/copy", "mesh/MshMesh_Imp.hpp")],
     "bounded: every short history enumerated, longer ones generated, against a reference model", level="exploration")
prop("M02", "Faces, pairs, boundary, centroids and queries follow the mesh",
     "The faces of a line, triangle, quadrilateral, tetrahedron, prism or hexahedron element are exactly its facets, each with its outward orientation, and inverting an element turns it over. Generating faces pairs exactly the facets that two elements share, whatever the tolerance and rounding, each pair pointing at each other; the boundary extracted consists of the unpaired faces, the number of boundary faces counts them, the mesh is reported open exactly when there are such faces, centroids are vertex averages, and queries for the elements sharing nodes return exactly those elements.",
     ["inputs"], "all node numberings of the element types; generated meshes with shuffled numbering and rounding",
     "The tests count faces of two or three regular meshes.",
     ["mesh/MshElement_Imp.hpp", "mesh/MshMesh_Imp.hpp", "mesh/MshMeshQuery_Imp.hpp", "mesh/MshCheckMesh_Imp.hpp"],
     [("generateFaces/invert", "mesh/MshElement_Imp.hpp"), ("generateFaces/extractBoundary/calculate*Centroid", "mesh/MshMesh_Imp.hpp"), ("elementsSharingNode", "mesh/MshMeshQuery_Imp.hpp"), ("checkOpen", "mesh/MshCheckMesh_Imp.hpp")],
     "element faces proved; meshes bounded (generated inputs)")
prop("M03", "Regular and extruded meshes tile the given line, quad, hexahedron or surface",
     "Meshing a line, a quadrilateral or a hexahedron into nu, nu x nv or nu x nv x nw cells (or into triangles or tetrahedra on request) gives exactly the asked number of elements, all positively oriented, sharing nodes and meeting facet to facet, with the nodes at the interpolated positions, so that their measures add up to the whole. Extruding a surface mesh gives prisms over triangles and hexahedra over quadrilaterals, one layer above the other, that fill the extruded volume without being twisted or inverted.",
     ["inputs"], "symbolic corners for up to 8, 4x4 and 3x3x3 cells; generated larger meshes and extrusions",
     "The tests mesh unit shapes and count elements.",
     ["mesh/MshBasicMesher_Imp.hpp", "mesh/MshExtrudedMesher_Imp.hpp"],
     [("generate", "mesh/MshBasicMesher_Imp.hpp"), ("generate", "mesh/MshExtrudedMesher_Imp.hpp")],
     "bounded: symbolic corners with fixed numbers of cells, and generated inputs", level="exploration")
prop("M04", "Merging, scaling, bounding box and quality of meshes and elements",
     "Merging nodes within a tolerance identifies exactly the nodes that coincide, also along chains and for any numbering, and leaves shape and connectivity unchanged; scaling and translating move every node accordingly and the bounding box is the tight one. The quality of a triangle, quadrilateral or tetrahedron lies between zero and one, is one for the regular shape, zero for a degenerate one and does not depend on scale, position or the starting vertex.",
     ["inputs"], "all quadrilaterals and boxes (exact reals); generated meshes, triangles and tetrahedra",
     "The tests merge one pair of duplicate nodes and compute no quality.",
     ["mesh/MshMesh_Imp.hpp", "mesh/MshTriangle_Imp.hpp", "mesh/MshQuadrilateral_Imp.hpp", "mesh/MshTetrahedron_Imp.hpp"],
     [("mergeNodes/scale/boundingBox", "mesh/MshMesh_Imp.hpp"), ("calculateQuality", "mesh/MshQuadrilateral_Imp.hpp")],
     "quadrilateral quality proved over exact reals; the rest bounded (generated inputs)")
prop("M05", "Advancing-front meshes tile the domain given by their boundary",
     "Whenever the triangle mesher or the tetrahedron mesher reports a mesh of a closed boundary (polygons, with or without a hole, with or without interior points; triangulated boxes), and whenever the quadrilateral mesher meshes a rectangle, all elements have the stated shape and positive measure, meet facet to facet with one element on each side, their free facets are exactly the given boundary, and their measures add up to the domain; flipping edges and relaxing nodes keep all that. Regular polygons, stars and rectangles do get a mesh, also when the mesher is used again.",
     ["inputs"], "generated polygons with three to ten corners, rectangles up to 12x12 cells, boxes up to 3x3x3 cells",
     "The tests count the elements of one or two domains; overlaps, holes and flipped elements would go unnoticed.",
     ["mesh/MshTriangleMesher_Imp.hpp", "mesh/MshQuadrilateralMesher_Imp.hpp", "mesh/MshTetrahedronMesher_Imp.hpp"],
     [("remesh/generate/flipEdges/relaxNodes", "mesh/MshTriangleMesher_Imp.hpp"), ("generate/flipEdges23/flipEdges32/relaxNodes", "mesh/MshTetrahedronMesher_Imp.hpp"), ("generate", "mesh/MshQuadrilateralMesher_Imp.hpp")],
     "bounded: generated inputs, every produced mesh checked against its boundary", level="exploration")
prop("I01", "Gauss rules integrate the polynomials of their degree exactly",
     "Every quadrature rule offered for beams, triangles, quadrilaterals, prisms and hexahedra has weights adding up to the measure the library uses for the reference cell and integrates every polynomial of the rule's degree exactly: n-point tensor rules up to degree 2n-1 in each coordinate, the triangle rules with one, three, four and seven points up to degree 1, 2, 3 and 5.",
     R3, "every polynomial of the rule's degree (symbolic coefficients)",
     "A test that sums the weights, or uses a linear integrand, accepts misplaced points.",
     ["integration/IntBeam_Imp.hpp", "integration/IntTriangle_Imp.hpp", "integration/IntQuadrilateral_Imp.hpp", "integration/IntTriangularPrism_Imp.hpp", "integration/IntHexahedron_Imp.hpp"],
     [("setGaussPoints/setBarycentricGaussPoints", "integration/IntHexahedron_Imp.hpp")],
     "every obligation discharged over exact reals (rule constants up to 1e-7)")
prop("F01", "FEM diffusion, mass and load matrices integrate linear fields exactly",
     "For beams, triangles, quadrilaterals, tetrahedra, affine prisms and affine hexahedra the diffusion matrix is symmetric, has zero row sums and applied to two linear fields yields minus the measure (times thickness or section) times the product of their gradients, in whatever plane or orientation the element lies; the mass matrix adds up to the measure over the time step and is the consistent one for simplices and parallelograms. Sources on a node or edge add up to the given total, and convection on an edge is the edge mass matrix times the coefficient with the matching load.",
     R3, "all element placements (exact reals), all linear fields",
     "The tests solve one uniform mesh; an error in a single entry or in oblique placement stays invisible.",
     ["fem/FemBeam_Imp.hpp", "fem/FemTriangle_Imp.hpp", "fem/FemQuadrilateral_Imp.hpp", "fem/FemTetrahedron_Imp.hpp", "fem/FemTriangularPrism_Imp.hpp", "fem/FemHexahedron_Imp.hpp"],
     [("rebuild/update/setDiffusionTerm/setTransientTerm", "fem/FemTriangle_Imp.hpp"), ("update", "fem/FemTetrahedron_Imp.hpp"), ("setConvectionOnEdge", "fem/thermal/FemLinearTemperatureTriangle_Imp.hpp")],
     "proved over exact reals; distorted hexahedra bounded (generated cells)")
prop("F02", "Constant strain elements give the linear-elastic stiffness",
     "The stiffness of the constant strain triangle (plane stress) and tetrahedron is symmetric, rigid translations and rotations produce no force, and every affine displacement field has the strain energy of isotropic linear elasticity for the given modulus and Poisson ratio.",
     R3, "all element shapes, elastic constants and affine displacements (exact reals)",
     "The tests compare one element with stored numbers.",
     ["fem/structural/FemConstantStrainTriangle_Imp.hpp", "fem/structural/FemConstantStrainTetrahedron_Imp.hpp"],
     [("update/setDiffusionTerm", "fem/structural/FemConstantStrainTriangle_Imp.hpp"), ("update/setDiffusionTerm", "fem/structural/FemConstantStrainTetrahedron_Imp.hpp")],
     "every obligation discharged over exact reals")
prop("F03", "Flow elements: convection, gradient, diffusion and mass are the exact integrals",
     "On linear triangles (in the plane z=0) and tetrahedra of positive orientation the convective matrix is the integral of N_i u.grad N_j for the linear velocity given at the nodes minus the time step times the streamline term with the mean velocity, the gradient matrices integrate N_i dN_j, and diffusion and mass matrices are the exact integrals.",
     R3, "all placements, velocities and time steps (exact reals)",
     "The tests run a cavity flow and look at one number.",
     ["fem/flow/FemFlowTriangle_Imp.hpp", "fem/flow/FemFlowTetrahedron_Imp.hpp"],
     [("calculateConvectiveTerm/calculateGradientTerm/calculateDiffusiveTerm/calculateTransientTerm", "fem/flow/FemFlowTriangle_Imp.hpp"), ("calculateConvectiveTerm/calculateGradientTerm", "fem/flow/FemFlowTetrahedron_Imp.hpp")],
     "every obligation discharged over exact reals")
prop("F04", "Flow solver: each CBS step satisfies momentum, pressure and correction",
     "The characteristic based split solver starts at rest and without gravity. A step takes every velocity component to the solution of mass over time step, diffusion with the kinematic viscosity and convection with the latest velocities, driven by the old velocity and by gravity as an acceleration, independent of the mesh; the pressure to the solution of its Poisson equation with the divergence of these velocities times density over the time step; and corrects the velocities by the time step over the density times the pressure gradient. Fixed velocities and pressures keep their values. It holds in two and three dimensions whatever the numbering.",
     R3, "generated meshes, states, materials, gravity and fixed values",
     "The only test looks at the largest pressure for one mesh, density and step count, to ten percent.",
     ["solvers/FemCbsSolver_Imp.hpp", "pde/fem/flow/FemFlowOperators_Imp.hpp", "pde/PdeEquation_Imp.hpp"],
     [("calculateVelocityField/calculatePressureField/correctVelocityField/iterate", "solvers/FemCbsSolver_Imp.hpp")],
     "bounded: generated inputs against the weak form assembled independently (the sparse solvers have no symbolic run)", level="exploration")
prop("P01", "System algebra, fixed values, sources and solution of PDE systems",
     "Adding, subtracting and scaling systems acts entry by entry on matrix and right side, and the result is solved by a method valid for it (scaled rows are never treated as symmetric). Imposing fixed values by elimination leaves a system that has exactly the solutions of the original rows of the free unknowns with the fixed unknowns at their values, and stays symmetric if it was; the penalty puts its factor on the diagonal and the scaled value on the right side of the fixed unknowns and touches nothing else; sources are added where they were set. Boundary conditions and materials are found under the key they were stored with. Solving returns the solution of the system for every kind of matrix and the field takes it over.",
     R3, "systems of three or four unknowns with every scalar value, every set of fixed unknowns; generated larger systems",
     "The tests solve a few regular problems; sign, symmetry and numbering slips in other combinations go unseen.",
     ["sle/SleSystem_Imp.hpp", "pde/PdeEquation_Imp.hpp", "pde/PdeField_Imp.hpp"],
     [("operators/solve", "sle/SleSystem_Imp.hpp"), ("setElimination/setPenaltyFactor/setSources/solve", "pde/PdeEquation_Imp.hpp"), ("setFixedValue/setSource/addBC*", "pde/PdeField_Imp.hpp")],
     "bounded sizes with symbolic coefficients (every obligation discharged), solution by generated inputs", level="exploration")
prop("P02", "FEM operators assemble the element matrices at the right unknowns",
     "The FEM operators ddt, laplacian, divergence and gradient of generic, thermal, structural and flow problems return exactly the sum over the elements of the element matrices, scattered to the unknowns of the element's nodes, with convection conditions on edges added once, whatever the numbering of nodes and elements and whatever their order. Solving the assembled diffusion problem reproduces every linear field on any mesh, and a linear field in time is followed by the ddt operator.",
     R3, "two elements sharing nodes with every scalar value in three numberings; generated meshes of up to 64 distorted cells with shuffled numbering",
     "The tests use regular meshes numbered from zero, where ids and indices coincide.",
     ["pde/PdeEquation_Imp.hpp", "pde/fem"],
     [("ddt/laplacian", "pde/fem/thermal"), ("ddt/laplacian/divergence/gradient", "pde/fem/flow"), ("laplacian", "pde/fem/structural")],
     "bounded meshes with symbolic values (every obligation discharged against the element classes), patch test by generated meshes", level="exploration")
prop("H01", "SPH kernels: unit integral, support, gradient and Laplacian weight",
     "Every SPH kernel (cubic spline, Gaussian, quintic, spiky, convex) is its textbook profile times the factor that makes its integral one in one, two and three dimensions, is even, positive inside its support and zero outside; the gradient is the derivative of the profile along the distance (held at the tolerance below it) and the Laplacian weight is the kernel's value times the dimension minus distance times derivative, times the smoothing length; changing the dimension later gives the same as constructing with it.",
     R3, "every distance, direction, smoothing length and dimension (exact reals with exp uninterpreted)",
     "The tests accept factors of two and look at one or two distances.",
     ["sph/SphCubicSpline_Imp.hpp", "sph/SphGaussian_Imp.hpp", "sph/SphQuintic_Imp.hpp", "sph/SphSpiky_Imp.hpp", "sph/SphConvex_Imp.hpp"],
     [("W/gradientW/laplacianW", "sph/SphCubicSpline_Imp.hpp"), ("W/gradientW/laplacianW", "sph/SphConvex_Imp.hpp")],
     "every obligation discharged over exact reals; unit integral additionally by quadrature on generated inputs")
prop("H02", "SPH particles: motion, wrap around, density and diffusion",
     "A step moves every particle by its velocity times the step; in a cyclic box a particle reaching one side comes in at the opposite side. The density of a particle is the sum of the masses of the particles within the smoothing length weighted by the kernel, a fixed value stays fixed, a constant field stays constant, and without motion the other values change by the diffusion weights of their neighbours.",
     R3, "every position, velocity, step and box; generated clouds of up to 40 particles for density and diffusion",
     "No test runs the particle solver.",
     ["solvers/SphParticles_Imp.hpp"],
     [("advectParticles/calculateDensity/addDiffusion", "solvers/SphParticles_Imp.hpp")],
     "motion proved over exact reals; density and diffusion bounded (generated inputs)")
prop("P03", "Finite difference operators and solutions on lines",
     "On a line of nodes at any equal spacing the FDM ddt operator divides the change of each free unknown by the step, the laplacian is the three point second difference and the divergence the central first difference at inner nodes, fixed values appear in no row of a free unknown except through their value, and solving reproduces linear profiles and the exact discrete transient.",
     R3, "lines of 2 to 6 nodes with every spacing and value; generated lines of up to 20 nodes",
     "The tests solve one line; sign and end-row slips in other positions go unseen.",
     ["pde/fdm", "pde/PdeEquation_Imp.hpp"],
     [("ddt/laplacian/divergence", "pde/fdm/generic"), ("ddt/laplacian/divergence", "pde/fdm/thermal")],
     "bounded lines with symbolic values (every obligation discharged), solution by generated inputs", level="exploration")
prop("V01", "Control volumes and finite volume meshes measure their cells",
     "A control volume has the volume, centroid, surface area and outward face normals, areas and centroids of its polyhedron, again after recalculation and after faces are added; the two sides of a face know each other; faces and volumes added, replaced and removed keep ids and indices consistent, new ids are free. The control volumes of a mesh add up to its volume with each inner face seen with opposite normals by its two sides. Clipping leaves the requested fraction, and the closest boundary faces are found.",
     R3, "every tetrahedron (exact reals), every history of up to four steps, generated meshes",
     "The tests look at one or two cells and never recalculate, remove or clip obliquely.",
     ["fvm/FvmControlVolume_Imp.hpp", "fvm/FvmFace_Imp.hpp", "fvm/FvmMesh_Imp.hpp", "fvm/FvmMeshSearch_Imp.hpp"],
     [("calculateVolume/calculateFaceNormal/clip", "fvm/FvmControlVolume_Imp.hpp"), ("addFace/removeFace/set/volume", "fvm/FvmMesh_Imp.hpp"), ("findClosestBoundaryFaces", "fvm/FvmMeshSearch_Imp.hpp")],
     "measures and face sides proved over exact reals; histories bounded; meshes, clipping and search by generated inputs", level="exploration")
prop("V02", "Finite volume operators balance fluxes over the faces of each cell",
     "The FVM ddt, laplacian and divergence operators give for every cell the change of its content, the sum of the two point diffusion fluxes and the sum of the outward convective fluxes over its faces, with fixed boundary values entering through their face and fluxes between cells equal and opposite, whatever the numbering and orientation. Solutions on orthogonal grids reproduce linear fields, constants stay constant and the total is conserved when nothing crosses the boundary.",
     R3, "one to three boxes of every size and value in three orientations; generated distorted meshes",
     "The tests compare a profile on one regular grid numbered from zero.",
     ["pde/fvm", "pde/PdeEquation_Imp.hpp"],
     [("ddt/laplacian/divergence", "pde/fvm/generic"), ("ddt/laplacian/divergence", "pde/fvm/thermal"), ("ddt/laplacian/divergence", "pde/fvm/flow")],
     "bounded meshes with symbolic values (every obligation discharged), larger meshes by generated inputs", level="exploration")
prop("V03", "Finite volume solvers conserve mass, momentum, heat and phase",
     "The PISO solver starts from the state it is given, computes gradients by the divergence theorem, assembles momentum and pressure equations as the balance of the fluxes over the faces of each cell, corrects fluxes and velocities with the pressure gradient so that no cell gains mass, keeps prescribed velocities and pressures and the pressure level of closed domains. The temperature solver balances convection and conduction in each cell and reproduces linear profiles. The volume of fluid solver mixes properties by the fraction, keeps it between zero and one, moves a block with the flow and leaves a single fluid alone. Results do not depend on which side a face belongs to.",
     R3, "one to three boxes of every size and state; generated meshes, states, materials and steps",
     "The tests check one pressure and a few profiles to percents.",
     ["solvers/FvmPisoSolver_Imp.hpp", "solvers/FvmTemperatureSolver_Imp.hpp", "solvers/FvmVofSolver_Imp.hpp"],
     [("calculateVelocityField/calculatePressureField/correctFlux/correctVelocityField", "solvers/FvmPisoSolver_Imp.hpp"), ("calculateTemperatureField", "solvers/FvmTemperatureSolver_Imp.hpp"), ("predictBeta/correctBeta/calculateGammaField", "solvers/FvmVofSolver_Imp.hpp")],
     "bounded meshes with symbolic state for gradients and corrections (every obligation discharged), assembled equations and steps by generated inputs", level="exploration")
prop("C01", "CSG union, difference and intersection act like sets of points",
     "The solids have the volume, extent and outward facets of the box, sphere and cylinder asked for. Union, difference and intersection contain exactly the points the set operation contains, with the volume of it, whether the operands overlap, touch along coplanar faces, contain each other or miss each other, for nested operations and for surfaces loaded from triangles; operations with nothing leave the other operand or nothing. Operands stay as they were, and results are found with the default tolerance too.",
     R3, "every cube (proof of its facets); two boxes in all 2197 relative positions of a coplanar grid; generated solids and nested operations",
     "The tests check volumes of a few overlapping pairs; missing operands and coplanar faces are not tried.",
     ["csg/CsgBoolean_Imp.hpp", "csg/CsgBspNode_Imp.hpp", "csg/CsgCube_Imp.hpp", "csg/CsgSphere_Imp.hpp", "csg/CsgCylinder_Imp.hpp"],
     [("makeUnion/subtract/intersect", "csg/CsgBoolean_Imp.hpp"), ("build/clipPolygons/clipTo/invert", "csg/CsgBspNode_Imp.hpp"), ("splitPolygon", "csg/CsgBspNode_Imp.hpp")],
     "cube facets proved over exact reals; box pairs enumerated; solids, nesting and surfaces by generated inputs", level="exploration")
prop("S02", "STL surfaces: files, connectivity, orientation, cleaning and remeshing",
     "Saving and loading a surface, as text or binary, gives the same facets in order with their normals and attributes. Connectivity names for every edge the facet across it and the vertex opposite; naked, outline and sharp edges are marked. Orienting turns all facets of a connected surface the same way, outwards if asked. Cleaning removes exactly the duplicate, degenerate and unconnected facets. Flipping, splitting, relaxing and collapsing edges keep the surface a connected, equally oriented surface with up to date connectivity, normals and areas, whatever the facets are numbered.",
     R3, "generated surfaces of 1 to some hundred facets, with any numbering and direction of facets",
     "The tests use files numbered from zero, where ids and indices coincide, and count facets.",
     ["stl/StlUtils_Imp.hpp", "stl/StlFile_Imp.hpp", "stl/StlFacet_Imp.hpp"],
     [("load/save/generateConnectivity/setOrientation", "stl/StlUtils_Imp.hpp"), ("removeDuplicateFacets/removeInvalidFacets/flipEdges/splitFacets/relaxVertices/collapseEdges", "stl/StlUtils_Imp.hpp")],
     "bounded: generated surfaces (the code walks files and index maps, no symbolic run)", level="exploration")
prop("L01", "Lattice Boltzmann steps: equilibrium, streaming, bounce back, lid",
     "The equilibrium populations of the D2Q9 lattice have exactly the density, momentum and momentum flux they stand for. A step of the solver gives every inner node the relaxed populations of the nodes upstream, turned back by obstacles, and the density and velocity they add up to; collisions keep mass and momentum; the lid keeps its velocity, takes the density below it and the deviation from equilibrium there. A fluid at rest stays at rest and moving the lid the other way mirrors the flow.",
     R3, "every density, velocity, population and relaxation time; grids of one to four inner nodes with every set of obstacles; generated cavities",
     "No test runs the solver.",
     ["solvers/LbmLidDrivenSolver_Imp.hpp"],
     [("feq2/evolve", "solvers/LbmLidDrivenSolver_Imp.hpp")],
     "equilibrium and collision proved over exact reals, the step for every state on bounded grids, cavities by generated inputs", level="exploration")
prop("B01", "Boundary elements: influence coefficients and assembled operator",
     "The coefficients between two triangles are the integrals of 1/(4 pi r) and of its normal derivative over the second, seen from the centroid of the first, up to the accuracy of the twenty point rule, and exactly for a triangle with itself; turning the triangle changes the sign of the latter only. The assembled operator holds them element by element whatever the numbering, with half subtracted on the diagonal and fixed elements entered through their flux, and constants are solutions on closed surfaces.",
     R3, "every pair of triangles for the rule; generated triangles and box surfaces for the integrals and the assembly",
     "One test looks at coplanar triangles and one solves a box numbered from zero.",
     ["bem/BemTriangle_Imp.hpp", "pde/bem/thermal/BemThermalOperators_Imp.hpp", "pde/PdeEquation_Imp.hpp"],
     [("laplacianCoeff/getIntegrationPoints", "bem/BemTriangle_Imp.hpp"), ("laplacian", "pde/bem/thermal/BemThermalOperators_Imp.hpp")],
     "the rule proved over exact reals, integrals and assembly by generated inputs against closed forms", level="exploration")
prop("A01", "Analytical solutions solve their equations and meet their data",
     "The analytical temperatures solve the heat equation they stand for at every point and time, for every diffusivity, size and coefficient: zero Laplacian for the steady square and cube, conduction balancing convection (and radiation) along fins, change in time equal to diffusivity times Laplacian for the transient beam, square and cube. They take the stated temperatures on the boundary and at the start, as far as the truncated series can. The Burgers velocity is the Cole-Hopf transform of a potential that is carried and diffuses.",
     R3, "every point, time and parameter for the equations; generated points and modes for the data",
     "The tests look at three points of three of the solutions; most solutions are never run, and the other tests take them for granted.",
     ["analytical/AnaTemperature_Imp.hpp", "analytical/AnaFlow_Imp.hpp"],
     [("steadyStateHeatConduction*/transientHeatConduction*", "analytical/AnaTemperature_Imp.hpp"), ("phi/viscousBurgersEquation", "analytical/AnaFlow_Imp.hpp")],
     "equations proved over exact reals, with sin, cos, sinh, cosh and exp of an argument as arbitrary values tied by their derivatives; data and values by generated inputs")
prop("A02", "Formulas, material properties and root finding",
     "A formula has its value under the variables it is given, follows them when they change, and takes arguments in place of variables of the same name while all others keep their definition; constants have their value for every argument; material properties give the value or formula they were given. Bisection and Brent's method return a point of the interval around which the function changes sign, within the tolerance unless the steps are used up, count their steps, and find a root at an end of the interval, whatever the function.",
     R3, "every function, interval and tolerance for the first steps of root finding; generated formulas and histories",
     "The tests evaluate three formulas and three polynomials; arguments together with variables, constants and roots at an end are not tried.",
     ["analytical/AnaFunction_Imp.hpp", "material/MatMaterial_Imp.hpp"],
     [("evaluate/bisection/brent/root", "analytical/AnaFunction_Imp.hpp"), ("propertyValue", "material/MatMaterial_Imp.hpp")],
     "root finding proved for the first steps with an arbitrary function, formulas by generated inputs over the bundled parser", level="exploration")
prop("D01", "Mesh and field files: Gmsh, Gnuplot, VTK and QuickMesh",
     "A mesh saved for Gmsh or QuickMesh and loaded again has the same nodes, to full precision, and the same elements over the same nodes in the same order, and nothing of what was there before in the case of Gmsh. Gmsh files with gaps in their numbers, tags, other sections and elements of other types load the nodes and known elements under the numbers of the file. Saved fields hold every value with the number or place of its node or element; VTK files hold the points, cells, cell types and point values. All this for any node and element ids, and a file that cannot be opened is reported.",
     R3, "generated meshes of all element types with any ids, written to and read from a scratch directory",
     "The tests save meshes numbered from zero and do not look into the files.",
     ["post/PosGmsh_Imp.hpp", "post/PosGnuplot_Imp.hpp", "post/PosVtk_Imp.hpp", "post/PosQuickMesh_Imp.hpp"],
     [("load/save", "post/PosGmsh_Imp.hpp"), ("save", "post/PosGnuplot_Imp.hpp"), ("save", "post/PosVtk_Imp.hpp"), ("load/save", "post/PosQuickMesh_Imp.hpp")],
     "bounded: generated fields (the code writes and reads files, no symbolic run)", level="exploration")
