MC = "bounded-exhaustive model checking of the real code against a reference model"

prop("C01", "Dynamic triangle mesh stays a consistent manifold under every edit sequence",
     "After any sequence of edge flips, point insertions (inside a face or on an edge) and edge collapses, a dynamic triangle mesh holds exactly the oriented triangles those edits define, every triangle knows exactly the neighbour across each edge (or the boundary), and every used vertex refers to one of its own corners. An edit that is refused leaves the mesh untouched, and topology is preserved (the Euler characteristic does not change). Every look-up (edge search, triangles or points around a vertex, boundary loops, vertex and element adjacency lists) agrees with the triangle list.",
     ["histories", "inputs"], "all edit sequences up to a depth from closed, open, annular, toroidal and disconnected start meshes",
     "No existing test edits a dynamic mesh through its connectivity operations at all; the invariant must hold after every history of edits.",
     ["dtri_topology.h", "dtri_topology.cpp"],
     [("FlipEdge / InsertPoint_Elem / InsertPoint_ElemEdge / CollapseEdge_MeshDTri rewire triangle and vertex records in place", "dtri_topology.cpp"), ("link condition before a collapse", "dtri_topology.cpp CollapseEdge_MeshDTri")],
     [("CDynTri.v/s2", "corner vertices and edge neighbours", "dtri_topology.h"), ("CDynPntSur.e/d", "one incident corner per vertex", "dtri_topology.h")],
     technique="explicit-state BFS over edit sequences on the real code, reference model = set of oriented triangles", level="model_checking",
     note="All edit sequences up to the depth are executed on the real code from 13 start meshes; larger meshes and longer histories are not explored.")

prop("C02", "2D triangulation covers exactly the polygonal domain, constrained and Delaunay",
     "Triangulating a polygon with holes yields only positively oriented, non-overlapping triangles whose total area equals the domain's area, keeps every input vertex at its position and every boundary segment as a union of mesh edges, and refuses loops that cross, touch or have fewer than three points instead of meshing them. Without constraints the triangulation of a point set is Delaunay; refining with a target edge length keeps the domain, the orientation of every triangle and every face flag. Polygon areas, moments, inclusion and resampling equal their definitions. Deleting flagged triangles or unreferenced points removes exactly those.",
     ["inputs"], "all small polygons and holes on an integer grid, all point sets up to a size and order, target edge lengths",
     "Tests only mesh a few fixed SVG shapes and check nothing about the result but its existence.",
     ["dtri2_v2dtri.h", "dtri2_v2dtri.cpp", "geo_polygon2.h", "geo_polygon2.cpp"],
     [("incremental insertion into a super triangle with Delaunay flips", "dtri2_v2dtri.cpp AddPointsMesh/DelaunayAroundPoint"), ("constraint recovery", "dtri2_v2dtri.cpp EnforceEdge"), ("outside removal", "dtri2_v2dtri.cpp Meshing_SingleConnectedShape2D")],
     technique=MC + " (exact integer geometry)", note="All inputs of the alphabet; geometry outside the integer grid is not covered.")

prop("C03", "Mesh topology extraction equals its definition for every element type",
     "For any uniform or mixed mesh, the extracted elements around a vertex, vertices around a vertex, edges, neighbouring elements across a face, boundary faces, connected groups (of meshes whose faces are shared by at most two elements), quad-from-triangle merging and index unification are exactly those that the connectivity defines, each listed once, and jagged arrays are well formed. The result depends only on the mesh, not on what the output arrays held before.",
     ["inputs", "histories"], "all small meshes of triangles, quads, tets, hexes, voxels, pyramids, wedges and mixes up to a size, with fresh and reused output arrays",
     "Tests only use these functions incidentally on a handful of regular grids; the definition must hold for every connectivity.",
     ["jagarray.h", "jagarray.cpp", "mshelm.h", "msh_topology_uniform.h", "msh_topology_uniform.cpp", "msh_topology_mix.h", "msh_topology_mix.cpp"],
     [("count / prefix sum / fill passes over jagged arrays", "msh_topology_uniform.cpp, jagarray.cpp"), ("element face tables", "mshelm.h")],
     technique=MC + " (brute-force definitions)", note="All meshes of the alphabet.")

prop("C04", "Mesh subdivision refines conformingly and reproduces its geometric limits",
     "Subdividing a quad, hexahedral or tetrahedral mesh yields for every element its 4, 8 or 8 children with the parent's orientation (each joining a corner with its edge, face and cell points), with exactly one new point per edge, quad face and hexahedron shared with all neighbours, so that the refined mesh is conforming and covers the same region; edge, face and edge-to-quad tables list every entity once with what touches it. Linear subdivision places new points at the averages and keeps old ones; Catmull-Clark gives its classical face, edge and vertex points, keeps boundary vertices and unused points.",
     ["inputs"], "all small connectivities (including relabelled and rotated elements) and affine placements",
     "No test exercises subdivision; it must hold for every connectivity.",
     ["mshsubdiv.h", "mshsubdiv.cpp"], [("edge, face and cell point numbering", "mshsubdiv.cpp")], technique=MC, note="All meshes of the alphabet.")

prop("C05", "Block sparse matrix operations equal the dense matrix they represent",
     "A block sparse matrix behaves as the dense matrix its pattern and values define: after any sequence of zeroing, element merges, diagonal shifts, block scalings, boundary-condition fixes and master-slave reductions, its entries and its products (plain, transposed, degenerate; for any alpha and beta) equal those of a dense reference. Products never change the matrix, and a pattern extended for master-slave reduction contains the original pattern and every block the reduction needs, each once.",
     ["histories", "inputs"], "all operation sequences up to a depth over all small sparsity patterns and block sizes 1 to 4",
     "Tests touch one large matrix indirectly; specialised kernels per block size must agree with the dense product for every pattern and history.",
     ["ls_block_sparse.h", "ls_block_sparse.cpp", "ls_masterslave.h", "ls_masterslave.cpp", "jagarray.cpp"],
     [("block-size specialised kernels", "ls_block_sparse.cpp MatVec/MatTVec"), ("row marker buffer during merge", "ls_block_sparse.h Merge/Mearge")],
     technique="explicit exploration of operation sequences on the real matrix against a dense reference matrix", level="model_checking",
     note="Integer-valued alphabets, so comparison with the dense model is exact.")

prop("C06", "Linear solvers return the solution of the system they are given",
     "Direct banded solvers (block tridiagonal, pentadiagonal) and incomplete factorisations with enough fill solve every nonsingular factorable system exactly; an incomplete factorisation with less fill reproduces the matrix on its own pattern, and applying it as a preconditioner inverts that factorisation for every block size. Every iterative solver (conjugate gradient, preconditioned, BiCGSTAB, real and complex variants) converges on every small diagonally dominant (for conjugate gradients also symmetric) system on which the method does not break down, returns a vector whose true residual meets the tolerance, and reports a history of true residuals (relative to the right-hand side; preconditioned CG reports absolute ones); the small dense inverse kernels invert.",
     ["inputs"], "all small systems over an integer alphabet, all fill patterns, block sizes and right-hand sides",
     "Tests compare two solvers on one random system; wrong pivots or strides for other sizes pass unnoticed.",
     ["ls_ilu_block_sparse.h", "ls_ilu_block_sparse.cpp", "ls_tridiagonal.h", "ls_pentadiagonal.h", "lsitrsol.h", "vecxitrsol.h", "vecxitrsol.cpp", "matn.h", "ls_solver_block_sparse.h", "ls_solver_block_sparse_ilu.h", "view_vectorx.h"],
     [("ILU(k) symbolic pattern and numeric factorisation", "ls_ilu_block_sparse.cpp"), ("Krylov recurrences", "lsitrsol.h, vecxitrsol.h")],
     technique=MC + " (dense elimination)", note="All systems of the alphabet.")

prop("C07", "Linear programming finds the true optimum or reports infeasibility",
     "For any linear program with <=, >= and = constraints over non-negative variables, the solver reports infeasibility exactly when no feasible point exists, reports unboundedness exactly when the objective is unbounded, and otherwise returns a feasible point attaining the maximum, in whatever order constraints are given. Solving again with another objective on the same feasible set gives the same answer as a fresh solve.",
     ["inputs", "histories"], "all programs with up to 3 variables and 3 constraints over a small integer coefficient alphabet, in every order",
     "Tests have 15 fixed programs; correctness of pivoting depends on degenerate ties and constraint mixes.",
     ["lp.h", "lp.cpp"], [("two-phase simplex tableau", "lp.cpp")], technique=MC + " (exact vertex enumeration)", note="All programs of the alphabet.")

prop("C08", "Bounding-volume hierarchies answer queries like a full scan",
     "Every bounding volume hierarchy built over a set of elements (top-down or Morton-code linear, box or sphere) is a binary tree containing each element exactly once with every parent volume enclosing its children, including for coincident points and single elements. Ray (also whole images of rays), line, point-inclusion, range and nearest-point queries return exactly what a scan over all elements returns, and stay correct after the geometry moves and volumes are rebuilt on the same tree. Boxes and spheres unite, include and intersect like the sets they stand for.",
     ["inputs", "histories"], "all small point sets and meshes on an integer grid (with duplicates), all queries of the alphabet",
     "Tests use random meshes of one size with distinct codes; ties, duplicates and single-element trees must also be right.",
     ["srch_bvh.h", "srch_bvh.cpp", "srch_bv3_aabb.h", "srch_bv3_sphere.h", "srch_bv2_aabb.h", "srch_trimesh3_class.h"],
     [("Morton code sort and split search", "srch_bvh.cpp"), ("volume growth and pruning tests", "srch_bv3_aabb.h, srch_bv3_sphere.h")], technique=MC + " (full scan)", note="All inputs of the alphabet.")

prop("C09", "kd-tree, grid and brute-force searches agree with the definition",
     "Nearest-point, range and ray/line searches over points, triangle meshes and tetrahedral meshes (kd-trees, hash grids, exhaustive searches, signed distance) return a true nearest or complete answer for every query, wherever the query lies and however points coincide.",
     ["inputs"], "all small point sets and meshes on an integer grid, all grid queries",
     "Tests sample random points; pruning must be right for ties, duplicates and queries outside the bounds.",
     ["srch_kdtree.h", "srch_kdtree_tri.h", "srch_bruteforce.h", "srch_bruteforce.cpp", "srchgrid.h", "point_on_surface_mesh.h", "point_on_surface_mesh.cpp"],
     [("kd-tree split and prune", "srch_kdtree.h"), ("cell hashing", "srchgrid.h")], technique=MC + " (full scan)", note="All inputs of the alphabet.")

prop("C10", "Convex hulls and convex intersection tests are exact on every point set",
     "The 2D convex hull of a point set, and the 3D hull of a point set whose first four points span a tetrahedron, enclose all points, have all their vertices among them and are convex and consistently oriented. Intersection of two convex point clouds with interior, by GJK and by separating axes, agrees with the exact answer unless the clouds just touch, and the reported penetration is a smallest translation that separates them.",
     ["inputs"], "all small point sets (2D and 3D) on an integer grid",
     "Tests draw random clouds in general position (and occasionally crash); collinear, coplanar and touching cases are not sampled.",
     ["geo_convhull2.h", "geo_convhull3.h", "geo_gjksat2.h", "geo_gjksat3.h"], [("incremental hull", "geo_convhull3.h"), ("simplex evolution", "geo_gjksat2.h, geo_gjksat3.h")], technique=MC + " (exact integer geometry)", note="All point sets of the alphabet.")

prop("C11", "Nearest-point, distance and intersection primitives are geometrically exact",
     "For points, edges, lines, planes, triangles, parallelograms, tetrahedra, boxes, polylines and polygons, every nearest-point function returns a point of the primitive at minimum distance, with parameters or weights that give this point (also for degenerate edges, parallel edges and points on the primitive); intersection and inside tests answer exactly wherever rounding does not decide (pairs of triangles: when they cross or are apart); and areas, volumes, normals, solid angles, moments, circumcircles, windings, arc lengths, samples, tangents and resampled points equal their definitions. The distance of two edges in space is the distance of their lines (with the ratios of the nearest points); a line and a circle get points on both.",
     ["inputs"], "all configurations on a small integer grid",
     "Tests hit a few random configurations per primitive, most primitives none.",
     ["geo_edge.h", "geo_edge.cpp", "geo_line.h", "geo_line.cpp", "geo_plane.h", "geo_plane.cpp", "geo_tri.h", "geo_tri.cpp", "geo_quad.h", "geo_quad.cpp", "geo_tet.h", "geo_tet.cpp", "geo_aabb.h", "geo_polyline.h", "geo_polyline.cpp", "vec2.h", "vec2.cpp", "vec3.h", "vec3_funcs.h", "vec3_funcs.cpp"],
     [("clamped projections per region", "geo_edge.cpp, geo_tri.cpp")], technique=MC + " (exact minimisation)", note="All configurations of the alphabet.")

prop("C12", "Continuous collision and contact detection report every contact",
     "For linearly moving points and triangles or edges, the detector reports a contact exactly if the point is inside the triangle (the edges cross) at one of the times in the step at which the four points are coplanar, and gives the first such coplanar time; configurations decided by rounding are excepted. Proximity, continuous and self-intersection detection over a mesh with any hierarchy find exactly the pairs that testing every pair finds, each once. Resolving contacts conserves momentum and angular momentum, leaves velocities alone when nothing touches, and leaves no contact in the step; the impulse of each contact acts along its normal, by the weights of the nearest points and by its definition, and only within reach. The nearest-point iteration of moving edges converges to their meeting.",
     ["inputs"], "all linear motions between small integer configurations",
     "No test covers continuous detection.",
     ["geo_ccd.h", "geo_ccd.cpp", "srch_selfintersection_bvh.h", "cloth_selfcollision.h", "cloth_selfcollision.cpp"], [("cubic coplanarity root", "geo_ccd.cpp"), ("pairwise hierarchy traversal", "srch_selfintersection_bvh.h")], technique=MC, note="All motions of the alphabet.")

prop("C13", "Parametric curves and surfaces agree with their definition in every operation",
     "Bezier (quadratic, cubic), B-spline (open uniform or any clamped knots) and Catmull-Rom curves interpolate the points they must, evaluation agrees with de Casteljau and de Boor at every parameter including knots, splitting reproduces both halves, tangents are derivatives, bounding boxes are tight, areas, arc lengths and windings equal the integrals (quadrature variants: their rule), nearest parameters are globally nearest (sampled variants: never farther than the best sample), plane intersections are found when the ends lie on different sides, and sampled polylines lie on the curve with the right end points. Bezier, Coons and Hermite patches equal their definition on the whole domain, corners included.",
     ["inputs"], "all control polygons on a small integer grid, all degrees and parameters of the alphabet",
     "Tests compare variants on random control points within loose tolerances.",
     ["geo_curve_quadratic.h", "geo_curve_cubic.h", "geo_curve_ndegree.h", "geo_surface_parametric.h"], [("closed-form and quadrature variants", "geo_curve_quadratic.h, geo_curve_cubic.h")], technique=MC + " (de Casteljau in extended precision)", note="All control polygons of the alphabet.")

prop("C14", "Polynomial roots in an interval are all found, and only those",
     "For every polynomial, the number of roots isolated in a half-open interval equals the number of its distinct real roots there (as long as no bound is a multiple root), each isolating interval holds exactly one, and each returned root is one; special formulas for low degree agree with the general method.",
     ["inputs"], "all polynomials with small integer roots or coefficients up to degree 6, all interval bounds",
     "Tests draw random roots; repeated roots, roots on bounds and vanishing leading coefficients are not sampled.",
     ["polynomial_root.h", "geo_meta_funcs.h"], [("Sturm sequence counting and bisection", "polynomial_root.h")], technique=MC + " (exact rational Sturm)", note="All polynomials of the alphabet.")

prop("C15", "Expression evaluator computes what the expression means",
     "A mathematical expression string evaluates to the value given by standard precedence, associativity, parentheses, unary signs and function semantics, for any key values; changing a key value afterwards re-evaluates consistently, redundant parentheses and spaces change nothing, and copying or reusing an evaluator gives the same result as a fresh one. Invalid expressions are rejected rather than evaluated to garbage.",
     ["programs", "histories"], "all expressions generated by the grammar up to a depth, all key assignments",
     "Tests evaluate a handful of fixed strings.",
     ["parse_math_expression.h", "parse_math_expression.cpp"], [("recursive split at the lowest-precedence operator", "parse_math_expression.cpp")], technique=MC + " (independent evaluator on the generated syntax tree)", level="model_checking", note="All expressions up to the bound.")

prop("C16", "File round trips preserve meshes, arrays and images; damaged files are rejected",
     "A mesh written to any supported format (OBJ, PLY, STL, VTK, plain) and read back has the same elements and its vertices up to the six digits that are printed; NASTRAN meshes are read as written. OBJ files with comments, blank or long lines, CRLF line ends, polygons and any of the face index styles (idx, idx/tex, idx//normal, idx/tex/normal; positive indices) are read to the mesh they define. NumPy files with C-order float or double arrays and PPM images give exactly their data. A missing, truncated or malformed NumPy or PPM file is reported as failure without touching memory out of bounds.",
     ["inputs", "fault_sequences"], "all small meshes and layouts; every truncation point of every sample file",
     "Tests load two files of the repository and check sizes.",
     ["msh_io_obj.h", "msh_io_obj.cpp", "msh_io_ply.h", "msh_io_ply.cpp", "msh_io_misc.h", "msh_io_misc.cpp", "img_ioppm.h", "img_ioppm.cpp", "filenpy_str.h", "filenpy_str.cpp", "file.h", "file.cpp"],
     [("line-based readers", "msh_io_obj.cpp, msh_io_ply.cpp"), ("binary header parsing", "filenpy_str.cpp, img_ioppm.cpp")], technique=MC + "; every truncation point enumerated", note="All files of the alphabet.")

prop("C17", "String splitting and parsing utilities follow their grammar for every string",
     "Splitting by delimiters, quotes and parentheses, trimming, replacing, number, attribute, command-line and path parsing and simple JSON/CSV/XML readers return exactly the pieces the text defines, losing and inventing nothing, for every string over the relevant characters, including empty, unbalanced and adjacent-delimiter cases; file loading returns exactly the bytes of the file, and a parameter list read from a file holds every number up to the first text that is none, with or without a final newline.",
     ["inputs"], "all strings up to a length over the relevant alphabet",
     "Tests use four strings.",
     ["str.h", "str.cpp", "file.h", "file.cpp"], [("character scanners", "str.cpp"), ("path helpers", "file.cpp")], technique=MC + " (independent scanners)", note="All strings up to the bound.")

prop("C18", "2D CAD shapes stay topologically and geometrically consistent under every edit",
     "After any sequence of adding polygons, faces with curved edges, vertices on edges or in faces, picking and dragging, every face's loops are closed chains of existing edges, edge end points coincide with their vertices, edges that are not edited keep their curve type and handles, splitting an edge adds a straight piece to every loop that has the edge, and all look-ups (vertices and edges of a face, faces of a vertex or edge, loop area, box of the end points, pick) agree with the shape. Meshing the shape gives each face its own positively oriented triangles covering exactly its area, each edge its chain of points lying on the curve in order, and correct vertex/edge/face flags and index look-ups. Reading an SVG path or polygon yields exactly the curve it describes.",
     ["histories", "inputs"], "all edit sequences up to a depth, all edge types and mesh lengths of the alphabet",
     "Tests read a few SVG files and mesh them.",
     ["cadtopo.h", "cad2.h", "cad2.cpp", "cad2_mesher.h", "cad2_mesher.cpp", "cad2_io_svg.h", "cad2_io_svg.cpp"], [("loop and edge records", "cadtopo.h"), ("edge geometry kept relative to end points", "cad2.cpp")], technique="explicit exploration of CAD edit sequences on the real code with a reference boundary model", level="model_checking", note="All edit sequences up to the depth.")

prop("C19", "Parallel loop runs every index exactly once under every schedule",
     "The parallel loop calls its body exactly once for every index (and index pair), never for another one, finishes only after all calls returned, for every thread interleaving, thread count and index type, including zero iterations and more threads than iterations, and adds no data race of its own. If a body throws, the exception reaches the caller, all workers have stopped by then, no index is run twice, and once the throwing worker has ended each other worker starts at most the index it had already claimed.",
     ["schedules", "inputs"], "all interleavings up to a preemption bound of 2-3 workers over 0-4 indices, with and without throwing bodies",
     "Tests run one free schedule and compare sums; a lost or duplicated index needs a particular interleaving.",
     ["thread.h"], [("shared atomic counter claimed by fetch_add, join through futures", "thread.h")], technique="stateless model checking of the real code under a controlled scheduler (all interleavings up to a preemption bound) plus happens-before race detection", level="model_checking",
     note="Sequentially consistent interleavings at every instrumented access; preemption-bounded.")

prop("C20", "Vector, matrix and quaternion algebra obeys its laws",
     "2x2, 3x3, 4x4 and n x n matrices, 2D and 3D vectors and quaternions, in single and double precision, form the algebra they stand for: sums, products (with either factor transposed, scaled or accumulated), traces, determinants, spin, outer-product and projection matrices equal dense arithmetic; inverses invert every non-singular matrix; axis-angle, Rodrigues, conformal, quaternion, Bryant and Euler descriptions of a rotation convert into the same orthonormal matrix and back, including identity and half turns; SVD, polar and symmetric eigen decompositions reproduce their input with orthonormal factors (SVD values in descending order); minimum rotations map one direction to the other; affine, projection, frustum, look-at and camera matrices map points as documented.",
     ["inputs"], "all matrices over a small integer alphabet, the rotation groups of the cube and finer angle grids",
     "Tests sample random matrices; singular, repeated-eigenvalue and half-turn cases are not hit.",
     ["mat2.h", "mat2.cpp", "mat3.h", "mat3.cpp", "mat3_funcs.h", "mat3_funcs.cpp", "mat4.h", "mat4.cpp", "matn.h", "quat.h", "quat.cpp", "svd3.h", "svd3.cpp", "vec3.h", "vec2.h", "cam_modelview.h", "cam_projection.h"],
     [("closed-form conversions", "mat3_funcs.cpp, quat.cpp"), ("Jacobi sweeps", "svd3.cpp")], technique=MC + " (independent dense algebra)", note="All elements of the alphabet.")

prop("C21", "Element energies, forces and stiffness are consistent derivatives",
     "For the elastic, bending, rod, length and constraint energies of cloth, solids and rods (StVK membrane, MIPS, quadratic bending, discrete shell, edge lengths, planar and Darboux rods, Mooney-Rivlin and volume-penalty hexahedra, invertible tetrahedra), the returned gradient is the derivative of the returned energy, constraint Jacobians are derivatives of the constraints, and the Hessian is the symmetric second derivative (for a compressed membrane, its stress term replaced by the positive part of the stress, which keeps it positive semidefinite and not below the true one; for rods where so named, the Gauss-Newton one). Energies equal their closed-form definition, are invariant under rigid motion and vanish without force at rest (MIPS excepted). Assembly over a mesh equals the sum over its elements.",
     ["inputs"], "all configurations of the element nodes over a grid of positions and material parameters",
     "Tests check one random configuration per element within loose tolerance and skip many elements.",
     ["fem_stvk.h", "fem_stvk.cpp", "fem_solidhyper.h", "fem_solidhyper.cpp", "fem_mips.h", "fem_mips.cpp", "fem_distance3.h", "fem_distance3.cpp", "fem_discreteshell.h", "fem_discreteshell.cpp", "fem_quadratic_bending.h", "fem_quadratic_bending.cpp", "fem_rod2.h", "fem_rod2.cpp", "fem_rod3_darboux.h", "fem_rod3_darboux.cpp", "fem_rod3_straight.h", "fem_rod3_straight.cpp", "fem_invertiblefem.h", "femcloth.h", "femcloth.cpp", "defarapenergy_geo3.h", "defarapenergy_geo3.cpp", "pbd_geo3.h", "pbd_geo3.cpp"],
     [("hand-written first and second derivatives", "fem_*.cpp")], technique=MC + " (high-order finite differences of the code's own energy)", note="All configurations of the alphabet.")

prop("C22", "Linear FEM operators are consistent, symmetric and pass the patch test",
     "Element matrices of the Poisson, diffusion, Helmholtz (with radiation boundary), static and dynamic elasticity (triangles, tetrahedra, quads, hexahedra, quadratic tetrahedra), Stokes, Navier-Stokes, MITC3 and DKT plate and beam operators are symmetric where the operator is, annihilate exactly the rigid or constant modes, reproduce constant gradients, strains or curvatures (patch test) for every element shape, and the residual returned equals load minus operator times state. Assembling a mesh equals the dense sum of its element contributions whatever the node numbering, and consistent and lumped masses conserve total mass.",
     ["inputs"], "all non-degenerate elements on a small integer grid, all node orders, material values of the alphabet",
     "Tests solve two fixed problems.",
     ["femutil.h", "femutil.cpp", "fem_poisson.h", "fem_poisson.cpp", "fem_helmholtz.h", "fem_helmholtz.cpp", "fem_solidlinear.h", "fem_solidlinear.cpp", "fem_stokes.h", "fem_stokes.cpp", "fem_navierstokes.h", "fem_navierstokes.cpp", "fem_mitc3.h", "fem_mitc3.cpp", "fem_dkt.h", "fem_dkt.cpp", "fem_beam2.h"],
     [("element matrix routines and merge loops", "fem_*.cpp")], technique=MC + " (independent element integration)", note="All elements of the alphabet.")

prop("C23", "Voxel and cube grids convert to exact boundary and volume meshes",
     "For every voxel occupancy pattern the extracted boundary quads (and triangles) are exactly the faces between filled and empty cells, outward oriented, forming a closed surface enclosing the filled volume, and hexahedral and tetrahedral meshes fill exactly the occupied cells. Growing, adding and deleting cells changes exactly the addressed cell, whatever side the grid has to grow to, and picking and line traversal visit exactly the cells hit.",
     ["inputs", "histories"], "all occupancy patterns of small grids, all edit sequences up to a depth",
     "Tests convert one random 3-cell grid and check counts loosely.",
     ["gridvoxel.h", "gridvoxel.cpp", "gridcube.h", "gridcube.cpp"], [("neighbour lookup and grid growth", "gridvoxel.cpp, gridcube.cpp")], technique="exhaustive enumeration of occupancy patterns and edit sequences on the real code against a set-of-cells model", level="model_checking", note="All patterns of the alphabet.")

prop("C24", "Implicit surfaces are meshed into closed, oriented, conforming meshes",
     "For any inside/outside field and any refinement pattern the background lattice of isosurface stuffing fills its box with positive conforming tetrahedra, and the mesh cut from it consists of positive conforming tetrahedra whose boundary is closed, lies at zeros of the field on lattice edges (or on the box), and has the inside lattice points in and the outside ones out, except those moved onto the surface. Adaptively sampled distance fields hold the sampled values at cell corners, interpolate them with their tolerance, also on cell faces, with outward unit normals, and their marching cubes surfaces are closed across equal cells and face outward.",
     ["inputs"], "all sign patterns on a small lattice, a family of fields",
     "No test covers isosurface stuffing or adaptive distance fields.",
     ["isrf_iss.h", "isrf_iss.cpp", "isrf_adf.h", "isrf_adf.cpp", "isrf_sdf.h"], [("lattice stencil tables", "isrf_iss.cpp")], technique=MC, note="All sign patterns of the alphabet.")

prop("C25", "Slicing a mesh by planes yields closed, complete contours",
     "Cutting a closed triangle mesh at given heights, also at the height of a vertex, yields for each height closed loops in which every triangle with corners strictly on both sides occurs exactly once, consecutive segments meet in a point of the shared edge at that height, and nothing else is cut; open contours are left out. The Reeb graph links exactly the loops of neighbouring heights that bound a common part of the surface (all such loops of a common triangle, if triangles are cut at several heights).",
     ["inputs"], "all small closed meshes and vertex heights over an integer alphabet",
     "Tests slice two shapes at a few heights.",
     ["slice.h", "slice.cpp"], [("triangle walk around the loop", "slice.cpp")], technique=MC, note="All meshes of the alphabet.")

prop("C26", "Shortest paths, clustering and geodesics are exact on every mesh graph",
     "Distances computed over mesh edges or across element adjacency equal the graph's shortest path lengths from every source (and from a region's boundary inwards), unreachable items are marked as such, and the visiting order is non-decreasing in distance. Clustering assigns each element to a nearest seed; binary clustering merges pairs of neighbours until no two single neighbours remain, keeping areas and centroids, and the coarse adjacency is exactly the induced one. Exponential maps of planar meshes are isometries and keep the distance of the source's nearest neighbour on curved ones.",
     ["inputs"], "all small meshes, all sources and integer weights",
     "No test covers these.",
     ["dijkstra.h", "expmap_geo3dijk.h", "clusterpoints.h", "clusterpoints.cpp"], [("priority queue relaxation", "dijkstra.h")], technique=MC + " (Floyd-Warshall)", note="All graphs of the alphabet.")

prop("C27", "Skeleton poses and skinning compose transforms correctly",
     "Bone matrices equal the product of the joint transforms along the path from the root for every hierarchy and pose, whatever pose was set before; at rest skinning is the identity, and making a pose the rest pose keeps skin and joints where they are. Linear blend skinning equals the weighted sum over all bones in its dense, sparse, local and reference-position variants, pose sensitivities are derivatives, and BVH motion files (position channels at the root only) load to the skeleton, channel order and frames they define, also after saving them.",
     ["inputs", "histories"], "all skeletons up to 4 bones, all pose alphabets and weights",
     "Tests load two files and check sensitivities at a random pose.",
     ["rig_geo3.h", "rig_geo3.cpp", "rig_bvh.h", "rig_bvh.cpp", "rigopt.h"], [("parent-before-child accumulation", "rig_geo3.cpp")], technique=MC + " (explicit product along the chain)", note="All skeletons of the alphabet.")

prop("C28", "Mesh generators and mesh measures are right for every parameter",
     "Primitive generators (boxes, spheres, open and closed cylinders, disks, tori, capsules, grids, icosahedron and geodesic polyhedron, extrusion to tetrahedra, arrows) produce closed or documented-open, conforming, consistently outward oriented meshes with the documented counts, dimensions and volumes for all valid parameters and whatever their output arrays held before. Bounding boxes (also per group and per local frame), centroids, areas, volumes, lumped masses, normals, solid angles and affine operations on points equal their definitions on every mesh, removing unreferenced points or merging meshes keeps the geometry, and the implicit primitives return the true depth, outward normal and line intersections.",
     ["inputs"], "all parameter combinations up to a bound, all small meshes",
     "Tests use primitives only as inputs.",
     ["msh_primitive.h", "msh_primitive.cpp", "msh_geodesic_polyhedron.h", "msh_geodesic_polyhedron.cpp", "msh_boundingbox.h", "msh_boundingbox.cpp", "msh_center_of_gravity.h", "msh_center_of_gravity.cpp", "msh_normal.h", "msh_normal.cpp", "msh_affine_transformation.h", "msh_affine_transformation.cpp", "mshmisc.h", "mshmisc.cpp", "msh_unindexed.h", "msh_arrow.h"],
     [("index arithmetic of ring and grid strips", "msh_primitive.cpp")], technique=MC, note="All parameters of the alphabet.")

prop("C29", "Position-based and rigid-body steps conserve momentum and satisfy constraints",
     "The prediction and velocity update of position-based dynamics follow their formulas and never move fixed points. A constraint projection moves its points by the mass-weighted minimal correction that satisfies the linearised constraints (times the ratio), no other point, and leaves satisfied constraints alone; the strain and bending projections handle every triangle and interior edge once per sweep and keep the centre of mass; shape matching moves each cluster towards the best-fitting rigid motion of its rest shape (by the stiffness) in the plane and in space; seams pull their ends together by the fixed step or merge them. The kinetic damper stops the motion exactly when the kinetic energy has passed a maximum. A planar rigid-body step integrates free motion by the semi-implicit Euler formula, never moves fixed bodies, resolves a penetrating corner along the normal of the nearest edge, applies Coulomb friction with coefficient one, and conserves linear momentum.",
     ["inputs", "histories"], "all small configurations, masses and constraint sets",
     "Tests check only constraint derivatives.",
     ["pbd_geo3.h", "pbd_geo3.cpp", "pbd_stvk.h", "pbd_bending_for_dtri.h", "pbd_bending_for_dtri.cpp", "rgd_v2m3.h", "rgd_v2m3.cpp", "kinetic_damping.h"], [("mass-weighted projection", "pbd_geo3.cpp")], technique=MC, note="All configurations of the alphabet.")

prop("C30", "Mesh deformers keep constraints and reproduce rigid and affine motion",
     "The Laplacian deformers return the minimiser of their quadratic energy (squared graph Laplacian change plus the penalty of the handles they are given; the asymmetric variant the Laplace equation with its handle coordinates exact), whose matrix-vector product they also offer; the as-rigid-as-possible deformers keep handle coordinates exactly and step to the minimiser of the quadratic approximation of their energy for the rotations they are given, and the rotation update never raises that energy. With handles that do not move the mesh is unchanged, a translation (and, with the rotations given, a rigid motion) of all handles is reproduced, alternating the two steps reproduces a rigid motion of the handles, and mean value cage coordinates are a partition of unity that reproduces affine maps of the cage and interpolates at its vertices. Repeated use and changing handle sets do not matter.",
     ["inputs", "histories"], "all small meshes, handle subsets and handle motions of the alphabet",
     "Tests check only an energy derivative.",
     ["deflap.h", "deflap.cpp", "defarap.h", "defarap.cpp", "cagedef.h"], [("implicit normal equations with constraint weights", "deflap.cpp, defarap.cpp")], technique=MC, note="All meshes of the alphabet.")

prop("C31", "Dynamic tetrahedral mesh stays a valid Delaunay complex under insertions",
     "After any sequence of point insertions inside the initial tetrahedron the dynamic tetrahedral mesh is exactly the Delaunay complex of its points whatever the insertion order: positive tetrahedra that fill the domain, empty circumspheres, symmetric face adjacency, valid point references, correct stored circumcentres, cleared removed slots and a clean work buffer. The rings around edges and the stars around points read from it are complete and in order, and the relation tables between neighbours, circumcentre, circumradius, in-sphere and in-circle tests, normals, areas and edge lengths of tetrahedra are correct.",
     ["histories", "inputs"], "all insertion orders of small point sets on an integer grid, all operation sequences to a depth",
     "No test covers it.",
     ["dtet_v3.h", "dtet_v3.cpp", "geodelaunay3_v3.h", "geodelaunay3_v3.cpp"], [("cavity re-triangulation", "dtet_v3.cpp"), ("adjacency tables", "dtet_v3.h")], technique="explicit-state exploration of insertion sequences on the real code with exact predicates", level="model_checking", note="All sequences of the alphabet.")

prop("C32", "Grid fields, interpolation and colour lookups are exact and bounded",
     "Bilinear interpolation (images, grids), clamped fetches and semi-Lagrangian advection equal the clamped bilinear value, so they never exceed the range of their samples and never read outside the grid; projecting out the pressure gradient makes the discrete divergence vanish and leaves the walls alone; colour maps interpolate between their key colours and clamp outside. Perlin noise vanishes at lattice points, is smooth and periodic, and sums its octaves. Spherical harmonics, Hankel and Legendre functions, and quadrature rules are exact to their order; random samples follow their distribution for every draw, boundary draws included.",
     ["inputs"], "all small grids, sample positions (including outside) and values of the alphabet",
     "Tests cover one identity of special functions.",
     ["img_interpolation.h", "img_interpolation.cpp", "fdm_array2.h", "fdm_stablefluids.h", "grid2.h", "color.h", "color.cpp", "noise.h", "specialfuncs.h", "specialfuncs.cpp", "quadrature.h", "sampling.h", "sampler_trimesh.h"], [("index clamping", "fdm_array2.h, img_interpolation.cpp")], technique=MC, note="All grids of the alphabet.")

prop("C33", "Boundary elements and vortex methods evaluate the integrals they stand for",
     "For every triangle mesh, quadrature rule, onset flow and evaluation point, the potential, velocity, vortex-sheet and Helmholtz fields of constant and linear boundary elements equal the boundary integrals of their layers within the accuracy of the rule, the reported gradient is the gradient of the reported potential plus the onset flow, a unit layer on a closed surface gives one inside and nothing outside, and the assembled systems hold exactly the influence of every element on every collocation point with the diagonal term of the surface. Vortex particles induce the regularised Biot-Savart velocity of all particles but the excluded one, with the exact velocity gradient and the earlier values kept; redistribution over a grid conserves the total circulation and follows trilinear weights; and the dense BiCGSTAB solver solves what it reports as solved.",
     ["inputs"], "all small closed meshes, quadrature orders, element values and points of the alphabet",
     "No test covers it.",
     ["bem.h", "bem.cpp"], [("element integrals and assembly", "bem.cpp"), ("vortex particles and their grid", "bem.cpp")], technique=MC, note="All meshes of the alphabet.")

prop("C34", "Cameras project, and handles are picked and dragged, as the matrices say",
     "For every camera, matrix, point and pointer, the calibrated projection follows the pinhole-and-distortion model, the pinhole, interior, screen and model-view-projection matrices of a sensor carry every point to the pixel the calibrated projection gives, the derivative of the screen coordinate is the derivative of the screen coordinate, the nearest active camera is the one snapped to, and camera files are read back as written. A point, axis, circle, quad, ray or ring is picked exactly when the pointer is within the tolerance of its image (and, for quads, it faces the pointer), and dragging a translation axis, a rotation ring or the combined affine handle moves and turns it so that the grabbed point follows the pointer, about its own axis and position, with the affine matrix equal to the product of the drags.",
     ["inputs", "histories"], "all cameras, views, handles, pointers and drags of the alphabet",
     "No test covers it.",
     ["cvcamera.h", "metashape_camera.h", "gizmo_geo3.h", "gizmo_geo3.cpp"], [("calibrated projection and camera matrices", "cvcamera.h"), ("picking and dragging of handles", "gizmo_geo3.cpp")], technique=MC, note="All views of the alphabet.")

prop("C35", "Tensor views, image gradients, grid kernels and Lloyd steps are as defined",
     "For every shape, image, kernel offset and point set, a tensor or two-dimensional view addresses exactly the element of its indices in row-major order without touching another one, the grey conversion and the central and Sobel gradients of an image are the weighted sums of the pixels with the border pixels repeated or reflected beyond the edge, the cubic grid kernel and its derivative are the piecewise cubic that sums to one over the grid, a block of cells is found in the hash grid exactly if it was put in, and one Lloyd step moves every point to the importance-weighted centre of the pixels that are nearest to it and leaves a point without such pixels where it was.",
     ["inputs"], "all shapes, images, offsets, cells and point sets of the alphabet",
     "The tests do not reach these functions or sample single inputs.",
     ["tensordata.h", "viewtensor.h", "view_array2d.h", "cvimggraygrad.h", "cvimggraygrad.cpp", "grid3hash.h", "sampler_lloyd2.h"], [("one Lloyd step", "sampler_lloyd2.h"), ("image gradients", "cvimggraygrad.cpp")], technique=MC, note="All inputs of the alphabet.")

prop("C36", "Orientation fields are smoothed and garments placed, sewn and stepped as defined",
     "For every pair of tangent directions, averaging picks the pair of right-angle representatives that are closest, returns their weighted mean as a unit tangent that continues the given direction, and reports how many right angles lie between them; a smoothing sweep in given or random order does this for every point with all its neighbours and writes the result back. A cloth panel is placed by a length-preserving bending followed by its rotation and translation, sewn edges are divided into equally many pieces and joined end to end in opposite directions, projection moves points of the cloth that are inside a fixed or posed body to the clearance and leaves points outside alone whatever earlier steps found, and a cloth step is prediction, strain, bending, seams, projection and update, in this order, with fixed points unmoved.",
     ["inputs", "histories"], "all small graphs, directions, panels, seams, bodies, poses and steps of the alphabet",
     "No test covers it.",
     ["4rotsym.h", "garment.h"], [("nearest representatives and sweeps", "4rotsym.h"), ("panels, seams, projection and steps", "garment.h")], technique=MC, note="All inputs of the alphabet.")
