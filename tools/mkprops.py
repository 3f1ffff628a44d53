#!/usr/bin/env python3
"""writes /verif/properties.jsonl (the one place where the properties are worded)"""
import json, os

M = "src/matrix/"
S = M + "solve/"
E = "src/element/"
P = []


def prop(id, title, statement, over, text, why, files, mech, observe, state=None, hook=None):
    assert len(title) <= 80, (id, len(title))
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech], "observe_at": observe, "hook_needed": hook}
    if state:
        a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    P.append({"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": text},
              "why_tests_cant": why, "anchors": a})


prop("C01", "Every storage scheme represents the same matrix under any history of edits",
     "Whatever sequence of writes, row and column operations, permutations, transpositions and conversions is applied, every matrix type (dense, diagonal, triangular, fixed-size, dictionary, compressed row, lower and two-sided envelope) reads back exactly the abstract matrix that the sequence denotes. An entry that was never written reads as zero, a read outside the shape or a write outside what a scheme can store is refused and not misplaced, and converting between schemes loses and invents nothing.",
     ["histories", "inputs"], "all sequences of edits and conversions, over all shapes and sparsity patterns, starting from any type",
     "the tests build a handful of fixed matrices per type and read them once; positions in compressed and envelope storage depend on the pattern and on the earlier edits",
     [M + "sparse.rs", M + "buffer.rs", M + "mod.rs"],
     [("CompressedRow::pos and get_mut insertion", M + "sparse.rs"), ("LowerRowEnvelope::pos", M + "sparse.rs"), ("BiEnvelope::from_row_bounds", M + "sparse.rs"),
      ("From<Dictionary> conversions, mask, permute, transposed", M + "sparse.rs"), ("LinearMatrix::pos with the transposed flag", M + "buffer.rs")],
     ["Index/IndexMut, get, get_mut, From<Dictionary>, permute, mask, transpose, swap_rows, swap_cols"],
     [("register file", "the abstract matrix each value of the program denotes", M + "mod.rs MatrixLike")])
prop("C02", "Matrix arithmetic and iteration agree with linear algebra in every scheme",
     "Sums, differences, scalings, products (dense, sparse, envelope times vector, dictionary times dictionary), dot products, norms and running averages give the mathematically defined result whichever storage schemes the operands use. Row, column, diagonal, flat, index and non-zero iterators visit exactly the entries they name, in order, once. Dense matrices compare equal exactly when shape and entries agree, and no two different matrices compare equal; operands and data whose shapes do not fit are refused.",
     ["inputs"], "all operand values, shapes and storage schemes",
     "the tests multiply a few fixed matrices; sparse products merge patterns and depend on which rows are empty",
     [M + "mod.rs", M + "sparse.rs", M + "buffer.rs", M + "norm.rs"],
     [("MatrixLike::mul and iterators", M + "mod.rs"), ("CompressedRow::mul, mul_dict, mul_vec, add_scaled_bienv", M + "sparse.rs"), ("Average", M + "mod.rs"), ("frobenius", M + "norm.rs")],
     ["mul, add_ass, sub_ass, mul_dict, mul_vec, add_scaled_bienv, row, col, diag, flat, indices, nzs, row_nzs, dot, Average, frobenius"])
prop("C03", "The dense solver solves every nonsingular system and refuses a singular column",
     "For every nonsingular matrix and right-hand side the dense elimination solver returns the unique solution, whatever row exchanges that takes. A matrix in which elimination finds no usable pivot is reported as an error and never answered with non-finite numbers.",
     ["inputs"], "all square matrices, including ones with zero or negative pivots, zero rows and zero columns",
     "the tests solve two well-behaved systems whose natural pivots are positive",
     [M + "inverse.rs", S + "direct.rs"], [("solve_gausselim row pivoting and back substitution", M + "inverse.rs"), ("DenseGaussSolver", S + "direct.rs")],
     ["DenseGaussSolver::solve, Inverse::solve_gausselim"])
prop("C04", "The envelope Cholesky solver solves every SPD system in the caller's ordering",
     "For every symmetric positive definite system, with any sparsity pattern (disconnected, diagonal, chain, dense), the envelope Cholesky solver returns the solution in the numbering in which the caller assembled it. The internal reordering is invisible.",
     ["inputs", "histories"], "all symmetric positive definite matrices, patterns and right-hand sides",
     "one connected 4x4 system is solved; reordering, envelope fill and back permutation only matter for larger irregular patterns",
     [S + "direct.rs", S + "mod.rs", M + "graph.rs", M + "sparse.rs"],
     [("reduce_envelope and into_krp", S + "mod.rs"), ("cholesky_envelope, solve_ll", S + "direct.rs"), ("permute_slice of the result", S + "direct.rs")],
     ["CholeskyEnvelopeSolver::solve"])
prop("C05", "Gauss-Seidel returns only converged answers",
     "Whenever the iterative solver answers for a symmetric positive definite system, the answer is a fixed point of its relaxation sweep to the advertised relative tolerance, including the zero solution of a zero load. It never returns an unconverged or non-finite vector.",
     ["inputs"], "all symmetric positive definite systems and loads, including zero",
     "a single 4x4 system is solved to a loose tolerance",
     [S + "iterative.rs"], [("gauss_seidel sweep and stopping rule", S + "iterative.rs")], ["GaussSeidelSolver::solve"])
prop("C06", "Factorizations multiply back to the matrix and triangular solves invert them",
     "The LL', LDL' and LU factors of any matrix that admits them multiply back to that matrix, have the shape they advertise (unit or positive diagonal, zero outside the triangle and envelope), and the solvers built on them (forward, backward, transposed, restricted to a leading or inner block, LL', LDL') satisfy the triangular or full system they are given.",
     ["inputs"], "all matrices with nonzero leading minors, all envelopes, all right-hand sides and block ranges",
     "the tests factor two fixed 4x4 matrices with a full envelope and never solve a submatrix with a nonzero start",
     [S + "direct.rs", M + "inverse.rs", M + "sparse.rs", M + "buffer.rs"],
     [("cholesky_envelope, cholesky_envelope_no_root, solve_ll, solve_ldl", S + "direct.rs"), ("LowerRowEnvelope::solve, solve_submatrix, solve_transposed", M + "sparse.rs"),
      ("forward_sub, backward_sub, tri_inv", M + "buffer.rs"), ("lu_decompose", M + "inverse.rs")],
     ["cholesky_envelope, cholesky_envelope_no_root, solve_ll, solve_ldl, LowerRowEnvelope::solve*, forward_sub, backward_sub, tri_inv, lu_decompose"])
prop("C07", "Determinants and inverses are exact up to rounding",
     "The determinant of any matrix is its mathematical determinant, with the sign that the row exchanges imply, and a matrix whose elimination meets a zero column is reported as singular or given determinant zero. The inverse of any matrix with nonzero leading minors, multiplied with the matrix, gives the identity.",
     ["inputs"], "all square matrices up to the dimensions the library uses, singular ones included",
     "the tests check a few fixed determinants and inverses; the sign depends on the parity of the exchanges a particular input needs",
     [M + "inverse.rs", M + "buffer.rs"], [("det_lu_pivot, determinant, det_lu", M + "inverse.rs"), ("inverse, inv_lu, tri_inv", M + "inverse.rs")],
     ["Inverse::determinant, det_lu, det_lu_pivot, inverse, inv_lu"])
prop("C08", "Reverse Cuthill-McKee relabels any graph by a bijection that numbers every node",
     "For any undirected graph, connected or not, with isolated or trailing vertices, self-loops and duplicate edges in the input, the ordering is a permutation in which every component occupies consecutive labels and neighbours are numbered in breadth-first order. Adjacency, degree, masked adjacency and farthest-node queries report the graph that was given, and permuting, unpermuting and inverting are mutually inverse.",
     ["inputs"], "all finite graphs and all permutations of slices and indices",
     "three fixed connected graphs are ordered",
     [M + "graph.rs", M + "sparse.rs"], [("from_edges, adj_idxs", M + "graph.rs"), ("far_node, pseudo_peripheral, reverse_cuthill_mckee", M + "graph.rs"), ("Permutation", M + "graph.rs")],
     ["Graph::from_edges, from_lol, adjacent, adjacent_masked, degree, degree_masked, far_node, pseudo_peripheral, reverse_cuthill_mckee, Permutation::*"])
prop("C09", "A system assembled step by step means the sum of its contributions",
     "A linear system built by any interleaving of stiffness, mass and load contributions, in any order and repeatedly to the same entry, is the sum of those contributions. Building it from finished matrices or cloning it does not change the solution any solver returns.",
     ["histories"], "all sequences of additions over all solvers",
     "the tests only build systems from finished matrices",
     [S + "mod.rs"], [("add_k_coefficient, add_m_coefficient, add_rhs_val", S + "mod.rs"), ("from_kr, from_km, reduce_envelope", S + "mod.rs")],
     ["System::add_*, k_envelope, m_envelope, Solver::solve"],
     [("k, m, rhs", "accumulated coefficients", S + "mod.rs System")])
prop("C10", "Eigenvalue counts below a shift are exact",
     "For every symmetric pencil with positive definite mass, the number of eigenvalues reported below a shift is the true number, for any shift at which the factorization has no zero pivot. Consequently the count never decreases as the shift grows and reaches the number of unknowns.",
     ["inputs"], "all symmetric stiffness matrices, positive definite masses and shifts",
     "one matrix is probed at two shifts",
     [S + "eigen.rs", S + "direct.rs", M + "sparse.rs"], [("eigenvalues_under", S + "eigen.rs"), ("cholesky_envelope_no_root", S + "direct.rs"), ("add_scaled_bienv", M + "sparse.rs"), ("Diagonal::num_neg", M + "buffer.rs")],
     ["DeterminantSearcher::eigenvalues_under"])
prop("C11", "Determinant search finds the lowest eigenpairs, each once, in order",
     "For every positive definite pencil and every count n, the search returns n eigenpairs in ascending order, the i-th value being the i-th smallest eigenvalue counted with multiplicity. Each vector satisfies the eigenproblem in the caller's numbering and has unit mass norm, however the search is split over calls.",
     ["inputs", "histories"], "all symmetric positive definite pencils, all n, all sequences of incremental requests",
     "one diagonalizable 4x4 example with well separated values",
     [S + "eigen.rs"], [("secant_iterate_one, process_eigenrange, ManyEigenRange::split", S + "eigen.rs"), ("inverse_iterate, gram_schmidt_orthogonalize", S + "eigen.rs"), ("eigenpairs permutation", S + "eigen.rs")],
     ["DeterminantSearcher::find_eigens, eigenpairs, secant_iterate_one"],
     [("eigenrange", "interval known to hold eigenvalues low_i..next_i", S + "eigen.rs"), ("eigenpairs", "pairs found so far, ascending", S + "eigen.rs")])
prop("C12", "Constraints on a node accumulate and are never silently dropped",
     "Adding constraints to a node in any order keeps every coordinate direction that any of them fixed: fixing x and y separately fixes both, adding a free constraint changes nothing, a fixed coordinate direction prevails over an angled constraint, and two angled constraints combine to their mean. Other nodes are not affected.",
     ["histories"], "all sequences of constraints on all nodes",
     "no test adds two constraints to one node",
     [E + "mod.rs", E + "constraint.rs"], [("ElementAssemblage::add_constraint", E + "mod.rs"), ("is_plain, plain_dim_struck", E + "constraint.rs")],
     ["add_constraint, constraints"], [("constraint", "what is fixed at each node", E + "mod.rs constraints")])
prop("C13", "Constrained coordinates are an exact change of basis",
     "Transforming a matrix or load into constrained coordinates and displacements back is the congruence T'KT, T'R, U=TU' with T the node rotations and the struck directions removed: fixed components of a returned displacement are exactly zero (along the given angle for angled constraints), free components pass through, and energy and work are preserved.",
     ["inputs"], "all lists of constraints including angled ones, all matrices and vectors",
     "no test covers an angled constraint",
     [E + "constraint.rs", M + "sparse.rs"], [("DofTransform::bar_matrix, bar_vec, unbar_vec", E + "constraint.rs"), ("Dictionary::mask, mul_dict, transposed", M + "sparse.rs")],
     ["DofTransform::from_constraints, bar_matrix, bar_vec, unbar_vec"])
prop("C14", "Element stiffness is the exact strain energy of the linear triangle",
     "The stiffness of every non-degenerate triangle in plane stress, plane strain and axisymmetry is the integral of the strain energy of its linear displacement field. It is symmetric, independent of where the triangle lies (in plane problems) and of the order in which its nodes are listed, gives rigid motions no force, and positive energy to every straining motion.",
     ["inputs"], "all triangles, materials, thicknesses, conditions and node orders",
     "the tests only draw deformed shapes, no stiffness value is checked",
     [E + "element.rs", E + "strain.rs", E + "integrate.rs"], [("Element::calc_k, get_isopar_mats", E + "element.rs"), ("build_b, build_c, thickness", E + "strain.rs"), ("gauss_tri", E + "integrate.rs")],
     ["Element::calc_k, Condition::build_c, Condition::build_b"])
prop("C15", "Element mass is the consistent mass of the triangle",
     "The mass matrix of every triangle is density times thickness times the integral of the products of its interpolation functions: symmetric, uncoupled between x and y, the same for every listing of the nodes, and summing in each direction to the mass of the triangle.",
     ["inputs"], "all triangles, materials, thicknesses and node orders",
     "no test looks at a mass matrix",
     [E + "element.rs"], [("Element::calc_m", E + "element.rs"), ("gauss_tri", E + "integrate.rs")], ["Element::calc_m"])
prop("C16", "Applied loads superpose and none is lost, doubled or moved",
     "Any set of nodal forces and forces distributed along element edges, given in any order and direction, acts as their sum: the total force and moment on the body equal those applied, also where loads meet at a node, where an edge belongs to two elements and where element orientations differ. Each distributed force is shared by the two ends of its edge in the proportion its interpolation demands.",
     ["inputs", "histories"], "all sets of nodal and edge loads on all meshes",
     "one test draws one distributed load on one edge",
     [E + "mod.rs", E + "element.rs", E + "integrate.rs"], [("calc_load", E + "mod.rs"), ("Element::int_f_l, nodes_connect, node_natural", E + "element.rs"), ("gauss_segment_mat", E + "integrate.rs")],
     ["calc_displacements (through the response), Element::int_f_l"])
prop("C17", "A static solution is in equilibrium and depends only on the structure",
     "For every adequately supported structure the computed displacements satisfy equilibrium of all assembled element forces with the loads at every free direction and the constraints exactly at every fixed one. The result is the same for every direct solver, numbering of nodes, listing of elements and orientation of their nodes, and reproduces a linear displacement field exactly on any mesh.",
     ["inputs", "configurations"], "all meshes, supports, loads, materials, conditions and solvers",
     "the tests only render images of the results",
     [E + "mod.rs"], [("calc_displacements, calc_k, raw_to_node_disp", E + "mod.rs"), ("DofTransform", E + "constraint.rs")], ["calc_displacements, Deformation::displaced_nodes, displacement_norms"])
prop("C18", "Nodal stresses are the material's response averaged over the elements there",
     "The stress reported at a node is the mean over the elements meeting there of the material matrix applied to the strain of their displacements, and no stress where no element meets. The stress tensor is symmetric, and the von Mises value is that of the reported components (out-of-plane stress zero in a plane state), non-negative, zero exactly for a state the criterion ignores, and unchanged under rotation of the axes.",
     ["inputs"], "all meshes, displacements and stress states of every type",
     "no test checks a stress value",
     [E + "stress.rs", E + "element.rs", E + "mod.rs", M + "mod.rs"], [("StressState::von_mises, to_cauchy, from_vector", E + "stress.rs"), ("Element::stresses", E + "element.rs"), ("Deformation::stresses, Average", E + "mod.rs")],
     ["Deformation::stresses, von_mises, StressState::*"])
prop("C19", "Modal analysis returns the free vibrations of the constrained structure",
     "For every supported structure the i-th reported mode is a vibration of the constrained stiffness and mass at the reported angular frequency, obeys the constraints exactly, and the frequencies ascend without missing any. Frequencies scale as physics demands with stiffness, density, thickness and size, and do not depend on node numbering or element orientation.",
     ["inputs", "configurations"], "all meshes, supports and numbers of modes",
     "the only modal test is commented out",
     [E + "mod.rs", S + "eigen.rs"], [("calc_modes", E + "mod.rs"), ("EigenSystem::new", S + "eigen.rs")], ["calc_modes, Deformation::frequency, displaced_nodes"])
prop("C20", "Quadrature rules are exact to their degree",
     "The Gauss rules on segments integrate every polynomial up to degree 2n-1 along any segment exactly, with respect to arc length and independent of direction, and the triangle rule every polynomial up to degree 2 over the unit triangle.",
     ["inputs"], "all polynomials up to the degree, all segments, orders 1 to 4",
     "one integrand is integrated on one segment at one order",
     [E + "integrate.rs"], [("GAUSS tables, gauss_segment_mat", E + "integrate.rs"), ("gauss_tri", E + "integrate.rs")], ["gauss_segment_mat, gauss_tri"])
prop("C21", "Geometric predicates and point arithmetic are right for every configuration",
     "Orientation, in-triangle, in-circle, in-sphere, barycentric coordinates and circumcenters decide and compute what geometry defines, for either orientation where that is promised and including degenerate input, which is recognised. Vector arithmetic on points is componentwise in one, two and three dimensions; sums, differences and distances refuse to mix dimensions.",
     ["inputs"], "all points and simplices whose exact predicate value is not within rounding of zero, plus exactly degenerate ones",
     "a few fixed points are tested, the sphere and tetrahedron predicates not at all",
     ["src/spatial/mod.rs", "src/spatial/predicates.rs"], [("in_triangle, bary_coor, in_circle, in_sphere, circumcenter, tetrahedron_dir", "src/spatial/predicates.rs"), ("Point", "src/spatial/mod.rs")],
     ["spatial::predicates::*, spatial::Point"], hook="pub mod spatial under cfg(bugi_verif)")
prop("C22", "The rendered image shows the model it was given",
     "In a saved image every node appears as a dot at its place in a uniformly scaled, centred view with y pointing up, every edge as an unbroken line of pixels between its end nodes, and every triangle filled with the colour of the linearly interpolated, normalised node values; hiding the mesh removes exactly dots and lines, and nothing else is painted. A deformed structure is shown with every node moved by its scaled displacement and with the sides of its elements as edges, a mesh with the sides of its triangles, a boundary with its walls. The colour scales are total and continuous, hot rising from black through red and yellow to white, rainbow passing through blue, green and red.",
     ["inputs"], "all models in one, two and three dimensions, image sizes of at least 16 pixels, node values and options",
     "the tests write images that nobody compares",
     ["src/visual/mod.rs", "src/visual/bresenham.rs", "src/visual/fill.rs", "src/visual/color.rs", "src/element/mod.rs", "src/mesher/plane.rs", "src/mesher/bounds.rs"],
     [("enpixel", "src/visual/mod.rs"), ("line", "src/visual/bresenham.rs"), ("triangle_interp", "src/visual/fill.rs"), ("hot_map, rgb_map", "src/visual/color.rs"), ("set_vals", "src/visual/mod.rs"), ("Deformation::visualize", "src/element/mod.rs"), ("PlaneTriangulation::visualize", "src/mesher/plane.rs"), ("PlaneBoundary::visualize", "src/mesher/bounds.rs")],
     ["the saved png, color::hot_map, color::rgb_map"])
prop("C23", "Refining a boundary keeps its walls closed and its attributes in place",
     "After any sequence of segment divisions and splits the walls are the same closed curves in the same direction, cut into pieces whose end points lie on the original walls (within the promised length range after a division). Every distributed force and constraint of a wall applies to exactly the pieces of that wall and their end points, and a vertex shared by two constrained walls has both constraints.",
     ["histories"], "all polygons with holes, all sequences of divisions and splits",
     "one square is divided once",
     ["src/mesher/bounds.rs"], [("divide_segment, split_segment, divide_all_segments", "src/mesher/bounds.rs"), ("Wall, AllWalls", "src/mesher/bounds.rs"), ("all_constraints", "src/mesher/bounds.rs")],
     ["all_walls, all_base_walls, all_vertices, all_distributed_forces, all_constraints"],
     [("seg_map", "successor of each boundary vertex", "src/mesher/bounds.rs"), ("attributes", "forces and constraints per segment and vertex", "src/mesher/bounds.rs")])
prop("C24", "A finished mesh is a valid triangulation of the body",
     "Meshing a body that the algorithm accepts yields positively oriented triangles that overlap nowhere, meet edge to edge, cover exactly the body (its area, holes excluded) with every boundary piece an edge of exactly one triangle, and no triangle whose circumradius exceeds the requested size (with Ruppert's algorithm also none with a circumradius above 1.415 times its shortest side). Repeating the run on the same boundary gives a mesh with the same guarantees whatever order the internal sets are iterated in.",
     ["inputs", "schedules"], "all bodies and sizes that the algorithm accepts, all iteration orders of the hash-based containers",
     "three meshes are drawn, none is checked; hash iteration order differs in every run",
     ["src/mesher/plane.rs", "src/mesher/mod.rs", "src/mesher/bounds.rs"], [("gift_wrap", "src/mesher/plane.rs"), ("bowyer_watson_insert, bowyer_watson_dig", "src/mesher/plane.rs"), ("chew_mesh, ruppert_mesh", "src/mesher/plane.rs"), ("Vertex::perturbed", "src/mesher/mod.rs")],
     ["assemble: nodes, element_descriptors"])
prop("C25", "The assembled model carries every boundary condition of the body onto the mesh",
     "The model assembled from a mesh has every mesh triangle as an element and the body's material and condition. It has the body's constraints on exactly the nodes of the constrained walls, and its distributed forces on exactly the mesh edges lying on the loaded walls.",
     ["inputs"], "all bodies with labelled walls, constraints and forces",
     "no test assembles a mesh",
     ["src/mesher/plane.rs", "src/mesher/bounds.rs"], [("PlaneTriangulation::assemble", "src/mesher/plane.rs"), ("all_constraints, all_distributed_forces", "src/mesher/bounds.rs")],
     ["assemble: constraints, dist_forces, material, condition"])
prop("C26", "Saving and loading a model preserves it",
     "A saved model, read back, has the same material, condition, nodes, elements, constraints, nodal and distributed forces, up to the number of decimals the format prints. Saving the loaded model again gives the same content, blank lines and comments make no difference, and a malformed file is refused and never read as a different model.",
     ["inputs"], "all models, all placements of comments and blank lines, corrupted counts, indices and sections",
     "the only load test uses a file in an outdated format and cannot run",
     ["src/file/bmsh.rs", "src/file/mod.rs", E + "constraint.rs", E + "strain.rs"], [("elas_to_bmsh, bmsh_to_elas", "src/file/bmsh.rs"), ("Constraint Display/FromStr", E + "constraint.rs"), ("Condition ToString", E + "strain.rs")],
     ["save_elas, read_to_elas"])
prop("C27", "A boundary file means the body it describes",
     "Reading a boundary description gives exactly the polygons, labels, condition, material, distributed forces and constraints written there, whatever order the items come in. A reference to an undefined label, an unknown item or trailing input is an error, and the file type is decided by the extension.",
     ["inputs"], "all item orders, labels, polygons and malformed variants",
     "no test parses a boundary file",
     ["src/file/bbnd.rs", "src/file/mod.rs"], [("bbnd_to_bounds, parse_file", "src/file/bbnd.rs"), ("read_to_bound", "src/file/mod.rs")], ["read_to_bound"])
prop("C28", "The command line runs the study it was asked for",
     "Meshing a boundary file and then running a linear or modal study on the saved mesh prints the largest von Mises value and displacement, or the frequencies, of exactly the model that the library computes from the same files, for every solver and option. Options select what they name and a wrong one is reported as an error.",
     ["configurations", "inputs"], "all subcommands, options and input files",
     "main.rs has no tests",
     ["src/main.rs", "src/cli.yml"], [("linear, mesh, modal", "src/main.rs")], ["stdout, the mesh and image files"])

with open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl"), "w") as f:
    for p in P:
        f.write(json.dumps(p) + "\n")
print(len(P))
