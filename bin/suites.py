"""Which specification, models, drivers and bounds decide each property."""

COMMON = [
    "the driver records what the public API returned faithfully (harness/drivers)",
    "TLC and the CommunityModules JSON reader are correct",
    "real numbers are logged as scaled integers; the tolerances are in the specification",
]

CHECKS = {
    "C01": {
        "mc": [
            {"module": "MCMatStore", "cfg": "MCMatStore.cfg", "scn": "a"},
            {"module": "MCMatStore", "cfg": "MCMatStore3.cfg", "scn": "b", "limit": 3000},
        ],
        "traces": [
            {"driver": "matstore", "mode": "scn", "spec": "MatStoreTrace", "scn": "a"},
            {"driver": "matstore", "mode": "scn", "spec": "MatStoreTrace", "scn": "b"},
            {"driver": "matstore", "mode": "store", "spec": "MatStoreTrace", "quick": 1500, "thorough": 30000},
            {"driver": "matstore", "mode": "bigstore", "spec": "MatStoreTrace", "quick": 150, "thorough": 4000},
        ],
        "assumptions": COMMON,
        "note": "MatStore.tla explored exhaustively for 2x2 (3 values) and 3x3 (2 values) matrices; every enumerated history and seeded random histories of up to ~14 edits on up to 6x6 matrices (and larger ones, up to 18x18) replayed in the real library and validated. Trusts TLC and the driver's logging.",
    },
    "C02": {
        "mc": [
            {"module": "MCMatStore", "cfg": "MCMatStore.cfg"},
            {"module": "MCMatArith", "cfg": "MCMatArith.cfg", "scn": "t", "limit": 7000, "limit_t": 0},
        ],
        "traces": [
            {"driver": "matstore", "mode": "scn", "spec": "MatStoreTrace", "scn": "t"},
            {"driver": "matstore", "mode": "arith", "spec": "MatStoreTrace", "quick": 2500, "thorough": 40000},
            {"driver": "matstore", "mode": "bigarith", "spec": "MatStoreTrace", "quick": 150, "thorough": 4000},
        ],
        "assumptions": COMMON,
        "note": "the table of operations (every way to prepare two operands x every operation x small shapes) is enumerated from MCMatArith.tla and replayed; every recorded sum, product, iterator, dot product and average is recomputed exactly in MatStore.tla; small integer data, up to 6x6, and a share up to 18x18. Trusts TLC and the driver's logging.",
    },
    "C03": {
        "mc": [
            {"module": "MCElim", "cfg": "MCElim.cfg", "scn": "m3", "limit": 2500, "limit_t": 0},
            {"module": "MCElim", "cfg": "MCElim2.cfg", "scn": "m2"},
        ],
        "traces": [
            {"driver": "solve", "mode": "densescn", "spec": "SolveTrace", "scn": "m3"},
            {"driver": "solve", "mode": "densescn", "spec": "SolveTrace", "scn": "m2"},
            {"driver": "solve", "mode": "dense", "spec": "SolveTrace", "quick": 3000, "thorough": 60000},
            {"driver": "solve", "mode": "bigdense", "spec": "SolveTrace", "quick": 250, "thorough": 8000},
        ],
        "assumptions": COMMON,
        "note": "elimination with exchanges explored exactly over all 3x3 matrices over {-1,0,2} and 2x2 over -3..3, the same matrices solved by the real code; random integer systems up to 8x8 (a share of 9 to 20 unknowns) with exact solutions, at scales 2^-70..2^70. Residual tolerance 1e-4 relative to the row sum.",
    },
    "C04": {
        "mc": [{"module": "MCEnvelope", "cfg": "MCEnvelope5.cfg", "scn": "p"}],
        "traces": [
            {"driver": "solve", "mode": "pattern", "spec": "SolveTrace", "scn": "p"},
            {"driver": "solve", "mode": "chol", "spec": "SolveTrace", "quick": 2500, "thorough": 60000},
            {"driver": "solve", "mode": "bigchol", "spec": "SolveTrace", "quick": 250, "thorough": 8000},
        ],
        "assumptions": COMMON,
        "note": "symbolic factorization explored over all 1024 patterns on 5 unknowns, a positive definite system on each of them solved by the real code; random certified (K = BB' + D) systems up to 9 unknowns, a share of 10 to 24. Residual tolerance 1e-4 relative to the row sum.",
    },
    "C05": {
        "mc": [{"module": "MCRelax", "cfg": "MCRelax.cfg"}, {"module": "MCEnvelope", "cfg": "MCEnvelope4.cfg", "scn": "p"}],
        "traces": [
            {"driver": "solve", "mode": "pattern", "spec": "SolveTrace", "scn": "p"},
            {"driver": "solve", "mode": "seidel", "spec": "SolveTrace", "quick": 3000, "thorough": 60000},
            {"driver": "solve", "mode": "bigseidel", "spec": "SolveTrace", "quick": 700, "thorough": 8000},
        ],
        "assumptions": COMMON + ["the movement of a further sweep is bounded through the energy norm, in which the sweep contracts"],
        "note": "the specification redoes the relaxation sweep on the returned vector and bounds its movement in the energy norm (factor 2 slack on the tolerance); strongly dominant systems must be answered. Systems up to 8 unknowns, a share of 9 to 20.",
    },
    "C06": {
        "mc": [{"module": "MCEnvelope", "cfg": "MCEnvelope4.cfg", "scn": "p"}],
        "traces": [
            {"driver": "solve", "mode": "pattern", "spec": "SolveTrace", "scn": "p"},
            {"driver": "solve", "mode": "factor", "spec": "SolveTrace", "quick": 4000, "thorough": 80000},
            {"driver": "solve", "mode": "bigfactor", "spec": "SolveTrace", "quick": 300, "thorough": 8000},
        ],
        "assumptions": COMMON,
        "note": "factors with known integer values must be exactly those (uniqueness), others multiply back within 1e-3; triangular, transposed, block and two-stage solves by residual. Up to 7 unknowns (a share of 8 to 18), random envelopes, output vectors holding old values.",
    },
    "C07": {
        "mc": [
            {"module": "MCElim", "cfg": "MCElim.cfg", "scn": "m3", "limit": 2500, "limit_t": 0},
            {"module": "MCElim", "cfg": "MCElim2.cfg", "scn": "m2"},
        ],
        "traces": [
            {"driver": "solve", "mode": "densescn", "spec": "SolveTrace", "scn": "m3"},
            {"driver": "solve", "mode": "densescn", "spec": "SolveTrace", "scn": "m2"},
            {"driver": "solve", "mode": "det", "spec": "SolveTrace", "quick": 3000, "thorough": 60000},
            {"driver": "solve", "mode": "bigdet", "spec": "SolveTrace", "quick": 300, "thorough": 8000},
        ],
        "assumptions": COMMON,
        "note": "determinants recomputed by cofactor expansion (up to 5x5), those of 6x6 to 14x14 products of known factors by their diagonals and the row order; inverses by A X = I; the elimination model shows that pivots and exchange signs give the determinant for all 3x3 matrices over {-1,0,2}.",
    },
    "C09": {
        "mc": [{"module": "MCAssembly", "cfg": "MCAssembly.cfg", "scn": "h", "limit": 1500, "limit_t": 0}],
        "traces": [
            {"driver": "solve", "mode": "historyscn", "spec": "SolveTrace", "scn": "h"},
            {"driver": "solve", "mode": "history", "spec": "SolveTrace", "quick": 1500, "thorough": 30000},
            {"driver": "solve", "mode": "bighistory", "spec": "SolveTrace", "quick": 150, "thorough": 4000},
        ],
        "assumptions": COMMON,
        "note": "all 16807 histories of 5 contributions/solves on 2 unknowns explored and replayed (a sample in quick); random histories up to 6 unknowns (a share of 7 to 16) with solves through clones in between, envelopes and eigenvalue counts of the accumulated pencil.",
    },
    "C08": {
        "mc": [
            {"module": "MCOrdering", "cfg": "MCOrdering.cfg"},
            {"module": "MCOrdering", "cfg": "MCOrdering5.cfg", "thorough": True},
            {"module": "MCOrdering", "cfg": "MCOrdering5s.cfg", "scn": "g"},
        ],
        "traces": [
            {"driver": "graph", "mode": "scn", "spec": "GraphTrace", "scn": "g"},
            {"driver": "graph", "mode": "random", "spec": "GraphTrace", "quick": 1500, "thorough": 30000},
            {"driver": "graph", "mode": "big", "spec": "GraphTrace", "quick": 120, "thorough": 3000},
            {"driver": "graph", "mode": "perm", "spec": "GraphTrace", "quick": 300, "thorough": 3000},
        ],
        "assumptions": COMMON,
        "note": "the ordering as a queue machine explored over every graph on 4 (thorough: 5) vertices with every choice of starts and neighbour orders; all 1024 graphs on 5 vertices and random graphs up to 18 (30) vertices built, queried and ordered by the real code.",
    },
    "C10": {
        "mc": [{"module": "MCSturm", "cfg": "MCSturm.cfg", "scn": "s", "limit": 2500, "limit_t": 0}],
        "traces": [
            {"driver": "eigen", "mode": "countscn", "spec": "EigenTrace", "scn": "s"},
            {"driver": "eigen", "mode": "count", "spec": "EigenTrace", "quick": 4000, "thorough": 80000},
            {"driver": "eigen", "mode": "bigcount", "spec": "EigenTrace", "quick": 300, "thorough": 8000},
        ],
        "assumptions": COMMON,
        "note": "Sturm count = sign changes of the characteristic polynomial, checked over all 15625 symmetric 3x3 matrices over -2..2; the real count compared at eight shifts of each of them, with random pencils up to 7 unknowns (characteristic polynomial, certified congruence or known spectrum), and dominant ones of 8 to 24 unknowns (Gershgorin). Shifts that meet a zero pivot are not judged.",
    },
    "C11": {
        "mc": [{"module": "MCSearch", "cfg": "MCSearch.cfg", "scn": "q", "limit": 1300, "limit_t": 0}],
        "traces": [
            {"driver": "eigen", "mode": "searchscn", "spec": "EigenTrace", "scn": "q"},
            {"driver": "eigen", "mode": "search", "spec": "EigenTrace", "quick": 3000, "thorough": 60000},
            {"driver": "eigen", "mode": "bigsearch", "spec": "EigenTrace", "quick": 300, "thorough": 8000},
        ],
        "assumptions": COMMON,
        "note": "the bisecting search as a state machine (safety and termination) over every spectrum and every split of the request within its bounds, each replayed; random pencils with known spectrum up to 6 (7) unknowns incl. repeated eigenvalues, a share of 8 to 14 unknowns. Values within 0.1 % + 0.003, vectors by residual, mass norm and orthogonality.",
    },
    "C12": {
        "mc": [{"module": "MCConstraints", "cfg": "MCConstraints.cfg", "scn": "c", "limit": 3000, "limit_t": 0}],
        "traces": [
            {"driver": "constraint", "mode": "mergescn", "spec": "ConstraintTrace", "scn": "c"},
            {"driver": "constraint", "mode": "merge", "spec": "ConstraintTrace", "quick": 2500, "thorough": 60000},
            {"driver": "constraint", "mode": "bigmerge", "spec": "ConstraintTrace", "quick": 150, "thorough": 4000},
        ],
        "assumptions": COMMON,
        "note": "all 38416 sequences of four constraints on two nodes explored (directions accumulate, monotone, mean of two angles), replayed (3000 sampled in quick) with a read after every addition; random sequences up to 14 (30) on up to 6 nodes added in two portions, a share on many more nodes.",
    },
    "C13": {
        "mc": [{"module": "MCTransform", "cfg": "MCTransform.cfg", "scn": "t"}],
        "traces": [
            {"driver": "constraint", "mode": "transformscn", "spec": "ConstraintTrace", "scn": "t"},
            {"driver": "constraint", "mode": "transform", "spec": "ConstraintTrace", "quick": 2500, "thorough": 60000},
            {"driver": "constraint", "mode": "bigtransform", "spec": "ConstraintTrace", "quick": 150, "thorough": 4000},
        ],
        "assumptions": COMMON + ["angles are those of Pythagorean triples in all quadrants, so that the exact result is rational"],
        "note": "energy, work and the constraints themselves proved invariant over all pairs of node constraints in the model; bar_matrix, bar_vec, unbar_vec compared entry by entry with the exact rational congruence (1e-4), up to 4 nodes (a share of more), sparse and unsymmetric matrices, angles beyond one turn.",
    },
    "C14": {
        "mc": [{"module": "MCElement", "cfg": "MCElement.cfg", "scn": "e"}],
        "traces": [
            {"driver": "element", "mode": "triscn", "spec": "ElementTrace", "scn": "e", "skip": ["calcm", "edge", "stress"]},
            {"driver": "element", "mode": "tri", "spec": "ElementTrace", "quick": 3000, "thorough": 60000, "skip": ["calcm", "edge", "stress"]},
        ],
        "assumptions": COMMON + ["axisymmetric hoop terms are bounded by the radii of the element, plus exactness for the uniform radial stretch; the library integrates 1/r by a rule of degree two"],
        "note": "the laws of the stiffness (symmetry, rigid motions, energy of every linear field, any listing) model-checked over all triangles of a 3x3 grid and five materials; the same triangles and random ones (up to 12x12 grids, far offsets, scales by powers of two) computed by the real code, entry by entry within 1e-4.",
    },
    "C15": {
        "mc": [{"module": "MCElement", "cfg": "MCElement.cfg", "scn": "e"}],
        "traces": [
            {"driver": "element", "mode": "triscn", "spec": "ElementTrace", "scn": "e", "skip": ["calck", "cmat", "edge", "stress"]},
            {"driver": "element", "mode": "tri", "spec": "ElementTrace", "quick": 3000, "thorough": 60000, "skip": ["calck", "cmat", "edge", "stress"]},
        ],
        "assumptions": COMMON + ["axisymmetric mass: the integrand has degree three, the rule degree two; entries are judged within that error and row sums exactly"],
        "note": "consistent mass of every triangle of a 3x3 grid and random ones, entry by entry; axisymmetric rows sum exactly to the integral of density times radius.",
    },
    "C20": {
        "mc": [{"module": "MCQuad", "cfg": "MCQuad.cfg", "scn": "q"}],
        "traces": [
            {"driver": "element", "mode": "quadscn", "spec": "ElementTrace", "scn": "q"},
            {"driver": "element", "mode": "quad", "spec": "ElementTrace", "quick": 3000, "thorough": 60000},
        ],
        "assumptions": COMMON,
        "note": "laws of the integral (direction, subdivision, antiderivative) model-checked for every monomial of every rule on segments in ten directions, each replayed both ways; the integral of every recorded random polynomial recomputed exactly by the specification: segments with integral length in every direction, all orders 1..4, matrix-valued integrands, and the unit triangle up to degree 2; compared to nine decimals.",
    },
    "C16": {
        "mc": [{"module": "MCLoads", "cfg": "MCLoads.cfg", "scn": "l", "limit": 600, "limit_t": 0}],
        "traces": [
            {"driver": "structure", "mode": "loadscn", "spec": "StructTrace", "scn": "l"},
            {"driver": "structure", "mode": "probe", "spec": "StructTrace", "quick": 800, "thorough": 20000},
            {"driver": "element", "mode": "tri", "spec": "ElementTrace", "quick": 2000, "thorough": 40000, "skip": ["calck", "calcm", "cmat", "stress"]},
        ],
        "assumptions": COMMON + ["the load on a node is read off through the response of that node with all others held, its stiffness being that of C14; distributed forces in axisymmetry are left out (the library does not weight them by the radius)"],
        "note": "resultant and moment proved for every history of three loads from eight on a square in four listings; the histories replayed and each node's share read off the real response; random meshes with repeated, reversed and shared edges; the split of a force on an edge checked element by element.",
    },
    "C17": {
        "mc": [{"module": "MCSupport", "cfg": "MCSupport.cfg", "scn": "s", "limit": 500, "limit_t": 0}],
        "traces": [
            {"driver": "structure", "mode": "supportscn", "spec": "StructTrace", "scn": "s", "skip": ["stress", "mises", "modes"]},
            {"driver": "structure", "mode": "static", "spec": "StructTrace", "quick": 1000, "thorough": 30000, "skip": ["stress", "mises"]},
            {"driver": "structure", "mode": "bigstatic", "spec": "StructTrace", "quick": 40, "thorough": 1500, "skip": ["stress", "mises"]},
            {"driver": "structure", "mode": "evolve", "spec": "StructTrace", "quick": 1500, "thorough": 40000, "skip": ["stress", "mises", "modes"]},
            {"driver": "structure", "mode": "patch", "spec": "StructTrace", "quick": 1000, "thorough": 20000, "skip": ["stress", "mises"]},
            {"driver": "structure", "mode": "bigpatch", "spec": "StructTrace", "quick": 40, "thorough": 1500, "skip": ["stress", "mises"]},
        ],
        "assumptions": COMMON + ["displacements are logged with a resolution of 1/20000 of the largest; residuals are judged within what that allows plus 0.1 % of the forces"],
        "note": "supported <=> regular reduced stiffness proved for all 1250 supports of a two-triangle square, each supported one solved by both direct solvers; random meshes up to 12 nodes (a share of larger ones) in plane stress, strain and axisymmetry, loaded in portions, solved, renumbered, relisted and solved again; structures that get further supports, nodes and elements between solutions; patch tests with every uniform stress.",
    },
    "C18": {
        "mc": [{"module": "MCElement", "cfg": "MCElement.cfg", "scn": "e", "limit": 800, "limit_t": 0}, {"module": "MCMises", "cfg": "MCMises.cfg", "scn": "v", "limit": 1000, "limit_t": 0}],
        "traces": [
            {"driver": "element", "mode": "triscn", "spec": "ElementTrace", "scn": "e", "skip": ["calck", "calcm", "edge"]},
            {"driver": "element", "mode": "tri", "spec": "ElementTrace", "quick": 1500, "thorough": 40000, "skip": ["calck", "calcm", "edge"]},
            {"driver": "element", "mode": "statescn", "spec": "ElementTrace", "scn": "v"},
            {"driver": "element", "mode": "state", "spec": "ElementTrace", "quick": 2500, "thorough": 60000},
            {"driver": "structure", "mode": "static", "spec": "StructTrace", "quick": 1200, "thorough": 30000, "skip": ["shape"]},
            {"driver": "structure", "mode": "bigstatic", "spec": "StructTrace", "quick": 30, "thorough": 1500, "skip": ["shape"]},
        ],
        "assumptions": COMMON + ["stresses at nodes are judged against the displacements the same solution reports"],
        "note": "element stresses under integer displacements exact within 1e-3; nodal means over meshes with unused nodes; von Mises and tensor of every recorded state of four kinds through sums and multiples, invariance under rotation of the axes model-checked.",
    },
    "C19": {
        "mc": [{"module": "MCSupport", "cfg": "MCSupport.cfg", "scn": "s", "limit": 250, "limit_t": 0}],
        "traces": [
            {"driver": "structure", "mode": "supportscn", "spec": "StructTrace", "scn": "s", "skip": ["solve", "stress", "mises", "shape"]},
            {"driver": "structure", "mode": "modes", "spec": "StructTrace", "quick": 900, "thorough": 15000},
            {"driver": "structure", "mode": "bigmodes", "spec": "StructTrace", "quick": 40, "thorough": 1500},
        ],
        "assumptions": COMMON + ["all modes of up to 7 (9) degrees of freedom are asked for: vibrations that are orthonormal in the mass and as many as degrees of freedom are all there are, so none is missing; squares of frequencies are judged within 0.3 %"],
        "note": "every reported pair must satisfy K v = w^2 M v with K and M of the specification (axisymmetric ones recorded), be orthonormal, obey the supports and ascend; a smaller request must be the beginning of the larger; the same structure renumbered and rescaled by powers of two.",
    },
    "C21": {
        "mc": [{"module": "MCSpatial", "cfg": "MCSpatial.cfg", "scn": "p", "limit": 9000, "limit_t": 0}],
        "traces": [
            {"driver": "spatial", "mode": "predscn", "spec": "SpatialTrace", "scn": "p"},
            {"driver": "spatial", "mode": "flat", "spec": "SpatialTrace", "quick": 5000, "thorough": 150000},
            {"driver": "spatial", "mode": "solid", "spec": "SpatialTrace", "quick": 5000, "thorough": 150000},
            {"driver": "spatial", "mode": "points", "spec": "SpatialTrace", "quick": 5000, "thorough": 100000},
        ],
        "assumptions": COMMON + ["predicates are decided on whole multiples of a power of two, where their exact value is known; in_circle and in_sphere are judged for the orientation they promise, and for points exactly on the circle or sphere"],
        "note": "the exact predicates model-checked against the geometry they stand for (any listing, barycentric coordinates reproduce the point, circle = equal distance from the centre, simplex inside its sphere) on all triangles and points of a 3x3 grid and all tetrahedra of a cube; the real predicates compared on those and on random and exactly degenerate ones at several scales; points as a register machine.",
    },
    "C22": {
        "mc": [
            {"module": "MCVisual", "cfg": "MCVisual.cfg", "scn": "v", "limit": 1500, "quick_only": True},
            {"module": "MCVisual", "cfg": "MCVisual3.cfg", "scn": "v", "thorough": True},
        ],
        "traces": [
            {"driver": "visual", "mode": "viewscn", "spec": "VisualTrace", "scn": "v"},
            {"driver": "visual", "mode": "images", "spec": "VisualTrace", "quick": 2500, "thorough": 60000},
            {"driver": "visual", "mode": "deformed", "spec": "VisualTrace", "quick": 500, "thorough": 12000},
            {"driver": "portrait", "mode": "meshes", "spec": "VisualTrace", "quick": 400, "thorough": 10000, "full": True},
            {"driver": "visual", "mode": "colours", "spec": "VisualTrace", "quick": 100, "thorough": 2000},
        ],
        "assumptions": COMMON + ["the image crate writes and reads png files faithfully", "images of at least 16 pixels; node places whose rounding to a pixel is not decided by the arithmetic are left out"],
        "note": "lines (unbroken, within half a pixel), places (uniform, centred, upright, unit-free) and colour scales (continuous, total, end points) model-checked; every pixel of images saved by random histories of points, edges, triangles, values and options, and of deformed structures, meshes and boundaries, compared with what the specification allows there.",
    },
    "C23": {
        "mc": [
            {"module": "MCBoundary", "cfg": "MCBoundary.cfg", "scn": "b", "limit": 3000, "quick_only": True},
            {"module": "MCBoundary", "cfg": "MCBoundary4.cfg", "scn": "b", "limit_t": 80000, "thorough": True},
        ],
        "traces": [
            {"driver": "mesher", "mode": "boundscn", "spec": "BoundaryTrace", "scn": "b", "full": True},
            {"driver": "mesher", "mode": "bounds", "spec": "BoundaryTrace", "quick": 3000, "thorough": 60000, "full": True},
        ],
        "assumptions": COMMON + ["the geometry crate of the repository is not part of the sandbox and replaced by a stand-in (harness/spacemath) with the obvious meaning", "positions are logged with a resolution of 1/2000 of the grid"],
        "note": "every history of three steps (thorough: four) of prescribing from either end, dividing and splitting on a square with a hole explored (closed curves, area, no crossing, total force, held vertices) and replayed; random histories on polygons with holes incl. refused ones, up to some hundred pieces; pieces in range, in order and on their wall, attributes exactly on them.",
    },
    "C24": {
        "mc": [
            {"module": "MCGiftWrap", "cfg": "MCGiftWrap.cfg", "scn": "w"},
            {"module": "MCGiftWrap", "cfg": "MCGiftWrap5.cfg", "scn": "g", "quick_only": True},
            {"module": "MCGiftWrap", "cfg": "MCGiftWrap6.cfg", "scn": "g", "thorough": True},
        ],
        "traces": [
            {"driver": "mesher", "mode": "wrapscn", "spec": "MeshTrace", "scn": "w", "full": True},
            {"driver": "mesher", "mode": "wrapscn", "spec": "MeshTrace", "scn": "g", "full": True},
            {"driver": "mesher", "mode": "wildwrap", "spec": "MeshTrace", "quick": 1500, "thorough": 40000, "full": True},
            {"driver": "mesher", "mode": "chew", "spec": "MeshTrace", "quick": 1200, "thorough": 30000, "full": True},
            {"driver": "mesher", "mode": "ruppert", "spec": "MeshTrace", "quick": 1200, "thorough": 30000, "full": True},
            {"driver": "mesher", "mode": "wildchew", "spec": "MeshTrace", "quick": 1000, "thorough": 30000, "full": True},
            {"driver": "mesher", "mode": "wildruppert", "spec": "MeshTrace", "quick": 1000, "thorough": 30000, "full": True},
        ],
        "assumptions": COMMON + ["the geometry crate of the repository is not part of the sandbox and replaced by a stand-in (harness/spacemath) with the obvious meaning", "the order in which hash containers are iterated is random in every run: a recorded case cannot be repeated exactly, and every body is meshed several times", "positions are logged in thousandths of the requested size; circumradii are judged within 1 %", "bodies of the size at which the library's absolute perturbation of 1e-9 vanishes in rounding are left out"],
        "note": "gift wrapping of every polygon with up to five (six) corners on a 3x3 grid and of nine bodies with holes and notches explored for every order of the frontier: never stuck, always the same triangulation of the body; the same bodies and random ones, refined by both algorithms, whose meshes are proved tilings by cancelling edges (which covers area, holes, overlaps and hanging nodes), with circumradius and shape of every triangle.",
    },
    "C25": {
        "mc": [
            {"module": "MCGiftWrap", "cfg": "MCGiftWrap.cfg", "scn": "w"},
            {"module": "MCGiftWrap", "cfg": "MCGiftWrap5.cfg", "scn": "g", "quick_only": True},
            {"module": "MCGiftWrap", "cfg": "MCGiftWrap6.cfg", "scn": "g", "thorough": True},
        ],
        "traces": [
            {"driver": "mesher", "mode": "wrapscn", "spec": "MeshTrace", "scn": "w", "full": True},
            {"driver": "mesher", "mode": "wrapscn", "spec": "MeshTrace", "scn": "g", "full": True},
            {"driver": "mesher", "mode": "wildwrap", "spec": "MeshTrace", "quick": 1500, "thorough": 40000, "full": True},
            {"driver": "mesher", "mode": "chew", "spec": "MeshTrace", "quick": 800, "thorough": 20000, "full": True},
            {"driver": "mesher", "mode": "ruppert", "spec": "MeshTrace", "quick": 800, "thorough": 20000, "full": True},
            {"driver": "mesher", "mode": "wildchew", "spec": "MeshTrace", "quick": 1000, "thorough": 30000, "full": True},
            {"driver": "mesher", "mode": "wildruppert", "spec": "MeshTrace", "quick": 1000, "thorough": 30000, "full": True},
        ],
        "assumptions": COMMON + ["the geometry crate of the repository is not part of the sandbox and replaced by a stand-in (harness/spacemath) with the obvious meaning", "the order in which hash containers are iterated is random in every run: a recorded case cannot be repeated exactly, and every body is meshed several times", "positions are logged in thousandths of the requested size; circumradii are judged within 1 %", "bodies of the size at which the library's absolute perturbation of 1e-9 vanishes in rounding are left out"],
        "note": "the boundary's own record of pieces after meshing must refine the body (as in C23), and the assembled model must have the merged constraints on exactly the nodes of those pieces, free nodes elsewhere, forces on exactly the loaded pieces, the material, the condition and triangles that tile the body.",
    },
    "C26": {
        "mc": [
            {"module": "MCMeshFile", "cfg": "MCMeshFile.cfg", "scn": "f"},
            {"module": "MCFileType", "cfg": "MCFileType.cfg", "scn": "t"},
        ],
        "traces": [
            {"driver": "files", "mode": "meshscn", "spec": "MeshFileTrace", "scn": "f", "full": True},
            {"driver": "files", "mode": "ext", "spec": "MeshFileTrace", "scn": "t", "full": True},
            {"driver": "files", "mode": "meshes", "spec": "MeshFileTrace", "quick": 12000, "thorough": 300000, "full": True},
        ],
        "assumptions": COMMON + ["the geometry crate of the repository is not part of the sandbox and replaced by a stand-in (harness/spacemath) with the obvious meaning", "numbers are compared to a millionth, and after saving to the decimals the format prints"],
        "note": "the reader is specified as a state machine over lines and explored against a writer and a medium that spoils at most one line in fifteen ways (nothing spoiled is read as another model, blank lines and comments never matter); every such file is read by the code, and random models are built, saved, loaded, changed, saved again or written by another hand with random slips of the pen.",
    },
    "C27": {
        "mc": [
            {"module": "MCBodyFile", "cfg": "MCBodyFile.cfg", "scn": "b"},
            {"module": "MCFileType", "cfg": "MCFileType.cfg", "scn": "t"},
        ],
        "traces": [
            {"driver": "files", "mode": "bodyscn", "spec": "BodyFileTrace", "scn": "b", "full": True},
            {"driver": "files", "mode": "ext", "spec": "BodyFileTrace", "scn": "t", "full": True},
            {"driver": "files", "mode": "bodies", "spec": "BodyFileTrace", "quick": 12000, "thorough": 300000, "full": True},
        ],
        "assumptions": COMMON + ["the geometry crate of the repository is not part of the sandbox and replaced by a stand-in (harness/spacemath) with the obvious meaning", "attributes of two corners that are no wall, files without a polygon and curves with repeated corners are left open"],
        "note": "the reader is specified as a state machine over lines whose result is a body of the boundary specification; every order of the items of small files, spoiled in at most one of nine ways at any line, explored (order does not matter, nothing unknown or undefined passes) and read by the code, and random bodies with holes, labels, overriding items, attributes from either end and slips of the pen.",
    },
    "C28": {
        "cli": True,
        "mc": [
            {"module": "MCCli", "cfg": "MCCliLinear.cfg", "scn": "l", "limit": 420},
            {"module": "MCCli", "cfg": "MCCliModal.cfg", "scn": "m", "limit": 260},
            {"module": "MCCli", "cfg": "MCCliMesh.cfg", "scn": "b"},
            {"module": "MCCli", "cfg": "MCCliSlips.cfg", "scn": "w"},
            {"module": "MCMisuse", "cfg": "MCMisuse.cfg", "scn": "u"},
        ],
        "traces": [
            {"driver": "cli", "mode": "linear", "spec": "CliTrace", "scn": "l", "full": True, "case_ms": 120000},
            {"driver": "cli", "mode": "modal", "spec": "CliTrace", "scn": "m", "full": True, "case_ms": 120000},
            {"driver": "cli", "mode": "mesh", "spec": "CliTrace", "scn": "b", "full": True, "case_ms": 120000},
            {"driver": "cli", "mode": "slips", "spec": "CliTrace", "scn": "w", "full": True, "case_ms": 120000},
            {"driver": "cli", "mode": "misuse", "spec": "CliTrace", "scn": "u", "full": True, "case_ms": 120000},
        ],
        "assumptions": COMMON + ["the geometry crate of the repository is not part of the sandbox and replaced by a stand-in (harness/spacemath) with the obvious meaning", "models are supported; bodies are divided by both mesh algorithms for all the sizes in use", "images count as drawn alike if at most one pixel in a thousand differs (six in a hundred for meshes, whose lines are drawn in any order)"],
        "note": "the command line is specified as a table of options, what each of them names and what a call with them does; the model enumerates every call with right options and every call with one wrong one (each option changes what it names and nothing else), and the binary is run on them in a directory of its own; output, files and pictures are compared with the library on the same files, saved meshes with the boundary file, size and algorithm they were asked for.",
    },
}
