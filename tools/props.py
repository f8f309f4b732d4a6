MON = "online monitor: every call of the real code is intercepted and its result judged by an independent exact oracle"
NOTE = ("Held on every observed execution of a seeded, hostile workload (counts in the evidence file); no claim beyond the "
        "inputs driven. Trusts the oracle in vlib/ (unbounded-integer field arithmetic and exact clipping, no code shared with the repository). ")

prop("C01", "Exact scalar arithmetic on a+b*tau and a+b*sqrt(3)/2 numbers",
     "Adding, subtracting, multiplying and dividing numbers of the icosahedral field (a+b*tau)/c and of the dodecagonal field "
     "(a+b*sqrt(3)/2)/c gives exactly the mathematical result as the canonical triple (positive denominator, no common factor), "
     "for all integer operands including those whose intermediate products leave 64 bits. Division by zero never yields a number "
     "silently mistaken for a result.",
     "all integer triples with non-zero denominator that fit in 64 bits, all four operations, both number fields",
     "the tests evaluate a handful of small literal operands; magnitudes, signs, cancellation and reducibility are unbounded",
     BOTH("math1"), [("add, sub, mul, div, reduction", "math1.py")], technique=MON, note=NOTE)

prop("C02", "Exact vector, matrix and centroid algebra",
     "Vector sums and differences, scaling of vectors and sets, inner and outer products, matrix products, powers, determinants "
     "and centroids over either number field equal the exact mathematical value entry by entry, for every size and value of the "
     "operands.",
     "all vectors, matrices, sets of simplices over the number fields",
     "tests use one or two fixed vectors; every entry and index combination matters",
     BOTH("math1"), [("vector and matrix operations", "math1.py")], technique=MON, note=NOTE)

prop("C03", "Projections onto physical and internal space",
     "The physical and internal components of every 6D vector are exactly the linear images fixed by the icosahedral (or "
     "dodecagonal) lattice, and the floating-point versions agree with the exact ones to rounding accuracy. The internal-space "
     "representative of a 6D vector keeps the internal component and has no physical component.",
     "all 6D vectors over the number fields and all sets of them",
     "a projection matrix entry with a wrong sign shows only for vectors with that coordinate",
     BOTH("math1", "numericalc"), [("projection, projection3, projection_perp", "math1.py"),
                                   ("numerical projections", "numericalc.py")], technique=MON, note=NOTE)

prop("C04", "The operator lists are the complete point groups",
     "The list of symmetry operators of each system is the full point group (icosahedral m-3-5 of order 120, dodecagonal 12mm of "
     "order 24): distinct integer matrices, closed under product and inverse, containing the identity, acting as isometries of "
     "both physical and internal space.",
     "all pairs of operators and all vectors they act on",
     "tests only print or count operators; closure and isometry concern all products and vectors",
     BOTH("symmetry"), [("icosasymop, dodesymop", "symmetry.py")], technique=MON, note=NOTE)

prop("C05", "Symmetric expansion produces exactly the images under the group",
     "Generating the symmetric copies of a vector, a set of vectors or an occupation domain about a centre returns exactly the "
     "images under the requested symmetry operators (all of them, or the indexed ones) about that centre, each cell intact, "
     "exact and in canonical form. Where equivalent vectors are asked for, each distinct one appears once.",
     "all objects, centres and operator selections",
     "tests expand one fixed object about the origin",
     BOTH("symmetry", "occupation_domain"), [("generator_obj_symmetric_*", "symmetry.py"), ("symmetric, symmetric_0", "occupation_domain.py")],
     technique=MON, note=NOTE)

prop("C06", "Dodecagonal site symmetry and coset representatives",
     "For every site of the dodecagonal unit cell the reported site symmetry is exactly the subgroup of operators that "
     "map the site onto itself modulo lattice translations, and the reported coset representatives contain exactly one operator "
     "of every coset of that subgroup.",
     "all sites (special and general), 4D and 5D setting",
     "tests look at a few literal sites; subgroup and coset structure depends on the whole site",
     DODE("symmetry"), [("site_symmetry, coset, site_symmetry_and_coset", "symmetry.py")], technique=MON, note=NOTE)

prop("C07", "Similarity transformation of dodecagonal domains",
     "Scaling a dodecagonal vector or domain m times by the similarity ratio multiplies physical lengths by (2+sqrt(3))^(m/2) and "
     "internal lengths by (2-sqrt(3))^(m/2) exactly (or the reverse for negative m), keeps lattice vectors on the lattice, composes "
     "additively in m, and is undone by -m.",
     "all objects and all exponents of either sign",
     "no test exercises exponents; composition is a property of all pairs",
     DODE("symmetry", "occupation_domain"), [("similarity operators", "symmetry.py"), ("similarity", "occupation_domain.py")],
     technique=MON, note=NOTE)

prop("C08", "Translation of an occupation domain",
     "Shifting an occupation domain by a 6D vector moves every vertex by exactly that vector, keeps every cell and their order, "
     "composes additively and is undone by the opposite shift.",
     "all objects and all shift vectors",
     "no test covers shifts with irrational or unreduced components",
     BOTH("utils", "occupation_domain"), [("shift_object", "utils.py"), ("shift", "occupation_domain.py")], technique=MON, note=NOTE)

prop("C09", "Volume (area) of an occupation domain",
     "The reported volume (area in the dodecagonal case) of a cell or a domain is the exact, non-negative, canonical measure of "
     "its cells in internal space: independent of vertex and cell order, additive over cells, unchanged by translation "
     "and by symmetry operations, zero only for flat cells. The floating-point volume agrees with it.",
     "all objects, including flat, thin and large-coefficient cells",
     "tests compute the volume of one object",
     BOTH("utils", "occupation_domain", "numericalc"), [("obj_volume_6d / obj_area_6d", "utils.py"), ("volume", "occupation_domain.py")],
     technique=MON, note=NOTE)

prop("C10", "Geometric predicates in internal space",
     "Whether a point lies in a cell or object, on a segment or in a triangle, whether two segments cross, whether points are coplanar, "
     "and how two cells relate, is answered as the exact geometry of internal space says, boundary included, and "
     "exactly computed crossing points lie exactly on both partners. The answer depends only on the internal components, not on "
     "which 6D representative is given, the order of vertices or any random state.",
     "all points, segments, triangles, cells and objects, including special (touching, aligned) positions",
     "tests ask one or two literal positions; wrong answers show in touching or aligned positions and for particular representatives",
     BOTH("numericalc", "intsct"), [("inside_outside_*, point_on_segment, coplanar_check*", "numericalc.py"),
                                    ("segment and surface crossings, rough checks", "intsct.py")], technique=MON, note=NOTE)

prop("C11", "Intersection of two icosahedral occupation domains",
     "The intersection of two icosahedral occupation domains is exactly their common region in internal space: every piece of the result "
     "lies in both, the pieces do not overlap, and their total volume is exactly that of the common region. It is empty only "
     "if the common region has no volume. This holds in either argument order and mode, for any subdivision and vertex order.",
     "all pairs of domains given as non-overlapping tetrahedra: general, coincident, nested, touching, disjoint, aligned faces",
     "tests intersect one pair of domains and look at one number",
     ICO("intsct", "two_occupation_domains", "numericalc", "utils"), [("intersection", "two_occupation_domains.py"),
     ("intersection_two_obj_*, intersection_two_tetrahedron", "intsct.py")], technique=MON, note=NOTE)

prop("C12", "Intersection of two dodecagonal occupation domains",
     "The intersection of two dodecagonal occupation domains is exactly their common region in internal space: every piece of the result "
     "lies in both, the pieces do not overlap, and their total area is exactly that of the common region. It is empty only "
     "if the common region has no area. This holds in either argument order and mode, for any subdivision and vertex order.",
     "all pairs of domains given as non-overlapping triangles: general, coincident, nested, touching, disjoint, aligned edges",
     "tests intersect one pair of domains and look at one number",
     DODE("intsct", "two_occupation_domains", "numericalc", "utils"), [("intersection", "two_occupation_domains.py"),
     ("intersection_two_obj_*, intersection_two_triangles", "intsct.py")], technique=MON, note=NOTE)

prop("C13", "Intersection of two convex domains",
     "The convex-intersection routine, given two convex domains (any subdivision into non-overlapping cells), returns exactly "
     "their common region: its measure is exact, every piece lies in both domains, and nothing is returned when they do not overlap.",
     "all pairs of convex domains: crossing, nested, touching, disjoint, and crossing with no vertex of one inside the other",
     "no test covers it; the result depends on the relative position of all faces",
     BOTH("intsct", "two_occupation_domains"), [("intersection_convex", "intsct.py / two_occupation_domains.py")], technique=MON, note=NOTE)

prop("C14", "Surface, edges and outline of a domain",
     "For a domain whose cells meet face to face, the reported surface consists of exactly the facets that belong to one cell, the "
     "unique edges and unique triangles are each reported exactly once, and the outline (border edges) consists of exactly the maximal "
     "straight border segments of the surface. Which 6D representative a shared vertex is given by makes no difference.",
     "all conforming domains (convex, with concavities, several parts, interior facets)",
     "the tests inspect one object; a facet is lost or repeated only for particular adjacency and representatives",
     BOTH("utils", "occupation_domain", "numericalc"), [("generator_surface_1, generator_unique_edges, generator_unique_triangles", "utils.py"),
     ("generate_border_edges, outline", "utils.py / occupation_domain.py")], technique=MON, note=NOTE)

prop("C15", "Simplification, hull and decomposition keep the region",
     "Simplifying a domain never changes the region it covers, convex or not. The convex hull of a domain and the "
     "decomposition of a set of points into cells use only the given vertices, do not overlap, and fill exactly the convex hull; "
     "a flat set of points gives no cell.",
     "all domains given as non-overlapping cells and all sets of points",
     "no test compares the regions before and after",
     BOTH("intsct", "numericalc", "utils", "occupation_domain"), [("simplification, simplification_convex_polyhedron, surface_cleaner",
     "utils.py / intsct.py / occupation_domain.py"), ("tetrahedralization_points, triangulation_points", "intsct.py")], technique=MON, note=NOTE)

prop("C16", "Asymmetric part of an icosahedral domain",
     "The asymmetric part of an icosahedral domain with respect to a centre and three vectors is exactly the part of the domain "
     "inside the cone they span at the centre. For a domain with full symmetry and a fundamental cone its volume is 1/120 "
     "of the whole and its symmetric images rebuild the whole.",
     "all domains, centres and cones", "no test covers it",
     ICO("occupation_domain", "intsct"), [("asymmetric", "occupation_domain.py")], technique=MON, note=NOTE)

prop("C17", "Identity of points, edges and cells in internal space",
     "Two vertices, edges, triangles or tetrahedra are taken as the same exactly if their internal components coincide, whatever their "
     "6D representatives and vertex order. Removing doublings keeps exactly one of each class. Shared-face and shared-edge tests, the "
     "common face found, the removal of vectors from a set and the merging of two collinear segments agree with the exact comparison.",
     "all pairs and sets of vectors and simplices",
     "tests use one fixed list; the wrong answer needs a particular pair (alias, near miss, permuted vertices)",
     BOTH("utils", "numericalc", "intsct"), [("equivalent_*, remove_doubling*, remove_vector(s), check_connectivity_*, get_common_*, two_segment_into_one", "utils.py / intsct.py")],
     technique=MON, note=NOTE)

prop("C18", "XYZ files keep an occupation domain exactly",
     "An occupation domain (or a set of triangles, edges or vertices) written as an XYZ file and read back is unchanged, entry by "
     "entry and in order. The file announces the right number of vertices, its coordinates are the internal components, "
     "and the volumes it reports are the exact ones of the object and of each cell. Nothing of an older file of that name survives, and an empty domain makes no file.",
     "all objects of every kind of selection, all file names and directories, all earlier contents",
     "a test writes one object; loss concerns particular entries (sign, size, position in the list) or selections",
     BOTH("occupation_domain"), [("write, write_xyz, read_xyz", "occupation_domain.py")], over=("inputs", "histories"), technique=MON, note=NOTE)

prop("C19", "VESTA files show exactly the given domain",
     "A domain written for VESTA contains, in 'normal' selection, one molecule per cell with exactly that cell's vertices. In the "
     "other selections it contains every distinct vertex once and every distinct edge as exactly one bond between the right atoms with a length range containing its "
     "length. The requested colour is used, and 'podatm' returns the vertices in the order of the file.",
     "all conforming domains and edge lists, all selections and colours",
     "no test looks into the file; bonds and atoms go wrong for particular adjacency and representatives",
     BOTH("occupation_domain", "utils"), [("write_vesta, write", "occupation_domain.py")], technique=MON, note=NOTE)

prop("C20", "pod/atm files describe exactly the given domain",
     "For a domain whose cells share a vertex, the pod/atm output gives that vertex as origin, every other distinct vertex once, "
     "the number of cells, and index lists that reproduce exactly the cells. Without a common vertex failure is reported and no file "
     "is made. The output from a user's vertex list describes exactly the cells listed, with the given position and shift.",
     "all domains with or without a common vertex, all vertex lists, all representatives of shared vertices",
     "no test covers it", BOTH("occupation_domain"), [("obj2podatm, write_podatm", "occupation_domain.py")], technique=MON, note=NOTE)

LEG = lambda d, i=(): ["src_cython/dode/" + x for x in d] + ["src_cython/ico/" + x for x in i]

prop("C21", "Compiled packages: exact arithmetic and projections",
     "In the compiled packages pyqcstrc.dode and pyqcstrc.ico every sum, difference, product and quotient of field numbers, every "
     "vector sum, scaling, inner and outer product, determinant, centroid and projection is exactly the mathematical value as the "
     "canonical triple, as long as the products fit in 64 bits. The numerical projections, with and without phason strain, agree with it to "
     "rounding accuracy, and the test for coplanar points is exact.",
     "all operands whose intermediate 64-bit products do not overflow, all vectors and phason matrices",
     "the scripts run as tests use one small object; magnitude, sign and each coordinate matter",
     LEG(["math12.pyx", "numericalc12.pyx"], ["math1.pyx", "numericalc.pyx"]),
     [("add, sub, mul, div, projection*, det_matrix ...", "math12.pyx / math1.pyx"), ("projection*_numerical, phason", "numericalc12.pyx")],
     technique=MON, note=NOTE)

prop("C22", "Compiled packages: symmetric expansion, site symmetry, similarity",
     "In the compiled packages the symmetric copies of a vector, a set of vectors or a domain are exactly the images under the "
     "requested operators of the point group: in pyqcstrc.dode about the given centre, in pyqcstrc.ico about the origin and then moved to the given position. "
     "dode.symmetric applies exactly the site-symmetry operators of the site, site_symmetry reports exactly the "
     "stabiliser of a rational site modulo lattice translations and one representative of each coset, "
     "and similarity scales physical and internal lengths by the exact ratio, adds exponents and stays on the lattice.",
     "all objects, centres, rational sites, operator selections and exponents",
     "the test scripts expand one object about one site",
     LEG(["symmetry12.pyx", "occupation_domain.py"], ["symmetry.pyx", "occupation_domain.py"]),
     [("generator_obj_symmetric_*, generator_equivalent_vec(tors), similarity_obj", "symmetry12.pyx / symmetry.pyx"),
      ("symmetric, symmetric_12, site_symmetry, similarity", "occupation_domain.py")], technique=MON, note=NOTE)

prop("C23", "Structure generation from dodecagonal domains",
     "The atomic structure generated from a list of dodecagonal occupation domains contains, for each domain, exactly the 4D lattice "
     "vectors of the requested box whose internal component (sheared by the phason matrix, if any entry of it is non-zero, and less the "
     "origin shift) lies in the domain, each once, at the physical component of the lattice vector less that of the site "
     "position and the external shift. The written XYZ file lists exactly these atoms with the element "
     "name of their domain and announces their number.",
     "all lists of domains, positions, shifts, phason matrices and box sizes without a lattice point within the numerical tolerance of a border",
     "no stable test generates a structure", LEG(["strc12.pyx", "numericalc12.pyx", "occupation_domain.py"]),
     [("strc", "strc12.pyx"), ("qcstrc", "occupation_domain.py"), ("inout_occupation_domain(_phason)_numerical", "numericalc12.pyx")],
     technique=MON, note=NOTE)

prop("C24", "Compiled packages: measure, translation, identity, surface and point tests",
     "In the compiled packages the volume or area of a domain is the exact non-negative measure in canonical form; shifting moves every "
     "vertex by exactly the given vector; removing duplicates keeps every point exactly once, by coordinates or by internal component; the "
     "surface of an icosahedral domain is the set of faces belonging to exactly one cell, its edges are the distinct edges of "
     "that surface; the outline of a dodecagonal domain is the set of edges belonging to one triangle, and the merged outline consists of "
     "the maximal straight border segments, from which the fan triangulation of a convex domain covers it exactly. "
     "Point-in-cell, point-in-domain, point-on-segment, crossing and equivalence tests answer correctly.",
     "all domains with coordinates whose products fit 64 bits; surfaces of conforming domains; points and segments not within the numerical tolerance of a border",
     "the test scripts print one volume and write one outline", LEG(["utils12.pyx", "numericalc12.pyx", "occupation_domain.py"], ["utils.pyx", "numericalc.pyx", "occupation_domain.py"]),
     [("obj_area_6d, shift_object, remove_doubling_*, generator_obj_outline, surface_cleaner", "utils12.pyx"),
      ("obj_volume_6d, generator_surface_1, generator_edge_1, equivalent_*", "utils.pyx"),
      ("inside_outside_*, point_on_segment, check_intersection_*", "numericalc12.pyx / numericalc.pyx")],
     technique=MON, note=NOTE)

prop("C25", "Compiled packages: intersection of two domains",
     "The intersection of two occupation domains computed by the compiled packages is exactly their common region in internal space: every "
     "returned cell lies in both, together they fill the common region without overlap, and nothing is returned when the domains "
     "have no common measure. This holds with and without the rough pre-check (icosahedral), for the convex variant whenever both "
     "domains are convex, and for every order of arguments, cells and vertices. Two segments that meet give exactly their common point; "
     "segments that do not meet give none.",
     "all pairs of domains whose intermediate numbers fit the 64-bit integers of the compiled code",
     "the test scripts intersect one pair of domains and check nothing", LEG(["intsct12.pyx", "numericalc12.pyx", "occupation_domain.py"], ["intsct.pyx", "numericalc.pyx", "two_occupation_domains.py"]),
     [("intersection_two_obj, intersection_two_triangles, intersection_two_segment", "intsct12.pyx"),
      ("intersection_two_obj_1, intersection_two_tetrahedron_4, intersection_two_obj_convex", "intsct.pyx"),
      ("intersection, intersection_convex", "two_occupation_domains.py / occupation_domain.py")],
     technique=MON, note=NOTE)

prop("C26", "Compiled packages: XYZ, VESTA and pod/atm files",
     "A domain written as XYZ by the compiled packages lists every point once per occurrence with its exact and internal coordinates, announces their number and "
     "the exact measure of the domain and of each cell, and reading it back gives the same domain entry by entry, whether or not the last line ends with a newline. "
     "VESTA files show exactly the cells of the domain, or its distinct vertices and edges, in the requested colour. pod/atm files made from a "
     "vertex list describe exactly the cells listed.",
     "all domains, selections and file layouts whose numbers fit 64 bits",
     "the test scripts write and read one object and compare nothing",
     LEG(["occupation_domain.py", "utils12.pyx"], ["occupation_domain.py", "utils.pyx"]),
     [("read_xyz, write_xyz, write_vesta, write_podatm", "occupation_domain.py"), ("generator_xyz_*", "utils12.pyx / utils.pyx")],
     over=("inputs", "histories"), technique=MON, note=NOTE)

prop("C27", "Compiled packages: no access outside arrays",
     "No operation of the compiled packages (arithmetic, projection, symmetry, measure, surface, intersection, structure generation, file "
     "input and output) reads or writes outside its arrays and lists, although it is compiled without index checks: every index used is within range.",
     "all domains, sites and options the other properties of the compiled packages cover",
     "with index checks switched off an access outside an array shows only by chance",
     LEG(["math12.pyx", "numericalc12.pyx", "symmetry12.pyx", "utils12.pyx", "intsct12.pyx", "strc12.pyx", "occupation_domain.py"],
         ["math1.pyx", "numericalc.pyx", "symmetry.pyx", "utils.pyx", "intsct.pyx", "occupation_domain.py", "two_occupation_domains.py"]),
     [("all functions with boundscheck(False)", "*.pyx")],
     technique="index sanitizer: the modules are compiled with every index check on (and integer overflow checks) and run under the workloads of the other checks",
     note="Held on every observed execution of a seeded, hostile workload; no claim beyond the inputs driven. Indices are observed where Cython generates the access. ")

prop("C28", "Results depend on the arguments only",
     "In ico2 and dode2 the result of a call is determined by its arguments: repeating it gives the same result whatever was called before, "
     "whatever the caller did to arrays it got or passed earlier, with verbose output on or off, for every state of the random "
     "generators and working directory, and while other threads make calls. Arguments are never modified.",
     "all histories of calls, interleavings of threads, overwritten results",
     "tests call each function once in a fresh process",
     BOTH("math1", "numericalc", "symmetry", "utils", "intsct", "occupation_domain", "two_occupation_domains"),
     [("all public functions", "*.py")], over=("inputs", "histories", "schedules"),
     technique="history monitor: recorded calls are repeated after other calls, overwritten arrays and in concurrent threads, and compared with the recorded result", note=NOTE)

prop("C29", "Compiled packages: asymmetric part of a domain",
     "In the compiled packages the asymmetric part of a domain at a position is exactly the part of the domain lying in the cone "
     "that the given vectors span from that position: the icosahedral package returns cells filling it without overlap, the dodecagonal package "
     "returns, for a convex domain, the maximal straight border segments of that part, each once.",
     "all domains, positions and cones (domains within five, dodecagonal ten, times the given vectors), as long as the numbers fit 64 bits",
     "no test calls it", LEG(["occupation_domain.py", "intsct12.pyx", "utils12.pyx"], ["occupation_domain.py", "intsct.pyx"]),
     [("asymmetric", "occupation_domain.py"), ("intersection_two_obj_1", "intsct.pyx"), ("intersection_two_obj, surface_cleaner", "intsct12.pyx / utils12.pyx")],
     technique=MON, note=NOTE)
