# ---------------------------------------------------------------- meshes
prop("M01", "Built-in meshers and refinement give valid conforming labelled meshes",
 "Every mesh produced by the built-in meshers, after any number of refinements and transformations, is a conforming partition of its domain: cells have positive measure and tile it, every face belongs to one or two cells and is a boundary face exactly when it has one, no element or point is duplicated, and refinement splits every cell into the documented number of children that tile it. Boundary faces carry the number of the side they lie on and keep it through refinement. Single-element meshes obey the same rules.",
 ["histories", "inputs"], "every mesher, every sequence of refine/transform steps, every mesh level and single-element geometry", "the tests look at one or two refinement levels of three meshers and only at the numbering of 2D boundaries",
 ["mesh/meshgen.hpp", "mesh/meshgen_fvca5hex.hpp", "mesh/mesh.hpp"], [("uniform refinement of the unit domain", "mesh/meshgen.hpp"), ("hexagonal tessellation", "mesh/meshgen_fvca5hex.hpp")],
 ["cells, faces, boundary information and point coordinates of the mesh after each step"],
 rule="a case is a history of refine/transform steps (or one single-element geometry); non-trivial when at least one refinement happened, or for single-element/level cases always", done=True)
prop("M02", "Mesh queries agree with the incidence structure for any mesh",
 "On any conforming polytopal mesh, looking up a cell or face returns its own position, the faces of a cell are faces of the mesh, neighbour search across a face returns the other owner exactly when there is one, and all boundary and subdomain queries (flags, ids, counts, id lists, filtered iteration) agree with each other and with the data the mesh was built from. Elements that are not in the mesh are refused. The bounding box is the tight box of the points.",
 ["inputs"], "every valid mesh of every supported element family, with any numbering of points and cells", "tests use structured meshes whose numbering hides lookup errors",
 ["mesh/mesh.hpp", "geometry/element_generic.hpp", "geometry/element_simplicial.hpp", "geometry/element_hexahedral.hpp", "geometry/geometry_generic.hpp", "geometry/geometry_simplicial.hpp", "geometry/geometry_hexahedral.hpp"],
 [("sorted element storage with binary-search lookup", "mesh/mesh.hpp"), ("neighbour_connectivity", "mesh/mesh.hpp")], ["return values of mesh queries"],
 rule="a case is a random mesh of one family with permuted numbering, subdomains and boundary ids; non-trivial when it has at least two cells", done=True)
prop("M03", "A mesh file is loaded as exactly the mesh it describes",
 "Loading a well-formed file of any supported native format yields a valid mesh with the described points, cells, faces, subdomain numbers and boundary numbers, whatever the order and numbering of the elements in the file, and extension-based dispatch reaches the same result. Writing a mesh in the supported export format and loading it back gives the same mesh.",
 ["inputs"], "every mesh expressible in each format and every ordering of its elements in the file", "there are no tests of the loaders at all; sample meshes are not shipped",
 ["loaders/loader_netgen.hpp", "loaders/loader_cartesian.hpp", "loaders/loader_fvca5.hpp", "loaders/loader_fvca6.hpp", "loaders/loader_medit.hpp", "loaders/loader_poly.hpp", "loaders/loader_uniform.hpp", "loaders/loader_utils.hpp", "loaders/loader.hpp"],
 [("per-format read_mesh/populate_mesh", "loaders/loader.hpp")], ["the loaded mesh compared element by element with the generated one"], done=True)
prop("M04", "Malformed mesh files are refused without crashing or corrupting",
 "A missing, truncated or otherwise malformed mesh file is either refused (false return or an exception) or loaded as a mesh whose elements all refer to existing points; it never crashes, hangs or reads outside its data.",
 ["inputs", "fault_sequences"], "every byte sequence offered as a mesh file, in particular every truncation and small corruption of a valid file", "no test feeds a malformed file",
 ["loaders/loader_netgen.hpp", "loaders/loader_cartesian.hpp", "loaders/loader_fvca5.hpp", "loaders/loader_fvca6.hpp", "loaders/loader_medit.hpp", "loaders/loader_poly.hpp", "libdiskpp/src/common/mapped_file.cpp"],
 [("text parsing over a mapped file", "common/mapped_file.h")], ["return value, exceptions, signals and sanitizer reports"], done=True, flags=["-O1", "-g1", "-DNDEBUG", "-D_GLIBCXX_ASSERTIONS", "-fsanitize=address,undefined", "-fno-sanitize-recover=undefined"], hang=10)
prop("M05", "Mesh hierarchies are nested and locate points exactly",
 "In a hierarchy of uniformly refined triangular meshes each level refines the previous one: every fine cell lies in the parent reported for it, children of a cell tile it, and boundary labels are inherited. Locating a point at any level returns the cell of that level that contains it.",
 ["histories", "inputs"], "every initial triangulation, number of levels and query point", "the hierarchy has no test",
 ["mesh/mesh_hierarchy.hpp"], [("edge-midpoint refinement with parent/child bookkeeping", "mesh/mesh_hierarchy.hpp")], ["meshes of the hierarchy and located cells"], done=True)
# ---------------------------------------------------------------- geometry
prop("G01", "Measures, diameters, barycenters and bounding boxes are exact",
 "For every cell and face the reported measure, diameter, per-direction extents, barycenter (area centroid for polygonal meshes, vertex average otherwise) and bounding-box data equal the exact geometric quantities of the polytope, do not depend on the numbering or starting vertex, and transform as they must under rigid motions and scalings.",
 ["inputs"], "every cell and face geometry: convex and non-convex polygons, simplices, boxes, convex polyhedra with planar faces (vertices may be aligned), any scale and orientation", "tests check a few unit-sized shapes",
 ["geometry/geometry_all.hpp", "geometry/geometry_generic.hpp", "geometry/geometry_simplicial.hpp", "geometry/geometry_hexahedral.hpp", "geometry/geometry_generic_triangulations.hpp", "common/simplicial_formula.hpp"],
 [("measure via triangulation", "geometry/geometry_generic.hpp")], ["return values of the geometric queries"], done=True)
prop("G02", "Outward normals are unit, orthogonal to their face and close the cell",
 "The normal of a face seen from a cell has unit length, is orthogonal to the face, points out of the cell, is opposite to the one seen from the neighbour, and the measure-weighted normals of a cell sum to zero, so that the divergence theorem holds for every polynomial field integrated with the library's own quadratures.",
 ["inputs"], "every cell of every mesh family and every polynomial field of moderate degree", "the test checks one field on three unit meshes",
 ["geometry/geometry_all.hpp", "quadratures/quadratures.hpp"], [("orientation from barycenters", "geometry/geometry_all.hpp")], ["normal vectors and surface/volume integrals"], done=True)
prop("G03", "Element decompositions and point location cover each element exactly once",
 "The triangulation of a polygon and the tetrahedral decomposition of a polyhedron consist of simplices of the element's own points whose measures add up to the element and which do not overlap; point-in-cell answers true exactly for the points of the closed convex cell; inertia and local axes are orthogonal frames that diagonalise the second moments.",
 ["inputs"], "every convex and non-convex polygon, every convex polyhedron, every query point", "the triangulation test uses a handful of fixed polygons",
 ["geometry/geometry_all.hpp", "geometry/geometry_generic_triangulations.hpp", "geometry/geometry_generic.hpp", "quadratures/bits/raw_simplices.hpp", "contrib/earcut.hpp"],
 [("fan / ear-cut / external triangulations", "geometry/geometry_generic_triangulations.hpp")], ["the simplices returned and point-in-cell answers"], done=True)
# ---------------------------------------------------------------- quadratures
prop("Q01", "Cell quadratures integrate every polynomial of the requested degree exactly",
 "On every cell of every supported mesh family the quadrature of a requested degree integrates all polynomials up to that degree exactly, for every degree the library accepts; weights sum to the measure and unsupported degrees are refused instead of answered wrongly.",
 ["inputs"], "every cell geometry, every degree, every polynomial of that degree", "tests sample a few monomials on single reference-like cells",
 ["quadratures/quadratures.hpp", "quadratures/bits/quad_phys_generic.hpp", "quadratures/bits/quad_phys_simplicial.hpp", "quadratures/bits/quad_phys_cartesian.hpp", "quadratures/quad_bones.hpp"],
 [("physical quadratures built from reference rules", "quadratures/quadratures.hpp")], ["integrals compared with exact ones"], done=True)
prop("Q02", "Face quadratures integrate every polynomial of the requested degree exactly",
 "On every face (segment, triangle, parallelogram, planar polygon) of every mesh family the quadrature of a requested degree integrates all polynomials up to that degree exactly and its points lie on the face.",
 ["inputs"], "every face geometry, every degree, every polynomial of that degree", "tests cover only one or two fixed faces, and the tetrahedral face test is not reliable",
 ["quadratures/quadratures.hpp", "quadratures/bits/quad_phys_generic.hpp", "quadratures/bits/quad_phys_simplicial.hpp", "quadratures/bits/quad_phys_cartesian.hpp"],
 [("physical face quadratures", "quadratures/quadratures.hpp")], ["integrals compared with exact ones"], done=True)
prop("Q03", "Reference quadrature rules reach their advertised order",
 "Every one-dimensional, triangular, quadrangular and tetrahedral reference rule integrates all polynomials up to its advertised degree over the simplex or box it is given, its weights sum to the measure, its points stay in the closed element where the rule promises so, and degrees beyond the tables are refused.",
 ["inputs"], "every rule, every degree up to and beyond the tables, every element geometry", "the raw-rule tests are not part of the reliable suite and use fixed elements",
 ["quadratures/bits/quad_raw_gauss.hpp", "quadratures/bits/quad_raw_gauss_lobatto.hpp", "quadratures/bits/quad_raw_triangle.hpp", "quadratures/bits/quad_raw_tetra.hpp", "quadratures/bits/triquad.hpp", "quadratures/quad_bones.hpp"],
 [("tabulated rules", "quadratures/quadratures_raw.hpp")], ["integrals compared with exact ones"], done=True)
# ---------------------------------------------------------------- bases
prop("B01", "Scalar bases span the polynomials and their gradients are the derivatives",
 "Each scalar polynomial basis of degree k on a cell or face has exactly dim P_k functions, which are linearly independent and span P_k of that element; basis functions of lower degree are a prefix; the evaluated gradients are the exact derivatives of the evaluated functions, wherever the element lies and whatever its size and shape.",
 ["inputs"], "every element, every basis family, every degree, every evaluation point", "tests integrate a few fixed functions at degree 1 and 2",
 ["bases/bases_scalar.hpp", "bases/bases_utils.hpp"], [("scaled monomial, Legendre and harmonic bases", "bases/bases_scalar.hpp")], ["values and gradients of the basis functions"], done=True)
prop("B02", "Vector and matrix bases and their differential operators are consistent",
 "Vector, matrix, symmetric-matrix, Raviart-Thomas and Nedelec-type bases have the documented dimension and are linearly independent; gradients, symmetric gradients, divergences and curls they evaluate are the exact derivatives of the evaluated functions.",
 ["inputs"], "every element, basis family, degree and evaluation point", "no test evaluates these operators against derivatives",
 ["bases/bases_vector.hpp", "bases/bases_matrix.hpp"], [("tensor-product and Raviart-Thomas spaces", "bases/bases_vector.hpp")], ["values and derivatives of the basis functions"], done=True)
prop("B03", "L2 projection reproduces polynomials and is the orthogonal projection",
 "Projecting a polynomial of the space onto a cell or face basis returns that polynomial; projecting any function leaves a residual orthogonal to the space; projections commute with transfer between degrees. Mass and stiffness matrices are the exact Gram matrices: symmetric, definite up to constants.",
 ["inputs"], "every element, degree and function", "tests check convergence of one function",
 ["bases/bases_utils.hpp", "bases/bases_all.hpp", "bases/bases_operations.hpp"], [("mass-matrix solve", "bases/bases_utils.hpp")], ["projected coefficients evaluated at points"], done=True)
prop("B04", "Composable bases agree with direct differentiation and integration",
 "In the composable basis interface, values, gradients, normal traces and products of bases, their integrals over cells and faces, and L2 projections are consistent with each other and with exact differentiation and integration, for each rescaling strategy and scale factor.",
 ["inputs"], "every element, degree, rescaling strategy and evaluation point", "tests sample degrees 1-2 of one strategy",
 ["bases/bases_new.hpp", "bases/bases_operations.hpp", "bases/bases_traits.hpp"], [("scaled_monomial_basis, grad, dot, L2_projector", "bases/bases_new.hpp")], ["values, gradients and integrals"], done=True)
# ---------------------------------------------------------------- HHO local operators
prop("H01", "Potential reconstruction reproduces polynomials and is elliptic-consistent",
 "On any cell and for every admissible pair of cell and face degrees, reconstructing the interpolate of a polynomial of the reconstruction degree returns it up to a constant, so the local bilinear form gives the exact energy for such polynomials; for any degrees of freedom the form is symmetric, non-negative and vanishes on constants. Variable diffusion tensors obey the same consistency.",
 ["inputs"], "every cell geometry, degree pair (equal, mixed, lower/higher order), diffusion tensor and polynomial", "tests do not cover the reconstruction on polytopes at all",
 ["methods/implementation_hho/scalar_hho_laplacian.hpp", "methods/implementation_hho/utils_hho.hpp", "methods/implementation_hho/methods_hho.hpp"], [("make_scalar_hho_laplacian and variants", "methods/implementation_hho/scalar_hho_laplacian.hpp")], ["local operator and matrix applied to interpolated polynomials"], done=True, variants=[["v_H01.cpp",["-DFAM=%d" % i]] for i in range(1,6)])
prop("H02", "Stabilizations are symmetric non-negative and vanish on polynomials",
 "Each scalar stabilization is symmetric and non-negative, vanishes on interpolates of polynomials of the degree it promises, and together with the consistent form leaves only constants in the kernel.",
 ["inputs"], "every cell geometry, degree pair and stabilization variant", "no test",
 ["methods/implementation_hho/scalar_stabilization.hpp"], [("HHO / HDG / dG stabilizations", "methods/implementation_hho/scalar_stabilization.hpp")], ["local stabilization matrices"], done=True, variants=[["v_H02.cpp",["-DFAM=%d" % i]] for i in range(1,6)])
prop("H03", "Static condensation is equivalent to solving the full local system",
 "Eliminating cell unknowns and recovering them afterwards gives exactly the solution of the uncondensed system, for scalar and vector problems with a definite cell block and, in the general block elimination, for any invertible (indefinite, nonsymmetric, complex) block, for any number of faces, degrees and right-hand sides; condensed symmetric definite systems stay symmetric definite.",
 ["inputs"], "every cell, degree pair, non-singular local matrix and right-hand side", "no test",
 ["methods/implementation_hho/scalar_hho_condensation.hpp", "methods/implementation_hho/vector_hho_condensation.hpp", "methods/implementation_hho/curl.hpp"], [("Schur complement", "methods/implementation_hho/scalar_hho_condensation.hpp")], ["condensed and recovered vectors compared with a dense solve"], done=True)
prop("H04", "Vector reconstructions and stabilizations respect rigid motions and polynomials",
 "For vector-valued problems, symmetric-gradient and full reconstructions reproduce polynomial displacements, vanish exactly on rigid-body motions (or constants), give symmetric non-negative local forms, and the vector stabilizations vanish on polynomials and leave only that kernel.",
 ["inputs"], "every cell geometry, degree pair and polynomial displacement", "no test",
 ["methods/implementation_hho/vector_hho_laplacian.hpp", "methods/implementation_hho/vector_stabilization.hpp", "methods/implementation_hho/utils_hho.hpp"], [("make_vector_hho_symmetric_laplacian and vector stabilizations", "methods/implementation_hho/vector_hho_laplacian.hpp")], ["local operators applied to interpolated displacements"], done=True, variants=[["v_H04.cpp",["-DFAM=%d" % i]] for i in range(1,6)])
prop("H05", "Gradient and divergence reconstructions commute with projection",
 "Reconstructed gradients (scalar, vector, symmetric, Raviart-Thomas) and divergences of the interpolate of a smooth function are the L2 projections of its gradient and divergence, hence exact for polynomials of the matching degree.",
 ["inputs"], "every cell geometry, degree pair and polynomial function", "no test",
 ["methods/implementation_hho/vector_hho_gradrec.hpp", "methods/implementation_hho/matrix_hho_gradrec.hpp", "methods/implementation_hho/scalar_hho_divrec.hpp"], [("gradrec and divrec", "methods/implementation_hho/vector_hho_gradrec.hpp")], ["reconstructed fields at points"], done=True, variants=[["v_H05.cpp",["-DFAM=%d" % i]] for i in range(1,6)])
prop("H06", "Curl reconstruction and stabilization are consistent on polynomial fields",
 "The curl reconstruction of the interpolate of a vector field is the projection of its curl, exact for polynomial fields of the matching degree, vanishes on interpolated gradients, and the curl stabilizations vanish on interpolated polynomials and are symmetric non-negative.",
 ["inputs"], "every polyhedral or polygonal cell, degree and polynomial field", "no test",
 ["methods/implementation_hho/curl.hpp", "bases/bases_vector.hpp"], [("curl_reconstruction, curl_hdg_stabilization", "methods/implementation_hho/curl.hpp")], ["local operators applied to interpolated fields"], done=True, variants=[["v_H06.cpp",["-DFAM=%d" % i]] for i in range(1,5)])
# ---------------------------------------------------------------- global
prop("A01", "Assembly equals the sum of local contributions with boundary conditions",
 "For any mesh, degrees and local matrices, the assembled system is the sum of local contributions with Dirichlet unknowns eliminated and natural conditions added; solving it and distributing the solution back to a cell gives the prescribed Dirichlet values on Dirichlet faces and the solved values elsewhere.",
 ["inputs"], "every mesh, numbering, boundary-condition layout, degree and set of local matrices", "no test",
 ["methods/implementation_hho/assembler_hho.hpp", "methods/hho_assemblers.hpp", "methods/implementation_hho/methods_hho.hpp"], [("assemble / take_local_data / finalize", "methods/implementation_hho/assembler_hho.hpp")], ["assembled sparse system compared with a dense reference"], done=True, variants=[["v_A01.cpp",["-DFAM=%d" % i]] for i in range(1,6)])
prop("A02", "Boundary-condition bookkeeping answers consistently for every layout",
 "For any assignment of boundary conditions to boundary ids, every face is reported with the kind, component mask and prescribed function that were registered for its id, counts match the faces, faces outside the registered ids carry none and asking for their function is refused, and a later registration of the same kind replaces the earlier one on the faces they share.",
 ["inputs", "histories"], "every mesh and every sequence of boundary-condition registrations", "no test",
 ["boundary_conditions/boundary_conditions.hpp"], [("scalar and vector boundary conditions", "boundary_conditions/boundary_conditions.hpp")], ["query results"], done=True)
prop("A03", "Discrete solutions reproduce polynomial solutions on any mesh",
 "Solving a diffusion or linear-elasticity problem whose exact solution is a polynomial of the reconstruction degree, on any mesh, degree pair, consistent stabilization and mix of Dirichlet (full or by component), Neumann and Robin conditions, returns that polynomial up to round-off.",
 ["inputs", "configurations"], "every mesh, degree pair, polynomial solution and boundary-condition layout", "no end-to-end test exists",
 ["methods/hho", "methods/implementation_hho/scalar_hho_laplacian.hpp", "methods/implementation_hho/assembler_hho.hpp", "methods/hho_slapl.hpp"], [("HHO diffusion pipeline", "methods/implementation_hho/methods_hho.hpp")], ["solution degrees of freedom compared with the interpolate of the exact solution"], done=True, variants=[["v_A03.cpp",["-DFAM=%d" % i]] for i in range(1,4)])
prop("A04", "Conforming finite elements and discontinuous Galerkin pass the patch test",
 "The conforming finite element kernels integrate affine functions exactly and the discontinuous Galerkin assembler couples neighbouring cells as prescribed, so that patch tests with polynomial solutions are satisfied on any admissible mesh.",
 ["inputs"], "every admissible mesh, polynomial and penalty", "no test",
 ["cfem/cfem.hpp", "methods/dg"], [("cfem kernels, dg assembler", "cfem/cfem.hpp")], ["local matrices and solved systems"], done=True)
prop("A05", "Discrete geometric operators are exact sequences with consistent materials",
 "On any tetrahedral mesh the discrete gradient and curl compose to zero and agree with the integrals of fields along edges and faces, primal and dual edges and areas are dual to each other with consistent orientation and outward normals, the material matrices are symmetric positive definite and map constant fields on primal elements to constant fields on dual ones, and discrete problems with affine solutions are solved exactly.",
 ["inputs"], "every tetrahedral mesh and constant or affine field", "tests use one structured mesh",
 ["methods/dga", "methods/implementation_dga/methods_dga.hpp"], [("incidence matrices, edge/face material matrices", "methods/implementation_dga/methods_dga.hpp")], ["operators and matrices"], done=True)
prop("A06", "Virtual element projectors and forms are polynomially consistent",
 "On any polygon and for any degree the virtual element projectors return polynomials of their degree unchanged and are the energy and L2 projections on them, the local stiffness matrix is symmetric, non-negative, has only constants in its kernel and is exact on polynomials, condensed moments are recovered exactly, the global numbering is conforming across edges, and discrete problems with polynomial solutions are solved exactly.",
 ["inputs"], "every polygon, degree and polynomial", "no test",
 ["methods/vem", "methods/implementation_vem/methods_vem_2d.hpp"], [("VEM local matrices", "methods/implementation_vem/methods_vem_2d.hpp")], ["local matrices applied to polynomial degrees of freedom"], done=True)
prop("A07", "Local polynomial degrees stay coherent across cells and faces",
 "For any history of degree and unknown assignments to cells and faces, the degree bookkeeping reports what was last assigned, identically from both cells sharing a face, and the offsets and interpolations computed from it partition the local unknowns without gaps or overlaps.",
 ["inputs", "histories"], "every mesh and assignment of degrees", "no test",
 ["adaptivity/adaptivity.hpp", "methods/implementation_hho/utils_hho.hpp", "methods/implementation_hho/methods_hho.hpp"], [("MeshDegreeInfo", "adaptivity/adaptivity.hpp")], ["reported degrees and offsets"], done=True)
# ---------------------------------------------------------------- mechanics
prop("L01", "Constitutive laws return the stress of their energy and a consistent tangent",
 "For every elastic or hyperelastic law, the stress returned for a deformation is the derivative of the stored energy, the tangent modulus is the derivative of the stress, the stress vanishes and the law reduces to linear elasticity at the reference state wherever its energy says so, and rotating the body rotates the stress (Hencky-Mises: its documented secant stress and elastic modulus). The behaviour dispatcher gives each quadrature point of each cell exactly the law, state and stress projection of the selected model and refuses unsupported combinations.",
 ["inputs"], "every material parameter set and admissible deformation", "the test runs one uniaxial path",
 ["mechanics/behaviors/laws/behaviorlaws.hpp", "mechanics/behaviors/laws/Neohookean/Neohookean_qp.hpp", "mechanics/behaviors/laws/Cavitation/Cavitation_qp.hpp", "mechanics/behaviors/laws/HenckyMises/HenckyMises_qp.hpp", "mechanics/behaviors/laws/LinearLaw/LinearLaw_qp.hpp"],
 [("compute_whole / compute_stress", "mechanics/behaviors/laws/behaviorlaws.hpp")], ["stress and tangent"], done=True)
prop("L02", "Plastic laws stay admissible along every loading history",
 "Along any loading history, hardening plasticity never leaves the yield surface, accumulates non-decreasing plastic strain, is elastic inside the surface, keeps plastic flow volume-preserving, returns the consistent tangent, and only an explicit update commits the state.",
 ["histories"], "every material parameter set and loading history with trial evaluations and commits", "the test follows one monotone path",
 ["mechanics/behaviors/laws/IsotropicHardeningVMis/IsotropicHardeningVMis_qp.hpp", "mechanics/behaviors/laws/LinearIsotropicAndKinematicHardening/LinearIsotropicAndKinematicHardening_qp.hpp", "mechanics/behaviors/laws/materialData.hpp"],
 [("radial return", "mechanics/behaviors/laws/LinearIsotropicAndKinematicHardening/LinearIsotropicAndKinematicHardening_qp.hpp")], ["stress, internal variables, tangent"], done=True)
prop("L03", "Tensor algebra and stress/strain conversions satisfy their identities",
 "Conversions between stress measures, Voigt-like and matrix forms, fourth-order tensor products, and logarithmic-strain transformations satisfy their defining identities and derivatives for every admissible deformation.",
 ["inputs"], "every tensor and admissible deformation gradient", "no test",
 ["mechanics/behaviors/maths_tensor.hpp", "mechanics/behaviors/tensor_conversion.hpp", "mechanics/behaviors/logarithmic_strain/logarithmic_tools.hpp", "mechanics/behaviors/logarithmic_strain/LogarithmicStrain_qp.hpp"],
 [("tensor products and conversions", "mechanics/behaviors/maths_tensor.hpp")], ["tensors"], done=True)
prop("L04", "Time stepping covers every requested interval in order",
 "For any list of time steps and any sequence of successful and failed steps, the time manager visits contiguous, increasing steps, halves a failed step, keeps its counters and subdivision levels right, reaches every requested time exactly and stops at the final time. Solver parameter files yield exactly the parameters they state; truncated or malformed ones are refused without hanging.",
 ["histories"], "every list of steps and every pattern of failures", "no test",
 ["mechanics/NewtonSolver/TimeManager.hpp", "mechanics/NewtonSolver/NewtonSolverParameters.hpp", "mechanics/NewtonSolver/StabilizationManager.hpp"], [("list of steps with bisection", "mechanics/NewtonSolver/TimeManager.hpp")], ["sequence of steps"], done=True)
# ---------------------------------------------------------------- support
prop("S01", "Rational and point arithmetic obey the field and vector-space laws",
 "Exact rational numbers obey the field axioms, stay normalised and order-consistent, and points obey the vector-space laws over any scalar type, with products, norms and comparisons consistent with their coordinates.",
 ["inputs"], "every operand within range and every expression", "tests evaluate one matrix inverse",
 ["mesh/rational.hpp", "mesh/point.hpp", "mesh/ident.hpp"], [("rational with gcd reduction", "mesh/rational.hpp")], ["results of arithmetic"], done=True)
prop("S02", "Exported files hold exactly the mesh and the variables given",
 "A mesh of any supported family, a cloud of points, and zonal, nodal or point variables (real, complex, single precision, vectors with their expression) written to a visualisation database are read back by the file-format library with the same coordinates, connectivity, face orientation, centering and values, whatever the sequence of writes, reopenings and recreations of the database; a write that cannot be done is reported as failed, does not crash and does not spoil the following ones. The triangular mesh built for post-processing splits every cell of a two-dimensional mesh.",
 ["inputs", "histories"], "every mesh family, variable and history of writes", "no test",
 ["output/silo.hpp", "output/postMesh.hpp", "quadratures/bits/raw_simplices.hpp"], [("silo database", "output/silo.hpp")], ["file contents read back through the file-format library"], done=True)