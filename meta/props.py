prop('C01', 'All processes take part in the same collective operations in the same order',
     'Whatever the number of processes and whatever data each of them holds, every process of a parallel run performs the same sequence of collective communications with the same root. No collective communication is reached on some processes only because a value that may differ between them (rank, locally held elements, received or gathered data, clock, random numbers) decided so. A run therefore never hangs or mixes up the messages of two collectives.',
     ['configurations', 'inputs', 'schedules'],
     'for every number of processes, every distribution of elements over processes, and every program that calls the library in the same way on all processes',
     'the tests run with one and two processes on a few meshes in which every process holds elements of every kind; a collective skipped on one process only shows for other process counts, distributions or data',
     ['root', 'objects', 'components', 'tools'],
     [('collective operations of the communicator', 'root/config/main.py and every use of COMM'),
      ('per-process data structures', 'tools/elementwiseCache, tools/miLinearAlgebra, objects/*/mesh')],
     technique='interprocedural rank-dependence (uniformity) dataflow over a points-to call graph',
     note='sound up to: exceptions not followed, memoised first-access collectives assumed aligned, unresolved dynamic calls not followed; replication table of attributes listed in evidence')
FT = 'abstract interpretation of the source into an exact algebraic normal-form domain (symbolic differentiation rules), path-enumerating'
FN = 'floating point ignored: formulas are compared as real functions; values outside the fragment are counted as undecided in evidence'
prop('C11', 'Closed-form Jacobians are the exact derivatives of their mappings',
     'For every region geometry of the 2d and 3d structured meshes (transfinite regions, surface and edge geometries, '
     'interpolations) and every chart/mapping that offers both a mapping and a closed-form Jacobian, each entry of the '
     'Jacobian (matrix entries, X_r-like component functions, combined and separate accessors) equals the exact partial '
     'derivative of the mapping component with respect to the reference coordinate, at every point, for every admissible '
     'parameter value and on every branch; and the component accessors (X, Y, Z) equal the components of the mapping.',
     ['inputs', 'configurations'],
     'for all reference coordinates, all domain parameters and every branch of every mapping class',
     'tests compare a handful of points of a few sample domains; a wrong sign or factor in a region that no test meshes, or that cancels for the default parameters, is invisible',
     ['objects/CSCG/_2d/mesh', 'objects/CSCG/_3d/mesh'],
     [('transfinite interpolations and edge/side geometries', 'objects/CSCG/_*d/mesh/domain/regions/region'),
      ('element coordinate transformation', 'objects/CSCG/_*d/mesh/elements')],
     technique=FT, note=FN)
prop('C14', 'Exact solutions publish fields that satisfy the relations their names state',
     'In every exact-solution class (incompressible Navier-Stokes, Euler, Stokes, MHD, Poisson, icpsNS, TISE, wave, '
     'port-Hamiltonian, 2d and 3d, structured and triangular), every method named as a derivative (u_x, v_t, p_xy ...) is the '
     'exact derivative of the method it is derived from, and every published field is what its name says: vorticity is the curl '
     'of the published velocity, divergence/gradient/curl fields are those of their base field, kinetic energy, helicity, '
     'enstrophy, palinstrophy, total pressure are the usual densities, body forces and sources balance the governing equation. '
     'This holds for all points, times and parameters and whatever the order in which the fields are accessed.',
     ['inputs', 'configurations', 'histories'],
     'for all points, times, parameters of the solution and access orders of its fields',
     'the tests use a few solutions at default parameters and instants; wrong derivatives that vanish there, or a memo slot shared between two fields, are not seen',
     ['objects/CSCG/_2d/exactSolutions', 'objects/CSCG/_3d/exactSolutions', 'objects/miUsGrid/triangular/exactSolution'],
     [('exact solution status classes', 'exactSolutions/**/base.py, **/main.py')],
     technique=FT, note=FN + '; governing-equation balance is required of classes defined for all times (valid_time is None)')
prop('C16', 'Metric quantities and element faces agree with the element map',
     'For elements, trace elements and regions of every mesh: Jacobian = det J, metric = det(J^T J), metric_matrix = J^T J, '
     'inverse_Jacobian_matrix is the inverse of J, inverse_Jacobian = 1/det J, inverse_metric_matrix is the inverse of J^T J, '
     'whether or not precomputed intermediate data is handed in; the map of a side, edge or corner is the restriction of the '
     'element map to it; normal vectors are the ones of the Jacobian; and the collective, lazily evaluated, vectorised and '
     'quadrature variants return for every element exactly that element\'s own value.',
     ['inputs', 'configurations'],
     'for all Jacobian matrices, reference coordinates, element kinds (orthogonal, affine, curved) and call variants',
     'tests evaluate metric terms on few meshes where entries are symmetric or vanish; an index slip in a cofactor, or a variant that returns a neighbour\'s value, passes there',
     ['objects/CSCG/_2d/mesh', 'objects/CSCG/_3d/mesh', 'objects/miUsGrid/triangular/mesh'],
     [('coordinate transformations', 'objects/**/coordinate_transformation*'),
      ('sub-elements', 'objects/CSCG/_3d/mesh/**/{trace,edge,node}')],
     technique=FT, note=FN)
prop('C12', 'Operations on continuous fields are the vector-calculus operations they name',
     'For every continuous scalar, vector and tensor field (2d, 3d structured, triangular) and every function wrapper (t2dScalar, '
     't3dVector ...), the result of time_derivative, gradient, curl, rot, divergence, convection_by, dot/inner_product, '
     'cross_product, negation, sum, difference, product with a number or a scalar, and of the normal, parallel, perpendicular '
     'and flux traces has exactly the components of that operation applied to the component functions, has the right rank, lives on the '
     'same mesh with the same valid time, and leaves its operands unchanged. The numerical derivative and Jacobian classes '
     'differentiate in the variable asked for and order the entries as documented. The functions of an instant are the field at '
     'that instant whatever instants were asked for before.',
     ['inputs', 'histories'],
     'for all component functions, points, times and operand combinations',
     'tests use a few smooth fields at a few points, often symmetric ones for which swapped or missing terms vanish; several operations (triangular fields, wrappers) are never called',
     ['components/functions', 'components/numerical', 'objects/CSCG/_2d/fields', 'objects/CSCG/_3d/fields', 'objects/miUsGrid/triangular/fields'],
     [('function wrappers', 'components/functions/timePlus*dSpace/wrappers'), ('fields', 'objects/**/fields/**/main.py'),
      ('numerical derivatives', 'components/numerical')],
     technique=FT, note=FN + '; finite differences are read as exact derivatives')
prop('C13', 'Local operators of forms respect the pull-back of their degree',
     'For every standard form of the structured 2d and 3d meshes and of the triangular mesh, on every element (unit, orthogonal or '
     'curved): reconstruct returns at each reference point the value of the form, i.e. local cochain times basis functions pulled back '
     'to physical space according to the degree (value for a 0-form, J^-T for a 1-form or its rotated form, J/detJ for a 3d 2-form, '
     '1/detJ for a volume form), in the order of the requested points, together with the mapped points; reconstruction matrices are '
     'that same linear map; the mass matrix (and inner product of two forms) is the integral of the products of the pulled-back basis functions; wedge '
     'matrices are the metric-free integral of basis products; the cross-product operators (2M1, 2M0, MDM variants) '
     'are the integral of the triple product of their arguments in the documented order; and compute_Ln_energy, compute_Ln_norm, '
     'compute_Ln_diff_from, compute_L2_energy_with and the L^n errors are the corresponding integrals of the reconstructed form over all elements. '
     'Vectorised, per-element and cached-by-type evaluation all give this value.',
     ['inputs', 'configurations'],
     'for all cochains, Jacobians, basis values and quadrature points, every degree combination the code accepts, every element kind and evaluation variant',
     'tests use few meshes, often orthogonal ones where the off-diagonal terms vanish and points at which orderings are symmetric; the cross-product operators are called in few degree combinations',
     ['objects/CSCG/_2d/forms/standard', 'objects/CSCG/_3d/forms/standard', 'objects/miUsGrid/triangular/forms/standard'],
     [('reconstruction', 'forms/standard/*/reconstruct.py, do.py'), ('local matrices', 'forms/standard/**/{mass,inner,wedge,special}*'),
      ('integral quantities', 'forms/standard/base/{do,error}.py')],
     technique='abstract interpretation of the source over labelled symbolic arrays (axes carry the point/basis ordering) compared with the pull-back formulas in an exact normal form',
     note=FN + '; basis functions, Jacobians and quadrature are opaque symbols here (C11, C16 cover the Jacobians)')
prop('C09', 'Element-wise cached matrices and vectors mean their local values',
     'For EWC_SparseMatrix, EWC_ColumnVector and MultiDimMatrix, reading element i of an expression always gives the operation applied to what '
     'the operands give at element i: negation, scaling, division, transpose, inverse, sum, difference, matrix product, matrix-vector '
     'product, sums of several, nested expressions, bmat, concatenate, and the array reductions (eliminating dimensions with cochains, '
     'reduction to a vector, evaluation, derivative contributions). Caching is an optimisation only: whatever the cache keys of the operands '
     '(constant, uncached, shared between some elements, all different, dictionaries), whether an operand is customised, and however often '
     'and in whichever order elements are read, no element is served the value of another one or a stale uncached one. Gathering matrices '
     'set on operands carry over as documented (swapped by the transpose); customisations and adjustments change exactly the rows and entries '
     'they name; and the assembled matrix or vector is the sum over the elements of the local entries scattered by the gathering matrices, '
     'for csr and csc storage, cached sparsity and locked assembly.',
     ['inputs', 'histories', 'configurations'],
     'for all local values, every combination of operators, cache-key kinds of the operands, customisations, storage formats, and repeated reads with changing uncached data',
     'tests multiply a handful of matrices of one cache kind; a wrong cache key only shows for particular pairs of kinds (a constant vector plus a varying one, a customised constant operand) read in a particular order',
     ['tools/elementwiseCache/dataStructures'],
     [('matrix', 'objects/sparseMatrix/{main,customize,adjust,assembler,do}.py, helpers/*.py'),
      ('vector', 'objects/columnVector/{main,customize,adjust,assembler}.py, helpers/*.py'),
      ('arrays', 'objects/multiDimMatrix/**'), ('block operators', 'operators/{bmat,concatenate}/**')],
     technique='abstract interpretation of the source over words of opaque non-commuting local matrices; each result is compared in normal form with the operation on the local values, for every combination of cache-key kinds',
     note='covers one process; three elements per object stand for any number (keys are compared only for equality)')
