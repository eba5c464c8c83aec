NOT_APPLICABLE = []


def register(p):
    p('E01', "EDGE's reference/physical mappings and geometry are consistent",
      "For every non-degenerate element: the reference-to-physical mapping is the affine map of its vertices, the physical-to-reference mapping is its inverse (inside and outside of the element), and the Jacobian matches. A point on a face shared by two elements has the same physical location when mapped through the face coordinates of either element, for all combinations of local faces and vertex orientations. Point location reports a point as inside exactly if it lies inside the element. Reported volumes, in-diameters and closest points are exact, vector operations, angles and distances are exact, rotation matrices are orthonormal and turn the first into the second given direction along the shortest way, and half-space domains contain exactly the points satisfying all their half-space conditions.",
      ['inputs'], 'all non-degenerate elements of the five types, all points, faces and orientations',
      'Unit tests check single hard-coded elements and points.',
      ['src/linalg/Mappings.hpp', 'src/linalg/Geom.hpp', 'src/linalg/HalfSpace.hpp', 'src/linalg/Domain.hpp', 'src/constants.hpp'],
      [('Mappings::refToPhy, phyToRef, evalJac, faLocToRef', 'src/linalg/Mappings.hpp'), ('Geom::inside, volume, inDiameter, closestPoint', 'src/linalg/Geom.hpp')],
      'random elements, pairs of adjacent elements and points against independent affine geometry', 'PBT: random elements and points vs. independent affine geometry')

    p('E02', "EDGE's dense and sparse matrix kernels compute the exact products",
      "For all sizes, leading dimensions, numbers of fused simulations, scalings and sparsity patterns: determinants and inverses are exact up to rounding, the dense and fused small matrix-matrix kernels equal the textbook product (including the beta case and untouched padding), conversions between dense, coordinate, CSR and CSC formats (also of sub-matrices), transposition and the detection of non-zero blocks are lossless, and fill-ins for vector instructions only add stored zeros: they never change, move or lose a value.",
      ['inputs'], 'all matrix sizes, strides, fused runs, scalings and sparsity patterns',
      'Unit tests check a handful of hard-coded matrices.',
      ['src/linalg/Matrix.h', 'src/data/MmVanilla.hpp'],
      [('Matrix::det, inv, matMul*, denseToCrd/Csr/Csc, fillIn', 'src/linalg/Matrix.h'), ('MmVanilla', 'src/data/MmVanilla.hpp')],
      'random matrices against naive dense arithmetic', 'PBT: random matrices vs. naive dense linear algebra')
    p('E03', 'Sampled source time series are integrated exactly',
      "For every uniformly sampled time series (any onset, sampling interval and number of samples and series) and every time interval, before, inside, across or after the sampled range, also within one sampling interval or ending on samples: the integral over the interval is the exact integral of the piecewise linear interpolant of the samples, which has the given not-available value (default: zero) outside of the sampled range; integrals are therefore additive over adjacent intervals.",
      ['inputs'], 'all series, onsets, sampling intervals, times and intervals',
      'Unit tests check a few hand-picked intervals.',
      ['src/linalg/Series.hpp'],
      [('Series::integrate', 'src/linalg/Series.hpp')],
      'random series and intervals against an independent piecewise linear model', 'PBT: random series vs. piecewise linear model')
    p('E04', 'Basis functions, quadrature rules and projections are exact',
      "For every element type, order, mode and point the evaluated basis function and its partial derivatives are those of the documented orthogonal modal basis. Quadrature points lie in the element, weights are positive and polynomials are integrated exactly up to the rule's degree (with n points per direction 2n-1 for lines, rectangles and hexes, 2n-2 for triangles, 2n-3 for tetrahedra and n > 1) on every admissible physical element. Projecting sampled polynomials returns their modes, evaluating modes returns the function, and quadrature points of a face seen from both adjacent elements coincide for all faces and vertex orientations.",
      ['inputs', 'configurations'], 'all element types, orders, modes, points, polynomials and elements',
      'Unit tests check sizes and a few points of low orders.',
      ['src/dg/Basis.cpp', 'src/dg/Basis.h', 'src/dg/generated', 'src/dg/QuadraturePoints.h', 'src/dg/QuadratureEval.hpp'],
      [('Basis::evalBasis, qpts2modal, modal2ptval', 'src/dg/Basis.cpp'), ('QuadraturePoints::getQpts', 'src/dg/QuadraturePoints.h'), ('QuadratureEval::faces, element', 'src/dg/QuadratureEval.hpp')],
      'random points, modes, elements and polynomials against an independent recurrence-based basis and quadrature', 'PBT: random inputs vs. independent basis (recurrences) and quadrature')
    p('E06', 'Sub-cell limiter operators: conservative, conforming, first-order FV steps',
      "The preprocessed sub-cell tables reach the solvers unchanged. Scattering gives the sub-cell averages, gathering inverts it and keeps the mean; stored sub-cell solutions replace only the runs marked inadmissible; surface data is handed over in the neighbor's order. The extrema and the discrete maximum principle flag exactly the runs whose candidate leaves the bounds of the neighborhood by more than the tolerance. Ghost sub-cells mirror at free surfaces and vanish at outflow. A sub-cell time step is the first-order local Lax-Friedrichs finite volume step on the physical sub-grid, with net-updates where requested. Double buffers and counters follow the steps of any history, super-cells average pairs at a face, links of internal boundaries, limited elements and duplicates are mutually consistent, and points are located in the closest sub-cell.",
      ['inputs', 'configurations', 'histories'], 'all element types, orders, fused runs, solutions, materials, meshes, limited elements and step histories',
      'The tests use single matrices and elements with hard-coded results, for one configuration each.',
      ['src/sc', 'src/impl/seismic/sc'],
      [('connect, svChars, ops, data, liDoLiDu', 'src/sc/Init.hpp'), ('scatter, gather, scatterReplace*, gatherSurfDofs, dgExtrema, sfInt', 'src/sc/Kernels.hpp'), ('dmpVe, dmpFa', 'src/sc/Detections.hpp'), ('faSg, ptSc', 'src/sc/SubGrid.hpp'), ('get*Ids, reset*', 'src/sc/Steering.hpp'), ('connect, super-cells', 'src/sc/ibnd'), ('alloc, init, nuFaSf, tsSc', 'src/impl/seismic/sc/Llf.hpp'), ('apply', 'src/impl/seismic/sc/Boundary.hpp')],
      'random solutions, meshes, materials and histories; sub-grids are regenerated by EDGEpre and every result is compared with naive operators or the physical geometry of the sub-cells', 'PBT: random states and histories vs. naive FV/projection reference')
    p('E07', 'Seismic flux solvers, Jacobians and attenuation follow the wave equations',
      "For every material pair, face orientation and element: the star matrices are the Jacobians of the (visco)elastic wave equations in the reference coordinates; the face-rotation matrices are mutually inverse and rotate stresses and velocities correctly; the solution of the Riemann problem is the exact Godunov state (consistent for equal states, satisfies traction and velocity continuity, handles free surfaces and outflow, fluid-like and contrasting materials); the flux solvers set up for a mesh, including periodic, partition-boundary, free-surface and outflow faces, combine these with the right side, sign and scaling. Attenuation: relaxation frequencies are log-spaced over the band, the anelastic coefficients are the least-squares fit of constant Q, the phase velocity at the reference frequency is the prescribed one, and the seismic CFL time step follows the P-wave speed.",
      ['inputs', 'configurations'], 'all material parameters, normals, elements, boundary conditions, quality factors and frequency bands',
      'Unit tests check single hard-coded materials and faces; most of the material/normal/boundary combinations are never sampled.',
      ['src/impl/seismic/setups', 'src/impl/seismic/solvers/AderDgInit.hpp', 'src/impl/seismic/common.hpp', 'src/impl/seismic/solvers/common.hpp'],
      [('Elasticity::star, fluxes, trafo', 'src/impl/seismic/setups/Elasticity.cpp'), ('ViscoElasticity::frequencies, anelasticCoeff, elasticLame', 'src/impl/seismic/setups/ViscoElasticity.cpp'), ('AderDgInit::initStar, initFs', 'src/impl/seismic/solvers/AderDgInit.hpp')],
      'random materials, normals and meshes against an independent eigen-decomposition based Godunov solver, analytic Jacobians and a dense least-squares fit', 'PBT: random materials, faces and meshes vs. independent wave-equation physics')
    p('E09', 'The seismic ADER-DG step is the local time stepping ADER-DG scheme',
      "For every mesh, material, degrees of freedom, boundary conditions, element-local time step relation (equal, half, double), partition cut and number of fused simulations: local and neighboring updates of the seismic solver produce the result of the ADER-DG discretisation of the (visco)elastic wave equations with quadrature-free volume and surface integrals, whichever kernel variant is used; receivers get the time prediction of their element at exactly their sampling times; fused simulations do not influence each other; faces at partition boundaries behave as if the mesh were not partitioned; and polynomial solutions up to the order are reproduced exactly.",
      ['inputs', 'histories', 'configurations'], 'all meshes, materials, degrees of freedom, time step relations, partition cuts, fused runs',
      'Unit tests check single kernels with hard-coded matrices; no test runs complete steps with local time stepping and boundaries.',
      ['src/impl/seismic/solvers/AderDg.hpp', 'src/impl/seismic/kernels', 'src/dg', 'src/impl/seismic/solvers/AderDgInit.hpp'],
      [('AderDg::local, neigh', 'src/impl/seismic/solvers/AderDg.hpp'), ('TimePred*, VolInt*, SurfInt* kernels', 'src/impl/seismic/kernels')],
      'complete local + neighboring steps on random conforming meshes against a from-scratch quadrature based reference ADER-DG solver with local time stepping', 'PBT: random meshes/states, full steps vs. independent reference ADER-DG solver')
    p('E05', 'Sparse entity links, data layouts and memory match the mesh relations',
      "For every assignment of (multi-bit) sparse types and every adjacency with undefined entries: the links between dense and sparse entities, between sparse types and along adjacency (fixed or variable number of neighbors) name exactly the right entities in order, undefined neighbors are marked, types are inherited and propagated only along the adjacency; the regions of time groups and work regions count and place the sparse entities correctly; dynamic and flexible allocations are aligned, disjoint and laid out as documented; adjacency data of inner, send and receive regions is ordered by region; points are associated with the element holding them and domains mark exactly the elements inside.",
      ['inputs'], 'all sparse types, adjacency relations, layouts, allocation sequences, points and domains',
      'Unit tests check a handful of hard-coded link tables.',
      ['src/data', 'src/mesh/SparseTypes.hpp', 'src/mesh/common.hpp', 'src/linalg/Domain.hpp', 'src/linalg/HalfSpace.hpp'],
      [('SparseEntities::link*, nSp, inherit, propAdj, ptToEn, denseToSparse, subRgnsSpId', 'src/data/SparseEntities.hpp'), ('Dynamic::allocate, flex', 'src/data/Dynamic.cpp'), ('EntityLayout::sizesToLayout', 'src/data/EntityLayout.cpp'), ('DataLayout::adj', 'src/data/DataLayout.hpp'), ('SparseTypes::set', 'src/mesh/SparseTypes.hpp')],
      'random sparse types, adjacencies and layouts against naive definitions', 'PBT: random relations and layouts vs. naive models')
    p('E10', 'The shallow water solver is a conservative, well-balanced f-wave scheme',
      "For every pair of wet states, bathymetry and gravity the f-wave net-updates sum up to the jump of the fluxes minus the bathymetry source, travel with the Roe/Einfeldt speeds for that gravity, leave lakes at rest untouched and mirror under reflection. For every mesh, degrees of freedom and mixture of wet, dry, reflecting and outflow faces the finite volume step equals the cell-wise sum of the normal net-updates scaled by face size and volume, conserves mass in closed wet basins, never changes dry cells, treats fused simulations independently, and the CFL time step bounds the fastest wave of any direction.",
      ['inputs', 'configurations'], 'all states, bathymetries, gravities, meshes, boundary conditions and fused runs',
      'Unit tests check a few hard-coded states on two faces.',
      ['src/impl/swe/solvers'],
      [('Fwave::evs, nusN', 'src/impl/swe/solvers/Fwave.hpp'), ('FiniteVolume::nusN, update, getTimeStepStatistics', 'src/impl/swe/solvers/FiniteVolume.hpp')],
      'random states and meshes against an independent f-wave finite volume model', 'PBT: random states and meshes vs. independent finite volume model and conservation laws')
    p('E11', 'The advection ADER-DG step is the local time stepping ADER-DG scheme',
      "For every element type and order, mesh, wave speeds (of any direction and sign), degrees of freedom, boundary conditions, local time step relation and number of fused simulations: local and neighboring updates of the advection solver, with the star matrices and flux solvers the setup derives, equal the upwind ADER-DG discretisation of the advection equation with exact integrals; fused simulations do not influence each other; and the time step statistics follow the CFL criterion.",
      ['inputs', 'histories', 'configurations'], 'all element types, orders, meshes, wave speeds, degrees of freedom, boundaries and time step relations',
      'Unit tests check single kernels with hard-coded matrices.',
      ['src/impl/advection', 'src/dg'],
      [('AderDg::local, neigh, setupStarM', 'src/impl/advection/solvers/AderDg.hpp'), ('common::setupSolvers, getTimeStepStatistics', 'src/impl/advection/solvers/common.hpp'), ('TimePred, VolInt, SurfInt kernels', 'src/impl/advection/kernels')],
      'complete steps on random conforming meshes against a from-scratch reference ADER-DG solver', 'PBT: random meshes/states, full steps vs. independent reference ADER-DG solver')
    p('E08', 'Faults obey linear slip weakening and exchange balanced updates',
      "For every fault state, frictional parameters, initial stresses, cohesion, impedance contrast, time step and history: the linear slip weakening law keeps the shear traction of a face at or below its strength in the direction of the total shear stress, locks below it, weakens the friction coefficient linearly with the accumulated slip down to the dynamic value, and derives slip rates and slip from the impedances; the solvers at internal boundaries give both sides the flux of the same face state, with fluid-tight normal velocity and the traction of the friction law, and equal the Godunov flux where the fault is locked; and the setup assigns each fault face the friction domain, stresses, sides and frames of its geometry.",
      ['inputs', 'histories', 'configurations'], 'all states, friction parameters, slip histories, face orientations, materials and fused simulations',
      'Unit tests of the friction law check one hand-computed step; the internal boundary solvers and the fault setup are not part of the offline tests.',
      ['src/impl/seismic/solvers/FrictionLaws.hpp', 'src/impl/seismic/solvers/InternalBoundary.hpp', 'src/impl/seismic/setups/RuptureInit.hpp', 'src/linalg/Domain.hpp'],
      [('FrictionLaws::perturb', 'src/impl/seismic/solvers/FrictionLaws.hpp'), ('InternalBoundary::netUpdates, InternalBoundarySolvers', 'src/impl/seismic/solvers/InternalBoundary.hpp'), ('RuptureInit::linSlipWeak', 'src/impl/seismic/setups/RuptureInit.hpp')],
      'random slip histories against an independent friction model; random faces against independently derived face states', 'PBT: random histories and states vs. independent friction/Riemann model')
    p('E14', 'Point sources inject exactly their moment rate into the right elements',
      "For every mesh, every set of point source descriptions (one HDF5 file per fused run, any number of sources, samplings, scalings and on-disk number types) and every history of source updates: each source is assigned to the element that contains it (or is closest to it), that element and no other gets the sparse source type, and over any sequence of consecutive time intervals each quantity of each fused run changes exactly by scaling times the time integral of the linearly interpolated source time function, projected to the DG basis with the inverse mass matrix and the element's Jacobian; ranges of sparse source elements are honored; runs do not influence each other; and without a description for all runs nothing changes.",
      ['inputs', 'histories', 'configurations'], 'all meshes, source positions, scalings, time series, sequences of intervals and fused runs',
      'The unit tests check internal helper functions for fixed files; several sources per element, runs with different sources and sequences of intervals are not covered.',
      ['src/impl/seismic/setups/PointSources.hpp', 'src/linalg/Series.hpp', 'src/data/SparseEntities.hpp', 'src/dg/Basis.cpp'],
      [('PointSources::init, apply', 'src/impl/seismic/setups/PointSources.hpp'), ('Series::integrate', 'src/linalg/Series.hpp'), ('SparseEntities::ptToEn', 'src/data/SparseEntities.hpp')],
      'random descriptions written to HDF5, random meshes and update histories against an independent projection and time integration', 'PBT: random source files, meshes and update histories vs. independent projection/integration')
    p('E12', 'Parallel execution gives the sequential result of local time stepping',
      "For every element graph, clustering in time groups, distribution over ranks and threads, registration of work regions and every interleaving of messages and threads that was explored: the time manager computes each local, source and neighboring update of each element exactly once per step of its time group and in an order which respects all dependencies, so the final result equals a sequential execution; all time groups cover the requested time up to rounding; each face of a communication channel has its own place in the message, both sides agree on tags, sizes and order; work packages partition the work regions with the right first sparse entities, also after re-balancing; work is handed out by priority; and the execution never stalls.",
      ['inputs', 'schedules', 'histories', 'configurations'], 'all graphs, time groups, ranks, threads, synchronization times and message delays',
      'The scheduling code has no tests (the files are not even compiled by the offline tests); races and orderings cannot be sampled by a few fixed inputs.',
      ['src/time', 'src/parallel', 'src/impl/seismic/steps.inc', 'src/impl/seismic/inc/time', 'src/impl/advection/inc/time', 'src/impl/swe/inc/time'],
      [('Manager::schedule, getTimePredAvailable/Consumed, compute', 'src/time/Manager.cpp'), ('TimeGroupStatic', 'src/time/TimeGroupStatic.cpp'), ('regWrkRgn, getWrkTd, setStatus*', 'src/parallel/Shared.cpp'), ('getWrkTd, balance', 'src/parallel/LoadBalancing.cpp'), ('init, comm, isSend/isRecv', 'src/parallel/MpiRemix.cpp'), ('initLayout, syncData, min', 'src/parallel/Distributed.cpp')],
      'real scheduler and communication code with hash-chaining kernels, an in-process network with random delays and ranks as coroutines, against a sequential reference', 'PBT: randomized schedules and message delays vs. sequential reference; model-based work region histories')
    p('E13', 'Configurations, receivers and output files say what was asked and computed',
      "For every valid configuration (any order and spacing of its nodes, comments, omitted optional parts, any number of boundaries, domains, receivers and set-ups) the parsed configuration equals the written one or the documented defaults, and invalid ones are rejected. Every receiver samples its element exactly once for each multiple of its sampling period, at the right time within the step, whatever the step sizes, time groups, start time and flushes of buffers; its file holds all samples in order, evaluated at its (projected) position from the time prediction at the sampling time, for all quantities and fused runs. Wave field files in ASCII or binary hold exactly the selected elements with their geometry and cell averages. Error norms are written unchanged for all norms, quantities and runs. Output directories are created for every path.",
      ['inputs', 'configurations', 'histories'], 'all configurations, receivers, meshes, step histories, buffer sizes, solutions, element selections and paths',
      'The tests parse one configuration and sample two receivers; wave field output, error norms and command line have no tests.',
      ['src/io', 'src/impl/seismic/io/Config.cpp', 'src/impl/seismic/io/Config.h'],
      [('Config', 'src/io/Config.cpp'), ('init, getRecvTimeRel, writeRecvAll, flushIf', 'src/io/Receivers.cpp'), ('write', 'src/io/WaveField.cpp'), ('Vtk', 'src/io/Vtk.cpp'), ('ErrorNorms', 'src/io/ErrorNorms.cpp'), ('createDir, splitPath*', 'src/io/FileSystem.hpp'), ('Config', 'src/impl/seismic/io/Config.cpp')],
      'random configurations, meshes, receivers, step histories and solutions; the written files are parsed by independent readers and compared with the generating model', 'PBT: random configurations and histories, files read back by independent parsers')
    p('E15', 'A simulation computes the solution, whatever ranks, threads and groups',
      "For every conforming mesh, material model, boundary condition, initial state, configuration, and number of ranks, threads and time groups, the two programs EDGE-V and EDGE, run one after the other, complete without an error, and what they write solves the posed problem: as long as no influence of the boundary arrives, a polynomial solution the discretisation can represent is reproduced exactly at every receiver and in every cell of the wave field; a rigid-body motion with free surfaces (elastic, viscoelastic) or a constant state (advection) stays as it is across material interfaces, with vanishing error norms; shallow water flows follow the f-wave finite volume scheme of the README's equations from the initial values of the configuration, the mesh or the gridded data; without open boundaries, the total momentum (or mass) changes by nothing but what point sources inject; samples and wave fields appear at the requested times; every element appears in the wave field of exactly one rank; and the receivers, error norms and the wave field of a run on several ranks and threads equal those of the run on one rank and one thread up to round-off.",
      ['inputs', 'configurations', 'schedules'], 'all meshes, materials (from the configuration or the mesh), boundaries, initial states, point sources, end times, synchronization intervals, outputs, ranks, threads and time groups',
      'No test runs either program; the pieces are only joined in main.cpp, setup.inc, the time step includes and the EDGE-V mesh interface, none of which is compiled by the offline tests.',
      ['src/main.cpp', 'src/mesh/EdgeV.cpp', 'src/impl/seismic', 'src/impl/advection', 'src/impl/swe', 'src/time', 'src/io', 'src/data', 'src/parallel', 'src/dg', 'tools/edge_v/src/main.cpp', 'tools/edge_v/src'],
      [('main', 'src/main.cpp'), ('EdgeV', 'src/mesh/EdgeV.cpp'), ('setup.inc, steps.inc, write.inc, close.inc', 'src/impl/seismic'), ('setup.inc, tgs_steps.inc', 'src/impl/advection'), ('main', 'tools/edge_v/src/main.cpp')],
      'both programs, built from the tree (MPI, the mesh and expression libraries replaced by stand-ins), run on random meshes and configurations; outputs parsed and compared with exact solutions and across numbers of ranks, threads and groups',
      'PBT: random end-to-end runs vs. exact solutions and a metamorphic relation across ranks/threads')
    PR = 'tools/edge_pre/'
    p('P01', "EDGEpre's DG matrices are the exact integrals of the DG scheme",
      "For every element type and degree, EDGEpre's basis is hierarchical, orthogonal and spans the polynomial space of that degree; mass matrices, stiffness matrices (transposed or not, multiplied with the inverse mass matrix or not), and the local, neighboring and test flux matrices of every face and face-vertex relation are the exact integrals of these basis functions (or of any other polynomial basis) over the reference element and its faces.",
      ['inputs', 'configurations'], 'all element types, degrees, polynomial bases, faces and face-vertex relations',
      'The tests compare single matrices with hard-coded values.',
      [PR + 'edge_pre/dg/basis', PR + 'edge_pre/types', PR + 'edge_pre/int'],
      [('gen', PR + 'edge_pre/dg/basis'), ('mass, stiff, fluxes', PR + 'edge_pre/int/Matrices.py'), ('faces and maps of the element types', PR + 'edge_pre/types')],
      'random polynomial bases and degrees against independent quadrature and geometry', 'PBT: random bases, symbolic matrices vs. independent quadrature')
    p('P02', "EDGEpre's sub-cell grids and operators are conforming and conservative",
      "For every element type and degree, the sub-cells tile the reference element with equal volumes, conform with each other and with the neighbors' sub-grids, their adjacency, face types and orderings agree with their geometry, and sub-cell faces of neighboring elements match for every face-vertex relation; mappings of sub-cells and sub-faces reproduce their geometry; scattering gives the cell averages of any function, and gathering is its inverse on the basis, conserves the mean and is the constrained least squares solution.",
      ['inputs', 'configurations'], 'all element types, degrees, partitions into sub-cells and functions',
      'The tests compare sub-grids of low degrees with hard-coded arrays.',
      [PR + 'edge_pre/sc'],
      [('svs, scSv, scSfSc, scTySf, scDgAd, intSc, intSfDg', PR + 'edge_pre/sc/grid'), ('scatter, gather', PR + 'edge_pre/sc/ops/Project.py')],
      'random sub-cells, partitions and functions against geometry and linear algebra oracles', 'PBT: random sub-cells/partitions vs. geometric and algebraic invariants')
    p('P03', 'EDGEpre writes the matrices EDGE reads',
      "For every list of element types and degrees, a run of the driver writes exactly the documented DG and sub-cell matrices of each type and degree; arrays written as CSV and converted to C++ keep their shape, order and values, with the requested replacements applied, in the requested name space and type, and compile.",
      ['inputs', 'configurations'], 'all configurations of the driver, arrays, types and replacements',
      'Driver and converter have no tests.',
      [PR + 'edge_pre.py', PR + 'cpp.py', PR + 'edge_pre/io'],
      [('driver', PR + 'edge_pre.py'), ('converter', PR + 'cpp.py'), ('float2d/3d, int2d/3d', PR + 'edge_pre/io/ArrStr.py')],
      'random configurations and arrays through driver, converter and compiler', 'PBT: random configurations through driver and compiler, round-trip and reference matrices')
