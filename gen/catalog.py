# prop(id, title, statement, over, qtext, why, files, mech, design, level_note)
prop('C01', 'Thread pool runs every task once; wait and destruction are true barriers',
 'Every task submitted to a thread pool runs exactly once, with its effects visible afterwards, and the pool never deadlocks, loses a wake-up or races, whatever the interleaving of clients, workers, nested submissions and destruction. When a wait-for-tasks call returns, every task submitted before the call has completed (and with nobody submitting, the pool reports no task left); destruction returns only after all submitted tasks ran. A single-worker pool starts tasks in submission order, and an n-worker pool really runs n tasks at the same time.',
 ['schedules', 'histories'], 'all interleavings up to a preemption bound (with spurious wake-ups) of all client scripts up to a length, 1-3 workers, 1-2 clients',
 'Unit tests run the pool under whatever schedule the machine produces; lost wake-ups and barrier windows need one specific interleaving.',
 ['mml/tools/ThreadPool.h'], [('queue mutex + condition variables + in-flight counter', 'mml/tools/ThreadPool.h')],
 'The real ThreadPool.h is compiled with std::thread/mutex/condition_variable/atomic replaced by a controlled scheduler (mc/mcsched.cpp): every lock, wait, notify, atomic access, thread start and join is a scheduling point, and the explorer enumerates every schedule up to the preemption bound by re-execution. Plain memory accesses of the pool are instrumented (the callbacks of -fsanitize=thread, implemented by the scheduler) and checked for races with vector clocks. Deadlock, livelock (step horizon), barrier, exactly-once, FIFO and has_tasks/pending/queued observers are checked in every execution.',
 'Exhaustive up to preemption bound 0-2 (quick) / 1-3 (thorough), up to 2 spurious wake-ups, 3-4 client operations, <= 4 tasks. Sequentially consistent atomics; release/acquire orderings feed the race detector but weak-memory reorderings are not explored.',
 state=[('in-flight counter and queue', 'tasks executing / waiting', 'mml/tools/ThreadPool.h')])
prop('C02', 'Thread pool captures every task failure exactly once and survives it',
 'Every exception that leaves a task is captured exactly once, handed to the error callback (if set) exactly once, and can be retrieved exactly once with its identity, oldest first; exceptions thrown by the callback are ignored, and the callback may itself use the pool. A failing task never terminates the program, never leaves a waiting caller blocked and leaves the pool fully usable.',
 ['schedules', 'fault_sequences'], 'all interleavings up to a preemption bound of all small mixes of succeeding/failing tasks, callbacks, concurrent retrieval and destruction',
 'Tests throw from a task under one schedule; loss or duplication needs a retrieval or callback change racing with a failure.',
 ['mml/tools/ThreadPool.h'], [('exception queue under its own mutex', 'mml/tools/ThreadPool.h')],
 'Same controlled scheduler as C01; scenarios enumerate task kinds (ok / throws std::exception / throws int), callback none/ok/throwing, retrieval by get/rethrow/clear, retrieval and callback replacement concurrent with failures, and failures during destruction.',
 'Exhaustive up to preemption bound 0-2 (quick) / 1-3 (thorough), <= 3 failing tasks, 1-2 workers, 1-2 clients.')
prop('C30', 'Root finders return a root inside the bracket or report why not',
 'For every function with opposite signs at the interval ends - either order of the ends, any magnitude of the values - bisection, false position, Ridders and Brent stay inside the bracket; bisection and Brent end within the tolerance of a sign change; every iterate is the one the method defines, also for Newton and secant; converged, status, message, iteration count and function value tell what happened, under every iteration limit; simple forms throw exactly when the detailed form does not converge; intervals without sign change and non-finite values are refused, never a made-up root. Bracket search reports exactly the sign changes of the subdivision, in order, in arrays of that length; expansion returns true only with a real bracket.',
 ['inputs', 'histories'], 'all functions of 5 families (every root pattern up to 3 roots, six magnitudes) x brackets in both orders x tolerances x iteration limits',
 'Tests use well-scaled functions with default limits; failures need sign-product underflow, exact hits, multiple roots or a limit.',
 ['mml/algorithms/RootFinding/RootFindingBracketing.h', 'mml/algorithms/RootFinding/RootFindingMethods.h', 'mml/algorithms/RootFinding/RootFindingBase.h'], [('bracket updates', 'mml/algorithms/RootFinding/RootFindingMethods.h')],
 'Each method runs on every enumerated function through the real code with an instrumented function object that records all evaluations; k-th iterates come from an independent stepper, roots are known by construction.',
 'Ends that are exact zeros are not claimed. Secant stops on its step length alone, so closeness to a root is not claimed for it; Ridders closeness only for simple roots.')
prop('C31', 'Polynomial root finders return all the roots, with multiplicity',
 'For every polynomial: SolveQuadratic, SolveCubic and SolveQuartic (real and complex forms) and LaguerreRoots, EigenvalueRoots and BairstowRoots return exactly as many roots as the degree, matching the true roots with their multiplicity to the accuracy their conditioning allows, real roots counted and placed as documented, whatever the magnitude of the coefficients and also when the constant or middle coefficients vanish; a vanishing leading coefficient gives the roots of the lower-degree equation or an error, never an infinite, NaN or invented root.',
 ['inputs'], 'every root multiset up to degree 4 (closed forms) and 5 (iterative; 7 thorough) from a grid of real roots and conjugate pairs x leading coefficients x scales',
 'Tests use a few well separated roots; failures need vanishing coefficients, repeated roots or extreme scale.',
 ['mml/algorithms/RootFinding/RootFindingPolynoms.h'], [('deflation and root formulas', 'mml/algorithms/RootFinding/RootFindingPolynoms.h')],
 'Polynomials are expanded exactly from every enumerated root multiset and the returned roots are matched to it as multisets (bipartite matching) within a tolerance widened by multiplicity.',
 'Bairstow may fail with an exception (never wrong roots); Laguerre may for root sets symmetric about its fixed start.')
prop('C32', 'Eigenvalue solvers return eigenpairs of the matrix, or say they did not converge',
 'For every symmetric matrix Jacobi and QR return ascending eigenvalues with an orthonormal set of eigenvectors, A v = lambda v; definiteness classification agrees with the exact inertia. For every real matrix the general solver converges, its eigenvalues reproduce the characteristic polynomial, conjugate pairs are adjacent with positive imaginary part first and marked as such, and each vector or (real, imaginary) column pair satisfies A v = lambda v - also when the matrix is reducible, defective, a permutation or graded. Hessenberg reduction is an orthogonal similarity. Under an iteration limit, converged, status and message tell the truth.',
 ['inputs'], 'all small integer matrices (sym n<=3, general 2x2, 3x3 over {-1,0,1}, 4x4 0/1), all block compositions up to 6x6, companions, permutations, graded matrices',
 'Tests use a handful of matrices; failures need repeated or complex eigenvalues in particular positions, cyclic structure or decoupled blocks.',
 ['mml/algorithms/EigenSystemSolvers.h', 'mml/algorithms/EigenSolverHelpers.h', 'mml/algorithms/MatrixAlg.h'], [('QR iteration with deflation', 'mml/algorithms/EigenSystemSolvers.h'), ('Schur back-substitution', 'mml/algorithms/EigenSolverHelpers.h')],
 'Every enumerated matrix is solved by the real code; values are compared through the exactly computed characteristic polynomial, vectors through residuals, definiteness through the sign pattern of that polynomial.',
 'Deflation tolerance is absolute (documented); matrices whose entries are all below it are not claimed.')
prop('C33', 'Fourier, cosine and sine transforms and windows equal their definitions',
 'For every input of every size: DFT, FFT (powers of two), real FFT (plain and packed), DCT-II and DST-I - forward and inverse, fast and reference forms, single bins and detailed forms - equal their defining sums to rounding accuracy and inverses undo the forward transform; sizes a transform cannot handle (empty, not a power of two, bin out of range) are refused by exception, or by status when asked; zero padding keeps the samples and reaches the next power of two; every window has its documented formula for every size from 1 and every parameter, is symmetric, and refuses non-positive sizes and invalid parameters.',
 ['inputs'], 'all inputs over a small alphabet up to N=8, every unit vector of sizes up to 128 (130 thorough), all powers of two to 2048 (8192), all window sizes to 65 (300)',
 'Tests use a few signals; index and twiddle errors show at particular sizes and positions.',
 ['mml/algorithms/Fourier.h', 'mml/algorithms/FourierRealFFT.h', 'mml/algorithms/FourierWindowing.h'], [('butterflies and bit reversal', 'mml/algorithms/Fourier.h')],
 'The transforms are linear, so unit vectors at every position decide them at each enumerated size; outputs are compared with the defining sums in extended precision.',
 'Kaiser parameters above 700 overflow and are not claimed.')
prop('C37', 'k-d tree queries return exactly what an exhaustive search finds',
 'For every point set - empty, with duplicates, collinear, coincident - every leaf size (values below 1 included) and every query, the k-d tree in the plane, in space and in other dimensions returns a nearest point, the k nearest in ascending order (all points when k is larger), exactly the points within a radius (boundary included) and exactly the points in a closed box, each with its true distance, and reports invalid requests; size, point access and statistics match; rebuilding, clearing, moving and swapping leave every tree answering for its own points.',
 ['inputs', 'histories'], 'all multisets of up to 5 grid points (6 thorough) in three orders x leaf sizes x a query grid, structured sets to 64 (200) points, all 4-step (5) lifecycles',
 'Tests use random points, where ties on the splitting plane and on the search boundary do not occur.',
 ['mml/algorithms/CompGeometry/KDTree.h'], [('pruning of the far child', 'mml/algorithms/CompGeometry/KDTree.h')],
 'Each enumerated tree answers a grid of queries placed on, between and outside the points; answers are compared as sets and by distance with exhaustive search.',
 'Up to 5 (6) points over small grids, leaf sizes -1 to 8; structured sets to 64 (200). Distances that overflow a double are not claimed.')
prop('C18', 'Planar geometry agrees with exact geometry, degenerate figures included',
 'Lines, segments, triangles, polygons, circles, boxes and points in the plane answer what elementary geometry says: segment and line intersections are classified as none, point or overlap and located correctly, also for point-like, touching and collinear segments; distances and closest points are true; triangle measures, centres and classifications match the vertices, stay current when vertices change, and degenerate triangles give zero area or an error, never NaN; polygon area, centroid, orientation, convexity, simplicity, winding number and containment match their definitions on every closed polygon; circle and box relations match theirs; the scalar shape formulas (triangles, regular polygons, ellipses, sectors, quadrilaterals) agree with constructed figures; polar, cylindrical and spherical points convert and measure distance as their Cartesian images.',
 ['inputs'], 'all pairs of segments/lines on a grid, all triangles, all closed polygons up to 5 (7) distinct grid points, all box and circle pairs, shape parameter grids, each under exact similarity transforms',
 'Tests use a few hand-drawn figures in general position; degenerate, touching, collinear, folded and self-crossing figures are where the predicates differ, and there are hundreds of thousands of them on a small grid.',
 ['mml/base/Geometry/Geometry2DCore/Geometry2DLines.h', 'mml/base/Geometry/Geometry2DCore/Geometry2DTriangle.h', 'mml/base/Geometry/Geometry2DCore/Geometry2DPolygon.h', 'mml/base/Geometry/Geometry2DCore/Geometry2DCircleBox.h', 'mml/base/Geometry/GeometryCore/Geometry2DShapes.h', 'mml/base/Geometry/GeometryCore/GeometryPoints.h'], [('orientation predicates and tolerances', 'mml/base/Geometry/Geometry2DCore/Geometry2DLines.h'), ('polygon predicates', 'mml/base/Geometry/Geometry2DCore/Geometry2DPolygon.h'), ('shape formulas', 'mml/base/Geometry/GeometryCore/Geometry2DShapes.h')],
 'Every configuration of integer grid points is enumerated; the expected answer is computed in exact integer arithmetic and compared with the real classes after each of four similarity transforms (identity, rotation, scaling with shift).',
 'Grids 3x3 (thorough 4x4, 5x5 for segments), polygons up to 5 (7) vertices. Coordinates of ordinary size: the library uses an absolute tolerance of 1e-10. Containment of points on the boundary of a polygon, circle/line tangency of inclined lines and the closest point of a box to an inner point are not claimed.')
prop('C36', 'Planar algorithms: hull, clipping, closest pair, enclosing circle, ray hits',
 'For every point set - with duplicates, collinear, coincident - the convex hull consists of exactly the extreme points in counter-clockwise order, the closest pair is a pair at the least distance, and the minimum enclosing circle covers all points with the least radius whatever the random order. Clipping a simple polygon (convex or not) to a convex region given in either orientation yields exactly the common region, as does the intersection with a convex polygon; the documented hull approximations of union, difference and concave intersection cover the true result and add nothing beyond their definition. A ray reports a triangle hit exactly when it meets the closed triangle ahead of its origin (front faces only when culling), with the true distance, point and barycentric coordinates.',
 ['inputs', 'schedules'], 'all multisets of up to 5 (7) grid points, all simple polygons against 20 convex regions, all triangle pairs, all seeds of the shuffle up to a bound, all rays from a grid against all unit-cube triangles',
 'Tests use random or hand-made points in general position and a fixed triangle; ties, collinearity, touching edges and orientation of the clip region decide the outcome.',
 ['mml/algorithms/CompGeometry/ConvexHull.h', 'mml/algorithms/CompGeometry/PolygonOps.h', 'mml/algorithms/CompGeometry/Circles.h', 'mml/algorithms/CompGeometry/Intersections.h'], [('monotone chain', 'mml/algorithms/CompGeometry/ConvexHull.h'), ('Sutherland-Hodgman clipping', 'mml/algorithms/CompGeometry/PolygonOps.h'), ('Welzl recursion, divide and conquer', 'mml/algorithms/CompGeometry/Circles.h')],
 'Configurations of integer points are enumerated and compared with exact integer references (extreme-point test, slab areas and membership samples, all pairs and triples, signed volumes); the random source of the enclosing circle is replaced by an enumerated seed.',
 'Grids 3x3 and 4x4, polygons up to 4 (5) vertices; structured sets to 60 points. Absolute tolerance of the library (1e-10) bounds the coordinate scale; the exact shape of the hull approximations beyond covering is not claimed.')
prop('C19', 'Space geometry agrees with exact geometry, degenerate figures included',
 'Lines, segments, planes and triangles in space answer what elementary geometry says: parallel, perpendicular, coincident, skew and intersecting configurations are classified as such whatever the orientation of the direction and normal vectors, and distances, nearest points, projections, intersection points and lines and angles are the true ones; a plane is the same plane however it was constructed. Triangle measures and classification match the vertices, a degenerate triangle has area zero and never NaN, and a point is inside a triangle only when it lies in its plane. Triangle and rectangle surfaces parametrize exactly the figure. Sphere, cylinder, cone, frustum, spheroid, torus and tetrahedron formulas equal the volume and area of the solid, and the distance between geographic positions is the great-circle distance, accurate for near-coincident and antipodal positions too.',
 ['inputs'], 'all pairs of lines, of planes, of plane and line and of line and point, all triangles and tetrahedra on small integer grids under exact similarity transforms; parameter grids of the solids; all pairs of grid positions and near-coincident positions on the sphere',
 'Tests use a few figures along the axes through the origin with acute angles; obtuse angles, opposite normals, planes off the origin, irregular tetrahedra and nearby positions are exactly where formulas with a wrong sign or term still look right.',
 ['mml/base/Geometry/Geometry3DCore/Geometry3DLines.h', 'mml/base/Geometry/Geometry3DCore/Geometry3DPlane.h', 'mml/base/Geometry/Geometry3DCore/Geometry3DSurfaces.h', 'mml/base/Geometry/GeometryCore/Geometry3DShapes.h', 'mml/base/Geometry/GeometrySpherical.h'], [('line classification and nearest points', 'mml/base/Geometry/Geometry3DCore/Geometry3DLines.h'), ('plane relations', 'mml/base/Geometry/Geometry3DCore/Geometry3DPlane.h'), ('barycentric containment', 'mml/base/Geometry/Geometry3DCore/Geometry3DSurfaces.h'), ('solid formulas', 'mml/base/Geometry/GeometryCore/Geometry3DShapes.h')],
 'Every configuration of integer grid figures is enumerated; the expected answer is computed with exact integer vector arithmetic (solids: by quadrature of their cross-sections, tetrahedra from coordinates, great circles in extended precision) and compared with the real classes after each of three similarity transforms.',
 'Directions in -2..2, offsets in -1..1 (thorough -3..3), triangles on 3x3x3 (4x4x4) points. Coordinates of ordinary size (absolute tolerances of the library). Angle signs beyond the acute angle, the circumradius of irregular tetrahedra and rectangles whose corners form no rectangle are not claimed.')
prop('C29', 'Bounding volumes and solid bodies describe one and the same body',
 'For every pair of axis-aligned boxes, flat and point-like ones included, built from corners in any order: measures, corners, containment, overlap, intersection, union, expansion, scaling, closest point and distance are exact; bounding spheres contain what they were expanded to. For every solid body (cube, sphere, cylinder, pyramid, torus) at every position and proportion: volume, area, centroid, containment of every point, bounding box and bounding sphere are those of the named body at that position, and its faces are a closed, consistently outward oriented mesh whose vertices lie on the body and whose volume and area match. Solids between boundary functions contain exactly the points between them.',
 ['inputs'], 'all pairs of integer boxes on a 3 (4) point grid; every body x 4 positions x 9 proportions with a grid of probe points and the full mesh',
 'Tests check bodies at the origin by volume and face count; offsets, orientation and flat boxes are not covered.',
 ['mml/base/Geometry/Geometry3DBodies.h'], [('body constructors and Box3D', 'mml/base/Geometry/Geometry3DBodies.h')],
 'All box pairs and all bodies of the bounded family are built by the real classes; boxes are compared with per-axis interval arithmetic, bodies with their implicit equation, meshes by edge pairing and the divergence theorem.',
 'Points exactly on a curved boundary, the approximate bounding box of boundary-function solids and the documented height a/sqrt(3) of PyramidEquilateral3D are not claimed.')
prop('C23', 'Numerical integrals are right and report their error and effort truthfully',
 'Every Gauss rule (Legendre on any interval, Laguerre, Hermite, Jacobi, Chebyshev) exists for every point count, has distinct nodes inside its domain and integrates all polynomials of degree below 2n exactly; Gauss-Kronrod rules have their degree and embedded error. Trapezoid, Simpson, Romberg and adaptive integration in one, two and three dimensions: converged means the error is within tolerance, not converged carries an honest error estimate, reported evaluations are those made, limits are respected, every call ends also for integrands that throw or are undefined. Reversed and empty ranges, improper and singular integrals, nested curved regions, curves (length, mass, line integrals), fluxes through bodies and Monte Carlo (reproducible, in range, strata equally sampled) give the defined value; detailed variants agree with plain ones and map failures to a status by policy.',
 ['inputs', 'histories'], 'all rules up to 64 (100) points x parameters; function family x intervals x tolerances x step limits x rules; all seeds 1-8 (40)',
 'Tests integrate a few functions with default settings; convergence flags, error estimates and larger rules are not covered.',
 ['mml/core/Integration/Integration1D.h', 'mml/core/Integration/GaussianQuadrature.h', 'mml/core/Integration/GaussKronrod.h', 'mml/core/Integration/Integration2DAdaptive.h', 'mml/core/Integration/IntegrationImproper.h', 'mml/core/Integration/MonteCarloIntegration.h', 'mml/core/Integration/SurfaceIntegration.h'], [('adaptive recursion and convergence flags', 'mml/core/Integration/Integration2DAdaptive.h')],
 'Every enumerated combination runs on the real code with counting integrands; values are compared with exact antiderivatives, moments and independently computed Gauss rules in long double.',
 'Accuracy of non-smooth integrands beyond a coarse bound, the ignored rule selector of the 2D/3D adaptive configuration and statistical quality of Monte Carlo are not claimed.')
prop('C24', 'Numerical and automatic derivatives are exact to order, with honest errors',
 'Every finite-difference derivative (first, second and third order; one-sided; partial and mixed; of vector functions, tensor fields, curves and surfaces; Jacobians of fixed and run-time size) is exact on polynomials up to its order, evaluates the function only within its stencil (one-sided ones never on the other side), and its reported error is the truncation error of that stencil; default steps scale with the argument so that accuracy holds at every magnitude, and Richardson extrapolation brackets the error for every iteration bound. Detailed variants report the same value, the true evaluation count and step, and map throwing or non-finite functions and invalid steps to a status or exception by policy. Forward-mode dual numbers give the exact value and derivative of every expression, also at special points such as powers of zero.',
 ['inputs', 'histories'], 'every stencil x monomials up to one degree beyond its order x points x steps; all failure positions x policies; every expression u(v(x) op w(y)) over 5 operators and all unary functions',
 'Tests differentiate a few smooth functions at ordinary points without checking the error estimates, the touched points or the failure statuses.',
 ['mml/core/Derivation/DerivationRealFunction.h', 'mml/core/Derivation/DerivationScalarFunction.h', 'mml/core/Derivation/DerivationVectorFunction.h', 'mml/core/Derivation/DerivationParametricCurve.h', 'mml/core/Derivation/DerivationParametricSurface.h', 'mml/core/Derivation/DerivationTensorField.h', 'mml/core/Derivation/Jacobians.h', 'mml/core/Derivation/ForwardAD.h'], [('stencils and error estimates', 'mml/core/Derivation/DerivationRealFunction.h'), ('dual arithmetic', 'mml/core/Derivation/ForwardAD.h')],
 'Every combination is run on the real code with recording functions; expected values are exact polynomial derivatives, closed-form truncation errors, analytic derivatives in long double, and complex-step derivatives for dual expressions.',
 'Truncation part of mixed-partial error estimates, surface second-derivative estimates, Richardson values for large initial steps and derivatives of sqrt at 0 are not claimed.')
prop('C25', 'Coordinate transformations are bijections carrying vectors and tensors right',
 'Every coordinate transformation (spherical, cylindrical, polar, oblique, orthogonal and general Cartesian, axis, Euler and quaternion rotations, Lorentz boosts) and its inverse are exactly inverse to each other at every position and magnitude, near the axis, the poles and the origin included; component functions and function-call form give the same map, and so does a copy of the transformation after the original is gone. Jacobians, the four kinds of basis vectors and contravariant/covariant vector transformation in both directions equal the analytic ones at every regular position, on the branch cut of the polar angle too. Tensors of rank 2 to 5 of every variance pattern are contracted index by index with the right Jacobian and keep their variance. Rotations compose and interpolate, boosts preserve intervals and add velocities, orientation and dual bases are right, and parameters that define no transformation are refused.',
 ['inputs'], 'all 15 transformations x parameter grids x position grids x original/copy; all variance patterns of rank 2-5; all triples of base vectors of a small set x scales',
 'Tests transform a few points of the first octant; tensors above rank 2, covariant indices, copies, the branch cut and non-unit bases are never exercised.',
 ['mml/core/CoordTransf.h', 'mml/core/CoordTransf/CoordTransfSpherical.h', 'mml/core/CoordTransf/CoordTransfCylindrical.h', 'mml/core/CoordTransf/CoordTransf2D.h', 'mml/core/CoordTransf/CoordTransf3D.h', 'mml/core/CoordTransf/CoordTransfLorentz.h'], [('transformation laws', 'mml/core/CoordTransf.h'), ('rotations and bases', 'mml/core/CoordTransf/CoordTransf3D.h')],
 'Every transformation object is built by the real classes (optionally copied with the original destroyed) and compared with long-double closed forms of map, inverse and Jacobian; tensors with index-by-index contraction by the analytic Jacobian.',
 'Euler convention beyond what ZXZ and ZYZ share, positions closer to the axis than the numerical step for derivatives, and boosts beyond 0.99 are not claimed.')
prop('C26', 'Field operators and metrics give the vector calculus of the field',
 'In Cartesian, spherical, cylindrical and general coordinates, at every regular point and for every derivative order: gradient, Laplacian, divergence and curl of a field equal the true ones in the orthonormal basis of the system (general-coordinate forms agree on contravariant components), curl of a gradient and divergence of a curl vanish; the detailed forms give the same value, report success, and count exactly the calls they made. Metric tensors, their inverses, Christoffel symbols, covariant derivatives, raising and lowering of indices agree with the transformation they come from. Predefined fields are the gradient of their potential. At a coordinate singularity each singularity policy does what it says; unsupported orders are refused.',
 ['inputs'], 'a basis of polynomial fields of degree <= 3 and a transcendental field x all components x point grids x orders x three systems; all policies x all singular places',
 'Tests differentiate a couple of fields at one point in Cartesian axes; errors hide in single components of curvilinear operators and in singularity handling.',
 ['mml/core/FieldOperations.h', 'mml/core/Fields.h', 'mml/core/MetricTensor.h'], [('curvilinear operators', 'mml/core/FieldOperations.h'), ('index raising and Christoffel symbols', 'mml/core/MetricTensor.h')],
 'Every field of a spanning polynomial basis is differentiated by the real operators at every point of the grid and compared with the closed form in long double; policies are enumerated over every singular configuration.',
 'Linearity in the field makes the basis representative for polynomial fields up to degree 3; point grids as stated; error estimates of the detailed forms are not claimed.')
prop('C27', 'Reference-frame hierarchies stay consistent and convert positions right',
 'For every history of creating, parenting, reparenting, adding, removing, copying, assigning and destroying reference frames: parent and child links always agree in both directions, no frame refers to a destroyed one, cycles and self-parenting are refused, a copy shares the parent but not the children. Positions converted between local, parent and origin frames for inertial, uniformly moving, rotating, orbiting and surface-local frames equal the kinematics of the frame at every time.',
 ['histories', 'inputs'], 'all reachable hierarchies of 3 and 4 frames x every operation and pair of operations (thorough: triples); all frame kinds x times x positions',
 'Tests build one parent and one child; link corruption needs a second parent, a copy or a destruction in between.',
 ['mml/core/CoordSystem.h'], [('parent and child bookkeeping', 'mml/core/CoordSystem.h')],
 'Explicit-state exploration of the real classes: each reachable link structure is built, every operation applied and the links compared with a set-based model under address sanitizer; positions are compared with closed forms.',
 '3 and 4 frames, up to 2 (3) operations after every reachable hierarchy. RotatingSphereLocalCartesian not linking itself to its parent is not claimed.')
prop('C42', 'Explicit ODE solvers are as accurate, complete and exact as they report',
 'Every explicit ODE method has its stated order, integrates exactly what that order implies and estimates its error honestly. The adaptive solvers, from any start and in either direction, accept only steps within tolerance, return outputs exactly at the requested times, each once and in order, end at the end time, count accepted and rejected steps and evaluations truly, respect step limits and report a failure instead of truncating silently. Events are each found once, in the asked direction, in time order and located to tolerance, and restarts and stops act on them. A solution container holds exactly what was stored.',
 ['inputs', 'histories'], 'every method x small systems with known solutions x steps, tolerances, output grids, step limits, event sets, directions and actions; all container call histories to a depth',
 'Tests integrate one or two systems forward at default settings; output points on step boundaries, several events in one step, restarts and exhausted limits need their own combinations.',
 ['mml/algorithms/ODESolvers/ODESteppers.h', 'mml/algorithms/ODESolvers/ODEStepCalculators.h', 'mml/algorithms/ODESolvers/ODERKCoefficients.h', 'mml/algorithms/ODESolvers/ODESolverAdaptive.h', 'mml/algorithms/ODESolvers/ODESolverEventDetection.h', 'mml/algorithms/ODESolvers/ODESolverFixedStep.h', 'mml/base/ODESystemSolution.h'],
 [('stepper state: FSAL, step control, rejection', 'mml/algorithms/ODESolvers/ODESteppers.h'), ('output grid and limits', 'mml/algorithms/ODESolvers/ODESolverAdaptive.h'), ('event loop', 'mml/algorithms/ODESolvers/ODESolverEventDetection.h')],
 'All combinations of method, system, direction, tolerance, grid, limit and event configuration are run on the real solvers; an instrumented right-hand side counts evaluations; results are compared with closed-form solutions and event times in long double, order conditions with Taylor polynomials, histories of the containers with a list model under address sanitizer.',
 'Systems of 1-4 equations, tolerances 1e-4..1e-10. Not claimed: accuracy between steps beyond the documented Hermite interpolation; events exactly at the end time; several zeros of one event function inside one step.')
prop('C38', 'Triangulations and Voronoi diagrams are valid, complete and optimal',
 'For every simple polygon in either orientation, at every scale and position, ear clipping yields triangles of the polygon\'s own vertices, positively oriented, without overlap, that cover exactly the polygon. For every point set - duplicates, collinear, cocircular, thin or far-flung - the Delaunay triangulation covers exactly the convex hull, uses every distinct point, has no point inside a circumcircle, consistent neighbours and hull edges (none when all points are collinear); a point is located exactly when it lies in the hull and linear interpolation reproduces linear functions. The Voronoi diagram has every vertex equidistant from at least three nearest sites, exactly the edges between cells that share a boundary, with true end points or outward rays, ordered cells of the right area, unbounded exactly for hull sites, and clipped cells that partition the rectangle.',
 ['inputs'], 'all simple polygons up to 8 (9) vertices on a 3x3 grid and on wider ones, all subsets up to 5 (7) points of a 4x4 grid in two orders, all orders of nine thin sets, all sequences with repetitions, 7 similarity transforms, structured sets to 40 points',
 'Tests use a square, a handful of points and check counts; cocircular and collinear points, the super-triangle\'s shadow at the hull, scales far from 1 and the order of insertion decide the outcome.',
 ['mml/algorithms/CompGeometry/Triangulation.h', 'mml/algorithms/CompGeometry/VoronoiDiagram.h'], [('incremental insertion and cavity', 'mml/algorithms/CompGeometry/Triangulation.h'), ('cells, rays and clipping', 'mml/algorithms/CompGeometry/VoronoiDiagram.h')],
 'Every configuration of integer points is run through the real classes; orientation, in-circle, area and coverage are decided in exact integer arithmetic, Voronoi cells by half-plane intersection in long double.',
 'Grids 3x3 and 4x4 and the listed families; self-touching polygons, duplicate sites\' own (empty) cells and cell vertices farther than 20 times the extent are not claimed.')
prop('C39', 'The 3D convex hull is the exact hull, closed, oriented and consistent',
 'For every set of points in space - duplicates, coplanar, collinear, cospherical, at any scale and position - the hull contains every point, its vertices are exactly the extreme points, its faces form a closed surface with outward normals, no face overlaps another, and adjacency, volume, area, centroid, distance and containment answers are those of the exact hull; coplanar input yields both sides of the flat hull, and collinear or coincident input is reported as degenerate.',
 ['inputs'], 'all subsets up to 6 (7) points of a 2x2x2, 3x2x2 and 3x3x3 grid, insertion orders, repetitions, similarity transforms and structured sets',
 'Tests use a cube, a tetrahedron and random points in general position; coplanar quadruples and collinear triples decide which faces and vertices come out.',
 ['mml/algorithms/CompGeometry/ConvexHull3D.h'], [('incremental insertion, visibility and horizon', 'mml/algorithms/CompGeometry/ConvexHull3D.h')],
 'Every configuration of integer points is run through the real class and compared with the exact extreme points and facets computed in integer arithmetic.',
 'Grids as stated; absolute library tolerance bounds the scale; GetFace out of range is not claimed.')
prop('C40', 'Descriptive statistics, tests and intervals follow their definitions',
 'For every sample, with ties, constant or shifted data and at any scale: means, medians, quantiles, moments, variances, ranks, covariances and correlations equal their definitions (correlations stay in [-1, 1]); t-tests, chi-square tests and ANOVA return the defined statistic, degrees of freedom and p-value, and reject exactly when the p-value is below the significance level; confidence intervals are the defined ones and dual to the tests. Data without variation give the limiting answer, undefined requests are refused, and detailed variants agree with the simple ones under both exception policies.',
 ['inputs'], 'all samples of up to 5 (7) values and all pairs of up to 4 (5) values from small sets x five scale/offset settings, all small contingency tables',
 'Tests use one textbook data set each; ties, constant data, tiny or offset data and significance levels next to the p-value are not sampled.',
 ['mml/algorithms/Statistics.h', 'mml/algorithms/Statistics/StatisticsRank.h', 'mml/algorithms/Statistics/StatisticsHypothesis.h', 'mml/algorithms/Statistics/StatisticsConfidence.h', 'mml/algorithms/Statistics/StatisticsBase.h'], [('ranks, test statistics and verdicts', 'mml/algorithms/Statistics/StatisticsHypothesis.h')],
 'Every sample, pair and table of the bounded families goes through the real functions; results are compared with long double definitions and Boost distributions; each verdict is probed at significance levels just above and below the p-value.',
 'Value sets of 3-5 numbers, scales 1e-16 to 3e20, offset 1e6; Welch degrees of freedom at exact integers may round down.')
prop('C41', 'Probability distributions agree with their definitions everywhere',
 'For every distribution, every parameter set and every argument, including the tails, the ends of the support and infinities: the density and the distribution function have their defining values, the distribution function is monotone from 0 to 1 and complements the tail function, quantile functions invert it, critical values and p-values match each other, means and variances are the defined ones, and invalid parameters or probabilities are refused.',
 ['inputs'], 'all parameter sets of a grid over several decades x arguments from the far left to the far right tail x probabilities from 1e-12 to 1 - 1e-12',
 'Tests compare a few table values near the center; tails, extreme shapes and support ends need other branches.',
 ['mml/algorithms/Statistics/Distributions.h'], [('series and continued fractions, quantile iterations', 'mml/algorithms/Statistics/Distributions.h')],
 'Every (parameters, argument) combination of the grid is evaluated by the real classes and compared with Boost.Math in long double, with inverse and complement relations.',
 'Grid of parameters and arguments; normal tail function only to absolute accuracy.')
prop('C43', 'Minimizers stay in bounds, end, improve and converge only to real minima',
 'Bracketing returns a valid bracket (ordered finite points, middle value not above the outer ones, true values, containing the minimum of a unimodal function) or says it is invalid, also for unbounded or undefined functions. The one-dimensional minimizers and maximizers end for every tolerance, stay inside the bracket, report the true value at the reported point, are never worse than the initial bracket, respect the iteration limit and say when it is exhausted, and report convergence only at a local minimum to the accuracy that tolerance and double precision permit; invalid tolerances, brackets, limits and bounds are refused. The multidimensional minimizers never end worse than they started, report true values and counts, respect the limit, end even when the function overflows, and find the minimum of smooth convex functions at every scale and of Rosenbrock valleys; methods with finite termination on quadratics terminate so.',
 ['inputs'], 'all combinations of function shapes, centres, scales, offsets, start intervals or points, tolerances, limits, methods and call variants',
 'Tests minimize a few textbook functions near the origin; scales, offsets, reversed or empty intervals, tight tolerances, limits and overflow take other branches.',
 ['mml/algorithms/Optimization.h', 'mml/algorithms/OptimizationMultidim.h'], [('bracketing, interpolation acceptance, line searches, history updates', 'mml/algorithms/OptimizationMultidim.h')],
 'Every combination of 15 one-dimensional shapes x 6 centres x 3 scales x 2 offsets x 16 intervals x 5 tolerances x 3 limits x methods, and of 4 families (6 quadratic forms) x centres x scales x offsets x 14 starts x 6 methods x tolerances x limits in 1-3 dimensions, is minimized by the real code and judged against the known minimizer, the best value evaluated and the limits.',
 'Fletcher-Reeves on curved valleys may stall; convergence by function value is relative to the offset; tolerances below 1e-15 only for ending and bounds.')
prop('C44', 'Implicit solvers reach the end with their order and report truthfully',
 'The stiff solvers (backward Euler, BDF2, Rosenbrock) and the solvers for differential-algebraic systems (backward Euler, BDF2, BDF4, RODAS, Radau IIA) cover the interval exactly, with steps of the requested size and only a shorter last one (or within the step limits, for the adaptive one), start from the given values, converge with the order of the method whatever the scale, dimension, stiffness and nonlinearity, damp stiff components, and keep the algebraic constraints. Steps, Newton iterations, Jacobian evaluations and the largest constraint violation are counted truthfully; stopping at a limit, leaving the domain of the system, failing iterations and invalid steps or ends are reported, never a success with undefined values. Solution objects return exactly the computed points. Consistent initial values are found and verified.',
 ['inputs'], 'all combinations of known solutions, dimensions, stiffness, scales, offsets, intervals, step sizes, tolerances, limits and solver forms',
 'Tests integrate a few textbook systems with steps that divide the interval and judge boundedness; last steps, limits, scales and convergence orders are not exercised.',
 ['mml/algorithms/ODESolvers/ODESolverStiff.h', 'mml/algorithms/DAESolvers/DAESolverBase.h', 'mml/algorithms/DAESolvers/DAEBackwardEuler.h', 'mml/algorithms/DAESolvers/DAEBDF2.h', 'mml/algorithms/DAESolvers/DAEBDF4.h', 'mml/algorithms/DAESolvers/DAERODAS.h', 'mml/algorithms/DAESolvers/DAERadauIIA.h', 'mml/base/DAESystem.h'], [('Newton iterations, step formulas and last steps', 'mml/algorithms/DAESolvers/DAEBDF4.h'), ('step control', 'mml/algorithms/ODESolvers/ODESolverStiff.h')],
 'Systems built from known solutions x = p(t) + Q exp(Lt) d (5 p, 6 spectra from oscillation-free to -1e6, 3 dimensions, 3 scales, nonlinear terms, 1-2 algebraic variables hidden in a linear or nonlinear constraint) are solved on 15 interval/step grids by every solver and form with several tolerances and limits; every point is compared with the exact solution within an order-based bound, convergence orders by halving the step.',
 'Bounds allow order reduction for stiff nonlinear problems; fixed-step stiff solvers have no step limit; singular Newton matrices may throw.')
prop('C45', 'Shooting methods return true boundary solutions or say why not',
 'The shooting solvers for boundary value problems (one or several unknown initial values, any choice of unknown and target components) report success exactly when the trajectory from the returned parameters meets the boundary conditions within the tolerance; the returned parameters, trajectory, residuals, residual norm, status, reason, description and iteration count describe the same attempt. Problems that are linear in the unknowns are solved whatever the scale of the quantities, the interval, its direction and the guesses. Iteration limits are kept, and an iteration that converges on the last permitted step is a success. Unreachable targets, undefined trajectories, missing or inconsistent settings and component indices outside the system are reported as what they are, never as a solution.',
 ['inputs'], 'all combinations of systems, scales, dimensions, intervals, unknown/target sets, guesses, tolerances, step numbers and limits',
 'Tests solve a few textbook problems with good guesses and look at the missing slope; failure reports, limits, scales and component choices are sampled once or not at all.',
 ['mml/algorithms/ODESolvers/BVPShootingMethod.h'], [('bracketing and Newton iterations', 'mml/algorithms/ODESolvers/BVPShootingMethod.h'), ('status reports', 'mml/algorithms/ODESolvers/BVPShootingMethod.h')],
 '7 systems (linear, nonlinear, blowing up, undefined for some starts) in 2-4 dimensions and 3 scales on 5 intervals are given boundary values from a known trajectory and solved from 8 pairs of guesses, all unknown/target sets, several tolerances, step numbers and iteration limits; every answer is recomputed by direct integration of the returned parameters, and linear problems are compared with the known solution.',
 'Nonlinear problems may fail, but must say so; several solutions are allowed; the Newton solver uses absolute tolerances.')
prop('C46', 'Dynamical system models and analyses agree with the mathematics',
 'Every continuous system and discrete map follows its equations for all parameter values and states, its Jacobian is the derivative of those equations, its invariants are conserved, and parameters are read and written consistently. Fixed points are reported exactly when the residual is within the tolerance, at the true location, with the eigenvalues of the Jacobian and the type and stability these imply; searches that fail say why and claim nothing. Lyapunov exponents are the logarithmic growth rates of the flow or map over the given time, sorted, independent of how often the frame is orthonormalized, with matching sum, maximum and Kaplan-Yorke dimension; regular motion is not called chaotic, and diverging trajectories give no numbers. Parameter sweeps use the stated values, record exactly the local maxima and leave the system as it was, also on failure. Poincare sections list each crossing of the stated direction and end when there are none; trajectories are sampled at exactly the requested times.',
 ['inputs'], 'all combinations of systems, parameters, states, matrices, times, steps, sections, sweeps and limits of the catalogued grids',
 'Tests look at default parameters of a few systems, at signs of exponents and at sizes of results; other parameter values, failure paths, degenerate spectra and time grids are not exercised.',
 ['mml/systems/ContinuousSystems.h', 'mml/systems/DiscreteMaps.h', 'mml/systems/DynamicalSystemAnalyzers.h', 'mml/systems/DynamicalSystemAnalyzer.h', 'mml/systems/DynamicalSystemTypes.h', 'mml/interfaces/IDynamicalSystem.h'], [('fixed points, exponents, sweeps, sections', 'mml/systems/DynamicalSystemAnalyzers.h'), ('models', 'mml/systems/ContinuousSystems.h')],
 'All 7 systems and 4 maps on grids of parameters and states against independently written equations, differences and conserved quantities; all 2x2 integer matrices with entries in -2..2 and 3x3 extensions as fixed points, classified exactly by trace, determinant and discriminant; exponents of 5 flows and 4 maps over all times, orthonormalization intervals and steps against the QR decomposition of the differentiated flow; sweeps, sections (including crossings that fall exactly on a step) and trajectories against an independent integration.',
 'Fixed points on the border between node and focus, and star nodes, are accepted under either name; chaos is decided only for clear cases.')
prop('C47', 'A linear system object solves, decomposes and describes its matrix truthfully',
 'The automatic solution of a linear system of any shape is the exact solution where there is exactly one, and otherwise the least squares solution of minimal norm, or a refusal for a rank deficient overdetermined matrix; every explicitly chosen method gives the same solution or refuses. Small but nonzero elements are never neglected. Factors multiply to the matrix and have their promised shape; determinant, inverse, pseudo-inverse, rank, null and column space and condition numbers are those of the matrix, also if it is scaled. Solution counts follow from the ranks of the matrix and of the matrix extended by the right-hand sides. Answers do not depend on questions asked earlier nor on tolerances used in them. Residuals and accuracy verdicts are those of the given vector, iterative solutions converge for dominant matrices or fail openly, structure tests are right for rectangular matrices, definiteness follows from the principal minors, and operations without the right-hand side or shape they need are refused.',
 ['inputs', 'histories'], 'all integer matrices of the given shapes and entries, their scalings and right-hand sides, and all sequences of questions up to a depth',
 'Tests solve a few well-conditioned systems and ask one question per object; rectangular and singular matrices, scalings, repeated questions with other tolerances and the contents of the factors are hardly tested.',
 ['mml/systems/LinearSystem.h', 'mml/algorithms/MatrixAlg.h', 'mml/core/MatrixUtils.h', 'mml/core/LinAlgEqSolvers/LinAlgDirect.h', 'mml/core/LinAlgEqSolvers/LinAlgSVD.h'], [('LinearSystem', 'mml/systems/LinearSystem.h'), ('ClassifyDefiniteness', 'mml/algorithms/MatrixAlg.h')],
 'All 2x2 matrices with entries in -2..3, 3x3 matrices over three values, sparse 4x4 and rectangular matrices up to 4x2, with scalings by powers of two, against ranks, inverses and pseudo-inverses from rank factorization over the rationals; all symmetric matrices up to 3x3 with small entries against their principal minors; all sequences of three (thorough: four) of 14 questions against a fresh object.',
 'Condition numbers of singular matrices only have to be large; SOR may fail openly where it does not have to converge.')
prop('C48', 'Curve fits are least squares solutions with truthful quality figures',
 'A fitted straight line, polynomial or combination of given functions minimizes the sum of squared residuals, with coefficients of minimal norm if the functions are dependent on the data, wherever the data lies and whatever its scale. Residual norm, mean squared error, coefficient of determination (also adjusted), rank and condition number are those of the returned fit; data that does not vary is explained fully or not at all. Results evaluate to the fitted function; detailed variants report the same numbers. Data that determines no line, and sizes that do not fit, are refused, as an exception or a status, as configured.',
 ['inputs'], 'all small data sets, with all offsets, scales, bases and sizes of the grids',
 'Tests fit a few clean data sets near the origin and check the coefficients; offsets, small scales, dependent functions, constant data and most quality figures are not exercised.',
 ['mml/algorithms/CurveFitting.h', 'mml/core/LinAlgEqSolvers/LinAlgSVD.h'], [('fits', 'mml/algorithms/CurveFitting.h')],
 'All data sets of up to four points on small grids, moved up to 3e8 steps away and scaled by powers of two from 2^-45 to 2^30, against exact sums of deviations; longer lines with deviations orthogonal to every line; all combinations of up to three of eight functions (dependent ones and zero included) judged by the normal equations, the row space and exact ranks; polynomials up to degree 5; all combinations of sizes for refusals.',
 'Polynomials are fitted near the origin only, as monomials far away are numerically dependent.')
prop('C49', 'Orthogonal bases, Chebyshev approximations and standard functions are exact',
 'Basis functions of Chebyshev (both kinds), Legendre, associated Legendre, Hermite (also as wavefunctions) and Laguerre (also associated) bases are the classical functions, also of high degree, with the weight, norm, recurrence, zeros and extrema belonging to them; expansion coefficients are the normalized inner products, on infinite domains and for weights singular at the ends, zero coefficients included. A Chebyshev approximation interpolates at its nodes, is exact for polynomials it can hold and spectrally accurate for smooth functions; derivative, integral, conversion to a polynomial and truncation are those of the series, and the reported maximal error is the largest one seen. Standard functions, factorials and delta function approximations have their defining values; invalid degrees and arguments are refused.',
 ['inputs'], 'all degrees, orders, intervals, coefficient patterns and truncation histories of the grids',
 'Tests check a handful of low degrees at a few points; integrals of series, expansion coefficients, associated functions, high degrees and truncation histories are not exercised.',
 ['mml/core/OrthogonalBasis.h', 'mml/core/OrthogonalBasis/ChebyshevBasis.h', 'mml/core/OrthogonalBasis/LegendreBasis.h', 'mml/core/OrthogonalBasis/HermiteBasis.h', 'mml/core/OrthogonalBasis/LaguerreBasis.h', 'mml/algorithms/ChebyshevApproximation.h', 'mml/base/ChebyshevPolynom.h', 'mml/base/StandardFunctions.h', 'mml/base/DiracDeltaFunction.h'],
 [('bases', 'mml/core/OrthogonalBasis.h'), ('approximations', 'mml/algorithms/ChebyshevApproximation.h'), ('standard_functions', 'mml/base/StandardFunctions.h')],
 'All bases at all degrees up to 12 against exact coefficient series in long double (recurrence, weight, norms, moments), wavefunctions of degree up to 400 by their orthonormality, coefficients of monomials, basis functions and generating functions against exact moments, all approximations of polynomials and non-smooth functions with up to 8 terms and of smooth functions with up to 97 terms over six intervals, all coefficient patterns of up to four terms under all truncation histories of length two.',
 'Functions are compared on grids of points; derivative and integral of a truncated approximation are those of the full series, and are not checked after truncation.')
prop('C50', 'Curves and surfaces have the differential geometry of their equations',
 'Points, tangents, normals, binormals, moving frames and their planes, curvature (also signed and for polar curves), radius of curvature and torsion of plane, polar and space curves, and normals, tangents, first and second fundamental forms, Gaussian, mean and principal curvatures and principal directions of surfaces are those of the curve or surface, whatever its size, parametrization or position; unit vectors are unit, perpendicular and rightly oriented. Library curves and surfaces follow their equations, with their parameters, and one-sided surfaces are glued without a tear. Arc length parametrization is recognised over the whole interval; points are called regular, flat, parabolic or hyperbolic as they are, and degenerate constructions are refused.',
 ['inputs'], 'all polynomial curves and patches, library curves and surfaces, sizes, parameters and points of the grids',
 'Tests look at unit circles, spheres and helices at a few parameters; oblique coordinates, umbilics, small or shifted objects and negative parameters are not exercised.',
 ['mml/core/Curves.h', 'mml/core/Surfaces.h', 'mml/core/Derivation/DerivationParametricCurve.h', 'mml/core/Derivation/DerivationParametricSurface.h'],
 [('plane_curves', 'mml/core/Curves.h'), ('space_curves', 'mml/core/Curves.h'), ('surfaces', 'mml/core/Surfaces.h')],
 'Every library curve and surface at all grid parameters and sizes from 1e-6 to 1e5, all polynomial plane curves (972) and space curves (1536) and all cubic patches with oblique coordinates (2592) with small integer coefficients, against derivatives from exact Taylor (jet) arithmetic in long double; forms, curvatures and directions are then derived in an orthonormal frame, not by the formulas of the library.',
 'Tolerances follow from the numerical differentiation used; near stationary points and very oblique coordinates only the regularity decision is checked.')
prop('C51', 'Function and field analysis reports what is there, and all of it',
 'The function analyzer finds each root, local optimum and inflection point of an interval once and where it is, classifies it rightly, and reports nothing else; it tells continuous, differentiable and monotonic functions from others whatever their slope and curvature, finds jumps, removable gaps and poles wherever they lie between the sample points, and classifies them with the right one-sided limits; analysis of intervals covers both ends; sums, averages, largest and integrated differences of functions are those of the sampled values. Field analyzers give gradients, Laplacians, divergence, curl, circulation, extremes and kinds of fields over the whole box; field lines run along the field at the given step from the seeds, stay in the box and in the domain of the field, and end where the box, length, number of points, or a singular point ends them, saying which.',
 ['inputs'], 'polynomials with all root subsets and multiplicities of the grid, all pairs of branches around a point, all sampled value sequences, all small linear and quadratic fields, all tracer settings of the grid',
 'Tests analyse a few textbook functions with features at sample points; features between sample points, steep or slow functions and undefined or singular field points are not exercised.',
 ['mml/algorithms/FunctionsAnalyzer.h', 'mml/algorithms/FieldAnalyzers.h', 'mml/algorithms/FieldLineTracer.h'],
 [('roots', 'mml/algorithms/FunctionsAnalyzer.h'), ('discontinuities', 'mml/algorithms/FunctionsAnalyzer.h'), ('vector_fields', 'mml/algorithms/FieldAnalyzers.h'), ('field_lines', 'mml/algorithms/FieldLineTracer.h')],
 'The real analyzers run on functions constructed from known roots, stationary points, branches (11 x 11 one-sided behaviours, with every kind of value at the point) and staircases, over every combination of the grids (24 000 functions), and on all quadratic scalar and linear or quadratic vector fields with small coefficients; the expected answer comes from the construction, and field lines are checked against invariants of the flow.',
 'The analysis samples: features closer together than the sampling, jumps next to slopes as steep as themselves between far apart samples, and degenerate optima are not claimed.')
prop('C52', 'Function algebra, extrapolation and guards do what they say for every value',
 'Functions built from others (sum, difference, product, quotient, composition, scaling, shift, power, absolute values, differences) have the value of the expression however deeply nested; Taylor polynomials and derivative wrappers are those of the function, with the given step where one is given. Neville extrapolation gives the value at zero of the polynomial through the points in whatever order and scale they come, Richardson extrapolation removes the leading error terms, with steps, estimates and convergence as documented, and both refuse degenerate input. Guarded divisions follow the chosen policy exactly at singular denominators and plain arithmetic elsewhere; validation refuses exactly the non-finite and non-positive values, naming the culprit; result builders and status names carry what they are given.',
 ['inputs'], 'all expressions up to two (thorough: three) nested operators, all small quartics, point orders, error expansions, policies and special values of the grids',
 'Tests evaluate each wrapper at a few points with default settings; nesting, custom steps, unordered points, signed or borderline denominators are sampled at best.',
 ['mml/core/FunctionHelpers.h', 'mml/core/RichardsonExtrapolation.h', 'mml/core/SingularityHandling.h', 'mml/core/NumericValidation.h', 'mml/core/AlgorithmTypes.h'],
 [('function_algebra', 'mml/core/FunctionHelpers.h'), ('neville', 'mml/core/RichardsonExtrapolation.h'), ('safe_division', 'mml/core/SingularityHandling.h'), ('validation', 'mml/core/NumericValidation.h')],
 'All expression trees over the twelve combinators (2 436, thorough 82 000) against direct evaluation; all quartics with small coefficients against exact derivatives in long double, and against the difference formulas for given steps; all orders of extrapolation points; all policies and special values (NaN, infinities, denormals, signed zeros, both sides of the tolerance).',
 'Richardson extrapolation stops when higher order terms dominate (as in Ridders\' method); exactness is claimed where the leading term dominates.')
prop('C53', 'Vector and matrix helpers follow their definitions for every shape and value',
 'Arithmetic between real and complex vectors and matrices gives the element-wise or row-by-column result with real numbers promoted, in either order of the operands, and refuses exactly the shapes that do not fit. Matrices built from vectors hold them as rows, columns or diagonal, and vectors of different sizes are refused. Orthogonal, unitary, Hermitian, symmetric, antisymmetric, diagonal, identity, zero and diagonally dominant matrices are recognised, and only those; comparisons within a tolerance hold exactly when every entry is equal or within it, so never for NaN. Commutators, symmetric and antisymmetric parts, outer and inner products, projections, angles, Levi-Civita and Kronecker symbols have their defining values; the power series of a matrix is within the bound of the omitted terms; degrees, minutes and seconds split and recombine.',
 ['inputs'], 'all shapes up to 3x3, all small matrices over tables of values (every 3x3 matrix over -1, 0, 1), all pairs of small vectors, all index tuples, one or two entries replaced by values on both sides of the tolerance, NaN and infinities',
 'Tests try one or two matrices per helper; rectangular shapes, non-real diagonals, NaN entries, unfit sizes and operand orders are left out.',
 ['mml/base/BaseUtils', 'mml/base/Matrix', 'mml/base/Vector'],
 [('mixed_matrices', 'mml/base/BaseUtils/MixedTypeOps.h'), ('complex_predicates', 'mml/base/BaseUtils/MatrixOps.h'), ('projections', 'mml/base/BaseUtils/VectorOps.h'), ('symbols', 'mml/base/BaseUtils/SymbolUtils.h'), ('matrix_predicates', 'mml/base/Matrix/Matrix.h')],
 'Every operation of the real code runs on every combination; results are compared with direct evaluation of the definitions, exactly where arithmetic is exact, in long double otherwise.',
 'Projections on the zero vector and angles with it are not defined and not explored. The number of terms of a series is judged by its accuracy only.')
prop('C34', 'Graph algorithms agree with their definitions on every small graph',
 'On every graph, directed or undirected, the graph algorithms return what their definition says: BFS/DFS visit exactly the reachable vertices once with valid parent links and BFS distances equal to hop counts; Dijkstra, Bellman-Ford and Floyd-Warshall return true shortest distances, with paths that exist in the graph and add up to the distance, and negative cycles are reported; components, cycle detection and topological order (or its impossibility) match the definition; Kruskal and Prim return a minimum spanning forest/tree; degree, clustering, path-length and spectral measures match theirs. An out-of-range vertex is rejected.',
 ['inputs'], 'every graph (all edge sets, and all weight assignments from small sets) on up to 4-5 vertices, all start/end vertices',
 'Unit tests use a handful of hand-drawn graphs; errors show on particular combinations of direction, disconnection, weight ties, negative edges and isolated vertices.',
 ['mml/algorithms/GraphAlgorithms.h', 'mml/base/Graph.h'], [('traversals, relaxation loops, union-find, priority queues', 'mml/algorithms/GraphAlgorithms.h')],
 'All edge subsets / weight vectors of small graphs are enumerated; each algorithm of the real code is run and compared with brute-force definitions (reachability closure, minimum over all simple paths, minimum over all spanning subsets, all permutations for topological order).',
 'Quick: all graphs on <= 4 vertices (unweighted), weights from small sets on 3-4 vertices; thorough: 5 vertices and larger weight sets. Larger graphs are not explored.')
prop('C35', 'The Graph container equals the abstract graph after every operation history',
 'After any history of vertex/edge insertions, removals and clears, accepted or rejected, on a directed or undirected graph with or without self-loops, every query (edge membership, weights, degrees, neighbour lists, counts, adjacency, degree, Laplacian and normalized Laplacian matrices) describes the same abstract graph as that history; illegal operations are rejected and change nothing. The factory functions build the named graph families for every size.',
 ['histories', 'inputs'], 'all operation histories up to a depth over all four graph kinds; all small factory sizes',
 'Tests run a few fixed histories; stale degree counts or one-sided undirected edges need a particular add/remove/reject sequence.',
 ['mml/base/Graph.h'], [('adjacency lists and edge counter', 'mml/base/Graph.h')],
 'Depth-first exploration of every operation sequence on the real Graph, compared after every operation with an adjacency-map reference (both directions of every undirected edge, all matrices, rejected operations).',
 'Histories up to 4 (quick) / 5 (thorough) general operations and longer histories of edge toggles on 3 vertices; factories up to 6 vertices.',
 state=[('adjacency lists', 'outgoing edges with weights per vertex', 'mml/base/Graph.h')])
prop('C03', 'CSV/TSV files load as exactly the table they encode',
 'Loading a CSV/TSV text (file or string, with any delimiter, quoting, line ending, BOM, header and final-newline choice) yields exactly the rows, column names and cell values the text encodes: quoted delimiters and doubled quotes are decoded, short rows read as missing, no row or cell is dropped, shifted or silently altered. Column types are inferred from the cells by the 90 percent rule; a cell that does not belong to the column type is marked missing rather than changed into another value; integers outside int and mixed integer/real columns become real. Strict mode rejects and warnings name every row of the wrong length; empty or absent files are reported as errors, and the Safe variants report exactly the failures of the throwing ones.',
 ['inputs'], 'all small tables over an alphabet of cell texts x all encodings; all type mixes up to 20 rows; all ragged shapes; all short raw texts',
 'Tests load a few well-behaved files; quoting, share thresholds, partial numeric parses and ragged rows interact in ways only enumeration covers.',
 ['mml/tools/data_loader/DataLoaderCSV.h', 'mml/tools/data_loader/DataLoaderParsing.h', 'mml/tools/data_loader/DataLoaderTypes.h'], [('line splitting, type inference, value parsing', 'mml/tools/data_loader/DataLoaderParsing.h'), ('file loader and string loader (two copies)', 'mml/tools/data_loader/DataLoaderCSV.h')],
 'A reference (character-level classifier, exact 90 % rule, no regex) computes the expected table for every enumerated cell table and encoding; LoadCSV, LoadTSV, LoadFromCSVString and the Safe variants are all compared with it cell by cell.',
 'Tables up to 2x2 (quick) over up to 14 cell texts, single columns up to 20 (31 thorough) rows, ragged shapes up to 3x4, raw texts up to 5 (7) bytes. Quoted line breaks and quotes in the middle of an unquoted field are not claimed.')
prop('C04', 'JSON tables load exactly; truncated or malformed JSON is rejected',
 'Loading a JSON array of flat objects yields one row per object (also for empty objects), one column per key in order of first appearance, each value in the row and column it belongs to, absent keys and nulls missing, a repeated key overwritten by its last value, and strings decoded with all JSON escapes. A text cut off anywhere, a non-array root, non-object elements, nested values, and malformed literals, strings or separators between key and value are rejected with DataError, and LoadJSONSafe then reports failure with no data.',
 ['inputs', 'crash_points'], 'all small object lists (key sets, orders, repeats), all pairs of value spellings, every truncation point of a family of files, a list of malformed texts',
 'Tests cover a few regular files; row alignment depends on which object has which keys, and truncation has as many cases as bytes.',
 ['mml/tools/data_loader/DataLoaderJSON.h'], [('recursive-descent parser and row assembly', 'mml/tools/data_loader/DataLoaderJSON.h')],
 'Objects, keys, values and whitespace are enumerated; the expected table is built directly from the enumerated objects and compared cell by cell for string, file and Safe loaders. Every strict prefix of each file is checked to be rejected.',
 'Up to 3 (4) objects with up to 2 (3) keys, 24 value spellings in pairs, files of about 60 bytes cut at every byte. Leniency towards missing or extra commas is not claimed.')
prop('C05', 'Dataset filters, selections and listings describe the same table',
 'For a dataset with columns of any type and any missing cells: row filters keep exactly the rows the predicate accepts, in order, with all cells, types and missing marks of every column; column selection keeps exactly the named columns in the given order; the source is unchanged; filters and selections compose; typed accessors return the cell values and reject columns of another type; Head, Tail and Sample list the first, last and k distinct rows; unknown columns are rejected.',
 ['inputs', 'histories'], 'every ordered pair of column types, row counts 1-5, every keep/drop decision of the filter, followed by selection and a second filter',
 'Tests filter one or two column types; per-type copy code can drop or shift data for a type or missing pattern nobody sampled.',
 ['mml/tools/data_loader/DataLoaderTypes.h'], [('per-type copies in FilterRows', 'mml/tools/data_loader/DataLoaderTypes.h')],
 'All column-type pairs, sizes and predicates (as a decision per distinct text) are enumerated; each resulting dataset is compared cell by cell with the reference table, then filtered and selected again.',
 '8 column types, up to 5 rows, two operations deep.')
prop('C06', 'Matrix and vector files round-trip exactly; damaged ones are rejected',
 'Saving a matrix (text, CSV, binary; any size, element type, finite values) or a complex/real vector and loading it back yields exactly the same dimensions and values, whatever the target held before. A save returns true only if every byte was written: with the disk full at any point it returns false. A load returns false, without throwing, for a missing, truncated, ragged, non-numeric or header-corrupted file; it never returns true with missing or invented elements.',
 ['inputs', 'crash_points', 'fault_sequences'], 'all small matrices over extreme values; a write failure after every byte; truncation at every byte; every header byte corrupted',
 'Unit tests write and read well-formed files; the silent failures are at particular byte positions.',
 ['mml/tools/serializer/MatrixIO.h', 'mml/tools/serializer/VectorIO.h'], [('stream state checks, header validation', 'mml/tools/serializer/MatrixIO.h')],
 'Round trips are enumerated over sizes, element types and extreme values (bit-exact comparison). Every prefix of each saved file is loaded, every single header-byte corruption is loaded, and each save is repeated with RLIMIT_FSIZE at every byte offset (the write fails exactly there).',
 'Matrices up to 3x3 (4x4), vectors up to 4; for text a cut inside the last number cannot be told apart from a shorter number and is not claimed; CSV cut at a row end is a valid smaller file.', level='model_checking')
prop('C07', 'A serializer reports success only for a complete, correct document',
 'Each Save function of the serializer (real functions, interpolated functions, parametric curves, surfaces, scalar and vector fields, ODE solutions, field lines, particle simulations) either reports OK and the file holds the complete document: type, title and range header, exactly the declared number of records, in order, each with the sample position and function value to the documented precision (subsampling and magnitude thresholds applied exactly), replacing what was in the file; or it reports the matching error: invalid parameters (bad range, too few points, mismatched sizes, empty name), unopenable file, or write failure at any byte. It never reports success for a partial file.',
 ['inputs', 'fault_sequences', 'crash_points'], 'every Save function over valid and invalid parameter combinations, small sizes, and a write failure after every byte of the document',
 'Tests save to a healthy disk with valid parameters; each function is its own copy of the loop and its own error path.',
 ['mml/tools/serializer/SerializerBase.h', 'mml/tools/serializer/SerializerCurves.h', 'mml/tools/serializer/SerializerFunctions.h', 'mml/tools/serializer/SerializerFieldLines.h', 'mml/tools/serializer/SerializerODE.h', 'mml/tools/serializer/SerializerSimulation.h', 'mml/tools/serializer/SerializerSurfaces.h', 'mml/tools/serializer/SerializerVectors.h'], [('result codes after close', 'mml/tools/serializer/SerializerBase.h')],
 'The expected document is generated token by token from the enumerated parameters and compared line by line; then the save is repeated with RLIMIT_FSIZE set to every byte offset, with an empty name, an unopenable path and over an existing longer file.',
 'Grids up to 4 points per axis, up to 3 field lines, 4 simulation steps; numbers compared at 6 significant digits (15 where the precision argument asks for it, exact for field lines). Titles are single-line and non-empty.')
prop('C08', 'Printed tables keep every cell in place; exports read back as the table',
 'A console table shows every tag and value in its row and column with the requested width, alignment and number format, all lines equally wide for every border style, header and separator choice (auto-width columns always fit). CSV, HTML and LaTeX exports read back as exactly the table whatever characters the cells contain, and TSV/Markdown for plain cells; Csv::unescape inverts Csv::escape. Printing neither depends on nor changes the format state of the stream, a row of the wrong size is refused and changes nothing, and writing to a file either stores the complete text or throws.',
 ['inputs', 'fault_sequences'], 'all styles x alignments x widths x small tables over a cell alphabet; all escape inputs up to a length; a write fault at every byte',
 'Tests look at a few substrings of one table; layout depends on the product of style, alignment, width mode and content, escapes on adjacent special characters, and write errors never happen in tests.',
 ['mml/tools/ConsolePrinter.h'], [('column formats, width calculation, border printing', 'mml/tools/ConsolePrinter.h'), ('CSV/HTML/LaTeX escapers', 'mml/tools/ConsolePrinter.h')],
 'Every small table/style combination is printed with the real printers; the output is split back into cells by an independent reader (display columns for console text, RFC 4180 / HTML / LaTeX readers for exports) and compared with the input; streams start in several format states; file variants run under a write limit at every byte offset.',
 'Tables up to 3x3 cells over 3-20 cell texts; escapes up to 5 (6) characters. UTF-8 cell widths, separators inside TSV/Markdown cells and over-long fixed-width cells are not claimed.')
prop('C09', 'Timers report exactly the time between their start, marks and end of scope',
 'After any history of start, mark, reset and passing time, a Timer reports for every mark the exact interval since the previous mark, the time from start and the total, with the right number and names of marks, and refuses indices it does not have. A ScopedTimer delivers the exact lifetime of its scope once, when the scope ends (normally or by an exception), to its result or callback; an exception thrown by the callback never escapes, and a silent timer prints nothing.',
 ['histories'], 'all histories up to 6 operations under a virtual clock; all scoped-timer kinds',
 'Tests sleep and compare with generous tolerances; a wrong base mark or a stale start is invisible in them.',
 ['mml/tools/Timer.h'], [('mark list and start time', 'mml/tools/Timer.h')],
 'steady_clock::now() is replaced by a virtual clock, so every history of clock steps, marks and resets is enumerated and compared exactly with the recorded instants.',
 'Histories up to 6 (8) operations, clock steps of 0, 1 ns and 1.5 s.', state=[('marks', 'instants and names since the last start', 'mml/tools/Timer.h')])

prop('C10', 'Vectors and dense matrices compute exactly what linear algebra defines',
 'For every size and shape: construction, copies, moves, resizing, element, row, column, block and triangle access, and every arithmetic operation on Vector, VectorN, Matrix, MatrixNM and Matrix3D give exactly the entries linear algebra defines, also for empty, single-row, non-square and aliased operands, and never touch memory outside the object; in-place and out-of-place forms agree; comparisons and predicates (symmetric, antisymmetric, diagonal, identity, orthogonal) match their definition; operations whose sizes do not fit, and indices outside the object in checked access, are rejected and change nothing.',
 ['inputs', 'histories'], 'all shapes up to 3-4, all small-integer contents, all pairs of shapes for binary operations, with address sanitizing',
 'Tests use a few square well-formed matrices; shape-dependent indexing, aliasing and size checks fail at particular shape pairs.',
 ['mml/base/Vector/Vector.h', 'mml/base/Vector/VectorN.h', 'mml/base/Matrix/Matrix.h', 'mml/base/Matrix/MatrixNM.h', 'mml/base/Matrix/Matrix3D.h'], [('row-major storage and size checks', 'mml/base/Matrix/Matrix.h')],
 'All shapes and small-integer entries are enumerated; every result of the real classes is compared entry by entry with a naive reference (mc/linref.h), including self-aliased calls and mismatched shapes (which have to throw and leave the operand unchanged).',
 'Shapes up to 3x3 (4x4 for contents), integer entries (arithmetic exact in double); compile-time sizes are a list of instantiations.')
prop('C11', 'Symmetric, tridiagonal and band matrices behave as their dense equivalent',
 'A symmetric, tridiagonal or band matrix is observably the dense matrix with the same entries: element access, rows, columns, conversion, sums, scalar and matrix products, matrix-vector products, transposes, norms, traces, equality and predicates agree with the dense result; entries outside the structure read as zero and cannot be written; mismatched sizes are refused; a tridiagonal solve returns the exact solution of the dense system.',
 ['inputs'], 'all sizes up to 4 (5), all bandwidth pairs and small-integer contents',
 'Packed storage has index arithmetic per class; tests sample one size and bandwidth.',
 ['mml/base/Matrix/MatrixSym.h', 'mml/base/Matrix/MatrixTriDiag.h', 'mml/base/Matrix/MatrixBandDiag.h'], [('packed index maps', 'mml/base/Matrix/MatrixBandDiag.h')],
 'Every size, bandwidth and content is enumerated; each operation of the structured class is compared with the reference dense matrix and exact rational elimination for Solve.',
 'Sizes up to 4-5; tridiagonal systems restricted to those where elimination without pivoting is defined.')
prop('C12', 'Matrix inversion is exact up to rounding and refuses singular matrices',
 'For every square matrix, inverting either returns the inverse (in place or as a copy, general or fixed size, real or complex) accurate to rounding, whatever pivoting the entries require, or - exactly for singular matrices, zero rows included - throws the singular-matrix error; non-square matrices are refused.',
 ['inputs'], 'all small-integer 2x2 and 3x3 matrices (and all 0/1 4x4 in the thorough tier)',
 'Tests invert a few well-conditioned matrices; pivot bookkeeping errors need particular zero patterns.',
 ['mml/base/Matrix/Matrix.h', 'mml/base/Matrix/MatrixNM.h'], [('Gauss-Jordan with full pivoting', 'mml/base/Matrix/Matrix.h')],
 'All matrices with entries from a small integer set are enumerated and inverted by the real code; the result is compared with the inverse computed in exact rationals, singularity with the exact rank.',
 'Up to 3x3 over {-2..2} subsets (quick) and 4x4 over {0,1} (thorough).')
prop('C13', 'Interval set operations are exact at every endpoint',
 'For every pair of intervals - open, closed, half-open, unbounded, the whole line - membership in the union, intersection, difference and complement is exactly what set algebra says for every real number, endpoints included; measures, bounds and lengths agree; contains and intersects decide the set relations; composites of several pieces behave as their union; an equidistant covering delivers the requested number of points, all inside the set and at the equidistant places, reaching closed ends; intervals with recurring point holes exclude exactly the holes.',
 ['inputs'], 'all pairs (thorough: triples) of the nine interval kinds with ends on a 5-point grid; composites of three pieces',
 'Tests check a few pairs; open/closed decisions matter only when ends touch or coincide, per kind pair.',
 ['mml/base/Intervals.h'], [('endpoint types in set operations', 'mml/base/Intervals.h')],
 'All interval pairs on a small integer grid are combined by the real code; membership is probed at every integer, next to every integer and far outside, and compared with two-valued set logic.',
 'Ends on a 5-point grid (all relative positions of four ends occur); empty operands such as [2,2) are not claimed.')
prop('C14', 'Polynomial arithmetic, calculus, division and printing are exact',
 'For all polynomials, also empty, zero, with leading zeros, aliased, real or complex: sums, products, scalar forms, evaluation, derivative, integral, all higher derivatives at a point, reduction and equality are what algebra defines; division gives quotient and remainder with u = qv + r and deg r < deg v, and refuses a zero divisor; the polynomial through given points passes through all of them with minimal degree (repeated abscissas refused); printed text reads back as the same polynomial and leaves the stream format untouched; Chebyshev polynomials of both kinds equal their explicit form.',
 ['inputs'], 'all polynomials up to 5 coefficients (pairs up to 5 x 3) with small-integer coefficients',
 'Tests use a few well-formed polynomials; short dividends, empty operands and leading zeros are not covered.',
 ['mml/base/Polynom.h', 'mml/base/ChebyshevPolynom.h'], [('coefficient loops and division', 'mml/base/Polynom.h')],
 'All coefficient lists in the bounds go through the real class; results are compared with integer polynomial arithmetic; printed text is read back by an independent reader.',
 'Coefficients in -2..2, up to 5 (6) of them; evaluation at small integers where double arithmetic is exact.')
prop('C15', 'Points, vectors, angles and quaternions agree across all representations',
 'Every operation on Cartesian, polar, spherical and cylindrical points and vectors gives what the same operation gives in Cartesian coordinates: sums, differences, scaling, negation, unit vectors, components at a position, distances (never NaN, also between nearly equal points), equality, angles, perpendicular vectors; conversions round-trip at poles, axes and branch cuts; angles reduce to their range in bounded time for every finite angle; Minkowski intervals classify exactly. Quaternion algebra is exact; Euler angles, rotation matrices, axis-angle and rotated vectors describe the same rotation at every angle including half turns; Slerp moves at constant angular speed along the shorter arc and stays a unit.',
 ['inputs'], 'all small-grid vector pairs, angle grids of 15-45 degrees, all Euler triples in 30 (15) degree steps, near-half-turn axes',
 'Tests convert a few generic points; errors live at poles, half turns, sign branches and nearly equal points.',
 ['mml/base/Vector/VectorTypes.h', 'mml/base/Quaternions.h', 'mml/base/Geometry/GeometryCore/GeometryPoints.h', 'mml/base/BaseUtils/AngleCoordUtils.h'], [('largest-component branches of the matrix conversion', 'mml/base/Quaternions.h')],
 'Every enumerated pair of vectors, angles or quaternions goes through the real classes; results are compared with elementary definitions (Cartesian components, products of elementary rotation matrices).',
 'Grids as stated; Euler extraction at exact gimbal lock is only required to be finite with the right pitch (documented limitation); anti-parallel IsParallelTo not claimed.')
prop('C16', 'Interpolants pass through their data and equal their defining formula',
 'For every table with distinct sorted abscissas, ascending or descending, even or uneven: linear, Neville polynomial, spline, rational and barycentric interpolants reproduce every node and between nodes equal the interpolant their method defines (the right stencil everywhere, in any query order, also extrapolated); splines are C2 with the requested end conditions, and their derivatives and integrals match; bilinear and bicubic surfaces agree with nested one-dimensional interpolation including derivatives; polyline and spline curves pass through all points by arc length over any parameter range, and closed ones join without a seam; tables of unequal, repeated or too few points are refused.',
 ['inputs'], 'all tables of 2-4 (5) points with uneven steps, both directions, every stencil order, all interval positions',
 'Tests use evenly spaced ascending tables; stencil selection, direction and closing segments fail only at particular shapes.',
 ['mml/base/InterpolatedFunctions/InterpolatedRealFunction.h', 'mml/base/InterpolatedFunctions/Interpolation2DFunction.h', 'mml/base/InterpolatedFunctions/InterpolationParametricCurve.h'], [('binary search and stencil clamping', 'mml/base/InterpolatedFunctions/InterpolatedRealFunction.h')],
 'All tables of the bounded family are interpolated by the real classes; values are compared with Lagrange formulas, a densely solved spline system and Floater-Hormann blends in long double.',
 'Up to 4 (5) points per axis, steps 0.25/1/3, values from small integers; closed smoothness on 8-12 point ovals with tolerance 4e-3.')
prop('C17', 'Tensor contraction, evaluation and index variance are exact',
 'For every tensor of rank 2 to 5, every assignment of upper and lower indices and every pair of indices: contraction is the index sum with the remaining indices in order and with their variance, evaluation on vectors is the multilinear sum, arithmetic is element-wise and keeps each index variance; the counts of upper and lower indices always agree with the individual flags; index counts that do not fit the rank, too long initialisers, equal or out-of-range indices and contraction of two like indices of a rank-2 tensor are refused.',
 ['inputs'], 'all variance patterns x all contraction pairs x element fillings, ranks 2-5 in dimensions 2 and 3; all constructor count pairs',
 'Tests contract one pair on one tensor of default variance.',
 ['mml/base/Tensor.h'], [('contraction index maps', 'mml/base/Tensor.h')],
 'All patterns are built through constructor and setContravar on the real class (address and undefined-behaviour sanitised) and compared with index-level sums on a flat array.',
 'Dimensions 2 and 3; integer contents so sums are exact. Adding tensors with equal counts but different index placement is not claimed.')
prop('C20', 'Direct linear solvers give the exact solution or report a singular system',
 'For every square system, every direct solver (Gauss-Jordan, LU, in-place LU, QR, band LU, Cholesky for symmetric positive definite matrices, SVD; real and complex; single or multiple right-hand sides; const, in-place and aliased forms) returns the exact solution up to rounding, with matching determinant and inverse, whatever row exchanges are needed and whatever the overall scale; for singular matrices each refuses with the singular-matrix error; mismatched or empty sizes are refused, and undefined elements never lead to a defined solution or a crash. The Detailed variants report the same outcome as a status, with the true residual norm. Arguments passed as const are unchanged.',
 ['inputs'], 'all small-integer systems up to 4x4, dependent-row families, all pivot orders of 5x5 bands, three scales, complex 2x2',
 'Tests solve a few well-conditioned systems; pivot bookkeeping and singular detection depend on particular zero and dependency patterns.',
 ['mml/core/LinAlgEqSolvers/LinAlgDirect.h', 'mml/core/LinAlgEqSolvers/LinAlgQR.h', 'mml/core/LinAlgEqSolvers/LinAlgSVD.h'], [('pivoting and singularity thresholds', 'mml/core/LinAlgEqSolvers/LinAlgDirect.h')],
 'All matrices of the bounded families are solved with every solver of the real code and compared with exact rational elimination (solution, inverse, determinant, singularity); detailed variants are compared with the throwing ones under both exception policies.',
 'Up to 3x3 over {-1,0,1}, 2x2 over {-3..3}, 4x4 over {0,1} (12 free cells quick, 16 thorough), symmetric 4x4 families; overall scale factors 1, 2^-60, -2^30.')
prop('C21', 'Matrix factorizations and rank, range and null-space results are exact',
 'For every matrix, also rank-deficient, rectangular and zero ones: QR gives A = QR with orthonormal Q and triangular R; Cholesky gives A = LL^T exactly for positive definite matrices and refuses all others; SVD gives A = UWV^T with orthonormal factors and sorted nonnegative singular values; least-squares and minimum-norm solutions satisfy their defining equations; rank, nullity, condition, null/column/row spaces, pseudo-inverse, determinant, characteristic polynomial, norms and structure predicates equal the exact ones.',
 ['inputs'], 'all small-integer matrices of every shape up to 3x3, rank-controlled families up to 5x5, three scales',
 'Tests factor a few full-rank matrices; rank decisions and degenerate sweeps need dependent columns, zeros and wide shapes.',
 ['mml/core/LinAlgEqSolvers/LinAlgQR.h', 'mml/core/LinAlgEqSolvers/LinAlgSVD.h', 'mml/core/LinAlgEqSolvers/LinAlgDirect.h', 'mml/core/MatrixUtils.h'], [('Householder and implicit QR sweeps', 'mml/core/LinAlgEqSolvers/LinAlgSVD.h')],
 'Every matrix of the bounded families goes through the real factorizations; products, orthogonality, Penrose conditions and subspace projectors are checked against exact rational rank, null space, minors and inverse.',
 'Entries {-1..1} (3x3), {-3..4} (2x2 and vectors), outer-product sums up to 5x5; overall scales 1, 2^-30, 2^20.')
prop('C22', 'Iterative linear solvers iterate as defined and report convergence truthfully',
 'Jacobi, Gauss-Seidel and SOR produce exactly the iterates of their method from the given start vector; they stop at the first iterate whose relative residual is below the tolerance and otherwise after the maximum; converged, residual, iteration count, status and message describe what happened; they converge for strictly diagonally dominant (and Gauss-Seidel, SOR for symmetric positive definite) systems; the simple forms throw exactly when not converged; zero diagonals, sizes that do not fit and relaxation factors outside (0,2) are refused.',
 ['inputs', 'histories'], 'all small-integer systems up to 3x3 and a 4x4 family x starts x iteration limits 1-4 and unlimited',
 'Tests check that dominant systems converge; wrong sweeps still converge there, and false convergence shows only on particular systems.',
 ['mml/core/LinAlgEqSolvers/LinAlgEqSolvers_iterative.h'], [('sweep loops and residual test', 'mml/core/LinAlgEqSolvers/LinAlgEqSolvers_iterative.h')],
 'The k-th iterate (k = 1..4) is computed by a reference sweep and compared with the result of the real solver limited to k iterations, for all enumerated systems; final results are compared with exact rational solutions.',
 'Systems up to 4x4, relaxation factors 0.5 and 1.25; iteration limits 1-4 and 4000.')
