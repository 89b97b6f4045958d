#!/usr/bin/env python3
"""Single source of /verif/properties.jsonl (run to regenerate)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, observe, state=None, hook=None):
    P.append(dict(id=id, title=title, statement=statement,
                  quantifier=dict(over=over, text=text), why_tests_cant=why,
                  anchors=dict(files=files, state=[dict(name=a, meaning=b, where=c) for a, b, c in (state or [])],
                               mechanism=[dict(name=a, where=b) for a, b in mech],
                               observe_at=observe, hook_needed=hook)))

prop("C01", "Dense vectors and matrices obey exact linear algebra",
 "For every sequence of constructions, element writes, resizes, row/column edits, copies, moves and arithmetic on dense vectors and matrices (dynamic and fixed size), every object holds exactly the value that linear algebra assigns to it, including when operands alias each other or an element of the target. No operation changes an operand it does not own the result in, and operations on incompatible shapes or out-of-range checked positions raise the documented exception and leave every operand unchanged.",
 ["histories", "inputs"], "every sequence of public operations over several live objects, every shape including 0, 1 and non-square, every aliasing pattern",
 "The unit tests call each operator a few times on fresh, distinct 2x2/3x3 objects; they do not compose operations, alias operands, or check that the other operands survive.",
 ["mml/base/Vector/Vector.h", "mml/base/Vector/VectorN.h", "mml/base/Matrix/Matrix.h", "mml/base/Matrix/MatrixNM.h"],
 [("flat row-major storage and element-wise loops", "mml/base/Matrix/Matrix.h"), ("dimension checks before work", "mml/base/Vector/Vector.h")],
 ["return value and full contents of every live object after each public call"],
 [("rows, cols, data", "the abstract matrix", "Matrix"), ("elems", "the abstract vector", "Vector")])

prop("C02", "Structured matrices behave exactly like their dense expansion",
 "A symmetric, tridiagonal, band-diagonal or three-index matrix, after any sequence of element writes and arithmetic, reads at every in-range index the value the corresponding dense object would have, and products with vectors and matrices, sums, traces, norms, conversions and direct solves equal the dense result. A write or read outside the stored structure is rejected or reads zero as documented, never hits another element.",
 ["histories", "inputs"], "every order, every band width, every index pair, every sequence of writes and operations",
 "Tests check particular 3x3/4x4 examples; packed-index arithmetic goes wrong only for some (i,j,width) combinations and after writes to neighbouring elements.",
 ["mml/base/Matrix/MatrixSym.h", "mml/base/Matrix/MatrixTriDiag.h", "mml/base/Matrix/MatrixBandDiag.h", "mml/base/Matrix/Matrix3D.h"],
 [("packed triangular index", "MatrixSym"), ("three-diagonal storage and Thomas solve", "MatrixTriDiag"), ("band storage and band LU", "MatrixBandDiag")],
 ["all n*n element reads and all operation results after each step"])

prop("C03", "Direct linear solvers return the solution, or say the matrix is singular",
 "For every square (or, for least-squares and SVD, rectangular) system, the direct solvers - Gauss-Jordan, LU, in-place LU, band LU, Cholesky, QR, SVD - either return a vector or matrix whose residual is at rounding level relative to the data, or raise the documented exception for a singular, non-positive-definite or misshaped input; they do not return garbage silently. Reported determinants, inverses and factors multiply back to the input, and the caller's inputs are not modified by the non-in-place forms.",
 ["inputs"], "every matrix: any order, pivoting order, zero leading minors, scaling, repeated solves on one factorization, many right-hand sides, every singular pattern",
 "Test systems are a fixed bed; zero pivots at particular stages, repeated use of one solver object, order-1 systems and exactly singular inputs are barely sampled.",
 ["mml/core/LinAlgEqSolvers/LinAlgDirect.h", "mml/core/LinAlgEqSolvers/LinAlgQR.h", "mml/core/LinAlgEqSolvers/LinAlgSVD.h", "mml/base/Matrix/Matrix.h"],
 [("partial pivoting with recorded row permutation", "LUSolver"), ("Householder QR", "QRSolver"), ("SVD pseudo-inverse", "SVDecompositionSolver")],
 ["solver constructor outcome, Solve/inverse/det results"])

prop("C04", "Iterative linear solvers report convergence truthfully",
 "Jacobi, Gauss-Seidel, SOR and the other iterative solvers report convergence only when the returned vector satisfies the convergence criterion they document, report iteration counts within the configured limit, and otherwise report failure with the matching status. The returned residual and iteration figures describe the returned vector.",
 ["inputs", "configurations"], "every matrix (dominant or not), start vector, tolerance, relaxation factor and iteration limit including 0 and 1",
 "Tests use systems that converge comfortably or fail outright, never the boundary where the limit is hit on the converging iteration or where the start is already the solution.",
 ["mml/core/LinAlgEqSolvers/LinAlgEqSolvers_iterative.h"],
 [("convergence test on update/residual, iteration cap", "IterativeLinearSolvers")],
 ["IterativeSolverResult"])

prop("C05", "Eigenvalue and singular-value decompositions reconstruct their matrix",
 "Whenever an eigensolver or SVD reports success for a matrix, each returned eigenpair satisfies A v = lambda v to rounding level, the eigenvalues with multiplicity have the trace, determinant and power sums of the matrix, symmetric eigenvectors and singular vectors are orthonormal, singular values are non-negative, and documented ordering holds. Rank, null-space, column-space, definiteness and condition figures derived from them agree with exact arithmetic on matrices whose exact answer is unambiguous.",
 ["inputs"], "every square matrix (and rectangular for SVD), with repeated, zero, complex, defective or widely scaled eigenvalues",
 "Tests use a bed of known spectra; order-1 and order-2 cases, repeated roots, deflation paths and already-reduced inputs exercise different branches.",
 ["mml/algorithms/EigenSystemSolvers.h", "mml/algorithms/EigenSolverHelpers.h", "mml/core/LinAlgEqSolvers/LinAlgSVD.h", "mml/core/MatrixUtils.h", "mml/algorithms/MatrixAlg.h"],
 [("Jacobi rotations; implicit QR with deflation; Hessenberg reduction", "EigenSystemSolvers"), ("Golub-Kahan SVD", "LinAlgSVD")],
 ["solver result structs"])

prop("C06", "Polynomial arithmetic, division, calculus and roots are exact",
 "Polynomial sums, products, scalar operations, evaluation (value and derivatives), differentiation, integration, interpolation-from-values and Euclidean division satisfy their algebraic definitions for all coefficients, including zero and constant polynomials and vanishing leading terms; in particular u = q*v + r with deg r < deg v. Every root solver (quadratic, cubic, quartic, Laguerre, eigenvalue, Bairstow) that reports success returns all roots with multiplicity.",
 ["inputs", "histories"], "every pair of polynomials of any degree incl. empty/zero, every evaluation point, every root configuration (real, complex, repeated, zero)",
 "Tests sample a few low-degree polynomials; cancellation to lower degree, zero divisors, and repeated or complex roots are specific inputs.",
 ["mml/base/Polynom.h", "mml/algorithms/RootFinding/RootFindingPolynoms.h"],
 [("Horner evaluation; synthetic division; degree trimming", "Polynom"), ("closed-form and iterative root formulas", "RootFindingPolynoms")],
 ["coefficients, degree, evaluation and root vectors"])

prop("C07", "Intervals and their set operations are exact sets of reals",
 "For every interval value - each combination of open, closed and infinite ends, composite intervals, and intervals with holes - membership, intersection, union, difference, complement, containment, overlap and measure agree with the set of real numbers the value denotes, in particular at the end points and at holes. Equidistant coverings contain the requested number of points, in order, inside the interval.",
 ["inputs", "histories"], "every pair of intervals of every end type and every probe point, and every nesting of set operations",
 "There are dozens of end-type combinations per operation, each with equal, touching, nested, disjoint and degenerate placements; tests check a handful.",
 ["mml/base/Intervals.h", "mml/interfaces/IInterval.h"],
 [("end-type case analysis", "Interval::Intersection/Union/Difference/Complement")],
 ["contains, intersects, getLowerBound/UpperBound/Length/Measure"])

prop("C08", "A graph reflects exactly the vertices and edges added and removed",
 "After any sequence of vertex and edge additions and removals (directed or undirected, weighted, with or without self-loops, parallel edges, rejected calls), every query - counts, adjacency, in/out degree, weights, neighbour and edge lists, adjacency/degree/Laplacian matrices - describes the same graph, namely the one the history defines. An undirected edge is seen identically from both ends, and a rejected call changes nothing.",
 ["histories"], "every history of mutations over a few vertices, directed and undirected",
 "Tests build small graphs by additions only; removal of parallel edges, self loops and interleavings with removal leave the two adjacency sides out of step only in particular orders.",
 ["mml/base/Graph.h"],
 [("mirrored adjacency lists plus edge counter", "Graph::addEdge/removeEdge")],
 ["all public queries after every mutation"],
 [("adjacency", "edge multiset", "Graph"), ("edge count", "number of edges", "Graph")])

prop("C09", "Graph algorithms return complete, optimal and consistent answers",
 "For every graph, traversals visit exactly the reachable vertices once and in valid breadth/depth-first order; shortest-path results are true minimum distances with predecessor chains that realise them (and negative cycles are reported exactly when reachable); spanning trees/forests are acyclic, spanning and of minimum weight; component, connectivity, topological-order, cycle and DAG answers are exact. Distance-based measures (diameter, average path length, closeness, betweenness, clustering, density, degree centrality) equal their definitions.",
 ["inputs"], "every directed/undirected weighted graph incl. empty, disconnected, zero/negative weights, self loops and parallel edges",
 "Tests run a few hand-made connected graphs; optimality has to hold for every topology and weight assignment.",
 ["mml/algorithms/GraphAlgorithms.h", "mml/algorithms/GraphSpectral.h"],
 [("priority-queue relaxation, union-find, DFS colouring", "GraphAlgorithms"), ("Brandes accumulation", "GraphSpectral")],
 ["result structs of every algorithm"])

prop("C10", "Spatial index queries equal an exhaustive scan",
 "For every point set and query, the k-d tree returns the true nearest neighbour distance, the true k smallest distances in ascending order, and exactly the points within a radius or box (boundaries as documented), the same as checking every point, whatever the leaf size, duplicates, collinearity or dimension. Rebuilding, clearing and querying an empty tree behave as documented.",
 ["inputs", "histories"], "every point set (duplicates, ties on the splitting axis, collinear), query point, k, radius and box, and any build/clear/query sequence",
 "Pruning errors show only when a better point lies across a splitting plane in a specific relation to the current best; random tests with few queries miss them.",
 ["mml/algorithms/CompGeometry/KDTree.h"],
 [("median split, bounding-plane pruning, bounded max-heap", "KDTree")],
 ["query results"])

prop("C11", "Planar and spatial geometry algorithms satisfy their definitions",
 "For every input point set or polygon in general or degenerate position, the 2D convex hull is convex, minimal and contains all points; triangulations tile the polygon or hull (Delaunay: empty circumcircles); the minimum enclosing circle contains all points and is minimal; closest pair is the true minimum; segment, line and ray-triangle intersections are reported exactly when they exist and lie on both objects; clipping against a convex region yields exactly the intersection area; 3D hulls contain all points and have outward faces; Voronoi queries return the nearest site.",
 ["inputs"], "every configuration of points on small grids incl. duplicates, collinear and cocircular sets, both polygon orientations",
 "Degenerate configurations (collinear, duplicate, touching) are isolated inputs the tests visit once or not at all.",
 ["mml/algorithms/CompGeometry/ConvexHull.h", "mml/algorithms/CompGeometry/ConvexHull3D.h", "mml/algorithms/CompGeometry/Triangulation.h", "mml/algorithms/CompGeometry/VoronoiDiagram.h", "mml/algorithms/CompGeometry/Circles.h", "mml/algorithms/CompGeometry/Intersections.h", "mml/algorithms/CompGeometry/PolygonOps.h"],
 [("orientation predicates, monotone chain, Welzl, Bowyer-Watson, Sutherland-Hodgman", "CompGeometry")],
 ["returned polygons, triangles, circles, indices"])

prop("C12", "The thread pool runs every task exactly once and waiting never lies or hangs",
 "Under every interleaving of submitters, workers and waiters, each submitted task runs exactly once, tasks start in submission order, at most the configured number run concurrently, waiting returns only when no submitted task is queued or running and always returns eventually, and destruction runs everything still queued. Every exception thrown by a task is captured exactly once, is reported to the error callback, kills no worker, and the counters and exception queries agree with what has happened.",
 ["schedules", "histories"], "every interleaving of the pool's synchronisation steps for small numbers of workers, tasks, submitters, waiters, throwing tasks and tasks that submit tasks",
 "Tests run whichever schedule the OS picks; a lost wake-up, early return or double run needs one particular interleaving.",
 ["mml/tools/ThreadPool.h"],
 [("queue mutex, work and completion condition variables, in-flight counter", "ThreadPool")],
 ["task start/end, wait return, exception queries, destructor return"],
 [("tasks", "FIFO of submitted, unstarted tasks", "ThreadPool"), ("in_flight_tasks", "running tasks", "ThreadPool"), ("stop", "shutdown flag", "ThreadPool"), ("exceptions", "captured exceptions", "ThreadPool")])

prop("C13", "CSV, TSV and JSON loading preserves every cell or reports failure",
 "Parsing a delimited or JSON document yields, for every row and column, exactly the value written there - quoting, embedded delimiters, escapes, blank and missing cells, header, byte-order mark, line-ending and whitespace rules included - with the same number of rows in every column, missing markers exactly where the cell was missing, and a column type all of whose cells fit. Malformed or unreadable input is reported as an error or failed result, never as silently shortened or shifted data.",
 ["inputs"], "every document over the format's alphabet (quotes, delimiters, newlines, escapes, nested JSON) and every option combination",
 "Parsers are state machines over character sequences; tests feed a few well-formed files.",
 ["mml/tools/data_loader/DataLoaderCSV.h", "mml/tools/data_loader/DataLoaderJSON.h", "mml/tools/data_loader/DataLoaderParsing.h", "mml/tools/data_loader/DataLoaderTypes.h"],
 [("quote-aware splitter, type inference, recursive-descent JSON parser", "data_loader")],
 ["Dataset contents, LoadResult"])

prop("C14", "Saved vectors and matrices load back identically; bad files are refused",
 "For each file format (text, CSV, binary, complex), a vector or matrix saved by the library and loaded back by its counterpart has the same shape and the same values, bit-identical for binary and to the documented text precision otherwise. Loading a missing, truncated, corrupted or wrong-type file reports failure instead of success with invented contents.",
 ["inputs", "fault_sequences"], "every shape and value incl. extremes and signed zero, every truncation point and header corruption of the file",
 "Tests save and load one nice matrix per format; truncation at each byte and hostile headers are not tried.",
 ["mml/tools/serializer/MatrixIO.h", "mml/tools/serializer/VectorIO.h", "mml/base/Vector/Vector.h"],
 [("magic/version/size header checks, stream-state checks", "MatrixIO")],
 ["boolean result and loaded object"])

prop("C15", "Serialized visualisation files are complete and match their headers",
 "Every successful save of a function, curve, surface, field, field-line set, ODE solution or particle simulation writes a file whose header counts equal the number of data records actually present, whose first and last parameter values are the requested range ends, and whose values are the sampled values of the object; invalid arguments or unwritable files give a failed result.",
 ["inputs", "configurations"], "every sample count, range, component index, thinning factor and object",
 "Reference-file tests pin a few fixed configurations; counts and last-sample placement depend on the sample count and step arithmetic.",
 ["mml/tools/serializer/SerializerFunctions.h", "mml/tools/serializer/SerializerCurves.h", "mml/tools/serializer/SerializerSurfaces.h", "mml/tools/serializer/SerializerVectors.h", "mml/tools/serializer/SerializerODE.h", "mml/tools/serializer/SerializerSimulation.h", "mml/tools/serializer/SerializerFieldLines.h"],
 [("header writer followed by sampling loop", "serializer")],
 ["SerializeResult and file contents"])

prop("C16", "Root finders converge to a real root inside the bracket or report failure",
 "When a bracketing or iterative scalar root finder reports convergence, the returned point lies in the initial interval and the function changes sign or is small there to the requested tolerance, the reported residual and counts describe that point, and the iteration limit was respected; otherwise it reports failure with the matching status (or the documented exception for an interval without sign change). Bracket searches return only intervals across which the function changes sign, and all such sub-intervals of the scan.",
 ["inputs", "configurations"], "every continuous function and interval (roots at the ends, at the midpoint, repeated, flat), tolerance and iteration limit",
 "Tests use smooth textbook functions with generous limits; end-point roots, exact hits, reversed intervals and limits reached mid-way take other branches.",
 ["mml/algorithms/RootFinding/RootFindingBracketing.h", "mml/algorithms/RootFinding/RootFindingMethods.h"],
 [("bracket maintenance and tolerance test", "RootFinding")],
 ["RootFindingResult, BracketRoot, FindRootBrackets"])

prop("C17", "Minimisers never return worse than they saw and report status truthfully",
 "Every one- and multi-dimensional minimiser returns a point whose reported value equals the function there and is no larger than the value at the starting point(s) or bracket; one-dimensional results stay inside the bracket and bracket three points with a lower middle; reported convergence is true to the documented criterion on unimodal or convex functions, and iteration limits are respected. Maximisers mirror minimisers.",
 ["inputs", "configurations"], "every objective (piecewise, flat, quadratic), start, bracket orientation, tolerance and iteration limit",
 "Tests check convergence to the known optimum of smooth functions, not the invariants at every exit path.",
 ["mml/algorithms/Optimization.h", "mml/algorithms/OptimizationMultidim.h"],
 [("bracket/simplex/line-search bookkeeping", "Optimization")],
 ["MinimizationResult, MultidimMinimizationResult, MinimumBracket"])

prop("C18", "ODE integrators cover the requested interval with correct steps",
 "Every explicit integrator - fixed-step and adaptive - starts exactly at the initial condition, produces strictly monotone times, ends at the requested end time without overshoot, and fills every stored sample. Each step method reproduces its formula: it integrates polynomial-in-time right-hand sides up to its order exactly, adaptive runs keep the achieved error consistent with the requested tolerance, and step statistics add up.",
 ["inputs", "configurations"], "every system dimension, interval (incl. non-multiples of the step), step count, tolerance, output interval and step method",
 "Tests compare end values on smooth systems at loose tolerance; wrong coefficients that cost one order, missing last samples and end-time overshoot hide below that.",
 ["mml/algorithms/ODESolvers/ODEStepCalculators.h", "mml/algorithms/ODESolvers/ODESolverFixedStep.h", "mml/algorithms/ODESolvers/ODESteppers.h", "mml/algorithms/ODESolvers/ODESolverAdaptive.h", "mml/algorithms/ODESolvers/ODERKCoefficients.h", "mml/base/ODESystemSolution.h"],
 [("Butcher tableaus, error control, dense output", "ODESteppers"), ("growing sample store", "ODESystemSolution")],
 ["ODESystemSolution times/values/counters, single-step outputs"],
 [("t", "current time", "integrator"), ("h", "next step", "integrator"), ("solution samples", "recorded times/states", "ODESystemSolution")])

prop("C19", "Event detection finds each qualifying crossing once, in order, and acts on it",
 "During integration with events, every crossing of an event function in its configured direction is reported exactly once, at a time where the function is zero to tolerance, in time order; crossings in the other direction are not reported; stop, restart and continue actions take effect at the event time (state changes applied before integration continues, nothing recorded after a stop).",
 ["histories", "inputs"], "every arrangement of event functions, directions, actions and crossing times, including simultaneous events and events near interval ends",
 "Tests use one event per run; ordering of several events in a step, direction filters combined with restarts and crossings near a previous event need specific histories.",
 ["mml/algorithms/ODESolvers/ODESolverEventDetection.h", "mml/interfaces/IODESystemWithEvents.h"],
 [("sign-change scan per step with dense-output bisection", "ODEEventDetectionIntegrator")],
 ["EventResult"])

prop("C20", "Stiff and DAE solvers satisfy their implicit equations at every step",
 "Every solution recorded by the stiff and differential-algebraic solvers starts at the initial condition, has increasing times ending at the requested end, satisfies the method's implicit step equation (or algebraic constraint) to tolerance at each recorded point, and reports failure when Newton iteration does not converge instead of returning an unconverged state as success.",
 ["inputs", "configurations"], "every linear and mildly non-linear test system, step, interval and tolerance",
 "Tests compare final values of a few systems; a wrong history coefficient or last-step handling shows only as lost order.",
 ["mml/algorithms/ODESolvers/ODESolverStiff.h", "mml/algorithms/DAESolvers/DAEBackwardEuler.h", "mml/algorithms/DAESolvers/DAEBDF2.h", "mml/algorithms/DAESolvers/DAEBDF4.h", "mml/algorithms/DAESolvers/DAERODAS.h", "mml/algorithms/DAESolvers/DAERadauIIA.h"],
 [("Newton iteration per implicit step", "ODESolverStiff/DAESolvers")],
 ["StiffSolverResult, DAESolverResult"])

prop("C21", "Quadrature is exact to its degree, additive, and honest about its error",
 "Each one-dimensional rule integrates polynomials up to its degree of exactness to rounding level over every interval, is linear, changes sign with reversed limits and gives zero on empty intervals; two- and three-dimensional integration equals the iterated integral over the given limits. A result reported as converged satisfies the requested tolerance on functions with known integral, and non-convergence is reported when the limit is reached.",
 ["inputs", "configurations"], "every polynomial up to the degree, every interval, tolerance, order and iteration limit",
 "Tests integrate smooth functions to loose tolerances, where one wrong node or weight digit, or an early convergence flag, is invisible.",
 ["mml/core/Integration/Integration1D.h", "mml/core/Integration/GaussKronrod.h", "mml/core/Integration/GaussianQuadrature.h", "mml/core/Integration/Integration2D.h", "mml/core/Integration/Integration3D.h", "mml/core/Integration/Integration2DAdaptive.h", "mml/core/Integration/Integration3DAdaptive.h"],
 [("node/weight tables, refinement loop, error estimate", "Integration")],
 ["IntegrationResult"])

prop("C22", "Numerical and automatic derivatives agree with exact derivatives",
 "Finite-difference formulas of order k are exact (to rounding over the step) on polynomials of degree k in every coordinate, for first, second and third derivatives, one-sided variants, partial, gradient, Jacobian, curve, surface and tensor-field forms; forward automatic differentiation gives derivatives exact to rounding for every composition of supported operations. Error estimates returned bound the true error on such polynomials up to rounding.",
 ["inputs", "programs"], "every polynomial up to the order, point, coordinate index, step size, and every expression built from the AD operations",
 "Tests use tolerance 1e-6..1e-8 on a few functions; a wrong stencil weight for one component or one mixed index stays invisible.",
 ["mml/core/Derivation/DerivationRealFunction.h", "mml/core/Derivation/DerivationScalarFunction.h", "mml/core/Derivation/DerivationVectorFunction.h", "mml/core/Derivation/DerivationParametricCurve.h", "mml/core/Derivation/ForwardAD.h", "mml/core/Derivation/Jacobians.h"],
 [("central-difference stencils", "Derivation"), ("dual-number operator overloads", "ForwardAD")],
 ["returned derivatives and error estimates"])

prop("C23", "Interpolants pass through their data and follow their defining formula",
 "Every interpolant reproduces the given values at the nodes, between nodes equals its definition (linear, polynomial, cubic spline with continuous first and second derivatives and the requested end conditions, rational, barycentric, bilinear, bicubic, parametric), reproduces data sampled from functions in its space, and handles queries at, between and outside the nodes as documented whatever the order of queries.",
 ["inputs", "histories"], "every strictly monotone node set (ascending or descending as allowed), query point and order of queries on one object",
 "Interval location keeps state between calls and has boundary cases at first/last intervals; tests query a few interior points in order.",
 ["mml/base/InterpolatedFunctions/InterpolatedRealFunction.h", "mml/base/InterpolatedFunctions/Interpolation2DFunction.h", "mml/base/InterpolatedFunctions/InterpolationParametricCurve.h"],
 [("interval search and local formula", "InterpolatedRealFunction")],
 ["evaluation, derivatives and integrals of the interpolant"])

prop("C24", "Rotations, quaternions and coordinate transforms compose and invert exactly",
 "Quaternion algebra obeys its multiplication table, conjugate, inverse and norm laws; rotating by a product equals rotating twice; conversions between quaternion, axis-angle, Euler angles and matrices denote the same rotation; interpolation stays on unit length with the right end points. Coordinate transforms and their inverses are mutual inverses on their domains (all octants and axes), preserve length or interval where they must, and their basis vectors and covariant/contravariant component transforms are consistent with them.",
 ["inputs"], "every quaternion, rotation, point (incl. axes and each octant) and vector",
 "Tests check a few angles in the first octant; branch choices of atan2/acos and index order show elsewhere.",
 ["mml/base/Quaternions.h", "mml/core/CoordTransf.h", "mml/core/CoordTransf/CoordTransf2D.h", "mml/core/CoordTransf/CoordTransf3D.h", "mml/core/CoordTransf/CoordTransfSpherical.h", "mml/core/CoordTransf/CoordTransfCylindrical.h", "mml/core/CoordTransf/CoordTransfLorentz.h"],
 [("Hamilton product, rotation matrices, angle formulas", "Quaternions/CoordTransf")],
 ["transformed values"])

prop("C25", "Discrete Fourier and cosine transforms match their definition and invert",
 "For every admissible length and signal, DFT, FFT, real FFT and the cosine/sine transforms equal the defining sums, their inverses return the original signal, Parseval's relation holds, convolution and correlation helpers equal their defining sums, and inadmissible lengths are rejected. Window functions have their defining values and symmetry.",
 ["inputs"], "every length (powers of two from 1 up; any length for DFT) and signal",
 "Tests use lengths 4..16 with special signals; smallest sizes, Nyquist bins and general signals hit other index paths.",
 ["mml/algorithms/Fourier.h", "mml/algorithms/FourierRealFFT.h", "mml/algorithms/FourierWindowing.h"],
 [("bit reversal, butterflies, real packing", "Fourier")],
 ["transform outputs"])

prop("C26", "Descriptive and rank statistics equal their definitions",
 "Mean, variance, moments, median, percentiles, quartiles, range, mode, trimmed and weighted means, covariance, correlation, ranks with ties, Spearman and Kendall coefficients, covariance/correlation matrices and the derived test statistics and degrees of freedom equal their textbook definitions on every sample, do not depend on the order of the observations where they should not, do not modify the sample, and are refused on samples too small or degenerate.",
 ["inputs"], "every finite sample incl. ties, constant data, sizes 1..n, unsorted and negative values",
 "Tests use one or two samples per function; ties, even/odd sizes and percentile positions on exact ranks are specific inputs.",
 ["mml/algorithms/Statistics.h", "mml/algorithms/Statistics/StatisticsRank.h", "mml/algorithms/Statistics/StatisticsHypothesis.h", "mml/algorithms/Statistics/StatisticsConfidence.h"],
 [("sorting, tie averaging, sums of squares", "Statistics")],
 ["returned statistics"])

prop("C27", "Probability distributions are coherent: pdf, cdf, quantile agree",
 "For every distribution and valid parameter set, the cumulative function is non-decreasing from 0 to 1, its differences match the density (or sum of probabilities), upper-tail values complement it, quantiles and critical values invert it, and mean and variance are the distribution's; invalid parameters or probabilities are refused.",
 ["inputs"], "every parameter set, argument (incl. tails and branch switch points) and probability",
 "Tests compare a few table values; series/continued-fraction switch points and tails are separate branches.",
 ["mml/algorithms/Statistics/Distributions.h"],
 [("incomplete beta/gamma, rational quantile approximation", "Distributions")],
 ["pdf/cdf/inverse values"])

prop("C28", "Tensor components, arithmetic, contraction and index moves are exact",
 "For tensors of every supported rank, writes and reads address exactly one component, sums, differences and scalar multiples act component-wise only between compatible index types, contraction sums over exactly the chosen pair of one upper and one lower index, evaluation on vectors is the full multilinear sum, and raising or lowering an index with a metric and back restores the tensor. Incompatible variance, ranks or indices are refused.",
 ["inputs", "histories"], "every rank 2..5, dimension, index pair, variance pattern and component values",
 "Index permutations are only distinguished by asymmetric tensors and particular index pairs; tests use a few.",
 ["mml/base/Tensor.h"],
 [("nested fixed arrays, variance flags", "Tensor")],
 ["component reads after each operation"])

prop("C29", "Table export preserves every cell in every format",
 "A table printed or exported in any format (console, CSV, TSV, Markdown, LaTeX, HTML) contains exactly the added rows in order with every cell under its column, escaped so that a standard reader of that format recovers the cell text, with aligned columns of the documented width in console form; rows of the wrong length are refused and stream formatting state is restored.",
 ["inputs", "histories"], "every cell text over the formats' special characters, every column format and row count",
 "Escaping and width rules are per-character; tests use plain text and numbers.",
 ["mml/tools/ConsolePrinter.h"],
 [("per-format escaping and width computation", "ConsolePrinter")],
 ["produced text"])

prop("C30", "Geometric primitives compute true distances, intersections and measures",
 "Points, lines, segments, planes, triangles, polygons, boxes, circles, spheres and solid bodies in 2D and 3D report distances, projections, angles, intersections, containment, areas, perimeters, volumes and bounding volumes that satisfy their geometric definitions, symmetric in their arguments where they must be, including parallel, coincident, touching and degenerate placements.",
 ["inputs"], "every placement with small rational coordinates, each orientation and vertex order",
 "Tests use axis-aligned examples; parallel, skew, coincident and boundary placements are separate branches.",
 ["mml/base/Geometry/Geometry2DCore/Geometry2DLines.h", "mml/base/Geometry/Geometry2DCore/Geometry2DTriangle.h", "mml/base/Geometry/Geometry2DCore/Geometry2DPolygon.h", "mml/base/Geometry/Geometry3DCore/Geometry3DLines.h", "mml/base/Geometry/Geometry3DCore/Geometry3DPlane.h", "mml/base/Geometry/Geometry3DBodiesCore/Geometry3DBounding.h"],
 [("vector formulas with parallel/degenerate branches", "Geometry")],
 ["returned values"])

prop("C31", "Least-squares fits are the exact minimisers of the squared error",
 "Every linear, polynomial and general linear fit that reports success returns the parameters satisfying the normal equations to rounding level, reports residual, R-squared and related figures that describe those parameters, recovers data generated from the model exactly, and refuses mismatched, too few or degenerate data.",
 ["inputs"], "every data set, degree and basis, incl. repeated abscissae and exact fits",
 "Tests fit a few noise-free lines; figures such as R-squared on constant data or rank-deficient abscissae are specific inputs.",
 ["mml/algorithms/CurveFitting.h"],
 [("normal equations / SVD solve", "CurveFitting")],
 ["fit result structs"])

prop("C32", "Field operators and metrics agree across coordinate systems",
 "Gradient, divergence, curl and Laplacian in Cartesian, cylindrical and spherical coordinates equal the analytic result for polynomial fields at every regular point and agree with each other after transformation of components; curl of a gradient and divergence of a curl vanish. Metric tensors are symmetric, covariant and contravariant forms are inverse, and Christoffel symbols and covariant derivatives equal their definitions.",
 ["inputs"], "every polynomial field and regular point",
 "Tests use radially symmetric fields in which wrong components cancel.",
 ["mml/core/FieldOperations.h", "mml/core/MetricTensor.h"],
 [("component formulas with scale factors", "FieldOperations")],
 ["returned values"])

prop("C33", "Dynamical-system definitions, maps and analyses are self-consistent",
 "For every built-in system and map, the Jacobian equals the derivative of the vector field or map at every state, iterating a map n times equals n single steps, orbits and trajectories contain the start and every step in order, fixed points reported as converged are fixed, their classification follows from their eigenvalues, and parameter get/set round-trips with range checks.",
 ["inputs", "histories"], "every state, parameter value, iteration count and system",
 "Tests check one state per system; a wrong Jacobian entry that vanishes there stays invisible.",
 ["mml/systems/ContinuousSystems.h", "mml/systems/DiscreteMaps.h", "mml/systems/DynamicalSystemAnalyzers.h", "mml/systems/DynamicalSystemBase.h"],
 [("hand-written vector fields and Jacobians", "ContinuousSystems/DiscreteMaps")],
 ["derivs, jacobian, map, orbit, analyzer results"])

prop("C34", "The linear-system facade agrees with itself whichever method is used",
 "For one linear system object, every solve method that is applicable gives the same solution to rounding, repeated and interleaved calls (solves, determinant, rank, null space, verification, analysis) give the same answers as on a fresh object, cached factorizations are never stale, and verification accepts a vector exactly when its residual is within tolerance.",
 ["histories", "inputs"], "every order of calls on one object and every small matrix and right-hand side",
 "Tests make one call per object; lazily cached factorizations matter only for particular call orders.",
 ["mml/systems/LinearSystem.h"],
 [("lazily cached decompositions and analysis", "LinearSystem")],
 ["method results after each call"])

prop("C35", "Reference-frame trees stay acyclic with consistent parent and child links",
 "After any sequence of attach, re-attach, detach and destroy operations on reference frames, each frame has at most one parent, is listed exactly once among that parent's children, no frame is its own ancestor, refused operations change nothing, and positions transformed through the chain equal the composition of the individual transforms at that time.",
 ["histories"], "every history of attach, detach and destroy over several frames",
 "Tests attach a couple of frames; re-parenting, cycles and destruction order are histories they do not generate.",
 ["mml/core/CoordSystem.h"],
 [("ancestor check and child-list maintenance", "ReferenceFrame3D")],
 ["parent/children queries and transformed positions"],
 [("parent", "frame's parent", "ReferenceFrame3D"), ("children", "frame's children", "ReferenceFrame3D")])

here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(os.path.join(here, "properties.jsonl"), "w") as f:
    for p in P: f.write(json.dumps(p) + "\n")
for p in P:
    assert len(p["title"]) <= 80, p["title"]
print(len(P))
