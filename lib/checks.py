"""The checks: per property the models, behaviour generators, harnesses and trace specifications."""
CHECKS = {}
def check(pid, parts, mc, rule, level="model_checking", assumptions=()):
    CHECKS[pid] = dict(parts=parts, mc=mc, rule=rule, level=level, assumptions=list(assumptions))
def part(src, spec, **kw):
    h = dict(src=src)
    for k in ("flags", "opt", "deps"):
        if k in kw: h[k] = kw.pop(k)
    return dict(harness=h, spec=spec, **kw)
def model(module, thorough=False, **kw):
    d = dict(module=module, cfg=module + ".cfg", **kw)
    if thorough: d["cfg_thorough"] = module + "_thorough.cfg"
    return d

check("C07", [part("intervals.cpp", "IntervalsTrace")], [model("IntervalsMC", True, min=1000)],
      "every ordered pair of intervals (open/closed/infinite ends) over a 4-point grid, random ends at several scales, composites, coverings; an event is non-trivial when distinct")

check("C08", [part("graph.cpp", "GraphTrace", gen=[dict(module="GraphMC", cfg="GraphGen.cfg", num=150, depth=32)])], [model("GraphMC", min=1000)],
      "TLC-generated 30-call behaviours of the graph store (with rejected calls), seeded random histories with copies, real weights and self-loops, all factory shapes; all queries compared after every call")

check("C09", [part("graphalg.cpp", "GraphAlgTrace")], [model("GraphTheoryMC", True, min=1000), dict(module="GraphTheoryMC", cfg="GraphTheoryMCu.cfg", min=1000)],
      "all graphs on up to 3 vertices (directed and undirected) and all undirected graphs on 4, seeded random graphs with weights, negative edges, self-loops, permuted insertion orders, long paths; every start and target vertex")

check("C10", [part("kdtree.cpp", "KDTreeTrace")], [model("KDTreeMC", True, min=1000)],
      "seeded point sets (grid, duplicate, collinear, constant-axis, random; 1 to 4 dimensions; 0 to 90 points; leaf sizes 0 to 32), rebuilds, moves and clears; nearest, k-nearest, radius and box queries on, near and far from points")

check("C12", [part("threadpool.cpp", "ThreadPoolTrace", deps=["vpsched.h"])], [model("ThreadPoolMC", True, min=1000)],
      "schedules of the real thread pool under a controlled scheduler: all schedules up to a preemption bound for 37 client programs (capped), random schedules of seeded programs, spurious wake-ups; distinct histories are validated",
      assumptions=["std::mutex, condition_variable, atomic, thread, queue and function are replaced by cooperative equivalents with sequentially consistent atomics", "schedules are explored up to 1-3 preemptions and a cap per program"])

check("C13", [part("dataloader.cpp", "DataLoaderTrace", gen=[dict(module="DataLoaderMC", cfg="DataLoaderGen.cfg", num=150, depth=20)])], [model("DataLoaderMC", True, min=1000)],
      "documents written by the specification's writer, seeded CSV/TSV/JSON documents over pools of typed, missing, quoted and malformed cells with every loader and option, cut and damaged documents, unreadable files; filter, select, head and tail of the loaded data")

check("C14", [part("arrayfile.cpp", "ArrayFileTrace", deps=[])], [model("ArrayFileMC", True, min=1000)],
      "seeded vectors and matrices of double, float, int and complex values (extremes, signed zeros, denormals, infinities) through every save and load pair, every truncation point, header words set to hostile values, byte changes, insertions and deletions, files of the wrong kind, unreadable and unwritable paths")

check("C01", [part("linalg.cpp", "LinAlgTrace", gen=[dict(module="LinAlgMC", cfg="LinAlgGen.cfg", num=60, depth=110)])], [model("LinAlgMC", True, min=500)],
      "TLC-generated and seeded call sequences on three matrices and three vectors (double, float, complex; 0 to 6 rows; self- and cross-aliased operands; refused calls), the fixed-size classes, mixed real/complex helpers; the whole state compared after every call")

check("C02", [part("structmat.cpp", "StructMatTrace", gen=[dict(module="StructMatMC", cfg="StructMatGen.cfg", num=60, depth=110)])], [model("StructMatMC", True, min=500)],
      "TLC-generated and seeded call sequences on three symmetric, tridiagonal, band-diagonal (all bandwidths 0 to 5 against dimensions 1 to 5) or three-index matrices, with aliased operands and refused calls; the whole dense expansion compared after every call")

check("C03", [part("linsys.cpp", "LinSysTrace")], [model("LinSysMC", True, min=1000)],
      "seeded systems (integer, real, complex; 0 to 6 unknowns; scaled by 2^-80 to 2^90, badly scaled rows, zero diagonals, zero and equal rows and columns, rank deficient, Hilbert, misshaped) through every direct solver, factorization, inverse and determinant")

check("C04", [part("itersolve.cpp", "IterSolveTrace")], [model("IterSolveMC", True, min=1000)],
      "seeded systems (dominant, divergent, Poisson, triangular, zero and tiny diagonals, scaled by 2^-80 to 2^60, zero right-hand sides, 0 to 5 unknowns, misshaped), start vectors (none, random, the solution, wrong size), relaxation factors inside and outside (0,2), tolerances 0 to 10, limits 0 to 1000 and the limit on and next to the converging sweep, through every entry point")

check("C35", [part("frames.cpp", "FramesTrace", gen=[dict(module="FramesMC", cfg="FramesGen.cfg", num=100, depth=130)])], [model("FramesMC", min=500)],
      "TLC-generated and seeded histories of creating, attaching, re-attaching, detaching and destroying up to 8 frames of every kind (refused calls included); all links compared after every call, positions carried to the root")

check("C28", [part("tensor.cpp", "TensorTrace")], [model("TensorMC", True, min=300)],
      "tensors of rank 2 to 5 in 1 to 4 dimensions with every variance pattern: construction with all index counts, component writes and reads in and out of range, arithmetic, every pair of contracted positions, evaluation on vectors, raising and lowering with indefinite metrics")

check("C26", [part("stats.cpp", "StatsTrace")], [model("StatsMC", True, min=1000)],
      "seeded samples (ties, constants, sorted, large offsets, tiny and mixed scales; 0 to 16 observations) through every descriptive, weighted, correlation and rank statistic, every percentile position, confidence intervals and hypothesis tests with refused arguments; detailed forms compared")

check("C27", [part("distr.cpp", "DistrTrace")], [model("DistrMC", True, min=200)],
      "every distribution with small, large, fractional and extreme parameters (and invalid ones): density, cumulative and tail values at centres, tails, ends of the support and on both sides of the series switch points, quantiles and critical values from 1e-9 to 1-1e-6 and at improper probabilities, moments, dense monotone walks")

check("C06", [part("poly.cpp", "PolyTrace", gen=[dict(module="PolyMC", cfg="PolyGen.cfg", num=60, depth=100)])], [model("PolyMC", True, min=1000)],
      "TLC-generated and seeded call sequences on three polynomials (empty, zero and constant ones, vanishing leading terms, aliased operands, refused divisions); interpolation from values; complex and matrix arguments; root solvers on real, complex, repeated, zero, tiny and huge roots and on raw coefficients")

check("C05", [part("spectral.cpp", "SpectralTrace")], [model("SpectralMC", True, min=3000)],
      "seeded square matrices of order 0 to 12 (repeated, zero, complex, defective, skew, permutation, companion, reduced, graded, scaled by 2^-300 to 1e12) through every eigensolver with ordinary, loose and exhausted iteration limits; rectangular integer matrices of every rank through SVD, subspaces, condition, pseudo-inverse; definiteness, Faddeev-LeVerrier, predicates")

check("C24", [part("transf.cpp", "TransfTrace")], [model("TransfMC", True, min=500)],
      "seeded quaternions (basis, half turns, near the identity, near gimbal lock, tiny, zero) through the algebra, rotation and every conversion and interpolation; every coordinate transform at points of all octants and axes, origin, poles, tiny and huge scales, with its derivative, bases, component transforms and tensors of rank 2 to 5 of every variance")

check("C16", [part("rootfind.cpp", "RootFindTrace", deps=["expr.h"])], [model("RootFindMC", True, min=1000)],
      "seeded functions (linear to quintic, double and close roots, trigonometric, exponential, steep, flat, kinked, jumping, scaled by 1e-250 to 1e250) and intervals (root at an end, at the midpoint, reversed, without sign change, very wide) with tolerances 0 to 0.5 and limits 1 to 200 through every root finder in both forms; outward bracketing and interval scans")

check("C17", [part("optim.cpp", "OptimTrace", deps=["expr.h"])], [model("OptimMC", True, min=1000)],
      "seeded one-dimensional objectives (smooth, kinked, cusped, flat, unbounded, multimodal, scaled by 1e-30 to 1e30) and brackets of both orientations through bracketing, golden section, Brent with and without derivatives and the maximisers; objectives of 1 to 4 variables (convex quadratics, Rosenbrock, absolute values, maxima, flat, multimodal) through Nelder-Mead, Powell, conjugate gradients, BFGS and L-BFGS in both forms, with tolerances and limits proper and improper")
check("C21", [part("integ.cpp", "IntegTrace", deps=["expr.h"])], [model("IntegMC", True, min=500)],
      "polynomials up to each rule's degree over ordinary, reversed, empty, tiny, huge and shifted intervals; functions given by their antiderivatives with tolerances 0 to 1e-12 and step limits 1 to 14; sharp peaks and kinks for the adaptive rules with every rule, tolerance pair and depth limit; Gauss rules of 1 to 24 points; iterated integrals with linear and quadratic limits; boxes (reversed, empty); improper integrals; line integrals")
check("C23", [part("interp.cpp", "InterpTrace", deps=["expr.h"])], [model("InterpMC", True, min=4000)],
      "every recorded interpolant is compared with its definition (the polynomial, rational function, blend, cubic spline or curve through the given nodes) evaluated exactly, at, next to, between and outside the nodes in random order on one object")
check("C34", [part("linfacade.cpp", "LinFacadeTrace", gen=[dict(module="LinFacadeMC", cfg="LinFacadeGen.cfg", num=30, depth=42)])], [model("LinFacadeMC", True, min=1000)],
      "TLC-generated histories of questions with varying tolerances, assignments and copies over two objects, and seeded histories of up to 22 of 33 kinds of question on systems of up to 4x4 and 6x4 (general, triangular and nearly so, symmetric and nearly so, dominant, tiny, singular, ill-conditioned, rectangular; with none, one or several right-hand sides); every answer is judged exactly and compared with a fresh object's")
check("C25", [part("fourier.cpp", "FourierTrace")], [model("FourierMC", True, min=500)],
      "signals of every length 0 to 40 and powers of two to 64 (integers, reals, sparse, alternating, constant, of wildly different magnitudes) through every transform, inverse, in-place and detailed form; half spectra; every window of 0 to 40 points with shape parameters proper and improper")
check("C29", [part("table.cpp", "TableTrace", gen=[dict(module="TableMC", cfg="TableGen.cfg", num=30, depth=42)])], [model("TableMC", True, min=1000)],
      "TLC-generated histories of adding rows (right and wrong lengths), clearing, re-formatting columns, changing style and exporting, and seeded ones over four pairs of tag and cell types; texts over the special characters of all formats, line breaks, tabs and UTF-8; numbers in every format and precision; exports into streams with other formatting set; vector tables before and after the vectors change; escape functions")
check("C15", [part("savedfile.cpp", "SavedFileTrace", deps=["expr.h"])], [model("SavedFileMC", True, min=500)],
      "every save function: real functions (by range, by points, equally spaced, several, interpolated) to files and streams at every precision, curves in 1 to 4 dimensions and from points, surfaces, scalar fields on grids, vector fields with and without threshold, ODE solutions filled with and without spare capacity, particle simulations with every thinning factor, field lines; valid and invalid arguments, unopenable and full destinations")
check("C18", [part("ode.cpp", "ODETrace", deps=["expr.h"])], [model("ODEMC", True, min=100)],
      "order conditions of every tableau (rooted trees to the method's order); single steps of the nine step calculators, runs of adaptive steps of the five steppers with interpolants and evaluation counts on random systems of 1 to 3 equations, fixed-step integrations step by step, adaptive integrations (output grids, given times, configurations) against exact solutions of six families of equations")
check("C31", [part("fit.cpp", "FitTrace", deps=["expr.h"])], [model("FitMC", True, min=1000)],
      "seeded data sets (integer, real, equally spaced, far from the origin, of wildly different scales, constant, on a line, with equal abscissae, mismatched, empty, too few) through the line, polynomial and general fits in every form with bases that may repeat or depend on each other; every parameter set against the normal equations, every figure against the parameters, evaluation of the fit")
check("C19", [part("events.cpp", "EventsTrace", deps=["expr.h"])], [model("EventsMC", True, min=10000)],
      "seeded systems with exact solutions (one and two falling bodies, the bouncing ball, oscillators, decay) and one to three event functions of state and time with every direction and action (handlers that reverse, kick, shift or change nothing), starts on a zero, through the four steppers; crossings counted on the exact solution between restarts")
check("C22", [part("diff.cpp", "DiffTrace", deps=["expr.h"])], [model("DiffMC", True, min=3000)],
      "finite-difference formulas against the exact derivative of the recorded polynomial (rounding over the step up to the formula's degree, the error estimate beyond), one-sided variants by their points, dual numbers against the symbolic derivative")
check("C33", [part("dyn.cpp", "DynTrace", deps=["expr.h"])], [model("DynMC", True, min=300)],
      "every built-in system and map at random states and parameters (field, Jacobian, invariants, names, parameters, orbits); fixed points of linear fields with known eigenvalues and of the built-in systems, searches from many guesses and boxes; trajectories step by step, Poincare sections of oscillators and exact landings, bifurcation sweeps, Lyapunov exponents of triangular, general and built-in systems and of maps, reports")
