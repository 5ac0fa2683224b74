"""The properties, in order of the part of OptimPack they are about."""

TESTS = ("The stable tests are the example problems of the derivative-free solvers (fixed starting points, output compared by eye or not at all) "
         "and the Yorick tests of one quadratic with three kinds of bounds; ")


def define(prop, WRAP):
    prop("P01", "Vector operations compute their mathematical definition",
         """Every vector operation (fill, zero, copy, swap, scale, multiply, dot and masked dot products, norms, sums of
         one to three scaled vectors, import, export and element access) yields, for every length, element type,
         coefficient and permitted aliasing of its arguments, the elementwise definition computed from the arguments,
         up to rounding.  Arguments that are only read are unchanged, and the exact special cases (coefficients 0 and
         plus or minus 1, copies, swaps) are exact.""",
         ["inputs"], "all lengths, both element types, all coefficients including the special cased ones, all vectors and aliasing patterns of sources and destination",
         TESTS + "no test calls the vector operations with other coefficients, aliased arguments or single precision data, and the code takes a different branch for each combination of special coefficients.",
         ["src/algebra.c", "src/simple_vector.c", "src/optimpack.h"],
         [("special cases on coefficients 0, 1, -1 dispatching to elementary operations", "src/algebra.c opk_vscale, opk_vaxpby, opk_vaxpbypcz"),
          ("elementwise loops per type", "src/simple_vector.c scale, product, dot, axpby, axpbypcz, peek, poke, import, export")],
         "p01_vectors.cpp",
         "property-based testing: differential against an elementwise reference in extended precision, generated vectors, coefficients and aliasing",
         "random search over operations, lengths 1-200, both types, aliasing patterns and coefficients; rounding tolerance derived from the condition of each element; lengths are small",
         observe=["the values of all vectors after the call", "returned scalars"])

    prop("P02", "Reference counting frees each object exactly once, when unused",
         """Over every history of creations, holds, drops and uses of spaces, vectors, line searches, box sets and
         optimizers, an object stays usable as long as the caller or another live object holds a reference to it and
         is released exactly once when the last reference is dropped.  The reported number of references is the number
         held, a user supplied release function is called exactly once with its own argument, and holding or dropping nothing is harmless.""",
         ["histories"], "all interleavings of creation, hold, drop and use over graphs of objects that reference each other",
         TESTS + "each releases its objects in one fixed order at exit, so a missing or extra reference is not observable.",
         ["src/utils.c", "src/algebra.c", "src/lnsrch.c", "src/nlcg.c", "src/vmlmb.c", "src/driver.c", "src/simple_vector.c"],
         [("opk_hold_object / opk_drop_object and finalize methods", "src/utils.c"),
          ("references taken by owners and dropped in their finalizers", "src/algebra.c finalize_vector, finalize_boxset; src/vmlmb.c finalize_vmlmb; src/nlcg.c finalize_nlcg; src/driver.c finalize")],
         "p02_lifetime.cpp",
         "stateful property-based testing: random histories against a reference-count model, counting allocator and AddressSanitizer as oracles",
         "random histories of up to a few dozen actions; leaks and double releases are seen through a counting allocator, use after release through AddressSanitizer",
         observe=["live allocations of the library", "reference counts", "calls of user supplied release functions"],
         extra_c=["wrapalloc.c"], ldflags=WRAP)

    prop("P05", "Projection on a box returns the nearest feasible point",
         """Projecting any point on a box given by any combination of absent, scalar, per-variable single or double
         precision, copied or vector bounds yields, for each variable, the bound if the variable is beyond it and the
         variable itself otherwise, exactly, also when done in place.  Projecting twice changes nothing, the
         source is not modified, and later changes of the caller's scalars or of arrays given as volatile have no effect.""",
         ["inputs", "configurations"], "all points, all bounds (including infinite and equal ones), all kinds of lower and upper bounds, both element types, in place or not",
         TESTS + "three combinations of bound kinds are used on one problem; each of the 8x8 kinds of bounds and two types goes through its own conversion and loop.",
         ["src/algebra.c", "src/simple_vector.c"],
         [("conversion and storage of bounds", "src/algebra.c opk_new_boxset, set_bound"), ("projection loops by kind of bounds", "src/simple_vector.c boxprojvar")],
         "p05_box.cpp",
         "property-based testing: exact comparison with an elementwise clamp over generated boxes and points",
         "random search over all 64 combinations of bound kinds, both types, up to 40 variables, points with many coordinates exactly on a bound",
         observe=["projected vectors"])

    prop("P06", "Blocked directions, free variables and step limits are exact on a box",
         """At any feasible point of any box and for any direction and orientation, the projected direction has a zero
         exactly where the variable sits at the bound it would cross and is otherwise the direction, and the
         free-variable mask is 1 on the moving variables and 0 on the blocked ones.  The reported step limits are the
         smallest step at which a bound is met, the smallest strictly positive one, and the largest step
         at which any moving variable still changes, with a huge value where no bound is ever met.""",
         ["inputs", "configurations"], "all feasible points (on, next to and away from bounds), directions with zeros of both signs, orientations of any magnitude, all kinds of bounds, both types",
         TESTS + "an off-by-one branch for one kind of bound or one orientation never shows on one quadratic problem.",
         ["src/algebra.c", "src/simple_vector.c"],
         [("direction projection, free variable and step limit loops by kind of bounds and orientation", "src/simple_vector.c boxprojdir, boxfreevar, boxsteplim")],
         "p05_box.cpp",
         "property-based testing: exact comparison of directions and masks, extended-precision reference for step limits",
         "random search as for the projection; the mask of a variable with a zero direction is only required to be 0 or 1",
         observe=["projected directions, masks, limits"])

    prop("P03", "Misused vectors and sets are refused and nothing is modified",
         """Whatever combination of vectors, spaces, sets and operators is passed, an operation mixing vectors of different
         spaces, an out of range element, a wrong size or type, a null argument or an inconsistent bound is refused with
         the documented status, null result or a single error report, and no vector, array or reference count changes.
         A vector wrapping the caller's array shows and changes exactly that array, and re-wrapping it releases the former
         data exactly when the release function or its argument differ.""",
         ["inputs", "histories"], "all combinations of vectors of two or three spaces (same or different type and size) as arguments of every operation, all invalid indices, sizes, types and bounds, all sequences of accesses and re-wrappings",
         TESTS + "none passes an invalid argument to the vector layer.",
         ["src/algebra.c", "src/simple_vector.c", "src/utils.c"],
         [("space checks before dispatching to the methods", "src/algebra.c"), ("re-wrapping and accessors", "src/simple_vector.c"), ("replaceable error handler", "src/utils.c")],
         "p03_misuse.cpp",
         "stateful property-based testing: generated misuse and accesses against a model of ownership, with bitwise comparison of all bystanders",
         "random search; a call with a null vector where the documentation does not foresee it is not exercised",
         observe=["statuses, errno, calls of the error handler, contents of all vectors and arrays, reference counts"],
         extra_c=["xop.c"])

    prop("P04", "Allocation failures are reported cleanly and leak nothing",
         """Whichever allocation fails while a vector space, vector, box set, line search, optimizer, operator or solver
         context is created, with whatever arguments, the creation returns null with the out-of-memory error code, releases everything it had
         allocated, and leaves the reference counts of all its arguments as they were.  The same creation succeeds once memory is available again.""",
         ["fault_sequences", "configurations"], "every allocation made by every constructor, failing alone or with all later ones, over all options and kinds of bounds",
         TESTS + "no allocation ever fails in them.",
         ["src/algebra.c", "src/driver.c", "src/vmlmb.c", "src/nlcg.c", "src/lnsrch.c", "src/fmin.c", "src/newuoa.c", "src/cobyla.c"],
         [("error paths of the constructors and finalizers tolerating partial objects", "src/driver.c opk_new_optimizer, src/vmlmb.c opk_new_vmlmb_optimizer, src/nlcg.c opk_new_nlcg_optimizer, src/algebra.c opk_new_boxset")],
         "p04_faults.cpp",
         "fault injection driven by property-based testing: generated constructor arguments and failing allocation, counting allocator and AddressSanitizer as oracles",
         "each constructor and each of its allocations are reached many times per run; only allocator failures are injected",
         observe=["result, errno, live allocations, reference counts"],
         extra_c=["wrapalloc.c", "xop.c"], ldflags=WRAP)

    prop("P07", "A line search accepts a step exactly when its criterion holds",
         """For every line search method, every function and every admissible starting step and bounds (including a first
         step at a bound), the search reports convergence exactly at the first trial step that satisfies its documented
         criterion: sufficient decrease and curvature for the cubic search, sufficient decrease for backtracking, and
         sufficient decrease relative to the worst of the last remembered starting values for the nonmonotone search.  The accepted
         step is left unchanged, and the search gives up only with a warning or error that is true of the step.""",
         ["inputs", "histories"], "all functions along the line, all tolerances, all initial steps and step bounds, all successions of searches with the same object",
         TESTS + "they run line searches on one quadratic with default settings.",
         ["src/lnsrch.c"],
         [("convergence tests of each method", "src/lnsrch.c backtrack_iterate, nonmonotone_iterate, csrch_iterate"), ("bound handling common to all methods", "src/lnsrch.c opk_lnsrch_iterate")],
         "p07_lnsrch.cpp",
         "stateful property-based testing: generated functions, tolerances and bounds, acceptance criterion recomputed independently at each trial step",
         "random search over eight families of functions and arbitrary values; verdicts within rounding of the threshold are skipped",
         observe=["task, status and step after each iteration"])

    prop("P08", "Trial steps stay within bounds, progress as specified and terminate",
         """Every trial step of every line search lies between the given bounds, follows the documented interpolation and safeguarding rule of its method,
         and the search finishes after finitely many trials, without error on a smooth function.  A wrong initial step, bound,
         slope or parameter, a step altered by the caller, or a call out of sequence is refused with the matching
         error and changes nothing, and all queries agree with the last returned task.""",
         ["inputs", "histories"], "all functions, bounds, parameters, call sequences and interpolation data",
         TESTS + "the interpolation cases and degenerate bounds are reached by chance only.",
         ["src/lnsrch.c"],
         [("safeguarded cubic and quadratic interpolation", "src/lnsrch.c opk_cstep"), ("backtracking and bisection rules", "src/lnsrch.c backtrack_iterate, nonmonotone_iterate"), ("argument checks and protocol", "src/lnsrch.c opk_lnsrch_start, opk_lnsrch_iterate")],
         "p07_lnsrch.cpp",
         "stateful property-based testing: model of the protocol and of the backtracking and cubic search rules, extended-precision solution of the interpolation problems as reference for the safeguarded step",
         "random search; ill-conditioned interpolations and ties are not judged; a smooth search must end within 400 trials, a backtracking one within 3000",
         observe=["trial steps, tasks, statuses"])

    prop("P09", "Bound constrained methods only visit feasible points",
         """With bounds, every point at which the optimizer asks for the objective function, every iterate, and the point left
         after a failure satisfies all bounds exactly, for any objective function, line search, memory, number of
         variables, element type and starting point.  A starting point outside the bounds is replaced by its projection.""",
         ["inputs", "configurations", "histories"], "all boxes (one-sided, equal, infinite bounds), all objective functions, all starting points and settings, every evaluation of every run",
         TESTS + "they check neither the feasibility of intermediate points nor bounds that are not exactly representable steps away.",
         ["src/vmlmb.c", "src/simple_vector.c", "src/algebra.c"],
         [("computation of the trial point and its projection", "src/vmlmb.c opk_iterate_vmlmb"), ("projection of the starting point", "src/vmlmb.c opk_start_vmlmb")],
         "p09_optim.cpp",
         "stateful property-based testing: generated problems, boxes and settings, exact feasibility invariant at each step of the dialogue",
         "random search over nine families of objective functions with up to 12 variables, runs of up to 400 evaluations",
         observe=["the variables at each returned task"])

    prop("P10", "Accepted iterates decrease the objective function",
         """Each new iterate announced by an optimizer is the point evaluated last, and its function value does not
         exceed that of the previous iterate (for the nonmonotone search, the worst of the remembered ones).
         Without bounds, the decrease is at least the tolerance of the line search times the first order decrease predicted
         by the gradient at the previous iterate. In double precision, the points where the function is requested are finite.""",
         ["histories", "inputs"], "all methods and update rules, line searches and tolerances, all objective functions, all iterations of a run",
         TESTS + "only the final value of a single problem is looked at.",
         ["src/vmlmb.c", "src/nlcg.c", "src/lnsrch.c"],
         [("line search driving each iteration", "src/vmlmb.c opk_iterate_vmlmb, src/nlcg.c opk_iterate_nlcg"), ("sufficient decrease tests", "src/lnsrch.c")],
         "p09_optim.cpp",
         "stateful property-based testing: generated problems and settings, decrease recomputed from the recorded history",
         "random search over nine families of objective functions; the decrease is judged up to the rounding of the function and of the variables",
         observe=["variables, function and gradient at each new iterate"])

    prop("P11", "Smooth strictly convex problems are solved to the requested precision",
         """On every smooth strictly convex problem, bounded or not, the variable metric and conjugate gradient methods, with any update
         rule and memory and a line search suited to them (with bounds, one without derivatives; for conjugate gradients, one with a curvature condition), stop within a bounded number of evaluations, without error, at a
         feasible point where the norm of the projected gradient is below the threshold.  That point is the
         (constrained) minimizer to the precision implied by the threshold and the convexity.""",
         ["inputs", "configurations"], "all strictly convex smooth problems, boxes, starting points, update rules, line searches, memory sizes",
         TESTS + "they solve one quadratic and three classic problems with default settings.",
         ["src/vmlmb.c", "src/nlcg.c", "src/lnsrch.c", "src/simple_vector.c"],
         [("quasi-Newton update and recursion", "src/vmlmb.c update, apply"), ("conjugate gradient updates", "src/nlcg.c update_*"), ("convergence test", "src/vmlmb.c, src/nlcg.c")],
         "p09_optim.cpp",
         "property-based testing: generated convex problems; optimality conditions, closed form solutions and strong convexity bounds as oracles",
         "random search over seven families of convex functions of up to 12 variables and moderate conditioning, double precision, relative threshold 1e-6",
         observe=["final task, status, variables"])

    prop("P12", "Tasks, counters, gradient norm and convergence are reported truthfully",
         """At every step of every run the pending task, status, number of evaluations, iterations and restarts agree with what
         the caller did and was told, and the gradient norm is that of the (projected) gradient at the last
         iterate.  Convergence is announced exactly when this norm is at most the larger of the absolute threshold and the relative
         threshold times the initial norm.  Accepting an iterate does not move the variables, and once
         failed or not started an optimizer changes nothing and repeats its answer until restarted.""",
         ["histories", "configurations"], "all methods, thresholds, problems, and all histories of starting, iterating, continuing after convergence and restarting",
         TESTS + "counters and norms are only printed.",
         ["src/vmlmb.c", "src/nlcg.c"],
         [("state machine of each optimizer", "src/vmlmb.c opk_iterate_vmlmb, src/nlcg.c opk_iterate_nlcg"), ("norm of the projected gradient by method", "src/vmlmb.c")],
         "p09_optim.cpp",
         "stateful property-based testing: generated dialogues against a model of the counters and a recomputed gradient norm",
         "random search; verdicts within rounding of the threshold are skipped",
         observe=["task, status, counters, gradient norm, variables after each call"])

    prop("P13", "Memorized pairs and directions follow the limited-memory quasi-Newton rule",
         """During each iteration the variable metric optimizer holds the most recent changes of the variables and of the (for BLMVM, projected) gradient
         between successive iterates, at most as many as the memory and the number of variables allow, newest first.
         Its trial points are along the projected direction given by the limited-memory BFGS recursion with these
         pairs (for VMLMB restricted to the free variables), those of non positive curvature being skipped, starting with a unit step.  When no pair is usable or the result is not a
         sufficient descent, the pairs are forgotten, a restart is counted, and the (projected) gradient is used.""",
         ["histories", "configurations"], "all problems, boxes, memory sizes, both storage strategies, thresholds and line searches, every iteration of every run including restarts and second runs",
         TESTS + "a wrong pair, slot or mask still converges on them, only slower.",
         ["src/vmlmb.c"],
         [("circular storage of the pairs", "src/vmlmb.c slot, update"), ("two-loop recursion", "src/vmlmb.c apply"), ("restart and descent tests, step shortening", "src/vmlmb.c opk_iterate_vmlmb")],
         "p13_direction.cpp",
         "stateful property-based testing: the history of iterates drives an independent extended precision recursion, compared with pairs and trial points",
         "random search; judged only where two precisions of the reference agree; up to 9 variables, 8 pairs, 40 evaluations",
         observe=["memorized pairs, trial points, steps, restarts"])

    prop("P14", "Conjugate gradient directions and steps follow the selected update rule",
         """For each of the eight update rules, with or without the truncation of negative coefficients, every trial point is
         along the direction given by the published formula from the current and previous gradients and previous direction.
         The coefficient is reported, a restart along the gradient is made and counted exactly when the
         coefficient is null or the direction is not a sufficient descent, and the first step is the previous one,
         rescaled to the same first order change if so requested.""",
         ["histories", "configurations"], "all rules and flags, problems, thresholds, line searches, every iteration of every run including restarts and second runs",
         TESTS + "no stable test runs the conjugate gradient methods.",
         ["src/nlcg.c"],
         [("update rules", "src/nlcg.c update_*"), ("restart and initial step", "src/nlcg.c opk_iterate_nlcg")],
         "p13_direction.cpp",
         "stateful property-based testing: the history of iterates drives independent extended precision formulas, compared with trial points, coefficient and steps",
         "random search; judged only where two precisions of the reference agree; up to 9 variables, 40 evaluations",
         observe=["trial points, coefficient, steps, restarts"])

    prop("P18", "Array operations compute what they state for all lengths and strides",
         """For every length, positive or (where allowed) negative stride, element type and values, the level 1 operations on arrays
         (copy, swap, scaling, zeroing, linear combination, dot product, sum, norms, index of the largest element) give the exact result up to
         the rounding errors of their elementary operations, norms without spurious overflow or underflow.
         They neither read nor write elements between strides or outside the array, and do nothing for null lengths or unusable strides.""",
         ["inputs"], "all lengths, strides, both element types, all finite values up to the extremes of the type",
         TESTS + "no test calls them.",
         ["src/linalg.c", "src/linalg-common.h"],
         [("unrolled loops and strides", "src/linalg.c OPK_SWAP, OPK_AXPY, OPK_DOT, ..."), ("scaled Euclidean norm", "src/linalg.c OPK_NRM2")],
         "p18_linalg.cpp",
         "property-based testing against an extended precision reference, exact-size allocations under AddressSanitizer, bitwise comparison of untouched elements",
         "random search, up to 70 elements, strides up to 4",
         observe=["results and all elements of the arrays"])

    prop("P19", "Matrix operations and the Cholesky factorization satisfy their definitions",
         """For all dimensions including zero, leading dimensions, transpositions, triangles, strides and scalars, matrix-vector and matrix-matrix
         products, the symmetric product, triangular products and solves, and the Cholesky factorization give the mathematical result up to rounding errors, using
         only the stated triangle and diagonal, not reading a destination multiplied by zero, and writing nothing else.  An invalid argument is
         refused by its number with nothing changed, and a matrix that is not positive definite by the order of the first such leading minor.""",
         ["inputs", "configurations"], "all dimensions, leading dimensions, options, strides, scalars and matrix elements",
         TESTS + "no test calls them.",
         ["src/linalg.c"],
         [("argument checks and loops for each combination of options", "src/linalg.c OPK_GEMV, OPK_TRMV, OPK_TRSV, OPK_GEMM, OPK_SYRK, OPK_POTF2")],
         "p18_linalg.cpp",
         "property-based testing against an extended precision reference; unreferenced elements are NaN; residual of the factorization and of the solve",
         "random search, dimensions up to 12, leading dimensions up to 3 more, well scaled elements",
         observe=["returned value, all elements of the arrays"])

    prop("P20", "Trust region steps reach the requested accuracy inside the region",
         """For every symmetric matrix (definite, indefinite, singular, or the hard case), linear term, radius, tolerances and initial multiplier,
         a trust region step reported as accurate has a length at most the radius up to the tolerance and a function value within the stated relative or absolute
         precision of the constrained minimum.  The reported value, multiplier and iteration count are true, the data is left as documented, and the
         smallest singular value estimate is attained by the returned unit vector.""",
         ["inputs"], "all symmetric matrices, linear terms, radii, tolerances, iteration limits, initial multipliers, both element types",
         TESTS + "no test calls it.",
         ["src/gqtpar.c", "src/linalg.c"],
         [("safeguarded iteration on the multiplier", "src/gqtpar.c OPK_GQT"), ("smallest singular value", "src/gqtpar.c OPK_ESTSV")],
         "p20_trust.cpp",
         "property-based testing; constrained minimum from an extended precision eigenvalue decomposition and the dual function as oracle",
         "random search over six families of matrices of order up to 8; optimality is judged when accuracy is claimed",
         observe=["returned value, step, multiplier, function value, matrix"])

    prop("P21", "Linear conjugate gradients solve definite systems and detect the others",
         """For every definite matrix, right-hand side, start and preconditioner, the conjugate gradient iterations keep the residuals and parameters they document,
         decrease the quadratic function at each step and solve the system in as many steps as variables.  The trust region version never leaves the region and ends on its boundary when truncated
         or when the curvature is negative, the others report negative curvature without moving; a wrong radius or state is an error, and an ended run changes nothing until restarted.""",
         ["inputs", "histories"], "all matrices, right-hand sides, preconditioners, radii, starting points, restarts, both element types",
         TESTS + "no test calls them.",
         ["src/lcg.c"],
         [("reverse communication state machine", "src/lcg.c OPK_PLCG, OPK_TRCG"), ("intersection with the boundary", "src/lcg.c OPK_TRCG")],
         "p20_trust.cpp",
         "stateful property-based testing of the reverse communication dialogue against the defining recurrences in extended precision",
         "random search, up to 8 variables, condition number up to 50 for the number of steps",
         observe=["state, variables, residuals, direction and parameters after each call"])

    prop("P22", "One dimensional minimization brackets and localizes a minimum",
         """For every function with a minimum, interval, precision and limit of evaluations, the one dimensional search ends, returns the lowest value found, with its position between
         the ends of a final interval where the function is not lower, narrower than requested on convergence, and containing the minimizer
         of a unimodal function.  Strict bounds are never evaluated nor crossed, the ends are tried first otherwise, the number of evaluations is exact and
         limited, and the variants with user data or by reverse communication do the same.""",
         ["inputs", "configurations"], "all functions, intervals in either order, bounding flags, precisions and limits",
         TESTS + "no test calls it.",
         ["src/fmin.c"],
         [("bracketing and golden section", "src/fmin.c opk_fmin, opk_fmin_with_context"), ("resumable version", "src/fmin.c opk_fmin_next")],
         "p22_fmin.cpp",
         "property-based testing: invariants over the recorded evaluations, known minimizers, differential test of the reverse communication version",
         "random search over seven families of functions; the choice of the algorithm by the smoothness flag is not judged",
         observe=["points evaluated, returned value and result array"])

    prop("P23", "Derivative-free search respects its bounds and its limit of evaluations",
         """For every function, starting point, radii, number of interpolation points, scaling and bounds with enough space between them, the derivative-free search under
         bounds evaluates the function and ends only within the bounds, starts where it is told when that is far enough from the bounds, and explores around this point first.
         The three derivative-free solvers make no more evaluations than allowed, report that limit only when it is reached, and the limit does not change the evaluations made before.""",
         ["inputs", "configurations"], "all functions (smooth or not, even random), bounds, radii, starts, interpolation sets, scalings and limits",
         TESTS + "no stable test calls the solvers with bounds of all kinds or odd limits.",
         ["src/bobyqa.c", "src/newuoa.c", "src/cobyla.c"],
         [("moves kept in the bounds", "src/bobyqa.c bobyqa_optimize, trsbox, altmov, rescue"), ("evaluation counters", "src/bobyqa.c bobyqb, src/newuoa.c newuoa_optimize, src/cobyla.c cobyla_optimize")],
         "p23_powell.cpp",
         "property-based testing: invariants over the recorded evaluations, metamorphic test of the limit, workspace of the documented length under AddressSanitizer",
         "random search, up to 6 variables, nine families of functions",
         observe=["points given to the objective function, final variables, status"])

    prop("P24", "Derivative-free solvers return the best point they have evaluated",
         """For every function, even discontinuous or random, and however the run ends (convergence, limit of evaluations, rounding errors), the variables left by the three
         derivative-free solvers are one of the points they evaluated and no evaluated point had a better value (for the solver with
         constraints, when there are none).  The reported value is that of this point, with its sign when maximizing.""",
         ["inputs", "configurations"], "all functions, starts, radii, interpolation sets, limits, scalings, both senses",
         TESTS + "no test compares the result to the history of evaluations.",
         ["src/bobyqa.c", "src/newuoa.c", "src/cobyla.c"],
         [("best point kept through origin shifts and restored at the end", "src/bobyqa.c bobyqb, rescue, src/newuoa.c newuoa_optimize, src/cobyla.c cobyla_optimize")],
         "p23_powell.cpp",
         "property-based testing: bitwise comparison of the result with the recorded history of evaluations",
         "random search, up to 6 variables; the value left by the solver with bounds is only judged on success, as documented",
         observe=["final variables, reported value, status"])

    prop("P25", "Derivative-free solvers converge on smooth strongly convex functions",
         """For every well conditioned strongly convex quadratic function, possibly plus fourth powers, every start, radii and number of interpolation points, the two solvers based on
         quadratic models end with success at a distance of the minimum (under bounds for the first one, with active or inactive bounds) which is at most a small
         multiple of the final radius.  The number of evaluations is at most a small multiple of the number of variables, larger when the model is not complete.""",
         ["inputs", "configurations"], "all strongly convex quadratic functions (condition number up to 30) plus fourth powers, bounds, starts, radii, interpolation sets and scalings",
         TESTS + "the few test functions need neither the accuracy nor the cost which tell a correct model update from a slightly wrong one.",
         ["src/bobyqa.c", "src/newuoa.c"],
         [("quadratic models, their updates and minimization", "src/bobyqa.c prelim, trsbox, altmov, update, rescue; src/newuoa.c trsapp, biglag, bigden, update, newuoa_optimize")],
         "p23_powell.cpp",
         "property-based testing: problems built around a known solution by its optimality conditions, limits on the distance and on the cost",
         "random search, 2 to 6 variables; limits are five times the worst observed over 100000 problems",
         observe=["final variables, status, number of evaluations"])

    prop("P26", "Constrained derivative-free search solves convex problems",
         """For convex problems (quadratic or linear function, linear or curved concave constraints, independent active constraints) the solver with constraints ends
         with success near the solution, within a small multiple of the final radius for the variables and for the violation of the constraints, except in rare isolated cases.
         Always, the returned variables are one of the evaluated points and the reported function value, violation and number of evaluations are theirs.""",
         ["inputs", "configurations"], "all convex problems built from their optimality conditions, with 1 to 5 variables, up to 8 constraints, all starts, radii, scalings, both senses",
         TESTS + "the stable tests solve a handful of small problems from one start.",
         ["src/cobyla.c"],
         [("linear models, trial simplex and constrained step", "src/cobyla.c cobyla_optimize, cobylb, trstlp")],
         "p23_powell.cpp",
         "property-based testing: problems built around a known solution by its optimality conditions, six problems per case of which two may not be missed, comparison with the recorded history",
         "random search; the method is a heuristic without promise of accuracy, an isolated failure is not judged (1 in 100000)",
         observe=["final variables, function value, violation, number of evaluations, status"])

    prop("P27", "Reverse communication runs the same algorithm as the direct call",
         """Driven by reverse communication, alone or interleaved with other contexts, and after any number of restarts even in the middle of a run, the two solvers which
         offer it request exactly the evaluations made by the direct call and end with the same variables and status.  The status, number of evaluations, trust region radius
         and last value they report follow the run, misuse and invalid parameters are reported as documented and
         a context owns all its memory.""",
         ["histories", "inputs"], "all problems, all interleavings of up to three contexts, restarts and misuses at any point",
         TESTS + "the reverse communication is run alone, on one problem from a fresh context.",
         ["src/newuoa.c", "src/newuoa.h", "src/cobyla.c", "src/cobyla.h"],
         [("local variables saved and restored in the context", "src/newuoa.c newuoa_iterate (SAVE, RESTORE), src/cobyla.c cobyla_iterate"), ("context creation and state", "src/newuoa.c newuoa_create, newuoa_restart; src/cobyla.c cobyla_create, cobyla_restart")],
         "p27_powell.cpp",
         "stateful property-based testing: differential (bitwise) with the direct call under random interleavings, restarts and misuses; counting allocator; exact buffer lengths under AddressSanitizer",
         "random search, up to 5 variables and 4 constraints, up to three contexts",
         observe=["requested points, status, number of evaluations, radius, last value, final variables, errno, live allocations"],
         extra_c=["wrapalloc.c"], ldflags=WRAP)

    prop("P28", "Equivalent formulations give the same derivative-free search",
         """For the three derivative-free solvers, maximizing a function is minimizing its opposite, scaling factors are a change of variables, unit factors are no scaling, and
         changing the units of the function or of all variables by a power of two changes nothing but the units.  The simple, general and Fortran calls run the same search, which does
         not depend on the initial contents of the workspace nor on the level of printing, and nothing is printed when no output is requested.""",
         ["inputs", "configurations"], "all functions, constraints, bounds, starts, radii, limits; powers of two from 2^-30 to 2^30",
         TESTS + "each test calls one interface, without scaling, and minimizes.",
         ["src/bobyqa.c", "src/newuoa.c", "src/cobyla.c"],
         [("scaling and sense applied around the objective function", "src/bobyqa.c bobyqa_optimize, calfun; src/newuoa.c newuoa_optimize; src/cobyla.c cobyla_optimize"), ("Fortran wrappers", "FORTRAN_NAME in src/bobyqa.c, src/newuoa.c, src/cobyla.c")],
         "p27_powell.cpp",
         "property-based testing: metamorphic relations, bitwise comparison of the histories of evaluations of two equivalent runs",
         "random search, up to 5 variables and 4 constraints; powers of two so that equivalence is exact in floating point",
         observe=["points given to the objective function, final variables, value, status, characters written on the output streams"],
         cflags=["-DFORTRAN_LINKAGE=2"])

    prop("P29", "Invalid arguments of derivative-free solvers are refused untouched",
         """When the number of variables, of constraints or of interpolation points, the radii, a scaling factor or the space between the bounds is invalid, the derivative-free solvers
         return the documented status for it, do not evaluate the function, leave the variables as they were and print nothing unless asked to.
         Arguments at the limit of what is documented as valid are accepted.""",
         ["inputs"], "all invalid values of each argument, alone or by two, and the limits of valid values",
         TESTS + "only valid arguments are given.",
         ["src/bobyqa.c", "src/newuoa.c", "src/cobyla.c"],
         [("checking of arguments", "src/bobyqa.c bobyqa_optimize, src/newuoa.c newuoa_optimize, src/cobyla.c cobyla_optimize")],
         "p27_powell.cpp",
         "property-based testing: generated invalid arguments against the documented status",
         "random search; buffers have the length of the valid problem",
         observe=["returned status, variables, evaluations, characters written"])

    prop("P15", "The simple driver runs exactly the optimizer that it wraps",
         """Through the driver, with flat arrays of single or double precision values, any algorithm, options, line search and kind of bounds, the requested points, tasks, statuses,
         counters, step lengths and norms are those of the underlying optimizer used directly, whether the arrays stay at the same place or move between calls, and over any number of restarts.
         A null address is reported as such without any other effect, the caller's gradient is never changed, and bounds given as volatile are copied.""",
         ["histories", "configurations"], "all problems, settings, representations of the bounds, sequences of sessions, null addresses at any point",
         TESTS + "none compares the driver with the optimizers, moves the arrays, restarts, or passes null addresses.",
         ["src/driver.c", "src/optimpack.h"],
         [("dispatch to the optimizers", "src/driver.c operations, nlcg_*, vmlmb_*"), ("wrapping of arrays and bounds", "src/driver.c opk_new_optimizer, opk_start, opk_iterate")],
         "p15_driver.cpp",
         "stateful property-based testing: differential (bitwise) between the driver and the optimizer it wraps over generated sessions and misuses",
         "random search, up to 10 variables, three sessions of up to 60 exchanges",
         observe=["variables, task, status, counters, step, norm, name and description after each call"])

    prop("P17", "Optimizers are independent of each other and of their past",
         """Starting an optimizer again, at any time of a session and whatever happened before, including failures, gives the same dialogue as a new optimizer with the same settings.
         Optimizers driven in any interleaving, on any problems, give the same dialogues as when they are run one after another.""",
         ["histories", "schedules"], "all past sessions, interruptions, failures and interleavings of up to three optimizers",
         TESTS + "each runs one optimizer, started once.",
         ["src/vmlmb.c", "src/nlcg.c", "src/lnsrch.c"],
         [("reset of the state by the start functions", "src/vmlmb.c opk_start_vmlmb, src/nlcg.c opk_start_nlcg"), ("state kept in the workspace of each optimizer and line search", "src/vmlmb.c, src/nlcg.c, src/lnsrch.c")],
         "p15_driver.cpp",
         "stateful property-based testing: bitwise comparison of the dialogue of a restarted or interleaved optimizer with that of a fresh one run alone",
         "random search, up to 10 variables, up to three former sessions of up to 40 exchanges, up to three optimizers",
         observe=["variables, task, status, counters, step, norm after each call"])

    prop("P31", "Changing units or signs changes nothing else in an optimization",
         """Multiplying the objective function, the variables and their bounds by powers of two, or changing the sign of any of the variables, with the absolute threshold and the starting
         point expressed in the same units, gives exactly the same dialogue, for all gradient based optimizers, line searches, options and bounds: same tasks, statuses and counters, and the same points and norms in the new units.
         (For the nonmonotone line search, whose lower bound of the step is absolute, this holds for units which preserve the lengths of the steps.)""",
         ["inputs", "configurations"], "all problems, settings, bounds; powers of two from 2^-30 to 2^30 (2^-6 to 2^6 in single precision) and all sign patterns",
         TESTS + "each problem is solved in one set of units.",
         ["src/vmlmb.c", "src/nlcg.c", "src/lnsrch.c", "src/simple_vector.c", "src/algebra.c"],
         [("dimensionless thresholds and steps", "src/vmlmb.c opk_iterate_vmlmb, src/nlcg.c opk_iterate_nlcg, src/lnsrch.c"), ("treatment of lower and upper bounds", "src/simple_vector.c boxprojvar, boxprojdir, boxfreevar, boxsteplim")],
         "p15_driver.cpp",
         "property-based testing: metamorphic relation, bitwise comparison of two runs in different units",
         "random search, up to 10 variables, 60 exchanges; runs are followed while far from overflow and underflow and, when variables are scaled, until the function or all variables are exactly zero",
         observe=["variables, task, status, counters, norm after each call"])

    prop("P16", "Optimizer settings are validated, and the accepted ones are the ones used",
         """Optimizers and their driver are created exactly when the space, type, size, bounds, algorithm and every option are valid as documented, and are otherwise refused with the documented error, without a leak
         or a change of a reference count; checking options gives the same verdict.  No options means the default options, later changes of the caller's structure have no effect, and the expected minimum
         given for conjugate gradients sets the first step.  Sizes which cannot be stored and parameters of line searches which are not numbers are refused.""",
         ["inputs", "configurations"], "all combinations of valid, limit, invalid and non-finite values of options and arguments",
         TESTS + "default options are used, and none checks that the invalid ones are refused.",
         ["src/driver.c", "src/nlcg.c", "src/vmlmb.c", "src/lnsrch.c", "src/simple_vector.c"],
         [("checking of options", "src/nlcg.c opk_check_nlcg_options, src/vmlmb.c opk_check_vmlmb_options"), ("checking of arguments by constructors", "src/driver.c opk_new_optimizer, src/nlcg.c opk_new_nlcg_optimizer, src/vmlmb.c opk_new_vmlmb_optimizer, src/lnsrch.c")],
         "p16_options.cpp",
         "property-based testing: generated settings against the documented ranges; differential for default options; counting allocator",
         "random search, at most a few invalid values at a time",
         observe=["created or not, errno, status, first points and steps, live allocations, reference counts"],
         extra_c=["wrapalloc.c"], ldflags=WRAP)

    prop("P30", "Texts, names and constants are complete, consistent and never overflow",
         """Copying any string, name or description in a buffer of any length writes no more than this length, terminates the text, and returns the length needed.  Descriptions tell the method and
         settings of the optimizer, every status has its own text about what happened and unknown statuses an empty one, the constants found by name have their compiled values and others are reported unknown,
         and errors are reported exactly once to the handler in force.""",
         ["inputs", "histories"], "all strings, buffer lengths, settings, statuses, names and sequences of changes of the error handler",
         TESTS + "texts are printed with buffers of one size for one setting.",
         ["src/utils.c", "src/driver.c", "src/nlcg.c", "src/vmlmb.c", "src/algebra.c", "src/optimpack.h"],
         [("bounded copies", "src/utils.c opk_copy_string"), ("descriptions", "src/nlcg.c opk_get_nlcg_description, src/vmlmb.c opk_get_vmlmb_description"), ("list of statuses", "src/optimpack.h OPK_STATUS_LIST_"), ("table of constants", "src/utils.c opk_get_integer_constant")],
         "p16_options.cpp",
         "property-based testing: generated texts, buffers of exact length under AddressSanitizer, reference models of copy and of the error handler",
         "random search",
         observe=["buffers, returned lengths, values, calls of handlers, output streams"],
         extra_c=["wrapalloc.c"], ldflags=WRAP)

    prop("P32", "The Yorick plug-in computes what the C interface computes",
         """Every operation offered to Yorick scripts (creating, starting, iterating and querying the gradient based optimizers
         and the two derivative-free contexts, the drivers which minimize or maximize a function, the trust region step, the
         constants and the texts) gives the same values, of the documented type and dimensions, as the C interface for the same
         arguments, for every supported combination of precision, dimensions (scalars included), options, bounds and scaling.
         Wrong arguments raise an error and change nothing; the variables given as inputs are left unchanged, and the drivers
         return a consistent set of variables, function value, gradient or constraints.""",
         ["call histories", "inputs"],
         "for every generated script: type, number and lengths of dimensions, keyword options, bounds (absent, scalar, array, of any numeric type), start, history of calls and limits on iterations or evaluations",
         """TESTS: the only test script minimizes the Rosenbrock function with 4 double precision variables in one call and only
         has to end; no test compares a value, and scalars, matrices stored in variables, limits, maximization or scaling are
         never exercised.""",
         ["yorick/opky.c", "yorick/opky.i", "yorick/ycobyla.c", "yorick/ynewuoa.c", "src/driver.c"],
         [("conversion of arguments and results", "yorick/opky.c new_vmlmb, Y_opk_nlcg, get_array, get_bound, get_dims, yopt_extract, Y_opk_start, Y_opk_iterate, Y_opk_gqtpar"),
          ("drivers written in Yorick", "yorick/opky.i opk_minimize, cobyla_minimize, cobyla_maximize, newuoa_minimize, newuoa_maximize, opk_scaling"),
          ("contexts of the derivative-free methods", "yorick/ycobyla.c, yorick/ynewuoa.c")],
         "p32_yorick.cpp",
         """property-based testing, differential: each generated session is run with the C interface (or a model of the Yorick
         driver on top of it) and as a generated script by a Yorick process with the plug-in compiled with sanitizers; all
         values are compared bit for bit, with types and dimensions""",
         "objective functions are replayed from the values recorded by the C run, and refuse any variables which were not evaluated there",
         observe=["yorick/opky.i"], plugin=True, fuzz_wall=0)

    prop("P33", "Computations never influence each other, however they are interleaved",
         """Any number of computations on distinct objects or workspaces (gradient based optimizers, line searches, derivative-free
         solvers called directly or by reverse communication, one dimensional minimization, trust region steps, descriptions) can
         be in progress at once: started from inside the objective function of another one, progressing in turn, or running in
         different threads. Each gives exactly the results, at every exchange, that it gives when it is alone.""",
         ["schedules", "call histories"],
         "for every set of computations, every nesting (up to 4 levels) and every order in which they progress, in one thread or several",
         """TESTS: each test program runs one computation at a time; a scratch variable made static, or a state shared by two
         contexts, gives the same results in all of them.""",
         ["src/newuoa.c", "src/cobyla.c", "src/bobyqa.c", "src/fmin.c", "src/vmlmb.c", "src/nlcg.c", "src/lnsrch.c", "src/linalg.c"],
         [("saved state of reverse communication", "src/newuoa.c, src/cobyla.c SAVE/RESTORE"),
          ("workspaces given by the caller or owned by objects", "src/bobyqa.c bobyqa_optimize, src/vmlmb.c, src/nlcg.c, src/lnsrch.c")],
         "p33_reentrancy.cpp",
         """property-based testing over schedules: every computation is recorded alone, then again nested in the others, in turn with
         the others (one thread each, one running at a time, deterministic schedule) and in parallel; records are compared bit for bit""",
         "threads running in parallel are not controlled: a failure there may need several runs to be reproduced; shared memory is watched by ThreadSanitizer in a second build (the stage is left out where that does not run)",
         observe=["src/optimpack.h"], ldflags=["-pthread"], tsan=True)

    prop("P34", "What the derivative-free solvers print is what they did",
         """Nothing is printed at level 0. At level 1 the end is reported (number of evaluations, value, constraint violation, variables,
         or the reason of the failure); at level 2 so is each new radius, always smaller, with the best variables and value so
         far; and at level 3 each evaluation, once and in order. All the numbers printed are those of the search in the user's own units and sign, whether it
         minimizes or maximizes, with or without scaling, called directly or by reverse communication.""",
         ["inputs"], "all problems, levels of printing, scalings, senses of optimization and ways of calling",
         TESTS + "nothing reads the text printed by the test programs, which neither scale the variables nor maximize.",
         ["src/bobyqa.c", "src/newuoa.c", "src/cobyla.c", "src/newuoa.h", "src/cobyla.h"],
         [("reports", "src/bobyqa.c, src/newuoa.c print_x and the uses of iprint, src/cobyla.c print_calcfc"), ("documented levels", "src/newuoa.h, src/cobyla.h iprint")],
         "p34_reports.cpp",
         "property-based testing: the printed text is captured, parsed and compared with the recorded history of the evaluations and with the returned values; differential between the direct and the resumable versions",
         "random search; values are compared with the number of printed digits",
         observe=["standard output and error streams, evaluations, returned values"])

    prop("P35", "Search without derivatives ends properly whatever values the function returns",
         """When the objective function or the constraints return infinite, undefined (NaN), huge or tiny values, at some points or from some time on, every call still returns and the search still ends with one of its
         documented statuses, within its limit of evaluations and with the exact count of them. The search under bounds only evaluates and returns points within the bounds, the searches with constraints
         or bounds never ask for a point which is not finite, and the resumable versions do exactly the same as the direct ones.""",
         ["inputs", "faults"], "all problems and settings, all patterns of replaced values (once, several times, always, in a half space)",
         TESTS + "all the functions tested are finite everywhere.",
         ["src/bobyqa.c", "src/newuoa.c", "src/cobyla.c", "src/fmin.c"],
         [("inner loops which rely on comparisons", "src/cobyla.c trstlp, src/bobyqa.c trsbox, altmov, rescue, src/newuoa.c trsapp, bigden, biglag, src/fmin.c opk_fmin_next")],
         "p35_wild.cpp",
         "property-based testing with injected values: generated problems whose values are replaced according to a generated pattern; CPU time limit per case, sanitizers, invariants over the recorded evaluations, differential between direct and resumable versions",
         "random search; gradient based optimizers are not covered (their line searches interpolate the given values)",
         observe=["evaluations, statuses, counts, results"])

    prop("P36", "Optimizers step back from points where the function is undefined",
         """When the objective function is infinite or undefined (NaN), with whatever gradient, at trial points (never at the starting
         point), the gradient based optimizers whose line search needs no derivative (backtracking, the default under bounds, or nonmonotone) never accept
         such a point, always continue with a shorter step, and only ask for points which are finite and within the bounds. A smooth strictly convex problem whose function is undefined
         beyond a frontier that excludes its solution, or at a few trial points, is still solved to the requested precision.""",
         ["inputs", "faults"], "all problems, bounds, methods without derivatives in their line search, places where the function is undefined, values returned there",
         TESTS + "the only function used there is finite everywhere.",
         ["src/lnsrch.c", "src/vmlmb.c", "src/nlcg.c"],
         [("reduction of the step", "src/lnsrch.c backtrack_iterate, nonmonotone_iterate"), ("line search driving each iteration", "src/vmlmb.c opk_iterate_vmlmb, src/nlcg.c opk_iterate_nlcg")],
         "p36_frontier.cpp",
         "stateful property-based testing with injected values: the frontier of the domain is placed among the trial points of a run of the same optimizer without frontier; invariants over the exchange, convergence required for convex problems",
         "random search; the cubic line search, which interpolates function values and slopes, is not covered",
         observe=["requested points and steps", "tasks and statuses", "final projected gradient"])

    prop("P37", "Optimizers work on vectors, sets and searches defined by the user",
         """Vector spaces, convex sets and line searches implemented by the user are only accessed by their methods, called with the guaranteed
         arguments (objects of the right space, no trivial factor, steps and values of the search in progress), and finalized once, after all that needs them.
         When they do what the built-in ones do, every operation and optimizer gives the same results; when one of their methods is missing or fails, the optimizer or the
         creation in progress fails with that status, releases everything, and may be started again.""",
         ["configurations", "faults", "histories"], "all methods, combinations of user-defined objects, problems, and all calls which may fail during a run",
         TESTS + "they only use the built-in vectors, sets and line searches.",
         ["src/algebra.c", "src/vmlmb.c", "src/nlcg.c", "src/lnsrch.c", "src/optimpack-private.h"],
         [("dispatch to the methods", "src/algebra.c"), ("statuses of sets and line searches", "src/vmlmb.c opk_iterate_vmlmb, src/nlcg.c opk_iterate_nlcg"), ("unified line search", "src/lnsrch.c opk_lnsrch_start, opk_lnsrch_iterate")],
         "p37_generic.cpp",
         "differential property-based testing with fault injection: user-defined objects which check their arguments and delegate to the built-in ones must give bitwise the same history; each of their calls may fail",
         "random search; user-defined vectors, sets and searches delegate to built-in ones",
         observe=["tasks, statuses, variables, counters", "arguments of the methods", "objects still alive"],
         extra_c=["xspace.c"])
