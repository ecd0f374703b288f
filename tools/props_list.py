TRACE = ("Specification state machine in TLA+; the real code is run on seeded inputs and TLC decides every recorded "
         "event against the specification's step. ")
IEEE = "Trusts TLC, java/Num.java (IEEE doubles for TLC) and the recording driver; values compared with a tolerance."

prop("C01", "Solvers run exactly the requested iterations, or stop at convergence",
     """For every solver, a run limited to N iterations performs updates one at a time and stops right after the first
     update at which convergence is declared, and otherwise after exactly N updates; the iteration index it reports
     counts the updates of that run from zero. When the run ends the published final outputs are the iterates produced
     by that last update. Running the same solver again continues from its current iterates and parameters instead of
     starting over.""",
     ["histories", "configurations"], "all solvers, iteration limits, convergence histories and sequences of runs",
     "tests run one fixed length per solver and never compare where it stopped, nor run a solver twice",
     SOLVERS, [("iteration loop", A + "base.py"), ("final outputs published after the run", "iterate() of each solver")],
     "Exhaustive TLC model of the iteration driver within bounds, every behaviour of it replayed on all 12 solvers. " + IEEE,
     technique="TLA+ model of the iteration driver, exhaustive behaviours replayed into every solver")

prop("C02", "Metrics are recorded on schedule, with the iterates of that iteration",
     """Metrics are evaluated at iterations 0, p, 2p, ... of a run (p the call period), at the last permitted iteration and
     at the iteration where the solver converges, and at no other time; without metrics or without a period nothing is
     evaluated. Each record holds that iteration's index, the value of the metric function on that iteration's iterates
     (mapped to the argument names the user chose, plus the user's constants) and a non-decreasing time starting at zero.
     Records accumulate in order over successive runs.""",
     ["histories", "configurations"], "all solvers, periods, run lengths, convergence points, mappings, sequences of runs",
     "tests only look at the last value of one metric",
     SOLVERS + ["src/modopt/base/observable.py"], [("metric schedule", A + "base.py"), ("metric observer", "src/modopt/base/observable.py")],
     "Exhaustive TLC model of the driver and its metric schedule, behaviours replayed on all solvers. " + IEEE,
     technique="TLA+ model of metric schedule, exhaustive behaviours replayed into every solver")

prop("C03", "Early stopping follows the sliding window over the metric's records",
     """A metric marked for early stopping ends the run at the update following the first record at which the mean of the
     newer half of its last 6 records differs from the mean of the older half by less than 0.1 percent of the latter; fewer than 6
     records never stop a run. This holds for every solver, with or without a cost function. Metrics not marked for
     early stopping never influence the run.""",
     ["histories", "configurations"], "all metric value sequences, periods, solvers, with and without cost",
     "no test uses early stopping with a value sequence that triggers it",
     SOLVERS + ["src/modopt/base/observable.py"], [("sliding window test", "src/modopt/base/observable.py"), ("convergence flag polled by each update", A)],
     "Exhaustive TLC model over small value sequences replayed on all solvers, plus random value sequences. " + IEEE,
     technique="TLA+ model of the sliding window, behaviours replayed into every solver")

prop("C04", "Cost tracking: sum of operator costs, interval, window test",
     """The cost is evaluated at every k-th call only (never when no interval is set) and equals the sum of the costs of all
     operators at the arguments of that call, every evaluated cost being kept in order. Convergence is declared exactly
     at the end of each consecutive, non-overlapping window of the configured number of evaluated costs, when the mean of the window's second half
     differs from the mean of its first half by at most the tolerance relative to the former (a vanishing mean counts as
     no change); all other calls report no convergence.""",
     ["histories", "configurations", "inputs"], "all cost sequences, intervals, window sizes, tolerances, operator lists",
     "tests evaluate two or three fixed costs with one window",
     ["src/modopt/opt/cost.py", A + "admm.py"], [("interval and window bookkeeping", "src/modopt/opt/cost.py")],
     "Exhaustive TLC model of the window machine over small cost sequences replayed on the real object, plus random traces. " + IEEE,
     technique="TLA+ window automaton, exhaustive behaviours replayed + trace validation")

prop("C05", "Observers: registered once, notified in order, removable, never wedged",
     """A notification calls each currently registered observer of that signal exactly once, in registration order, with
     the emitter, the signal and the given values, and reports True; adding an observer twice has no further effect and
     a removed one is not called again. A notification started while another is in progress calls nobody and reports
     False. Unknown signals are refused when adding or removing, and an observer that raises leaves the
     object able to notify again.""",
     ["histories", "fault_sequences"], "all sequences of add, remove, notify, nested notify and failing observers",
     "tests add one observer and notify once",
     ["src/modopt/base/observable.py"], [("observer lists and notification lock", "src/modopt/base/observable.py")],
     "Exhaustive TLC model over all operation histories up to a depth, every history replayed. Trusts TLC and the replay driver.",
     technique="TLA+ model of the observable, exhaustive histories replayed")

prop("C06", "Forward-backward iterates follow the documented accelerated recursion",
     """Every iterate of forward-backward equals: proximity operator (scaled by the step) of a gradient step from the extrapolated
     point, followed by extrapolation with the current relaxation; user-supplied step and relaxation updates are applied
     after every iteration. With FISTA acceleration the relaxation follows the regular/lazy or Chambolle-Dossal
     sequence with the given parameters, and the adaptive and greedy restart rules reset exactly when their criterion holds, with their documented effect on momentum, lazy
     parameter and step.""",
     ["inputs", "configurations", "histories"], "all problems, parameters, modes, restart strategies, real and complex data, lengths",
     "tests check the final value on an identity problem where every variant gives the same answer",
     [A + "forward_backward.py"], [("update step", A + "forward_backward.py"), ("FISTA parameter updates", A + "forward_backward.py")],
     TRACE + IEEE)

prop("C07", "Generalised forward-backward iterates follow the documented recursion",
     """Every iterate of generalised forward-backward equals the weighted sum of the auxiliary variables, each updated with
     its own proximity operator scaled by step over weight, relaxed by the relaxation parameter, using the gradient at the previous iterate; step and relaxation
     updates supplied by the user are applied after every iteration. Weights default to equal, and weights that are not
     floats, do not match the operators or do not sum to one are refused.""",
     ["inputs", "configurations", "histories"], "all problems, numbers of operators, weights, parameters, lengths",
     "tests use identity operators only", [A + "forward_backward.py"], [("update step", A + "forward_backward.py")], TRACE + IEEE)

prop("C08", "POGM iterates follow the documented recursion with restart",
     """Every iterate of the proximal optimised gradient method (all its published variables) equals the documented recursion with momentum, step and
     relaxation parameters, including the gradient-sign restart of the momentum and the damping of the relaxation by sigma bar.""",
     ["inputs", "configurations", "histories"], "all problems, initial points, parameters, real and complex data, lengths",
     "tests use an identity problem started at the solution", [A + "forward_backward.py"], [("update step", A + "forward_backward.py")], TRACE + IEEE)

prop("C09", "Condat primal-dual iterates and reweighted reruns follow the recursion",
     """Every primal and dual iterate of the Condat algorithm equals the documented recursion in rho, sigma and tau with the
     given gradient, proximity, dual proximity and linear operators, user parameter updates being applied after every iteration.
     With a reweighting scheme, each of the requested reweightings is applied once to the transformed current solution and
     followed by a further run from the current iterates.""",
     ["inputs", "configurations", "histories"], "all problems, linear operators, parameters, reweighting counts, lengths",
     "tests use identity operators and a reweighting whose effect is not observed",
     [A + "primal_dual.py", "src/modopt/opt/reweight.py"], [("update step and reweighting loop", A + "primal_dual.py")], TRACE + IEEE)

prop("C10", "Gradient-descent family follows each documented update rule",
     """Every iterate of the generic, vanilla, AdaGrad, RMSprop, momentum, ADAM and SAGA optimisers equals that method's
     update rule for search direction and step scaling with the given parameters. The proximity operator, scaled by the current step,
     and the momentum reset are applied exactly at the iterations that are multiples of the epoch size, and the step-size update is applied after every iteration.""",
     ["inputs", "configurations", "histories"], "all seven optimisers, parameters, epoch sizes, problems, lengths",
     "tests only check the last value on an identity problem", [A + "gradient_descent.py"], [("direction and speed updates", A + "gradient_descent.py")], TRACE + IEEE)

prop("C11", "ADMM and fast ADMM follow their recursion, restarts and cost",
     """Every iterate of ADMM comes from the two user optimisers called with the current iterate as warm start and the
     current constraint observation, and the multiplier accumulates the constraint residual; fast ADMM adds extrapolation
     of the second variable and multiplier with the standard accelerating sequence, and restarts from the previous
     iterates when the combined residual does not decrease enough. The cost is the sum of both user costs plus tau times the squared constraint
     residual.""",
     ["inputs", "configurations", "histories"], "all operators, optimisers, parameters, initial points, lengths",
     "tests use identity operators started at the solution, without a cost", [A + "admm.py"], [("update steps", A + "admm.py")], TRACE + IEEE)

prop("C12", "Solvers and operators leave the caller's data untouched and are repeatable",
     """No solver, operator or function modifies the arrays the caller passed in (initial points, observations, weights,
     thresholds, gradient buffers), and published results do not change when the caller later modifies its own inputs
     or continues the run. Running the same configuration twice on the same data gives identical results, independent of any other solver object
     used in between.""",
     ["histories", "configurations", "inputs"], "all solvers and operators, array layouts, dtypes, interleavings of two solvers",
     "tests never look at the inputs afterwards", SOLVERS + ["src/modopt/opt/proximity.py", "src/modopt/opt/gradient.py", "src/modopt/opt/reweight.py"],
     [("defensive copies", "constructors of the solvers")], TRACE + IEEE)

prop("C13", "Solvers converge to the minimiser of their convex problem",
     """For convex problems with admissible step sizes every proximal solver's iterates approach a point satisfying the
     optimality condition of the problem it is documented to minimise. Forward-backward, POGM, proximal gradient descent and the primal-dual
     solver stay at a minimiser (pair) they are started at, and plain forward-backward never increases the objective.""",
     ["inputs", "configurations"], "all strongly convex quadratic + simple-penalty problems, solvers and admissible parameters",
     "tests start at the solution", SOLVERS, [("fixed points of the updates", A)], TRACE + IEEE)

prop("C14", "Separable proximity operators and penalties have their closed form",
     """For every real or complex input, weight (scalar or array) and scale factor, the identity, positivity, sparse
     (soft or hard) threshold, ridge, elastic-net and group-LASSO operators return the closed-form proximity map of their penalty scaled by that
     factor. Their cost is that penalty's value at the input.""",
     ["inputs", "configurations"], "all inputs, shapes, weights, factors", "tests check one 3x3 integer example each, factor 1",
     ["src/modopt/opt/proximity.py", "src/modopt/signal/noise.py"], [("closed forms", "src/modopt/opt/proximity.py")], TRACE + IEEE)

prop("C15", "Ordered-weighted-L1 and k-support operators solve their minimisation",
     """The ordered-weighted-L1 and k-support operators return the minimiser of half the squared distance to the input plus
     their penalty scaled by the given factor: the optimality conditions of that problem hold for every input size, ordering, tie pattern,
     sign, weight sequence, k and factor. An oversized k behaves as the input size, and the cost is that penalty's value.""",
     ["inputs", "configurations"], "all vectors, weights, k, factors", "tests check two fixed vectors, factor 1",
     ["src/modopt/opt/proximity.py"], [("isotonic regression", "src/modopt/opt/proximity.py"), ("breakpoint search", "src/modopt/opt/proximity.py")], TRACE + IEEE)

prop("C16", "Low-rank proximity thresholds all singular values, whatever the history",
     """The low-rank operator returns the input with its singular values soft- or hard-thresholded at threshold times the given factor,
     regardless of matrix shape, true rank, rank hints and of how many times and on what data the same operator was used
     before. Its cost is the threshold times the nuclear norm.""",
     ["inputs", "histories", "configurations"], "all cubes, ranks, thresholds, hints, histories of calls",
     "tests use one full-rank cube and one call", ["src/modopt/opt/proximity.py", "src/modopt/signal/svd.py"],
     [("rank estimate carried between calls", "src/modopt/opt/proximity.py"), ("growing partial SVD", "src/modopt/signal/svd.py")], TRACE + IEEE)

prop("C17", "Composite operators act component-wise and keep costs additive",
     """A combination of proximity operators applies each operator to its own component with the given factor and its cost is the sum of
     the component costs; a linear composition applies the proximity operator in the transformed domain and maps back. A
     combination of linear operators returns each operator's result in order, and its adjoint is the (weighted) sum, or
     the mean without weights, of the component adjoints. Empty or invalid operator lists are refused.""",
     ["inputs", "configurations"], "all operator lists, weights, inputs, factors", "tests combine two identical identity-like operators",
     ["src/modopt/opt/proximity.py", "src/modopt/opt/linear/base.py"], [("component dispatch", "src/modopt/opt/proximity.py, src/modopt/opt/linear/base.py")], TRACE + IEEE)

prop("C18", "Linear operators are linear and their adjoints are exact",
     """For every linear operator (identity, matrix, wavelet filter bank with odd-sized filters, orthogonal wavelet
     transform) the forward map is linear and its inner product with any y equals the inner product of the input with the adjoint of y, for real
     and complex data. The discrete wavelet transform (PyWavelets or PyTorch based) reconstructs its input exactly, for every supported wavelet, mode,
     level, shape and batch size, and its adjoint does not depend on which data was transformed before.""",
     ["inputs", "configurations", "histories"], "all operators, sizes, data, call orders", "tests check one array per operator",
     ["src/modopt/opt/linear/base.py", "src/modopt/opt/linear/wavelet.py", "src/modopt/signal/wavelet.py"],
     [("paired op/adj_op", "src/modopt/opt/linear")], TRACE + IEEE)

prop("C19", "Gradient operator: value and cost of the least-squares fit",
     """The gradient operator returns the transpose operator applied to the residual at the given point, freshly for every
     call, and its cost is half the squared residual norm; composing both operators gives the same as applying them in
     turn. The observed data cannot be altered through it unless declared writeable.""",
     ["inputs", "histories", "configurations"], "all operators, observations, points, call histories, dtypes",
     "tests check one point", ["src/modopt/opt/gradient.py"], [("residual and transpose", "src/modopt/opt/gradient.py")], TRACE + IEEE)

prop("C20", "Reweighting scales the weights by the documented factor, in place",
     """Each reweighting multiplies the current weights by 1/(1+|x|/(n w0)) with the original weights w0 and threshold factor n, for real
     and complex x, whatever reweightings happened before; a shape mismatch is refused and changes nothing. An operator
     sharing the weights array sees the new weights, and the original weights stay available.""",
     ["inputs", "histories"], "all weights, factors, data and histories", "tests apply one reweighting",
     ["src/modopt/opt/reweight.py"], [("in-place weight update", "src/modopt/opt/reweight.py")], TRACE + "The operator's state (weights, originals) is a TLA+ state machine. " + IEEE)

prop("C21", "Layout transforms are exact, invertible index maps",
     """Converting between cube, map and matrix layouts, rotating, padding and rolling axes moves every element to its documented
     position, changes no value and no data type, and the paired conversions invert each other, for all sizes and layouts. Layouts that do not fit the data
     are refused.""",
     ["inputs", "configurations"], "all shapes, layouts, dtypes", "tests check one 3x3 layout each",
     ["src/modopt/base/transform.py", "src/modopt/base/np_adjust.py"], [("index arithmetic", "src/modopt/base/transform.py")],
     "Index maps specified in TLA+, inversion laws model-checked for all shapes in the bounds, the real functions decided for all shapes in the bounds with distinct labels.",
     technique="TLA+ index maps: laws model-checked, exhaustive small shapes trace-validated")

prop("C22", "Thresholding and positivity act element-wise as documented",
     """Hard thresholding keeps exactly the elements whose magnitude reaches the threshold and zeroes the rest; soft
     thresholding shrinks magnitudes by the threshold keeping sign or phase; the positivity operator zeroes exactly the
     negative elements, recursing into ragged nested data. This holds for scalar and array thresholds, all dtypes,
     shapes and magnitudes.""",
     ["inputs"], "all real and complex data, thresholds, nesting", "tests check two small integer arrays",
     ["src/modopt/signal/noise.py", "src/modopt/signal/positivity.py"], [("element-wise formulas", "src/modopt/signal/noise.py")], TRACE + IEEE)

prop("C23", "Singular-value thresholding keeps and shrinks the right components",
     """Singular-value thresholding, full or partial, returns the matrix rebuilt from its singular vectors with the singular values hard-
     or soft-thresholded; with a number of principal components the threshold is the corresponding singular value. The partial variant
     agrees with the full one for every starting number of values and reports the rank left, and coefficient thresholding
     scales the threshold per component by the operator norm of its singular vector. The automatic number of components is the
     documented function of the left singular vectors.""",
     ["inputs", "configurations"], "all matrices, ranks, thresholds, component numbers, starting sizes",
     "tests check one matrix; the partial variant has no test", ["src/modopt/signal/svd.py"],
     [("threshold of singular values", "src/modopt/signal/svd.py")], TRACE + "Matrices are built from known orthonormal factors, so the expected result is exact. " + IEEE)

prop("C24", "Convolution and filter banks equal the discrete convolution sum",
     """The Scipy-based convolution returns the centred same-size discrete convolution of data and kernel and the
     Astropy-based one the periodic convolution of real data, for all sizes (periodic: kernels up to the data's size); stacks and filter banks apply it slice by slice, the rotated variant
     with every kernel turned by 180 degrees, and the filter-bank adjoint sums over the filters. Dimension mismatches and unknown methods are refused.""",
     ["inputs", "configurations"], "all data and kernel sizes, values, stacks", "tests check one 3x3 example",
     ["src/modopt/math/convolve.py", "src/modopt/signal/wavelet.py"], [("convolution dispatch", "src/modopt/math/convolve.py")], TRACE + IEEE)

prop("C25", "Matrix tools: Gram-Schmidt, projection, norms, rotation, spectral radius",
     """Gram-Schmidt returns mutually orthogonal (orthonormal) vectors with the same leading spans, projection is onto the
     given vector, the nuclear norm is the sum of singular values and matrix rotation permutes elements about the centre. The power method follows the
     normalised power iteration from its seeded random start, stops at its tolerance or iteration limit, and returns the norm and
     its inverse scaled by the given factor, equal for equal seeds.""",
     ["inputs", "configurations"], "all matrices, vectors, angles, seeds, tolerances, iteration limits", "tests check one matrix each",
     ["src/modopt/math/matrix.py"], [("power iteration", "src/modopt/math/matrix.py")], TRACE + IEEE)

prop("C26", "Statistics and image metrics equal their documented formulas",
     """The statistics (median absolute deviation and its sigma, mean squared error, both PSNR definitions and their stack reduction,
     Gaussian kernels, wavelet filter profiles) and image quality metrics (MSE, NRMSE, PSNR, SNR, SSIM identity) return
     their documented formula for every input, size, parity, mask and scaling.""",
     ["inputs", "configurations"], "all data, sizes (odd and even), masks, options", "tests check one array per function",
     ["src/modopt/math/stats.py", "src/modopt/math/metrics.py", "src/modopt/signal/filter.py"], [("formulas", "src/modopt/math")], TRACE + IEEE)

prop("C27", "Noise generation is seeded, scaled per layer and additive",
     """Adding noise returns the data plus the noise of the requested distribution scaled by sigma, per layer when sigma is a
     sequence; equal seeds give equal noise, a supplied generator is advanced and continued, and the data itself is unchanged. Gaussian noise does
     not depend on the data and Poisson noise is non-negative integer with the data's magnitude as mean. Invalid types and mismatched sigma are refused.""",
     ["inputs", "configurations", "histories"], "all shapes, sigmas, seeds, generators", "tests check one seed",
     ["src/modopt/signal/noise.py"], [("seeded generator", "src/modopt/signal/noise.py")], TRACE + IEEE)

prop("C28", "Log files: every message once, in order, lifecycle respected",
     """Between set-up and closing, every message sent to a log is written once, in order, to that log's own file and to no other log's file;
     setting up starts an empty file with the opening message and closing writes the closing message. After closing,
     nothing further is written and the file handle is released; the same name can be set up again.""",
     ["histories"], "all interleavings of set-up, messages, closing on several logs", "tests set up and close one log",
     ["src/modopt/interface/log.py"], [("handler registration and removal", "src/modopt/interface/log.py")],
     "TLC model of logs and files, all histories up to a depth replayed in a scratch directory.",
     technique="TLA+ model of log lifecycle, exhaustive histories replayed")

prop("C29", "External wavelet calls clean up and report failures",
     """A call of the external wavelet executable returns exactly the data that executable produced for the given input and
     options, and raises when it reports an error, produces no output or is missing. On every outcome, the
     temporary files are gone unless the caller asked to keep them, and files of other calls are untouched; filters are the (optionally trimmed) responses to a
     centred impulse without the coarse scale unless requested.""",
     ["fault_sequences", "configurations", "histories"], "all outcomes of the external process at each step, options, flags",
     "tests skip these functions because the executable is absent", ["src/modopt/signal/wavelet.py", "src/modopt/interface/errors.py"],
     [("temporary file handling", "src/modopt/signal/wavelet.py"), ("executable lookup", "src/modopt/interface/errors.py")],
     "Fault-injecting stand-in executable in a scratch directory; TLC model of the call's steps, all fault points replayed.",
     level="fault_enumeration", technique="TLA+ model with fault points, all outcomes replayed with a stand-in executable")

prop("C30", "Type coercion and backend selection",
     """Coercion to float or int accepts scalars, lists, tuples and arrays, preserves values (truncating toward zero for
     ints), returns already conforming arrays as they are and refuses everything else; array checks enforce element type and set
     writeability as requested. Requesting an unavailable backend falls back to NumPy with a warning, and moving data between backends
     preserves values.""",
     ["inputs", "configurations"], "all accepted and refused types, values, backends", "tests check one value per type",
     ["src/modopt/base/types.py", "src/modopt/base/backend.py"], [("isinstance ladders", "src/modopt/base/types.py")], TRACE + IEEE)

prop("C31", "Invalid configurations are refused with the documented error",
     """Solvers, operators and helper functions refuse invalid parameters (wrong types, out-of-range values, missing
     methods, mismatched sizes, unknown option names) with the documented error when they are given, before any
     computation, and accept every valid combination. Objects not derived from the library's parents are accepted
     with a warning.""",
     ["configurations", "inputs"], "all parameter combinations", "tests check one invalid value per class",
     SOLVERS + ["src/modopt/opt/proximity.py", "src/modopt/opt/cost.py", "src/modopt/opt/gradient.py", "src/modopt/signal/noise.py", "src/modopt/interface/errors.py"],
     [("parameter checks", "constructors")],
     "TLC enumerates the configuration space (valid and singly/doubly invalid) and the expected outcome; every configuration is replayed.",
     technique="TLA+ decision table enumerated by TLC, every configuration replayed")

prop("C32", "Diagnostics: transpose test, executable and file checks, reports, plots",
     """The transpose test draws its two arrays from the given generator or seed, passes the given shapes and arguments on and
     reports the absolute difference of the two inner products. The executable check accepts exactly the names that
     denote an executable file, directly or in some directory of the search path, and the file-name check exactly existing
     files. Warnings and errors are reported once, and passed to the log when one is given. The cost plot shows the logarithm of the
     costs and is written to the documented file name only.""",
     ["inputs", "configurations"], "all operator pairs, shapes, arguments and seeds; all search paths and kinds of directory entries",
     "no test covers the transpose test's value or a search path with several entries",
     ["src/modopt/signal/validation.py", "src/modopt/interface/errors.py", "src/modopt/plot/cost_plot.py"],
     [("transpose test", "src/modopt/signal/validation.py"), ("executable lookup", "src/modopt/interface/errors.py")],
     "Every search path of up to 3 directories enumerated by TLC and replayed; recorded reports decided by TLC. " + IEEE,
     technique="TLA+ model of lookups replayed + TLC trace validation of recorded reports")
