"""Per-property configuration of check.py."""


def A(shards=6, **k):
    return dict(flavour="asan", shards=shards, **k)


def R(flavour, shards=8, **k):
    return dict(flavour=flavour, shards=shards, **k)


CONFIG = {}


# how far the quick run multiplies the counts written in the harness (the build dominates its time)
DEPTH = dict(C02=2, C03=6, C04=5, C05=4, C06=4, C07=2, C08=6, C09=2, C10=4, C11=3, C12=5, C13=10, C14=5, C15=3, C16=5, C17=5, C18=5, C19=5,
             C20=5, C21=2, C22=2, C23=2, C24=8, C25=5, C26=4, C28=10, C31=4)


def prop(pid, src, rule, quick=None, thorough=None, **k):
    d = DEPTH.get(pid, 1)
    quick = [dict(r, scale=d * r.get("scale", 1)) for r in quick or [A(8)]]
    CONFIG[pid] = dict(src=src, rule=rule, quick=quick, thorough=thorough or [A(8)], **k)


prop("C01", "c01_angles.cpp",
     "angles drawn from classes (whole/half turns and their ulp neighbours, tiny, first negative turn, far, denormal) in float, "
     "double and int; non-trivial = distinct angle value per unit",
     require=["deg/tiny-negative", "rad/tiny-negative", "deg/whole-turn-ulp", "rad/half-turn~ulp", "int-deg", "int-extreme", "deg/very-far", "rad/beyond-turn-resolution"])
prop("C02", "c02_units.cpp",
     "random values over 24 decades through every unit pair, round trip and via a third unit, plus vectors of random length; "
     "non-trivial = distinct value (or vector content) pushed through all pairs",
     require=["speed/KNOT>KMH", "freq/DEGM>RPM", "freq/S>DEGS", "frequency-zero/period", "vector/rad2deg-copy", "constants"])
prop("C03", "c03_projections.cpp",
     "random vectors x headings (eighths of turn, tiny, many turns, both units) and transports with every frequency unit; "
     "non-trivial = distinct (vector, heading, unit) or (vector, point, rate, unit)",
     require=["extreme-scale", "heading/many-turns/deg", "heading/eighths/rad", "velocity-vector", "transport/unit4"])
prop("C04", "c04_vectors.cpp",
     "random coefficient sets (all negative, negative-dominant, repeated, zero-rich, 16 decades) for every vector class; "
     "non-trivial = distinct coefficient content",
     require=["infNorm/Vector2d", "infNorm/VectorN", "unit", "sort-large", "projected-angle/0/quadrant3", "outer/3", "IsEqual-within/VectorN", "IsEqual-beyond/Vector6d", "scalars/VectorN<complex>", "scalars/Vector3d<float>", "sort/int"])

prop("C05", "c05_interp1d.cpp",
     "random strictly increasing tables (2..300 points, a few up to 70000) x real/complex/float ordinates x in-range queries (nodes, ulp "
     "neighbours, mid-points, ends) in random/sorted order, with re-initialisation; non-trivial = distinct (segment, query, value)",
     require=["query/first-node", "query/last-node", "query/node+ulp", "query/node-ulp", "table/2-points", "table/huge", "re-initialised",
              "type/complex", "type/float", "same-pointers", "copied", "long-list"])
prop("C06", "c06_policy.cpp",
     "random tables x queries outside by one ulp .. 1e4 spans on both sides, direct, factory and lookup-table built; strict refusals observed "
     "in forked children; non-trivial = distinct (table ends, query)",
     require=["above/ulp", "below/ulp", "above/far", "below/far", "strict-refused/above", "strict-refused/below", "factory-refused",
              "through-lut/above/double", "through-lut/below/complex", "query/infinite", "query/huge", "query-vector/lut", "query-vector/direct"])
prop("C07", "c07_lut1d.cpp",
     "random histories (4..30 operations over up to 4 live tables) of SetX/AddY/duplicate/failing AddY/moves/unknown names, every series audited "
     "against the map model after every operation; non-trivial = distinct (series, query, value)",
     require=["op/AddY", "op/AddY-duplicate", "op/AddY-failed", "op/AddY-size-mismatch", "op/move-construct", "op/move-assign",
              "op/move-round-trip", "op/SetX-after-AddY", "op/unknown-name", "op/many-series", "eval-all",
              "op/hundreds-of-series", "name/embedded-nul", "name/long", "SetX/same-ends"])
prop("C08", "c08_interp2d.cpp",
     "random non-square grids x data x in-range points (nodes, ulp neighbours, edges, interior), re-initialisation with other sizes, outside points "
     "refused in children; non-trivial = distinct (point, value)",
     require=["grid/tall", "grid/wide", "grid/2-points", "query-x/last-node", "query-y/last-node", "re-initialised", "outside/0", "outside/1",
              "outside/2", "outside/3", "type/float", "same-pointers", "copied"])
prop("C09", "c09_lut2d.cpp",
     "random histories (4..24 operations) of axis changes, additions, duplicates, failing additions, every series audited against the map model "
     "after every operation; non-trivial = distinct (series, point, value)",
     require=["op/AddData", "op/AddData-duplicate", "op/AddData-unsupported", "op/AddData-undersized", "op/AddData-after-failure",
              "op/SetX-after-data", "op/SetY-after-data", "op/unknown-name",
              "op/hundreds-of-series", "name/embedded-nul", "name/long", "axis/same-ends"])
prop("C10", "c10_grid.cpp",
     "random grids of dimension 1..4 (2..14 points per axis, C and Fortran storage, float/double) x points inside (nodes, ulp neighbours, faces) and "
     "outside in any subset of coordinates; refusals observed; non-trivial = distinct (point, value)",
     require=["dim/double/1", "dim/double/2", "dim/double/3", "dim/double/4", "dim/float/3", "outside/above/axis0", "outside/below/axis3",
              "inside/last-node", "axis/2-points", "bound-refused", "refused-in-child", "refusal/axis", "refusal/too-many", "refusal/missing",
              "refusal/index0", "refusal/index1", "refusal/index2", "refusal/shape"])
prop("C11", "c11_gridlife.cpp",
     "random histories (5..25 operations over up to 6 live objects) of axes, variables, replacement, copies of empty/partial/complete objects, "
     "self-assignment, destruction, rejected operations; every live object audited after every operation under ASan; non-trivial = distinct "
     "(operation, point, value)",
     require=["op/copy-empty", "op/copy-partial", "op/copy-complete", "op/replace-variable", "op/self-assign", "op/destroy", "op/rejected-axis",
              "op/rejected-variable", "op/vector-of-copies", "op/copy-then-destroy-original", "op/assign-complete-onto-complete",
              "op/assign-empty-onto-complete"])
prop("C12", "c12_nearest.cpp",
     "random grids of dimension 1..4 (1..14 points per axis) x points on/between/below/above, original/copied/assigned objects, several data types; "
     "non-trivial = distinct query point",
     require=["query/below", "query/above", "query/mid", "query/node", "query/single", "copied", "dim/string/2", "dim/double/4", "dim/float-coord/2", "dim/int-coord/1", "query/integer-middle"])
prop("C13", "c13_vecgen.cpp",
     "random ends over many decades x counts 2..1e5, bases, steps (dividing or not), float and double; invalid requests refused in children; "
     "non-trivial = distinct argument set",
     require=["arange/scaled", "refused/linspace-slightly-reversed", "linspace/double", "linspace/float", "large", "logspace/base", "logspace/default-base", "arange/non-dividing", "arange/non-zero-start",
              "arange/default-step", "refused/linspace-1", "refused/linspace-reversed", "refused/arange-zero-step", "refused/arange-negative-step",
              "arange/near-stop", "arange/many", "very-large", "logspace/base-one"])
prop("C14", "c14_factor.cpp",
     "random matrices of nine kinds (gaussian, integer, sparse, graded, rank-deficient, triangular, permutation-like, repeated columns, scaled), "
     "tall/square/wide, double/float/complex, dynamic/3x3/6x6, factors recomposed by an independent product; non-trivial = distinct matrix",
     require=["output/holding-values", "output/of-other-size", "update/null-factor", "update/null-vector", "kind/rank-deficient", "kind/permuted", "kind/graded", "shape/tall", "shape/wide-svd", "chol-refused/non-symmetric", "chol-refused/indefinite",
              "chol-refused/non-square", "update/down", "update/up", "fixed/Matrix33", "fixed/Matrix66", "chol/MatrixMN-complex", "fixed-svd/Matrix33", "fixed-svd/Matrix66",
              "asymmetry/slight", "asymmetry/imaginary"],
     parts=8, quick=[R("addr")], thorough=[A(8)])
prop("C15", "c15_solve.cpp",
     "random systems with prescribed conditioning and scale (square, tall, wide, exact rank deficiency), 1-5 right-hand sides, dynamic/3x3/6x6, "
     "real and complex; residuals, Moore-Penrose, normal equations, null-space components, projected gradients, power sums; non-trivial = "
     "distinct matrix",
     parts=8, quick=[R("addr")], thorough=[A(8)],
     require=["matrix/structured", "pinv/null-matrix", "square/double", "square/float", "square/complex", "square/33", "square/66", "square/1x1", "square/large", "multi-rhs",
              "pinv/rank-deficient", "pinv/tall", "pinv/wide", "pinv/33", "pinv/66", "pinv/explicit-tol", "ls/tall", "ls/wide", "ls/rank-deficient",
              "ls/33", "ls/66", "constrained/double", "constrained/complex", "constrained/one-freedom", "constrained/one-constraint",
              "eigen/companion", "eigen/complex-pairs", "eigen/fixed", "matrix/permutation-like"])
prop("C16", "c16_pred.cpp",
     "matrices with each property (also up to rounding) and the same matrices violating it in one random coefficient, scaled, rectangular or with a "
     "prescribed negative eigenvalue around the tolerance, 36 decades; accessors compared with an independent copy; non-trivial = distinct matrix",
     parts=5, quick=[R("addr")], thorough=[A(8)],
     require=["orthogonal-perturbed/slightly", "symmetric-perturbed/upper", "symmetric-perturbed/lower", "antisymmetric", "orthogonal-perturbed/coefficient",
              "orthogonal-perturbed/column-scaled", "orthogonal-perturbed/scaled", "orthogonal-perturbed/unit-columns-not-orthogonal",
              "identity-perturbed/diagonal", "identity-perturbed/upper", "identity-perturbed/lower", "identity-look-alike", "psd/indefinite-positive-diagonal", "access/tall",
              "access/wide", "access/square", "rectangular/tall", "rectangular/wide", "class/MN-complex", "class/33-double", "class/66-double"])
prop("C17", "c17_integ1d.cpp",
     "random samples (2..3000, cancelling, affine, sparse) over increasing/decreasing/back-and-forth abscissas, and random integrator histories of bound "
     "and method changes interleaved with queries against a panel-wise long-double sum; non-trivial = distinct sample content or result",
     require=["nudged-bound", "tiny-range", "huge-range", "abscissas/extreme-scale", "abscissas/decreasing", "abscissas/back-and-forth", "affine", "two-samples", "trapz/float", "trapz/complex", "op/SetXmin-after-query",
              "op/SetXmax-after-query", "op/newton-after-query", "newton-refused", "integrator/function/double", "integrator/samples/double",
              "integrator/function/complex", "source-vector-changed-later"])
prop("C28", "c28_conv.cpp",
     "random kernels (2..300) x circular buffers after random push/pop histories that wrap, both reading directions, equal and longer buffers with hostile "
     "tails; short signals refused in children; non-trivial = distinct result",
     require=["buffer/wrapped", "buffer/plain", "buffer/same-length", "buffer/longer", "beyond-kernel", "short-signal-refused", "short-by-one"])
prop("C18", "c18_tri.cpp",
     "random triangles (axis-aligned, horizontal, vertical, skinny, far from the origin, 8 decades of size) x orders 1..8 x products of affine forms of every "
     "admissible degree and every barycentric monomial, against a 100-point long-double Duffy rule; recorded integrand points; six result types; "
     "non-trivial = distinct integral",
     require=["order%d/degree%d" % (o, o) for o in range(1, 9)] + ["monomial/order%d" % o for o in range(1, 9)] +
             ["triangle/skinny", "triangle/vertical", "triangle/horizontal", "triangle/axis-aligned", "scaled", "types", "refused/0", "refused/9", "refused/-1"])
prop("C19", "c19_fft.cpp",
     "random flag-toggling histories over one transform object with changing lengths (2, 3, primes, powers of two, odd, composite, up to 1024), float and "
     "double, output vectors reused, against a long-double Fourier sum; non-trivial = distinct (spectrum end bins, length)",
     require=["length/two", "length/three", "length/prime", "length/power-of-two", "length/odd", "length/composite", "length/large",
              "flags/scaling0-half0", "flags/scaling0-half1", "flags/scaling1-half0", "flags/scaling1-half1", "inverse/half-scaled-even",
              "inverse/half-unscaled-even", "inverse/full-scaled-odd", "inverse/full-unscaled-odd", "inverse/full-unscaled-even", "linearity", "pow2"] +
             ["unit/%d" % u for u in range(6)])
prop("C20", "c20_rot.cpp",
     "random angle triples (principal, many turns, quarter turns and their ulp neighbours, vertical pitch exactly and within 1e-17..1e-5) and unit "
     "quaternions (half turns, axes, gimbal lock, small rotations, both signs) through every conversion path, rotations compared as long-double matrices; "
     "non-trivial = distinct rotation",
     require=["pitch/vertical", "pitch/quarter", "pitch/quarter-neighbour", "pitch/many-turns", "roll/many-turns", "quaternion/half-turn", "quaternion/axis",
              "quaternion/gimbal", "quaternion/small-rotation", "quaternion/two-components", "unambiguous"])
prop("C21", "c21_cheb.cpp",
     "random Chebyshev-basis polynomials (separable sums, single basis functions, 12 decades of amplitude) and oscillating functions x every domain kind x "
     "unequal orders 0..70, values and derivatives at ends/ulp neighbours/far half-line points, nodes, recomputation and recomputation with another function; "
     "non-trivial = distinct (point, orders)",
     require=["kind/1d-closed", "kind/1d-opened", "kind/2d-closed", "kind/2d-opened", "kind/2d-mixed", "kind/3d-closed", "kind/3d-yz-opened", "kind/3d-z-opened",
              "nodes/1d-opened", "nodes/2d-mixed", "nodes/3d-yz-opened", "recomputed/1d", "recomputed/2d", "recomputed/3d", "recomputed-other-function",
              "order-zero", "unequal-orders", "point/open-far", "point/open-start", "point/closed-end", "derivative-quotient",
              "tall/1d/0", "tall/2d/0", "tall/2d/1", "tall/3d/0", "tall/3d/1", "tall/3d/2"],
     quick=[R("addr", 8)], thorough=[R("asan", 8)])
KINDS = ["1d-closed", "1d-opened", "2d-closed", "2d-opened", "2d-mixed", "3d-closed", "3d-yz-opened", "3d-z-opened"]
prop("C22", "c22_power.cpp",
     "random Chebyshev polynomials with unequal orders 0..18 (each axis driven to 18) on every domain kind, converted and compared with the Chebyshev series "
     "and the exact polynomial; random power coefficients against the long-double sum; orders above 18 per axis refused in children; non-trivial = distinct "
     "(point, orders)",
     require=["high-orders-together/2d"] + ["kind/" + k for k in KINDS] + ["direct/" + k for k in KINDS] +
             ["order-18/1d/axis0", "order-18/2d/axis0", "order-18/2d/axis1", "order-18/3d/axis0", "order-18/3d/axis1", "order-18/3d/axis2", "refused-19",
              "refused/1d/axis0", "refused/2d/axis0", "refused/2d/axis1", "refused/3d/axis0", "refused/3d/axis1", "refused/3d/axis2", "unequal-orders",
              "unequal-orders-yz"],
     quick=[R("addr", 8)], thorough=[R("asan", 8)])
prop("C23", "c23_p3.cpp",
     "random coefficient cubes with unequal orders on the three 3D domain kinds x histories of fixing z (values, far end, again), joint/separate evaluations "
     "interleaved with general ones, all fixed z kept and re-audited after each operation; non-trivial = distinct (x, y, fixed z)",
     require=["kind/3d-closed", "kind/3d-yz-opened", "kind/3d-z-opened", "fixed/far-end", "fixed/again", "general", "zinf", "unequal-orders", "rebuilt/far-end", "rebuilt/value"],
     quick=[R("addr", 8)], thorough=[R("asan", 8)])
prop("C24", "c24_horner.cpp",
     "random coefficient lists of 1..700 terms (sparse, alternating, graded over 16 decades, single monomial, zero leading term) x real and complex points "
     "in/on/outside the unit disc, float/double/complex, against the long-double power sum; non-trivial = distinct (point, size, first coefficient)",
     require=["coefficients/balanced", "constant", "degree/1", "degree/2", "degree/high", "degree/very-high", "type/double", "type/float", "type/complex", "outside-unit-disc", "unit-circle", "zero",
              "coefficients/monomial", "coefficients/leading-zero"])
prop("C25", "c25_special.cpp",
     "random and edge arguments (1e-8..1e4, integers, branch switches and their ulp neighbours) x integer orders 0..25 and real orders, against long-double "
     "evaluations, Wronskians and recurrences; Struve against 60-digit series; Ei/E1 approximations across every branch; refusals in children; "
     "non-trivial = distinct (argument, order)",
     require=["bessel-symmetry", "bessel-tiny-order", "bessel-near-integer-order", "bessel-order/0", "bessel-order/1", "bessel-order/25", "bessel-arg/tiny", "bessel-arg/large", "bessel-real-order", "zero-argument",
              "struve/switch", "struve/below-3", "struve/above-3", "struve/large", "expint/branch-switch", "expint/small", "expint/large",
              "expint/edge0", "expint/edge1", "expint/edge2", "expint/edge3", "expint/edge4", "expint/edge5", "refused/Ei_approximation",
              "refused/E1_approximation", "refused/Struve_zero_order", "refused/Struve_first_order", "polynomial/end", "polynomial-order/0",
              "polynomial-order/40", "factorial"],
     parts=3, quick=[R("addr", 8)], thorough=[R("asan", 8)])
prop("C26", "c26_spline.cpp",
     "random knot tables (2..60 points, uniform/jittered/non-uniform/clustered, any offset and width) x degrees 1..5: samples, polynomials of the spline degree, "
     "linearity, shift/scale invariance, both constructors, error bounds from a long-double collocation matrix; non-trivial = distinct (abscissa, value)",
     require=["degree/1", "degree/2", "degree/3", "degree/4", "degree/5", "reduced-degree", "two-samples", "knots/uniform", "knots/clustered", "query/last",
              "query/knot-ulp", "query/knot-close", "shift-scale", "monomial", "many-points"],
     quick=[R("addr", 8)], thorough=[R("asan", 8)])
prop("C27", "c27_helpers.cpp",
     "random vectors (empty, one element, thousands; double/float/int/long/complex) through every element-wise helper, generators with samples on and one ulp around "
     "every edge, complex parts in all quadrants up to the type limits, scalar helpers, size mismatches refused in children; non-trivial = distinct input content",
     require=["shared-operands/double", "pow/wide", "elementwise/double", "elementwise/float", "elementwise/int", "elementwise/long", "elementwise/complex", "empty/double", "one-element/double", "pow",
              "mismatch/Add/shorter-first", "mismatch/Add/longer-first", "mismatch/Divide/shorter-first", "mismatch/IsClose/longer-first", "sinc-zero/double",
              "on-edge/double", "on-edge/float", "impulse-hit/double", "impulse-tie/double", "ramp-narrow/double", "ramp-narrow/float", "saturate/symmetric", "ramp/double", "ramp-vertical/double", "ramp-refusal", "phase/double/quadrant0",
              "phase/double/quadrant1", "phase/double/quadrant2", "phase/double/quadrant3", "amplitude/extreme", "saturate/below", "saturate/above",
              "saturate/wide", "zero-height", "close-at-limit", "impulse-long-axis/double", "close", "not-close", "close-default", "parity/negative", "assertion"])
COMPONENTS = ["Interp1d", "Interp1d-complex", "LookupTable1D", "LookupTable1D-complex", "Interp2d", "Interp2d-float", "LookupTable2d",
              "RegularGridInterpolator-1", "RegularGridInterpolator-2", "RegularGridInterpolator-3f", "RegularGridInterpolator-4",
              "InterpSimplex-3", "InterpMultilinear-2d", "RegularGridNearest-1", "RegularGridNearest-2s", "RegularGridNearest-3", "MatrixMN-factorisations", "MatrixMN-least-squares", "MatrixMN-solvers", "Matrix33", "Matrix66", "vectors", "series",
              "special-functions", "Integrate1d", "Integration2dTriangle", "Integration2dTriangle-complex", "FFT", "FFT-float", "Spline-1", "Spline-3",
              "NaiveConvolution", "generators-and-helpers", "rotations"]
prop("C29", "c29_memory.cpp",
     "random programs (8..60 operations over up to 7 live objects of 34 component kinds) of construction, re-initialisation, use, copy, move and destruction "
     "through bases in any order, each run twice over differently filled memory under AddressSanitizer+UBSan (allocation balance) and uninstrumented (memory "
     "poisoned); refused calls in sanitized children; non-trivial = distinct digest of a program's results",
     parts=9, quick=[R("asan", 8), R("poison", 8, scale=0.5), R("memcheck", 8, scale=0.006)], thorough=[R("asan", 8), R("poison", 8), R("asan-clang", 8, scale=0.3), R("memcheck", 8, scale=0.02)],
     require=["used/" + k for k in COMPONENTS] + ["copied/RegularGridInterpolator-2", "copied/Interp1d", "copied/Spline-3", "balance-audited",
              "memory-poisoned-differently", "refused-call/grid_wrong_size", "refused-call/interp1d_sizes", "refused-call/convolution_short"])
SHARED = [k for k in COMPONENTS if k not in ("Integrate1d", "FFT", "FFT-float", "MatrixMN-least-squares", "Matrix33", "Matrix66")]
prop("C30", "c30_threads.cpp",
     "2..6 threads released together on a freshly built (or used) object of 28 component kinds, each evaluating its own or the same random queries with injected "
     "yields, and threads building/using/copying/destroying distinct objects; 24 processes so that first uses are concurrent too; ThreadSanitizer on every access, "
     "digests compared with a later single-thread run; non-trivial = distinct digest of one thread's results",
     parts=6, quick=[R("tsan", 24)], thorough=[R("tsan", 64)],
     require=["shared/" + k for k in SHARED] + ["own/" + k for k in COMPONENTS if k not in ("MatrixMN-least-squares", "Matrix33", "Matrix66")])
LK = ["%s/%d" % (k, n) for k in ("multilinear", "simplex") for n in range(1, 6)]
prop("C31", "c31_linterp.cpp",
     "random grids of dimension 1..5 (1..14 points per axis) x points on nodes, ulp neighbours, equal fractions, outside any subset of axes; interpolators owning or sharing "
     "their data through histories of re-initialisation, moves and released/overwritten caller arrays, discontinuous data, the C functions; wrong sizes refused; "
     "non-trivial = distinct (point, value, kind)",
     parts=6, quick=[R("addr", 8)], thorough=[A(8)],
     require=["type/" + k for k in LK] + ["affine/" + k for k in LK] + ["type/multilinear-shared/3", "type/simplex-shared/3", "jumps/multilinear/1", "jumps/multilinear/3",
              "jumps/simplex/2", "jumps/simplex/3", "refused/multilinear/3", "refused/simplex/2", "counted/multilinear/3", "counted/simplex/2", "c-interface/1", "c-interface/2", "c-interface/3", "caller/released",
              "caller/overwritten", "caller/updated-shared-data", "re-initialised", "moved", "node", "inside/equal-fractions", "axis/single", "axis/2-points"])
prop("C32", "c32_history.cpp",
     "random lives (2..14 steps: construction, use, re-initialisation, copies) of every component kind, run alone and interleaved step by step with 1..4 other objects of the "
     "same or other kinds, and built objects asked the same questions again in any order; digests of every step compared; non-trivial = distinct step digest",
     parts=9, quick=[R("addr", 8)], thorough=[A(8), R("o2", 8)],
     require=["interleaved/" + k for k in COMPONENTS] + ["asked-again/" + k for k in SHARED] + ["twins/" + k for k in COMPONENTS] +
     ["reincarnated/" + k for k in COMPONENTS] + ["reincarnated-differ/series", "reincarnated-differ/LookupTable1D", "reincarnated-differ/RegularGridNearest-2s", "address-reused", "cut-short"] +
     ["other-used-in-between", "twins-switched", "twins-differ/LookupTable1D", "twins-differ/Interp1d", "twins-differ/MatrixMN-solvers", "reused-argument/Horner", "reused-argument/NaiveConvolution"])
