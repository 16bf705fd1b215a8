#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the committed file is this script's output)."""
import json, os
H = "src/MathUtils/"
P = []
def p(id, title, statement, over, text, why, files, mech, state, observe):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=[H+f for f in files], mechanism=[dict(name=n, where=H+w) for n, w in mech],
                     state=[] if state.startswith("none") else
                         [dict(name=state, meaning="what the observed results are computed from", where=H+files[0])],
                     observe_at=[observe], hook_needed=None)))

p("C01", "Angle normalisation lands in its interval and stays congruent",
  "For every finite angle, in single or double precision or integer degrees, Normalize_0_360, Normalize__180_180, Normalize_0_2PI and Normalize__PI_PI return a value inside the documented half-open interval ([0,360[, ]-180,180], [0,2pi[, ]-pi,pi]) that differs from the input by a whole number of turns up to floating-point rounding of the input. modulo360 and modulo2pi return the remainder with the sign of the input and magnitude below one turn; converting text to an angle unit accepts exactly DEG and RAD and refuses anything else.",
  ["inputs"], "all finite float/double/int angles: negative, tiny, denormal, exact multiples of a (half) turn and their neighbours, many turns away from zero",
  "tests check a dozen multiples of 90 degrees; the interval ends, tiny negatives and rounding neighbours of whole turns are never sampled",
  ["Angles.h", "Constants.h"], [("Normalize_0_360 and siblings", "Angles.h"), ("fmod based reduction", "Angles.h")],
  "none (pure functions)", "return values of the four normalisers, the two remainders and STRING2ANGLE")

p("C02", "Unit conversions are exact, reversible and compose consistently",
  "For every value and every pair of supported units, velocity, frequency/period and angle conversions multiply by (or, for periods, invert with) the physical factor between the two units: 1 knot = 1852/3600 m/s, 1 km/h = 1/3.6 m/s, 1 turn = 360 deg = 2 pi rad, 1 rpm = 1/60 Hz. Converting there and back returns the original value, a conversion through any third unit equals the direct one, and the std::vector variants convert each element exactly once (in place, or into the output leaving the input untouched).",
  ["inputs", "configurations"], "all values over many decades and both signs, all 3x3 speed-unit pairs, all 6x6 frequency-unit pairs, all intermediate units, vectors of any length including empty",
  "the only unit test multiplies one constant for degrees and radians; no speed or frequency pair is tested",
  ["Unit.h", "Constants.h"], [("convert_velocity_unit", "Unit.h"), ("convert_frequency through a Hz pivot", "Unit.h"), ("deg2rad/rad2deg/kt2ms vectors", "Unit.h")],
  "none", "returned values and output vectors")

p("C03", "2D frame projections are consistent rotations",
  "For every 2D vector and every heading in degrees or radians, projecting local coordinates onto North-East axes rotates the vector by the heading, projecting back onto local axes is its exact inverse, and norms are preserved; every spelling (in place, output argument, free function, single-axis component, SetNEDFromLocal, velocity vector from longitudinal/lateral speeds with any units) gives the same numbers. Transporting a velocity to another point adds exactly the rotation-rate cross product of the lever arm (zero for a zero lever arm or rate, reversible, additive along successive points), in any frequency unit.",
  ["inputs", "configurations"], "all vectors, headings of any magnitude, both angle units, all speed and frequency units, aliasing of input and output",
  "the test prints projections of one vector without a single assertion",
  ["Vector2d.h", "Angles.h", "Unit.h"], [("ProjectLocalOnNED / ProjectNEDOnLocal families", "Vector2d.h"), ("TransportAtPoint", "Vector2d.h"), ("_GetTrigo", "Angles.h")],
  "none", "resulting vectors and components")

p("C04", "Fixed and dynamic vectors keep their algebraic contract",
  "For every content, 2-, 3-, 6- and N-component vectors store and return coefficients where they were set, are null after construction or nulling where documented, report the infinity norm as the largest absolute coefficient, compare equal exactly when within the stated relative tolerance, and sorting/reversing permutes coefficients without loss in the requested order. Inner and outer products, squares and diagonal matrices built from vectors have the defining entries, normalising yields a unit vector of the same direction, and the projected angles around x, y and z are the planar polar angles of the projection in the requested unit.",
  ["inputs"], "vectors with mixed signs, repeated values, zeros, large dynamic range, any dimension",
  "tests print vectors; only a couple of random equalities are asserted and never a negative-dominant infinity norm",
  ["Vector2d.h", "Vector3d.h", "Vector6d.h", "VectorN.h"], [("infNorm/IsEqual/Set/at", "Vector2d.h"), ("outer/inner/Normalize/IsUnit/projected angles", "Vector3d.h"), ("Sort/Reverse/GetMatrixSquare/GetDiagonalMatrix", "VectorN.h")],
  "vector coefficients", "return values and coefficients after each call")

p("C05", "1D linear interpolation returns the piecewise-linear value",
  "For every strictly increasing abscissa table of at least two points, every real or complex ordinate table of the same size and every query inside the table range, each linear 1D interpolator returns the value at x of the straight segment joining the two neighbouring samples (the sample itself at a node), up to rounding. Scalar and vector evaluation and the call operator agree element by element, the reported minimum and maximum are the table ends, and initialising the same interpolator again with new data makes it behave like a fresh one. A copy behaves like the interpolator it was made from, and neither is affected by what happens to the other.",
  ["inputs", "histories"], "all tables (non-uniform, 2..n points, negative, far from the origin, float/double/complex values), all in-range queries including nodes, ends and neighbours of nodes, repeated initialisation",
  "one sine table on one uniform grid is tested with a 1e-2 tolerance at one abscissa",
  ["Interp1d.h", "Interp.h"], [("segment coefficients", "Interp1d.h"), ("binary search of the segment", "Interp1d.h")],
  "slope/intercept tables per segment", "Eval and operator() results, GetXmin/GetXmax")

p("C06", "Out-of-range 1D queries follow the selected policy",
  "For every table and every query outside [xmin, xmax], the strict linear interpolator never returns a value, the saturating one returns the end sample on the side of the query, and the extrapolating one returns the value of the end segment's straight line prolonged to the query, below as well as above. The factory builds the variant that was asked for and refuses methods that are not available.",
  ["inputs", "configurations"], "all tables, all queries below or above the range from one ulp to far away, every policy, direct and factory-built, through lookup tables too",
  "each policy is sampled at one point, extrapolation above the range is never evaluated",
  ["Interp1d.h", "LookupTable1D.h"], [("strict / saturate / extrapolate evaluators", "Interp1d.h"), ("MakeInterp1d", "Interp1d.h")],
  "none beyond the table", "returned value, or process exit/exception observed in a child process")

p("C07", "1D lookup table behaves as a map of independent series",
  "Over every history of setting abscissas, adding series, re-adding existing names, failed additions, moves and evaluations, a 1D lookup table behaves like a map from names to the series first successfully added under that name with the abscissas in force at that time: re-adding a name is reported as rejected and changes nothing, evaluating one series never depends on the others, and unknown names and series whose length differs from the abscissas are refused. Counts and bounds match the stored data, evaluating all series at once agrees with evaluating each, and a moved-to table is indistinguishable from the source before the move, including for later additions.",
  ["histories", "inputs"], "random histories of up to dozens of operations with many series, all policies, real and complex values, invalid additions, move construction/assignment over populated tables",
  "a single scripted history of two series is tested",
  ["LookupTable1D.h", "Interp1d.h"], [("AddY name/index association", "LookupTable1D.h"), ("move operations", "LookupTable1D.h"), ("Eval overloads", "LookupTable1D.h")],
  "name-to-index map, series list, interpolator list, interpolation method", "AddY result, Eval of every series after every operation, counts, exceptions")

p("C08", "2D linear interpolation returns the bilinear patch value",
  "For every rectangular grid (at least 2 x 2, possibly non-uniform and non-square) and every data table in row-major (x slowest) order, evaluating at a point inside the range returns the bilinear blend of the four corners of the cell containing it, equal to the datum at a node and continuous across cell borders, up to rounding. Single-point, list-of-points and call-operator evaluation agree, the reported bounds are the table ends, points outside the range are refused, and initialising again with new data behaves like a fresh interpolator. A copy behaves like the interpolator it was made from, and neither is affected by what happens to the other.",
  ["inputs", "histories"], "all grids (nx != ny, negative, offset), all data, queries at nodes, edges, interior; repeated initialisation with other sizes",
  "one symmetric square sine table with one assertion: swapped axes or a wrong stride cannot be seen",
  ["Interp2d.h"], [("cell coefficients", "Interp2d.h"), ("cell search and flat index", "Interp2d.h")],
  "coefficient tables per cell", "Eval results, bounds, refusal")

p("C09", "2D lookup table behaves as a map of independent grids",
  "Over every history of setting axes, adding data, re-adding names, failed additions and evaluations, a 2D lookup table behaves like a map from names to the data first successfully added under that name with the axes in force at that time: duplicates are reported as rejected and change nothing, a failed addition leaves the table as it was, unknown names are refused. Membership queries, counts and the point, coordinate-pair and point-list evaluations agree with that map.",
  ["histories", "inputs"], "random histories with many names, axes replaced between additions, unsupported interpolation methods and undersized data as failing additions",
  "no test exercises the 2D lookup table at all",
  ["LookupTable2D.h", "Interp2d.h"], [("AddData association", "LookupTable2D.h"), ("Eval overloads and HasSerie", "LookupTable2D.h")],
  "name-to-index map, data list, interpolator list", "AddData result, Eval/HasSerie/GetNbSeries/GetNbSample after every operation, exceptions")

p("C10", "N-dimensional grid interpolation is multilinear inside, clamped outside",
  "For every rectilinear grid of dimension 1 to 4 with strictly increasing axes, interpolating inside returns the multilinear blend of the cell corners (the datum itself at nodes), up to rounding, and outside (without bound checking) the value at the nearest point of the grid box. With bound checking, any point outside in any coordinate is refused and any point inside, bounds included, is answered identically; non-increasing axes, too many axes, missing axes, variables that do not fit the axes and wrong axis indices are refused, and bounds, axes, dimension and node values read back are those supplied.",
  ["inputs", "configurations"], "all grids with unequal axis lengths (2..n points), float and double, queries at nodes, faces, outside by one ulp or far in any subset of coordinates",
  "one smooth function on one fine grid is checked to 0.1; axis mix-ups, clamping and edges are not observable there",
  ["RegularGridInterpolator.h", "thirdparty/linterp.h"], [("InterpMultilinear::interp", "thirdparty/linterp.h"), ("bound check", "RegularGridInterpolator.h")],
  "grid list, data array, limits", "Interp/EvalAtIndice/GetCoord* results and refusals")

p("C11", "Grid interpolators are value types over any build/copy history",
  "Over every history of adding axes, adding or replacing the variable, copying, assigning (also to itself) and destroying, an N-dimensional grid interpolator answers from its own data only: a copy stays valid and unchanged when the original is altered or destroyed and vice versa, replacing the variable takes full effect, a rejected operation does not change later answers, and no access touches memory it does not own. An interpolator reports itself valid exactly when it has a variable to answer from.",
  ["histories"], "random histories over several live interpolators: copies of empty, partial and complete objects, chains of copies, destruction in any order, replaced and wrong-sized variables",
  "tests build one interpolator once and never copy it",
  ["RegularGridInterpolator.h", "thirdparty/linterp.h"], [("copy assignment rebuilding the interpolator", "RegularGridInterpolator.h"), ("non-owning data view", "thirdparty/linterp.h")],
  "owned grid and data versus borrowed pointers of the inner interpolator", "answers of every live object after every operation, under AddressSanitizer")

p("C12", "Nearest-node lookup returns the closest node and enclosing cell",
  "For every rectilinear grid and every query point, the nearest-node lookup returns, in every dimension, a grid coordinate at minimal distance from the query (the border node when outside), with indices, coordinates and stored value all describing that same node. The surrounding nodes are the 2^n corners of the cell enclosing the point, ordered with the last dimension varying fastest, degenerating to the border node in a dimension where the point lies beyond the grid; copies answer identically and independently, and the reported bounds are the extreme grid coordinates.",
  ["inputs", "histories"], "all grids (non-uniform, 1..n points per axis, dimension 1..4), queries inside, on nodes, at midpoints, below, above, far away, copies and assignments",
  "one 3x3 unit grid is tested strictly inside; points below or above the grid are never queried",
  ["RegularGridNearest.h"], [("Nearest", "RegularGridNearest.h"), ("GetSurroundingGridNodes / GetNode", "RegularGridNearest.h")],
  "grid list and data array", "returned nodes (indices, coords, value)")

p("C13", "Generated sample vectors have exact ends, size and spacing",
  "For every start <= stop and count of at least two, linspace returns exactly that many non-decreasing values, the first equal to start, the last equal to stop, evenly spaced up to rounding; logspace returns the base raised to those exponents; arange(start, stop, step) returns start, start+step, ... in steps of `step` strictly below stop. Invalid requests (fewer than two samples, reversed ends, non-positive step) are refused.",
  ["inputs"], "all finite ends of any magnitude and sign whose difference is representable, counts 2..10^5, any base, any positive step including steps that do not divide the range, float and double",
  "linspace is only used as a helper; logspace and arange are never called by a test",
  ["VectorGeneration.h"], [("linspace", "VectorGeneration.h"), ("logspace", "VectorGeneration.h"), ("arange", "VectorGeneration.h")],
  "none", "returned vectors; refusal observed in a child process")

p("C14", "Matrix factorisations reproduce the matrix with the promised structure",
  "For every dynamic, 3x3 or 6x6 matrix admissible to the factorisation, thin and full QR give orthonormal Q and upper-triangular R with A = QR, LU gives a permutation P, unit lower-triangular L and upper-triangular U with PA = LU, Cholesky gives lower-triangular L with A = L L* and updates give the factor of A + sigma v v*, and the SVD gives orthonormal U, V and non-negative decreasing singular values with A = U S V*, all up to rounding relative to the norm of A. Cholesky refuses non-square, non-symmetric and non-positive-definite matrices, and the input matrix is never modified by a decomposition that returns factors.",
  ["inputs"], "all sizes (1..~30, tall, square), ill-conditioned, rank-deficient, triangular, permutation-like, wide-range-scaled matrices; real and complex",
  "one random 6x3 and 6x6 matrix is decomposed; pivoting-heavy, singular or non-symmetric inputs are not sampled",
  ["Matrix.h", "Matrix33.h", "Matrix66.h"], [("GetQRDecomposition / GetFullQRDecomposition", "Matrix.h"), ("GetLUDecomposition", "Matrix.h"), ("GetCholesky*", "Matrix.h"), ("GetSVDDecomposition", "Matrix.h")],
  "matrix coefficients", "returned factors, exceptions, the matrix after the call")

p("C15", "Linear solvers, inverses and least squares satisfy their equations",
  "For every well-posed system and any number of right-hand sides, LU and QR solvers return x with A x = b, inverses satisfy A inv(A) = I in place and by copy, the pseudo-inverse satisfies the four Moore-Penrose conditions (singular values not above its tolerance counting as zero), least squares returns the minimum-norm minimiser (residual orthogonal to the columns), and constrained least squares satisfies C x = d to rounding and is optimal among all such x, with errors bounded by the conditioning. Eigenvalues returned for a square matrix are the roots of its characteristic polynomial, with the right sum and product.",
  ["inputs"], "all sizes, square/tall/wide, rank-deficient for pinv and least squares, moderately ill-conditioned, 3x3/6x6/dynamic classes, multiple right-hand sides, any number of constraints below the unknowns",
  "one random instance of each is tested, optimality under constraints is never checked",
  ["Matrix.h", "Matrix33.h", "Matrix66.h"], [("LUSolver/QRSolver/LeastSquareSolver/LeastSquareSolverConstraint", "Matrix.h"), ("Inverse/GetInverse/GetPseudoInverse/Pinv", "Matrix.h"), ("Eigenvalues", "Matrix.h")],
  "none", "returned solutions and matrices")

p("C16", "Matrix predicates, accessors and symmetrisers tell the truth",
  "For every matrix, symmetry, orthogonality, identity, squareness, positive-semi-definiteness and equality predicates are true exactly when the matrix has the property within their tolerance and false when it is clearly violated (in a single coefficient or, for symmetry, orthogonality and semi-definiteness, by a non-square shape), for the dynamic, 3x3 and 6x6 classes alike. Row, column, diagonal and element accessors return the coefficients at those positions, transposition and the symmetrisers from the upper or lower part produce the defined entries, and setters (null, identity) set every coefficient.",
  ["inputs"], "matrices with and without each property, perturbed in one coefficient anywhere, rectangular shapes, scaled by many decades",
  "tests only ask predicates about matrices for which the answer is yes",
  ["Matrix.h", "Matrix33.h", "Matrix66.h"], [("IsSymmetric/IsOrthogonal/IsIdentity/IsPositiveSemiDefinite", "Matrix.h"), ("GetRow/GetColumn/GetDiag/Transpose", "Matrix.h"), ("MakeSymmetricFromUpper/Lower", "Matrix.h")],
  "matrix coefficients", "predicate answers and accessor values")

p("C17", "1D integration equals the trapezoidal sum over any use history",
  "For every sample vector, trapezoidal integration with a constant or variable step returns the trapezoid sum of all panels, hence the exact integral of affine data, additive over adjacent ranges and linear in the data, up to rounding. An integrator object over a function or samples returns that sum for its current bounds and method after any sequence of bound changes and queries, repeated queries agree, and the unimplemented method is refused whenever it is selected.",
  ["inputs", "histories"], "all sample counts from 2, non-uniform and decreasing abscissas, cancelling data, float/double/complex, random setter/getter histories",
  "one function on one interval is integrated; nothing is changed after the first query",
  ["Integration1d.h"], [("Trapz overloads", "Integration1d.h"), ("Integrate1d result cache", "Integration1d.h")],
  "bounds, sample vector, cached result and its validity flag", "Get() and Trapz results after each operation")

p("C18", "Triangle quadrature is exact up to its order on any triangle",
  "For every triangle in space and every order 1 to 8, the quadrature integrates every polynomial of total degree up to the order exactly up to rounding of the tables, for scalar, complex, vector and matrix integrands; the result does not depend on vertex order, scales with area, is linear in the integrand, additive under subdivision, and uses only points of the triangle. Orders outside 1..8 are refused.",
  ["inputs", "configurations"], "all orders, all monomials up to the order, triangles of any size, position, orientation and aspect ratio, all integrand result types",
  "one affine integrand at order 2 on one planar triangle is tested: six of eight tables are never executed",
  ["Integration2dTriangle.h", "QuadratureTables.h", "Integration2d.h", "Integrand.h"], [("quadrature tables", "Integration2dTriangle.h"), ("Compute", "Integration2dTriangle.h")],
  "tables of points and weights", "Compute result and the evaluation points seen by the integrand")

p("C19", "Fourier transforms satisfy the DFT definition and invert",
  "For every real signal of at least two samples and every combination of scaling and half-spectrum settings, changed in any order between calls, the forward transform equals the discrete Fourier sum (first half only when half-spectrum is on), the inverse restores the signal (times the length when scaling is off), energy is conserved, and linearity holds, up to rounding; half-spectrum inversion is for even lengths. The returned frequency of bin k is k times the sampling frequency over the length in the requested unit, with one entry per returned bin, and power-of-two helpers return 2^p.",
  ["inputs", "histories", "configurations"], "all lengths (prime, odd, even, powers of two), float and double, arbitrary signals, random flag-toggling histories over one transform object, all frequency units",
  "one round trip of one length with one flag setting is tested",
  ["FFT.h", "Unit.h"], [("fft/ifft", "FFT.h"), ("scaling and half-spectrum flags", "FFT.h"), ("GetFrequencyVector", "FFT.h"), ("Pow2", "FFT.h")],
  "transform flags and plan cache", "spectra, rebuilt signals and frequency vectors")

p("C20", "Rotation representations convert without changing the rotation",
  "For every triple of roll/pitch/yaw angles and every unit quaternion, conversions between Euler angles, quaternions and rotation matrices in every direction and along every path describe the same rotation: matrices are orthogonal with determinant +1 and equal the product of the three elementary rotations, and quaternions have unit norm. Recovered angles are finite and in the principal range, and rebuild the same rotation, including close to and at vertical pitch.",
  ["inputs"], "all angles (including outside the principal range), all unit quaternions including negatives, 180-degree rotations and gimbal lock and its rounding neighbours",
  "one comfortable triple and one quaternion are tested to 1e-3",
  ["Geometry.h"], [("six conversion functions", "Geometry.h")], "none", "returned matrices, quaternions and angles")

p("C21", "Chebyshev approximations interpolate and reproduce polynomials",
  "For every function, order and domain in one, two and three dimensions (each axis a finite interval or, where offered, a half-line), the computed Chebyshev series interpolates the function at its Chebyshev nodes and therefore reproduces at every point of the domain any function that is a polynomial of the mapped coordinates with degrees up to the order, up to rounding. Computing the coefficients again yields the same approximation, and the x, y and z derivatives are the derivatives of the approximation.",
  ["inputs", "configurations", "histories"], "all orders 0..~20 including unequal orders per axis, random polynomials of the mapped variables, domains of any length and offset, closed and half-open axis in every position, recomputation",
  "tests use a few smooth functions at one order per domain kind with loose tolerances",
  ["ChebyshevSeries1d.h", "ChebyshevSeries2d.h", "ChebyshevSeries3d.h", "BoostFunctions.h"], [("Compute_aij*", "ChebyshevSeries2d.h"), ("Evaluate and derivative families", "ChebyshevSeries3d.h"), ("axis transforms and derivative scaling", "ChebyshevSeries1d.h")],
  "coefficient arrays", "Evaluate* results and the points at which the function is sampled")

p("C22", "Power series agree with the Chebyshev series they come from",
  "For every Chebyshev series with orders up to 18, the power series built from its coefficients gives the same value and the same x, y and z derivatives at every point of the domain, within the conditioning of the change of basis, for every dimension and every closed/half-open axis combination; orders above 18 are refused.",
  ["inputs", "configurations"], "random coefficient arrays and functions, unequal orders per axis, all domain kinds, points over the whole domain including its ends",
  "a few smooth functions at fixed orders are compared, most often with equal orders on all axes",
  ["PowerSeries1d.h", "PowerSeries2d.h", "PowerSeries3d.h", "BoostFunctions.h"], [("bij from aij transforms", "ChebyshevSeries2d.h"), ("Evaluate and derivative families", "PowerSeries3d.h")],
  "power coefficient arrays", "values and derivatives from both series")

p("C23", "3D power-series shortcuts equal the general evaluation",
  "For every three-dimensional power series, fixing z in advance (at a value, or at the far end of a half-line) and then evaluating values and derivatives in x and y, separately or jointly, gives the same numbers as the general evaluation at that z; the coefficients returned for one z stay valid and independent of any z fixed later, and coefficients, bounds, orders and type read back are those supplied, for every domain kind and unequal orders.",
  ["inputs", "histories", "configurations"], "random coefficients and orders, all closed/half-open axis combinations, sequences of several predefined z with interleaved general evaluations",
  "the shortcuts are tested on one function with z fixed once",
  ["PowerSeries3d.h"], [("predefined-z coefficients", "PowerSeries3d.h"), ("joint value/derivative evaluation", "PowerSeries3d.h")],
  "cached coefficients for the predefined z", "shortcut versus general results after each operation")

p("C24", "Horner evaluation equals the polynomial and its derivative",
  "For every non-empty coefficient list in increasing degree and every real or complex point, Horner evaluation returns the polynomial's value and the derivative routine returns the derivative's value, up to the rounding bound of the sum of absolute terms, without altering the coefficients; constants have zero derivative.",
  ["inputs"], "all degrees 0..~60, sparse and alternating coefficients, points inside and outside the unit disc, real and complex",
  "one degree-5 polynomial at x = 3 is tested",
  ["Polynomial.h"], [("Horner", "Polynomial.h"), ("Horner_derivative", "Polynomial.h")], "none", "returned values")

p("C25", "Special functions satisfy their defining identities everywhere",
  "For every argument in the documented domain and every order, Bessel functions of both kinds, modified Bessel, Hankel and Struve functions, their derivatives, Legendre and Chebyshev polynomials and derivatives, exponential integrals, gamma and factorials agree with their series, recurrence, Wronskian and differential identities to near machine precision. The rational approximations of the exponential integrals stay within 1e-12 relative error over their whole domain (x > 1e-8), across every branch switch, and the Struve approximations within 5e-8 absolute error; arguments outside the domain (x <= 0 for the approximations of the exponential integrals, x < 0 for Struve) are refused.",
  ["inputs"], "dense and random arguments over many decades and near zero, branch boundaries on both sides, integer orders 0..~20",
  "tests compare a handful of tabulated values per function",
  ["BoostFunctions.h"], [("Cyl_Bessel*, Hankel, Struve", "BoostFunctions.h"), ("Ei/E1/expEi approximations", "BoostFunctions.h"), ("Legendre/Chebyshev polynomials", "BoostFunctions.h"), ("Factorial/Fact", "BoostFunctions.h")],
  "none", "returned values")

p("C26", "Splines interpolate every knot and reproduce low-degree polynomials",
  "For every strictly increasing knot table, a spline of the requested degree passes through every sample, reproduces every polynomial of degree up to the spline degree at all points of the range, is linear in the ordinates and invariant to shifting and scaling of the abscissas, up to conditioning; tables with fewer samples than the degree requires use the highest degree possible. Building from standard vectors or Eigen vectors gives the same spline and leaves the inputs unchanged.",
  ["inputs"], "knot tables of 2..~60 non-uniform points anywhere on the axis, degrees 1..5, random ordinates and polynomials",
  "one 1000-point step function is compared with seven recorded values",
  ["Spline.h"], [("abscissa scaling", "Spline.h"), ("degree reduction and fitting", "Spline.h")], "scaled spline", "evaluated values")

p("C27", "Signal generators and element-wise helpers match their definitions",
  "For every input vector, sinc, step, door, impulse and ramp generators, element-wise add/subtract/multiply/divide/scale/power/negate/sum, complex part/amplitude/phase extraction, sign, saturation, signed square root, closeness (|a-b| <= atol + rtol |b|) and parity helpers return the mathematically defined value in every element, at discontinuities included (steps and doors are at half height on their edges, an impulse is the sample of a regular axis closer than half a step), with the size of the input and without touching inputs that are not meant to change. Mismatched sizes and ramps whose ends are reversed or outside the axis are refused.",
  ["inputs"], "all vectors including empty/one element where meaningful, values on and around discontinuities, negative numbers, wide magnitudes, float/double/complex/int",
  "generators are only used as helpers, element-wise helpers have no test",
  ["Functions.h", "StdVector.h", "Complex.h", "Maths.h", "Check.h"], [("Sinc/Heaviside/Door/Dirac/Ramp", "Functions.h"), ("Add/Minus/Mult/Divide/Scale/Pow/Negate/Sum", "StdVector.h"), ("Real/Imag/Amplitude/Phase", "Complex.h"), ("sgn/Saturate/SgnSqrt", "Maths.h"), ("IsClose/is_odd/is_even", "Check.h")],
  "none", "returned vectors and scalars")

p("C28", "Discrete convolution integrates kernel times signal history",
  "For every kernel of two or more samples, every circular signal buffer at least as long (in any internal rotation) and every time step, the naive convolution returns the trapezoidal integral of kernel times signal where kernel sample i meets buffer element i from the front when the signal is flagged as reversed (the default) and element N-1-i otherwise, N being the kernel length; it is linear in both arguments, depends only on logical buffer order and on no sample beyond the kernel length, and leaves both untouched. Shorter signals are refused.",
  ["inputs", "histories"], "kernel lengths 2..~200, buffers longer than the kernel, after arbitrary push_front/push_back histories that wrap around, any step",
  "the only test computes one convolution without an assertion",
  ["Convolution.h", "Integration1d.h"], [("NaiveConvolution", "Convolution.h"), ("Trapz", "Integration1d.h")], "circular buffer rotation", "returned value")

p("C29", "No public operation commits a memory or undefined-behaviour error",
  "For every sequence of public calls within their documented preconditions (and for every refused call), over all components and object lifetimes - construction, re-initialisation, copy, move, polymorphic destruction - no out-of-bounds, use-after-free, mismatched deallocation, leak, uninitialised read that influences a result, or other undefined behaviour occurs.",
  ["inputs", "histories", "programs"], "mixed random programs over all components with hostile sizes (minimum sizes, unequal dimensions, empty vectors), object lifetimes in any order, values at type limits",
  "tests run uninstrumented and never destroy through a base, copy or re-initialise objects",
  ["Interp1d.h", "Interp2d.h", "LookupTable1D.h", "LookupTable2D.h", "RegularGridInterpolator.h", "RegularGridNearest.h", "Integration2dTriangle.h", "thirdparty/linterp.h"], [("ownership of interpolators", "LookupTable1D.h"), ("borrowed data pointers", "thirdparty/linterp.h"), ("polymorphic bases", "Interp1d.h")],
  "heap objects", "AddressSanitizer, UndefinedBehaviorSanitizer, allocation balance and Memcheck reports")

p("C30", "Concurrent evaluation of shared objects is race-free and deterministic",
  "For every schedule of threads that only evaluate (const operations) the same already-built interpolator, lookup table, grid, series, quadrature or spline object, or that work on distinct objects, there is no data race and every thread obtains exactly the results a single thread would.",
  ["schedules"], "many threads released together on freshly built objects, mixed evaluation entry points, injected yields, distinct and shared objects",
  "tests are single-threaded",
  ["Interp1d.h", "Interp2d.h", "LookupTable1D.h", "LookupTable2D.h", "RegularGridInterpolator.h", "RegularGridNearest.h", "Spline.h", "PowerSeries3d.h", "Integration2dTriangle.h", "thirdparty/linterp.h"], [("const evaluation paths", "Interp1d.h"), ("const evaluation paths", "thirdparty/linterp.h"), ("const evaluation paths", "ChebyshevSeries3d.h")],
  "shared immutable tables", "ThreadSanitizer reports and per-thread results compared with sequential ones")

p("C31", "Bundled N-dimensional interpolators return their cell's interpolant",
  "For every rectilinear grid of 1 to 5 dimensions with strictly increasing axes and data in C order, the bundled multilinear interpolator returns the multilinear blend of the corners of the cell containing the point, and the simplicial one the linear interpolant over the simplex of that cell selected by the order of the fractional coordinates; both return the datum at nodes, reproduce affine data and, outside, give the value at the nearest point of the box, up to rounding. Point, list and C-function evaluation agree; with discontinuous data (two limits per node and axis, 2^N values per node) each cell is interpolated from its own limits. An interpolator that copies its data is unaffected by later changes or release of the caller's arrays, one that shares them reads the current values and keeps reference-counted ones alive; initialising again or moving behaves like a fresh interpolator, and data of the wrong size are refused.",
  ["inputs", "histories", "configurations"], "all grids of dimension 1..5 with unequal axis lengths, owning/sharing/reference-counted data, queries on nodes, ties of fractions, faces and outside",
  "no test uses the simplicial, sharing, discontinuous or C variants, nor any axis mix-up revealing grid",
  ["thirdparty/linterp.h"], [("InterpSimplex::interp_vec", "thirdparty/linterp.h"), ("InterpMultilinear::interp_vec", "thirdparty/linterp.h"), ("set_f_array size check", "thirdparty/linterp.h")],
  "grid list, data view and owned copies", "interp/interp_vec/linterp_simplex_N results, refusals, lifetime of counted data")

p("C32", "Answers depend only on arguments and on the object's own history",
  "For every component and every sequence of operations, the results are exactly the same whenever the same sequence is run again with the same arguments, whatever is done before, afterwards or in between with other objects of the same or other kinds, and however often. Evaluations leave the object as it was: asking a built object the same questions again, in any order and any number of times, gives identical answers.",
  ["histories"], "random lives of every component kind alone and interleaved step by step with other objects, repeated and reordered evaluations",
  "tests use one object at a time and ask each question once",
  ["Interp1d.h", "Interp2d.h", "LookupTable1D.h", "LookupTable2D.h", "RegularGridInterpolator.h", "FFT.h", "Spline.h", "PowerSeries3d.h", "Integration2dTriangle.h", "Matrix.h"], [("evaluation paths without hidden state", "Interp1d.h"), ("evaluation paths without hidden state", "PowerSeries3d.h"), ("transform settings per object", "FFT.h")],
  "per-object tables, settings and caches; function-local statics", "digest of the results of every step, alone versus interleaved and repeated")

with open(os.path.join(os.path.dirname(__file__), "..", "properties.jsonl"), "w") as f:
    for x in P: f.write(json.dumps(x) + "\n")
for x in P:
    assert len(x["title"]) <= 80, x["id"]
print(len(P))
