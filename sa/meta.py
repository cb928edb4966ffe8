"""Per-property texts used in the evidence files and in MANIFEST.json.
covers: what the rule decides and over what; assumes: what it assumes beyond the common assumptions of core.ASSUME."""
TECH = "static analysis: abstract interpretation of the syntax tree of bfit in a symbolic term domain, compared with the specification's normal form"
STUBS = "The grid, density, model and measure handed to a fit are unknown objects of which only the documented interface is assumed (integration is linear summation with unknown weights, model evaluation an unknown function of the parameters)."
META = {
 "C01": dict(covers="The value array computed by AtomicGaussianDensity.evaluate is derived symbolically from the source for every kind of basis (only s, only p, both; symbolic counts), point layout (one- and multi-dimensional, given or default centre), normalisation and derivative flag, and its normal form compared with the defining sum."),
 "C02": dict(covers="The derivative matrix computed by AtomicGaussianDensity.evaluate is derived symbolically and every block of columns compared with the partial derivative of the defining formula, for symbolic numbers of s and p functions and points."),
 "C03": dict(covers="As C01/C02 for MolecularGaussianDensity with up to three centres, every enumerated distribution pattern of s- and p-type functions over them, the counts symbolic.", assumes=["The number of centres is enumerated up to three (four in the thorough tier); the counts on each centre are symbolic where the analysis can keep them so and otherwise small fixed numbers."]),
 "C04": dict(covers="Reported basis sizes, prefactors, radii, centre lookup and their behaviour after changing the counts are derived symbolically and compared with the layout of C01-C03."),
 "C05": dict(covers="The integrands of the three measures as functions of symbolic density, model and mask values, for the enumerated classes of arguments (default/symbolic parameters; density strictly positive or possibly zero; derivative flag)."),
 "C06": dict(covers="Value part and derivative part returned by each measure, compared with the derivative of the specification; same classes of arguments as C05."),
 "C07": dict(covers="The term computed by integrate of every radial grid class for symbolic points and integrand of symbolic length, compared with the trapezoidal sum; rejection of integrands of another shape; arbitrary and ill-scaled points on the common base class; integrands that are not finite."),
 "C08": dict(covers="The point arrays built by the two radial grid constructors for symbolic sizes, element number and extra points, compared with the documented nodes."),
 "C09": dict(covers="The point array and the integral of CubicGrid for symbolic origin and axes; numbers of points symbolic (as far as decidable) and a set of unequal fixed shapes."),
 "C10": dict(covers="Origin, axes and shape that CubicGrid.from_molecule passes to the constructor, for two to three symbolic atoms: axis directions, enclosure of the atoms plus margin, excess of at most a grid spacing.", assumes=["The eigenvector matrix returned by the linear algebra library is any matrix with columns that are orthonormal eigenvectors of its argument."]),
 "C11": dict(covers="Every functional of a fit (target normalisation, integrals, goodness of fit, Lagrange multiplier, averages of the update, constraint and objective of the optimiser) as a term in the unknown model values, density and quadrature weights, for both fit classes, spherical and not, target given or not; rejections of negative densities and of spherical on non-radial points.", assumes=[STUBS]),
 "C12": dict(covers="The five entries of goodness_of_fit as terms in unknown model values, density and quadrature weights, for both fit classes, several models, normalised or not, spherical or not, default and symbolic mask values.", assumes=[STUBS]),
 "C13": dict(covers="One step of the fixed-point iteration through the public run entry point, in all three update modes, over atomic and molecular models, as terms in unknown model values and derivatives, compared with the stationarity equations; the group that is not updated must be returned unchanged.", assumes=[STUBS]),
 "C14": dict(covers="All histories of the fixed-point run up to two (three) steps, described by which thresholds are exceeded after each step, and runs in which parameters or objective become NaN, executed in the term domain; records, stopping and success flag compared with the specification.", assumes=[STUBS, "Histories of up to two (atomic model, both groups: three) steps are enumerated; longer runs along prescribed courses of 60 to 210 steps (thorough: 500)."]),
 "C15": dict(covers="The objective function and gradient handed to scipy.optimize.minimize, captured at the call in ScipyFit.run, as terms in unknown model values, weights and measure values.", assumes=[STUBS]),
 "C16": dict(covers="All arguments reaching scipy.optimize.minimize in every combination of method, mode, constraint and display flag: start vector, bounds, options, constraints.", assumes=[STUBS]),
 "C17": dict(covers="The result dictionary assembled from an unknown optimiser result, for every mode, method and success value, optimised values of any sign, empty and usual messages; warnings.", assumes=[STUBS]),
 "C18": dict(covers="Orbital values and total, core and valence densities of SlaterAtoms with unknown data tables (numbers of functions per orbital, coefficients, exponents, energies, occupations symbolic), over enumerated sets of subshells.", assumes=["The Slater tables are taken as loaded into the documented attributes; the sets of subshells are enumerated."]),
 "C19": dict(covers="Density derivative and kinetic energy density as C18, including the nucleus.", assumes=["As C18."]),
 "C20": dict(covers="Slater functions and their radial derivatives for symbolic exponents, principal numbers and radii, including the nucleus; rejection of points that are not one-dimensional."),
 "C24": dict(covers="The lists of guesses produced by the three generators for symbolic exponents, coefficients, factor and fill value, sizes enumerated (1-6, 1-5, 1-4 functions; two more in the thorough tier), compared as sets with the insertions of the definition.", assumes=["Basis sizes are enumerated."]),
 "C25": dict(covers="remove_redundancies for symbolic coefficients, symbolic base exponent and threshold, over every closeness pattern (chains, permutations) of up to four (five) exponents realised on a line.", assumes=["The number of functions is enumerated up to four (thorough: five)."]),
 "C26": dict(covers="GreedyStrategy.run of both variants under enumerated histories of iteration outcomes (which candidate wins; better, equal, worse, NaN, redundant), choice functions and limits: every candidate and refinement handed to the underlying fit, counts of search, model and parameters, limit, reason for stopping.", assumes=["The fits inside the search are unknown: each returns unknown coefficients, marked distinct exponents and an objective of prescribed rank; the search itself is interpreted from the source. Histories are enumerated up to eleven iterations; parameters are symbolic."]),
 "C27": dict(covers="The result dictionary of the searches of C26 (counts, parameters, objective, history, performance) and of a second run on the same object.", assumes=["As C26."]),
 "C21": dict(covers="The data file opened by SlaterAtoms and load_slater_wfn for every element, charge state and letter case, in a virtual installation in which every file of the archive exists; rejection of species without data set, of conflicting flags and of elements that are no strings of letters; readability of every archive member.", assumes=["The content of a data file is represented by its lines with symbolic numbers (C35)."]),
 "C22": dict(covers="The occupations returned by load_slater_wfn for virtual data files with every configuration string of the archive, every subshell label in several contexts, and further configurations, and their order with respect to the orbitals.", assumes=["Configuration strings are enumerated: all strings in the distributed files plus generated patterns."]),
 "C23": dict(covers="The lookup of the universal Gaussian basis set over virtual tables with symbolic exponents (symbols that are prefixes of each other, interleaved shells, missing shells) and over the shape of the distributed table, every element, letter case and repeated lookups; the path opened.", assumes=["The shape of the distributed table is read from the file in the tree, its numbers are opaque."]),
 "C28": dict(covers="For models, measures, grids, Slater atoms, fits (both classes, optimiser objective included), guess generators and greedy searches: the arrays passed by the caller and the public attributes of the objects before and after every operation, every ordered pair of operations on the same object (each result must be that of a call on the untouched object, and earlier results must not change), parameter arrays refilled by the caller between calls; values compared as terms, in-place writes and views followed through the heap.", assumes=[STUBS, "Histories are all ordered pairs of the enumerated operations; the running time in results is not compared."]),
 "C29": dict(covers="Each documented rejection (measures, Gaussian models, fits, radial grids, greedy fits) as an obligation that the call raises that error class, for symbolic sizes and values and every combination of the other arguments.", assumes=["Wrong types are represented by a fixed set of values per argument (list, tuple, float, integer, None, string, dictionary, unknown objects)."]),
 "C35": dict(covers="load_slater_wfn on virtual data files in which every number is a distinct symbol: each returned energy, exponent, coefficient, occupation and cusp must be the symbol at its place of the file; templates of both layouts over enumerated tables, and the skeleton of every distributed file.", assumes=["Numbers in a data line are separated as in the distributed files; the skeleton of a file is read from the archive, its numbers are opaque."]),
 "C30": dict(covers="Constructors and get_optimization_routine of both greedy classes over option combinations with symbolic option values: what reaches the underlying fit (tolerances, limits, constraint, method, target, mask, normalisation, linear fit of the coefficients), the objective; and whether extra guesses are screened.", assumes=[STUBS]),
 "C36": dict(covers="The start computed by both greedy classes for symbolic densities, points and weights, in each of the six orderings of the three candidate objectives.", assumes=[STUBS]),
}
NA = {
 "C31": "A convergence statement about the iteration in exact arithmetic: it rests on Jensen's inequality for arbitrary densities and on quadrature exactness, a mathematical fact about the update formula and not about the shape of this code; the structural part (the update is the self-consistent one) is C12/C13.",
 "C32": "Quantifies over quadrature errors of numerical tables; no static argument on the source bounds them. The structural parts (nodes, trapezoidal weights, orbital formula) are C07, C08, C18.",
 "C33": "Depends on the convergence behaviour of scipy's optimisers on run-time data; the structural parts (problem posed, gradient exactness, result assembly) are C15-C17.",
 "C34": "Floating-point error over run-time ranges; the term domain of this framework is exact arithmetic, and a sound rounding analysis of transcendental library calls on symbolic arrays is out of reach here.",
}
