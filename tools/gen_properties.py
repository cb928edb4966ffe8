"""Writes /verif/properties.jsonl (the single source of the property texts)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, state=(), observe=()):
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
              "anchors": {"files": files,
                          "state": [dict(name=a, meaning=b, where=c) for a, b, c in state],
                          "mechanism": [dict(name=a, where=b) for a, b in mech],
                          "observe_at": list(observe), "hook_needed": None}})

M, F, G, D, ME, S, GR, U = ("bfit/model.py", "bfit/fit.py", "bfit/grid.py", "bfit/density.py",
                            "bfit/measure.py", "bfit/_slater.py", "bfit/greedy.py", "bfit/parse_ugbs.py")
p("C01", "Atomic Gaussian model evaluates to its defining formula",
  "Evaluating an atomic Gaussian model gives, at every grid point, sum_i c_i exp(-a_i r^2) over the s-type functions plus sum_j d_j r^2 exp(-b_j r^2) over the p-type functions, where r is the distance of the point from the model's centre (the origin if none is given) and coefficients/exponents list the s-type functions first. With normalisation switched on, every basis function is additionally multiplied by the constant that makes its integral over three-dimensional space exactly one ((a/pi)^1.5 for s-type, 2 b^2.5/(3 pi^1.5) for p-type). This holds for any counts of s- and p-type functions (including zero of one type), any number of points, any point dimension, and whether or not derivatives are requested.",
  ["inputs", "configurations"], "all coefficients, exponents, points, centres; every combination of (s only, p only, both) x normalised x derivative flag x point dimension",
  "The tests compare a few small bases (at most two functions per type) at a handful of exponents and mostly at one or a few points.",
  [M], [("AtomicGaussianDensity.evaluate and its s/p helpers", M), ("radii computation in the constructor", M)],
  observe=["AtomicGaussianDensity.evaluate"])
p("C02", "Atomic model derivatives are the exact partial derivatives",
  "When derivatives are requested, the atomic Gaussian model also returns one column per parameter, first all coefficients and then all exponents, each in the order of the parameter vectors, and every column is the exact partial derivative of the returned model value with respect to that parameter at every point. This holds in every configuration (s only, p only, both; normalised or not). The value part is identical to what is returned without derivatives.",
  ["inputs", "configurations"], "all parameters and points, every basis configuration",
  "Finite-difference tests sample single parameter values in a few configurations; the column layout for unequal s/p counts with normalisation is barely sampled.",
  [M], [("AtomicGaussianDensity.evaluate(deriv=True)", M)], observe=["AtomicGaussianDensity.evaluate"])
p("C03", "Molecular model is the sum of its centres, parameters centre by centre",
  "A molecular Gaussian model evaluates to the sum over its centres of the atomic model placed at that centre, taking for centre k the consecutive block of parameters that follows the blocks of the earlier centres (s-type before p-type inside a block). Its derivative matrix holds all coefficient derivatives (centre by centre) followed by all exponent derivatives (centre by centre), each the exact partial derivative of the returned value. This holds for every number of centres and every distribution of s- and p-type functions over them, including centres with only one type.",
  ["inputs", "configurations"], "all parameters, points, centre coordinates and basis distributions",
  "Tests use one to three centres with one or two functions each, mostly identical on every centre.",
  [M], [("MolecularGaussianDensity.evaluate block slicing", M), ("MolecularGaussianDensity.__init__", M)],
  observe=["MolecularGaussianDensity.evaluate"])
p("C04", "Basis bookkeeping agrees with the parameter layout",
  "For any model, the reported number of basis functions equals the number of coefficients its evaluation accepts, the prefactor list gives 1.5 for each s-type and 2.5 for each p-type function in exactly the parameter order, and the radii are the distances of the grid points from each centre. A molecular model maps every parameter index to the one centre whose parameter block contains it and rejects indices past the end. After the s/p counts of an atomic model are changed, all of these and the evaluation follow the new counts.",
  ["inputs", "configurations", "histories"], "all basis configurations, all basis indices, any sequence of count changes",
  "Tests check a few explicit index/centre pairs and prefactors; they do not range over all distributions or over changes of the counts.",
  [M], [("nbasis/prefactor/radii/natoms properties", M), ("assign_basis_to_center", M), ("change_numb_s_and_numb_p", M)],
  observe=["AtomicGaussianDensity.nbasis", "MolecularGaussianDensity.assign_basis_to_center", "prefactor", "radii"])
p("C05", "Deviation measures return the documented integrand",
  "The squared difference returns (f-g)^2 pointwise. The Kullback-Leibler measure returns f ln(f/g) wherever g exceeds the mask value and zero where g does not exceed the mask value or where f is zero, and returns its constant penalty at every point if g is negative anywhere. The Tsallis measure of order alpha returns f((f/g)^(alpha-1) - 1)/(alpha-1) wherever g exceeds the mask value, and -f/(alpha-1) where it does not (the term with the ratio counts as zero there).",
  ["inputs", "configurations"], "all densities, models, mask values and orders; with and without derivatives",
  "Tests use smooth strictly positive functions and default masks; masked, zero-density and negative-model points are sampled at most once.",
  [ME], [("SquaredDifference/KLDivergence/TsallisDivergence.evaluate", ME)], observe=["evaluate of each measure"])
p("C06", "Measure derivatives are the exact derivatives w.r.t. the model",
  "With derivatives requested, every deviation measure returns a pair whose first part equals the value returned without derivatives and whose second part is the pointwise derivative of that value with respect to the model density: -2(f-g) for the squared difference, -f/g for Kullback-Leibler and -(f/g)^alpha for Tsallis wherever the model exceeds the mask value. At masked points the derivative is -1 for Kullback-Leibler and 0 for Tsallis, and where the penalty of a negative model applies the Kullback-Leibler derivative equals that penalty at every point.",
  ["inputs", "configurations"], "all densities, models, masks and orders",
  "Tests compare with finite differences for single random draws away from the masks.",
  [ME], [("evaluate(deriv=True) of each measure", ME)], observe=["evaluate of each measure"])
p("C07", "Radial integration is the trapezoidal rule on the grid's own points",
  "Integrating an array on any radial grid returns sum_i (x_{i+1}-x_i)(y_{i+1}+y_i)/2 over the grid's own points x in their stored order, for every spacing of the points and every integrand. The result is linear in the integrand. An integrand whose shape differs from that of the points is rejected with ValueError.",
  ["inputs"], "all integrands and all (also non-uniform) point sets of any size",
  "Tests integrate a few Gaussians and compare to six digits; they do not exercise non-uniform spacing with integrands that discriminate the weights.",
  [G], [("_BaseRadialGrid.integrate", G)], observe=["UniformRadialGrid.integrate", "ClenshawRadialGrid.integrate"])
p("C08", "Radial grids consist of exactly the documented nodes",
  "A uniform grid has exactly the requested number of equally spaced points from the lower to the upper radius, both included. A Clenshaw grid has the core nodes (1-cos(pi p/(2 m)))/(2Z), p=0..m-1 (p=1..m when the origin is excluded), the diffuse nodes 25(1-cos(pi p/(2 n))), p=1..n, and every extra point supplied, together sorted in ascending order. The requested floating-point type only changes the precision, not the nodes.",
  ["inputs", "configurations"], "all sizes, atomic numbers, bounds, extra points and the origin flag",
  "Tests check two or three small grids with a single extra point.",
  [G], [("UniformRadialGrid.__init__", G), ("ClenshawRadialGrid._get_points and __init__", G)], observe=["points"])
p("C09", "Cubic grid nodes form the lattice and its weights are uniform cell volumes",
  "The points of a cubic grid are origin + i*a + j*b + k*c for all 0<=i<n1, 0<=j<n2, 0<=k<n3, each exactly once with the last index running fastest, where a, b, c are the three axis vectors (rows). Integration multiplies the sum of the integrand over all points by the volume of one lattice cell, |det(a,b,c)|, for skewed or differently oriented axes as well. An integrand with another length is rejected with ValueError.",
  ["inputs", "configurations"], "all origins, axes (also non-orthogonal) and shapes",
  "Tests only use cubes with equal spacing along the Cartesian axes and the same number of points per axis.",
  [G], [("CubicGrid.__init__", G), ("CubicGrid weight computation and integrate", G)], observe=["CubicGrid.points", "CubicGrid.integrate"])
p("C10", "Grid built from a molecule encloses every atom with the requested margin",
  "A cubic grid built from a molecule extends, along each of its own three axis directions, over the interval spanned by all atoms plus the requested extension on either side, up to one grid spacing at each end. With rotation its axes are the spacing times the principal axes of the nuclear-charge distribution, without rotation the spacing times the Cartesian axes. This holds for any charges and positions, in particular when the centre of charge is not the middle of the molecule.",
  ["inputs", "configurations"], "all molecules, spacings, extensions, both rotate settings",
  "No test calls the constructor from a molecule.",
  [G], [("CubicGrid.from_molecule", G)], observe=["CubicGrid.from_molecule"])
p("C11", "Fits integrate everything with the same measure of space",
  "A fit created for spherical integration integrates every quantity it handles (density normalisation, model norm, errors, objective, gradient, constraint and update averages) with the weight 4 pi r^2 applied exactly once, and a fit that is not spherical applies no weight. If no integral is given, the target normalisation is that integral of the density; otherwise it is the value given. Fits reject densities with negative entries and spherical integration on grids that are not one-dimensional.",
  ["inputs", "configurations"], "all grids, densities, models, spherical on/off, integral given or not, both fitting algorithms",
  "Tests mostly run spherical=True with consistent data, where a missing or doubled weight in an auxiliary quantity does not show.",
  [F], [("_BaseFit.integrate and constructor", F)], observe=["integrate", "integral_dens", "lagrange_multiplier"])
p("C12", "Goodness of fit reports the five documented errors in order",
  "The goodness of fit of given coefficients and exponents is the list: integral of the model, integral of |f-g|, maximum over the points of |f-g|, integral of (f-g)^2, and integral of the Kullback-Leibler integrand of density f and model g, in that order. The integrals use the fit's own integration, the model is evaluated at exactly the given parameters, and the Kullback-Leibler entry uses the fit's mask value. The list does not depend on the measure being optimised.",
  ["inputs", "configurations"], "all parameters, densities, models, fit types",
  "One test compares the list for one Gaussian to one decimal.",
  [F], [("_BaseFit.goodness_of_fit", F)], observe=["goodness_of_fit", "result['performance']"])
p("C13", "Fixed-point step implements the Kullback-Leibler stationarity equations",
  "One fixed-point step maps coefficient c_i to c_i <b_i> / lambda and exponent a_i to prefactor_i <b_i>/<r_i^2 b_i>, where <.> is the fit's integral of the basis function (dm/dc_i) times f/m evaluated at the step's input parameters, r_i is the distance to the centre that carries function i, and lambda is the integral of f divided by the target normalisation. All updates in one step use the old parameters, and a parameter group that is not being optimised is returned unchanged. This holds for atomic models and molecular models with any number of centres.",
  ["inputs", "configurations"], "all parameters, densities, models (one or many centres), which groups are optimised",
  "Tests verify the step for a few one- and two-function models on one set of parameters.",
  [F], [("KLDivergenceFPI._update_params", F), ("lagrange multiplier", F)], observe=["KLDivergenceFPI.run(maxiter=1)"])
p("C14", "Fixed-point run reports a faithful history and success",
  "A fixed-point run performs at most the allowed number of steps and records one performance entry per step, computed from the parameters after that step; the objective history is the Kullback-Leibler entry of each record, and the returned parameters belong to the last record. It keeps iterating only while the objective still changes by more than its threshold and some parameter group changes by more than its threshold. Success is never reported for a run that used up its steps with the objective still changing by more than the threshold, nor for one whose objective or parameters became NaN; a run that stopped because its thresholds were met is a success.",
  ["inputs", "histories", "configurations"], "all starting points, thresholds, iteration limits and optimisation modes",
  "Tests look at converged runs and one maxiter=1 run; intermediate records and non-finite runs are not examined.",
  [F], [("KLDivergenceFPI.run", F)], observe=["KLDivergenceFPI.run result"])
p("C15", "Optimiser objective and gradient are consistent",
  "The function handed to the optimiser returns the fit's integral of weight times measure(density, model) and a gradient whose entries are the exact partial derivatives of that objective with respect to each optimised parameter, in the order of the parameter vector. This holds when both groups, only the coefficients, or only the exponents are optimised (the other group staying fixed at the given values), for any weights and any measure.",
  ["inputs", "configurations"], "all parameters, weights, measures, models and the three optimisation modes",
  "Tests check the gradient only through converged fits; a gradient wrong away from the optimum or for non-unit weights passes.",
  [F], [("ScipyFit.func", F), ("ScipyFit.evaluate_model", F)], observe=["ScipyFit.func", "ScipyFit.evaluate_model"])
p("C16", "The optimisation problem posed is the one requested",
  "For both supported methods and all three modes (coefficients, exponents, both), the optimiser starts from exactly the caller's guess of the optimised parameters, every optimised parameter is bounded below by a positive number and unbounded above, the other group stays fixed, and the caller's tolerance and iteration limit are honoured. With the constraint requested, the problem contains the equality that the model's integral at the trial parameters equals the target normalisation, and without it no constraint is added. The options to print progress do not change the problem.",
  ["inputs", "configurations"], "both methods x three modes x constraint on/off x display on/off, all guesses",
  "Tests run one method for most modes and never the combination trust-constr with a single group and the constraint.",
  [F], [("ScipyFit.run set-up", F), ("ScipyFit.const_norm", F)], observe=["arguments reaching scipy.optimize.minimize"])
p("C17", "Optimiser results are reported faithfully",
  "The result of an optimiser fit returns the optimised vector split into coefficients (first) and exponents, a group that was not optimised exactly as given, and the performance list computed from these returned parameters. Objective value, success flag, message and gradient are those of the optimiser, and an unsuccessful optimisation additionally raises a warning. All documented entries are present in every mode.",
  ["inputs", "configurations"], "all modes, models and optimiser outcomes",
  "Tests check converged values, not which parameters the performance was computed from nor failed runs in every mode.",
  [F], [("ScipyFit.run result assembly", F)], observe=["ScipyFit.run result"])
p("C18", "Atomic density is the occupation-weighted orbital density; core+valence=total",
  "The total atomic density at every radius is sum_i n_i phi_i(r)^2/(4 pi) over all subshells, where phi_i is the linear combination of that subshell's normalised radial Slater functions with that subshell's own coefficients, and n_i its occupation. The valence density weights each term with exp(-(e_i - e_homo)^2) and the core density with one minus that factor, e_homo being the highest orbital energy, so core plus valence equals the total everywhere. Any other mode is rejected.",
  ["inputs", "configurations"], "all atoms, radii and modes",
  "Tests check the sum and the electron count for light atoms whose last listed subshell happens to be the highest one.",
  [D], [("SlaterAtoms.atomic_density", D), ("SlaterAtoms.phi_matrix", D)], observe=["atomic_density", "phi_matrix"])
p("C19", "Density derivative and kinetic energy density follow from the orbitals",
  "The density derivative is sum_i 2 n_i phi_i phi_i'/(4 pi), the exact radial derivative of the total density, with phi_i' taken as zero at the nucleus. The positive-definite kinetic energy density is sum_i n_i (phi_i'^2 + l_i(l_i+1) phi_i^2/r^2)/(8 pi), l_i being 0, 1, 2, 3 for s, p, d, f subshells and the terms singular at the nucleus taken as zero there. Both hold for every atom with any mix of subshells.",
  ["inputs", "configurations"], "all atoms and radii, all angular momenta",
  "Tests integrate the kinetic energy for a few atoms and use finite differences for two; f subshells and the nucleus are hardly covered.",
  [D], [("derivative_density", D), ("positive_definite_kinetic_energy", D)], observe=["derivative_density", "positive_definite_kinetic_energy"])
p("C20", "Slater radial functions are normalised and differentiated exactly",
  "The radial Slater function of principal number n and exponent z is (2z)^n sqrt(2z/(2n)!) r^(n-1) exp(-z r), returned with one row per point and one column per function. Its derivative is ((n-1)/r - z) times it for r > 0, and zero at r = 0. Points that are not one-dimensional are rejected.",
  ["inputs"], "all exponents, principal numbers and radii, any number of functions and points",
  "Tests evaluate a few exponents of beryllium.",
  [D], [("radial_slater_orbital", D), ("derivative_radial_slater_type_orbital", D)],
  observe=["SlaterAtoms.radial_slater_orbital", "SlaterAtoms.derivative_radial_slater_type_orbital"])
p("C21", "Each supported species loads its own data file, others are rejected",
  "Every element with a neutral, cation or anion data set in the distributed archive is accepted with that charge state, in any letter case, and is read from exactly the file of that element and charge state in the layout in which that file is written. A charged species without a data set is rejected with ValueError, requesting anion and cation together is rejected, and an element that is not a string of letters is rejected with TypeError.",
  ["inputs", "configurations"], "all 103 elements x three charge states x letter case",
  "Only a dozen species are loaded by the tests, because most data files are only shipped inside an archive.",
  [S, D, "bfit/data/data.tar"], [("element tables and file selection in load_slater_wfn", S), ("SlaterAtoms.__init__ checks", D)],
  observe=["SlaterAtoms(...)", "load_slater_wfn"])
p("C22", "Electron configurations are expanded to the right occupations",
  "A closed-shell letter in a configuration stands for the full shell (K: 1s2; L: 2s2 2p6; M: 3s2 3p6 3d10; N: 4s2 4p6 4d10 4f14), the noble-gas cores of heavy elements stand for 54 (xenon) and 86 (radon) electrons with the correct subshells, and an explicitly written subshell sets its own occupation, two-digit d and f occupations included. Every subshell label from 1s to 7s, 2p to 7p, 3d to 7d and 4f to 7f is recognised. The occupations are reported in the order of the orbitals.",
  ["inputs"], "all electron configurations in the data format",
  "Tests check the occupations of a handful of atoms.",
  [S], [("_get_number_of_electrons_per_orbital", S), ("_configuration_exact_for_heavy_elements", S)],
  observe=["SlaterAtoms.orbitals_occupation", "SlaterAtoms.configuration"])
p("C23", "Tabulated basis-set exponents are returned per shell in file order",
  "Looking up the universal Gaussian basis of an element, in any letter case, returns for each of the shells S, P, D and F the exponents listed for exactly that element in the distributed table, in table order, and an empty list for shells without entries. Consecutive lookups are independent of each other. The data file is found relative to the installed package.",
  ["inputs", "histories"], "all elements, letter cases and sequences of lookups",
  "No test calls the lookup.",
  [U, "bfit/data/ygbs"], [("get_ugbs_exponents", U)], observe=["get_ugbs_exponents"])
p("C24", "Greedy candidate guesses contain the current basis plus the new functions",
  "From n functions the single-step generator returns n+1 guesses: the current exponents with one new exponent inserted below the first (first/factor), between two neighbours (their mean) or above the last (last*factor), and the current coefficients with the fill value inserted at the same position. The two-step generator inserts two new functions this way, covering every unordered pair of insertions, and the lose-one variant removes each one function in turn from every two-step guess. Every guess lists its coefficients before its exponents, equally many, aligned position by position.",
  ["inputs"], "all exponents, coefficients, factors, fill values and basis sizes",
  "Tests enumerate the guesses for one or two functions with one factor.",
  [GR], [("get_next_choices, get_two_next_choices, pick_two_lose_one", GR)],
  observe=["get_next_choices", "get_two_next_choices", "pick_two_lose_one"])
p("C25", "Merging redundant functions conserves the total coefficient",
  "Merging functions with nearly equal exponents returns equally many coefficients and exponents whose coefficients have the same total as before, for every pattern of closeness including chains. Each surviving exponent is one of the given ones and keeps its coefficient unless others were merged into it. No two surviving exponents are closer than the threshold. Without close exponents nothing changes, and the caller's arrays are never modified.",
  ["inputs"], "all coefficient/exponent vectors and thresholds, every closeness pattern",
  "The test uses one vector with one close pair or triple.",
  [GR], [("remove_redundancies", GR)], observe=["remove_redundancies"])
p("C26", "Greedy search accepts an enlarged basis only if it is better, else rolls back",
  "In every greedy iteration either the enlarged, re-optimised basis is accepted - only if its objective is not worse than the best so far and no redundant functions appear - or the search returns completely to the previous basis, also when the objective is not a number. At all times the function counts, the model and the stored parameters agree, and the number of functions never exceeds the caller's maximum, for every way of choosing candidates. The search ends only when another extension would exceed the maximum, the objective of two successive accepted bases agrees within the threshold, or five iterations in a row were rejected.",
  ["inputs", "histories", "configurations"], "all iteration outcomes (better, worse, redundant, NaN), all choice functions and limits",
  "Tests run two greedy fits of two functions that only ever accept.",
  [GR], [("GreedyStrategy.run", GR), ("_find_best_lparams", GR)],
  observe=["GreedyStrategy.run result", "model.num_s/num_p"])
p("C27", "Greedy results are self-consistent and repeatable",
  "The result of a greedy run lists num_s + num_p coefficients and as many exponents, taken s-type first from the last accepted parameters, together with the objective of exactly these parameters and one performance record per accepted basis. Starting a run again on the same object begins afresh from a single s-type function, independently of earlier runs. The best guess of an iteration is the one with the lowest objective of all the candidates tried.",
  ["inputs", "histories", "configurations"], "all runs and sequences of runs on one object",
  "Tests call run once per object.",
  [GR], [("GreedyStrategy.run", GR), ("GreedyStrategy._find_best_lparams", GR), ("store_errors", GR)],
  observe=["GreedyStrategy.run result"])
p("C28", "Public operations do not modify the caller's data or hidden state",
  "Evaluating models, measures, densities, integrals, objectives, goodness of fit and candidate guesses, and running fits, never modifies the arrays passed by the caller or the arrays held by the grid, model and fit objects. Evaluations leave no trace in the objects, so repeating a call, in any interleaving with other calls, returns the same result; results handed out earlier are not changed by later calls, and a caller that refills its own parameter arrays gets the values of the new parameters.",
  ["inputs", "histories"], "all public evaluations, all call sequences",
  "Tests rarely reuse the input arrays or objects after a call.",
  [M, F, G, D, ME, GR], [("all public methods", "bfit/")], observe=["arguments and attributes after each call"])
p("C29", "Invalid arguments are rejected with the documented error class",
  "Measures reject non-array models, densities that are not one-dimensional arrays, mismatching shapes (ValueError) and non-boolean derivative flags (TypeError), all three alike; the Tsallis divergence rejects a negative order and order one (ValueError). Gaussian models reject points that are no array and counts of functions that are no non-negative integers (TypeError), centres that are no vector or have another number of coordinates than the points (1-D points: one coordinate), empty bases, basis tables of another shape or number of rows than the centres, and parameter vectors of wrong dimension or length (ValueError). Both kinds of fit reject grids without points or integrate method (AttributeError); the optimiser-based fit rejects models on other points, densities of another length and unknown methods (ValueError) and non-measures (TypeError); the fixed-point fit rejects starting vectors that are no arrays (TypeError) or have the wrong shape (ValueError). Radial grids reject sizes, radii, extra points and flags of the wrong type (TypeError) and an upper radius that is not above the lower one (ValueError). Greedy fits reject unknown choice functions (ValueError) and factors that are no float (TypeError) or not positive (ValueError). Each rejection occurs for every combination of the other arguments.",
  ["inputs", "configurations"], "all argument combinations",
  "Tests try one bad value per argument with all other arguments at one fixed setting.",
  [M, F, G, D, ME, GR], [("argument checks at the top of the public methods", "bfit/")], observe=["exceptions raised"])
p("C30", "Greedy fits wire the caller's options into the underlying fits",
  "A greedy fit builds its one-function model and its underlying fit from the caller's grid, density, normalisation, target integral, spherical flag, mask value and method, uses the local tolerances and iteration limit while screening candidates and the global ones while refining, and forwards the constraint option. Extra initial guesses supplied by the caller's function are screened like the generated ones. Screening and refining optimise both coefficients and exponents. The initial one-function guess is evaluated with the fit's own objective.",
  ["configurations", "inputs"], "all option combinations of both greedy variants",
  "Tests use one option set per variant with local and global settings that both converge.",
  [GR], [("GreedyLeastSquares/GreedyKLFPI constructors and get_optimization_routine", GR)], observe=["arguments reaching the underlying fits"])
p("C36", "The one-function start of a greedy fit is its closed-form optimum",
  "The greedy least-squares fit starts from the best, by its own objective, of three single Gaussians c exp(-a r^2), each solving the linear least-squares problem of fitting ln f by ln c - a r^2 with weights 1, f and f^2. The greedy Kullback-Leibler fit starts from one normalised Gaussian that carries the target normalisation and whose exponent is 3 N / (8 pi I), I being the grid's integral of f r^4 and N the target normalisation.",
  ["inputs", "configurations"], "all positive densities, grids and targets, every ordering of the three objectives",
  "Tests check the start for densities that are a single Gaussian, where all three weights give the same result.",
  [GR], [("get_best_one_function_solution", GR)], observe=["GreedyLeastSquares.get_best_one_function_solution", "GreedyKLFPI.get_best_one_function_solution"])
p("C31", "Fixed-point iterations decrease the divergence monotonically",
  "With normalised basis functions and a quadrature that integrates them exactly, each fixed-point step does not increase the Kullback-Leibler divergence and preserves the normalisation.",
  ["inputs", "histories"], "all starting points and densities",
  "Tests only look at the end of converged runs.",
  [F], [("KLDivergenceFPI.run", F)], observe=["result['fun']"])
p("C32", "Quadratures are accurate for atomic densities",
  "The documented radial grids integrate the atomic densities of all elements to their electron number within 1e-6.",
  ["inputs", "configurations"], "all atoms and documented grid settings",
  "Tests check a dozen atoms on fine grids.",
  [G, D], [("ClenshawRadialGrid", G)], observe=["grid.integrate(density)"])
p("C33", "Optimisers return a (local) optimum",
  "A successful fit returns parameters at which the objective is stationary within the requested tolerance, and the greedy fits improve on it with more functions.",
  ["inputs", "histories"], "all densities, models and starting points",
  "Tests check a few fits whose optimum is known.",
  [F, GR], [("ScipyFit.run", F), ("GreedyStrategy.run", GR)], observe=["result"])
p("C34", "Evaluation is numerically stable over the whole exponent range",
  "Model, measure and density evaluation neither overflow nor lose all significant digits for exponents between 1e-3 and 1e9 and radii between 0 and 100.",
  ["inputs"], "all exponents and radii in range",
  "Tests use moderate exponents.",
  [M, ME, D], [("evaluate", M)], observe=["evaluate"])
p("C35", "Slater data files are parsed to the tabulated numbers",
  "For every distributed data file the energies, exponents, coefficients and orbital energies returned are exactly the numbers tabulated for the respective orbital in that file.",
  ["inputs"], "all 200 data files",
  "Tests compare a few orbitals of a few atoms.",
  [S], [("load_slater_wfn parsing loop", S)], observe=["SlaterAtoms.orbitals_coeff", "SlaterAtoms.orbitals_exp"])
with open(os.path.join(os.path.dirname(__file__), "..", "properties.jsonl"), "w") as f:
    for q in P:
        assert len(q["title"]) <= 80, q["id"]
        f.write(json.dumps(q) + "\n")
print(len(P))
