"""The properties, one entry each; gen.py turns them into properties.jsonl and MANIFEST.json."""
S = "src/quocslib/"
NOT_APPLICABLE = {}
PROPS = []


def P(id, title, statement, over, quant, why, files, mech, note, observe=(), **kw):
    PROPS.append(dict(id=id, title=title, statement=statement, over=over, quant=quant, why=why, files=[S + f for f in files],
                      mech=[(n, S + w) for n, w in mech], note=note, observe=list(observe), **kw))


P("C01", "Every pulse handed to the user's evaluation stays inside its amplitude limits",
  "Whatever the search proposes, every sample of a pulse whose shaping ends with the limiting step lies between its lower and its upper "
  "amplitude limit (given in either order). Without shrinking, samples already inside are left alone and samples outside are moved exactly "
  "onto the nearer limit. With shrinking, a pulse inside the limits is unchanged and any other pulse keeps the order of its samples, is "
  "never widened and keeps its shape (an affine map of the original) whenever part of it lies inside the limits.",
  ["inputs", "configurations"],
  "For every control vector, initial guess, scaling list, pair of limits, final time, and every pulse basis.",
  "The tests run a few optimisations with fixed settings and never look at the limits; the guarantee is over all real control vectors and "
  "limits, including samples exactly on or on both sides of a limit.",
  ["pulses/BasePulse.py", "Controls.py", "pulses/basis/"],
  [("limiting and shrinking", "pulses/BasePulse.py"), ("assembly of the controls", "Controls.py")],
  "Bounded: 2-4 bins, values in [-10, 10]; real arithmetic with tolerance 1e-7, sin/cos/erf/arccos uninterpreted with range axioms.",
  ["pulses passed to the user's get_FoM"])

P("C02", "A delivered pulse is its shaping steps applied in order, and nothing else",
  "The pulse handed out equals the configured shaping steps (initial guess, base pulse, new update, scaling, limiting) applied exactly once "
  "each, in the configured order, to zero, with guess and scaling taken at the pulse's own time grid. The base pulse is the sum of all "
  "accepted updates (or the last one when overwriting is configured). Evaluating a pulse changes nothing: asking again with the same search "
  "point gives the same pulse and the user's own arrays stay as they were.",
  ["inputs", "configurations", "histories"],
  "For every update, guess, scaling, limits, every order and subset of the shaping steps, and every history of evaluations and base updates.",
  "Existing tests use one shaping order and never compare the delivered pulse with its parts; aliasing between evaluations needs a history.",
  ["pulses/BasePulse.py", "Controls.py"],
  [("shaping step list", "pulses/BasePulse.py"), ("base pulse update", "pulses/BasePulse.py"), ("control lists", "Controls.py")],
  "Bounded: 2-3 bins, 1-2 pulses, 16 step orders, up to 3 base updates.", ["Controls interface", "pulses passed to get_FoM"])

P("C03", "Each pulse basis evaluates its documented parametrisation at the grid times",
  "Each pulse basis yields, at every time t of its grid on [0, T], exactly the function it stands for: Fourier the sum of "
  "a*sin(2 pi w t/T) + b*cos(2 pi w t/T) (sine coefficient first), Chebyshev a*cos(w*arccos(2t/T-1) + phase), Sinc "
  "a*sin(y)/y with y = 2 pi basis_max (t-w)/T, the sigmoid families error-function steps at the offset, at the super-parameters (moved or "
  "widened by further coefficients where the basis has them, staying inside the window) and back to zero at T - offset, piecewise the "
  "amplitudes themselves. It uses each of its coefficients and each of its random super-parameters once, and takes as many "
  "control parameters as it declares.",
  ["inputs", "configurations"],
  "For every coefficient vector, super-parameter draw inside its limits, final time and number of bins and basis vectors.",
  "The tests only check that an optimisation with each basis runs; a wrong frequency scale, sign, swapped coefficients or a shifted grid "
  "still optimises.",
  ["pulses/basis/Fourier.py", "pulses/basis/Chebyshev.py", "pulses/basis/Sinc.py", "pulses/basis/Sigmoid.py",
   "pulses/basis/SigmoidSigmas.py", "pulses/basis/SigmoidTimeDep.py", "pulses/basis/SigmoidAllParas.py", "pulses/basis/PiecewiseBasis.py"],
  [("basis evaluation", "pulses/basis/"), ("super parameter draw", "pulses/superparameter/Uniform.py")],
  "Bounded: 1-2 basis vectors, 2-4 bins; sin, cos, erf, arccos are uninterpreted functions whose arguments z3 has to prove equal.")

P("C04", "Every control reads exactly its own part of the search vector",
  "With several pulses and parameters in one optimisation, each control depends on its own, consecutive entries of the search vector only: "
  "pulses first, then parameters, in the configured order, without gap or overlap, and the vector's length is the sum of what the "
  "controls declare. The start point and the start spread are laid out the same way, for every control its own values. The same holds for "
  "the updates that are stored into the base pulses at the end of a super-iteration.",
  ["inputs", "configurations"],
  "For every search vector and every mix of up to three pulses of different bases and two parameters.",
  "The tests use one or two pulses with equal settings, where swapped or shifted slices are invisible.",
  ["Controls.py", "pulses/BasePulse.py", "parameters/Parameter.py"],
  [("index assignment", "Controls.py"), ("start vector and spread", "Controls.py")],
  "Bounded: up to 3 pulses and 2 parameters, 2-3 bins, 1-2 basis vectors.", ["Controls interface", "arguments of get_FoM"])

P("C05", "Parameters stay in their limits and every pulse is sampled on its own time",
  "Every parameter value handed to the user's evaluation lies within its limits: a proposed value inside is passed on exactly, one outside "
  "is moved onto the nearer limit. Every time grid handed over belongs to the time the pulse names, has the pulse's number of samples, "
  "starts at 0, ends at the final time and is equidistant. None of this depends on what was evaluated before.",
  ["inputs", "configurations", "histories"],
  "For every proposed vector, limits, start values, final times, any number and order of times, pulses and parameters.",
  "Tests only run parameters whose optimum is inside and never two times with different final values.",
  ["parameters/Parameter.py", "parameters/BaseParameter.py", "parameters/TimeParameter.py", "Controls.py", "pulses/BasePulse.py"],
  [("parameter limiting", "parameters/Parameter.py"), ("time lookup", "Controls.py")],
  "Bounded: 1-3 parameters, 1-3 pulses of 2-5 bins, 1-3 times, sequences of 3 evaluations.", ["arguments of get_FoM"])

P("C06", "The reported and saved optimum is the best evaluation of the run",
  "After every evaluation the saved best controls on disk are those of the best figure of merit seen so far, and at the end the reported "
  "figure of merit, the result file and the saved controls all belong to the best evaluation, with the figure of merit in the user's sign. "
  "The recorded history of figures of merit is, entry by entry, what the user's evaluation returned, and evaluations are numbered "
  "consecutively from one.",
  ["histories", "inputs"],
  "For every sequence of figures of merit (any order, ties included), both directions, every algorithm and inner search, both file formats.",
  "Tests look at the final files of one or two runs whose best evaluation is decided by a fixed physical model; which evaluation is best "
  "depends on the whole sequence.",
  ["optimizationalgorithms/OptimizationAlgorithm.py", "optimizationalgorithms/dCRABAlgorithm.py",
   "optimizationalgorithms/DirectSearchAlgorithm.py", "optimizationalgorithms/GRAPEAlgorithm.py", "optimizationalgorithms/ADAlgorithm.py",
   "utils/BestDump.py", "communication/AllInOneCommunication.py"],
  [("record handling", "optimizationalgorithms/*.py (_inner_routine_call, inner_routine_call)"), ("saving", "utils/BestDump.py")],
  "Bounded: at most 4-7 evaluations, 1-3 search directions, figures of merit symbolic in [-1e9, 1e9].",
  ["best_controls file", "optimized_parameters.json", "arguments of get_FoM"])

P("C07", "A run evaluates until a limit is reached, and not once more",
  "Once the total evaluation budget is used up, the best figure of merit (its average, when evaluations are repeated) reaches the goal, the total time limit has passed or the user has stopped the run, the "
  "user's evaluation is not called again and the run ends by itself with the results so far; a budget of N gives at most N evaluations. "
  "As long as none of these holds, no evaluation that the search asks for is withheld.",
  ["histories", "inputs", "configurations", "schedules"],
  "For every budget, goal, time limit, duration of each evaluation, figure of merit sequence and moment of the user's stop.",
  "A test fixes one budget or goal; reaching two limits at once, exact equality with the goal or stops inside a shrink step or initial "
  "simplex need the whole space of sequences.",
  ["optimizationalgorithms/OptimizationAlgorithm.py", "optimizationalgorithms/dCRABAlgorithm.py", "handleexit/HandleExit.py",
   "gradientfreemethods/NelderMead.py", "gradientfreemethods/CMAES.py", "Optimizer.py"],
  [("evaluation guard", "optimizationalgorithms/OptimizationAlgorithm.py (_routine_call)"), ("running flag", "handleexit/")],
  "Bounded: budget 1-5, at most 6-7 evaluations, 1-2 super-iterations; library time between evaluations is zero.",
  ["calls of get_FoM"])

P("C08", "Maximising a figure of merit is exactly minimising its negative",
  "A maximisation of f and a minimisation of -f with the same settings request the same controls in the same order, stop after the same "
  "evaluation, and end with the same best controls; every reported figure of merit (result, history, saved best controls, goal, "
  "reason to stop) differs in sign only, i.e. is given in the user's own sign.",
  ["inputs", "histories", "configurations"],
  "For every sequence of figures of merit, standard deviations and goal, every algorithm and inner search, both file formats.",
  "Each test optimises in one direction; a sign slip in one of the places where the internal sign is undone needs both runs compared.",
  ["optimizationalgorithms/", "communication/AllInOneCommunication.py", "stoppingcriteria/", "utils/BestDump.py"],
  [("direction factor", "optimizationalgorithms/OptimizationAlgorithm.py (FoM_factor)"),
   ("sign on the way in", "communication/AllInOneCommunication.py (get_data)"),
   ("sign on the way out", "communication/AllInOneCommunication.py (update_controls)")],
  "Bounded: 3-7 evaluations, 1-2 super-iterations, 1-2 search directions; with and without goal, re-evaluation and drift compensation.",
  ["arguments of get_FoM", "best_controls file", "optimized_parameters.json"])

P("C09", "Nelder-Mead evaluates the points of the published method, in its order",
  "Started from any simplex (or from a point), the Nelder-Mead search evaluates the vertices first and then, step by step, exactly the "
  "reflection, expansion, outside or inside contraction and shrink points that the published method prescribes for the figures of merit "
  "received so far, with the standard or the dimension-dependent (Gao and Han) coefficients. It returns the best evaluated point and value, "
  "and counts every evaluation once.",
  ["inputs", "histories"],
  "For every start simplex and every sequence of pairwise different figures of merit.",
  "Tests check that the search gets near the optimum of a smooth function from one start; a wrong comparison or coefficient in a rarely "
  "taken branch (outside contraction, shrink) still converges.",
  ["gradientfreemethods/NelderMead.py", "gradientfreemethods/GradientFreeTemplate.py"],
  [("simplex step", "gradientfreemethods/NelderMead.py (run_dsm)")],
  "Bounded: dimension 1-4, 5-10 evaluations, start simplex and values symbolic; an independent implementation is executed side by side.",
  ["points passed to the objective", "result dictionary"])

P("C10", "CMA-ES samples and adapts as the published method prescribes",
  "The first evaluation of the CMA-ES search is the start point, then every generation has population-size points drawn as mean + sigma*B*D*z "
  "from the current distribution; mean, evolution paths, covariance and step size are updated from the ranked generation by the "
  "published (mu/mu_w, lambda) rules with their default weights and constants, starting from covariance diag(spread^2). A generation is "
  "evaluated completely before the next one; the returned value and point belong together and every evaluation counts once.",
  ["inputs", "histories"],
  "For every ranking of every generation, start point, spread and draw.",
  "A wrong weight, rank order or constant still converges on the tests' smooth functions.",
  ["gradientfreemethods/CMAES.py"],
  [("generation loop", "gradientfreemethods/CMAES.py (run_dsm)")],
  "Bounded: dimension 1-4, populations 4-7, 1-3 generations; later generations with fixed draws, figures of merit symbolic.",
  ["points passed to the objective", "result dictionary"])

P("C11", "The direct search stops exactly when one of its stopping criteria is met",
  "The inner search goes on as long as none of its configured criteria (evaluation limit, spread of points, spread of figures of merit, "
  "time limit of the search, too little change over a window of evaluations) holds, ends at the next check after one does, and reports a "
  "reason that is true. The criteria are local to a super-iteration: each starts afresh in the next one.",
  ["inputs", "histories", "schedules"],
  "For every limit, tolerance, window, duration of each evaluation and sequence of figures of merit.",
  "Tests rely on one criterion (evaluation limit) with fixed numbers; off-by-one windows, a criterion checked on the wrong quantity or a "
  "stale clock from the previous super-iteration need all sequences.",
  ["stoppingcriteria/", "gradientfreemethods/NelderMead.py", "gradientfreemethods/CMAES.py",
   "optimizationalgorithms/dCRABAlgorithm.py", "optimizationalgorithms/DirectSearchAlgorithm.py"],
  [("criteria", "stoppingcriteria/*.py"), ("change based stop", "optimizationalgorithms/OptimizationAlgorithm.py")],
  "Bounded: 5-9 evaluations, dimension 1-2; thresholds claimed outside a band of 1e-6.", ["calls of the objective", "terminate reason"])

P("C12", "The best controls are those of the best evaluation; super-iterations build on it",
  "The controls an algorithm hands back at the end (get_best_controls, the final parameters) are the ones with which the best figure of "
  "merit of the run was evaluated. A super-iteration starts from the best controls found so far: its base pulses and parameter start values "
  "reproduce the best evaluation of all previous ones, also when a super-iteration found nothing better. The coefficients and frequencies "
  "dCRAB reports for its super-iterations (dcrab_para_list, dcrab_freq_list of the final results) have one entry for each and add up to the best pulses.",
  ["inputs", "histories", "configurations"],
  "For every sequence of figures of merit, every search point, with limits, shrinking, guess, scaling, several pulses and parameters.",
  "In tests nearly every super-iteration improves; adding the update of a failed one, or an update from another one, needs a history.",
  ["optimizationalgorithms/", "Controls.py", "pulses/BasePulse.py", "parameters/"],
  [("base update", "Controls.py (update_base_controls)"), ("best vector", "optimizationalgorithms/*.py (best_xx)")],
  "Bounded: 3-8 evaluations, 1-3 super-iterations, 1-2 pulses and 0-2 parameters.", ["get_best_controls", "final results", "arguments of get_FoM"])

P("C13", "Random draws fill their configured ranges and start simplices are proper",
  "Each super-iteration draws its super-parameters anew: with n basis vectors the configured range is cut into n equal bins and each vector "
  "gets one number from its own bin, anywhere in it, for every pulse independently. The start simplex of Nelder-Mead has the start point as "
  "first vertex, and the others are the start point plus orthonormal random directions scaled per entry by the control's own spread; "
  "the directions lean by the draws, they are not the axes. "
  "GRAPE and AD start within one spread of the start values, and a later super-iteration of AD within one spread of the best controls so far.",
  ["inputs", "configurations"],
  "For every range, number of vectors, draw of the generator, start point and spread.",
  "A test sees one random draw; an unreachable part of the range or a degenerate simplex shows up as slow convergence only.",
  ["pulses/superparameter/Uniform.py", "tools/linearalgebra.py", "tools/randomgenerator.py", "optimizationalgorithms/", "Controls.py"],
  [("super-parameter draw", "pulses/superparameter/Uniform.py"), ("start simplex", "tools/linearalgebra.py (simplex_creation)")],
  "Bounded: 1-4 basis vectors, 1-2 pulses, simplex dimension 1-5; range, draws (dimension 1-2), start point and spread symbolic.",
  ["Controls.get_random_super_parameter", "first arguments of get_FoM"])

P("C14", "A run with a seed is reproducible",
  "Two runs with the same settings, the same integer seed and the same answers of the user's evaluation request the same controls in the "
  "same order and give the same result, whatever else differs: the state of numpy's global generator, the time of day, runs made before. "
  "Every seed counts, including 0.",
  ["inputs", "histories", "configurations"],
  "For every sequence of figures of merit, all algorithms with a seed option, both inner searches, every random basis.",
  "No test runs the same seeded optimisation twice with a different global random state.",
  ["tools/randomgenerator.py", "optimizationalgorithms/", "gradientfreemethods/", "pulses/superparameter/Uniform.py", "tools/linearalgebra.py"],
  [("seeded generator", "tools/randomgenerator.py"), ("its users", "optimizationalgorithms/*.py, gradientfreemethods/CMAES.py")],
  "Bounded: 3-6 evaluations, 1-2 super-iterations, seeds 0 and 7; figures of merit symbolic, unseeded randomness differs between the runs.",
  ["arguments of get_FoM"])

P("C15", "What a run leaves on disk is complete and attributed to the right control",
  "The file with the best controls holds, for every pulse, its samples and its time grid and, for every parameter, its value, each under a "
  "name that contains the control's name and stands for that control only, together with the figure of merit and the iteration at which it "
  "was reached. Equal names, names that end in a number and names that coincide with other entries of the file do not hide or overwrite "
  "anything. Both file formats hold the same data. The settings are stored as they were given, and every run has its own results folder.",
  ["inputs", "configurations"],
  "For every choice of control names, number of pulses and parameters, record history, file format, direction.",
  "The tests save controls called Pulse_1 and parameter_1; the guarantee is about every combination of names and every record.",
  ["utils/BestDump.py", "utils/inputoutput.py", "communication/AllInOneCommunication.py", "Optimizer.py"],
  [("writer of the best controls", "utils/BestDump.py"), ("names of the controls", "Controls.py (get_pulse_names ...)"),
   ("results folder", "communication/AllInOneCommunication.py")],
  "Bounded: up to 2 pulses and 2 parameters, names out of 7 that collide in all ways, up to 3 records; values symbolic. Files are a model.",
  ["best_controls.npz / .json", "optimization_dictionary.json"])

P("C16", "File exchange hands over the right controls and only answers that belong to them",
  "With the figure of merit exchanged through files, the controls file holds exactly the pulses, time grids and parameters of the current "
  "evaluation, and the number returned is the one answered to these controls: an answer left from an earlier evaluation is never taken. An "
  "answer that comes within the configured time is read within one polling interval, whatever white space or further lines it comes with; "
  "without one the evaluation gives up at the configured time. A missing or unreadable answer is reported by a status code and ends the run "
  "with the best result so far; it is never taken for a figure of merit.",
  ["inputs", "schedules", "faults"],
  "For every controls, answer, moment of the answer, longest waiting time, and evaluation at which the answer is missing or unreadable.",
  "The file evaluation has no test; it depends on when the other program answers.",
  ["utils/FilesUpdateFom.py", "communication/AllInOneCommunication.py", "optimizationalgorithms/OptimizationAlgorithm.py"],
  [("polling and file handling", "utils/FilesUpdateFom.py"), ("status code", "communication/AllInOneCommunication.py (get_data)")],
  "Bounded: 1-2 exchanges, runs of 3 evaluations; delays, waiting time, values symbolic. File system and sleep are a model with one clock.",
  ["controls.json/txt", "return value of FilesUpdateFoM.get_FoM"])

P("C17", "The time evolution is the ordered product of the propagators of its slices",
  "For a drift A, controls B_k and amplitudes d, the stored propagator of slice i is expm(-i dt (A + sum_k d[k, i] B_k)), in the order of the "
  "slices, and the final propagator is U_n-1 ... U_1 U_0 applied to the start from the left. Exactly the requested number of slices counts. "
  "The version for automatic differentiation gives the same as the numpy version, for both functions. The inputs stay as they are.",
  ["inputs"],
  "For every drift, set of controls, amplitudes, start operator or state, slice duration, number of slices.",
  "The tests evolve one model system and only compare a figure of merit; order, sign and mixing of controls need arbitrary matrices.",
  ["timeevolution/piecewise_integrator.py", "timeevolution/piecewise_integrator_AD.py"],
  [("propagators", "timeevolution/piecewise_integrator.py"), ("jax version", "timeevolution/piecewise_integrator_AD.py")],
  "Bounded: dimension 1-3, up to 3 controls, up to 4 slices, every matrix entry symbolic; the exponential is uninterpreted.",
  ["return values of pw_evolution and pw_final_evolution"])

P("C18", "Gradient searches get the figure of merit they minimise and its gradient",
  "The number AD hands to its inner minimiser at a point is the figure of merit of exactly the controls of that point (sign changed when "
  "maximising) and the derivative it hands over is the derivative of that same number with respect to the search variables, through basis, "
  "base pulse of earlier super-iterations, guess and scaling, at every point and in every super-iteration. GRAPE hands over the figure of "
  "merit and, per time slice, Re Tr(i dt L_t^dagger [B, R_t]) with R_t the initial state propagated to the slice and L_t the target "
  "propagated back to it, always from the propagators of the current controls. The minimiser gets the tolerances the user set.",
  ["inputs", "configurations", "histories"],
  "For every point, guess, scaling, figure of merit of degree two, propagators, states, control Hamiltonian, final time and direction.",
  "Tests only look whether a run improves; a wrong or stale gradient often still improves.",
  ["optimizationalgorithms/ADAlgorithm.py", "optimizationalgorithms/GRAPEAlgorithm.py", "Controls.py", "pulses/BasePulse.py"],
  [("value and derivative", "optimizationalgorithms/ADAlgorithm.py"), ("GRAPE gradient", "optimizationalgorithms/GRAPEAlgorithm.py")],
  "Bounded: 1-2 pulses of 2-3 bins, up to 2 parameters, 1-3 points, 2x2 complex matrices; every number symbolic; jax's own differentiation "
  "is taken as exact (difference quotient of degree-two polynomials).",
  ["arguments of scipy.optimize.minimize"])

P("C19", "Re-evaluation averages the right measurements and stops at the right one",
  "With re-evaluation a point asked for by the search is measured with the same controls until the probability of being better than the best "
  "so far (normal distribution with the standard deviations of both) falls below the threshold of the current step, or until the steps are "
  "used up; the search gets, and the result reports, the average of these measurements. The point becomes the best exactly if it passes the last threshold, and then "
  "figure of merit, standard deviation and controls of the result and of the saved file are those of this point. A measurement that did not "
  "take place (budget used up, error, stopped by the user) never enters an average or a record.",
  ["inputs", "configurations", "histories", "faults"],
  "For every sequence of measured figures of merit and standard deviations, list of steps, direction, moment of the end.",
  "The only test with re-evaluation checks that it runs; thresholds depend on the whole history of noisy numbers.",
  ["optimizationalgorithms/dCRABAlgorithm.py", "optimizationalgorithms/DirectSearchAlgorithm.py"],
  [("re-evaluation loop", "optimizationalgorithms/dCRABAlgorithm.py (_inner_routine_call)"),
   ("the same for direct search", "optimizationalgorithms/DirectSearchAlgorithm.py")],
  "Bounded: 2-4 points, 1-4 steps, at most 12 evaluations; all figures of merit symbolic; normal distribution function uninterpreted with "
  "monotonicity and limits.",
  ["arguments of get_FoM", "final results", "best_controls file"])

P("C20", "Drift compensation measures the best point again and shifts the rest with it",
  "When drift compensation is due (the set time has passed since the last one at the end of a Nelder-Mead iteration, or a super-iteration "
  "ends), and only then, the controls of the current best are measured again as often as configured; its figure of merit becomes their "
  "average and every other vertex is shifted by the same amount, so the search continues as from a simplex with these values. The best so "
  "far is replaced by the new measurement even if it is worse, in the result and in the saved file. If the run ends meanwhile nothing is "
  "replaced by a number that was not measured.",
  ["inputs", "schedules", "histories", "faults"],
  "For every sequence of figures of merit and of evaluation times, number of measurements, direction, moment of the end.",
  "No test measures time; the compensation depends on when evaluations happen and on all values before.",
  ["gradientfreemethods/NelderMead.py", "optimizationalgorithms/dCRABAlgorithm.py", "optimizationalgorithms/DirectSearchAlgorithm.py"],
  [("compensation during the search", "gradientfreemethods/NelderMead.py"),
   ("after a super-iteration", "optimizationalgorithms/dCRABAlgorithm.py (_update_FoM)")],
  "Bounded: dimension 1-2, 5-10 evaluations, 1-3 repetitions, 1-3 super-iterations; figures of merit symbolic, durations from a menu.",
  ["arguments of get_FoM", "final results", "best_controls file"])

P("C21", "The controls for automatic differentiation equal the numpy controls",
  "For the same settings, random choices and search vector the controls built for automatic differentiation have the same pulse values, time "
  "grids and parameters as those built for the other algorithms (up to single precision), with base pulse, guess, scaling, limits and "
  "shrinking, in every super-iteration; pulses with fewer bins are filled with zeros up to the largest number of bins. The final controls of a "
  "run are the ones that were evaluated, as real numbers, and start point and start variation agree too.",
  ["inputs", "configurations", "histories"],
  "For every search vector, guess, scaling, limits, final times and every mixture of bases, bins and parameters.",
  "The tests run one model with each flavour and never compare the two; differences appear only for certain limits or mixed numbers of bins.",
  ["Controls.py", "pulses/BasePulse.py", "pulses/basis/PiecewiseBasis.py", "parameters/Parameter.py"],
  [("control lists for AD", "Controls.py (get_controls_lists, get_final_controls_lists)"), ("limits in jax", "pulses/BasePulse.py")],
  "Bounded: up to 3 pulses of 2-4 bins, up to 2 parameters, two super-iterations; every number symbolic; tolerance of single precision.",
  ["return values of get_controls_lists, get_final_controls_lists, get_mean_value, get_sigma_variation"])

P("C22", "The linear algebra and noise helpers return what they are named after",
  "commutator gives AB - BA; to_sup_op gives the matrix whose product with the stacked columns of rho is the stacked [H, rho]; to_vec lists the "
  "rows; gram_schmidt returns orthonormal columns, the first one along the first input column. The partial trace sums over exactly the listed "
  "subsystems, in any order and of any dimension, and keeps the others in their order. state_to_dm is the outer product with the "
  "conjugate, _displace is expm(alpha A^+ - conj(alpha) A), _sqrtm has the square root of the eigenvalues, fidelity_funct is |tr(A^+ B)| and "
  "fidelity_AD is (sum of the square roots of the non-negative eigenvalues of s b s)^2. An Ornstein-Uhlenbeck realization starts at x0 and each "
  "step is x e^(-dt/tau) + sqrt(c tau / 2 (1 - e^(-2 dt/tau))) times a standard normal draw; ensembles hold independent realizations.",
  ["inputs"],
  "For every matrix, state, set and order of traced subsystems, constants and draws.",
  "The tests do not touch most of them; a missing conjugation or swapped index is invisible for real symmetric examples.",
  ["tools/linearalgebra.py", "tools/partial_trace.py", "tools/operations.py", "tools/fidelities.py", "utils/jax_utils.py", "noiseprocesses/ornsteinuhlenbeckprocess.py"],
  [("matrices", "tools/linearalgebra.py"), ("partial trace", "tools/partial_trace.py"), ("fidelity", "tools/fidelities.py"),
   ("noise", "noiseprocesses/ornsteinuhlenbeckprocess.py")],
  "Bounded: dimension 1-3 (Gram-Schmidt 1-2), 2-3 subsystems of dimension 1-3, 1-4 noise steps; every number symbolic; matrix exponential, "
  "exponential and eigenvalues uninterpreted.",
  ["return values"])

P("C23", "A run that is ended early stops evaluating and keeps its best valid result",
  "When the user stops a run, presses ctrl + c or an evaluation returns an error code, no further evaluation is started, by any algorithm. The "
  "result has the smallest (largest when maximising) figure of merit among the evaluations without an error and the controls that were "
  "evaluated for it, the file of the best controls holds the same, and the result file is written. A figure of merit returned together with "
  "an error code is recorded nowhere. Without a single valid evaluation there is still an orderly end and no best controls are written. "
  "That the user stopped the run is in the log.",
  ["inputs", "schedules", "faults", "histories"],
  "For every algorithm, moment of the end (before the first, at every evaluation), way to end, figures of merit and direction.",
  "Tests let runs finish; the moment of an interruption is never varied.",
  ["communication/AllInOneCommunication.py", "handleexit/HandleExit.py", "optimizationalgorithms/OptimizationAlgorithm.py",
   "optimizationalgorithms/dCRABAlgorithm.py", "optimizationalgorithms/DirectSearchAlgorithm.py", "optimizationalgorithms/GRAPEAlgorithm.py",
   "optimizationalgorithms/ADAlgorithm.py", "Optimizer.py"],
  [("error codes", "communication/AllInOneCommunication.py"), ("running flag", "handleexit"), ("end of the run", "Optimizer.py")],
  "Bounded: runs of at most 6 evaluations, the moment of the end symbolic, figures of merit symbolic.",
  ["arguments of get_FoM", "final results", "best_controls file", "result file", "log"])

P("C24", "The example problems return the figure of merit of the controls they are given",
  "The qubit problems return 1 - |<target|U|initial>|^2 for normalised states, U being the ordered product of expm(-i H dt) with the documented "
  "Hamiltonian of every pulse value and dt the spacing of the time grid; an optimised parameter replaces delta1, the sign follows the "
  "optimisation factor, the noise is evenly spread within the noise factor and reported as std 0.6827 times it, and a drift grows by its "
  "amount per evaluation; the history list has one entry per evaluation. The Ising problems use the nearest (-J) and next nearest (-g) "
  "neighbour couplings on a ring and the collective transverse control, and give the overlap of the state propagated with exactly the given "
  "pulse (never of an earlier one), with the documented sign. The Rosenbrock problem is that function. Each can be created without arguments.",
  ["inputs", "histories"],
  "For every pulse, time grid, parameter, state, option and random draw, and for repeated evaluations on one object.",
  "Tests run optimisations on them and do not compare a value with the physics; an error in order, step or conjugation still converges.",
  ["optimalcontrolproblems/OneQubitProblem.py", "optimalcontrolproblems/OneQubitProblem_2fields.py", "optimalcontrolproblems/RosenbrockProblem.py",
   "optimalcontrolproblems/IsingModelProblem.py", "optimalcontrolproblems/IsingModelADProblem.py"],
  [("figure of merit", "get_FoM of the five problems"), ("propagators", "timeevolution/piecewise_integrator.py")],
  "Bounded: 1-3 time slices, 2-4 qubits, up to 3 evaluations; all numbers symbolic; the matrix exponential uninterpreted.",
  ["return values of get_FoM"])

P("C25", "Optimisations in one process do not disturb each other",
  "Two optimisations in one process, the second one built or run before, after or inside an evaluation of the first, built from settings of its "
  "own or from the very same dictionary, each with its seed, request the same controls, and give the same best controls, figures of merit and "
  "files as each of them alone in a new process. Ending one (exit handler, error code) does not end the other, ctrl + c ends the one that was "
  "started last, the settings dictionary can be used again.",
  ["inputs", "schedules", "histories", "configurations"],
  "For every pair of algorithms, order of building and running, moment of the inner run, figures of merit and way to end.",
  "Every test builds one optimiser and runs it; state shared through classes, default arguments or the settings shows only with a second one.",
  ["Optimizer.py", "Controls.py", "communication/AllInOneCommunication.py", "optimizationalgorithms", "handleexit/HandleExit.py", "utils/BestDump.py",
   "stoppingcriteria/StoppingCriteria.py", "tools/randomgenerator.py", "gradientfreemethods"],
  [("construction", "Optimizer.py"), ("state of a run", "optimizationalgorithms/*.py, stoppingcriteria, gradientfreemethods"),
   ("random numbers", "tools/randomgenerator.py"), ("interrupt handler", "optimizationalgorithms/OptimizationAlgorithm.py")],
  "Bounded: 3-6 evaluations each, 18 kinds of runs alone and in pairs; figures of merit symbolic, moment of the inner run symbolic.",
  ["arguments of get_FoM", "final results", "result files"])

P("C26", "Who watches a run sees what is evaluated, and watching changes nothing",
  "The user interface gets, for every evaluation, the pulses, time grids and parameters that are given to get_FoM, in order and before the "
  "evaluation, and afterwards the figure of merit with the sign the user knows, its number and its super-iteration; the start of the run and "
  "the names of the controls are announced. A run with an interface, another dump format, without console output or log file, with "
  "microseconds in the folder name or another job name requests the same evaluations and gives the same result as one without.",
  ["inputs", "configurations", "histories"],
  "For every algorithm, direction, figures of merit, moment and way to end.",
  "No test connects an interface; signals are not looked at anywhere.",
  ["communication/AllInOneCommunication.py", "Optimizer.py", "optimizationalgorithms", "utils/BestDump.py"],
  [("signals", "communication/AllInOneCommunication.py"), ("figure of merit reported", "optimizationalgorithms/*Algorithm.py"),
   ("output settings", "Optimizer.py, communication/AllInOneCommunication.py, utils/BestDump.py")],
  "Bounded: runs of 3-6 evaluations of every algorithm, 5 output settings; figures of merit symbolic, moment of the end symbolic.",
  ["signals", "arguments of get_FoM", "final results", "files"])

P("C27", "Settings mean what the documentation says, however they are written down",
  "A documented optional setting that is left out means its documented default. Settings mean the same as Python dictionary or read from a "
  "JSON file, in any order of entries, with tuples, arrays or whole numbers for lists and floats, with further entries on the top level, "
  "with unused or reordered times, with pulse limits in either order, with algorithm, basis, distribution and search given by name, by "
  "module and class or as class, and with guess and scaling given as lambda, list or function in a Python file (absolute or relative path, "
  "with or without .py): the search is told the same, the same controls are evaluated, and result and files are the same.",
  ["inputs", "configurations"],
  "For every documented default, spelling, algorithm and basis, figures of merit and search points.",
  "Tests use one spelling each and always give every setting.",
  ["Controls.py", "Optimizer.py", "pulses", "parameters", "optimizationalgorithms", "gradientfreemethods", "stoppingcriteria", "utils/dynamicimport.py",
   "utils/inputoutput.py"],
  [("defaults", "constructors of pulses, parameters, times, algorithms, searches"), ("import by name", "utils/dynamicimport.py"),
   ("guess and scaling functions", "pulses/BasePulse.py"), ("reading settings", "utils/inputoutput.py")],
  "Bounded: runs of 4-9 evaluations, 3-5 bins (101 by default); figures of merit symbolic, search points symbolic in [-3, 3].",
  ["arguments of get_FoM", "what the search is called with", "final results", "files"])
