ALLDATA = "all right-hand sides, states, controls, parameters and horizons, for every size/degree/element count in the bounds"

prop("C01", "Collocation transcription equals the collocated DAE",
     "Solving an optimal control problem with direct collocation hands the numerical solver a constraint set whose "
     "solutions, read back as trajectories, are exactly the piecewise polynomials that start at the initial condition, "
     "are continuous across elements, and satisfy the ODE and the algebraic equations at every Radau collocation "
     "point of every element at that point's actual time. This holds for any dynamics, horizon start and end, number "
     "of elements, polynomial degree, control degree, parameters and per-element parameters.",
     ["inputs", "configurations"], ALLDATA,
     "Tests solve a handful of fixed problems numerically and look at the final cost or success flag; a wrong weight, "
     "a dropped row, or an ignored start time on another configuration does not change them.",
     ["methods/classic/collocationscheme.py", "methods/base/solutionmethodsbase.py",
      "methods/base/discretizationschemebase.py", "methods/classic/directmethod.py", "util/util.py"],
     [("discretization into an NLP", "methods/classic/collocationscheme.py"),
      ("polynomial basis and time grid", "methods/base/solutionmethodsbase.py")],
     observe=["the problem and bounds received by casadi.nlpsol", "OptimizationResult trajectories"])

prop("C02", "Multiple-shooting transcription equals the flow of the DAE",
     "Solving with multiple shooting hands the solver a constraint set whose solutions are exactly the sequences that "
     "start at the initial condition and in which every node state (and algebraic value) is what integrating the model "
     "from the previous node over that element's true time interval yields, with that element's control, parameters "
     "and per-element parameters. This holds for any dynamics, horizon, number of elements and control degree.",
     ["inputs", "configurations"], ALLDATA,
     "Tests run a few fixed numeric problems; a shifted integration interval, stale per-element parameter or missing "
     "continuity row on other configurations goes unnoticed.",
     ["methods/classic/multipleshooting.py", "methods/base/solutionmethodsbase.py", "modelling/dae_system.py"],
     [("discretization into an NLP", "methods/classic/multipleshooting.py"),
      ("integration of one interval", "modelling/dae_system.py")],
     observe=["the problem received by casadi.nlpsol", "the integrator set-up"])

prop("C03", "Every declared constraint is enforced where declared, and no other",
     "Bounds on states, algebraics, controls and optimised parameters, path equalities and inequalities at the start, "
     "end or all collocation instants of each element, terminal, initial and time-independent equalities, and limits "
     "on control moves (including the first move from the last applied control) all reach the numerical solver, each "
     "at its instants and with its own limits. The solver's feasible set contains no additional restriction.",
     ["inputs", "configurations"], "all constraint functions and values; every combination of constraint kinds in the bounds",
     "Tests check that a few constrained problems solve; a constraint imposed at one instant too few, on the wrong "
     "component, or with swapped limits only shows on a problem where it is active.",
     ["methods/classic/collocationscheme.py", "methods/classic/multipleshooting.py", "modelling/ocp.py",
      "methods/base/solutionmethodsbase.py"],
     [("constraint rows of the NLP", "methods/classic/collocationscheme.py"),
      ("constraint rows of the NLP", "methods/classic/multipleshooting.py"),
      ("constraint bookkeeping", "modelling/ocp.py")],
     observe=["the constraints and bounds received by casadi.nlpsol"])

prop("C04", "The objective is terminal cost plus integral cost plus element costs",
     "On every feasible point, the objective minimised by a direct method equals the terminal cost at the final state, "
     "plus the integral of the running cost over the horizon (in the scheme's quadrature), plus the per-element cost at "
     "the end of each element. A quadratic cost built from weights and references equals the corresponding sums of "
     "quadratic forms of the deviations.",
     ["inputs", "configurations"], "all cost functions, weights, references, trajectories",
     "Tests compare the optimal cost of a few numeric problems within a tolerance; scaling, missing elements or wrong "
     "references on other problems are invisible.",
     ["modelling/ocp.py", "methods/classic/collocationscheme.py", "methods/classic/multipleshooting.py",
      "methods/classic/directmethod.py"],
     [("cost state", "modelling/ocp.py"), ("objective assembly", "methods/classic/collocationscheme.py"),
      ("objective assembly", "methods/classic/multipleshooting.py")],
     observe=["the objective received by casadi.nlpsol"])

prop("C05", "Results and initial guesses are decoded on the true time grid",
     "An optimisation result reports, for whatever point the solver returned, each state, algebraic, control and "
     "parameter value under its own name at its own physical time: the grid starts at the problem's initial time, "
     "ends at its final time, and the accessors, first-control queries, data sets and initial guesses built from "
     "simulations, dictionaries or previous results all refer to the same instants and components.",
     ["inputs", "configurations"], "all solver answers; every scheme, size and element count in the bounds",
     "Tests plot or spot-check a few attributes; a value attributed to the neighbouring instant or variable keeps "
     "shapes and success flags intact.",
     ["methods/base/optimizationresult.py", "methods/base/solutionmethodsbase.py",
      "methods/classic/collocationscheme.py", "methods/classic/multipleshooting.py", "modelling/dataset.py"],
     [("solver answer -> trajectories", "methods/base/optimizationresult.py"),
      ("vector <-> variable split", "methods/classic/collocationscheme.py"),
      ("vector <-> variable split", "methods/classic/multipleshooting.py")],
     observe=["OptimizationResult attributes", "DataSet contents", "x0 received by the solver"])

prop("C06", "The indirect method solves the first-order optimality conditions",
     "The indirect method hands the solver exactly the optimality system of the problem: the original dynamics, the "
     "adjoint dynamics, stationarity in the algebraic variables, the control that minimises the Hamiltonian over the "
     "control limits, the initial condition, and the terminal adjoint condition from the terminal cost and terminal "
     "equalities (bounds on states and algebraics are left out, with a warning; the bound vectors the caller gave, which "
     "other problems may use too, stay as they are). The reported controls are that "
     "minimiser evaluated on the reported trajectory.",
     ["inputs", "configurations"], "all polynomial coefficients, trajectories, horizons in the bounds",
     "Tests solve one or two regulator problems; a sign or transpose error in the adjoint of an asymmetric or "
     "constrained problem does not show there.",
     ["methods/classic/indirectmethod.py", "modelling/ocp.py", "methods/base/solutionmethodsbase.py"],
     [("Hamiltonian system", "methods/classic/indirectmethod.py"),
      ("discretization", "methods/classic/collocationscheme.py")],
     observe=["the problem received by casadi.nlpsol", "OptimizationResult trajectories"])

prop("C07", "Polynomial approximation interpolates, and times convert consistently",
     "A polynomial approximation of a variable takes each of its parameter values at the corresponding point and is "
     "the unique polynomial of that degree through them, for scalar and vector variables, with or without a point at "
     "zero. Conversion between physical time and element-relative time is affine, invertible and sends each element's "
     "start and end to 0 and 1. Asking a discretised system for its values at chosen times inside an element gives the "
     "interpolating polynomial (collocation) or the integrated state (multiple shooting) at those times.",
     ["inputs", "configurations"], "all parameter values, evaluation points, horizons; every degree and size in the bounds",
     "Tests check a few shapes; an interpolation error in a higher degree or a second component is not sampled.",
     ["methods/base/solutionmethodsbase.py", "util/util.py", "methods/base/discretizationschemebase.py"],
     [("polynomial basis", "util/util.py"), ("time grid", "methods/base/solutionmethodsbase.py")],
     observe=["returned polynomials", "time grids", "unvectorised results"])

prop("C08", "The optimization problem builder sends the solver exactly what was declared",
     "For any sequence of declared variables, parameters, bounds, equalities, inequalities and relational constraints "
     "(==, <=, <, >=, >, two-sided bounds), the numerical solver receives exactly that feasible set and objective, the "
     "given initial guess, parameter values and per-call bounds, with each value at its own variable. Later "
     "declarations are included, and what is returned to the caller is what the solver returned.",
     ["inputs", "operation sequences"], "all expressions, bounds, guesses and parameter values; declaration sequences in the bounds",
     "Tests declare one or two constraints on fixed numbers; a reversed or dropped bound in another form goes unseen.",
     ["optimization/abstract_optimization_problem.py", "optimization/nonlinear_problem.py",
      "optimization/quadratic_problem.py"],
     [("constraint and variable bookkeeping", "optimization/abstract_optimization_problem.py")],
     observe=["the problem and the call received by casadi.nlpsol/qpsol"])

prop("C09", "Models declare and compose without losing or crossing equations",
     "A model built from any sequence of declarations has exactly the declared variables, in order, and each state is "
     "governed by the equation declared for it, whichever notation declared it. Including, merging and connecting "
     "models yields the union of their equations over one common time, with every connection imposed, no other "
     "equation changed, and the included models left as they were.",
     ["inputs", "operation sequences"], "all right-hand sides; declaration and composition sequences in the bounds",
     "Tests build a few concrete models; equations attached to the wrong state or a stale time symbol only show in "
     "orders not sampled.",
     ["modelling/system_model.py", "modelling/mixins/continuous_states_mixin.py", "modelling/mixins/algebraic_mixin.py",
      "modelling/mixins/control_mixin.py", "modelling/mixins/parameter_mixin.py", "modelling/utils.py",
      "modelling/dae_system.py"],
     [("equations by state", "modelling/mixins/continuous_states_mixin.py"),
      ("composition", "modelling/system_model.py")],
     observe=["model vectors and equations", "the DAE system used for integration"])

prop("C10", "Model rewriting is complete substitution, and copies are independent",
     "Replacing a variable substitutes it simultaneously in every equation and control expression and nowhere else; "
     "parametrising a control substitutes its law and exposes exactly its new parameters; removing a variable removes "
     "that variable and its own data only. A copy has the same equations as the original, a deep copy has them over "
     "entirely new symbols, and changing either of the two never changes the other.",
     ["inputs", "operation sequences"], "all equations and replacement expressions; operation sequences in the bounds",
     "Tests check one substitution on a small model; partial, sequential or aliasing substitution shows only on "
     "particular variable combinations and later edits.",
     ["modelling/system_model.py", "modelling/mixins/control_mixin.py", "modelling/mixins/continuous_states_mixin.py",
      "modelling/mixins/algebraic_mixin.py", "modelling/mixins/parameter_mixin.py", "util/util.py"],
     [("substitution", "modelling/mixins/control_mixin.py"), ("copying", "modelling/system_model.py")],
     observe=["model vectors and equations of both copies"])

prop("C11", "Simulation is the flow of the declared model over the requested intervals",
     "Simulating a model or a problem from a state over a list of times returns, at each requested time, the state and "
     "algebraic values obtained by integrating the declared equations over exactly that interval from the previous "
     "value, with that interval's control, parameters and per-interval parameters, together with the control law "
     "evaluated there; times, names, horizon and interval count match. Splitting a simulation and joining the parts "
     "gives the same trajectory; simulating changes neither the model nor the caller's arguments.",
     ["inputs", "configurations"], "all right-hand sides, states, controls, parameters and interval lists in the bounds",
     "Tests simulate one or two models from time 0 and look at shapes; a shifted interval, a stale control or a default "
     "taken from the wrong place shows only for other start times, several intervals or per-interval arguments.",
     ["modelling/system_model.py", "modelling/dae_system.py", "modelling/simulation_result.py", "modelling/ocp.py"],
     [("simulation", "modelling/system_model.py"), ("integration of one interval", "modelling/dae_system.py"),
      ("simulation of a problem", "modelling/ocp.py")],
     observe=["SimulationResult of simulate()", "integrator set-up"])

prop("C12", "Stored time series keep every sample; copies and joins are independent",
     "A data set returns, per entry, exactly the samples that were inserted, each value with its own time, whatever the "
     "form of insertion; sorting puts them in chronological order and loses, duplicates or mixes none; joining two sets "
     "yields the union of their samples in chronological order, including entries only one of them has, and leaves the "
     "joined one unchanged. A copy, a saved and reloaded set, and the table (data frame) made of a set or of a network's "
     "results hold the same samples at the same times; editing one set never changes another.",
     ["inputs", "operation sequences"], "all sample values and every order of sample times in the bounds",
     "Tests insert one ordered series; a sort that separates times from values, a lost entry or storage shared between "
     "copies needs unordered times or a later edit to show.",
     ["modelling/dataset.py", "modelling/simulation_result.py"],
     [("insert, sort, extend, copy", "modelling/dataset.py")],
     observe=["get_entry of the data sets"])

prop("C13", "Editing a problem keeps every part with its own variable",
     "Whatever sequence of operations builds an optimal control problem (including, creating and removing states, "
     "algebraics, controls and optimised parameters, adding constraints, replacing variables, parametrising controls, "
     "connecting inputs to outputs, merging problems), every bound, rate limit, initial value, guess and last control "
     "stays with its own variable; costs of merged problems add up over one common time; every constraint is kept once, "
     "with its instant of evaluation and with replaced variables replaced everywhere. The caller's model, arguments and "
     "merged-in problems are not modified, and parts of inconsistent size are refused.",
     ["inputs", "operation sequences"], "all bounds, functions and replacement expressions; edit sequences in the bounds",
     "Tests add or remove one variable on a small problem and compare one vector; a bound shifted to the neighbouring "
     "variable, a constraint left in another problem's time or a stale vector needs several variables and edits.",
     ["modelling/ocp.py", "modelling/system_model.py", "util/util.py"],
     [("problem editing", "modelling/ocp.py"), ("index search and removal", "util/util.py")],
     observe=["public attributes of OptimalControlProblem and its model"])

prop("C14", "The augmented Lagrangian solves the relaxed problem it documents",
     "For every selection of algebraic equations, path equalities and state bounds to relax, the problem handed to the "
     "inner solver is the original one with exactly those equations removed, their variables free within their own bounds "
     "and with their own guess, and the running cost increased by nu(t)'r + r'diag(mu)r/2 with the current multipliers "
     "and penalties. After a solve each multiplier grows by its own penalty times its own violation at the same time "
     "instant, penalties follow the selected rule up to their maximum, and iterations stop exactly when all violations "
     "are below the tolerance or the limit is reached. Reported multipliers and violations belong to the reported "
     "trajectory; the caller's values and options are unchanged.",
     ["inputs", "solver answers", "configurations"],
     "all functions, multipliers, penalties and solver answers, all outcomes of the tests, in the bounds",
     "Tests solve one problem relaxing everything with equal penalties; multipliers crossed between equations, a wrong "
     "instant or an early exit still converge there.",
     ["methods/augmented_lagrangian.py", "modelling/ocp.py", "util/util.py"],
     [("relaxation", "methods/augmented_lagrangian.py"), ("multiplier and penalty update", "methods/augmented_lagrangian.py")],
     observe=["problem and parameters received by the inner numerical solver", "OptimizationResult.other_data"])

prop("C15", "A network is exactly the composition of its nodes and connections",
     "The model and the problem composed from a network consist of every node's variables, equations, costs, constraints, "
     "bounds, guesses and initial values over one common time, plus one equation u = y for each connection; connected "
     "inputs become algebraic variables that keep their bounds, all other inputs stay free. This holds for chains, "
     "cycles, branching and isolated nodes and connections of several variables. Splitting connections by intermediary "
     "nodes, while connecting or afterwards, keeps every node and leaves the solutions, costs and bounds of the original "
     "variables the same. Node ids are unique, foreign variables are refused, the initial condition of each node is its "
     "part of the final state of the coupled simulation, and composing changes no node.",
     ["inputs", "configurations"], "all node functions and bounds, every topology in the bounds",
     "No test composes a network; an equation lost in a cycle, a bound left with the wrong input or a dropped node needs "
     "particular topologies.",
     ["modelling/network/network.py", "modelling/network/node.py", "modelling/ocp.py", "modelling/system_model.py"],
     [("composition", "modelling/network/network.py"), ("connecting variables", "modelling/ocp.py")],
     observe=["attributes of get_model() and get_problem()", "get_initial_condition()"])

prop("C16", "Solving uses exactly the given values; solves are independent",
     "The problem handed to the numerical solver is the one with exactly the parameters, per-element parameters, initial "
     "state and last control that were passed to solve, in whatever accepted form (vector, list, number, dictionary in any "
     "order), or with the documented defaults (the problem's current initial state and last control, zero for parameters "
     "that are all optimised); missing or mis-sized values are refused. A solve depends on nothing an earlier solve of "
     "the same method left behind, does not alter the caller's arguments, options, or earlier results, and reports the "
     "values it used.",
     ["inputs", "operation sequences", "solver answers"],
     "all argument values, solver answers and problem functions; solve histories in the bounds",
     "Tests solve once with one constant value; values taken in dictionary order, kept from the previous solve or "
     "written into the caller's vector need particular forms or a second solve to show.",
     ["methods/base/solutionmethodsbase.py", "methods/classic/collocationscheme.py", "methods/classic/multipleshooting.py",
      "optimization/abstract_optimization_problem.py"],
     [("solver arguments", "methods/base/solutionmethodsbase.py"), ("reported values", "methods/classic/collocationscheme.py")],
     observe=["problem and parameters received by the numerical solver", "OptimizationResult"])

prop("C17", "The control loop applies the optimal control to the plant it measures",
     "A simulated plant moves, per control it is given, along its model's equations by exactly one sampling time with that "
     "control (or control function) held, and reports and records its time, control and output C[x; y] there, plus the "
     "drawn noise if enabled (the output without noise is recorded beside it); measuring changes nothing and controls of the wrong size are refused. Each iteration of the "
     "model predictive controller passes the current measurement, time and control to the estimator, solves the problem "
     "started at that estimate with the last control, theta and the parameters (estimated mean and covariance in the "
     "configured places), and applies the first control of that very solution; the next solve starts from that solution (with collocation: one element later, the "
     "last repeated, times the library's factor 1.1); the given parameter vector stays as it was (the plant may use it too); "
     "fixed-control runs apply the given control, "
     "and the loop runs the requested number of iterations.",
     ["inputs", "operation sequences", "solver answers"],
     "all plant equations, states, controls and solver answers; step sequences in the bounds",
     "No test runs a plant or a control loop; a delayed measurement, a control of the previous solution or a wrong "
     "sub-interval still gives a plausible closed loop.",
     ["mpc/plant.py", "mpc/mpc.py", "estimation/ideal_estimator.py"],
     [("plant step", "mpc/plant.py"), ("control loop", "mpc/mpc.py")],
     observe=["get_measurement() and dataset of the plant", "problem and parameters received by the numerical solver"])

prop("C18", "Kalman filters return the estimate their equations define",
     "Each estimate predicts along the declared model over one sampling time from the filter's current estimate and time "
     "with the given control, parameters and theta, and corrects by the innovation (measurement minus predicted "
     "measurement) times the gain P_xy P_yy^-1, P_yy including the measurement noise. Extended filter: covariance Phi P "
     "Phi' + Gamma Q Gamma' with Phi the exponential of the augmented linearisation [A B; -D^-1 C A, -D^-1 C B] at the "
     "prediction, Gamma = [I; -D^-1 C], corrected to (I - K H) P. Unscented filter: the 2n+1 sigma points and weights for "
     "lambda = 1e-6 n, beta = 2, process noise on the states, corrected to P - K P_yy K'. Polynomial chaos filter: the "
     "same with mean and covariances from the least-squares Hermite coefficients weighted by E[psi^2]. The mean and "
     "covariance of the states are returned, recorded at the measurement's time, and start the next estimate, one "
     "sampling time later. cholupdate turns the upper factor of A into that of A + xx' or A - xx'.",
     ["inputs", "operation sequences"],
     "all means, covariances, noises, measurements, controls, parameters and flows; the listed model structures",
     "No test runs a filter; a gain, weight or covariance that is slightly wrong still gives a plausible estimate.",
     ["estimation/extended_kalman_filter.py", "estimation/unscented_kalman_filter.py", "estimation/pce_kalman_filter.py",
      "util/util.py"],
     [("EKF estimate", "estimation/extended_kalman_filter.py"), ("UKF estimate", "estimation/unscented_kalman_filter.py"),
      ("PCE estimate", "estimation/pce_kalman_filter.py"), ("matrix exponential", "util/util.py")],
     observe=["estimate(...) return value", "dataset of the filter"])

prop("C19", "The polynomial chaos conversion states the stochastic problem",
     "PCEConverter turns a stochastic problem into a deterministic one with, for each sample, a copy of the model's states, "
     "algebraics, equations and integral cost over the shared controls, certain parameters, theta and time, with the "
     "uncertain parameters at the sample and the initial state at x_0 (uncertain entries at the sample, cost at 0). The "
     "samples are mean + L eps, with L L' the block-diagonal covariance in the order the uncertainties were declared and eps "
     "the Sobol design mapped to the standard normal at which the Hermite expansions are fitted by least squares. The "
     "objective is the mean of the expansion of the cost; cost_mean, cost_var and the _mean and _var of requested "
     "expressions are c_0 and sum c_i^2 E[psi_i^2]; a chance constraint (expression, rhs, prob) is mean + "
     "sqrt(prob/(1-prob)) sqrt(max(1e-6, var)) <= rhs at the end of every element; bounds, times, guesses and the other "
     "constraints are those of the stochastic problem. Converting changes neither "
     "the stochastic problem nor an earlier conversion, and may be repeated. Sizes that do not match and distributions other than normal are "
     "refused.",
     ["inputs"],
     "all dynamics, costs, constraints, means, covariances and initial states; the listed structures",
     "No test uses the stochastic classes; wrong samples, weights or a bound of the wrong block still give a solvable problem.",
     ["stochastic/pce.py", "stochastic/util.py", "modelling/stochastic_ocp.py"],
     [("conversion", "stochastic/pce.py"), ("sampling", "stochastic/util.py"), ("uncertainty declarations", "modelling/stochastic_ocp.py")],
     observe=["problem returned by convert_socp_to_ocp_with_pce()", "sampled_parameters"])

prop("C20", "Equilibria, linearisations and vector helpers compute what they name",
     "find_equilibrium asks the root finder for a root in [x; y; u] of f, g and the additional equations at t = t_0 and "
     "tau = 0, starting from the given guess (ones by default), and returns its x, y and u parts; "
     "find_algebraic_variable likewise solves g for y at the given t, x, u, p and theta. linearize returns a model "
     "with as many states and controls whose equations are x' = A x + B u, A and B the derivatives of f at the given point; "
     "neither changes the model. expm(A) is the exponential of A. Variables are found in a vector at all their positions in "
     "the order asked for and removed without touching or reordering the others, by variable or by position (also negative, "
     "from the end); unknown variables and positions out of bounds are refused. Names select by exact match or by regular "
     "expression from the start of the name. Joining thetas concatenates their vectors element by element, skipping empty "
     "ones and refusing different lengths; a constant theta has the constant in every entry of every element.",
     ["inputs"],
     "all equations, points, matrices and entries; the listed sizes",
     "Only one or two concrete vectors are tested and neither find_equilibrium nor linearize is; a wrong residual, block or "
     "index shows for particular sizes only.",
     ["modelling/system_model.py", "util/util.py"],
     [("equilibrium and linearisation", "modelling/system_model.py"), ("vector and theta helpers", "util/util.py")],
     observe=["return values", "residual received by the root finder"])

prop("C21", "The distributed augmented Lagrangian solves the network node by node",
     "DistributedAugmentedLagrangian splits the nodes of a network into blocks, every node in exactly one and (when it "
     "chooses them) connected nodes in different ones. Each sweep solves every node once, block after block; the problem of "
     "a node is its own, with its connected inputs free within their bounds and the running cost increased by nu(t)'r + "
     "1/2 r'diag(mu)r, where r compares, at the same instant, each input with the most recent output it is connected to and "
     "each output with the most recent input that uses it (BipartiteJacobiADMM: with the average of the node's own and the "
     "neighbour's most recent values), starting from the guesses or zero; a failed solution is never used. An intermediary "
     "node takes the value that minimises its relaxed cost and passes it on. Sweeps end at the limit or when the sum of the "
     "objectives decreased by less than inner_loop_tol; then multipliers become nu + mu*r, and penalties follow the rule: "
     "constant; times beta up to mu_max; the same where the violation decreased enough; or, for primal-dual, one value for "
     "all nodes, times beta, divided by beta_decrease or kept as gamma compares primal and dual residuals. Iterations stop "
     "when every violation is below abs_tol or at the limit, and the last results, their objective and violations are "
     "returned. Solving nodes in worker processes gives the same.",
     ["inputs", "history"],
     "all dynamics, algebraic equations and costs, all points and objectives the numerical solver may return; the listed networks",
     "No test imports the distributed methods; a neighbour's value of another variable, instant or iteration still converges "
     "to something, or only slows convergence.",
     ["methods/network/distributedaugmetedlagrangian.py", "methods/network/bipartite_jacobi_admm.py",
      "methods/network/intermediary_node_solution_method.py", "methods/augmented_lagrangian.py",
      "methods/base/distributed_optimization_result.py"],
     [("sweeps, neighbour data, updates", "methods/network/distributedaugmetedlagrangian.py"),
      ("bipartite variant", "methods/network/bipartite_jacobi_admm.py"),
      ("intermediary nodes", "methods/network/intermediary_node_solution_method.py")],
     observe=["problems and parameters received by the numerical solver", "result of solve()"])
