prop("C01", "Integration ends exactly at the requested end point",
 "Every solve that reports success returns output times that start exactly at t0, move strictly monotonically towards the requested end, and finish exactly on it, with one finite state per time. This holds for either direction of integration, any interval (including one that crosses zero or whose ends differ wildly in magnitude), any solver and any step-size option. No smooth solvable problem fails or overshoots because of rounding near the end point.",
 ["inputs", "configurations"], "all solver classes, both directions, intervals of any offset/length, tolerances, first_step/max_step and controller options, on smooth problems",
 "The tests integrate a handful of fixed intervals (mostly starting at 0); whether t+h lands on the bound depends on the rounding of every interval and step sequence.",
 ALL, [("look-ahead and final-step logic", "common.py RungeKutta._reassess_stepsize, ESDIRK._reassess_stepsize"), ("step loops that set the new time", "common.py/_step_impl, bogacki.py, calvo.py, cash.py, shampine.py, sommeijer.py")],
 ["solve_ivp result t/status", "solver.t after each step()"])
prop("C02", "Global error is proportional to the requested tolerance",
 "For a smooth, well-conditioned initial value problem every solver returns, at every reported time, a state whose error against the true solution is within a modest method-dependent factor of the requested tolerance (atol + rtol*|y|, times the problem's own error amplification). This holds for systems of any size, real or complex, autonomous or not, forwards or backwards in time, with scalar or per-component atol and with every solver option.",
 ["inputs", "configurations"], "generated problems with closed-form solutions x solver x tolerance x options",
 "Tests check a few rational problems at rtol 1e-3; a wrong coefficient, scale or controller can pass those and be off elsewhere.",
 ALL, [("error estimation and acceptance", "common.py _estimate_error_norm/_step_impl"), ("tolerance scale", "common.py calculate_scale")],
 ["solve_ivp result y against exact solution"])
prop("C03", "Each formula and its error estimate converge at the documented order",
 "Halving a (fixed) step reduces the one-step error of every solver's main formula as h^(p+1) with p the documented order, on linear, nonlinear, non-autonomous and coupled problems, forwards and backwards. The quantity that decides acceptance of a step shrinks at the documented order of the embedded pair.",
 ["inputs", "configurations"], "smooth problems with known solutions x step sizes x solver",
 "Tests check some algebraic order conditions of class-level tables, not the steps that the solver takes; strict Nystrom orders, multistep and stabilised formulas and variable-order fallbacks are not covered.",
 ALL, [("Butcher/Nystrom tables and stage evaluation", "class attributes A,B,C,E; _rk_stage/_comp_sol_err"), ("multistep formula", "shampine.py _step_impl"), ("Chebyshev recursion", "sommeijer.py _stages")],
 ["solver.y after one step of given size"])
prop("C04", "A step applies the method's table, and only acceptable steps are taken",
 "For every explicit Runge-Kutta or Nystrom solver, built-in or user-defined by giving a coefficient table to the base class, each accepted step equals what the table prescribes from the previous point, whatever steps were rejected before. The embedded error estimate of every accepted step, measured in atol + rtol*max(|y_old|,|y_new|), is below one.",
 ["inputs", "histories", "configurations"], "generated tables (FSAL and non-FSAL) and built-in tables, problems that provoke rejected steps, all options",
 "Tests never compare a step with an independent evaluation of the table, and define no table of their own; state carried from rejected to accepted steps needs histories with rejections.",
 ["common.py", "bogacki.py", "calvo.py", "cash.py", "merson.py", "prince.py", "tsitouras.py", "fine.py", "murua.py", "mikkawy.py"],
 [("stage loop, FSAL handling", "common.py RungeKutta._step_impl/_rk_stage/_comp_sol_err"), ("Nystrom stage loop", "common.py RungeKuttaNystrom"), ("early rejection", "bogacki.py, calvo.py")],
 ["solver.t, solver.y step by step"])
prop("C05", "Dense output agrees with the computed points and joins continuously",
 "The continuous solution of each step reproduces the step's start and end states, joins the neighbouring step's with the continuity documented for the interpolant (value, and where documented the derivative), and gives the same values for scalar, array, reordered or repeated times. It stays unchanged after the solver has moved on, and requesting it (or t_eval output) does not alter the steps that the solver takes.",
 ["inputs", "histories", "configurations"], "every solver and interpolant option, both directions, histories mixing steps, rejections, end-point handling and dense-output requests",
 "Tests check one problem per method at mesh points; aliasing of work arrays and final/extrapolated steps need histories.",
 ALL, [("interpolants", "common.py HornerDenseOutput, CubicDenseOutput, HornerDenseOutputNystrom, QuinticHermiteDenseOutput; hosea.py PiecewiseCubicDenseOutput; shampine.py SwagDenseOutput"), ("_dense_output_impl", "all solver modules")],
 ["solver.dense_output()", "solve_ivp(dense_output=True).sol", "t_eval"])
prop("C06", "Interpolants are accurate between the computed points",
 "Between output points the continuous solution of every solver and every interpolant option approximates the true solution with the documented interpolation order: within a step the error shrinks with the step size at that order, and over a whole solve it stays within a modest factor of the tolerance-level error.",
 ["inputs", "configurations"], "smooth problems x step sizes x positions within the step x interpolant option",
 "Only default interpolants are sampled on a fixed problem; the other BS5, Fi5N, Mu5Nmb and KC/Kv options are untested or tested at class level only.",
 ALL, [("interpolation tables P, Pp, extra stages", "class attributes and _dense_output_impl")], ["dense_output()(t)"])
prop("C07", "Results do not depend on where in time or in which direction one integrates",
 "Shifting the time axis of a problem, or reflecting it (integrating fun_r(t,y) = -fun(-t,y) over the mirrored interval), yields the shifted or mirrored steps and states, up to rounding. Stretching time and right-hand side by a power of two (with step options stretched too) likewise only stretches the result.",
 ["inputs", "configurations"], "all solvers and options on generated problems",
 "A metamorphic relation over all problems; tests run backward integration on one or two problems and only check accuracy loosely.",
 ALL, [("use of direction and signed h", "_step_impl, h_start, _init_step_size, stiffness detection")], ["solver.t, solver.y sequence"])
prop("C08", "Results respect the symmetries of the system of equations",
 "Permuting the components of a problem (with atol, Jacobian and mass matrix permuted alike) permutes the result; scaling the states and atol by a power of two scales it; appending identical copies of the system (for a complex problem also copies multiplied by complex numbers of modulus 1, where the system has that symmetry) reproduces the same steps for every copy; all up to rounding (and Newton tolerance), for a given first step.",
 ["inputs", "configurations"], "all solvers and options on generated systems",
 "A metamorphic relation over all problems; tests use fixed small systems with scalar atol.",
 ALL, [("norms and scales", "common.py norm, calculate_scale"), ("vector work arrays", "all solver modules")], ["solver.t, solver.y sequence"])
prop("C09", "Solves are deterministic, isolated and leave their inputs alone",
 "A solve gives bit-identical results no matter how many solvers were created or stepped before it or in between its own steps, in any interleaving and with any options. No solver modifies the user's arrays (initial state, tolerances, Jacobian, mass matrix, arrays returned by the user's functions), the returned points keep their values afterwards, and the classes' own coefficient tables never change.",
 ["histories", "schedules", "inputs"], "histories that create, step and interleave several solvers of several classes, with caller-owned arrays watched",
 "Tests run each solve in isolation and never compare a repeated solve; shared class-level state needs histories.",
 ALL, [("per-instance state set-up", "__init__ of every solver"), ("global counters", "common.py NFS, NFI, NLS")], ["class attributes, caller's arrays, solver.t/y"],
 [("class-level tables", "must be read-only at run time", "A, B, C, E, P of each class")])
prop("C10", "Step-size limits given by the user are honoured",
 "No accepted step is longer than max_step (beyond rounding), in any solver, direction or phase of the solve. A given first_step is the first step attempted: the first accepted step is never longer than it (except that SSV2stab and the implicit solvers stretch a step that almost reaches the end of the interval to it, by up to 10 % and 1 %), and equals it when that attempt is accepted and is not limited by max_step or the end of the interval (CKdisc may also accept the first 1/5 or 3/5 of it).",
 ["inputs", "configurations"], "max_step and first_step of any size relative to interval and natural step, all solvers",
 "Tests check only that invalid values are rejected (and one max_step run); end-point and restart logic can exceed the limit on particular intervals.",
 ALL, [("step limiting", "_reassess_stepsize in common.py; shampine.py/_step_impl; sommeijer.py/_step_impl")], ["differences of solver.t"])
prop("C11", "Equivalent ways of stating a problem give the same result",
 "Right-hand sides returning list, tuple or array, vectorized or not, initial states as list, integer or float array, scalar atol versus equal vector atol, args versus closure, and sparse, dense or list Jacobians describe the same problem and give the same solution. A real problem posed with complex dtype gives the real solution with zero imaginary part, and a complex problem agrees with its real-imaginary split.",
 ["inputs", "configurations"], "all solvers and option combinations on generated problems and their equivalent statements",
 "Tests use one representation per problem; combinations with Nystrom, mass matrix, stiffness detection and complex data are not covered.",
 ALL, [("function wrapping and validation", "__init__ of solver base classes"), ("complex handling", "common.py norm, calculate_scale, stiff_a, h_start")], ["solve_ivp results of two statements"])
prop("C12", "Impossible problems end with an honest failure",
 "When a solution blows up, or the right-hand side returns nan or inf, before the end is reached, the solve ends after a bounded number of evaluations with a failure status and a message; it does not hang or report success (an implicit solver may instead raise the error of its linear algebra when the right-hand side is not finite). All points returned up to then are finite, monotone in time and, for a blow-up, accurate until close to the singular time.",
 ["inputs", "fault_sequences", "configurations"], "blow-up problems, right-hand sides that become nan/inf at a generated time or call or region, all solvers",
 "Tests have no failing problem apart from a tolerance warning; the outcome depends on where in a step the fault appears.",
 ALL, [("overflow checks and too-small-step checks", "_step_impl of every solver"), ("Newton failure handling", "common.py ESDIRK._solve_implicit_stage")], ["solve_ivp status/message/t/y"])
prop("C13", "Reported work counters tell the truth",
 "The reported number of right-hand-side evaluations equals the actual number of calls made (apart from those not counted by convention: for numerical Jacobians, spectral-radius estimates and the initialisation of implicit solvers), the reported Jacobian evaluations equal actual Jacobian calls, and the package's counters describe the most recent solve only: of failed steps for every solver, of failed iterations and linear solves for the implicit solvers.",
 ["inputs", "histories", "configurations"], "all solvers and options, consecutive solves, with instrumented user functions",
 "Tests never instrument the user functions; counters shared between solves need histories.",
 ALL, [("counters", "common.py NFS/NFI/NLS; ESDIRK njev/nlu; sommeijer.py nfesig")], ["solve_ivp nfev/njev/nlu; extensisq.NFS/NFI/NLS"])
prop("C14", "Stiffness detection only observes, and diagnoses correctly",
 "Turning stiffness detection on, off or changing its frequency (any non-negative value) never changes the steps or states of a solve and never makes it fail, for real or complex problems and any representation of the right-hand side. Explicit Runge-Kutta and Nystrom solvers with detection warn when a problem's steps are limited by a stiff real dominant eigenvalue over many evaluations, and stay silent on smooth non-stiff problems. SWAG warns when it stays at orders up to 4 on a stiff problem although k_max allows more, and never with k_max <= 4 or on smooth problems at tight tolerances.",
 ["inputs", "configurations"], "all explicit solvers with detection x nfev_stiff_detect x problems with known spectrum",
 "Tests check one stiff problem per method with one frequency; the detector runs user code at extra points, so its effect depends on the problem's form.",
 ["common.py", "bogacki.py", "calvo.py", "fine.py", "murua.py", "mikkawy.py", "shampine.py"],
 [("_diagnose_stiffness", "common.py RungeKutta/RungeKuttaNystrom"), ("power iteration", "common.py stiff_a..stiff_d")], ["warnings, solver.t/y"])
prop("C15", "Implicit solvers give the same answer however the Jacobian is supplied",
 "For a well-posed problem the implicit solvers reach the same solution (to tolerance level) whether the Jacobian is analytic, dense, sparse, estimated numerically with or without a sparsity pattern or vectorized evaluation, refreshed each step or not, or, for a linear problem, given as a constant matrix. A moderately wrong callable Jacobian may cost work but never changes what is converged to. Jacobians are evaluated at points of the solution only, and with jac_each_step at every one of them.",
 ["inputs", "configurations"], "generated stiff and non-stiff nonlinear and linear problems x Jacobian forms x refresh policy",
 "Tests use one problem with a few forms; Newton convergence control and Jacobian reuse depend on the history of steps.",
 ["common.py", "hosea.py", "kennedy.py", "kvaerno.py"], [("Jacobian handling, LU reuse, Newton control", "common.py ESDIRK._validate_jac/_preemptive_lu_and_jac/_solve_implicit_stage")], ["solve_ivp results"])
prop("C16", "Implicit solvers stay stable, accurate and cheap on stiff problems",
 "On linearly or nonlinearly stiff problems with smooth solutions the implicit solvers follow the smooth solution to tolerance level with a number of steps that does not grow with the stiffness, and without stiffness warnings or failures. For a decaying mode the L-stable solvers damp it completely for huge steps and no solver amplifies it.",
 ["inputs", "configurations"], "stiffness ratios over many orders of magnitude x problems x solvers x Jacobian forms",
 "Tests solve one Robertson problem and a mild singular perturbation; independence of stiffness is a statement over all ratios.",
 ["common.py", "hosea.py", "kennedy.py", "kvaerno.py"], [("ESDIRK tables, stage prediction, error filter", "class attributes A, Az, E; ESDIRK._step_impl")], ["solve_ivp results, number of steps"])
prop("C17", "A regular mass matrix is equivalent to the explicit form of the problem",
 "Solving M y' = f(t,y) with an invertible constant M gives, to tolerance level, the same solution as solving y' = M^-1 f(t,y), and the form of M (1-d diagonal, dense, sparse, list) does not matter. An identity M changes nothing, and derivatives used for the first step and interpolation are those of y.",
 ["inputs", "configurations"], "generated M (diagonal, full, sparse, badly scaled), problems, Jacobian forms, solvers",
 "Tests use singular diagonal M and one transformed problem.",
 ["common.py", "hosea.py", "kennedy.py", "kvaerno.py"], [("mass-matrix handling", "common.py ESDIRK._handle_M, __init__, _solve_implicit_stage")], ["solve_ivp results"])
prop("C18", "Index-1 DAEs are solved on the constraint manifold",
 "For M y' = f(t,y) with singular constant M and index 1, in semi-explicit or mixed form, the solution satisfies the algebraic constraints to tolerance level at every returned point after the start and follows the true solution to tolerance level. Inconsistent algebraic starting values are replaced by consistent ones, leaving the differential part unchanged and warning the user; problems of index above 1 are rejected with an error.",
 ["inputs", "configurations"], "generated index-1 DAEs with known solutions, transformed by generated regular matrices, M and Jacobian forms; generated higher-index DAEs",
 "Tests use one DAE (Kaps) and fixed transformations.",
 ["common.py", "hosea.py", "kennedy.py", "kvaerno.py"], [("DAE detection, consistent initial values", "common.py ESDIRK._handle_M, _consistent_ICs"), ("row scaling of algebraic equations", "common.py ESDIRK._step_impl")], ["solve_ivp results, constraint residual"])
prop("C19", "The stabilised solver integrates mildly stiff problems stably at any scale",
 "SSV2stab solves semi-discretised parabolic and other problems with (near) real negative spectrum of any size stably and to tolerance level, with far fewer evaluations than a step-size limited explicit method needs, using a number of evaluations that grows like the square root of the current spectral radius, also when it changes during the solve. Supplying the spectral radius or declaring a constant Jacobian leaves the accuracy unchanged.",
 ["inputs", "configurations"], "generated diffusion problems, spectral radii, forcing, options const_jac and rho_jac",
 "SSV2stab is exercised on one small rational problem in tests; its number of stages there is minimal.",
 ["sommeijer.py"], [("stage number choice, Chebyshev recursion, spectral radius estimation", "sommeijer.py _step_impl/_stages/_rho")], ["solve_ivp results, nfev"])
prop("C20", "The multistep solver is reliable for every maximum order",
 "SWAG meets the tolerance for every allowed k_max, uses no more work with a higher k_max than a low-order run needs on smooth problems at tight tolerance, keeps its accuracy through step-size changes, failures and restarts of the order, and at tolerances close to the limits of the arithmetic either meets them up to rounding or fails with a message.",
 ["inputs", "histories", "configurations"], "k_max 1..12 x tolerances x problems with varying time scales, max_step and first_step",
 "Tests run the default order on a smooth problem; order/step change histories depend on the problem.",
 ["shampine.py"], [("variable order/step Adams PECE", "shampine.py _step_impl"), ("interpolant", "shampine.py SwagDenseOutput")], ["solve_ivp results"])
prop("C21", "Nystrom solvers agree with first-order solvers and reject misuse",
 "On any second-order problem (velocity dependent or not) in the documented [x, v] form the Nystrom solvers give positions and velocities that agree with those of the first-order solvers to tolerance level. A right-hand side that is not of that form, an odd number of states, or a velocity-dependent problem for the strict method (as far as it shows in the right-hand side at the initial state and for slightly different velocities) is rejected with an error, and a valid problem never is.",
 ["inputs", "configurations"], "generated second-order systems, including special initial values (v = x, v = 0), and generated invalid ones",
 "Tests check two problems and one misuse per method.",
 ["common.py", "fine.py", "murua.py", "mikkawy.py"], [("structure check", "common.py RungeKuttaNystrom.__init__"), ("Nystrom stages", "common.py RungeKuttaNystrom._rk_stage/_comp_sol_err")], ["constructor outcome, solve_ivp results"])
prop("C22", "Non-smooth right-hand sides are integrated to tolerance",
 "On problems whose right-hand side has jumps or kinks at generated times or states every solver still finishes with an error of tolerance level, and the variable-order solver for non-smooth problems does so also when it falls back to low-order sub-steps, whose accepted solutions and interpolants are accurate too.",
 ["inputs", "histories", "configurations"], "piecewise-defined problems with known solutions x positions of the discontinuities x solvers",
 "Tests contain no discontinuous problem.",
 ["common.py", "cash.py", "bogacki.py", "calvo.py", "shampine.py", "sommeijer.py", "hosea.py", "kennedy.py", "kvaerno.py"], [("fallback solutions", "cash.py CKdisc._step_impl"), ("step rejection", "all _step_impl")], ["solve_ivp results"])
prop("C23", "Forward sensitivities equal the derivatives of the solution",
 "The forward sensitivity routine returns dy/dp of the solution at the end point (and along the solution) to tolerance level, and the solution itself, for any number of states and parameters, parameters of any sign or zero, parameter-dependent initial states, scalar or per-component atol, either direction, every first-order solver class and solver name, and with or without the approximate Jacobian.",
 ["inputs", "configurations"], "generated parametrised problems with closed-form sensitivities x methods x options",
 "Tests check one problem with the default method.",
 ["sensitivity.py"], [("combined variational system", "sensitivity.py sens_forward")], ["returned arrays"])
prop("C24", "Adjoint end-point sensitivities equal the derivatives of g at the end",
 "The adjoint routine for a function g(t_f, y(t_f), p) returns its gradient to p (through dynamics, initial state and g itself) and its value to tolerance level, agreeing with the forward sensitivities, for every first-order solver, either direction, and also when a precomputed dense solution is supplied.",
 ["inputs", "configurations"], "generated parametrised problems and functions g x methods x options",
 "Tests check one problem with the default method.",
 ["sensitivity.py"], [("backward adjoint system", "sensitivity.py sens_adjoint_end")], ["returned arrays"])
prop("C25", "Adjoint integral sensitivities equal the derivatives of the integral",
 "The adjoint routine for the integral of g(t, y, p) over the interval returns the integral and its gradient to p to tolerance level (each with its element of atol_quad, the integral with the smallest), agreeing with integrating the augmented forward system, for every first-order solver, either direction, and also when a precomputed dense solution is supplied.",
 ["inputs", "configurations"], "generated parametrised problems and integrands g x methods x options",
 "Tests check one problem with the default method.",
 ["sensitivity.py"], [("backward adjoint and quadrature system", "sensitivity.py sens_adjoint_int")], ["returned arrays"])
prop("C26", "Invalid arguments are rejected, valid ones accepted and respected",
 "Documented invalid arguments (negative or wrongly shaped tolerances, non-float rtol, non-positive max_step or first_step, first_step beyond the interval, unknown interpolant, controller or k_max, malformed Jacobian, mass matrix or spectral radius function, complex data where unsupported) raise ValueError, TypeError or AssertionError at construction. Every documented valid value is accepted, and unknown options only warn.",
 ["inputs", "configurations"], "generated valid and invalid values of every documented option of every solver class and sensitivity routine",
 "Tests sample a few invalid values for some classes.",
 ALL + ["sensitivity.py"], [("argument validation", "common.py validate_tol, _init_sc_control, _init_stiffness_detection, _validate_jac, _handle_M; constructors")], ["constructor outcome"])
prop("C27", "The step-size controller obeys its parameters",
 "Next step sizes follow the documented control law: with controller parameters (kb1, kb2, a, g) the proposed step after an accepted step is h * g^(kb1+kb2) * (h/h_old)^-a * (err^-kb1 * err_old^-kb2)^k, limited in growth and reduction; the standard law (1, 0, 0, g) applies at the start and may apply after a failed attempt or a step limited otherwise, and no step is increased straight after a failed attempt. The exponent is k = 1/(q+1) with q the lower of the orders of solution and embedded formula. Named controllers equal their documented parameter tuples, and every solver that documents the option passes it on.",
 ["inputs", "histories", "configurations"], "explicit and implicit solvers with generated controller parameters, step histories compared with errors measured by probe solves",
 "Tests never look at step sizes.",
 ["common.py", "bogacki.py", "calvo.py", "fine.py", "murua.py", "mikkawy.py", "hosea.py", "kennedy.py", "kvaerno.py"], [("controller", "common.py _init_sc_control, _step_impl, ESDIRK._assess_error_and_stepsize")], ["differences of solver.t"])
prop("C28", "Events and requested output times are located on the true solution",
 "With any solver, events found through solve_ivp lie where the event function of the true solution changes sign, to tolerance level, none is missed or invented for well-separated crossings, terminal events stop the solve there, and values at requested output times equal the continuous solution at those times and the true solution to tolerance level.",
 ["inputs", "configurations"], "event thresholds/directions and output grids x problems x solvers x interpolants",
 "Tests have no events with most methods.",
 ALL, [("dense output and OdeSolver protocol (t_old, t, y, status)", "all solver modules")], ["solve_ivp t_events/y_events/y"])
prop("C29", "The automatic first step is sensible",
 "Without first_step, every solver starts with a step that is positive, not longer than the interval or max_step and accurate enough that it is accepted with at most a few reductions, not orders of magnitude shorter than the steps that follow on well-scaled problems, independent of the unit of time and the order of the components, found with a handful of evaluations, for problems of any time scale and state scale, real or complex, at zero or non-zero start time, and also when the end of the interval is far away or infinite.",
 ["inputs", "configurations"], "problem time scale x state scale x tolerance x start x solver",
 "Tests evaluate the initial step on one or two problems.",
 ["common.py", "shampine.py", "sommeijer.py"], [("h_start", "common.py h_start"), ("own first-step rule", "sommeijer.py _init_step_size")], ["first accepted step, calls before it"])
prop("C30", "The user's functions are only evaluated inside the interval",
 "Right-hand side, Jacobian and event/auxiliary functions are never called at a time outside the closed integration interval (beyond rounding), in either direction, by steps, initial step selection, stiffness detection, Jacobian estimation, interpolation or the sensitivity routines (KC4I, one of whose stages lies at 1.04 times the step, may exceed the end by that much); stages and interpolation never look back before the start of their step.",
 ["inputs", "configurations"], "all solvers and options, both directions, with instrumented user functions",
 "Tests never record the times of calls; a problem that is undefined outside the interval shows the difference.",
 ALL, [("stage times C in [0,1]", "class attributes C"), ("sampling in step-size selection", "common.py h_start, sommeijer.py _init_step_size")], ["times passed to user functions"])
prop("C31", "Work grows with the tolerance as the order predicts",
 "On smooth problems every solver needs a number of evaluations that stays within a modest factor of what its order predicts: tightening the tolerance by a factor r multiplies the work by about r^(1/order), only a small fraction of attempted steps is rejected, and steps do not stagnate at needlessly small sizes: after a short event that forces small steps they return to their former size.",
 ["inputs", "configurations"], "smooth problems x pairs of tolerances x solvers x controllers",
 "Tests do not look at the amount of work.",
 ALL, [("step-size control", "_step_impl of every solver")], ["nfev, number of steps, NFS"])
