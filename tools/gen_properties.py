"""Writes /verif/properties.jsonl (run by hand after editing the list below)."""
import json, os
F = lambda *n: ["extensisq/%s.py" % x for x in n]
ALLRK = F("common", "bogacki", "cash", "calvo", "tsitouras", "merson", "prince", "fine", "murua", "mikkawy", "hosea", "kennedy", "kvaerno", "sommeijer")
P = []
def prop(id, title, statement, over, qtext, why, files, mech, state=(), observe=()):
    assert len(title) <= 80, title
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=qtext), why_tests_cant=why,
        anchors=dict(files=files, state=[dict(name=n, meaning=m, where=w) for n, m, w in state],
                     mechanism=[dict(name=n, where=w) for n, w in mech],
                     observe_at=list(observe), hook_needed=None)))

prop("C01", "Every one-step method attains its documented order of accuracy",
 "For every smooth right-hand side (any system size, time-dependent or not, second-order systems for the Nystrom methods) one accepted step of length h from exact data agrees with the exact solution through the power h^p, where p is the documented order of the method. This includes the reduced-order fallback solutions of the variable-order Cash-Karp method and the stabilised method for every stage count it may choose.",
 ["inputs", "programs"], "all right-hand sides of the generic rooted-tree family (every rooted tree up to the order, arbitrary coefficients, leaves in y or t), all h in (0,1], both directions, all start times",
 "The tests sum a few order conditions of tableau attributes up to order 7 and integrate a handful of problems; orders 8 and 9, the stage evaluation times, the fallbacks and what the stepping code does with the tableau are only sampled.",
 ALLRK, [("stage recursion and update", "RungeKutta._rk_stage/_comp_sol_err, RungeKuttaNystrom, ESDIRK._step_impl, BS5/CFMR7osc/CKdisc._step_impl, SSV2stab._stages"), ("tableau coefficients", "A, Ap, B, Bp, C, d class attributes")],
 observe=["solver.t, solver.y after solver.step()"])

prop("C02", "The error estimate has the embedded order and detects what it should",
 "A step whose local error consists only of terms of order above the documented secondary order's reach is not charged: the error estimate vanishes for every right-hand side up to the order of the embedded pair, and it does not vanish for the generic right-hand side one order higher. So tolerance failures are triggered by true local error and by nothing else.",
 ["inputs", "programs"], "all right-hand sides of the rooted-tree family with arbitrary coefficients up to the embedded order, all h in (0,1]",
 "Tests compare single numbers for selected methods; a wrong error weight still integrates all test problems.",
 ALLRK, [("error weights", "E, Ep, E_pre, E_fallback, E_assess class attributes"), ("error evaluation", "_estimate_error, _estimate_error_norm_pre, _comp_sol_err_tol, SSV2stab._step_impl")],
 observe=["accept/reject decision of solver.step()"])

prop("C03", "Dense output joins the accepted points (and slopes, where smooth)",
 "The interpolant returned for a step equals the old solution at the old time and the new solution at the new time, whatever the right-hand side returned and whatever the step length; for the interpolants that are documented as once (or twice) continuously differentiable its derivative at both ends equals the right-hand side there. It covers exactly the interval of the step.",
 ["inputs", "programs"], "all derivative values returned by the right-hand side at every stage, all start values, step lengths and directions, every documented interpolant option",
 "Tests evaluate continuity for a few trajectories with loose tolerances, and one test re-checks the default instead of the selected interpolant.",
 F("common", "bogacki", "calvo", "cash", "prince", "tsitouras", "merson", "fine", "murua", "mikkawy", "hosea", "kennedy", "kvaerno", "shampine", "sommeijer"),
 [("interpolation polynomials", "HornerDenseOutput, CubicDenseOutput, HornerDenseOutputNystrom, QuinticHermiteDenseOutput, PiecewiseCubicDenseOutput, SwagDenseOutput"), ("coefficients", "P, Pp, Plow, Pbest, P0, P1, P2, P3")],
 observe=["solver.dense_output()"])

prop("C04", "Dense output has its documented order everywhere inside the step",
 "For every smooth right-hand side the interpolant at any point of the step agrees with the exact solution through the documented order of that interpolant, uniformly over the step.",
 ["inputs", "programs"], "all right-hand sides of the rooted-tree family up to the interpolant's order with arbitrary coefficients, all theta in [0,1], all h in (0,1]",
 "Tests look at the interpolation error at sample points of a few problems; an error in one coefficient that keeps the end points is not noticed.",
 F("common", "bogacki", "calvo", "cash", "prince", "tsitouras", "merson", "fine", "murua", "mikkawy", "hosea", "kennedy", "kvaerno", "sommeijer"),
 [("extra stages and interpolation weights", "_dense_output_impl of each solver; P, C_extra, A_extra and variants")],
 observe=["solver.dense_output()(t)"])

prop("C05", "A step is accepted only if its error estimate is within tolerance",
 "Whenever a step is accepted, the root-mean-square over the components of (error estimate / (atol_i + rtol*max(|y_i| before, |y_i| after))) is below one, with the user's rtol and scalar or per-component atol. This holds after any number of rejections and for the fallback solutions.",
 ["inputs", "histories"], "all right-hand side values, states, tolerances (scalar and vector), step sizes, with any accept/reject history within the explored number of trials",
 "Tests only observe the global error of some problems; a weaker acceptance test passes them.",
 F("common", "bogacki", "calvo", "cash", "shampine", "sommeijer"),
 [("error norm and scale", "calculate_scale, norm, _comp_sol_err"), ("acceptance test", "_step_impl of RungeKutta, BS5, CFMR7osc, CKdisc, ESDIRK, SWAG, SSV2stab")],
 observe=["solver.step() advancing t, y"])

prop("C06", "Steps are monotone, stay inside the interval and respect max_step",
 "Every successful step moves strictly towards the end time, never beyond it, by at most the user's maximum step; when the remaining distance is small enough the step ends exactly on the end time and the solver reports that it is finished. This holds in both directions, also for a user-supplied first step.",
 ["inputs", "histories"], "all start/end times, both directions, first steps, maximum steps, tolerances, states and right-hand side values, from the first step and from arbitrary later step-size proposals",
 "Tests integrate forward and backward on some fixed intervals; max_step is tested with few values.",
 F("common", "bogacki", "calvo", "cash", "shampine", "sommeijer"),
 [("end-of-interval handling", "_reassess_stepsize, SWAG._step_impl, SSV2stab._step_impl"), ("max_step", "constructors and _reassess_stepsize")],
 observe=["solver.t, solver.status, solver.step_size"])

prop("C07", "The end time is hit exactly in floating point",
 "For all double-precision start and end times the last step ends on exactly the end time: the solver never reports a time beyond it, and never stops a rounding error short of it and then fails because the rest is too small to step over.",
 ["inputs"], "all IEEE double start/end times and step proposals within the stated magnitudes, both directions, decided in the solver's floating-point theory",
 "Needs particular pairs of doubles; tests use round numbers for which t + (t_end - t) happens to be exact.",
 F("common", "bogacki", "calvo", "cash", "shampine", "sommeijer"),
 [("t_new", "_step_impl of every solver")], observe=["solver.t, solver.status"])

prop("C08", "Rejected trials shrink, and failure is reported rather than looping",
 "Within one step call every rejected trial is followed by a strictly smaller step (by at least the factor implied by the safety factor) or by a reported failure, so that a step call always ends; a right-hand side that returns nan or infinity leads to a smaller step or to a reported failure and never to an accepted state containing nan. A failed call leaves time and state as they were.",
 ["inputs", "histories", "fault_sequences"], "all right-hand side values including nan and infinity injected at any evaluation, all tolerances and states, any rejection history within the explored number of trials",
 "Tests inject nan in one method at one place; endless loops need special times such as t=0.",
 F("common", "bogacki", "calvo", "cash", "shampine", "sommeijer"),
 [("rejection branches and minimum step", "_step_impl of every solver")], observe=["solver.step() result, solver.status"])

prop("C09", "The right-hand side is only evaluated inside the requested interval",
 "Constructing a solver, stepping it and creating dense output evaluate the right-hand side only at times between the start time and the end time (and, during a step, between the current time and the trial end point), for integration in either direction. One exception: the published tableau of KC4I has a stage at 1.04 of the step, which may lie that fraction beyond the end of the step.",
 ["inputs", "histories"], "all intervals, directions, first steps, maximum steps, tolerances, right-hand side values",
 "Test problems are defined for all times, so an evaluation outside the interval is invisible to them.",
 F("common", "bogacki", "calvo", "cash", "fine", "murua", "shampine", "sommeijer", "kennedy"),
 [("stage times", "C, C_extra attributes and _rk_stage"), ("starting step size", "h_start, SSV2stab._init_step_size")], observe=["t argument of fun"])

prop("C10", "The automatic first step is non-zero, points to the end, and fits",
 "The automatically selected first step has the direction of integration, is never zero and is not longer than the distance to the end time or the maximum step (apart from the rounding floor), for every right-hand side, state and tolerance; it is not larger than the inverse of the sampled Lipschitz estimate (of the reduced problem, for differential-algebraic problems with a given Jacobian).",
 ["inputs"], "all start/end times, states, derivative values returned while probing, tolerances",
 "A few fixed problems are tested.",
 F("common", "shampine", "sommeijer"), [("h_start", "common.h_start"), ("stabilised method", "SSV2stab._init_step_size")], observe=["first trial step"])

prop("C11", "Solver instances are independent and repeatable",
 "Integrating a problem gives the same steps and values whatever other solvers of the library were created or run before or in between (same or other class, any options); creating a solver never changes the method coefficients of the library, nor arrays passed in by the user.",
 ["histories", "configurations"], "all pairs of construction/step histories within the bound, with arbitrary right-hand side values and tolerances",
 "Each test makes a fresh solver and checks loose tolerances; drift through shared arrays is not noticed.",
 ALLRK + F("shampine"), [("class attributes and constructors", "every solver class"), ("constructor scaling", "Mu5Nmb.__init__")],
 state=[("class coefficient arrays", "shared between all instances", "class bodies")], observe=["steps, y and acceptance of a second solver"])

prop("C12", "Dense output is a pure observation and stays valid",
 "Asking for dense output after a step does not change the steps, states or acceptance decisions that follow (except for the one interpolant that is documented to move the end point), and an interpolant obtained earlier keeps giving the same values after later steps.",
 ["histories", "inputs"], "all right-hand side functions (uninterpreted), states, step sizes; histories of up to two or three steps with and without dense output in between",
 "Tests never compare a run with and a run without dense output, nor re-evaluate old interpolants.",
 F("common", "bogacki", "fine", "murua", "shampine", "sommeijer", "hosea", "kennedy", "prince"),
 [("storage shared with the stepping code", "K_extended, phi, W, K"), ("copies in the interpolants", "DenseOutput classes")], observe=["solver trajectory; old interpolants"])

prop("C13", "Implicit methods solve the stage equations and honour the mass matrix",
 "For linear problems M y' = J y + g(t) with a constant Jacobian the accepted step satisfies the Runge-Kutta equations of the method exactly, for every regular mass matrix given as vector or matrix and for both directions; for a singular mass matrix the algebraic constraints hold at the end of the step. The step taken is the same whether the Jacobian is given as a dense or a sparse array.",
 ["inputs", "configurations"], "all 1- and 2-dimensional J, M, g(t) values, y0 and h within the bounds, every implicit method",
 "Tests use particular matrices and compare end results with loose tolerances.",
 F("common", "hosea", "kennedy", "kvaerno"), [("stage solve", "ESDIRK._solve_implicit_stage, _step_impl, _handle_M, _consistent_ICs")], observe=["solver.y after a step"])

prop("C14", "Implicit methods have their documented A- or L-stability",
 "On y' = lambda*y with any lambda in the closed left half plane one step of an implicit method does not increase |y|, for every step length; for the methods documented as L-stable the amplification tends to zero in the stiff limit.",
 ["inputs"], "all complex z = h*lambda with non-positive real part (via the boundary: all real frequencies), all h",
 "Tests evaluate a few tableau numbers; A-stability is a statement about every z.",
 F("common", "hosea", "kennedy", "kvaerno"), [("tableaux", "A, B, d"), ("step", "ESDIRK._step_impl")], observe=["solver.y after a step on a linear problem"])

prop("C15", "The stabilised method always takes enough stages to be stable",
 "For every step the stabilised explicit method chooses, given a spectral-radius bound, the number of stages is sufficient: on y' = lambda*y with lambda anywhere between minus the bound and zero the step does not increase |y|. Without a bound of the user, the estimate used instead is not below the spectral radius for scalar linear problems, also when these (or a linear system) are at rest.",
 ["inputs"], "all spectral radius bounds, step sizes and lambda in the interval, for every stage count up to the bound",
 "Tests run one diffusion-like problem.",
 F("sommeijer"), [("stage count and recursion", "SSV2stab._step_impl, _stages, _rho")], observe=["solver.y after a step"])

prop("C16", "Sensitivity analysis integrates the right equations and assembles them",
 "Forward sensitivity integrates the state together with dS/dt = (df/dy) S + df/dp per parameter, with the documented tolerances, and returns S and y at the end time; adjoint sensitivity returns the quantity that satisfies the duality identity with the forward sensitivity, for point and integral objectives, and the integral itself.",
 ["inputs", "programs"], "all Jacobians, parameter derivatives, objective derivatives (arbitrary values, dimensions up to 2 states and 2 parameters), all y, p, dy0/dp",
 "Tests use two or three problems with loose tolerances; transposition or sign errors that cancel for the chosen problem go unseen.",
 F("sensitivity"), [("combined right-hand sides", "sens_forward.total_fun, sens_adjoint_*.fun_bw"), ("assembly", "end of each function")], observe=["returned sensitivities"])

prop("C17", "Integration is equivariant under time reversal and time shift",
 "Mirroring a problem in time (right-hand side negated, end time reflected) produces the mirrored steps, the same states and the same accept/reject decisions; shifting an autonomous problem in time produces shifted steps (apart from the rounding floors).",
 ["inputs", "histories"], "all right-hand side values (as uninterpreted function), states, tolerances, first steps, interval lengths; one to two steps including rejections",
 "Backward integration is tested on a few problems only for its end result.",
 F("common", "bogacki", "calvo", "cash", "shampine", "sommeijer", "hosea"), [("direction handling", "_step_impl, _reassess_stepsize, h_start, _dense_output_impl")], observe=["solver.t, solver.y, dense output"])

prop("C18", "The Adams method is exact for the polynomials its order promises",
 "With the variable-step variable-order Adams method at order k, if the derivative history lies on a polynomial of degree below k the predicted and corrected solution are exact for any sequence of step sizes and order changes, and the interpolant is exact on the last step; for arbitrary derivative values predictor and corrector equal the integrals of the interpolating polynomials.",
 ["inputs", "histories"], "all derivative values, all sequences of step sizes and order changes reachable within the explored number of steps",
 "Tests integrate smooth problems; step ratio handling in the coefficient recurrences is only exercised along the trajectories that occur.",
 F("shampine"), [("modified divided differences", "SWAG._step_impl blocks 1, 2, 4"), ("interpolation", "SwagDenseOutput")], observe=["solver.y, solver.dense_output()"])

prop("C19", "Stiffness detection only observes and never disturbs the integration",
 "Whatever the stiffness detection setting (off, or any positive number of evaluations), the sequence of steps, states, interpolants and acceptance decisions is the same; the test never raises an exception, and the dominant roots it derives from the power iteration are the roots of the fitted quadratic, larger one first.",
 ["inputs", "configurations", "histories"], "all settings, all right-hand side functions (uninterpreted), states, tolerances; all quadratic coefficients",
 "Tests only check that a warning appears for a stiff problem with a couple of settings.",
 F("common"), [("diagnosis", "RungeKutta._diagnose_stiffness, RungeKuttaNystrom._diagnose_stiffness, stiff_a, stiff_b, stiff_c, stiff_d")], observe=["solver.y, solver.t with different settings"])

prop("C20", "Tolerances and arguments are validated the same way everywhere",
 "Every solver applies the same documented treatment of tolerances: negative or wrongly shaped tolerances are rejected with an error, atol is kept but never below a tiny positive floor, rtol is kept but limited to its documented range; a first step or maximum step that is not positive, or a first step longer than the interval, is rejected.",
 ["inputs", "configurations"], "all rtol, atol (scalar and vector), first_step and max_step values, every solver",
 "Tests try a few invalid values on some solvers.",
 F("common", "shampine", "sommeijer"), [("validation", "validate_tol and constructors")], observe=["constructor exceptions, error scaling used"])

prop("C21", "Evaluation counters report the evaluations that were made",
 "The reported number of right-hand side evaluations equals the number of calls made to the user's function by the integration (for the implicit methods and the stabilised method apart from the documented exceptions), and the rejected-step counter equals the number of rejected trials.",
 ["inputs", "histories"], "all accept/reject histories within the explored number of trials, all right-hand side values",
 "Tests compare counters for one or two runs.",
 F("common", "bogacki", "calvo", "cash", "shampine", "sommeijer"), [("counters", "fun wrappers, NFS, nrejct")], observe=["solver.nfev"])

prop("C22", "A converged implicit stage satisfies the stage equation to tolerance",
 "For nonlinear problems an accepted implicit step only uses stage values for which the Newton iteration met its convergence criterion: the weighted size of the remaining correction, extrapolated with the observed rate, is below the documented fraction of the tolerance; otherwise the Jacobian is refreshed or the step shortened and the step is retried.",
 ["inputs", "histories"], "all right-hand side values during the iteration, all Jacobian values, states, tolerances, any iteration history up to the iteration limit",
 "Convergence histories in tests are those of well-behaved problems.",
 F("common"), [("Newton iteration", "ESDIRK._solve_implicit_stage, _step_impl")], observe=["accepted steps of nonlinear problems"])

prop("C23", "User-defined methods follow their Butcher tableau",
 "A user-defined explicit, Nystrom or implicit method made by subclassing the public base classes takes exactly the step its coefficients prescribe (stages, solution, error estimate used for acceptance, first-same-as-last detection) and gives interpolants that join the step end points, for any admissible coefficients.",
 ["programs", "inputs"], "all coefficient values of the tableaux (three stages, with and without first-same-as-last), all right-hand side values, states, step sizes",
 "The documented extension mechanism is exercised by the tests only with the built-in coefficient sets.",
 F("common"), [("generic stepping", "RungeKutta, RungeKuttaNystrom, ESDIRK")], observe=["solver.y, dense output of a subclass"])

prop("C24", "The step-size controller follows its documented formula within limits",
 "With the Runge-Kutta, Nystrom and implicit methods, after an accepted step the next proposed step is the current one multiplied by the documented controller formula with the selected parameters (the default of the method, named or user-supplied): the standard formula after the first step and after a step whose length was set by max_step (the explicit methods do not limit growth there), the second-order formula limited to the growth and shrink factors otherwise. A rejected trial shrinks by the standard formula, not below the shrink factor, and the step never grows directly after a rejection in the same step. The stabilised method follows the dead-beat controller of its source, with factors between 0.1 and 10.",
 ["inputs", "configurations", "histories"], "all error norms of current and previous step, step ratios, controller parameter choices",
 "Tests check convergence, not the proposal; a wrong exponent only costs efficiency.",
 F("common", "bogacki", "calvo", "shampine", "sommeijer"), [("controller", "_init_sc_control, _step_impl, ESDIRK._assess_error_and_stepsize")], observe=["length of the next trial step"])

with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl"), "w") as f:
    for p in P:
        f.write(json.dumps(p) + "\n")
print(len(P))
