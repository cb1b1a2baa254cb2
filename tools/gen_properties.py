"""Writes /verif/properties.jsonl (kept as a script so the statements stay readable)."""
import json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []


def prop(id, title, statement, over, qtext, why, files, mechanism, observe, state=(), hook=None):
    P.append(dict(
        id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=qtext), why_tests_cant=why,
        anchors=dict(files=files,
                     state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
                     mechanism=[dict(name=a, where=b) for a, b in mechanism],
                     observe_at=observe, hook_needed=hook)))


prop("C01", "Explicit fixed-step solvers advance by their published formula",
     "For every explicit fixed-step solver (ForwardEuler, AdamsBashforth1-5, Runge2, Runge3, Heun3, RungeKutta4, RungeKutta3_8), each step advances the time by exactly the step size h and gives the state that the method's published recurrence or Butcher tableau yields from the recorded previous times, states and derivatives, up to rounding. This holds for any right-hand side, dimension, starting point, step size and number of steps already taken.",
     ["inputs", "histories"], "all right-hand sides f(t, y), dimensions, t0, y0, h and step counts",
     "The tests only check that the API runs for y'=-0.01y with tolerances (atol=0.1) that a wrong coefficient order passes; no test compares a step with the textbook formula.",
     ["nbkode/multistep/adams_bashforth.py", "nbkode/multistep/core.py", "nbkode/runge_kutta/explicit.py", "nbkode/euler.py", "nbkode/buffer.py"],
     [("coefficient tables A, B, C", "adams_bashforth.py, runge_kutta/explicit.py"), ("_fixed_step_builder", "multistep/core.py ExplicitMultistep, runge_kutta/explicit.py ERK"), ("history push", "buffer.py AlignedBuffer.push")],
     ["solver.t, solver.y, solver.f after step()", "output of step(n=...)"],
     [("history buffer", "last times, states and derivatives", "buffer.py")])

prop("C02", "Implicit fixed-step solvers solve their published implicit equation",
     "For every implicit fixed-step solver (BackwardEuler, AdamsMoulton1-5, BDF1-6), each step advances the time by exactly h and gives a state that satisfies the method's published implicit formula, with the derivative taken at the new time and new state and the recorded history, to within the root finder's tolerance. If no such state is found the step raises an error; it never silently returns a state that does not satisfy the formula.",
     ["inputs", "histories"], "all right-hand sides (linear, stiff and nonlinear, time dependent), dimensions 1 and up, t0, y0, h, step counts",
     "The tests accept 10-15 % error on a slow exponential; reversed Adams-Moulton coefficients passed them.",
     ["nbkode/multistep/adams_moulton.py", "nbkode/multistep/bdf.py", "nbkode/multistep/core.py", "nbkode/nbcompat/zeros.py", "nbkode/euler.py"],
     [("coefficient tables A, B, Bn", "adams_moulton.py, bdf.py"), ("implicit_root + j_newton / newton_hd", "multistep/core.py ImplicitMultistep")],
     ["solver.t, solver.y, solver.f after each step"],
     [("history buffer", "last times, states and derivatives", "buffer.py")])

prop("C03", "Multistep start-up builds an equally spaced, accurate history from t0",
     "A k-step multistep solver constructed at any t0 with a first stepper (the default, or any other solver given by class or name) starts with its history at t0, t0+h, ..., t0+(k-1)h, each state being the one the first stepper produces from (t0, y0) at that time and each derivative the right-hand side there; its current time is t0+(k-1)h. With first_stepper_cls=None, or for one-step methods, it starts at exactly (t0, y0).",
     ["inputs", "configurations"], "all multistep solvers, t0 (including non-zero and negative), h, right-hand sides (including time dependent ones), first stepper choices",
     "Tests start every solver at t0=0, where a start-up that ignores t0 looks right.",
     ["nbkode/multistep/core.py"],
     [("Multistep.__init__ start-up", "multistep/core.py")],
     ["solver.t, solver.y, solver.f right after construction", "interpolate(t0 + j h)", "the first steps"])

prop("C04", "Adaptive solvers take the same steps as their SciPy counterparts",
     "RungeKutta23, RungeKutta45 and DOP853 choose the same initial step and then, step after step, the same accepted times, states, derivatives and next step sizes as SciPy's RK23, RK45 and DOP853 on the same problem with the same rtol, atol, first_step and max_step (to rounding, and apart from SciPy's clipping at its final time). In particular no accepted step exceeds max_step or has a scaled error estimate of 1 or more.",
     ["inputs", "configurations", "histories"], "all right-hand sides, dimensions, tolerances, first_step, max_step, step counts, including steps that were rejected first",
     "Tests compare two slow exponentials with default options only: no rejected step, no max_step, no first_step, no other tolerance is ever exercised.",
     ["nbkode/runge_kutta/core.py", "nbkode/runge_kutta/explicit.py", "nbkode/runge_kutta/dop853_coefficients.py", "nbkode/core.py"],
     [("error norm and step update", "runge_kutta/core.py AdaptiveRungeKutta"), ("step builders", "runge_kutta/explicit.py FSAL, DOP853"), ("options and initial step", "core.py VariableStep")],
     ["solver.t, y, f, h after construction and after each step()"],
     [("h", "next step size", "core.py VariableStep.h"), ("K", "stages", "runge_kutta/core.py")])

prop("C05", "Every solver converges to the true solution at its stated order",
     "For every solver and smooth problem the computed solution converges to the exact one: halving the step size of a fixed-step solver reduces the error by about 2^p, with p the order of the method as named (Euler 1; AdamsBashforth k: k; AdamsMoulton1: 1, AdamsMoulton k: k; BDF k: k; Runge2: 2; Runge3, Heun3: 3; RungeKutta4, RungeKutta3_8: 4), down to the accuracy of its start-up and root finder. For adaptive solvers, the error stays within a moderate multiple of the requested tolerances and shrinks as they are tightened.",
     ["inputs", "configurations"], "smooth well-conditioned problems (autonomous or not, scalar or systems), step sizes and tolerances, all 26 solvers",
     "No test measures an order of convergence; only end values with 10-15 % tolerance for three solvers.",
     ["nbkode/multistep", "nbkode/runge_kutta", "nbkode/core.py"],
     [("coefficient tables", "all solver modules"), ("dense output", "core.py _interpolate, RkInterpolator, DOP853Interpolator")],
     ["output of run(t) and step(n)"])

prop("C06", "The trajectory does not depend on how the solver is advanced",
     "For a given solver, problem and options there is one sequence of internal steps (t, y, f): any interleaving of step(), step(n), step(upto_t), skip in any form, run, run_events with non-terminal events and interpolate moves along that same sequence and returns states belonging to it. After every call t, y and f are consistent: f is the right-hand side evaluated at (t, y), and time never decreases.",
     ["histories", "inputs"], "all finite sequences of public calls with valid arguments, all solvers",
     "The tests run one fixed call sequence per solver on one scalar problem.",
     ["nbkode/core.py", "nbkode/buffer.py", "nbkode/runge_kutta/explicit.py"],
     [("_steps, _nsteps, _skip, _nskip, _run_eval, _run_eval_events", "core.py"), ("in place step size, stages, interpolator state", "runge_kutta/core.py, explicit.py")],
     ["solver.t, y, f after each call", "arrays returned by each call"],
     [("cache", "history", "buffer.py"), ("interpolator.updated_t", "which step the dense output describes", "runge_kutta/explicit.py")])

prop("C07", "step and skip stop exactly where their arguments say",
     "step(n) and skip(n) make exactly n steps; with upto_t they stop at the last step that does not go beyond upto_t (the next one would); with both, at whichever comes first; step() and skip() are equivalent to n=1, and an upto_t before the current time does nothing and returns empty arrays. step returns the time and state after each step made, as arrays of shape (m,) and (m, dimension) ending at the solver's current time and state (a bare step() gives the one state as an array of shape (dimension,)), and skip leaves the solver in the same state as step with the same arguments.",
     ["histories", "inputs"], "all solvers, argument combinations, call sequences, step sizes",
     "One fixed sequence of arguments on one scalar problem is tested; the number of steps, floating point boundary cases and output shapes for systems are not.",
     ["nbkode/core.py"],
     [("step, skip, _steps, _nsteps, _skip, _nskip", "core.py")],
     ["return values of step", "solver.t, y"])

prop("C08", "The solver never passes t_bound and refuses requests beyond it",
     "No call, and no start-up, ever moves the solver's time beyond t_bound (to rounding). A requested time (run, run_events, step or skip with upto_t) beyond t_bound raises ValueError and leaves the solver as it was; asking for more steps than fit before t_bound raises RuntimeError, with the solver stopped at the last step that fits, for step and skip alike and with or without n.",
     ["inputs", "histories", "configurations"], "all solvers, t_bound positions relative to the step grid, call sequences ending at or beyond t_bound",
     "Tests use one t_bound that equals the first step's time, one problem, and do not check the state left behind.",
     ["nbkode/core.py", "nbkode/multistep/core.py"],
     [("_check_time and the t_bound test in _step", "core.py")],
     ["solver.t after every call", "exceptions"])

prop("C09", "run returns exactly the requested times, in request order",
     "run(t) for any scalar or array of times from the start of the recorded history up to t_bound, sorted or not, with or without duplicates, returns those same times in the same order and, for each, the state of the solver's continuous solution at that time; times before the recorded history raise ValueError. The result for a time does not depend on the other times requested or on whether the times are requested in one call or in several; only a fixed-step solver may leave out times that it could not reach without stepping past t_bound.",
     ["inputs", "histories"], "all finite time lists (unsorted, duplicated, on step points, in the past but within the history), all splits into successive calls, all solvers",
     "Tests use one linspace, forwards and reversed, on one scalar problem.",
     ["nbkode/core.py"],
     [("run_events sorting, past-time interpolation, _run_eval", "core.py")],
     ["return values and exceptions of run"])

prop("C10", "The continuous solution interpolates the steps accurately",
     "Within the recorded history the interpolated solution passes through every recorded step (continuously and with matching slopes at step ends), and between steps is as accurate as the documented dense output: for RungeKutta23, RungeKutta45 and DOP853 it equals SciPy's dense output of the same step, for all other solvers it is the cubic Hermite interpolant of the step's end points, hence exact for cubic solutions. interpolate outside the recorded history raises ValueError.",
     ["inputs", "histories"], "all solvers, problems, steps, positions inside the history, orders of evaluation",
     "Tests compare run with SciPy for two solvers on one problem; the fixed-step interpolants and interpolate itself are not tested.",
     ["nbkode/core.py", "nbkode/runge_kutta/explicit.py", "nbkode/runge_kutta/dop853_coefficients.py"],
     [("Solver._interpolate", "core.py"), ("RkInterpolator, DOP853Interpolator", "runge_kutta/explicit.py")],
     ["interpolate(t), run(t)"])

prop("C11", "Results stay valid and callers' data is never touched",
     "Arrays returned by step, run, run_events and interpolate never change afterwards, whatever is done with the solver; y0, params and time arrays given by the caller are never modified, and changing y0 or a time array later does not affect the solver. Solver instances are independent: advancing one never changes another, even of the same class or right-hand side.",
     ["histories", "inputs"], "all interleavings of calls on one or more solvers, all solvers",
     "No test looks at an earlier result after advancing the solver further or at two solvers at once.",
     ["nbkode/core.py", "nbkode/buffer.py", "nbkode/event_handler.py", "nbkode/runge_kutta/explicit.py"],
     [("copying of results", "core.py, event_handler.py"), ("per-instance cache, K, h, options", "core.py, runge_kutta/core.py")],
     ["arrays kept from earlier calls", "input arrays"])

prop("C12", "Events are found: one accurate zero per sign change, in direction",
     "For every event function given to run_events, t_events lists in increasing order exactly one time for each step over which the function changes sign in the event's direction (positive: upwards only, negative: downwards only, zero or absent: both), and nothing else. Each reported time lies within that step, the event function evaluated on the solution there is zero to the root finder's tolerance, and y_events holds the solution at that time.",
     ["inputs", "histories", "configurations"], "all solvers, problems, event functions of time and state, directions, numbers of events, including zeros exactly on step points and at the start",
     "No test in the repository calls run_events.",
     ["nbkode/event_handler.py", "nbkode/core.py", "nbkode/nbcompat/zeros.py"],
     [("Event.evaluate", "event_handler.py"), ("bisect", "nbcompat/zeros.py"), ("_run_eval_events", "core.py")],
     ["t_events, y_events"])

prop("C13", "A terminal event ends the run at the earliest terminal crossing",
     "When terminal events occur, run_events stops at the earliest of them: the output holds every requested time before it with its state, followed by the event's time and state when requested times remained, and no event later than it is reported. Without a terminal crossing the output is that of run.",
     ["inputs", "histories", "configurations"], "several terminal and non-terminal events in one step or in different steps, in any list order, requested times before, inside and after the terminating step, sorted or not",
     "No test in the repository calls run_events.",
     ["nbkode/event_handler.py", "nbkode/core.py"],
     [("EventHandler.evaluate", "event_handler.py"), ("_run_eval_events", "core.py")],
     ["t, y, t_events, y_events of run_events"])

prop("C14", "Watching events changes nothing, and resuming misses nothing",
     "With only non-terminal events run_events returns the same times and states as run and leaves the solver in the same state. Tracking several events together reports for each what tracking it alone reports, and splitting a run_events call into successive calls reports the same events overall, also when requested times include the current or earlier recorded times (an event exactly at the time where one call ended may be reported by both calls).",
     ["histories", "inputs"], "all solvers, event sets, splits of the requested times into calls",
     "No test in the repository calls run_events.",
     ["nbkode/event_handler.py", "nbkode/core.py"],
     [("run_events", "core.py"), ("build_handler", "event_handler.py")],
     ["outputs of run and run_events", "solver state"])

prop("C15", "Compiled and pure Python modes agree",
     "With numba (the default) and with NBKODE_NONUMBA=1 the same calls give the same results: same times, states, derivatives, events and failures, to rounding, for every solver and every public call, and for the root finding helpers (an implicit step without solution may fail as LinAlgError in one mode and RuntimeError in the other).",
     ["configurations", "histories", "inputs"], "every solver, problem and call sequence in both modes",
     "The tests run in one mode only and never compare the two.",
     ["nbkode/nbcompat", "nbkode/core.py", "nbkode/event_handler.py", "nbkode/runge_kutta/explicit.py", "nbkode/buffer.py"],
     [("NO_NUMBA switch and numba stand-ins", "nbcompat/nb_to_import.py, numbasub.py"), ("jitclass specs", "buffer.py, event_handler.py, explicit.py, core.py")],
     ["all public results in both modes"])

prop("C16", "Solver lookup and filters tell the truth",
     "get_solvers returns exactly the registered solvers that match every given filter and group (names in any case; unknown groups raise KeyError), where implicit means that a step requires solving for the derivative at the new state, fixed_step that the step size never changes, and runge_kutta / multistep the method family. get_solver, attribute access on the package, list_solvers and get_groups agree with one another for names and aliases in any case, aliases warn, and unknown names raise ValueError or AttributeError.",
     ["inputs", "configurations"], "all filter combinations, group lists, names, aliases and spellings, and the real stepping behaviour of each solver",
     "Tests check that the IMPLICIT flag equals the filter, not that the flag describes the method; it was inverted for all multistep solvers.",
     ["nbkode/core.py", "nbkode/__init__.py", "nbkode/multistep/core.py", "nbkode/util.py"],
     [("check, get_solvers, get_solver, list_solvers, get_groups", "core.py"), ("__getattr__, __dir__", "__init__.py"), ("IMPLICIT, FIXED_STEP", "multistep/core.py, runge_kutta")],
     ["return values and exceptions of the lookup functions", "points where the right-hand side is evaluated during a step"])

prop("C17", "nbcompat.newton behaves as scipy.optimize.newton",
     "nbcompat.newton gives the same root, convergence flag, iteration and call counts, exceptions and warnings as scipy.optimize.newton for the same function, start, derivatives (none, first, or first and second), second start point, tolerances, iteration limit, disp and full_output, for real scalars, complex scalars and arrays.",
     ["inputs", "configurations"], "all functions, start points and option combinations, including zero derivatives, flat functions and non-convergence",
     "The SciPy tests copied into the repository sample a few functions and options.",
     ["nbkode/nbcompat/zeros.py", "nbkode/nbcompat/common.py"],
     [("newton, _newton", "nbcompat/zeros.py")],
     ["return values, exceptions, warnings"])

prop("C18", "The jittable root finders return a root or raise",
     "j_newton returns what newton returns and raises RuntimeError exactly when newton reports failure; newton_hd returns a point where the norm of the function is within its tolerance or raises; bisect requires a bracket (raising ValueError when left >= right or the signs do not differ) and returns a point inside it where the function is within tolerance of zero or which is within the final bracket of a sign change. isclose and clip give what numpy.isclose and numpy.clip give.",
     ["inputs"], "all functions, start points, brackets, tolerances and iteration limits",
     "Three sample calls are tested; bisect, jacobian and all failure paths are not.",
     ["nbkode/nbcompat/zeros.py", "nbkode/nbcompat/common.py"],
     [("j_newton, newton_hd, jacobian, bisect", "nbcompat/zeros.py"), ("isclose, clip", "nbcompat/common.py")],
     ["return values, exceptions"])

prop("C19", "Solutions respect the symmetries of the problem",
     "For every solver: shifting time in the problem and the requests shifts the solution; permuting components permutes it; scaling a linear homogeneous problem scales it, also by a negative factor (mirroring); for fixed-step solvers independent subsystems solved together give what they give alone and time may be rescaled together with h; and every linear invariant of the right-hand side (w.f = 0) is conserved by every step, to rounding and the root finder's tolerance.",
     ["inputs", "histories"], "all solvers and problems, shifts, permutations, scale factors, block structures, conserved linear quantities",
     "Relations between two runs are never tested; systems of more than two equations or with t0 != 0 are not tested at all.",
     ["nbkode/core.py", "nbkode/multistep", "nbkode/runge_kutta", "nbkode/nbcompat/zeros.py"],
     [("step formulas", "multistep/core.py, runge_kutta/explicit.py"), ("scalar and vector root finders", "nbcompat/zeros.py")],
     ["outputs of step, run and run_events"])

prop("C20", "Equivalent ways of stating a problem give the same solution",
     "The solution does not depend on how the problem is stated: parameters given through params (number, list, tuple or array) or written into the right-hand side, y0 as number, list, integer or float array, t0 and times as int or float, a right-hand side already compiled or plain, returning a new array, its own argument or an array it reuses, options left out or given at their default values, a solver obtained by class, name or alias.",
     ["inputs", "configurations"], "all solvers and combinations of input forms",
     "Tests use one form of each.",
     ["nbkode/core.py", "nbkode/multistep/core.py", "nbkode/__init__.py"],
     [("Solver.__init__", "core.py"), ("VariableStep.__init__", "core.py"), ("Multistep.__init__", "multistep/core.py")],
     ["outputs of step and run"])

prop("C21", "An integration call makes progress or fails loudly",
     "Every call that advances a solver ends: it either reaches its goal with time strictly increasing at every step, or raises an error. This includes solutions that blow up in finite time, right-hand sides that return NaN or infinity, vanishing derivatives and zero states: an adaptive solver whose step size becomes too small to advance the time raises RuntimeError instead of looping for ever, and problems with zero error estimates are integrated normally.",
     ["inputs", "fault_sequences"], "right-hand sides with finite-time singularities, NaN or inf beyond some time or state, constant and zero solutions, all solvers",
     "Only smooth slow exponentials are tested.",
     ["nbkode/runge_kutta/core.py", "nbkode/runge_kutta/explicit.py", "nbkode/nbcompat/zeros.py", "nbkode/core.py"],
     [("step loops", "runge_kutta/explicit.py FSAL, DOP853"), ("step size update", "runge_kutta/core.py"), ("root finder iteration limits", "nbcompat/zeros.py")],
     ["number of right-hand side evaluations per call, exceptions, solver.t"])

prop("C22", "User-defined methods work from their coefficients alone",
     "A new solver class defined only by its coefficients (an explicit Runge-Kutta tableau, an embedded pair, or explicit or implicit multistep coefficients) steps according to exactly those coefficients, is registered under its name, aliases and group, and is found by the lookup functions; a definition whose name or alias is taken, whose tableau is not explicit or whose history length is invalid is rejected.",
     ["inputs", "programs"], "all coefficient tables of any size, names and aliases",
     "No test defines a solver.",
     ["nbkode/core.py", "nbkode/runge_kutta/core.py", "nbkode/runge_kutta/explicit.py", "nbkode/multistep/core.py"],
     [("Solver.__init_subclass__", "core.py"), ("ERK.__init_subclass__, step builders", "runge_kutta/explicit.py"), ("ExplicitMultistep, ImplicitMultistep builders", "multistep/core.py")],
     ["steps of instances of the new class", "get_solver, get_solvers"])

prop("C23", "CaseInsensitiveDict is a dict with case-insensitive keys",
     "Under any sequence of operations CaseInsensitiveDict behaves as a mapping whose keys are compared ignoring case: lookups, deletion, membership, get, pop, setdefault, update and equality ignore case; iteration gives each key once, in the spelling last set and in insertion order; lower_items gives lower-cased keys; copies are independent.",
     ["histories", "inputs"], "all operation sequences over string keys",
     "A handful of operations on a one-element dict are tested.",
     ["nbkode/util.py"],
     [("CaseInsensitiveDict", "util.py")],
     ["results of mapping operations"])

with open(os.path.join(HERE, "properties.jsonl"), "w") as fh:
    for p in P:
        assert len(p["title"]) <= 80, (p["id"], len(p["title"]))
        fh.write(json.dumps(p) + "\n")
print(len(P))
