#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the one place where the property texts are edited)."""
import json, os
B = "include/boost/numeric/odeint/"
P = []
def prop(id, title, statement, over, text, why, files, mech, state=()):
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text),
                  why_tests_cant=why,
                  anchors=dict(files=[B+f for f in files],
                               mechanism=[dict(name=n, where=B+w) for n, w in mech],
                               state=[dict(name=n, meaning=m, where=B+w) for n, m, w in state])))

prop("C01", "Runge-Kutta steppers realise a scheme of the order they report",
 "For every ODE, state, time and step, one step of each explicit Runge-Kutta stepper (euler, runge_kutta4, runge_kutta4_classic, both Cash-Karp steppers, Dormand-Prince 5, Fehlberg 78 and the user-tableau generic steppers) adds to the state exactly the linear combination of derivative evaluations given by one Butcher tableau, and that tableau satisfies every order condition up to the order the stepper reports. The system is evaluated at times consistent with the stage states (c_i equals the row sum a_ij), so non-autonomous systems keep the order. Where an error estimate is returned it is the difference of this scheme to an embedded scheme of exactly the reported error order.",
 ["inputs", "programs"], "all systems f(x,t) (linear, nonlinear, autonomous or not), all x, t, dt, and all overloads of do_step",
 "The order tests integrate two or three fixed scalar problems and fit a slope; a wrong coefficient, stage time or error weight that those problems do not excite (non-autonomous, coupled, high-order elementary differentials, the error estimate itself) passes.",
 ["stepper/euler.hpp","stepper/runge_kutta4.hpp","stepper/runge_kutta4_classic.hpp","stepper/runge_kutta_cash_karp54.hpp","stepper/runge_kutta_cash_karp54_classic.hpp","stepper/runge_kutta_dopri5.hpp","stepper/runge_kutta_fehlberg78.hpp","stepper/explicit_generic_rk.hpp","stepper/explicit_error_generic_rk.hpp","stepper/detail/generic_rk_algorithm.hpp","stepper/detail/generic_rk_call_algebra.hpp","stepper/detail/generic_rk_operations.hpp"],
 [("coefficient tables and stage loop","stepper/detail/generic_rk_algorithm.hpp"),("hand-written stages","stepper/runge_kutta_dopri5.hpp do_step_impl")])

prop("C02", "Single-step dense output interpolates the step consistently",
 "For every system, step and query time, the continuous extension used for dense output by euler, runge_kutta_dopri5 and rosenbrock4 returns the old state at the beginning of the step and the new state at its end. In between it is a polynomial in the fraction of the step that satisfies the continuous order conditions of the documented interpolation order, whatever the sign or size of the step and wherever the step starts.",
 ["inputs"], "all step intervals, all query times, all systems",
 "Tests compare a few interpolated values of one harmonic oscillator against a loose tolerance; wrong weights of small magnitude or an interval offset for a non-zero start time are not excited.",
 ["stepper/euler.hpp","stepper/runge_kutta_dopri5.hpp","stepper/rosenbrock4.hpp","stepper/dense_output_runge_kutta.hpp","stepper/rosenbrock4_dense_output.hpp"],
 [("calc_state polynomials","stepper/runge_kutta_dopri5.hpp calc_state"),("calc_state","stepper/rosenbrock4.hpp calc_state"),("calc_state","stepper/euler.hpp calc_state")])

prop("C03", "Adams multistep steppers apply the exact quadrature formula to their history",
 "For every number of steps they support (1 to 8), adams_bashforth, adams_moulton and adams_bashforth_moulton add to the state dt times a weighted sum of stored derivatives, where the weights are those that integrate every polynomial below the method's order exactly, each applied to the derivative taken that many steps earlier. The start-up phase uses the initialising stepper for exactly the steps needed to fill the history and records one derivative per step; reset or a re-initialisation begins that phase again.",
 ["inputs","histories"], "all systems, all step counts 1..8, all lengths of step history including reset in the middle",
 "Tests run a handful of step counts on one or two problems; an old coefficient attached to the wrong history slot, or a stale history after reset, only shows for particular histories and smooth problems hide it.",
 ["stepper/adams_bashforth.hpp","stepper/adams_moulton.hpp","stepper/adams_bashforth_moulton.hpp","stepper/detail/adams_bashforth_coefficients.hpp","stepper/detail/adams_moulton_coefficients.hpp","stepper/detail/adams_bashforth_call_algebra.hpp","stepper/detail/adams_moulton_call_algebra.hpp","stepper/detail/rotating_buffer.hpp"],
 [("history ring buffer","stepper/detail/rotating_buffer.hpp"),("weighted sum","stepper/detail/adams_bashforth_call_algebra.hpp"),("start-up counter","stepper/adams_bashforth.hpp")],
 [("m_steps_initialized","derivatives recorded so far","stepper/adams_bashforth.hpp"),("m_step_storage","derivative history","stepper/adams_bashforth.hpp")])

prop("C04", "Symplectic and Verlet steppers are consistent splittings of their order",
 "For every separable Hamiltonian system, one step of symplectic_euler and the two McLachlan steppers alternates coordinate drifts and momentum kicks, each a shear that uses only the other variable, with coefficients that satisfy the order conditions of the order reported; velocity_verlet advances position and velocity by the second-order velocity-Verlet formula with the acceleration of the old and the new position. The pair-of-functions form and the momentum-function-only form, and the pair-of-states and two-states calls, all perform the same update.",
 ["inputs","histories"], "all separable systems, states, times, steps, both system forms and all call forms",
 "Symplectic tests check that types compile and that one oscillator's energy stays bounded; a stage that reads an already overwritten variable or a wrong sub-step coefficient still looks like a low-order integrator there.",
 ["stepper/base/symplectic_rkn_stepper_base.hpp","stepper/symplectic_euler.hpp","stepper/symplectic_rkn_sb3a_mclachlan.hpp","stepper/symplectic_rkn_sb3a_m4_mclachlan.hpp","stepper/velocity_verlet.hpp"],
 [("stage loop","stepper/base/symplectic_rkn_stepper_base.hpp do_step_impl"),("coefficients","stepper/symplectic_rkn_sb3a_mclachlan.hpp")])

prop("C05", "All call forms of do_step compute the same step and spare their inputs",
 "For a given stepper in a given state, the in-place, out-of-place, derivative-supplied and error-returning forms of do_step produce the same new state (and the same error estimate) for the same state, time and step. Out-of-place forms never modify the input state or a supplied input derivative, and no form writes anything but the documented outputs and the stepper itself. Passing the same object as input and output gives the same result as passing different ones.",
 ["inputs","programs"], "all systems, states, times, steps, and all overloads of do_step of every one-step explicit stepper",
 "Each overload is tested at most once on one state with its own tolerance; agreement between overloads and freedom from aliasing effects is nowhere compared.",
 ["stepper/base/explicit_stepper_base.hpp","stepper/base/explicit_error_stepper_base.hpp","stepper/base/explicit_error_stepper_fsal_base.hpp","stepper/modified_midpoint.hpp","stepper/velocity_verlet.hpp","stepper/extrapolation_stepper.hpp"],
 [("do_step_v1..v5","stepper/base/explicit_error_stepper_base.hpp"),("fsal overloads","stepper/base/explicit_error_stepper_fsal_base.hpp")])

prop("C06", "A controlled step either advances everything or nothing",
 "For every controlled stepper, when try_step reports a rejected step the time and the state the caller passed are unchanged, the derivative kept or passed for that state is unchanged too, and the proposed step size has been reduced in magnitude with its sign kept. When it reports success the time has advanced by exactly the step size that was passed in and the state is the one computed with that step size. This holds for the in-place, out-of-place and derivative-carrying forms alike.",
 ["inputs","histories"], "all error estimates the error checker can return, all steps of either sign, all overloads of try_step",
 "The suite drives controllers along successful integrations and looks at end results; almost no test forces a rejection and inspects state, time and step afterwards, and none does so per overload.",
 ["stepper/controlled_runge_kutta.hpp","stepper/bulirsch_stoer.hpp","stepper/bulirsch_stoer_dense_out.hpp","stepper/rosenbrock4_controller.hpp","stepper/controlled_adams_bashforth_moulton.hpp"],
 [("try_step","stepper/controlled_runge_kutta.hpp"),("try_step","stepper/rosenbrock4_controller.hpp"),("try_step","stepper/bulirsch_stoer.hpp")])

prop("C07", "Step-size adjustment stays inside its documented limits",
 "For every error estimate, a rejection multiplies the step size of the Runge-Kutta and Rosenbrock controllers by a factor strictly below one and not below one fifth (the documented lower limit), and an acceptance multiplies it by a factor between the documented limits (at most five, respectively six for Rosenbrock). The sign of the step size never changes. If a maximal step size is configured (with the sign of the integration direction), the step proposed after success never exceeds it in magnitude, and a longer step handed to the Runge-Kutta, Rosenbrock and Bulirsch-Stoer controllers is refused and cut to it before anything is computed, for forward and for backward integration.",
 ["inputs"], "all error values in (0, inf), all orders, all signs of dt, with and without a maximal step size",
 "Tests sample errors produced by one smooth problem; the clamps, the backward direction and their combination with the maximal step size are hardly reached.",
 ["stepper/controlled_runge_kutta.hpp","stepper/rosenbrock4_controller.hpp","stepper/bulirsch_stoer.hpp","stepper/bulirsch_stoer_dense_out.hpp","util/detail/less_with_sign.hpp"],
 [("decrease_step/increase_step","stepper/controlled_runge_kutta.hpp default_step_adjuster"),("min_abs","util/detail/less_with_sign.hpp")],
 [("m_max_dt","limit on |dt|, zero for none","stepper/controlled_runge_kutta.hpp")])

prop("C08", "A derivative kept between calls is used only for the state it belongs to",
 "Steppers that keep the last derivative (Dormand-Prince 5 and other first-same-as-last steppers, their controlled wrapper, velocity_verlet, the dense-output steppers) evaluate the system for the given state before the first step, after reset, after an initialise call with new data and after an internal resize, and otherwise reuse exactly the derivative that the previous accepted step ended with. A rejected step leaves the kept derivative as it was, and a step made with a caller-supplied derivative does not leave a stale one behind to be reused.",
 ["histories"], "all sequences of do_step/try_step overloads, resets, initialise calls, rejections and size changes on one stepper object",
 "Tests use a stepper object for one monotone run; interleavings of overloads, rejections, resets and resizes on one object are not enumerated.",
 ["stepper/base/explicit_error_stepper_fsal_base.hpp","stepper/controlled_runge_kutta.hpp","stepper/velocity_verlet.hpp","stepper/dense_output_runge_kutta.hpp","stepper/bulirsch_stoer_dense_out.hpp"],
 [("m_first_call handling","stepper/base/explicit_error_stepper_fsal_base.hpp"),("m_is_deriv_initialized","stepper/dense_output_runge_kutta.hpp")],
 [("m_first_call","no valid derivative is held","stepper/base/explicit_error_stepper_fsal_base.hpp"),("m_dxdt","kept derivative","stepper/base/explicit_error_stepper_fsal_base.hpp")])

prop("C09", "Integration backward in time mirrors integration forward in time",
 "Every integrate function, ODE iterator and step-size controller decides whether the end is reached, whether a step would overshoot, and which of two step sizes is smaller, with regard to the sign of the step. Negating all times, time points and step sizes therefore yields the mirrored sequence of steps, observations, acceptances and end conditions.",
 ["inputs","programs"], "all start/end times, time sequences and step sizes of either sign, all stepper categories",
 "Backward tests exist for a few integrate functions with smooth problems that need no rejection; the time comparisons of the other combinations (dense n-steps, iterators, extrapolation rejections) are not run backwards.",
 ["integrate/detail/integrate_const.hpp","integrate/detail/integrate_adaptive.hpp","integrate/detail/integrate_n_steps.hpp","integrate/detail/integrate_times.hpp","iterator/impl/const_step_iterator_impl.hpp","iterator/impl/adaptive_iterator_impl.hpp","iterator/impl/n_step_iterator_impl.hpp","iterator/impl/times_iterator_impl.hpp","util/detail/less_with_sign.hpp","stepper/controlled_runge_kutta.hpp","stepper/bulirsch_stoer.hpp","stepper/bulirsch_stoer_dense_out.hpp","stepper/rosenbrock4_controller.hpp"],
 [("less_with_sign, less_eq_with_sign, min_abs, max_abs","util/detail/less_with_sign.hpp")])

prop("C10", "Integrate functions observe the documented times and states, in order",
 "For every stepper category, integrate_const and integrate_n_steps call the observer first with the initial state at the start time and then at exactly start + n*dt for n = 1, 2, ..., integrate_adaptive calls it at the start and after every accepted step, and integrate_times calls it once at every requested time point in order. The observed state always is the solution state belonging to the observed time (the stepped state, or dense output at that time), and the k-th equidistant time is computed from the start time, not by accumulating increments.",
 ["inputs","histories"], "all intervals, step sizes, step counts and time sequences, all steppers of each category and all rejection histories of a controlled stepper",
 "Tests count observer calls and compare final times for a few intervals whose lengths are friendly multiples of dt, with well-behaved steppers; rejection histories and drift over many steps are not covered.",
 ["integrate/integrate_const.hpp","integrate/integrate_adaptive.hpp","integrate/integrate_n_steps.hpp","integrate/integrate_times.hpp","integrate/detail/integrate_const.hpp","integrate/detail/integrate_adaptive.hpp","integrate/detail/integrate_n_steps.hpp","integrate/detail/integrate_times.hpp"],
 [("observer calls","integrate/detail/integrate_const.hpp"),("t0 + n*dt","integrate/detail/integrate_n_steps.hpp")])

prop("C11", "Integrate functions end where documented and never step past the end",
 "For a stepper without dense output no step attempted by an integrate function leads past the end time, the last step (and the step to the next requested time) is shortened to hit it, integrate_adaptive and integrate_times leave the caller's state at the end time, and in integrate_times with a controlled stepper a step shortened to hit a time point does not replace the step size carried on. With dense output the interpolation never extrapolates beyond the completed step. The returned number of steps, or the returned end time, is that of the steps actually accepted.",
 ["inputs","histories"], "all intervals, step sizes, time sequences and rejection histories, all stepper categories",
 "Tests look at final states within loose tolerances and at step counts for one or two problems; interaction of trimming, rejection and carried-on step size is not covered.",
 ["integrate/detail/integrate_const.hpp","integrate/detail/integrate_adaptive.hpp","integrate/detail/integrate_n_steps.hpp","integrate/detail/integrate_times.hpp","integrate/integrate_const.hpp","integrate/integrate_n_steps.hpp"],
 [("trimming of dt","integrate/detail/integrate_adaptive.hpp"),("min_abs to next time point","integrate/detail/integrate_times.hpp")])

prop("C12", "No stepping loop can retry or run on for ever without progress",
 "Every loop of an integrate function or stepper that repeats a controlled step until it succeeds counts consecutive failures and raises a step_adjustment_error at the documented number (500), with the count starting anew after a success (ODE iterators raise an overflow_error after 1000 attempts). A user-supplied max_step_checker is consulted for every step and reset at every observer call, so no_progress_error is raised when, and only when, the permitted number of steps between observer calls is exceeded; both errors derive from odeint_error.",
 ["histories","inputs"], "all sequences of step results a controlled stepper can return, all integrate functions, iterators and dense-output steppers",
 "Only one or two integrate functions are tested against a stepper that always fails; the other retry loops and the reset of the counters are never driven to their limit.",
 ["integrate/max_step_checker.hpp","integrate/check_adapter.hpp","integrate/detail/integrate_adaptive.hpp","integrate/detail/integrate_times.hpp","iterator/impl/adaptive_iterator_impl.hpp","iterator/impl/times_iterator_impl.hpp","stepper/dense_output_runge_kutta.hpp","stepper/bulirsch_stoer_dense_out.hpp","stepper/rosenbrock4_dense_output.hpp","stepper/controlled_adams_bashforth_moulton.hpp","util/odeint_error.hpp"],
 [("failed_step_checker, max_step_checker","integrate/max_step_checker.hpp"),("checked_stepper, checked_observer","integrate/check_adapter.hpp")])

prop("C13", "Every internal buffer has the size of the state before it is used",
 "With resizable states, every internal state or derivative of a stepper is brought to the size of the caller's state before it is read or written: on the first step with the initial resizer and on every step, initialise or error-estimating call with the always resizer. adjust_size(x) sizes everything a later step touches, so that after it a stepper with the never resizer works, also through controllers and dense-output wrappers.",
 ["histories","programs"], "all sequences of calls with states of changing size, every resizer policy, every stepper and wrapper",
 "The resizing tests count resize calls of three steppers; a temporary forgotten in a resize function or in adjust_size shows as an out-of-bounds access only for a stepper, overload and policy that no test combines.",
 ["util/resizer.hpp","util/resize.hpp","util/same_size.hpp","util/is_resizeable.hpp","stepper/base/explicit_stepper_base.hpp","stepper/base/explicit_error_stepper_base.hpp","stepper/base/explicit_error_stepper_fsal_base.hpp","stepper/base/symplectic_rkn_stepper_base.hpp","stepper/runge_kutta4_classic.hpp","stepper/runge_kutta_cash_karp54_classic.hpp","stepper/runge_kutta_dopri5.hpp","stepper/explicit_generic_rk.hpp","stepper/explicit_error_generic_rk.hpp","stepper/modified_midpoint.hpp","stepper/extrapolation_stepper.hpp","stepper/velocity_verlet.hpp","stepper/adams_bashforth.hpp","stepper/adams_moulton.hpp","stepper/adams_bashforth_moulton.hpp","stepper/controlled_runge_kutta.hpp","stepper/dense_output_runge_kutta.hpp","stepper/bulirsch_stoer.hpp","stepper/bulirsch_stoer_dense_out.hpp"],
 [("resizer policies","util/resizer.hpp"),("resize_impl members","stepper/runge_kutta4_classic.hpp")])

prop("C14", "Copies of steppers, iterators and state wrappers are independent values",
 "Copy construction and copy assignment of every stepper, controller and dense-output stepper yield an object that behaves as the original would from there on, carries over all of its internal state, and refers to no part of the original: using, changing or destroying either one has no effect on the other. Since integrate functions and factories take steppers by value, this is what makes a stepper reusable.",
 ["histories","programs"], "all steppers in all internal states (fresh, mid-run, after reset), copy construction and assignment",
 "The copying tests check that buffers are not shared for five classes in a fresh state; hidden references into the source object survive because the source usually outlives the copy in a test.",
 ["stepper/adams_moulton.hpp","stepper/adams_bashforth.hpp","stepper/adams_bashforth_moulton.hpp","stepper/base/algebra_stepper_base.hpp","stepper/controlled_runge_kutta.hpp","stepper/dense_output_runge_kutta.hpp","stepper/bulirsch_stoer.hpp","stepper/bulirsch_stoer_dense_out.hpp","stepper/rosenbrock4_dense_output.hpp","util/state_wrapper.hpp","external/gsl/gsl_wrapper.hpp"],
 [("copy constructors and assignment","stepper/adams_bashforth.hpp"),("state_wrapper","util/state_wrapper.hpp")])

prop("C15", "Systems, observers and steppers passed by reference are never copied",
 "Every stepper, integrate function and iterator accepts the system, the observer and the stepper wrapped in boost::ref or std::ref and then calls the caller's own object, never a copy, for every call it makes. A plain (unwrapped) stepper or system given to an integrate function is not modified.",
 ["programs"], "all steppers, controllers, dense-output steppers, integrate functions and iterators with either reference wrapper and non-copyable user objects",
 "The reference tests cover the integrate functions for three steppers; most steppers are never instantiated with a reference wrapper at all.",
 ["util/unwrap_reference.hpp","stepper/base/explicit_stepper_base.hpp","stepper/adaptive_adams_bashforth_moulton.hpp","stepper/controlled_adams_bashforth_moulton.hpp","integrate/detail/integrate_const.hpp","integrate/detail/integrate_adaptive.hpp","iterator/detail/ode_iterator_base.hpp"],
 [("unwrap_reference at each use","util/unwrap_reference.hpp")])

prop("C16", "Every algebra applies the operation to all elements exactly once, in order",
 "For every arity from 1 to 15 (8 where documented) the range, array, vector-space, fusion, multi_array, OpenMP, MPI-nested and Thrust algebras apply the given operation exactly once to each corresponding tuple of elements of all arguments, with the arguments in the given order and no access outside the ranges. norm_inf returns the maximum of the absolute values over all elements, and is zero for an empty state.",
 ["inputs","programs"], "all state sizes (including 0), all operations, all arities",
 "Tests exercise arities up to 7 or so for two algebras with one small size; high arities are only used inside Fehlberg 78 or extrapolation with the default algebra.",
 ["algebra/range_algebra.hpp","algebra/array_algebra.hpp","algebra/vector_space_algebra.hpp","algebra/fusion_algebra.hpp","algebra/multi_array_algebra.hpp","algebra/detail/for_each.hpp","algebra/detail/norm_inf.hpp","external/openmp/openmp_range_algebra.hpp","external/openmp/openmp_nested_algebra.hpp","external/mpi/mpi_nested_algebra.hpp","external/thrust/thrust_algebra.hpp"],
 [("for_each loops","algebra/detail/for_each.hpp")])

prop("C17", "Default operations compute exactly the documented linear combinations and errors",
 "scale_sumN(a1,...,aN) assigns a1*x1+...+aN*xN to its first argument and changes nothing else, for every N from 1 to 14, and scale and scale_sum_swap2 likewise do what they document. The relative-error operations compute |err| / (eps_abs + eps_rel*(a_x*|x| + a_dxdt*|dxdt|)) (respectively its documented variants), with each parameter in its documented place, and the same holds for the Thrust, generic Runge-Kutta and other backend versions of the same operation.",
 ["inputs"], "all coefficients and element values, all arities",
 "Tests evaluate each functor at one point with coefficients that can hide exchanged or dropped terms, and only the low arities.",
 ["algebra/default_operations.hpp","stepper/detail/generic_rk_operations.hpp","external/thrust/thrust_operations.hpp","util/unit_helper.hpp"],
 [("scale_sumN functors","algebra/default_operations.hpp")])

prop("C18", "Every header stands alone and can be included in any number of translation units",
 "Each public header of the library compiles when it is the only one included, may be included repeatedly, together with and in either order relative to every other header, and in several translation units of one program without duplicate definitions at link time.",
 ["programs","configurations"], "all subsets and orders of inclusion, all numbers of translation units, each supported language standard",
 "Each test is a single translation unit with a fixed include list that usually pulls the umbrella header first.",
 ["config.hpp","util/bind.hpp","util/split_adaptor.hpp","external/gsl/gsl_wrapper.hpp","integrate/max_step_checker.hpp","util/odeint_error.hpp"],
 [("include guards, includes, inline","config.hpp")])

prop("C19", "ODE iterators visit the same solution points as the integrate functions",
 "For every stepper category, a begin/end pair of a const-step, adaptive, n-step or times iterator visits the initial state first and then one state per observation the corresponding integrate function makes, at the same times, and then compares equal to the end iterator; iterators over steppers without dense output never step past the end. Dereferencing yields the state (and time) of the current position - also for a copy of the iterator -, an empty range is equal to end at once, and 1000 failed attempts in a row end in an overflow_error.",
 ["inputs","histories"], "all intervals, step sizes, step counts, time sequences (including empty ones) and rejection histories",
 "Iterator tests compare against hand-counted positions for three or four intervals each; rejections, empty sequences and backward runs are absent.",
 ["iterator/detail/ode_iterator_base.hpp","iterator/impl/const_step_iterator_impl.hpp","iterator/impl/adaptive_iterator_impl.hpp","iterator/impl/n_step_iterator_impl.hpp","iterator/impl/times_iterator_impl.hpp"],
 [("increment/equal/dereference","iterator/impl/adaptive_iterator_impl.hpp")])

prop("C20", "Factory functions hand every parameter and the stepper through to the result",
 "make_controlled and make_dense_output yield, for each stepper they support, the documented controller or dense-output type, set with the caller's absolute error, relative error and maximal step size in their proper places, built on a copy of the caller's stepper object, and they accept any time type the stepper itself accepts. The convenience integrate functions likewise use their documented stepper and tolerances.",
 ["programs","inputs"], "all supported steppers, all tolerances and maximal steps, all stepper instances and time types",
 "The generation test checks that result types exist; swapped tolerances, a dropped stepper argument or a maximal step forwarded to the wrong slot change accuracy only.",
 ["stepper/generation/make_controlled.hpp","stepper/generation/make_dense_output.hpp","stepper/generation/generation_controlled_runge_kutta.hpp","stepper/generation/generation_controlled_adams_bashforth_moulton.hpp","stepper/generation/generation_dense_output_runge_kutta.hpp","stepper/generation/generation_rosenbrock4.hpp","integrate/integrate.hpp"],
 [("controller_factory, dense_output_factory","stepper/generation/make_controlled.hpp")])

prop("C21", "Arithmetic is carried out in the user's value and time types throughout",
 "All steppers, controllers, dense-output steppers and integrate functions compute states, errors, times and coefficients in the value_type and time_type they were instantiated with: no intermediate is rounded through a built-in floating-point type and no coefficient is formed in lower precision. A user-defined arithmetic type without implicit conversion to double therefore works everywhere a built-in type does.",
 ["programs"], "all admissible value and time types (extended, multi-precision, dimensioned)",
 "The suite instantiates most steppers for double only; a detour through double compiles silently and merely caps the accuracy of multi-precision users.",
 ["stepper/runge_kutta_fehlberg78.hpp","stepper/detail/generic_rk_algorithm.hpp","stepper/bulirsch_stoer.hpp","stepper/bulirsch_stoer_dense_out.hpp","stepper/adaptive_adams_bashforth_moulton.hpp","stepper/controlled_adams_bashforth_moulton.hpp","stepper/detail/pid_step_adjuster.hpp","integrate/detail/integrate_const.hpp","stepper/rosenbrock4.hpp"],
 [("static_cast<value_type>(integer) quotients","stepper/runge_kutta_fehlberg78.hpp")])

prop("C22", "State adaptors compare, resize and copy whole states",
 "For every supported state type (standard and range containers, fusion sequences, multi_array, ublas, Eigen, GSL, OpenMP and MPI states) same_size is true exactly when all extents agree, resize makes the target the same size as the source in every extent without touching the source, and copy makes every element of the target equal to the source's while the two stay distinct objects. is_resizeable is true for the types documented as resizable (std::vector, ublas vectors and matrices, multi_array, Eigen, GSL, OpenMP, MPI and Thrust containers, fusion sequences with a resizable member) and false for arrays of fixed size and plain numbers.",
 ["inputs","programs"], "all shapes and sizes including empty ones, all supported state types",
 "Tests resize two or three shapes per type; a comparison that ignores one extent, an element left out or a shared buffer only shows for other shapes.",
 ["util/same_size.hpp","util/resize.hpp","util/copy.hpp","util/is_resizeable.hpp","util/multi_array_adaption.hpp","util/ublas_wrapper.hpp","external/eigen/eigen_resize.hpp","external/gsl/gsl_wrapper.hpp","external/openmp/openmp_state.hpp","external/mpi/mpi_state.hpp"],
 [("same_size_impl, resize_impl, copy_impl","util/multi_array_adaption.hpp")])

prop("C23", "A dense-output stepper always describes its last completed step",
 "After initialize the current state, time and step size are those given; after each do_step the previous time and state are those that were current before, the current ones are those at the end of the new step, and the returned pair is exactly that interval. Interpolation between the two uses the data of that very step and changes neither of them, and initialize may be called again at any time to start afresh.",
 ["histories"], "all sequences of initialize, do_step (with any number of internal rejections) and calc_state on one object",
 "Tests walk one trajectory and look at end values; the old/new buffer exchange is only tested for a few consecutive steps with no rejection.",
 ["stepper/dense_output_runge_kutta.hpp","stepper/bulirsch_stoer_dense_out.hpp","stepper/rosenbrock4_dense_output.hpp"],
 [("toggle_current_state","stepper/dense_output_runge_kutta.hpp")],
 [("m_current_state_x1","which buffer is current","stepper/dense_output_runge_kutta.hpp")])

prop("C24", "Splitting a state over workers loses and duplicates nothing",
 "For every total length and number of parts, the slices handed to the parts are consecutive, start at the first and end at the last element, cover every element exactly once and differ in length by at most one (OpenMP split: cover every element exactly once). Unsplit writes every element of every part back in order, into a target of at least the total size.",
 ["inputs"], "all lengths including zero and fewer elements than parts, all numbers of parts",
 "The split test uses one length and the number of processes the runner has.",
 ["util/split_adaptor.hpp","util/split.hpp","external/openmp/openmp_state.hpp","external/mpi/mpi_vector_state.hpp"],
 [("split_offsets","util/split_adaptor.hpp"),("split_impl/unsplit_impl","external/openmp/openmp_state.hpp")])

prop("C25", "Extrapolation steppers eliminate the leading error terms at every order they use",
 "For every extrapolation order they can select, bulirsch_stoer, bulirsch_stoer_dense_out and extrapolation_stepper combine modified-midpoint results so that the combination is exact for every polynomial in the squared substep size of the degree used, with the substep counts actually used to produce those results. modified_midpoint splits the step into the configured number of equal substeps over exactly the step interval and is exact to second order.",
 ["inputs","histories"], "all systems, step sizes and extrapolation orders up to the maximum, all sequences of order changes",
 "Tests only see end results at default order; a wrong table entry for a rarely selected order just makes the controller pick other orders.",
 ["stepper/bulirsch_stoer.hpp","stepper/bulirsch_stoer_dense_out.hpp","stepper/extrapolation_stepper.hpp","stepper/modified_midpoint.hpp"],
 [("m_coeff, extrapolate","stepper/bulirsch_stoer.hpp"),("substep loop","stepper/modified_midpoint.hpp")],
 [("m_interval_sequence","substep counts","stepper/bulirsch_stoer.hpp"),("m_coeff","extrapolation weights","stepper/bulirsch_stoer.hpp")])

prop("C26", "Rosenbrock steppers realise a fourth-order linearly implicit scheme",
 "For every implicit system, one step of rosenbrock4 solves its stages with the matrix 1/(gamma*dt) - J built from the Jacobian at the beginning of the step, uses coefficients that satisfy the order conditions of a fourth-order Rosenbrock method with the stated embedded third-order error estimate, and includes the time derivative for non-autonomous systems. Every linear solve uses a factorisation made from the current matrix with freshly initialised pivots; implicit_euler does the same in its Newton iteration.",
 ["inputs"], "all systems with correct Jacobian and time derivative, all states, times, steps",
 "The Rosenbrock tests check one Lotka-type step against a stored number and that it compiles; non-autonomous terms and most order conditions are not excited.",
 ["stepper/rosenbrock4.hpp","stepper/implicit_euler.hpp"],
 [("default_rosenbrock_coefficients","stepper/rosenbrock4.hpp"),("do_step","stepper/rosenbrock4.hpp")])

prop("N01", "The requested tolerance bounds the global error of an adaptive run",
 "For every well-posed problem the error of a controlled integration at the end time is proportional to the requested absolute and relative tolerance.",
 ["inputs"], "all problems and tolerances",
 "Tests compare a few problems with known solutions.",
 ["stepper/controlled_runge_kutta.hpp"], [("error checker","stepper/controlled_runge_kutta.hpp")])
prop("N02", "Symplectic steppers keep the energy error bounded over long times",
 "For every Hamiltonian system and small enough step size the energy error of the symplectic steppers stays bounded over exponentially long times.",
 ["inputs","histories"], "all Hamiltonians, all run lengths",
 "Tests run one oscillator for a short time.",
 ["stepper/base/symplectic_rkn_stepper_base.hpp"], [("stage loop","stepper/base/symplectic_rkn_stepper_base.hpp")])
prop("N03", "Parallel backends give the sequential result for every schedule",
 "For every thread schedule, number of threads or processes the OpenMP, MPI and Thrust backends deliver the same trajectory as the sequential algebra.",
 ["schedules"], "all schedules and worker counts",
 "Tests run the schedules the machine happens to produce.",
 ["external/openmp/openmp_range_algebra.hpp","external/mpi/mpi_nested_algebra.hpp"], [("parallel loops","external/openmp/openmp_range_algebra.hpp")])
prop("N04", "Implicit solvers converge for every regular system",
 "The Newton iteration of implicit_euler terminates for every system and step size for which the implicit equation has a locally unique solution.",
 ["inputs"], "all systems, states and steps",
 "Tests use one linear system.",
 ["stepper/implicit_euler.hpp"], [("Newton loop","stepper/implicit_euler.hpp")])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        if not p["anchors"]["state"]: del p["anchors"]["state"]
        assert len(p["title"]) <= 80, p["title"]
        f.write(json.dumps(p) + "\n")
print(len(P), "properties")
