"""Writes properties.jsonl (one place to edit the property texts)."""
import json, os
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
S = "src/qutip_qtrl/"
P = []
def prop(id, title, statement, over, text, why, files, mech, observe, state=None):
    d = dict(id=id, title=title, statement=statement,
             quantifier=dict(over=over, text=text), why_tests_cant=why,
             anchors=dict(files=[S + f for f in files],
                          mechanism=[dict(name=n, where=S + w) for n, w in mech],
                          observe_at=observe, hook_needed=None))
    if state:
        d["anchors"]["state"] = [dict(name=n, meaning=m, where=S + w) for n, m, w in state]
    assert len(title) <= 80, (id, len(title))
    P.append(d)

prop("C01", "Pulse evolution is the time-ordered product of exact slot exponentials",
 "For any drift (constant or per-slot), any set of controls (constant or per-slot), any initial operator or state and any amplitudes, the computed full evolution equals the time-ordered product over the slots of the matrix exponential of slot duration times (drift + sum of amplitude times control), applied to the initial operator. For unitary dynamics the generator is multiplied by -i, for general dynamics it is used as given, and for symplectic dynamics it is multiplied on the right by minus the symplectic form (or on the left by the symplectic form when pre-multiplication is selected). Equality is up to floating point rounding and holds for every propagator method and for unequal slot durations.",
 ["inputs", "configurations"],
 "all generators (incl. degenerate, zero, commuting, non-Hermitian for general dynamics), 1..8 slots, equal/unequal durations, 1..3 controls, dimensions 2..6, states and operators, three dynamics types, five propagator methods",
 "The tests only check that an optimisation reaches its goal for five fixed systems; a wrong product order, time step or phase can still optimise successfully.",
 ["dynamics.py", "propcomp.py", "tslotcomp.py", "symplectic.py"],
 [("combination of drift and controls", "dynamics.py:_combine_dyn_gen"), ("slot propagators", "propcomp.py:_compute_propagator/_compute_prop_grad"), ("forward product", "tslotcomp.py:recompute_evolution"), ("eigen decomposition", "dynamics.py:DynamicsUnitary._spectral_decomp")],
 ["Dynamics.full_evo after initialize_controls and compute_evolution"])

prop("C02", "Reported gradient is the derivative of the reported fidelity error",
 "For every exact-gradient propagator method and every fidelity measure, each entry of the reported gradient equals the partial derivative of the reported fidelity error with respect to the amplitude of that control in that timeslot, as obtained from an independent computation. This includes generators with exactly or nearly degenerate spectra, pulses evaluated after other pulses, zero amplitudes, unequal slot durations, per-slot drifts and controls, and both phase conventions. The finite-difference fidelity measure reports the forward difference quotient of its own fidelity error with its configured step.",
 ["inputs", "configurations"],
 "all systems, amplitudes, slot durations, fidelity measures (PSU, SU, trace difference, finite difference), propagator methods, internal operator types",
 "No test looks at a gradient; a gradient that is wrong in some slots or for degenerate spectra still lets the fixed examples converge.",
 ["fidcomp.py", "propcomp.py", "dynamics.py"],
 [("gradient assembly", "fidcomp.py:compute_fid_grad/compute_fid_err_grad"), ("propagator gradients", "propcomp.py:_compute_prop_grad"), ("factor matrix for degenerate eigenvalues", "dynamics.py:_spectral_decomp"), ("PSU phase normalisation", "fidcomp.py:normalize_gradient_PSU")],
 ["FidelityComputer.get_fid_err_gradient", "FidelityComputer.grad_norm"])

prop("C03", "Fidelity errors equal their documented closed forms",
 "For unitary dynamics the fidelity error is |1-F| with F = |tr(T^dag U)|/tr(T^dag T) when global phase is ignored and F = Re tr(T^dag U)/tr(T^dag T) when it is respected, for gates and for state transfer alike; when these measures are chosen for other dynamics, the inverse of a gate target takes the place of T^dag in the overlap; for trace-difference it is scale times tr((T-U)^dag (T-U)), with scale 1/(2N) unless given explicitly. Hence the phase-insensitive error does not change when initial or target are multiplied by a phase, reaching the target exactly gives zero error, and for unitary gates the phase-insensitive error stays in [0,1] and the phase-sensitive one in [0,2].",
 ["inputs", "configurations"],
 "all evolutions and targets (gates, states, non-unitary maps), phases, explicit and default scale factors, dynamics types and fidelity measures that accept them",
 "Tests assert only that the final error is below a threshold, never its value for a known evolution.",
 ["fidcomp.py", "dynamics.py"],
 [("normalisation", "fidcomp.py:init_normalization"), ("PSU/SU", "fidcomp.py:normalize_PSU/normalize_SU"), ("trace difference", "fidcomp.py:FidCompTraceDiff.get_fid_err"), ("target adjoint", "dynamics.py:_get_onto_evo_target")],
 ["FidelityComputer.get_fid_err / get_fidelity"])

prop("C04", "Memory, data-type, caching and propagator options never change results",
 "Fidelity error, its gradient and the full evolution for a given problem and given amplitudes are the same, up to rounding, whatever memory-optimisation level, internal operator type, caching flags, exact propagator method or dense/sparse eigen-decomposition is selected, and whether a constant drift or control is supplied once or repeated for every slot. Switching on statistics, data dumping or unitarity checking does not change them either.",
 ["configurations", "inputs"],
 "all combinations of memory level 0/1/2, operator type, three caching flags, sparse decomposition, exact propagator methods, repeated per-slot generators, stats/dump/unitarity-check on or off, on arbitrary problems",
 "Tests run a handful of configurations and only check that each one separately reaches the goal.",
 ["dynamics.py", "propcomp.py", "tslotcomp.py", "fidcomp.py"],
 [("option defaults", "dynamics.py:_set_memory_optimizations"), ("phased generator caches", "dynamics.py:_get_phased_dyn_gen/_get_phased_ctrl_dyn_gen"), ("gradient cache", "dynamics.py:_get_prop_grad"), ("eigenvector adjoint cache", "dynamics.py:_get_dyn_gen_eigenvectors_adj")],
 ["get_fid_err, get_fid_err_gradient, full_evo"])

prop("C05", "Evaluations never depend on the history of previous evaluations",
 "After any sequence of amplitude updates (repeated, partial, reverted or identical), error evaluations, gradient evaluations, evolution reads, optimiser callback evaluations and re-initialisations (with the same or a new target, initial operator, time grid, generators, phase application, caching or operator type option, propagator or fidelity computer), the fidelity error, gradient, gradient norm and, once evaluated, every exposed evolution operator equal those of a freshly built problem given only the current amplitudes and settings. An update with identical amplitudes triggers no recomputation, and an update changing any single amplitude always takes effect.",
 ["histories", "inputs", "configurations"],
 "all sequences of operations on one dynamics/optimizer object, under each caching configuration",
 "Tests construct an object, run one optimisation and discard it; stale caches need particular sequences.",
 ["tslotcomp.py", "dynamics.py", "fidcomp.py", "optimizer.py"],
 [("change detection", "tslotcomp.py:compare_amps"), ("invalidations", "dynamics.py:flag_system_changed, fidcomp.py:flag_system_changed"), ("public view reset", "tslotcomp.py:recompute_evolution"), ("decomposition currency", "dynamics.py:_ensure_decomp_curr")],
 ["get_fid_err, get_fid_err_gradient, grad_norm, dyn_gen, prop, prop_grad, fwd_evo, onwd_evo, onto_evo, full_evo"],
 [("evo_current", "evolution matches the amplitudes", "dynamics.py"), ("fidelity_current / fid_err_grad_current", "cached values match the amplitudes", "fidcomp.py")])

prop("C06", "Exposed generators, propagators and partial evolutions are mutually consistent",
 "After an evaluation the exposed per-slot generators equal drift plus weighted controls; the exposed propagators their exponentials; the exposed propagator gradients their derivatives; the forward list has one entry more than there are slots, starts at the initial operator and each further entry is the slot propagator times the previous one; each onward entry is the product of the propagators from that slot to the end; and each onto-target entry is the inverse (adjoint for states and unitary problems) of the target times the onward product. All of them carry the shape and tensor dimensions of the corresponding input operators, for both internal operator types.",
 ["inputs", "configurations"],
 "all problems, dynamics types, internal operator types, state and gate problems, composite dimensions",
 "No test reads the per-slot lists other than one dump shape check.",
 ["dynamics.py", "tslotcomp.py"],
 [("public accessors", "dynamics.py:dyn_gen, prop, prop_grad, fwd_evo, onwd_evo, onto_evo, full_evo"), ("onward products", "tslotcomp.py:recompute_evolution"), ("target inverse", "dynamics.py:_get_onto_evo_target")],
 ["Dynamics public operator properties"])

prop("C07", "Evolutions preserve the structure of their dynamics",
 "Under unitary dynamics every propagator and cumulative evolution is unitary and states keep their norm; under symplectic dynamics with symmetric generators every propagator and cumulative evolution preserves the symplectic form of the documented block structure; under Lindblad generators the propagators preserve trace and Hermiticity of every density matrix. Enabled unitarity checking reports a non-unitary propagator exactly for slots where it is not unitary, and slots split into consecutive pieces with the same amplitudes yield the same final evolution.",
 ["inputs", "configurations"],
 "all Hermitian / symmetric / Lindblad generators, all amplitudes and durations, dimensions, propagator methods",
 "Tests never inspect structure of the resulting evolution; sampled goals do not imply it.",
 ["dynamics.py", "propcomp.py", "symplectic.py", "tslotcomp.py"],
 [("diagonal propagator", "propcomp.py:PropCompDiag"), ("symplectic phase", "dynamics.py:DynamicsSymplectic"), ("omega", "symplectic.py:calc_omega"), ("unitarity check", "dynamics.py:check_unitarity")],
 ["prop, fwd_evo, omega, calc_omega, logger warnings"])

prop("C08", "Time grid stays consistent under every way of setting it",
 "Whatever sequence of assignments is made to the number of slots, the total time and the slot durations, and after any initialisation, the number of durations equals the number of slots, durations add up to the total time (equal slots are stored in single precision), the time points start at zero, are one more than the slots and increase by exactly the durations. Assigning number or total time yields equal slots using the most recent values of both, and assigning durations makes both derived from them; saved amplitude rows use the slot start times.",
 ["histories", "inputs"],
 "all sequences of setter calls, reads and (re)initialisations with arbitrary positive values, also through the top-level entry points",
 "Tests set each value once; the interaction of the three setters depends on their order.",
 ["dynamics.py", "pulseoptim.py", "pulsegen.py"],
 [("setters", "dynamics.py:num_tslots, evo_time, tau"), ("generation", "dynamics.py:init_timeslots"), ("grid from parameters", "pulseoptim.py:create_pulse_optimizer")],
 ["num_tslots, evo_time, tau, time, get_amp_times"])

prop("C09", "An optimisation result truthfully describes the run that produced it",
 "For every algorithm, method and way of terminating, re-evaluating the problem independently at the returned final amplitudes gives the returned fidelity error and final evolution, and at the returned initial amplitudes gives the returned initial error and initial evolution; the initial amplitudes are the ones the run started from. The goal-achieved flag is set exactly when the returned error is at or below the target, counts of function calls and iterations equal the calls and iterations that actually happened, and the returned time points are those of the problem.",
 ["inputs", "configurations", "histories"],
 "all problems, optimisation methods, termination causes, repeated runs on one optimizer",
 "Tests check the goal flag and the error value of the result against the threshold only; they never recompute either from the returned pulse.",
 ["optimizer.py", "optimresult.py", "termcond.py", "errors.py"],
 [("result creation", "optimizer.py:_create_result"), ("common attributes", "optimizer.py:_add_common_result_attribs"), ("termination", "optimizer.py:_interpret_term_exception"), ("callbacks", "optimizer.py:fid_err_func_wrapper, fid_err_grad_wrapper, iter_step_callback_func")],
 ["OptimResult attributes"])

prop("C10", "Control amplitudes always respect the requested bounds",
 "With lower and/or upper amplitude bounds given as scalars (including zero) or per-control lists, every pulse evaluated and returned by a bounded gradient-based optimisation, and every initial pulse generated for it, lies within the bounds of its control in every slot. The same holds for every pulse of a basis-function (CRAB) optimisation, whatever coefficients, guess pulse or ramping are used, and bounds set directly on individual optimisation parameters are obeyed as set.",
 ["inputs", "configurations", "histories"],
 "all bounds (one-sided, two-sided, zero, asymmetric, per control, per parameter), initial pulse types, scaling/offset, algorithms",
 "Tests use one symmetric bound pair on two systems and look only at the final amplitudes.",
 ["optimizer.py", "pulseoptim.py", "pulsegen.py"],
 [("bounds list", "optimizer.py:_build_bounds_list"), ("pulse shifting/scaling", "pulsegen.py:_apply_bounds_and_offset"), ("tanh bounding", "pulsegen.py:_init_bounds/_apply_bounds"), ("distribution of bounds to generators", "pulseoptim.py:create_pulse_optimizer")],
 ["final_amps, initial_amps, amplitudes seen by each evaluation, gen_pulse"])

prop("C11", "Termination conditions stop the run and are reported correctly",
 "A run never performs more iterations than the iteration limit and never evaluates the error beyond the function-call limit by more than one call, stops at the first evaluation whose error is at or below the target and at the first gradient whose norm is below the minimum, and stops at the first iteration found beyond the wall-time limit. Exactly the flag and reason for the condition that stopped the run are reported, a run that stopped for any reason never leaves the reason unset, and termination conditions passed to a later run of the same optimizer replace the earlier ones.",
 ["inputs", "configurations", "histories"],
 "all limits (including 1 and values met by the initial pulse), methods, problems, sequences of runs",
 "Tests check that each of three limits triggers once on one system.",
 ["optimizer.py", "termcond.py", "errors.py"],
 [("limit checks", "optimizer.py:fid_err_func_wrapper, fid_err_grad_wrapper, iter_step_callback_func"), ("method options", "optimizer.py:_build_method_options"), ("warn flags", "optimizer.py:run_optimization (each optimizer)")],
 ["OptimResult flags, termination_reason, counts"])

prop("C12", "Initial pulses have their documented shape, size and range",
 "Every pulse generator returns one real value per timeslot; linear, zero, sine, square, saw, triangle, Gaussian and Gaussian-edge pulses equal the documented waveform sampled at the slot start times, multiplied by the scaling and shifted by the offset, for equal and unequal slots and for every documented way of specifying them; random pulses stay in their documented range and step sizes. When bounds are set the pulse is only shifted when one bound is exceeded and scaled only when its range does not fit, is otherwise unchanged, and always ends up within them.",
 ["inputs", "configurations"],
 "all generator types, parameters (waves, wavelength, frequency, phase, gradient, start/end, mean, variance, decay), slots, scalings, offsets, bounds; random seeds",
 "Tests check value ranges of each generator type for one time grid and one parameter set.",
 ["pulsegen.py"],
 [("base class", "pulsegen.py:PulseGen.init_pulse/_apply_bounds_and_offset"), ("waveforms", "pulsegen.py:PulseGenLinear, PulseGenPeriodic subclasses, PulseGenGaussian*"), ("random", "pulsegen.py:PulseGenRandom, RndFourier, RndWaves, RndWalk1/2")],
 ["create_pulse_gen(...).gen_pulse()"])

prop("C13", "CRAB pulses are the documented function of their coefficients",
 "A CRAB pulse equals the sum of coefficient-weighted sines and cosines at its frequencies sampled at slot start times, combined with the guess pulse by addition or by modulation (1+pulse)*guess, multiplied by the ramping pulse and finally squashed by the documented tanh bounds; with free frequencies the third coefficient of each pair is the frequency. Reading the optimisation variables and writing them back reproduces the same pulse, variables are partitioned over the controls in order, frequencies without randomisation are the harmonics of the pulse time and with it differ by offsets spread over the range from minus to plus one half, random coefficients are spread over the range from minus to plus the scaling, and the number of variables is basis functions times coefficients.",
 ["inputs", "configurations", "histories"],
 "all coefficients, numbers of coefficients, fixed/free frequencies, guess actions, ramping, bounds, time grids, multi-control partitions",
 "Tests only check that CRAB reaches a goal on two systems with fixed settings and seeds.",
 ["pulsegen.py", "optimizer.py", "pulseoptim.py"],
 [("expansion", "pulsegen.py:PulseGenCrabFourier.gen_pulse"), ("coefficients", "pulsegen.py:PulseGenCrab.init_coeffs/set_coeffs/get_optim_var_vals"), ("partition", "optimizer.py:OptimizerCrab._get_ctrl_amps"), ("setup", "pulseoptim.py:create_pulse_optimizer")],
 ["PulseGenCrabFourier", "OptimizerCrab* evaluations"])

prop("C14", "Entry points agree and every parameter reaches what it configures",
 "The general and unitary entry points, for gradient and basis-function optimisation, and manually running the optimiser built by the factory give identical results for the same problem and random state; deprecated parameters behave as their replacements and never override what a parameter dictionary gives explicitly. Every option passed (times, bounds, targets and limits, type selectors, parameter dictionaries for optimiser, dynamics, propagator, fidelity, timeslot and pulse objects, scaling and offset, guess and ramping) is visible on the object it configures; unknown selectors are rejected with a usage error.",
 ["inputs", "configurations"],
 "all combinations of options and entry points on arbitrary problems",
 "Tests exercise each entry point with one option set and never compare entry points with each other.",
 ["pulseoptim.py", "optimconfig.py"],
 [("entry points", "pulseoptim.py:optimize_pulse, optimize_pulse_unitary, opt_pulse_crab, opt_pulse_crab_unitary"), ("factory", "pulseoptim.py:create_pulse_optimizer")],
 ["OptimResult equality, attributes of the created objects"])

prop("C15", "GRAPE unitary optimisation follows its documented update and outputs",
 "Starting from given initial pulses, each iteration of either unitary GRAPE variant changes every control sample but the last by the documented step times the gradient, to first order in the slot duration, of the overlap with the target (its real part if phase-sensitive, else its squared modulus) minus the derivatives of the power penalty alpha*u^2*dt and the bandwidth penalty beta*m^2*u^2*dt of slot m, and then repeats the last but one sample; the plain and the compiled-style variant agree; with amplitude limits the initial pulse and every sample of every recorded iteration stay within them. The returned final unitary and final time-dependent Hamiltonian describe the last recorded iterate: it is the product of the exponentials of the returned drift and controls with its samples on the given time grid, and interpolated controls keep their last sample after the end of the grid. Given arguments are not modified and limits that are not a pair are rejected.",
 ["inputs", "configurations"],
 "all Hermitian problems, dimensions 2..4, controls, time grids, iteration counts, steps, limits, penalties, phase sensitivity, initial-pulse interpolation",
 "Tests run three fixed problems and check only that the final overlap is high.",
 ["grape.py", "cy_grape.py"],
 [("update", "cy_grape.py:cy_grape_inner"), ("loops", "grape.py:grape_unitary, cy_grape_unitary"), ("outputs", "grape.py:GRAPEResult")],
 ["GRAPEResult.u, U_f, H_t"])

prop("C16", "Adaptive GRAPE accepts only improving steps and describes its final pulse",
 "Adaptive GRAPE tries, in every iteration, the gradient update of the current pulse with half, the same and twice the current step, continues from the candidate with the largest overlap and its step, and keeps the current pulse with half the step when every candidate has a smaller overlap, so the overlap of the recorded iterates with the target never decreases; the logged overlaps are those of the recorded iterates. It stops after the first iteration whose overlap exceeds the overlap target and else performs all iterations. Its last iterate, final unitary and final Hamiltonian describe one and the same pulse, and amplitude limits hold for every recorded iterate.",
 ["inputs", "configurations"],
 "all Hermitian problems, controls, step lists, overlap targets, limits, iteration counts",
 "One test runs a fixed problem and checks that the final overlap is high.",
 ["grape.py", "cy_grape.py"],
 [("adaptive loop", "grape.py:grape_unitary_adaptive")],
 ["GRAPEResult.u, U_f, H_t"])

prop("C17", "Parameter files set exactly the attributes they name, correctly typed",
 "Loading an ini file sets, on each object passed, every option of its section that names an existing attribute to the value written in the file, converted to the type of the attribute's present value (integer, float incl. numeric expressions, boolean, text, complex, list, array of its element type, Qobj) or, when that value is None, to the number, boolean or text the value reads as; it changes no other attribute and no other object, ignores other sections, and values of a file loaded later replace those of an earlier one. A malformed value leaves its attribute as it was; a missing file, a missing section name or a section name that is not text is an error and changes nothing.",
 ["inputs", "configurations"],
 "all combinations of sections, option names, numbers, booleans and texts in files, and of target objects",
 "Tests load one file and check a few attributes.",
 ["loadparams.py", "optimconfig.py"],
 [("parser", "loadparams.py:load_parameters"), ("typing", "loadparams.py:set_param")],
 ["attributes of the objects after load_parameters"])

prop("C18", "Dumped data are faithful snapshots of what was computed",
 "With dumping enabled, one item per recomputation (dynamics) and one entry per error evaluation, gradient evaluation and iteration (optimiser) is recorded, in order; each recorded amplitude, generator, propagator, gradient, evolution and error equals what was computed at that moment and is unaffected by later computations. The level determines which kinds are recorded: NONE nothing, SUMMARY only summaries, FULL everything the problem uses, CUSTOM what is selected (starting from SUMMARY and kept when CUSTOM is set again); the level read back is the one the selection amounts to. Written files, during the run or written out explicitly to a directory, file or stream, contain exactly the data recorded in memory in readable numeric form with the chosen separators, names and extension, one file per kind and item, inside the configured directory only (summaries in the summary file named, if one is).",
 ["histories", "configurations", "inputs"],
 "all sequences of evaluations with every dump level and custom selection, file writing on/off, operator types",
 "One test checks counts of files for one run per level, never their contents.",
 ["dump.py", "tslotcomp.py", "optimizer.py", "io.py"],
 [("logging", "dump.py:OptimDump, DynamicsDump"), ("write-out", "dump.py:EvoCompDumpItem.writeout, OptimDump.writeout"), ("hook", "tslotcomp.py:dump_current")],
 ["dump.evo_dumps, dump.*_log, files in dump_dir"])

prop("C19", "Statistics count exactly what happened",
 "With statistics enabled, the numbers of iterations, error evaluations, gradient evaluations, evolution recomputations, error and gradient computations, amplitude updates, changed amplitudes and changed timeslots equal the numbers observed from outside for the same run, derived averages are the corresponding quotients, time totals are non-negative and do not exceed the run's wall time, and a new run starts from zero.",
 ["histories", "inputs", "configurations"],
 "all runs and sequences of runs, problems, methods and termination causes",
 "Tests only check that a statistics object exists and report runs.",
 ["stats.py", "optimizer.py", "tslotcomp.py", "fidcomp.py"],
 [("counters", "tslotcomp.py:compare_amps, recompute_evolution; fidcomp.py; optimizer.py callbacks"), ("averages", "stats.py:Stats.calculate"), ("reset", "stats.py:Stats.clear")],
 ["OptimResult.stats"])

prop("C20", "Ill-formed problems are rejected before anything is computed",
 "A drift, control collection, initial or target that is not an operator or a documented container of operators (also at any position within a list, tuple, per-slot list or two-dimensional array, and rows of per-slot controls of different lengths) is rejected with a type error (or a value error of the array) before any evolution is computed, while the equivalent well-formed problem is accepted in every documented container form with the same result. An unknown internal operator type, sparse decomposition for a two-level system, an invalid phase option, dump level or type selector, a missing time specification, missing termination conditions or targets, uninitialised controls, a pulse type without implementation and CRAB generators that do not match the controls are each rejected with the documented type, value or usage error. A rejected call leaves the objects given and the settings in force unchanged.",
 ["inputs", "configurations"],
 "all argument positions and all kinds of wrong values, all documented containers for right ones",
 "Tests cover four wrong-type cases.",
 ["dynamics.py", "pulseoptim.py", "optimizer.py", "fidcomp.py", "errors.py"],
 [("container checks", "dynamics.py:_check_ctrls_container, _check_drift_dyn_gen"), ("usage errors", "pulseoptim.py:create_pulse_optimizer, optimizer.py:init_optim")],
 ["exceptions raised"])

prop("C21", "Amplitude files reproduce the pulses they save",
 "Saving amplitudes writes one row per timeslot with the slot start time (unless excluded) followed by one column per control, and reading the file back gives the saved values to the printed six significant digits; explicitly passed times, amplitudes or file names are used instead of the current ones. An optimisation with an output extension saves the initial and the final amplitudes of that very run under the documented names.",
 ["inputs", "histories"],
 "all amplitude arrays (magnitudes, signs, exponents), time grids, control counts, options; runs via the entry points",
 "Tests check that files exist after one run.",
 ["dynamics.py", "pulseoptim.py"],
 [("saving", "dynamics.py:save_amps"), ("run files", "pulseoptim.py:optimize_pulse")],
 ["files written"])

prop("C22", "Runs are isolated: inputs and earlier results are never modified",
 "No entry point, evaluation or optimisation modifies the operators, amplitude arrays, duration arrays, bound lists or parameter dictionaries supplied by the caller, and results, dumps and pulses obtained earlier are not changed by later evaluations, runs or resets. Modifying an array after handing it over does not corrupt later evaluations, and repeating a call with the same inputs and random state gives the same result. An optimiser gives the same results, with the same settings, whether or not another one is made and used in between.",
 ["histories", "inputs"],
 "all sequences of entry point calls and runs, with caller-side mutations in between",
 "Tests never look at inputs after the call and never reuse a result.",
 ["pulseoptim.py", "dynamics.py", "optimizer.py", "pulsegen.py", "tslotcomp.py"],
 [("argument handling", "pulseoptim.py"), ("amplitude storage", "tslotcomp.py:compare_amps"), ("result copies", "optimizer.py:_create_result")],
 ["caller objects and earlier results after later calls"])

prop("C23", "Optimisation never ends worse than it started",
 "Whenever a gradient or simplex run stops by convergence or by an iteration or evaluation limit reported by the minimiser itself, the returned error does not exceed the initial error, and a run started from an already optimal pulse returns it unchanged. A gradient-based run that converges ends at a point whose independently computed gradient, projected on the bounds, meets the requested tolerance.",
 ["inputs", "configurations"],
 "all problems, methods, bounds and limits",
 "Tests use only examples that converge to the goal.",
 ["optimizer.py"],
 [("return of the minimiser's best point", "optimizer.py:run_optimization (each optimizer)")],
 ["OptimResult.fid_err, initial_fid_err, final_amps"])

prop("C24", "Symmetries of a control problem are symmetries of its evaluation",
 "The fidelity error, its gradient and the full evolution are carried over unchanged, or in the way the symmetry prescribes, when a problem is stated differently: in another basis, with the controls in another order or other units, with constant parts of the amplitudes moved into the drift, with additional controls without effect, with constant operators given per slot, in other units of time, with an energy offset (phase-insensitive error), with phases on initial and target, with an uncoupled subsystem added, complex conjugated, backwards in time from target to initial, with a unitary initial operator moved into the target, as general dynamics with the same literal generators, or with the trace difference in place of the phase-sensitive error of a unitary problem.",
 ["inputs", "configurations"],
 "all problems of the three dynamics types, all chains of one to three of these changes, the two problems having independent internal options",
 "Tests never state the same problem twice; a deviation that depends on the representation (size, order, sign, dtype, scale) shows in no single example.",
 ["dynamics.py", "propcomp.py", "tslotcomp.py", "fidcomp.py"],
 [("generators and phases", "dynamics.py:_combine_dyn_gen, _apply_phase"), ("normalisation", "fidcomp.py:init_normalization, normalize_*"), ("gradients", "fidcomp.py:compute_fid_grad, propcomp.py:_compute_prop_grad")],
 ["get_fid_err, get_fid_err_gradient, full_evo of both problems"])

with open(os.path.join(ROOT, "properties.jsonl"), "w") as f:
    for d in P:
        f.write(json.dumps(d) + "\n")
print(len(P))
