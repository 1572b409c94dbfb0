"""Single source for properties.jsonl and MANIFEST.json (run: python3 tools/props.py)."""
import json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []
def prop(id, title, statement, over, qtext, why, files, mech, technique, note, observe=None, level="exploration"):
    assert len(title) <= 80, title
    assert statement.count(". ") <= 2, (id, statement)
    P.append(dict(id=id, title=title, statement=statement, over=over, qtext=qtext, why=why, files=files,
                  mech=mech, technique=technique, note=note, observe=observe or [], level=level))

E = "PyEMD/EMD.py"
prop("C01", "EMD components are finite and always add back up to the input signal",
 "Decomposing any finite one-dimensional signal of two or more samples succeeds and returns a two-dimensional floating-point array whose rows all have the signal's length and contain only finite numbers. The rows add up, sample by sample, to the input (to within 1e-8 plus rounding), whatever the spline kind, extrema detection, mirroring depth, stopping rule, time axis and component limit.",
 ["inputs", "configurations"], "all finite signals with N>=2 (|S| up to ~1e9), all documented configurations (interpolated detection: axes whose steps differ by at most about a factor ten; apart from sifting that diverges, see DESIGN.md)",
 "tests decompose a handful of smooth float64 signals with default options; the guarantee is over every signal shape (plateaus, ties, very short, huge/tiny amplitude) times every configuration",
 [E, "PyEMD/splines.py"], [("residue accounting and appending of the residue row", "EMD.emd"), ("edge mirroring and spline fallbacks that keep envelopes full length and finite", "EMD.prepare_points*, EMD.spline_points")],
 "conservation monitor on the public decomposition API under generated signal/config workloads",
 "Held on the executions produced; tolerance 1e-8 (documented closeness cut of the residue) plus rounding.", ["EMD.emd return value"])
prop("C02", "Result accessors always describe the most recent decomposition",
 "After a decomposition the components and residue that can be retrieved from the decomposer are exactly those of its latest run: components plus residue give back the signal, the returned array is the components followed by the residue row whenever the residue is not negligible, and the trend is the residue, or the slowest component when the residue is negligible. Asking before any run is an error, and a visualiser built from a decomposer shows that same latest result.",
 ["inputs", "histories", "configurations"], "every sequence of decompositions on one instance of plain EMD, EEMD and CEEMDAN",
 "tests call the accessors once after one run of one signal",
 [E, "PyEMD/EEMD.py", "PyEMD/CEEMDAN.py", "PyEMD/visualisation.py"], [("imfs/residue bookkeeping", "EMD.emd, EEMD.eemd, CEEMDAN.ceemdan"), ("accessors", "get_imfs_and_residue, get_imfs_and_trend")],
 "state/return-value consistency monitor over random call histories", "Observed at the public accessors after every call of a random history.")
prop("C03", "A component limit truncates the decomposition and changes nothing else",
 "With a positive component limit m, plain EMD returns at most m oscillatory components followed by the residue, and those components are identical to the first ones of the unlimited decomposition of the same signal. A limit that is not reached, zero, or negative leaves the result identical to the unlimited one.",
 ["inputs", "configurations"], "all signals, all limits, all configurations of plain EMD",
 "tests check one or two limits on one signal and only the row count",
 [E], [("imfNo == max_imf stop and trend dropping", "EMD.emd")],
 "metamorphic monitor: limited vs unlimited run of the same signal", "Prefix identity is checked value by value for every limit up to the full depth.")
prop("C04", "Sifting stops exactly when the selected stopping rule says so",
 "Each extracted component is the result of repeatedly subtracting the mean of the upper and lower envelope from the current residue until the selected rule fires. With a fixed count it is exactly that many sifts; with the extrema/zero-crossing rule it is the requested number of consecutive sifts (from the second on) in which the numbers of extrema and zero crossings differ by at most one; by default it is the first sift meeting that balance and one of the convergence thresholds with non-negative maxima and non-positive minima. The iteration cap bounds every component, and sifting that runs out of extrema ends the decomposition.",
 ["inputs", "configurations"], "all signals and all settings of the stopping options and thresholds",
 "no test compares a component with the sifting definition; they only count rows for friendly signals",
 [E], [("inner sifting loop, counters and check_imf", "EMD.emd, EMD.check_imf")],
 "per-component differential monitor against an executable sifting model with noise-injected ambiguity detection",
 "Rows whose stopping decision depends on rounding (model replays with injected rounding noise disagree) are counted as ambiguous, not judged.")
prop("C05", "Decomposition terminates and stops for the documented reasons only",
 "Every decomposition finishes after a bounded number of components and keeps extracting as long as the residue still has at least three extrema, its range is not below the range threshold, its total absolute value is not below the power threshold and the component limit is not reached. It stops at the first component at which one of these fails, a last candidate left with fewer than three extrema is reported as residue rather than as a component, and monotonic or constant input yields no oscillatory component.",
 ["inputs", "configurations"], "all signals and dtypes, all positive threshold settings (interpolated detection: axes whose steps differ by at most about a factor ten)",
 "tests only see friendly signals; thresholds near the decision boundary and low-precision inputs are not exercised",
 [E], [("end_condition, trend detection and final trimming", "EMD.emd, EMD.end_condition")],
 "per-step monitor of the stop decision against the model, with logical step bound for termination",
 "Termination is bounded progress: a logical bound on components per signal and a 1000x wall-clock watchdog.")
prop("C06", "Sample-based extrema and zero crossings are exactly the mathematical ones",
 "With sample-based detection the reported maxima (minima) are exactly the interior samples or flat runs strictly above (below) both neighbouring values, a flat run being reported once at its middle sample (the even-numbered of two), and never a run touching either end of the signal. Reported values are the signal values there, positions are increasing, maxima and minima alternate, and zero crossings are exactly the sign changes plus one entry for each zero or run of zeros.",
 ["inputs"], "all one-dimensional signals including plateaus at any position, ties, zeros and runs of zeros",
 "tests use a few hand-written vectors; plateaus at each edge position, repeated plateaus and zero runs are a combinatorial space",
 [E], [("difference sign changes plus plateau handling", "EMD._find_extrema_simple")],
 "differential monitor against a brute-force run-length oracle; small-alphabet exhaustive enumeration plus random signals",
 "All signals over a 3-letter alphabet up to a length bound are enumerated, longer ones sampled.")
prop("C07", "Interpolated extrema are the vertices of the local parabolas, for any time axis",
 "With interpolated detection there is exactly one extremum for each turning point of the signal, of the same kind, located at the vertex of the parabola through the turning sample and its two neighbours (for a flat turning run, its centre) with the parabola's value there. This holds for uniform and non-uniform time axes, long signals and large time offsets, and zero crossings are reported as for sample-based detection.",
 ["inputs"], "all signals, all strictly increasing time axes",
 "tests use short uniform axes starting near zero",
 [E], [("parabola vertex and selection of turning points", "EMD._find_extrema_parabol, EMD._not_duplicate")],
 "differential monitor against an exact rational-arithmetic oracle for the vertex",
 "Vertices recomputed with exact fractions; tolerance relative to local step and value range.")
prop("C08", "Envelopes interpolate the extrema, are mirrored at the edges and span the signal",
 "The upper (lower) envelope is the chosen spline through all maxima (minima) extended beyond both ends by mirroring up to the configured number of extrema about the outermost extremum or the end point, as the signal's edge values dictate. Each envelope has one finite value per sample, the knots strictly increase, include every detected extremum unchanged and reach at least both ends of the time axis.",
 ["inputs", "configurations"], "all signals with three or more extrema, all spline kinds, mirroring depths and detection modes",
 "tests check the mirroring of three or four hand-made signals with depth 2",
 [E, "PyEMD/splines.py"], [("mirroring", "EMD.prepare_points_simple/_parabol"), ("spline construction", "EMD.spline_points, PyEMD/splines.py")],
 "invariant monitor on knots/envelopes plus differential check against an executable mirroring and spline model",
 "Both the structural invariants and the exact knots/values are judged at the envelope-extraction API.")
prop("C09", "The time axis matters only through relative spacing, and bad axes are rejected",
 "With sample-based detection the result does not depend on the supplied time values at all. With interpolated detection it is unchanged when the time axis is shifted or rescaled by a positive factor, uses the actual spacing of irregular axes, and defaults to unit spacing when no axis is given. A time axis of a different length or with repeated values (where the axis is used) raises an error instead of producing components.",
 ["inputs", "configurations"], "all signals and all strictly increasing time axes (component values: steps differing by at most about a factor ten), all affine changes of axis",
 "tests run a couple of linspace axes and one wrong length",
 [E, "PyEMD/EEMD.py", "PyEMD/CEEMDAN.py"], [("time normalisation and axis selection", "EMD.emd, EMD._normalize_time"), ("length check", "EMD.emd")],
 "metamorphic monitor (axis transformations) plus differential check of irregular axes against the model",
 "Affine factors over 12 orders of magnitude; ambiguous (rounding decided) cases are excluded by the model.")
prop("C10", "Signal data type and length never change or break the decomposition",
 "Signals of any integer type or floating type up to double precision decompose to the same components as their double-precision copy, at any length, including lengths the signal's own type cannot count. The generated sample positions are always exactly 0,1,2,...,N-1 without wrap-around or repeats, and combining two data types never loses values of either.",
 ["inputs"], "all numpy integer/float dtypes, all lengths up to >65536, memory layouts",
 "tests cover one int16 length; the interesting lengths are type-specific overflow and precision limits",
 ["PyEMD/utils.py", E, "PyEMD/EEMD.py"], [("timeline generation with smallest sufficient dtype", "utils.get_timeline, utils.smallest_inclusive_dtype"), ("type unification", "utils.unify_types")],
 "differential monitor (dtype twin runs) and exhaustive boundary-length monitor of the timeline generator",
 "Every dtype at its boundary lengths plus random lengths.")
prop("C11", "Decompositions are pure: no input mutation, no hidden state, no history effects",
 "A decomposition never modifies the caller's arrays, the instance's settings or the global random state, works on read-only and non-contiguous input, and returns arrays that do not share memory with the input and are left alone by later calls. Its result depends only on the signal, time axis, limit, settings and (for ensemble methods) the instance's noise seed, never on what the same or another instance processed before, including calls that failed.",
 ["histories", "inputs", "configurations"], "all call histories (lengths, dtypes, limits, failing calls interleaved) on shared and fresh instances of every decomposer",
 "tests use one fresh instance per signal, so carry-over state, caches and aliasing are invisible to them",
 [E, "PyEMD/EEMD.py", "PyEMD/CEEMDAN.py", "PyEMD/EMD_matlab.py", "PyEMD/utils.py"], [("local working copies", "EMD.emd"), ("per-run initialisation of ensemble state", "EEMD.eemd, CEEMDAN.ceemdan")],
 "snapshot/alias monitor and history replay against fresh instances", "Histories mix lengths, dtypes, limits and failing calls; results compared bit for bit with a fresh instance.")
prop("C12", "EMD commutes with sign flip, time reversal, and (fixed sifting) shift and scale",
 "Decomposing the negated signal gives the negated components, and decomposing the time-reversed signal without ties gives the time-reversed components. With a fixed number of sifts and no stop by the power threshold, adding a constant changes only the residue, and multiplying the signal and the amplitude thresholds by the same positive factor multiplies every component by it.",
 ["inputs", "configurations"], "all signals and configurations",
 "tests never relate two runs to each other",
 [E, "PyEMD/splines.py"], [("symmetric treatment of maxima/minima and of left/right edge", "EMD.prepare_points*, EMD.check_imf, EMD.find_extrema")],
 "metamorphic monitor over pairs of transformed runs", "Mismatches are judged only when the model shows no rounding-decided step.")
EE = "PyEMD/EEMD.py"
prop("C13", "EEMD output is exactly the per-order mean of all trials, none lost or repeated",
 "An ensemble decomposition runs exactly the configured number of trials and averages, for each component order, over precisely the trials that produced that order; the reported per-order collections, counts, means and standard deviations describe exactly those trials, and orders are listed from fastest to slowest. When trends are separated, the last entry averages the trend of every trial and the others contain no trend; the residue is the signal minus all reported components.",
 ["inputs", "configurations", "schedules"], "all signals, trial counts, worker counts, limits and trial outcomes with differing component numbers",
 "tests check shapes with a few trials; uneven component counts, chunking over workers and separated trends are not examined",
 [EE], [("trial mapping and grouping by order", "EEMD.eemd, EEMD._trial_update"), ("ensemble statistics", "EEMD.ensemble_*")],
 "exactly-once and conservation monitor over recorded trial events (recording decomposer, serial and multi-process)",
 "Trial inputs are recovered from the outputs of an instrumented decomposer so that every trial is accounted for.")
prop("C14", "Every EEMD trial sees the signal plus its own fresh noise of the documented kind",
 "Each trial decomposes the signal plus independent zero-mean white noise: Gaussian with standard deviation equal to the relative width times the signal's peak-to-peak amplitude, or uniform over an interval of that total width, for any signal type. No two trials, in one call or across calls and workers, share noise; zero width makes every trial the plain decomposition; the time axis and component limit reach every trial unchanged, and unknown noise kinds are rejected.",
 ["inputs", "configurations", "schedules"], "all signals/dtypes, widths, kinds, trial and worker counts, repeated calls",
 "tests only check that a seed reproduces results serially; noise equality between parallel trials is invisible in averaged output",
 [EE], [("noise generation in trial order by the parent", "EEMD.eemd, EEMD.generate_noise")],
 "recorded-noise monitor: pairwise distinctness, moments, bounds and whiteness of the noise seen by each trial",
 "Statistical bounds sit at >=6 sigma so that a correct implementation never alarms.")
prop("C15", "Seeded EEMD runs are reproducible for any worker count",
 "Setting the noise seed makes the following ensemble decomposition reproducible: same seed, same signal and settings give the same result on the same or a fresh instance, and different seeds give different noise. Serial and parallel execution with any number of workers, with or without progress display, give the same result for the same seed, and without reseeding consecutive runs differ.",
 ["configurations", "schedules", "histories"], "all seeds, trial counts, worker counts and call histories",
 "tests compare two serial runs of one seed",
 [EE], [("own random generator, seeded by noise_seed, consumed in trial order", "EEMD.noise_seed, EEMD.eemd")],
 "replay monitor: repeated, serial and multi-worker executions of the same seed", "Worker counts 1..8 with chunking and start-up jitter injected through the trial decomposer.")
CE = "PyEMD/CEEMDAN.py"
prop("C16", "CEEMDAN is complete: components sum to the signal, finite, within the limit",
 "For any finite signal CEEMDAN returns finite components of the signal's length whose sum equals the signal to rounding, the final one being what the others leave over, and reports a residue of zero to rounding. With a component limit m there are at most m components plus the final remainder, and every run ends.",
 ["inputs", "configurations"], "all signals (constant, short, huge/tiny scale, integer), all noise strengths, kinds, limits and worker counts",
 "tests check shapes on one random signal",
 [CE], [("normalisation, remainder row and rescaling", "CEEMDAN.ceemdan"), ("end condition", "CEEMDAN.end_condition")],
 "conservation and bound monitor on the public API", "Completeness is judged relative to the signal's scale.")
prop("C17", "CEEMDAN follows the published adaptive-noise averaging at every order",
 "The first component is the average, over all trials, of the first plain-EMD component of the normalised signal plus the noise strength times that trial's first (unit-variance when noise scaling is on) noise component. Every later component is the previous remainder minus the trial average of the local means of that remainder plus the noise strength times the remainder's deviation times the trial's noise component of the same order (no noise if it has none), until the limit is reached, the remainder has too few extrema or is below the range or power threshold.",
 ["inputs", "configurations"], "all signals, trial counts, noise strengths/kinds, scaling on or off, limits, thresholds",
 "no test compares values with the algorithm; a wrong noise order, scaling or divisor keeps shapes and the sum intact",
 [CE], [("noise decomposition and normalisation", "CEEMDAN._decompose_noise"), ("local-mean recursion", "CEEMDAN.ceemdan"), ("first mode", "CEEMDAN._eemd, CEEMDAN._trial_update")],
 "differential monitor against an executable CEEMDAN model driven by the same noise", "Uses the repository's plain EMD for the inner decompositions (judged by C01-C12).")
prop("C18", "Seeded CEEMDAN runs are reproducible for any worker count",
 "Given the same seed (at construction or set later), signal and settings, CEEMDAN gives the same components on the same or a fresh instance, serially or with any number of workers, up to rounding of sums, regardless of the order in which workers finish. Different seeds, or consecutive runs without reseeding, use different noise, and all trials of a run use different noise.",
 ["configurations", "schedules", "histories"], "all seeds, worker counts, completion orders and call histories",
 "tests compare two serial runs of one seed",
 [CE], [("all noise drawn up front by the parent", "CEEMDAN.ceemdan"), ("order-insensitive accumulation", "CEEMDAN._eemd")],
 "replay monitor over serial, parallel and delay-injected executions", "Worker completion order is perturbed by delays injected in the trial decomposer; distinct completion orders observed are counted.")
J = "PyEMD/experimental/jitemd.py"
prop("C19", "The compiled EMD gives the same decomposition as the regular one",
 "On double-precision signals with the sample-index time axis, the just-in-time compiled decomposer (function and class) returns the same components and residue as the regular EMD with the same spline (cubic, akima, linear, quadratic), extrema detection, mirroring depth, thresholds, stopping rule and component limit. Its separated trend agrees too, and it can serve as the trial decomposer of EEMD with identical results to the regular one.",
 ["inputs", "configurations"], "all signals, the configurations both implementations support",
 "no test imports the compiled module",
 [J, E], [("ported sifting loop and numba kernels", "jitemd.emd, jitemd._find_extrema_*, jitemd._prepare_points_*"), ("class wrapper", "JitEMD")],
 "differential monitor: compiled vs regular implementation on the same workload", "Compiles the module from the working tree on every run.")
M = "PyEMD/EMD_matlab.py"
prop("C20", "The MATLAB-compatible EMD reconstructs its input and reports consistent tables",
 "For double-precision signals the MATLAB-compatible variant finishes and returns components numbered consecutively from zero that sum to the signal, with matching tables of extrema and iteration counts and the component count. A component limit of two or more bounds the number of returned components including the residue, the fixed-sift rule uses the requested number of sifts for every component, and extrema and zero crossings agree with the regular sample-based detection.",
 ["inputs", "configurations"], "all double-precision signals, limits, stopping settings",
 "tests run two signals",
 [M], [("sifting loop and dictionaries", "EMD_matlab.EMD.emd"), ("extrema", "EMD_matlab.EMD.findExtrema")],
 "conservation and table-consistency monitor plus differential extrema check", "Single-sample or low-precision input is outside the claim.")
prop("C21", "White-noise significance verdicts follow the Wu-Huang test",
 "The a-priori test marks a component significant exactly when the logarithm of its mean squared value lies outside the confidence band around minus the logarithm of its mean period, for the requested confidence; the a-posteriori test compares energies rescaled so that the chosen reference component sits on the upper band limit, so the reference is never significant and the units of the data do not matter. Exactly one 0/1 verdict per component is returned, raising the confidence never turns an insignificant component significant in the a-priori test, and empty or not-a-number input yields no verdicts while invalid arguments are rejected.",
 ["inputs", "configurations"], "all component arrays, confidences in (0,1), reference choices, both tests",
 "tests only look at the return type",
 ["PyEMD/checks.py"], [("limits and rescaling", "checks.whitenoise_check, significance_*"), ("mean period and energy", "checks.mean_period, checks.energy")],
 "differential monitor against an independent implementation of the test, plus metamorphic relations", "Components with zero energy are outside the claim; verdicts within 1e-9 of a limit are not judged.")
prop("C22", "Compact schemes are exact and instantaneous frequency is what the phase says",
 "The tridiagonal solver solves its system, the compact derivative is exact on polynomials up to degree five and linear in its input for any spacing, and the compact filter preserves polynomials up to degree three, is linear, treats both ends alike and at the neutral setting leaves data alone whose ends are such polynomials. For uniformly sampled components instantaneous frequency is the derivative of the unwrapped analytic-signal phase over two pi: it has the shape of the input, is independent per component, recovers the frequency of a pure tone in any units of time and is unaffected by amplitude scaling.",
 ["inputs", "configurations"], "all well-posed systems, lengths, spacings, filter strengths, tones and component sets",
 "tests check one sine and one system",
 ["PyEMD/compact.py", "PyEMD/visualisation.py"], [("Thomas algorithm and stencils", "compact.TDMAsolver, compact.filt6, compact.pade6"), ("phase and frequency", "Visualisation._calc_inst_phase/_calc_inst_freq, plot_instant_freq")],
 "residual and exactness monitors on the numeric kernels, differential monitor of the plotted frequencies", "Frequencies are read from the drawn plot.")
prop("C23", "Two-dimensional decompositions add back up to the image and respect the limit",
 "For any finite non-constant image the two-dimensional decomposers return a three-dimensional array of finite image-shaped components that sum to the image to rounding (square images for the bidimensional variant), with at most the requested number of components plus one remainder. The input image is not modified.",
 ["inputs", "configurations"], "random, smooth and structured images of many sizes, limits >= 1",
 "all two-dimensional tests are skipped",
 ["PyEMD/EMD2d.py", "PyEMD/BEMD.py"], [("scaling, remainder and offset restoration", "EMD2D.emd"), ("remainder", "BEMD.bemd")],
 "conservation monitor on images", "The module is documented as experimental; only conservation, shape, limit and purity are claimed.")
prop("C24", "Plots show exactly the components, residue and time axis they were given",
 "Plotting components draws one labelled panel per component in order, plus one for the residue exactly when requested, each containing precisely the component's values over the given time axis (or sample numbers); explicitly passed data take precedence over the attached decomposer. Frequency plots have one panel per component over the given time axis, missing data or out-of-range filter strengths are rejected, and any number of components from one upwards works.",
 ["inputs", "configurations"], "all component counts >= 1, with/without residue, explicit or attached data",
 "no test draws a figure",
 ["PyEMD/visualisation.py"], [("panel layout", "Visualisation.plot_imfs, plot_instant_freq"), ("argument resolution", "Visualisation._check_imfs")],
 "monitor reading back the drawn figure objects", "Headless backend.")
prop("C25", "A failing trial is never swallowed and leaves the ensemble object usable",
 "If any trial's decomposition raises an error (of any class but the iterator protocol's stop signal), in whichever trial, worker or stage, the ensemble call raises that error and does not return a result built from the remaining trials. Afterwards no worker process stays alive, the previous results are not mixed with partial ones on the next run, and a following run on the same instance with the same seed gives the same result as a fresh instance.",
 ["fault_sequences", "histories", "schedules"], "every position of the failing trial, both ensemble methods, serial and parallel, any stage",
 "no test injects a failure",
 [EE, CE], [("exception propagation through the map, per-run initialisation", "EEMD.eemd, CEEMDAN.ceemdan, CEEMDAN._eemd, CEEMDAN._decompose_noise")],
 "fault injection at every decomposition call with process-leak and post-fault monitors", "Faults are exceptions raised by the trial decomposer; worker kills are outside the claim.", level="fault_enumeration")
prop("C26", "Decomposer instances are isolated, also across threads",
 "Decomposers with different settings used interleaved or from several threads at once, each thread with its own instance, return exactly what they return when used alone. Creating or configuring one instance never changes the defaults or behaviour of another.",
 ["schedules", "histories", "configurations"], "all interleavings of calls on separate instances in one or more threads",
 "tests are single-threaded with one instance at a time",
 [E, EE, CE, "PyEMD/utils.py", "PyEMD/splines.py", M], [("no shared mutable state between instances", "class and module level attributes")],
 "concurrent stress with forced thread switching compared with isolated runs", "Thread switch interval is forced to microseconds; observed interleavings are counted.")

prop("C27", "A setting has the same effect however and whenever it is given",
 "A setting given to the constructor, assigned afterwards as an attribute, or (for settings of the trial decomposer) passed to an ensemble class's constructor or on a configured external decomposer gives identical results, and a setting left out behaves exactly as its documented default given explicitly. A setting changed between runs takes full effect on the next run and leaves every other setting as it was, worker processes use the same settings, and unsupported extrema detections, spline kinds and noise kinds raise an error instead of falling back to something else.",
 ["configurations", "histories"], "all documented settings of EMD, EEMD, CEEMDAN and EMD2D, all ways and orders of giving them, as Python or numpy numbers",
 "tests set one or two options at a time, mostly without looking at the result",
 [E, EE, CE, "PyEMD/EMD2d.py"], [("defaults and keyword handling", "EMD.__init__, EEMD.__init__, CEEMDAN.__init__, EMD2D.__init__"), ("use of the settings at run time", "EMD.emd, EEMD.eemd, CEEMDAN.ceemdan")],
 "bitwise equivalence monitor over all ways of giving the same settings", "CEEMDAN's thresholds share their names with those of its trial decomposer; they are compared with an external decomposer.")
prop("C28", "Copied, pickled and spawned decomposers behave like the original",
 "A deep copy, or a pickled and restored copy, of any decomposer taken at any point of its history reports the same results as the original and from then on behaves exactly like it, including the noise it will draw, and neither is affected by what happens to the other. Seeded ensemble decompositions with worker processes give the serial result whichever way the platform starts those processes (fork, spawn or fork server).",
 ["histories", "configurations", "schedules"], "all decomposer classes, settings, histories before and after copying, pickle protocols 2-5, start methods",
 "no test copies or pickles a decomposer, and the pool is only started by fork",
 [E, EE, CE, M, "PyEMD/EMD2d.py", J], [("state that travels with the instance", "EEMD.__getstate__, CEEMDAN.__getstate__, JitEMD.__getstate__/__setstate__"), ("work sent to processes", "EEMD._trial_update, CEEMDAN._trial_update, CEEMDAN._decompose_noise")],
 "history monitor comparing copies, originals and a never-copied twin bit for bit; start-method stress in fresh interpreters", "Shallow copies share the random generator by definition and are outside the claim.")
prop("C29", "Image EMD finds true extrema and ignores flips, brightness and contrast",
 "For two-dimensional EMD the reported extrema are exactly the interior pixels not exceeded by (not exceeding) any of their eight neighbours, the image is extended by mirroring it on every side, and one sift subtracts the mean of the two smooth surfaces fitted through the minima and the maxima of that extension. An image with too few extrema is returned as its own remainder, and decomposing an image that is flipped, brightened, contrast-scaled, or held in another data type or memory layout gives the same components with the same flip, factor and (in the last one) offset; every decomposition ends, with or without a limit.",
 ["inputs", "configurations"], "finite non-constant images of many sizes and kinds, all stopping rules and limits of EMD2D",
 "all two-dimensional tests are skipped",
 ["PyEMD/EMD2d.py"], [("extrema and mirroring", "EMD2D.find_extrema, EMD2D.prepare_image"), ("envelopes and normalisation", "EMD2D.extract_max_min_spline, EMD2D.emd")],
 "differential monitor against a per-pixel oracle and library surfaces, metamorphic monitor of decompositions", "Outcomes decided by rounding are recognised by noise injection and not judged.")
prop("C30", "Bidimensional EMD works on grey-level domes and commutes with sign and transpose",
 "The maxima (minima) the bidimensional variant reports are exactly the pixels less than one grey level below (above) the highest (lowest) pixel that can be reached from them over the eight neighbours without going below (above) their own level, given as column and row positions. For square images the two envelopes have the image's shape and are smooth surfaces through the pixel values at those positions, the negated image gives the negated components and the transposed image the transposed extrema and envelopes. Read-only or strided images give the same result.",
 ["inputs"], "all finite square images (shapes and positions transposed while reading values: known finding)",
 "all tests of this class are skipped upstream",
 ["PyEMD/BEMD.py"], [("morphological reconstruction, envelopes and sifting", "BEMD.extract_maxima_positions, BEMD.extract_max_min_spline, BEMD.bemd")],
 "differential monitor of the extrema against a flood-fill oracle, interpolation monitor on the envelopes, metamorphic monitor on whole decompositions",
 "Images whose interpolation system is ill-conditioned are not judged on envelope values; the known transposed reading of pixel values is recognised exactly and nothing else is.")
prop("C31", "Splines pass through their knots, keep lines and ignore the units of the axes",
 "Whatever the knots, every spline kind of the regular, compiled and MATLAB-compatible variants returns one finite value for each requested position within the knots' range and no others, takes the knots' values at the knots, reproduces straight lines, and is unchanged by shifting, scaling or (all but quadratic) reversing the axis and by scaling or shifting the values. The value at one position does not depend on the others requested, linear kinds superpose, monotone kinds never leave the range of the two neighbouring knots, three knots give the natural cubic spline, and the variants agree.",
 ["inputs", "configurations"], "all strictly increasing knots (at least two or three, as the kind requires) with spacing ratios up to about 1e3, all positions",
 "tests compare a few curves at a few points and never vary units, direction or positions",
 ["PyEMD/splines.py", E, "PyEMD/experimental/jitemd.py", "PyEMD/EMD_matlab.py"], [("spline kinds and three-point fallback", "EMD.spline_points, cubic_spline_3pts, jitemd.spline_points, EMD_matlab.EMD.splinePoints")],
 "metamorphic and interpolation monitors on the spline entry points under random knots",
 "Tolerances scale with the spacing ratio; akima/pchip are not compared across units when slopes tie.")

def main():
    import glob
    with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
        for p in P:
            f.write(json.dumps(dict(id=p["id"], title=p["title"], statement=p["statement"],
                quantifier=dict(over=p["over"], text=p["qtext"]), why_tests_cant=p["why"],
                anchors=dict(files=p["files"], mechanism=[dict(name=a, where=b) for a, b in p["mech"]],
                             observe_at=p["observe"], hook_needed=None))) + "\n")
    checks, na = [], []
    for p in P:
        if os.path.exists(os.path.join(HERE, "checks", p["id"].lower() + ".py")):
            checks.append(dict(property=p["id"], quick_cmd="bash run.sh %s quick" % p["id"], thorough_cmd="bash run.sh %s thorough" % p["id"],
                technique=p["technique"], level=p["level"], level_note=p["note"], evidence_file="evidence/%s.json" % p["id"]))
        else:
            na.append(dict(property=p["id"], reason="check not built yet"))
    json.dump(dict(version=1, setup_cmd="bash setup.sh", checks=checks, not_applicable=na), open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
    print(len(checks), "checks", len(na), "not claimed")
if __name__ == "__main__":
    main()
