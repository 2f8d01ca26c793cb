"""Writes /verif/properties.jsonl (run by hand after editing)."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mechanism, observe=None):
    a = {"files": files, "mechanism": [{"name": mechanism, "where": ", ".join(files)}]}
    if observe:
        a["observe_at"] = observe
    P.append({"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": qtext},
              "why_tests_cant": why, "anchors": a})

S, H, R = "utide/_solve.py", "utide/harmonics.py", "utide/_reconstruct.py"
prop("C01", "Reconstruction reproduces the fitted model at every time",
 "For any record and any accepted options, reconstructing with every constituent of the solution selected (both thresholds zero, or a list naming all of them) gives, at every valid time, the fitted mean, plus the fitted trend when one was requested, plus the sum of all fitted constituents; at the sample times of an ordinary least-squares fit this is the data minus the fit's residual. "
 "Consequently a record that is exactly a combination of the requested constituents, a constant and (if requested) a straight line is reproduced up to rounding at any time inside or outside the record, for scalar and vector series and every latitude, nodal, phase and trend setting.",
 ["inputs", "configurations"], "all records (times, values, 1-D or 2-D), latitudes, constituent lists, nodal/phase/trend settings, and all reconstruction times",
 "the round-trip tests use one year-long synthetic M2 record and one latitude; the identity must hold for every record, constituent mix and option combination",
 [S, R, H, "utide/ellipse_params.py"], "the solver and the reconstruction must build the same basis and read the same parameters; parameters pass through the ellipse conversion and back", ["utide.solve", "utide.reconstruct"])
prop("C02", "An ordinary fit is the least-squares optimum, with the mean and trend asked for",
 "With the ordinary method the fitted series minimises the sum of squared misfits over the valid samples among all combinations of the selected constituents' basis functions, a constant and, exactly when a trend is requested, a straight line in time: the residual is orthogonal to each of these and nothing else takes part. "
 "The reported mean is the value of the non-tidal part at the reported reference time, the middle of the record, and the reported slope (present only when a trend is requested) is its rate per day.",
 ["inputs", "configurations"], "all records, constituent lists, trend on/off, 1-D and 2-D, nodal and phase modes, exact inference",
 "tests look at amplitudes of one constituent in one synthetic record; optimality is a statement over every competing combination for every record",
 [S], "model-matrix assembly, least-squares solution, extraction of mean and slope", ["utide.solve"])
prop("C03", "Ellipse and amplitude/phase parameters are canonical and lossless",
 "Every reported current ellipse has semi-major axis >= |semi-minor axis|, orientation in [0,180) degrees and Greenwich phase in [0,360) degrees, and every reported scalar amplitude is >= 0 with phase in [0,360) (ends up to rounding). "
 "The parameters determine the fitted harmonic exactly: with major axis L, minor axis l, orientation th and phase g, the cosine and sine coefficients of u are L cos th cos g + l sin th sin g and L cos th sin g - l sin th cos g, those of v are L sin th cos g - l cos th sin g and L sin th sin g + l cos th cos g (positive l turning anticlockwise), and a scalar has cosine coefficient A cos g and sine coefficient A sin g.",
 ["inputs"], "all real coefficient values in every quadrant and rotation sense, including zero components and purely rectilinear or circular motion",
 "no test calls the conversion directly; the fitted records cover one or two quadrants only",
 ["utide/ellipse_params.py", S], "polar form of the two rotary components, halving and wrapping of angles", ["utide.solve"])
prop("C04", "Astronomical longitudes and rates follow the published ephemeris",
 "For any time(s), the mean longitudes of the moon, sun, lunar perigee, (negative) lunar node and solar perigee equal, modulo one cycle, the published cubic polynomials in days from 1899-12-31 12:00, and lunar time equals the fraction of the day plus the sun's minus the moon's longitude modulo one cycle. "
 "The rates given with them are the exact time derivatives of these functions, and every element of an array of times gets what it would get on its own.",
 ["inputs"], "all real times (past, present, future) and all array lengths",
 "the one test compares a single date with a stored value",
 ["utide/astronomy.py"], "polynomial evaluation, reduction modulo one cycle, derivative polynomial", ["utide.astronomy.ut_astron", "utide.solve"])
prop("C05", "Nodal corrections and Greenwich arguments follow the harmonic tables",
 "For every constituent, time and latitude, the amplitude factor and phase correction are modulus and argument of one plus the sum of its tabulated satellites (amplitude ratio, latitude-dependent where the table says so, with latitudes nearer the equator than 5 degrees treated as 5 degrees in the same hemisphere), and the astronomical argument is the tabulated integer combination of the astronomical variables plus offset; for compound constituents the factor is the product of the parents' factors raised to the absolute table coefficients, and phase correction and argument are the coefficient-weighted sums, arguments counting modulo one cycle and advancing continuously at the constituent's frequency. "
 "Switching nodal corrections off gives factor one and zero phase; the linear-time options freeze the corrections at, and extrapolate the argument at constant frequency from, the reference time; raw phases use only frequency times elapsed time, and each time is treated independently of the others in the record.",
 ["inputs", "configurations"], "all 146 constituents, all times, all latitudes in [-90, 90], all option combinations, all record lengths",
 "the one test compares stored values at one latitude and a handful of times and flags",
 [H, "utide/astronomy.py", "utide/_ut_constants.py"], "satellite sums, latitude factors, compound-constituent recursion, linear-time and raw branches", ["utide.harmonics.ut_E", "utide.solve", "utide.reconstruct"])
prop("C06", "Results do not depend on how the same times are expressed",
 "The same instants give the same solution and reconstruction whether supplied as datetime64 of any unit, datetime or pandas objects, or as day numbers counted from any accepted epoch ('python', 'matlab', a date string, date or datetime), as exactly as floating-point days and the millisecond resolution of dates allow; 'python' day number 1 is 1 January of year 1 and 'matlab' numbers are 366 larger. "
 "Shifting a record in its day numbers while moving the epoch back by the same amount changes nothing.",
 ["inputs", "configurations"], "all instants (before and after 1970, with fractions of a day), all epochs, all accepted containers and dtypes, in solving and reconstructing",
 "tests convert a few fixed dates and one time array; the equivalence is over all instants, epochs and both entry points",
 ["utide/_time_conversion.py", S, R], "conversion to day numbers relative to the Gregorian epoch, offsets", ["utide.solve", "utide.reconstruct"])
prop("C07", "Missing samples have no influence, however they are marked",
 "A sample whose time or value is missing - NaN, NaT, infinite, or masked, in any mixture, in either component of a vector - takes no part in the fit: the solution is the one for the remaining samples, does not depend on which marker was used or on the number stored under a mask, and both components of a vector sample are dropped together. (The record's length and middle are those of its valid times where these are equally spaced, whether or not their values are missing, and of the remaining samples otherwise.) "
 "A reconstruction has the length of the time input, is NaN exactly at the missing times, and elsewhere is what those times would give on their own.",
 ["inputs"], "all positions, counts and kinds of missing-data markers in times and values, regular and irregular records",
 "one test masks some values of one record; combinations of marker kinds, positions and of missing times are never compared",
 [S, R, "utide/_time_conversion.py"], "masking of invalid samples, joint compression of t, u, v, scatter into the output", ["utide.solve", "utide.reconstruct"])
prop("C08", "The right constituents are chosen and every array stays aligned with them",
 "Automatic selection takes exactly those constituents whose tabulated frequency separation is at least the Rayleigh factor divided by the record length (last minus first time) in hours, an explicit list takes exactly the named ones, and inference moves named reference and inferred constituents into the solution in addition to the others, each once. "
 "Every per-constituent output (name, table index, frequency, amplitude or ellipse, phase, confidence intervals, percent energy, signal-to-noise ratio) has one entry per constituent, in one common order, entry k of each belonging to the constituent named k, whose table index is that name's and whose frequency is the rate of its astronomical argument at the reference time.",
 ["inputs", "configurations"], "all record lengths and Rayleigh factors, all lists of distinct known names, all inference specifications (several inferred per reference, any order)",
 "tests use the automatic set for one or two records and one fixed inference",
 ["utide/constituent_selection.py", S], "Rayleigh test, removal of inference constituents, concatenation in the order directly resolved, reference, inferred", ["utide.solve"])
prop("C09", "The order option only permutes the constituents, into the order requested",
 "For any record, the solutions for different order options contain the same constituents with the same values, only permuted consistently in every per-constituent array. "
 "'PE' (and the default) gives non-increasing percent energy, 'SNR' non-increasing signal-to-noise ratio, 'frequency' non-decreasing frequency, and a sequence of names exactly that order.",
 ["inputs", "configurations"], "all records, constituent sets, order options, confidence-interval options, 1-D and 2-D, with or without inference",
 "tests check one 1-D and one 2-D record with a few constituents",
 [S, "utide/diagnostics.py"], "sorting index applied to a list of arrays", ["utide.solve"])
prop("C10", "Percent energy and signal-to-noise ratio follow their definitions",
 "Percent energy of a constituent is 100 times its squared amplitude (sum of the squares of both ellipse axes for vectors) over the sum of that quantity over all constituents of the solution, so the values are non-negative and add up to 100. "
 "Signal-to-noise ratio is that energy divided by the squared standard error, (confidence interval / 1.96) squared, summed over both axes for vectors; the diagnostics table lists the same names and numbers in order of non-increasing percent energy.",
 ["inputs", "configurations"], "all solutions with positive total energy, 1-D and 2-D, any number of constituents",
 "tests do not check the values, only that ordering by them is monotone in one record",
 ["utide/diagnostics.py", S], "energy and noise sums", ["utide.solve"])
prop("C11", "Reconstruction uses exactly the constituents asked for, and superposes",
 "A reconstruction includes exactly the constituents named in its list, or without a list exactly those with signal-to-noise ratio >= the SNR threshold and percent energy >= the energy threshold (computed over the whole solution), or all of them when both thresholds are zero or the solution carries no diagnostics; each included one contributes what its parameters say, independently of the others, of the order of names and of the order in the solution. "
 "The mean and, if fitted, the trend are always included once, so reconstructions of disjoint selections add up, less one mean and trend, to the reconstruction of their union.",
 ["inputs", "configurations"], "all solutions, times, name lists (any container, any order, unknown names included) and thresholds",
 "tests reconstruct with default thresholds or all constituents for one record",
 [R], "index selection, complex amplitudes, basis for the selected subset", ["utide.reconstruct"])
prop("C12", "Inferred constituents keep the prescribed ratio and phase offset",
 "With inference, each inferred scalar constituent has amplitude equal to its amplitude ratio times its reference constituent's and phase lag equal to the reference's minus its phase offset (modulo 360); for vectors this holds for the anticlockwise component with the first set of ratios and offsets and for the clockwise component with the second set. "
 "The inferred constituents take part in the fit, so a record made of reference and inferred constituents in the prescribed relation is recovered exactly and reconstructs exactly.",
 ["inputs", "configurations"], "all ratios and offsets, any number of inferred constituents per reference, several references, any interleaving in the lists, 1-D and 2-D, every nodal and phase mode; exact and approximate inference",
 "one test infers one constituent in one 1-D record",
 [S, "utide/constituent_selection.py"], "effective basis function of reference plus inferred, complex ratios", ["utide.solve"])
prop("C13", "Linear confidence intervals are first-order propagated variances",
 "With linear confidence intervals, the interval of each amplitude, axis, orientation and phase is 1.96 times the first-order (gradient) propagation of the variances of that constituent's cosine and sine coefficients, taken as uncorrelated, through the parameter formulas, angles in degrees. "
 "The coefficient variances are those of the (weighted) least-squares estimate with the residual variance for a white background, and otherwise are rescaled, separately for each velocity component, to the residual power in the frequency band of the constituent; all intervals are non-negative and do not depend on the constituent's place in the list.",
 ["inputs", "configurations"], "all records and constituent coefficients with non-degenerate ellipses, white and coloured background, 1-D and 2-D, with and without inference, ordinary and robust",
 "tests only check that intervals exist or contain a true value in one record",
 ["utide/confidence.py"], "covariance and pseudo-covariance of the complex coefficients, per-constituent variances, derivative formulas", ["utide.solve"])
prop("C14", "The robust fit is a true weighted optimum with proper weights",
 "For every weight function the weights depend only on the size of a residual, lie in [0,1], never grow with the residual's size and equal one for a residual of zero; the number of iterations never exceeds the limit given. "
 "The returned coefficients minimise the sum of squared weighted residuals for the returned weights, and those weights take part in the reported statistics; data without outliers that the model fits exactly are recovered exactly, and the first iteration is the ordinary fit.",
 ["inputs", "configurations"], "all records, all nine weight functions, tuning constants, tolerances and iteration limits, real and complex data",
 "one test runs one weight function on one record",
 ["utide/robustfit.py", S], "iteratively reweighted least squares, keep-previous-on-worsening logic, residual scaling", ["utide.solve", "utide.robustfit.robustfit"])
prop("C15", "Residual noise spectra are band averages of a properly scaled periodogram",
 "The noise level used for a constituent is the mean, over the frequency band that contains it, of a one-sided power spectral density of that component's residual with a Hann taper (Fourier for equally spaced times, Lomb-Scargle otherwise), leaving out the lines nearest the fitted constituents, times the frequency resolution of the record. "
 "It scales with the square of the residual, is unaffected by a constant offset of the residual or a shift of the time origin, and treats the two components of a vector symmetrically, the cross term being the real co-spectrum.",
 ["inputs", "configurations"], "all residual series (even and odd length, regular and irregular), sampling intervals, constituent sets",
 "tests compare the two methods on one white-noise series",
 ["utide/periodogram.py", "utide/confidence.py"], "taper, normalisation, exclusion of constituent lines, band search", ["utide.solve"])
prop("C16", "Monte-Carlo intervals sample the estimated coefficient covariance",
 "With Monte-Carlo intervals, each constituent's coefficients are drawn from a normal distribution centred on the fitted coefficients whose covariance is symmetric, positive semi-definite and equal to the least-squares coefficient covariance (rescaled to the band's residual power unless white), and each interval is 1.96 times the normalised median absolute deviation of the resulting amplitudes, axes and angles. "
 "Angles are unwrapped about the fitted value first, so an interval does not depend on where the wrap lies.",
 ["inputs", "configurations"], "all records, white and coloured, 1-D and 2-D; all covariance estimates with non-negative variances (indefinite ones included) and angle samples",
 "one test checks that the option runs",
 ["utide/confidence.py"], "covariance blocks, nearest positive-definite projection, angle clustering", ["utide.solve"])
prop("C17", "Calls are pure: nothing passed in is altered and history is irrelevant",
 "Solving and reconstructing leave their arguments (arrays, masks, option containers, the solution passed to a reconstruction) and the package's constant tables unchanged, and results do not share memory with the inputs' data in a way that a later call would alter. "
 "A call's result depends only on its arguments (and, for Monte-Carlo, the random state): repeating a call after any other calls gives identical results.",
 ["inputs", "histories"], "all inputs and options, all sequences of calls, including calls that fail",
 "tests call each function a few times and never compare arguments or tables before and after",
 [S, R, H, "utide/constituent_selection.py", "utide/confidence.py"], "in-place operators on arrays derived from module tables and arguments", ["utide.solve", "utide.reconstruct"])
prop("C18", "Requests that cannot be honoured are rejected, never silently altered",
 "A missing latitude, an unknown option name, an undocumented value of the confidence-interval, method, phase, nodal, order or weight-function option, a signal-to-noise order without confidence intervals, an order list that does not name each constituent of the solution once, times and data of different or more than one dimension, an unparsable epoch, an unknown constituent name, and an inference specification with missing items or lists of inconsistent length are each rejected with an exception. "
 "Every accepted option is recorded in the solution, defaults apply exactly where an option was not given, and an accepted option value has its documented effect.",
 ["inputs", "configurations"], "all combinations of valid and invalid option values",
 "one test checks one invalid combination",
 [S, R, "utide/_time_conversion.py", "utide/robustfit.py"], "option processing and argument validation", ["utide.solve", "utide.reconstruct"])
prop("C19", "Solutions transform with the data as physics requires",
 "For an ordinary fit with the same times and options, multiplying the data by a positive factor multiplies amplitudes, axes, mean, slope and linear amplitude intervals by it and leaves phases, orientations, percent energy and signal-to-noise ratio unchanged, and adding a constant changes only the mean by that constant. "
 "Rotating a velocity series by an angle adds the angle to every orientation (modulo 180, phase adjusting accordingly) and leaves axes unchanged; the components of a vector solution are those of the two scalar solutions.",
 ["inputs", "configurations"], "all records, factors, constants and rotation angles, option combinations",
 "relations between pairs of runs are not tested at all",
 [S, "utide/ellipse_params.py", "utide/confidence.py"], "linearity of the fit in the data, ellipse conversion", ["utide.solve"])
with open(os.path.join(os.path.dirname(__file__), "..", "properties.jsonl"), "w") as f:
    for p in P:
        f.write(json.dumps(p) + "\n")
print(len(P))
