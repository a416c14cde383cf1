#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json (run by hand after editing the list below)."""
import json, os
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
T = "py/desimeter/"
P = []


def prop(id, title, statement, over, qtext, why, files, mech, technique, level, note, observe=None, state=None):
    P.append(dict(p=dict(id=id, title=title, statement=statement,
                         quantifier=dict(over=over, text=qtext), why_tests_cant=why,
                         anchors=dict(files=[T+f if not f.startswith("bin/") else f for f in files],
                                      mechanism=[dict(name=n, where=w) for n, w in mech],
                                      **({"observe_at": observe} if observe else {}),
                                      **({"state": [dict(name=a, meaning=b, where=c) for a, b, c in state]} if state else {}),
                                      hook_needed=None)),
                  technique=technique, level=level, note=note))


prop("C01", "Arm angles for a target are a true solution, within travel, near the guess",
     "For any two arm lengths, travel limits and target, the returned arm angles lie within the travel limits and either put the fibre on the target or are flagged as not reaching it; a target that the usual elbow side (second angle between 0 and 180 deg) can reach within travel is never flagged. "
     "Targets outside the reachable annulus get the fully extended or fully folded arm pointing at them. "
     "When a first-angle guess is supplied, the answer is the configuration closest to the guess among those within the tolerance; a guess too far from all of them is ignored.",
     ["inputs"], "all arm-length pairs, travel ranges, targets inside, on and outside both edges of the annulus, guesses and tolerances on a lattice that covers the whole range",
     "Existing tests only round-trip a few random angles for one pair of arms and never look at limits, the inner hole, wraps, guesses or the flag.",
     ["transform/xy2tp.py"], [("closed-form solution, elbow choice and theta wrapping", "xy2tp")],
     "exhaustive bounded enumeration of inputs on the real code against a closed-form all-solutions reference", "exploration",
     "Complete over the stated lattice (~7e5 executions); says nothing between lattice points beyond their neighbours.")
prop("C02", "Positioner angles and petal coordinates convert both ways without loss",
     "Converting positioner angles to petal coordinates and back returns the same angles, and converting each intermediate frame forward and backward is the identity, for every calibration. Scalars, lists, arrays and mixed arguments give the same numbers and arguments are never modified. "
     "The signed distance between two angles respects the requested direction, never misses a full turn, and is the documented shortest one when no direction is requested.",
     ["inputs", "configurations"], "all calibrations, angles, guess modes, argument shapes and (start, final, direction) triples of the lattice",
     "Tests cover one calibration and homogeneous argument types; failures appeared only for mixed scalar/vector arguments and unusual directions.",
     ["transform/pos2ptl.py", "transform/xy2tp.py"], [("conversion chain", "int2ptl/ptl2int and int2ext, ext2loc, loc2flat, flat2ptl and inverses"), ("angular distance", "delta_angle")],
     "exhaustive bounded enumeration on the real code against an independent forward model", "exploration",
     "Complete over the lattice; angles closer than 0.2 deg to travel limits are excluded.")
prop("C03", "Focal-surface coordinates and look-ups are consistent everywhere on the surface",
     "Converting between planar, polar, curvilinear and flattened focal-surface coordinates and back is lossless to the stated precision, follows the documented definitions, and is monotonic in radius. The focal-surface shape look-ups reproduce their table, invert each other, and give an undefined value, never a made-up one, outside the table.",
     ["inputs"], "all radii and azimuths of a full polar lattice, all table nodes, midpoints and out-of-range values, all argument forms",
     "Tests sample a few radii; the height look-ups returned NaN everywhere and no test noticed.",
     ["transform/xy2qs.py", "transform/rszn_lookups.py", "transform/pos2ptl.py"], [("polynomials", "xy2qs.r2s/s2r, xy2qs/qs2xy, xy2uv/uv2xy"), ("table interpolation", "rszn_lookups")],
     "exhaustive bounded enumeration on the real code against the shipped table and closed forms", "exploration",
     "Complete over every table node and quarter point and over the polar lattice; round trip tolerance 4.5 um.")
prop("C04", "Petals and guide cameras are placed on the focal plane consistently",
     "Moving points from a petal to the focal plane and back is the identity, preserves distances, and agrees with the published petal alignment for every petal, whatever other petals were converted before. Guide-camera pixels map to the focal plane and back losslessly, and tables mixing petals in any row order give the same numbers as converting each row alone.",
     ["inputs", "histories"], "all petals, all lattice points with and without height, all ordered pairs of petals, all tables of up to four rows over three petals, all permutations of them",
     "Tests convert each petal once, in order, from homogeneous tables.",
     ["transform/ptl2fp.py", "transform/gfa2fp.py"], [("rigid transformation with cached alignments", "ptl2fp.get_petal_alignment_data, apply_ptl2fp"), ("GFA metrology fit", "gfa2fp.get_gfa_transform")],
     "exhaustive bounded enumeration of inputs and call histories on the real code", "exploration",
     "Complete over the lattice and histories of two calls.")
prop("C05", "Corrector optics map sky to focal plane and back for every ADC setting",
     "For every setting of the two dispersion-corrector angles, mapping tangent-plane positions to the focal plane and back is the identity, agrees with the shipped ray trace, depends on the angles only modulo a full turn, and turns with the corrector when both angles turn together. The answer for a star does not depend on which other stars, or which other settings, were converted before or with it.",
     ["inputs", "histories"], "all ordered pairs of ADC angles on a lattice with aliases, the full field, all rows of the ray trace, all ordered pairs (triples) of settings",
     "Tests check two settings and a small random set of positions.",
     ["transform/tan2fp/__init__.py", "transform/tan2fp/raytracefit.py", "transform/tan2fp/echo22.py", "transform/zhaoburge.py"], [("ADC-dependent polynomial model and iterative inversion", "raytracefit.tan2fp/fp2tan"), ("plate-scale table", "echo22")],
     "exhaustive bounded enumeration of settings x field x call histories on the real code", "exploration",
     "Complete over the lattice; 10 um against the ray trace.")
prop("C06", "Sky coordinates map to the tangent plane and back for every pointing",
     "For every observable pointing, date, sidereal time and choice of corrections, sky positions map to tangent-plane positions exactly as the documented sequence of precession, aberration, polar misalignment, refraction and rotation prescribes, and back to the same sky positions within a few milliarcseconds. Full turns in any angle change nothing, scalars and arrays agree, and arguments are left unmodified.",
     ["inputs", "configurations"], "all pointings, dates, sidereal times including the wrap, hexapod angles and correction switches of the lattice, over the full field",
     "Tests use a handful of pointings and only compare forward with backward, so an error common to both is invisible.",
     ["transform/radec2tan.py", "time.py", "trig.py"], [("correction steps", "radec2tan.radec2tan/tan2radec, apply_/undo_ functions"), ("sidereal time", "time.mjd2lst")],
     "exhaustive bounded enumeration against an independent vector-algebra reference model", "exploration",
     "Complete over the lattice; the reference was written from the documented equations, without the code under test.")
prop("C07", "The field model ties sky and focal plane together for any exposure",
     "A field model sends focal-plane positions to the sky and back to the same place for every pointing, atmospheric-corrector setting, hexapod angle and instrument correction, is unchanged by use or by saving and reloading, and equals the composition of its documented steps. Fitting it to guide stars seen by any subset of cameras recovers the true relation. Field rotation and its rate agree with the geometry of the sky, for every pointing.",
     ["inputs", "configurations", "histories"], "all pointings x corrector settings x hexapod angles x switches x corrections, all subsets of guide cameras and stars, all catalog variants of the lattice",
     "Tests fit one recorded catalog and round-trip one configuration.",
     ["fieldmodel.py", "io.py", "transform/gfa2fp.py"], [("composition of transforms", "FieldModel.fp2radec/radec2fp"), ("guide star fit", "FieldModel.fit_tancorr, read_guide_stars_catalog"), ("field rotation", "fieldrot, dfieldrotdt")],
     "exhaustive bounded enumeration on the real code against an independent composition and simulated guide stars", "exploration",
     "Complete over the lattice; guide stars are noise free or have enumerated perturbations.")
prop("C08", "Plane corrections are true least-squares fits, invertible and reusable",
     "Fitting a shift, scale, rotation (and shear or polynomial) correction to matched points recovers the transformation that generated them for every rotation, and with noisy points is the least-squares optimum. Applying the inverse undoes the correction, refitting forgets the previous fit, and saving and reloading gives the same answers. The distortion polynomials are the published orthonormal curl-free and divergence-free sets.",
     ["inputs", "histories"], "all rotations, scales, shears and point configurations of the lattice, all perturbation patterns of four points, all ordered pairs (triples) of fits on one object, all pairs of polynomials",
     "Tests fit one random small transformation; rotations of multiples of 90 degrees and reuse of an object are never tried.",
     ["simplecorr.py", "fieldmodel.py", "transform/zhaoburge.py", "transform/dm2pm.py"], [("fits", "SimpleCorr.fit, TanCorr.fit, zhaoburge.fitZhaoBurge"), ("inverse and json", "SimpleCorr/TanCorr/DM2PM")],
     "exhaustive bounded enumeration of fits and fit histories against an independent least-squares solution", "exploration",
     "Complete over the lattice; polynomial orthonormality by exact quadrature.")

prop("C09", "Camera pixels and focal plane convert both ways, and the fit recovers the truth",
     "Converting fibre-view-camera pixels to focal-plane positions and back is the identity over the whole focal plane for every orientation, scale, offset, axis direction and distortion, and equals the documented formula. Fitting the conversion to identified fiducials recovers the true conversion whatever the subset, row order or unmatched spots, honours what the caller asked to keep fixed, and does not depend on earlier fits; saving and reloading preserves it.",
     ["inputs", "configurations", "histories"], "all combinations of rotation, scale, offset, axis direction and distortion of the lattice over the full field; all combinations of fit options, fiducial subsets and row orders; all ordered pairs of fits on one object",
     "Tests use the shipped orientation and one recorded list of spots, and fit once with default options.",
     ["transform/fvc2fp.py", "transform/zhaoburge.py"], [("forward and inverse", "FVC2FP.fvc2fp/fp2fvc"), ("fit", "FVC2FP.fit, fitZhaoBurge"), ("json", "FVC2FP.tojson/fromjson")],
     "exhaustive bounded enumeration on the real code against an independent formula and simulated fiducials", "exploration",
     "Complete over the lattice; noise-free simulated fiducials.")
prop("C11", "Answers do not depend on earlier calls or on what another thread computes",
     "Every coordinate conversion, model or fiducial identification returns what a fresh process would return, whatever was computed before in the same process, even when the caller overwrites earlier arguments and results. Two threads using the library at the same time, sharing its tables or one object, each get the answer they would get alone, under every interleaving.",
     ["histories", "schedules"], "all sequences of two operations out of eighteen and of three within a group (all of three in depth), all single preemptions (pairs in depth) of pairs of threads at every line of the code that fills or reads shared tables",
     "Tests run each operation once, in one thread; lazily filled module tables are only exercised in one order, and one such table was wrong from the second call on.",
     ["transform/gfa2fp.py", "transform/ptl2fp.py", "transform/tan2fp/echo22.py", "transform/tan2fp/raytracefit.py", "findfiducials.py", "fieldmodel.py"],
     [("lazily filled module tables", "_gfa_transforms, petal_alignment_dict, _r2t_coeff, raytracefit_instance, cached_metrology_pinholes_table")],
     "stateless model checking of the real code: controlled thread scheduler with preemption bound, and exhaustive call sequences in forked processes", "model_checking",
     "Complete at line granularity with preemption bound 1 (2 in depth) and for histories of length 2 (3 in depth).")

prop("C12", "Matching two lists of positions pairs true counterparts, never one twice",
     "Matching two lists in the same coordinates pairs each entry with its nearest counterpart, never uses a counterpart twice, keeps the closest claimant, and marks the others, and everything when the other list is empty, as unmatched. Matching lists that differ by an unknown shift, scale and small rotation recovers the true pairs for any row order and any subset of a generic pattern, including the pinhole pattern of every fiducial. Matching by key or within a radius returns exactly the matching pairs.",
     ["inputs"], "all pairs of catalogs of up to three entries over a grid with ties, all permutations and subsets of generic patterns, all fiducial patterns in all row orders",
     "Tests match one random catalog with its own permutation; ties, duplicates, empty lists and subsets are never tried.",
     ["match.py", "match_positioners.py"], [("nearest neighbour with duplicate removal", "match.match_same_system"), ("triangles", "match.match_arbitrary_translation_dilatation"), ("keys and radius", "match_positioners.match, match2d")],
     "exhaustive bounded enumeration on the real code against brute force", "exploration",
     "Complete over the small scope.")
prop("C13", "Fiducial pinholes are identified correctly and never mislabelled",
     "Given camera spots and a conversion that is only approximately right, every pinhole of a completely visible fiducial gets its true location and pinhole number, and no spot ever gets a wrong one, whatever fiducials or pinholes are missing, whatever other spots are present, and in any row order. Stale identifications are overwritten, other spots are marked unidentified, and positions and row order are kept.",
     ["inputs", "configurations"], "all camera shifts, rotations and scale errors of a lattice for two camera models, all single missing fiducials and pinholes, missing petals, row orders, noise patterns",
     "The test has one recorded image and a TODO for shifts, rotations and scales.",
     ["findfiducials.py", "match.py"], [("group finding, iterative fit, pinhole matching", "findfiducials.findfiducials")],
     "exhaustive bounded enumeration of simulated images on the real code against the simulated truth", "exploration",
     "Complete over the lattice and single (pair, in depth) omissions; noise up to 0.03 pixel.")
prop("C14", "Centroids are assigned to positioners optimally and ambiguities are reported",
     "The assignment of measured centroids to positioners makes as many reachable assignments as any assignment could, never uses a positioner or a centroid twice, never assigns a faint or fiducial spot, and reports a score that agrees with the reach of the arms. When alternatives are requested each is as good as the best, and an assignment has an alternative exactly when it is ambiguous.",
     ["inputs"], "all instances of up to three positioners with overlapping reach, all arm length patterns and all sequences of up to four centroids over all regions delimited by the reaches",
     "There is no test; an instance with no centroid in reach failed outright.",
     ["match_positioners.py"], [("reach graph and assignment", "match_positioners.match_positioners, solve_assignment"), ("alternatives", "match_positioners.possible_assignments_dict")],
     "explicit-state enumeration of all instances of a small scope; the real code is run on each and compared with all assignments of the model", "model_checking",
     "Complete over instances of up to three positioners and four (five in depth) centroids.")

prop("C15", "Camera spots are all found with unbiased position and flux, and nothing else is",
     "Every spot of a camera image that is brighter than the thresholds and away from the edge is found exactly once, at its true sub-pixel position and flux whatever its phase, its background level, the pixel type or the spots elsewhere, and nothing is found where there is no spot. Raising a threshold only removes the spots below it, transposing the image exchanges the coordinates, the reported uncertainties are the statistical errors that follow from the noise of the image, and the image is left unmodified.",
     ["inputs"], "all sub-pixel phases, positions including every edge pixel, fluxes around each threshold, pairs of spots at all separations, pixel types and background levels of a lattice",
     "Tests detect spots in one simulated image with a fixed threshold.",
     ["detectspots.py"], [("detection and iterative centroid", "detectspots.detectspots, fitcentroid, gaussian_convolve")],
     "exhaustive bounded enumeration of simulated images on the real code against the simulated truth", "exploration",
     "Complete over the lattice; positions to 0.03 pixel, fluxes to 3%.")
prop("C22", "Circle fits recover the circle for any points, and outliers cannot bend it",
     "Fitting a circle to points that lie on one recovers its centre and radius for every centre, allowed radius, arc, number and order of points, with or without repeated points. With noise the result is the least-squares circle. The robust fit ignores a small number of discrepant points wherever they are, reports which points it kept, and impossible inputs are refused instead of yielding a circle.",
     ["inputs"], "all centres, radii, arcs, orders, repetition patterns, noise patterns and outlier subsets of a lattice",
     "Tests fit one random full circle.",
     ["circles.py"], [("algebraic fit and iterative refinement, outlier removal", "circles.fit_circle, robust_fit_circle")],
     "exhaustive bounded enumeration on the real code against an independent minimisation", "exploration",
     "Complete over the lattice; radii between 1 and 5 mm.")
prop("C24", "Turbulence corrections remove smooth distortions and touch nothing else",
     "The predicted turbulence displacement of each fibre is the Gaussian-process estimate for the requested mode (smoothed, leave-one-out, or from the stationary fibres), whatever the order of the fibres. The local polynomial correction removes polynomial distortions exactly. Corrections of a table change only the positions, by the predicted displacement, leave unmatched, missing or clipped fibres out of the estimate, and do not depend on the row order.",
     ["inputs"], "all residual patterns over small layouts, prediction modes, covariance models, fibre orders, and subsets of missing, stationary or displaced fibres",
     "There is no test of the module, and three of its functions failed when called.",
     ["turbulence.py"], [("Gaussian process", "turbulence.solve_independent, solve_gradwavefront"), ("corrections of tables", "turbulence.correct, correct_using_stationary"), ("local polynomials", "turbulence.correct_with_pol")],
     "exhaustive bounded enumeration on the real code against explicit linear algebra", "exploration",
     "Complete over the lattice; the hyperparameter optimisation is not judged.")

prop("C23", "Predicted target positions for fiber assignment agree with the sky and invert",
     "For every tile, date, hour angle, requested field rotation and dispersion-corrector setting, the predicted focal plane positions put the tile centre on the axis, have exactly the requested field rotation, and agree with the telescope's sky, optics and platemaker conversions applied in sequence; converting back returns the same sky positions, also through the curved coordinates. Row order, full turns and undefined targets do not change the other answers. Setting only one corrector angle is refused, unset ones follow from the hour angle and declination, and the desimeter to platemaker conversion, fitted, shipped or reloaded, inverts itself.",
     ["inputs", "configurations"], "all tile positions, dates, hour angles, rotations, corrector modes and frames of a lattice over a full field of targets",
     "The test makes one round trip for one tile; an error made in both directions cancels.",
     ["fiberassign.py", "transform/dm2pm.py"], [("pointing tune and field rotation", "fiberassign.fiberassign_radec2xy_cs5, fiberassign_cs5_xy2radec"), ("corrector angles", "fiberassign.pm_get_adc_angles"), ("platemaker frame", "dm2pm.DM2PM")],
     "exhaustive bounded enumeration on the real code against an independent composition with a converged pointing", "exploration",
     "Complete over the lattice; 0.5 um forward, 0.05 arcsec (0.15 through curved coordinates) back.")

prop("C16", "Calibration fits use exactly the valid moves of each window and report all of it",
     "For any move history of a positioner, the calibration fits use exactly the selected, enabled moves, once each, in contiguous time windows that hold the requested number of points and span the requested period whenever the history allows, and the second pass starts from the median of the best first-pass fits. Each window gets one row of results, in time order, with its own dates, counts, parameters, uncertainties and flags; histories that cannot be used yield only a flag. Nothing depends on the row order of the file or on the positioners processed before.",
     ["histories", "inputs"], "all histories of a small scope of dates, disabled, move-less, unselected and re-homed rows, x periods, windows, selections, error orders and failing windows",
     "There is no test; windows with different move sequences, or more than ten, made the program fail.",
     ["posparams/fithandler.py", "posparams/posmoveselection.py"], [("filters, windows, two passes, results", "fithandler.run_best_fits, _apply_filters, _define_cases, _process_cases"), ("selection by note", "posmoveselection.posmove_selection")],
     "explicit-state enumeration of histories; the real file-to-file code is run on each with a recording stand-in for the numerical fit and compared with a reference model", "model_checking",
     "Complete over the small scope; a smaller set goes through the real fit.")
prop("C17", "Positioner calibration fits recover the calibration and respect fixed parameters",
     "Fitting a positioner's calibration to positions it produced recovers its arm lengths, offsets, scales and the drift of every sequence that does not follow a re-homing, for every calibration within bounds. Fixed parameters keep their values, fitted ones stay within bounds, the result is the weighted least-squares one with its true rms of residuals, discrepant points are dropped only on request, and positioners that do not move, or data that cannot anchor the fit, are flagged instead of fitted. Inputs and defaults are not modified and no call affects another.",
     ["inputs", "configurations", "histories"], "all calibrations, pose sets, subsets of fixed or bounded parameters, re-homing patterns, scales, outliers, noise patterns, weights and call sequences of a lattice",
     "There is no test of the module.",
     ["posparams/fitter.py", "posparams/flags.py"], [("bounded chi-square minimisation, outlier loop, static and dynamic modes", "fitter.fit_params"), ("stuck motors", "flags.eval_move_flags")],
     "exhaustive bounded enumeration of simulated histories on the real code against the simulated truth and an independent least-squares solver", "exploration",
     "Complete over the lattice; offsets up to 120 deg from the first guess.")

prop("C19", "Spot matching returns this call's match_positions answer, or an error",
     "Matching with the external program hands it the true measured spots, targets, fiducials, pixel scale and reach, and returns a table with exactly the program's rows, completed with the right device and pinhole numbers. Whatever the program does (fails, crashes, is an old version, writes nothing, is absent), in any sequence of calls, and whatever another process matches at the same time, the result is that of this call or an error is raised.",
     ["inputs", "fault_sequences", "schedules"], "all sequences of program behaviours over up to three or four calls, all sequences of answer lines, all interleavings of two processes with up to two (three) preemptions, a lattice of spots, expected positions and transformations",
     "The only test needs the external program, which is not installed where tests run, and checks nothing about the answer.",
     ["spotmatch.py", "io.py"], [("input files, program call, option fallback, parsing", "spotmatch.spotmatch")],
     "systematic fault injection and exhaustive two-process schedule exploration on the real code with a stand-in program", "fault_enumeration",
     "Complete for the behaviour alphabet and preemption bound; the real program is replaced by a stand-in that follows its documented formats.")
prop("C21", "Averaging lists of spots aligns them, averages common spots and nothing else",
     "Averaging several lists of spots gives, for every spot present in all of them, the mean of its positions after aligning each list to the first one; spots missing from any list, false detections, other columns, row order and the other lists stay as they were. Row orders, false detections, missing spots and small shifts, rotations and scales between the images do not matter.",
     ["inputs", "configurations"], "all subsets of missing spots and false detections, row orders, image deformations and noise patterns of a lattice for one to four lists",
     "There is no test of the module.",
     ["averagecoord.py", "match.py", "simplecorr.py", "bin/average_coordinates"], [("cumulative matching and alignment", "averagecoord.average_coordinates")],
     "exhaustive bounded enumeration on the real code against least-squares alignment of known identities", "exploration",
     "Complete over the lattice; images less than 4 pixels apart.")

prop("C20", "Camera exposures become correctly identified focal plane positions",
     "Processing an exposure (an image or a table of spots) writes exactly its spots, in order, each at its focal plane position: fiducial pinholes are identified with their metrology, every other spot with the closest expected position within the matching distance that no other spot is closer to, or with none; unknown expected positions match nothing. This does not depend on the format of expected positions, row order, missing fibers, spurious spots, the camera's shift, rotation and scale, or the matching program; sky coordinates, the saved transform, limits, directories and error codes are as requested. The right extension and bias are used, and one request never affects another.",
     ["inputs", "configurations", "histories"], "a covering set (every pair of values and more) of expected position formats, displacements, limits, missing and extra spots, orders, cameras and options; every combination of output options, error conditions, image extensions, and all sequences of up to three requests",
     "The tests process one exposure with default options; NaN positions, output directories and the second matching program failed unnoticed.",
     ["processfvc.py", "findfiducials.py", "transform/fvc2fp.py", "match.py", "turbulence.py"], [("options, matching, outputs, errors", "processfvc.fvc_proc, preproc, get_spots_list, get_expected_pos"), ("request cache", "processfvc.process_fvc")],
     "exhaustive bounded enumeration of simulated exposures, options and request sequences on the real code against known identities", "exploration",
     "Complete for the enumerated set; noise-free spots.")

prop("C25", "Database extraction gives exactly the requested rows joined with the right data",
     "The programs that extract positioner data from the telescope database write, for every combination of their selection options (petals, positioners, those that moved, exposures, iterations, dates, latest rows, tracking updates, enabled history, merged or not), exactly the selected rows: each move with the calibration in force at its time, the spot of the image of its own exposure (or of the first image after it within the delay), the location of its petal, and the re-homing flag. Expected coordinates are those of the tracked angles with that calibration; displacements are of consecutive measured moves; the latest parameters are the latest. Neither the order of rows, nor another petal or positioner, nor missing values change this.",
     ["inputs", "configurations", "histories"], "every combination (quick: every triple of values) of the selection options on a database with every kind of row; every sequence of up to six enabled states, tracking updates, moves and images",
     "No test reaches the database programs; second petals, 'movers', and calibrations between moves failed unnoticed.",
     ["dbutil.py", "bin/get_posmoves", "bin/get_poscoords", "bin/get_posmoves_with_fvc_data", "bin/get_posmoves_with_fvc_data_using_dates", "bin/get_posparams", "bin/check_moving"], [("queries", "dbutil"), ("selection and joins", "bin/get_posmoves, bin/get_poscoords, bin/get_posmoves_with_fvc_data*")],
     "exhaustive bounded enumeration of options, rows and event sequences run through the real programs on a database stand-in, against an independent selection", "exploration",
     "Complete for the enumerated databases and options; queries are run by sqlite instead of PostgreSQL.")

prop("C26", "Only validated calibrations are prepared for the instrument",
     "From fits of individual positioners to the table for the instrument: every positioner file is fitted once with the given options, a failing one is reported and does not prevent the others, however many processes run. Merging keeps all rows of all files in order, completes missing locations from the metrology, and refuses locations that contradict it. The preparation program excludes (or, in set-enabling mode, marks, explains and never commits) exactly the rows that miss required values or fail a check at its final tolerance, keeps exactly the row selected among duplicates, passes values on unchanged, commits exactly the parameters agreed to, and writes nothing unless its dialogue was completed, whatever the sequence of answers.",
     ["inputs", "configurations", "histories"], "every sequence of answers up to a depth at every prompt, every subset of failing conditions, both sides of each tolerance, every arrangement of duplicates and commits in both modes; every sequence of up to three result files; every set of failing fits and number of processes",
     "No test runs these programs; wrong duplicates, lost failures, a crash on complete tables and confirmation by refusing twice went unnoticed.",
     ["bin/prepare_posparams_for_instr", "bin/merge_posparams", "bin/fit_posparams", "log.py", "posparams/movemask.py"], [("checks and dialogue", "bin/prepare_posparams_for_instr"), ("merging", "bin/merge_posparams"), ("dispatch of fits", "bin/fit_posparams")],
     "exhaustive bounded enumeration of dialogues, rows and results run through the real programs, each compared with an explicit state machine of the documented behaviour", "model_checking",
     "Complete for the enumerated alphabets and depths; the numerical fit itself is judged by C16 and C17.")

prop("C18", "Lists, flags, logs, headers and data locations mean what they say",
     "A list of integers is the comma separated concatenation of integers and half-open ranges (1:5, 1..5 or 1-5 give 1,2,3,4; blanks are ignored; None or blank gives an empty list) and any other string ends the program with an error. A bit mask converts names, bit numbers, values, sets and printed definitions into each other without loss for every set of bits, unknown bits stay visible as UNKNOWNn, unknown names are refused, and the published bit of each flag never changes. Every logger obtained passes messages at or above its level (argument, else the environment variable) exactly once to the console and to every file requested with it, with time stamps only if asked, whatever loggers were obtained before, and no file loses earlier content. The hexapod rotation is the sixth of exactly six focus values in arcsec. Metrology, petal alignments and default camera, bias and platemaker transforms come from the data directory of the environment if given, else from the package.",
     ["inputs", "histories", "configurations"], "every string of up to 5 or 6 tokens; every set of bits and value; every sequence of up to 2 or 3 requests for loggers of any level, file and time stamp choice, with a message of every severity after each; every header arrangement; two alternative data directories against packages holding that data",
     "No test covers these services; a log file was silently ignored depending on which logger was obtained before.",
     ["util.py", "bitmask.py", "log.py", "io.py", "posparams/movemask.py", "posparams/posflags_mask.py"], [("list grammar", "py/desimeter/util.py:parse_fibers"), ("bit masks", "py/desimeter/bitmask.py"), ("loggers", "py/desimeter/log.py:get_logger"), ("data directory", "py/desimeter/io.py")],
     "exhaustive bounded enumeration of token strings, bit sets and logger request histories on the real code, each replayed against a reference model", "model_checking",
     "Complete up to the stated length of strings and histories; one data directory per process.")

prop("C27", "Instrument tables and transforms are rebuilt exactly from measurements",
     "The programs that build the metrology tables of the focal plane and of the test petals, the GFA patch, the patch from fitted circles, the optics fit, the petal alignments and the camera transform use exactly the rows they are documented to use: a location is replaced by its better measurement (if wanted) and otherwise kept, nothing is lost, duplicated or assigned to another device, and row order, number of input files, missing files and rows without counterpart do not matter. Circles are fitted with the points of one device only, excluding outliers, and immobile or mismatched devices give none. The camera transform found is the true one whatever outliers, flagged or badly fitted rows the tables contain. The latest snapshot of the alignments is used, and the shipped tables follow from the shipped measurements.",
     ["inputs", "configurations", "histories"], "every combination of row orders, replaced, added, repeated and missing rows and options for each table; every arrangement of defects in series of exposures; every combination of outliers, excluded rows, polynomials and tables for the transform; every history of up to three snapshots",
     "No test runs these programs; a default input that does not exist and rows fitted at the centre of the focal plane went unnoticed.",
     ["bin/write_focal_plane_metrology", "bin/update_focal_plane_metrology_patch", "bin/desi_fit_circles", "bin/desi_fit_fvc2fp_using_theta_centers", "bin/desi_fit_fvc2fp_using_posparams", "bin/load_petal_alignments_from_db", "bin/write_gfa_patch", "bin/fit_raytrace_tan2fp", "transform/fvc2fp.py"], [("selection of rows", "bin/write_focal_plane_metrology"), ("circle series", "bin/desi_fit_circles"), ("camera transform with outliers", "bin/desi_fit_fvc2fp_using_theta_centers, bin/desi_fit_fvc2fp_using_posparams")],
     "exhaustive bounded enumeration of tables, exposures and histories run through the real programs, against independent selections and known transforms", "exploration",
     "Complete for the enumerated tables; fits are judged by known answers to a few micrometres.")

prop("C28", "Observers are told exactly which positioners may move, moved, or are ambiguous",
     "A positioner may be moved exactly if it is not wedged between two close neighbours; groups that move together never contain two positioners within reach of each other, are disjoint and as large as possible, and nobody is left out of the lists and pages. Positioners identified by their moves are exactly those requested whose fiber moved by an amount within the limits and lies near enough to their centre, whatever false or missing spots, camera changes or number of images. Lists of possible matches show every ambiguity and nothing impossible. Predicted field rotations and fits of guide stars use the values given, wherever they are in the headers. Prepared jobs process each image extension that lacks results exactly once with its options, however often they are prepared and run, and leave the images alone.",
     ["inputs", "configurations", "histories"], "every arrangement of two or three neighbours on a lattice; every subset of a patch of positioners; every combination of moves, limits, false and missing spots, cameras and images; every combination of arguments and keywords; every history of up to four or five steps of preparing, running and losing results",
     "No test runs these programs; the last group had no page, images were made executable and preparing jobs twice failed.",
     ["bin/ok2move", "bin/select_groups_of_positioners", "bin/detect_and_match_moving_positioners", "bin/desi_print_ambigous_groups", "match_positioners.py", "bin/compute_distance_from_center", "bin/desi_predict_fieldrot", "bin/desi_fit_guide_star_coordinates", "bin/write_fvc_image_processing_scripts"], [("neighbours", "bin/ok2move"), ("moved spots", "bin/detect_and_match_moving_positioners"), ("jobs", "bin/write_fvc_image_processing_scripts")],
     "exhaustive bounded enumeration of arrangements, configurations and job histories run through the real programs, against brute force and an explicit model of the jobs", "exploration",
     "Complete for the enumerated arrangements and depths; the image processing program in the jobs is a stand-in.")

prop("C29", "Positioner performance statistics follow exactly from the recorded moves",
     "The performance analysis uses exactly the rows with a commanded, measured and matched move of a blind move or of a correction whose blind move is known, within the dates, calibration scales and kinds of moves asked for, whatever the number and order of files and rows, the number of processes and the other positioners analysed with it. Each row has the true submove, move and image counts, the error with respect to the tracked and to the requested position (for corrections, the position aimed at from the previous measurement; in older data, the position commanded in whichever coordinate system), and whether it was accepted. Statistics by positioner, summaries by submove and fraction of targets, and the list of the worst errors are the statistics of these rows, and the counts agree.",
     ["histories", "inputs", "configurations"], "every history of up to two (thorough: three) rows of a positioner over two dozen kinds of rows, many positioners together and alone, in every arrangement of rows and files; every pair (thorough: a fifth of all combinations) of options",
     "No test runs the programs; the number of images was computed across exposures and offsets were added twice to some requests.",
     ["bin/analyze_pos_performance", "bin/analyze_pos_performance_legacy"], [("selection of moves", "bin/analyze_pos_performance:read, remove_orphan_submoves"), ("moves and requests", "bin/analyze_pos_performance:identify_moves"), ("statistics", "bin/analyze_pos_performance:identify_quantiles, summarize_stats")],
     "exhaustive bounded enumeration of histories of recorded moves run through the real program, each replayed against an independent model of selection and statistics", "exploration",
     "Complete up to the stated depth of histories for the enumerated kinds of rows; plots are not judged.")

#--INSERT--

NA = []
with open(os.path.join(here, "properties.jsonl"), "w") as f:
    for e in P:
        assert len(e["p"]["title"]) <= 80, e["p"]["title"]
        f.write(json.dumps(e["p"])+"\n")
m = dict(version=1, setup_cmd="bin/setup",
         checks=[dict(property=e["p"]["id"], quick_cmd="bin/check %s quick" % e["p"]["id"],
                      thorough_cmd="bin/check %s thorough" % e["p"]["id"],
                      technique=e["technique"], level=e["level"], level_note=e["note"]) for e in P],
         not_applicable=NA,
         notes="All checks import the code from /repo/py as it is in the working tree (pure Python: nothing to build) and run in-process under a bounded exhaustive driver; see DESIGN.md. No hooks in /repo.")
with open(os.path.join(here, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
