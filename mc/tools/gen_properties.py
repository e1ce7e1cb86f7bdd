"""Writes /verif/properties.jsonl (kept as a script so the file stays readable)."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mech, observe=(), state=()):
    d = {"id": id, "title": title, "statement": statement,
         "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why,
         "anchors": {"files": files,
                     "mechanism": [{"name": n, "where": w} for n, w in mech]}}
    if observe: d["anchors"]["observe_at"] = list(observe)
    if state: d["anchors"]["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    d["anchors"]["hook_needed"] = None
    P.append(d)

HIT="xboa/hit/_hit.py"; BUN="xboa/bunch/_bunch.py"; COM="xboa/common/_common.py"
HC="xboa/core/cpplib/Hitcore.cc"; HCH="xboa/core/cpplib/Hitcore.hh"; PHC="xboa/core/pylib/PyHitcore.cc"
BC="xboa/core/cpplib/Bunchcore.cc"; PBC="xboa/core/pylib/PyBunchcore.cc"
WC="xboa/core/cpplib/WeightContext.hh"; PWC="xboa/core/pylib/PyWeightContext.cc"

prop("C01","A hit stores exactly what was written, under every alias, and nothing else",
 "After any sequence of variable assignments on any hits, reading a stored variable through any of its names returns the last value assigned to it on that hit, or its documented initial value. No assignment changes any other stored variable or any other hit. An assignment that is rejected (unknown name, value of the wrong type) raises an error and leaves every value as it was.",
 ["histories","inputs"],"all sequences of get/set operations, over all variable names and aliases, value classes and several hits",
 "tests set a handful of variables once each; interference between variables, aliases and hits is a property of histories",
 [HIT,HCH,HC,PHC],[("string to accessor tables","Hitcore::initialise_string_to_accessor_maps / mutator_maps"),("python get/set","Hit.get, Hit.set; PyHitcore set/get")],
 ["Hit.get/set, h[...]","xboa.core Hitcore.get/set"])
prop("C02","Derived hit quantities always agree with the stored ones",
 "For every hit state, each derived quantity (momentum, radius, angles, divergences, kinetic energy, ct, angular momentum, spin, total weight and so on) equals its textbook formula applied to the stored variables. Assigning a settable derived quantity makes it read back as assigned, keeps what it is documented to keep (direction, pz, mass) and touches no unrelated variable.",
 ["inputs","histories"],"all hit states over a lattice of phase-space values including zeros and negative signs, and all sequences of derived/stored assignments",
 "tests check a few values on one hit; sign, quadrant and zero cases are not reached",
 [HIT],[("derived getters and setters","Hit.get_p .. get_l_kin, set_p .. set_ek, tables __get_variables/__set_variables")],["Hit.get/set"])
prop("C03","Global weight belongs to a particle identity; local weight to one hit",
 "At every point of every history, all hits with the same spill, event and particle number read the same global weight (the last one set through any of them or through the active weight context, else the default), hits with a different identity are unaffected, and re-labelling a hit moves it to the weight of its new identity. A local weight is private to its hit, and the total weight is always local times global. Clearing global weights resets every identity and no local weight.",
 ["histories"],"all bounded sequences of weight writes, relabellings, clears and context writes, over hits sharing and not sharing each part of the identity",
 "tests set one weight on one or two hits; the guarantee is about all interleavings of writes over identities",
 [HCH,HC,WC,PHC,PWC,HIT],[("weight lookup by identity","Hitcore::global_weight / set_global_weight"),("ordering of identities","WeightContext::HitId operator<")],
 ["Hit.get('global_weight'|'local_weight'|'weight')","WeightContext.get_weight"],[("global weight map","identity to weight, absent means default","WeightContext::globalWeightsContext_")])
prop("C04","Weight contexts combine element by element over all identities",
 "For any two weight contexts and any arithmetic expression over them and numbers, the weight of every identity in the result is the same expression applied to the weights of that identity in the operands (identities never written count as their context's default). Operands are not modified, logical complement maps zero weights to the default and all others to zero, and clearing forgets all written weights.",
 ["programs","inputs"],"all expressions up to a depth over contexts with every pattern of set/unset identities and default weights",
 "tests try one pair per operator with one populated pattern",
 [WC,PWC],[("operator implementations","WeightContext::operator+,-,*,/ and complement; PyWeightContext number protocol")],["xboa.core WeightContext operators, get_weight"])
prop("C05","Hits, bunch statistics and weight contexts always see the same active context",
 "After any history of creating, switching, editing and copying weight contexts, the weight a hit reports, the weight used in every bunch statistic and cut, and the weight stored in the active context agree. Switching contexts never alters the weights stored in either context, and switching back restores the weights seen before.",
 ["histories","configurations"],"all bounded sequences of context create/switch/edit/clear and bunch statistics calls, contexts shared or dropped by their creator",
 "tests switch a context once and look only at a hit",
 [PHC,PBC,WC,HCH],[("context switch","PyHitcore setWeightContext/getWeightContext"),("context import by the statistics module","PyBunchcore module initialisation")],
 ["Hitcore.set_weight_context/get_weight_context, Bunch.moment, Bunch.cut"])
prop("C06","Copying and serialising hits and bunches preserves the data and disturbs nothing",
 "Deep copying, pickling and unpickling, converting to a dictionary and back, and evaluating the printed form of a hit all yield an object equal in every stored variable; deep copying a bunch likewise yields equal hits in the same order. The copy is independent of the original. Making the copy changes no other observable state: not the original, not other hits, not the weight of any particle.",
 ["inputs","histories"],"all hit states over a lattice of values, identities and weights, all copy mechanisms, and all short edit histories after copying",
 "tests copy one default-ish hit and compare only the copy",
 [HIT,BUN],[("dict and pickle protocol","Hit.dict_from_hit, new_from_dict, __getstate__/__setstate__, __repr__, __deepcopy__"),("bunch copy","Bunch.__deepcopy__, __repr__")],["Hit/Bunch equality, weights of bystander hits"])
prop("C07","A bunch is a list of hits, and its statistics see exactly that list",
 "After any history of construction, append, item assignment (including negative indices), deletion and conditional removal, a bunch has exactly the hits, order and length the same operations give on a plain list, and every statistic, weight sum and cut acts on exactly those hits with their current values. An operation that fails leaves hits and statistics in agreement.",
 ["histories"],"all operation sequences up to a depth over small bunches with distinct, repeated and zero-weight hits",
 "tests run a few single operations and compare lengths",
 [BUN,BC,PBC],[("mirrored storage","Bunch.__setitem__, __delitem__, append, conditional_remove"),("core container","Bunchcore::set_item, del_item")],
 ["len(bunch), bunch[i], bunch.hits(), bunch_weight, mean, covariance_matrix"],[("two mirrored lists","python hits and core hits","Bunch / Bunchcore")])
prop("C08","Native hit, bunch and weight storage is memory-safe and leaks nothing",
 "For every history of creating, aliasing, inserting, replacing, deleting, copying and dropping hits, bunches and weight contexts in any order, no freed or out-of-range memory is accessed, an object stays alive exactly as long as something refers to it, and once all references are gone no hit data remains allocated. Out-of-range indices are reported as errors.",
 ["histories"],"all bounded operation histories over the native containers, including re-initialisation, self-assignment, out-of-range indices and every drop order",
 "tests check a few reference counts; use-after-free and leaks depend on the order of operations and are invisible without instrumentation",
 ["xboa/core/utils/SmartPointer.hh",PHC,PBC,PWC,BC],[("reference counting","SmartPointer"),("index handling","PyBunchcore get_item/set_item/del_item")],["Hitcore.dump_memory","AddressSanitizer reports"])
prop("C09","Weighted means, moments and covariances equal their definition",
 "For every bunch and weights with non-zero sum, the mean, the central or raw moment of any order and axis list, the standard deviation, the covariance matrix and the full moment tensor equal the weighted sums that define them, to floating-point accuracy. The covariance matrix is symmetric and consistent with moments and standard deviations; zero-weight hits have no influence; results do not depend on axis order except by permutation.",
 ["inputs"],"all bunches of up to a few hits over a lattice of variable values and weights, all axis lists with repetition, derived and stored axes, with and without supplied means",
 "tests use one bunch and compare against loose statistical tolerances",
 [BC,PBC,BUN],[("accumulation","Bunchcore::get_moment, covariance_matrix, get_moment_tensor, get_index_by_power"),("python front end","Bunch.moment, mean, standard_deviation, covariance_matrix")],["Bunch.moment/mean/standard_deviation/covariance_matrix, Bunchcore.moment_tensor"])
prop("C10","Emittance, Twiss functions, dispersion and amplitude follow from covariances",
 "For every bunch, emittance, beta, alpha, gamma, dispersion, angular momenta and particle amplitude equal their definitions in terms of the bunch's means and covariance matrix, in kinetic and geometric conventions, for one and two transverse planes and time. beta*gamma - alpha^2 is 1 for a single plane; asking by name gives the same number as calling the function; covariances and means set explicitly take precedence over the data.",
 ["inputs","configurations"],"all small bunches over a lattice, all axis lists, conventions, charge signs and explicit-covariance settings",
 "the unit tests of these functions are not in the reliable set and cover one gaussian beam",
 [BUN],[("optics functions","Bunch.get_emittance/get_beta/get_alpha/get_gamma/get_dispersion*/get_amplitude/get_canonical_angular_momentum"),("explicit moments","Bunch.set_covariance_matrix, __cov_mat_picker, __mean_picker")],["Bunch.get_*, Bunch.get, Bunch.list_get"])
prop("C11","A cut zeroes the weight of exactly the hits that meet it",
 "For every bunch, variable, comparison and threshold, a cut sets to zero the chosen kind of weight (local: that hit only; global: every hit of the same particle) of exactly the hits for which the comparison with the threshold is true, and leaves all other hits, weights and variables alone. Cutting is idempotent; hits are never removed; several cuts in one call equal the same cuts applied in turn; thresholds in standard deviations equal the same absolute thresholds.",
 ["inputs","histories"],"all small bunches over value/weight/identity lattices, all comparators, stored integer, stored real and derived variables, local and global, and sequences of cuts and clears",
 "one test cuts one gaussian bunch and counts survivors",
 [BUN,BC,PBC],[("native cut","Bunchcore::cut_double, PyBunchcore cut_double"),("python cut","Bunch.cut, Bunch._cut")],["hit weights after Bunch.cut"])
prop("C12","Transmission cuts, selections and removals pick exactly the right hits",
 "A transmission cut keeps the weight of exactly those hits that have a partner, by all the given identity variables, in the reference bunch. Selecting hits by value returns exactly the matching hits in order, and conditional removal leaves exactly the complement in order. None of them alters any hit other than the weights a transmission cut zeroes.",
 ["inputs"],"all pairs of small bunches over identity lattices, in all orders, with repeated identities; all comparators and thresholds",
 "the related tests are not in the reliable set and use one pre-sorted pair of bunches",
 [BUN],[("identity matching","Bunch.transmission_cut"),("selection","Bunch.get_hits, Bunch.conditional_remove, Bunch.hit_equality")],["hit weights, bunch contents"])
prop("C13","Transformations move phase space as specified and keep particles on mass shell",
 "For every hit or bunch, a translation adds exactly the given offsets, a linear transformation yields matrix times (vector minus origin) plus origin plus translation, and a change of frame to target covariances gives a beam whose covariances are proportional to the target, with its emittance conserved. Whenever a mass-shell variable is named, only it is adjusted and E^2 = p^2 + m^2 holds after the call, or it is set to zero and failure is reported when no real solution exists. Variables and weights not involved, and the arguments, are unchanged.",
 ["inputs"],"all hits over a lattice of momenta and masses including unphysical ones, all mass-shell variables, all variable subsets, a set of matrices, offsets and origins",
 "tests apply one matrix to one hit; unphysical and zero cases are not covered",
 [HIT,BUN],[("transformations","Hit.translate, abelian_transformation, mass_shell_condition; Bunch.translate, abelian_transformation, transform_to, period_transformation")],["hit variables after the call"])
prop("C14","Beam ellipses and generated shells have the optics they were asked for",
 "For all valid parameters, an ellipse built from Twiss parameters or a solenoid beam description is a symmetric covariance matrix from which the same emittance, beta and alpha are computed back. A generated shell contains the documented number of points, which all lie on the ellipsoid of the given covariance matrix, in the requested variables, with the defaults applied and every particle on mass shell.",
 ["inputs"],"all combinations over lattices of Twiss parameters, momenta, masses, charges, geometric flag, dimensions and points per dimension",
 "tests check one parameter set",
 [BUN,COM],[("ellipse construction","Bunch.build_ellipse_2d, build_penn_ellipse"),("shells","Bunch.new_hit_shell, common.make_shell, make_grid")],["returned matrices and bunches"])
prop("C15","Writing then reading a built-in file format returns the same particles",
 "For every list of hits representable in a supported line-based format, writing the list and reading the file back gives the same number of hits, ordered by station and otherwise in the order given, each equal to the original in every variable the format carries, in internal units, with mass, charge and energy consistent with its particle type. Writing changes no hit in memory, nor which hits the written list or bunch holds or their order.",
 ["inputs","configurations"],"all formats, all particle types, all small hit lists over lattices of stations, values (signs, zeros, extremes) and header comments",
 "one test round-trips one hit per format",
 [HIT,"xboa/hit/factory/_builtin_hit_factory.py","xboa/hit/factory/_line_factory_base.py",BUN,COM],[("format tables","Hit and BuiltinHitFactory file_formats/file_units/file_headers"),("writers and readers","Hit.write_list_builtin_formatted, Bunch.new_from_read_builtin, Bunch.hit_write_builtin")],["files and hits"])
prop("C16","User-defined columns and units round-trip",
 "For every list of writable columns, units and separators, user-formatted output has one line per hit, in the bunch's order or the order of the given comparison, whose columns are the variables expressed in the given units. Reading such a file with the same columns and units gives back the same values, applying the requested mass-shell condition, skipping exactly the requested header lines; an unknown column or unit is reported, not guessed.",
 ["inputs","configurations"],"all short column lists over variables, units of each dimension, header lengths, mass-shell choices",
 "tests use one column list",
 [HIT,"xboa/hit/factory/_user_hit_factory.py","xboa/hit/factory/_line_factory_base.py",BUN],[("user format","Hit.write_user_formatted, UserHitFactory, Bunch.hit_write_user, Bunch.new_from_read_user")],["files and hits"])
prop("C17","Damaged input never corrupts or invents particles",
 "When a file has been cut off at any byte, or has lines missing, blank or of the wrong width, the built-in and user readers return exactly the particles of its intact lines, in order and with correct values; a damaged line costs at most the particle on that line and is never merged with a neighbour. Reading always terminates.",
 ["fault_sequences","crash_points","inputs"],"every truncation point of files in every format, and every placement of damaged lines in short files",
 "tests read only well-formed files",
 ["xboa/hit/factory/_line_factory_base.py","xboa/hit/factory/_builtin_hit_factory.py",BUN],[("line parser","LineFactoryBase._read_formatted"),("read loop","Bunch.new_from_read_builtin, new_from_read_user, setup_file")],["hits read"])
prop("C18","Readers return exactly the requested hits, and splitting partitions them",
 "Reading with a test function, a maximum number of hits or several files returns exactly the hits that a full read followed by filtering and truncation would. Splitting by a variable, or reading into a dictionary or sorted list of bunches, partitions the hits: each hit is in exactly one bunch, bunches are sorted and (for an integer variable) uniform in the variable, and file order is kept within each.",
 ["inputs","configurations"],"all small files, all limits from none to beyond the end, all predicates over a small set, all file splits and indexing variables",
 "tests read one file per call form and compare lengths",
 [BUN],[("selection","Bunch.new_from_read_builtin, new_from_read_user, new_list_from_read_builtin, new_dict_from_read_builtin, split")],["bunch contents"])
prop("C19","A failed write leaves hits in memory intact and reports or completes",
 "If writing a hit or a list of hits fails at any point (the output rejects any one of the writes, or a particle type has no code in the format), all hits in memory keep every variable, and later writes of the same hits give the same output as if the failure had not happened. Every complete line that reached the output is a correct record of one hit.",
 ["fault_sequences","crash_points"],"a failure injected at every write call, in every format, for hits of each particle type, followed by a retry",
 "tests never make a write fail",
 [HIT],[("pid translation during output","Hit.write_builtin_formatted"),("list writer","Hit.write_list_builtin_formatted")],["hits and output after the failure"])
prop("C20","Binning and histogramming account for every entry once",
 "For every list of values, weights and bin edges, each entry lies in exactly the one bin whose half-open interval contains it, entries outside the edges are not counted, and bin contents are the sums of weights. Automatically chosen ranges and bin edges are evenly spaced, increasing and cover the data (or the explicit limits), and bin counts are positive for any sample size.",
 ["inputs"],"all short value lists over lattices that include repeated and boundary values, all bin edge lists, one and two dimensions, with and without weights and limits",
 "tests histogram one list",
 [COM,BUN],[("histogramming","common.histogram, get_bin_edges, min_max, n_bins; Bunch.histogram, histogram_var_bins")],["returned contents and edges"])
prop("C21","Sorting parallel lists permutes rows, and grids enumerate their points",
 "Sorting several lists together orders the first and applies the same permutation to all others, so the multiset of rows is preserved and ties keep their original order or that of the rows. A grid of n points per dimension has exactly the n^d distinct points expected.",
 ["inputs"],"all tuples of short lists over small alphabets with ties; all grid sizes up to a bound",
 "tests sort one list without ties",
 [COM],[("multisort","common.multisort"),("grid","common.make_grid")],["returned lists"])
prop("C22","Parallel processing returns each job's result, in order, whatever the schedule",
 "Processing a list of arguments in parallel returns one entry per argument, in argument order, equal to the function's value or to the exception it raised, for every order and timing in which the jobs finish and every limit on concurrency. No more than the requested number of jobs run at once, every job is run exactly once, and no helper process is left behind.",
 ["schedules","fault_sequences"],"all completion orders of small job lists under all concurrency limits, with any subset of jobs raising",
 "the test runs one schedule decided by the operating system",
 [COM],[("worker pool","common.process_list")],["returned list, started and finished events"])
prop("C23","A tracking job delivers its own complete result or reports that it has none",
 "For every point at which a background tracking job is started, polled, timed out, killed, crashes or is restarted, asking for its result gives the complete result of the current run for the hits it was given, or reports that there is none: never a partial result and never one from an earlier run or another job. A job is reported as running exactly while its process runs, and killing or terminating it ends it.",
 ["crash_points","schedules","histories"],"all bounded histories of job operations and all worker crash and torn-write points",
 "the lifecycle test is not in the reliable set and follows one successful schedule",
 ["xboa/tracking/tracking_process/_tracking_process.py","xboa/tracking/tracking_process/_this_node_process.py","xboa/tracking/tracking_process/xboa_tracking_process.py"],[("job state machine","TrackingProcess and ThisNodeProcess"),("worker","xboa_tracking_process.py")],["get_return_value, is_running, files in the job directory"])
prop("C24","Tracking many hits gives the same answer as tracking each in turn",
 "For every list of hits, batch size and number of parallel jobs, the multi-process tracking front end returns for each input hit the list of hits that the underlying tracking gives it, in input order. Jobs that finish in any order, fail or have not delivered only leave out the hits they were given: the results for all other hits are complete and in input order.",
 ["schedules","inputs","fault_sequences"],"all numbers of hits and batches up to a bound, all completion orders, any subset of jobs failing",
 "only construction is tested",
 ["xboa/tracking/_multitrack.py","xboa/tracking/_tracking_base.py","xboa/tracking/_timeout_tracking.py"],[("batching and collection","MultiTrack")],["returned lists"])
prop("C25","Matrix tracking applies exactly the given maps, on mass shell",
 "For every input hit and every sequence of transfer matrices, offsets and lengths, matrix tracking returns the input followed by one hit per step, each having the image of the input hit under that step's matrix, about the reference hits, in position, transverse momentum, time and energy, on the mass shell, with identity preserved. The inputs are not modified and tracking many equals tracking one at a time.",
 ["inputs"],"all hits over a lattice and all short sequences drawn from a set of matrices, offsets and planes",
 "tests track one hit through one matrix",
 ["xboa/tracking/_matrix_tracking.py","xboa/tracking/_tracking_base.py"],[("propagation","MatrixTracking.track_one, track_many")],["returned hits"])
prop("C26","Peak finders report exactly the peaks of the sequence",
 "For every sequence and setting, the slope-based peak finder reports exactly the points higher than both neighbours, and the window-based finder exactly the points that are the (first) highest of a window, off its edges unless those are edges of the data, and pass the significance threshold, each once and in increasing order. Refinement treats each peak on its own, moves it only within its neighbourhood and recovers the vertex of an exact parabola. The input data are not modified.",
 ["inputs"],"all short sequences over a small alphabet, all window sizes and thresholds",
 "tests look at one sine wave and one noisy spectrum",
 ["xboa/algorithms/peak_finder/_uphill_downhill_peak_finder.py","xboa/algorithms/peak_finder/_window_peak_finder.py","xboa/algorithms/peak_finder/_refine_peak_finder.py"],[("peak search","UphillDownhillPeakFinder, WindowPeakFinder, RefinePeakFinder")],["returned peak lists"])
prop("C27","Smoothing returns the documented local averages, and rejects only outliers",
 "For every signal and setting, Gaussian smoothing returns a signal of the same length in which each value is the documented truncated-Gaussian average of its neighbours, normalised as requested at the ends. Outlier rejection removes exactly the rows whose value is further than the cut from the mean of its window, from every column alike. Fit smoothing returns the fitted curve at every point. The input is not modified.",
 ["inputs"],"all short signals over a small alphabet, all widths and steps",
 "one test smooths one signal",
 ["xboa/algorithms/smoothing/_gaussian_smoothing.py","xboa/algorithms/smoothing/_cut_smoothing.py"],[("kernels","GaussianSmoothing, CutSmoothing, FitSmoothing")],["smoothed signals"])
prop("C28","Tune finders recover the phase advance of a linear oscillation",
 "For every linear oscillation of known tune, amplitude, starting phase and ellipse shape, the phase-advance finder returns that tune and one phase step per turn, and the Fourier finder returns it within its frequency resolution. Asking twice gives the same answer, and unusable input is reported as an error.",
 ["inputs","histories"],"all tunes on a rational grid, starting phases, ellipse shapes and lengths up to a bound, and repeated calls",
 "tests use one or two tunes",
 ["xboa/algorithms/tune/_dphi_tune.py","xboa/algorithms/tune/_fft_tune.py"],[("tune extraction","DPhiTuneFinder.get_tune, FFTTuneFinder.get_tune")],["returned tunes"])
prop("C29","The closed-orbit search finds the fixed point of a linear machine",
 "For every tracking, seed, choice of variables, number of points and cut, each fit uses exactly the hits the tracking returned, in order, going on from the last hit until there are enough, and starting at the seed with the requested variables at the previous centre; its centre, ellipse and noise are those of the points within the cut. For every stable linear machine each centre is the previous one contracted by the mean of the turns, so the search ends early only at the fixed point or when an ellipse has shrunk to precision, and never makes more iterations than allowed. A scan visits every grid point below the ends once, in order. Losses are reported as errors, and the seed and the arguments are not changed.",
 ["inputs","configurations","histories"],"a grid of tunes, ellipse shapes, fixed points, seeds, turns per call, numbers of points and iteration limits; all small orbits with strays; all small scans",
 "tests check only one fit of one machine; the iteration and the scan fail in the reliable set",
 ["xboa/algorithms/closed_orbit/_ellipse_closed_orbit_finder.py"],[("iteration","EllipseClosedOrbitFinder.find_closed_orbit_generator, scan_generator, check_closed_orbit"),("fit","EllipseClosedOrbitFinderIteration.calculate_ellipse")],["tracking calls, yielded orbits"])
prop("C30","Ellipse fitting and iterative ellipse selection enclose what they claim",
 "Fitting an ellipse to points with weights returns the weighted mean and covariance of the points retained: points outside the requested amplitude about the last fit are excluded, again and again until the selection settles or the iterations run out, at any scale of the points; and the bounded selection keeps exactly the points inside the bound, with their original indices and order.",
 ["inputs"],"all small point sets over a lattice, weights, cut values and iteration limits",
 "tests run on one gaussian sample with loose tolerance",
 [COM,"xboa/bunch/weighting/_bounding_ellipse.py"],[("fit","common.fit_ellipse"),("bound","BoundingEllipse.cut_on_bound")],["returned means, matrices and point lists"])
prop("C31","Polynomial reweighting gives the requested moments",
 "For every small bunch with enough independent hits and every reachable set of target moments, reweighting gives weights (local or global, as asked) under which the bunch has the requested moments about zero, or the requested ellipse about the requested mean, without changing any phase-space coordinate or the other weight. A malformed request, or one for moments beyond the maximum order, is refused with the weights as they were.",
 ["inputs"],"all small bunches over a lattice, all axis lists and orders up to a bound, target moments taken from every bunch in the lattice",
 "one test reweights one gaussian sample",
 ["xboa/bunch/weighting/_multipole_weighting.py",BC],[("moment inversion","MultipoleWeighting"),("moment tensor","Bunchcore::get_moment_tensor")],["moments after reweighting"])
prop("C32","Particle tables and unit factors are mutually consistent",
 "Every particle type known to a tracking-code numbering maps to one standard particle code and back again, antiparticles have the same mass and opposite charge, and every physical unit converts to the internal units by its defined factor, so that composite and prefixed units agree with their parts.",
 ["inputs"],"every entry of every table",
 "tests look at no more than a few entries",
 [COM,"xboa/common/__init__.py"],[("tables","common.pdg_pid_to_mass, pdg_pid_to_charge, *_pid_to_pdg, units, constants")],["table lookups"])
prop("C33","Template substitution rewrites exactly the given keys",
 "For every template and set of keys and values, the output file is the template with every occurrence of each key replaced by its value and every other character unchanged, with all lines kept in order. The template itself is not modified unless it is also the output.",
 ["inputs"],"all short templates over an alphabet containing keys, parts of keys, adjacent and overlapping keys and line endings",
 "one test substitutes into one file",
 [COM],[("substitution","common.substitute")],["output file"])
prop("C34","Root finding by Newton-Raphson converges to a root or says so",
 "For every well-conditioned linear system and starting point the multi-dimensional root finder returns a point whose residuals are within the requested tolerances and reports convergence. It never reports convergence for a point outside tolerance, and never exceeds the allowed number of iterations.",
 ["inputs"],"all small integer systems up to a bound, all starting points, tolerances and iteration limits",
 "no reliable test exercises it",
 [COM],[("iteration","common.nd_newton_raphson1, nd_newton_raphson2")],["returned point and status"])
prop("C35","Decoupling a coupled linear map splits it into independent planes",
 "For every stable symplectic transfer matrix with distinct phase advances, coupled or not, the decoupling gives matrices with M = R T R^-1 in which T is block diagonal, one block per plane, with the same eigenvalues as M; the phase advance of each plane is the phase of its eigenvalues. The parameters of each plane satisfy beta gamma - alpha^2 = 1 and describe the ellipse that plane's map preserves, and the periodic ellipse built for given eigenemittances is preserved by M and has those eigenemittances. Malformed matrices and emittances are refused, and the input is not changed.",
 ["inputs"],"a grid of phase advances, ellipse shapes and symplectic couplings in one to three planes",
 "no reliable test exercises it",
 ["xboa/algorithms/decoupled_transfer_matrix.py"],[("eigenvector decomposition","DecoupledTransferMatrix")],["returned matrices, phases and ellipses"])
prop("C36","Tessellation weighting gives density times each point's share of space",
 "For every set of distinct points in two or more dimensions, each retained point's content is the area or volume of the part of space nearer to it than to any other retained or boundary point, and zero if that part is endless; contents come in the order asked for, whatever regions and number of processes are used. A hit outside the bound gets weight zero; every other hit gets the target density at its position times its content, in the local or the global weight as asked. Nothing else of the hits changes.",
 ["inputs","configurations"],"all small sets of lattice and generic points, bounding ellipses and densities in two and three dimensions",
 "only the density function is tested reliably",
 ["xboa/bunch/weighting/_voronoi_weighting.py","xboa/bunch/weighting/_hull_content.py"],[("tile content","HullContent"),("weighting","VoronoiWeighting")],["tile contents and weights"])
prop("C37","MAUS JSON output and input carry the same particles",
 "For every list of hits, writing it as MAUS JSON puts each hit in the spill and event of its event and particle number, in order of first appearance, and reading the file back gives each hit once with the same position, time, momentum, mass, particle type and energy in internal units and on mass shell. Station, track and event numbering follow the documented mapping; limits and test functions select as for the line formats; hits in memory are unchanged.",
 ["inputs","configurations"],"all small hit lists over identity and value lattices, both writable types, all limits, test functions and small recorded documents",
 "the tests convert one recorded file",
 [HIT,BUN,"xboa/hit/factory/_maus_json_hit_factory.py"],[("record mapping","Hit.get_maus_dict, Hit.write_list_maus_json, MausJsonHitFactory")],["files and hits read"])
prop("C38","Plots show exactly the data they were given",
 "For every data set and option, a graph shows each given point once, in the given order or sorted by x, a scatter plot shows each hit's values in the requested units, and a histogram's bins hold the sums of the weights of the entries in them, none left out within an automatic range. Axes carry the requested labels and ranges, several graphs or ratios of histograms are drawn each from its own data, and graphs of bunches follow the given comparator. Data that cannot be drawn are refused (ROOT graphs of bunches leave out bunches without the requested value), and drawing changes none of the caller's data, bunches or hits.",
 ["inputs","configurations"],"all short data lists with ties and weights, all sort, unit and axis-limit settings, through the matplotlib and ROOT plotting functions",
 "the plotting tests only check that a canvas is produced",
 [COM,BUN,"xboa/common/matplotlib_wrapper.py"],[("plot construction","common.make_matplot_*, make_root_*; matplotlib_wrapper; Bunch.matplot_*, Bunch.root_*; plot_ellipse_*")],["artists of the returned figures and ROOT objects"])
prop("C39","Hit factories hand out every particle of their source once, in order",
 "For every source and every interleaving of requests to a hit factory (its generators and single reads), each readable particle is handed out exactly once, in the source's order, with the values of its record, and requests past the end are answered by the documented end of file; particles that cannot be read are reported by a single read and passed over by a generator, which ends without error. Reading all hits of MAUS documents gives the types in the order asked for, up to the limit.",
 ["inputs","histories"],"all short sources over kinds of good and bad record, with all histories of generator steps and single reads",
 "the tests read a few records with one factory and never run the generator",
 ["xboa/hit/factory/_hit_factory_base.py","xboa/hit/factory/_line_factory_base.py","xboa/hit/factory/_builtin_hit_factory.py","xboa/hit/factory/_user_hit_factory.py","xboa/hit/factory/_maus_json_hit_factory.py",HIT,BUN],[("record cursor","HitFactoryBase.hit_generator, make_hit, new_spill; Hit.new_list_from_maus_json; Bunch.read_maus_json_file")],["hits handed out, errors"])
prop("C40","MAUS ROOT spills are read in full, each particle once, as recorded",
 "For every sequence of spills in a MAUS ROOT tree and each readable type (virtual hits, primaries, steps, tracker points, tracker points with time of flight), reading from an entry yields every particle of that and all later entries that passes the test function exactly once, in order, with its recorded variables, its spill's number and its event's index, energy and momentum on mass shell, mass and charge those recorded or else of its type (zero for an unknown primary), and nothing in any variable that is not recorded. Time of flight comes from the first pair of space points, else slab hits, else digits, where the fallbacks are on. Limits count the selected hits of all files read. When the entries run out a factory says so however it is asked, and files are closed.",
 ["inputs","histories","configurations"],"all short sequences of spills out of a set of shapes, all types, starting entries, test functions, limits, cuts and fallbacks, and all short histories of requests to one factory",
 "the tests for this need an installation of MAUS, so none of them runs; the trackers' reader has none",
 ["xboa/hit/factory/_maus_root_hit_factory.py","xboa/hit/factory/_maus_root_recon_hit_factory.py","xboa/hit/factory/_hit_factory_base.py",BUN,HIT],
 [("spill readers","MausRootHitFactory, MausRootReconHitFactory"),("file reader","Bunch.read_maus_root_file, Bunch.new_from_read_builtin"),("list of a spill","Hit.new_list_from_maus_root")],["hits read through the factories, lists and bunches"])
prop("C41","MAUS tracking sends each particle as it is and returns its own crossings",
 "For every history of calls to a MAUS tracking object and its pickled copies, each hit is sent once with exactly its position, momentum, energy, time and particle type and a seed that goes up by one for each particle, and the answer to a call is, for each hit in order, the primary (station -1, particle 1) followed by that particle's crossings in order with the recorded variables, on mass shell, numbered with the particle's index as event and the number of completed calls as spill. The last result is kept until the next call, given hits are not changed, a failed simulation is reported, and MAUS is restarted with exactly the datacards given, or not at all if there are none.",
 ["histories","inputs"],"all short histories of tracking calls, failures and copies with several scripts of answers, all variables over a value lattice and all particle types",
 "the tests need an installation of MAUS, so none of them runs",
 ["xboa/tracking/_maus_tracking.py","xboa/tracking/_tracking_base.py"],[("exchange with MAUS","MAUSTracking.track_many, track_one"),("copies","MAUSTracking.__getstate__, __setstate__")],["what the simulation is sent and the hits returned"])
prop("C42","Background processes run as asked, and end with the program that began them",
 "For every history of starting background processes, releasing, ending and killing them, each calls its function once with its arguments in a process of its own without affecting its caller, ends with status 0 if the function returned and not 0 if it raised, and runs on until it ends, is killed or all are killed. Killing all ends every process still running and no process that xboa did not start, whether or not others have ended before. When the interpreter exits, processes still running are ended at once, unless the flag that keeps them is switched off in xboa.common, in which case none is ended.",
 ["histories","schedules"],"all short histories of starts, releases, kills and collections over real processes, and all exits with up to two processes left",
 "no test starts a background process",
 [COM],[("start","common.subprocess"),("end","common.kill_all_subprocesses, __atexit, kill_subprocesses_at_exit")],["states and exit codes of the processes, what they did"])
prop("C43","The Kolmogorov-Smirnov comparison depends only on the two samples",
 "For every two samples of at least three numbers, in any order and any kind of sequence, the comparison returns the Kolmogorov probability of the largest distance between their cumulative distributions, with equal entries counted together, and leaves the samples as they were.",
 ["inputs"],"all pairs of small samples over a lattice with ties, in every order, and a family of larger ones",
 "no test calls it",
 [COM],[("comparison","common.kolmogorov_smirnov_test")],["returned probability"])
prop("C44","Hits and bunches are equal exactly when their data agree",
 "Two hits are equal exactly when they have the same type and every stored variable agrees within the tolerance, and two bunches exactly when their hits do one by one, they have the same covariances and their means agree. The answer is the same both ways round, != is its opposite, nothing of another type is equal, and a given tolerance is used; hit_equality compares hits only. Hit.check holds exactly for hits on mass shell with the mass of their particle type.",
 ["inputs"],"every variable and pair of variables moved by every step about the tolerance; all pairs of bunches up to 3 hits with every state of covariances and means",
 "tests compare a few hits with copies of themselves, never near a tolerance, with means, or the other way round",
 [HIT,BUN],[("equality of hits","Hit.__eq__"),("equality of bunches","Bunch.__eq__, hit_equality"),("consistency","Hit.check")],["==, !=, hit_equality, check"])
prop("C45","Drawings of tunes and tesselations show the analysis they came from",
 "After a tune or tesselation was found, its drawings show exactly the data and results: the orbit in phase space and projected on a circle with the requested scale, the signal, the spectrum with every frequency found, a fit over its window only, and a tesselation's points and closed tiles in the requested projection and slice, filled in the order of the requested value. A given canvas, figure or function is used, labels are as requested, and what cannot be drawn is refused with ValueError.",
 ["inputs","configurations"],"all small orbits and tesselations with every projection, slice, fill, scale and window",
 "no test looks at what these functions draw",
 ["xboa/algorithms/tune/_dphi_tune.py","xboa/algorithms/tune/_fft_tune.py","xboa/bunch/weighting/_voronoi_weighting.py"],[("circle projection","DPhiTuneFinder.plot_*"),("spectrum","FFTTuneFinder.plot_*"),("tiles","VoronoiWeighting.plot_two_d_projection")],["points of graphs, tiles, colours, axes"])
prop("C46","Every part works with whatever optional packages there are",
 "xboa runs with or without NumPy, SciPy, Matplotlib, ROOT and multiprocessing, in any combination: every part whose contents do not all need a missing package can be imported, whichever part is imported first; everything that does not need what is missing gives the same answers as with all packages there; what needs a missing package is refused with an ImportError, before or after anything else was used. The has_ functions of the configuration tell which packages are there.",
 ["configurations","histories"],"all sets of missing packages, first imports and orders of use",
 "tests run with the packages that happen to be installed",
 ["xboa/common/config.py","xboa/common/_common.py","xboa/bunch/_bunch.py","xboa/bunch/weighting/_hull_content.py","xboa/algorithms/smoothing/_cut_smoothing.py","xboa/tracking/_matrix_tracking.py"],[("guarded imports","import sections of each part"),("refusal","config.has_*")],["imports","values of every feature","type of exception"])
prop("C47","Calls leave their arguments alone, and results are the caller's own",
 "A call changes nothing but what it is documented to change: its lists, dictionaries, matrices, hits, bunches and weight contexts are afterwards what they were, and so are the tables, formats and settings of the package; what it returns can be changed by its new owner without changing an argument, another object or a later answer; and so a call gives the same answer whatever calls were made before it, itself included.",
 ["histories"],"all ordered pairs of some 155 calls of the whole interface on shared arguments",
 "tests make each call once, on arguments of its own, and never touch the result",
 ["xboa/bunch/_bunch.py","xboa/hit/_hit.py","xboa/common/_common.py","xboa/hit/factory/_builtin_hit_factory.py","xboa/bunch/weighting/_voronoi_weighting.py","xboa/tracking/_matrix_tracking.py"],[("default arguments","mean={}, origin={} and their copies"),("copies","deepcopy of hits and bunches"),("lists of names","Hit.get_variables and others")],["arguments after every call","answers after every other call"])
prop("C48","Every listed name works in every operation and means the same there",
 "Each variable name that Hit and Bunch list can be used in every operation that takes a name of its kind - getting, means, moments, covariances, vectors, cuts, removals, selections, splits, histograms, written columns; setting, translations, matrices, dictionaries, columns that are read - and means the same quantity in each, alone or with any other name. Values given together result in a hit that has all of them, in whatever order they are named, if one exists. Any other name is refused and changes nothing.",
 ["inputs","configurations"],"all names x operations, pairs of names x operations, orders of names given together",
 "tests use a few names, mostly x, px and pz, in a few operations, in one order",
 ["xboa/hit/_hit.py","xboa/bunch/_bunch.py","xboa/hit/factory/_line_factory_base.py","xboa/hit/factory/_user_hit_factory.py"],[("names","Hit.get_variables, set_variables, Bunch.hit_get_variables"),("types of columns","Hit._default_var_types"),("order of setting","Hit.new_from_dict, LineFactoryBase._read_formatted")],["values, weights and hits after each operation","refusals"])
out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "..", "properties.jsonl")
with open(out, "w") as f:
    for p in P: f.write(json.dumps(p) + "\n")
for p in P:
    assert len(p["title"]) <= 80, (p["id"], len(p["title"]))
    print(p["id"], p["title"])
