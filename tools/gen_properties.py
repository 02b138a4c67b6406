#!/usr/bin/env python3
"""Writes properties.jsonl (one source of truth for the property texts)."""
import json, os
S = "enterprise/signals/"
P = []


def add(id, title, statement, over, text, why, files, mechanism, state=(), observe=(), hook=None):
    P.append(dict(
        id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files, state=[dict(zip(("name", "meaning", "where"), s)) for s in state],
                     mechanism=[dict(zip(("name", "where"), m)) for m in mechanism],
                     observe_at=list(observe), hook_needed=hook)))


add("C01", "Single-pulsar likelihood is the exact marginalised Gaussian density",
    "For a pulsar modelled by any combination of white noise, ECORR, basis Gaussian processes, timing model and "
    "deterministic signals, the log likelihood equals the logarithm of the Gaussian density of (residuals minus "
    "deterministic delays) with covariance N + T Phi T^T, up to the constant -n/2 log(2 pi); the timing model enters "
    "with prior variance 1e40 per column. For several pulsars without shared signals it is the sum over pulsars.",
    ["inputs", "configurations"],
    "every model assembled from the library's signals, every pulsar data set and every parameter value",
    "Tests compare a few models with the same Woodbury algebra at one parameter point of one pulsar; most of them are "
    "skipped or fail here because their data files are missing.",
    [S + "signal_base.py", S + "gp_signals.py", S + "white_signals.py"],
    [("LogLikelihood.__call__", S + "signal_base.py"), ("SignalCollection.get_TNT/get_TNr/get_rNr_logdet", S + "signal_base.py"),
     ("BasisGP.get_phi/get_basis", S + "gp_signals.py")],
    [("Fmat/idx", "map from signal basis columns to the combined basis", S + "signal_base.py")],
    ["PTA.get_lnlikelihood"])

add("C02", "Correlated multi-pulsar likelihood is the exact joint Gaussian density",
    "When pulsars share common Gaussian processes with an overlap-reduction function, the array log likelihood equals "
    "the joint Gaussian log density of all residuals with the full cross-pulsar covariance (up to -n/2 log(2 pi)). The "
    "value does not depend on sparse or dense Cholesky, on the Phi-inversion method (for `partition`: one common signal "
    "with one basis), on the order of the pulsars, or on pulsars that carry no basis at all.",
    ["inputs", "configurations"],
    "every array of pulsars, spatial correlation, number of common signals, inversion method and parameter value",
    "Tests compare the three inversion methods with one another for two pulsars, not with the joint density, and those "
    "that use the feather data cannot run.",
    [S + "signal_base.py", S + "gp_signals.py", S + "utils.py"],
    [("PTA.get_phi / get_phiinv_*", S + "signal_base.py"), ("LogLikelihood (sparse and dense)", S + "signal_base.py"),
     ("BasisCommonGP.get_phicross", S + "gp_signals.py")],
    [("_cliques/_clcount", "grouping of correlated Phi indices", S + "signal_base.py")],
    ["PTA.get_lnlikelihood"])

add("C03", "Evaluations are pure functions of model and parameters, whatever the history",
    "The likelihood, the prior and every public model quantity (delay, noise solve, basis, Phi, Phi^-1, T^T N^-1 r, ...) "
    "depend only on the model and the parameter values passed: they equal what a freshly built model returns, for every "
    "sequence of earlier evaluations, parameter revisits and other arrays built from the same pulsars or signals. "
    "Evaluations modify neither the pulsars nor the caller's parameters, and results returned earlier are not changed by later calls.",
    ["histories", "inputs"],
    "every interleaving of evaluations over models, parameter points, arrays sharing pulsars, and call types",
    "Tests evaluate each model once or twice; the caches (two entries, last-call-by-identity, side-effect memo) only go "
    "wrong after specific revisit sequences.",
    [S + "signal_base.py", S + "gp_signals.py", S + "white_signals.py", S + "deterministic_signals.py"],
    [("cache_call", S + "signal_base.py"), ("simplememobyid", S + "signal_base.py"), ("_construct_basis side effects", S + "gp_signals.py")],
    [("_cache_*", "per-object memo tables keyed by parameter values", S + "signal_base.py"),
     ("cf_sp", "reused symbolic Cholesky factor", S + "signal_base.py")],
    ["PTA.get_lnlikelihood", "SignalCollection.get_*", "Signal.get_*"])

add("C04", "White-noise and ECORR covariances are exact for every solver method",
    "Measurement noise is efac^2 (sigma^2 + 10^(2 log10_t2equad)) (or efac^2 sigma^2), TNEQUAD adds 10^(2 log10_tnequad), "
    "and ECORR adds 10^(2 log10_ecorr) between all TOAs of the same selection and epoch with two or more TOAs. For all four ECORR methods and "
    "for diagonal noise, solve(), with vectors or matrices on either side, and the log determinant are those of that dense "
    "matrix; the ECORR basis model is equivalent to the kernel.",
    ["inputs", "configurations"],
    "every epoch structure (unsorted, singletons, interleaved backends), selection, operand shape and parameter value",
    "Tests check one pulsar with well-separated epochs, a fixed selection and one parameter point.",
    [S + "white_signals.py", S + "signal_base.py", S + "gp_signals.py"],
    [("ShermanMorrison", S + "signal_base.py"), ("BlockMatrix", S + "signal_base.py"), ("csc_matrix_alt/ndarray_alt", S + "signal_base.py"),
     ("EcorrKernelNoise", S + "white_signals.py")],
    observe=["SignalCollection.get_ndiag(...).solve", "Signal.get_ndiag"])

add("C05", "Parameter names, ordering and vector mapping are exact and stable",
    "A model's parameter list contains each distinct varying parameter of its signals (hyperparameters included) exactly "
    "once, sorted by name, with vector parameters expanded to name_0..name_{n-1} in param_names. A flat vector laid out like "
    "param_names (an array, list or tuple of any number type) and the dictionary of the same values give identical likelihood and prior, and map_params inverts the flattening; "
    "parameters are named after pulsar, signal, selection key and keyword, and summary() counts agree with this inventory.",
    ["configurations", "inputs"],
    "every set of pulsars, selections, scalar/vector/hierarchical/shared parameters and every parameter vector",
    "Tests look at a handful of expected names for a fixed model and never mix vector, shared and hierarchical parameters.",
    [S + "signal_base.py", S + "parameter.py", S + "gp_signals.py"],
    [("PTA.params/param_names/map_params", S + "signal_base.py"), ("Signal.params", S + "signal_base.py"), ("PTA.summary", S + "signal_base.py")],
    observe=["PTA.params", "PTA.param_names", "PTA.map_params", "PTA.summary"])

add("C06", "Constants behave as fixed parameters and set_default_params takes effect",
    "Fixing a parameter to a constant, at construction or later through set_default_params on the array, gives the same "
    "likelihood and model quantities as passing that value for a free parameter, from the next evaluation on and however "
    "often it is changed. Constants never appear among the varying parameters, and constants whose names are absent from the "
    "dictionary keep their value.",
    ["inputs", "histories", "configurations"],
    "every choice of fixed parameters in every signal type and every sequence of set_default_params and evaluations",
    "Tests set defaults once before the first evaluation of one model.",
    [S + "parameter.py", S + "signal_base.py"],
    [("Constant/ConstantParameter", S + "parameter.py"), ("Signal.set_default_params", S + "signal_base.py"), ("Function.__call__", S + "parameter.py")],
    observe=["PTA.set_default_params", "PTA.get_lnlikelihood"])

add("C07", "Prior densities are normalised, supported and combined as declared",
    "Uniform, Normal (scalar, vector, covariance), TruncNormal, LinearExp, InvGamma and user-defined parameters evaluate to "
    "their stated density: it integrates to one over the declared support and is zero outside, vector parameters multiply "
    "their elements, and get_logpdf is the log of get_pdf. The array's log prior is the sum over its parameters, with "
    "hyperparameters taken from the same parameter point.",
    ["inputs", "configurations"],
    "every prior type, bounds/moments (scalar, vector, hierarchical) and parameter value",
    "Tests compare a few values with scipy for fixed hyperparameters.",
    [S + "parameter.py", S + "gp_priors.py"],
    [("Parameter.get_pdf/get_logpdf", S + "parameter.py"), ("*Prior functions", S + "parameter.py"), ("PTA.get_lnprior", S + "signal_base.py")],
    observe=["Parameter.get_logpdf", "PTA.get_lnprior"])

add("C08", "Samples and hypercube transforms follow the prior density",
    "sample() draws from the declared prior: every draw lies in the support, its distribution is the density's, vector draws "
    "have the declared size, and one call gives each parameter, including shared hyperparameters, a single value that all "
    "dependents used. The hypercube transform maps each unit coordinate through the inverse cumulative distribution of the "
    "corresponding parameter, monotonically and onto the support.",
    ["inputs", "configurations"],
    "every prior type and shape, shared and nested hyperparameters, every unit-cube point and random stream",
    "Tests draw a few samples and check bounds of two prior types.",
    [S + "parameter.py", S + "gp_priors.py", S + "signal_base.py"],
    [("sample/_sample", S + "parameter.py"), ("*Sampler/*PPF", S + "parameter.py"), ("PTA.get_hypercube_transform", S + "signal_base.py")],
    observe=["parameter.sample", "Parameter.sample", "Parameter.get_ppf", "PTA.get_hypercube_transform"])

add("C09", "Deferred functions equal the plain function on resolved arguments",
    "A library or user function turned into a deferred Function returns what the plain function returns when each argument is "
    "the explicit call value, else the value of the bound parameter in the parameter dictionary, else the constant's value, else the "
    "given default, with nested Functions evaluated first and pulsar attributes supplied by argument name (masked when a mask is given). "
    "Parameters are named by the function's name and keyword, or keep their own name when already named.",
    ["inputs", "configurations"],
    "every function signature, nesting, mixture of parameter classes/instances/constants/functions/values, masks and calls",
    "Tests cover single-level functions with one or two arguments.",
    [S + "parameter.py", S + "selections.py"],
    [("Function.__call__", S + "parameter.py"), ("function decorator", S + "parameter.py"), ("selection_func", S + "selections.py")],
    observe=["Function.__call__"])

add("C10", "Selections apply each sub-model to exactly its own TOAs",
    "Each selection produces, for every key, the mask of exactly the TOAs that satisfy its criterion; by-flag and "
    "by-backend/telescope/half selections partition the TOAs. A signal built with a selection applies, for each key, its own "
    "independently named parameters to exactly those TOAs, so that changing the parameters of one key leaves all other TOAs' "
    "contributions unchanged.",
    ["inputs", "configurations"],
    "every flag assignment, time ordering, band table, selection and signal type",
    "Tests check two selections on one pulsar whose flags are homogeneous.",
    [S + "selections.py", S + "white_signals.py", S + "gp_signals.py", S + "deterministic_signals.py"],
    [("Selection", S + "selections.py"), ("_do_selection", S + "gp_signals.py")],
    observe=["Selection(psr).masks", "Signal.get_ndiag/get_delay/get_basis"])

add("C11", "Models do not depend on how signals are composed",
    "Adding signals in any order or grouping, listing pulsars in any order, enabling or disabling the reuse of identical basis "
    "columns (within a signal, between signals, or next to bases with varying parameters), and splitting a process into equal "
    "parts that add up in variance all describe the same model, hence the same likelihood. "
    "Disjoint arrays add: the likelihood of a PTA made by '+' without shared signals is the sum.",
    ["configurations", "inputs"],
    "every set of signals, order, grouping, combine flag and overlap of basis columns",
    "Tests combine at most two fixed bases in one order.",
    [S + "signal_base.py", S + "gp_signals.py", S + "utils.py"],
    [("_combine_basis_columns", S + "signal_base.py"), ("KernelMatrix.add", S + "utils.py"), ("MetaSignal/MetaCollection.__add__", S + "signal_base.py")],
    observe=["PTA.get_lnlikelihood"])

add("C12", "Timing-model marginalisation removes the timing-model subspace",
    "With a marginalised linear timing model the likelihood does not change when any combination of the included "
    "design-matrix columns is added to the residuals, and all forms (normalised, unnormalised, SVD, marginalising kernel) "
    "differ only by a constant independent of the noise parameters and fixed by the column scaling. Excluded columns (idx_exclude) are not marginalised.",
    ["inputs", "configurations"],
    "every design matrix, timing offset, exclusion list, noise model and form of the timing model",
    "Tests compare two of the forms at one point with loose tolerance.",
    [S + "gp_signals.py", S + "utils.py"],
    [("TimingModel", S + "gp_signals.py"), ("MarginalizingTimingModel/MarginalizingNmat", S + "gp_signals.py"), ("*_tm_basis", S + "utils.py")],
    observe=["PTA.get_lnlikelihood", "MarginalizingNmat.solve"])

add("C13", "Conditional GP coefficients have the exact posterior mean and covariance",
    "Given hyperparameters, conditional means and draws of the Gaussian-process coefficients and processes have the mean "
    "Sigma^-1 T^T N^-1 r and covariance Sigma^-1 with Sigma = T^T N^-1 T + Phi^-1, for independent and correlated arrays, sparse or "
    "dense algebra and every inversion method, and each signal receives its own coefficients. Processes are basis times coefficients.",
    ["inputs", "configurations"],
    "every model, hyperparameter point, sampling interface, method and random draw",
    "Tests draw a few random vectors and compare shapes or means at loose tolerance; covariance is not tested.",
    [S + "utils.py"],
    [("ConditionalGP", S + "utils.py"), ("get_coefficients", S + "utils.py")],
    observe=["ConditionalGP.get_mean_*/sample_*", "utils.get_coefficients"])

add("C14", "Explicit-coefficient models marginalise to the standard likelihood",
    "With explicit GP coefficients the delay is basis times coefficients (basis taken at the current basis parameters) and the "
    "coefficient prior is the Gaussian density N(0, Phi) (flat for the timing model), so likelihood plus coefficient prior is a Gaussian in the "
    "coefficients whose integral is the marginalised likelihood, for every value of hyper and basis parameters.",
    ["inputs", "configurations", "histories"],
    "every GP model (scalar/dense Phi, selections, varying bases), coefficient vector and evaluation order",
    "Tests evaluate one coefficient vector for two models with fixed bases.",
    [S + "gp_signals.py", S + "parameter.py", S + "signal_base.py"],
    [("BasisGP coefficients branch", S + "gp_signals.py"), ("GPCoefficients", S + "parameter.py")],
    observe=["PTA.get_lnlikelihood", "PTA.get_lnprior", "Signal.get_delay"])

add("C15", "Wideband timing model is the joint TOA and DM likelihood",
    "The wideband timing model's likelihood equals the joint Gaussian likelihood of TOA residuals and DM measurements, in which "
    "each DMX value is estimated by its bin's DM measurements with variance dmefac^2 (dmerr^2 + 10^(2 log10_dmequad)) and DM jumps are added "
    "to the measurements, up to a constant independent of all parameters. Models it cannot handle (unfitted DMX, fitted DM, TOAs outside every bin) are rejected.",
    ["inputs", "configurations"],
    "every DMX binning, DM noise selection, jump assignment, data set and parameter value",
    "The tests need a data file that is not available and compare single terms.",
    [S + "gp_signals.py"],
    [("WidebandTimingModel", S + "gp_signals.py")],
    observe=["PTA.get_lnlikelihood", "Signal.get_phi/get_delay/get_logsignalprior"])

add("C16", "Fourier and interpolation bases match their definitions",
    "Every basis function returns the columns sin(2 pi f t + phase), cos(2 pi f t + phase) at the documented frequencies "
    "(k/T, linear, logarithmic or explicit modes, given as list or array), scaled by its documented achromatic, DM, chromatic, envelope, position or flag factor, with one frequency "
    "label per column; given a phase seed the result is reproducible. The linear-interpolation basis reproduces every function that is linear between its nodes.",
    ["inputs", "configurations"],
    "every TOA and frequency set, mode specification, chromatic index, flag and seed",
    "Tests compare a few option combinations with a copy of the same formula.",
    [S + "gp_bases.py", S + "utils.py"],
    [("createfourierdesignmatrix_*", S + "gp_bases.py"), ("linear_interp_basis", S + "utils.py")],
    observe=["gp_bases.*", "utils.linear_interp_basis"])

add("C17", "Power-spectrum priors match their definitions",
    "Each spectral prior returns, for every frequency label, the PSD of its documented model times the frequency-bin width (bin "
    "width is the difference to the previous distinct frequency, the first one to zero), repeated for all columns of that frequency. "
    "Documented reductions hold (e.g. a turnover far below the band, a broken power law with equal slopes and a t-process with unit "
    "factors reduce to the power law), and A enters as A^2.",
    ["inputs", "configurations"],
    "every frequency grid, number of components and hyperparameter values",
    "Tests check one or two parameter values of the power law.",
    [S + "gp_priors.py"],
    [("powerlaw, turnover, free_spectrum, t_process, ...", S + "gp_priors.py")],
    observe=["gp_priors.*"])

add("C18", "Overlap-reduction functions are valid spatial correlations",
    "The Hellings-Downs, dipole, monopole and anisotropic correlations are finite, symmetric, rotation invariant (for the isotropic ones), match their "
    "closed forms (the lowest anisotropic multipole reproduces Hellings-Downs), and yield positive definite correlation matrices for distinct pulsars. The "
    "conversions between multipole coefficients, complex multipoles and sky maps are linear and mutually inverse (maps up to the pixelisation error).",
    ["inputs"],
    "every set of sky positions (coincident, antipodal, nearly coincident), multipole vector and resolution",
    "Tests evaluate fixed pulsar pairs; rounding-sensitive geometry is never exercised.",
    [S + "utils.py", S + "anis_coefficients.py"],
    [("hd_orf/dipole_orf/monopole_orf/anis_orf", S + "utils.py"), ("anis_basis, clm/alm conversions", S + "anis_coefficients.py")],
    observe=["utils.*_orf", "anis_coefficients.*"])

add("C19", "Pulsar data columns stay aligned TOA by TOA",
    "Every per-TOA attribute of a pulsar (TOAs, site TOAs, residuals, errors, frequencies, design-matrix rows, flags, backend flags, telescope, "
    "sky position, planet and Sun positions) refers to the same observations in the same time order as toas, whatever the input order, "
    "ties, sorting option, flags set later or time filtering. Backend flags follow the documented precedence, untruncated; filtering keeps exactly the "
    "TOAs in the window and the design-matrix columns still constrained, with their parameter names. The sky position, distance and DMX table (value, error, range, "
    "whether fitted) are those of the timing solution, and loading par and tim files leaves the working directory as it was, even on failure.",
    ["inputs", "configurations", "histories"],
    "every input ordering, flag layout, loading option and sequence of filter, sort and set_flags operations",
    "The tests that would exercise this need libstempo or PINT, which are not installed, so none runs here.",
    ["enterprise/pulsar.py"],
    [("BasePulsar.sort_data/filter_data", "enterprise/pulsar.py"), ("backend_flags", "enterprise/pulsar.py"), ("set_flags", "enterprise/pulsar.py")],
    [("_isort/_iisort", "time permutation and its inverse", "enterprise/pulsar.py")],
    ["BasePulsar properties"])

add("C20", "Saving and loading a pulsar preserves it",
    "Writing a pulsar to a feather or pickle file and reading it back gives a pulsar with the same data, metadata, flags, DMX table and (own) noise "
    "dictionary, hence the same likelihood for every model; a second round trip changes nothing, and saving does not modify the pulsar.",
    ["inputs", "histories"],
    "every pulsar (sorted or not, any flags, with more than ten design-matrix columns, with or without DMX or planet positions) and sequence of save/load/resave",
    "Tests only read one committed feather file; saving is not exercised here.",
    ["enterprise/pulsar.py"],
    [("FeatherPulsar.read_feather/save_feather", "enterprise/pulsar.py"), ("to_feather/to_pickle", "enterprise/pulsar.py")],
    observe=["Pulsar(feather)", "BasePulsar.to_feather/to_pickle"])

add("C21", "Shared-memory pulsars live until destroyed, in every process",
    "After deflating and pickling, every process that inflates the pulsar sees bit-identical arrays, all referring to the one shared copy of the data, concurrently and for as long as nobody has had them "
    "destroyed, regardless of the order in which the creator and the users (parent, child or unrelated processes) inflate, release, garbage-collect, exit or crash; destroy removes "
    "all segments so none is leaked, and the lifecycle methods do nothing when repeated or called in the wrong state.",
    ["schedules", "crash_points", "histories"],
    "every interleaving of inflate/release/exit/kill of user processes with the creator and destroyer",
    "The single test inflates in one process and is skipped without libstempo.",
    ["enterprise/pulsar_inflate.py", "enterprise/pulsar.py"],
    [("PulsarInflater", "enterprise/pulsar_inflate.py"), ("deflate/inflate/destroy", "enterprise/pulsar.py")],
    [("shmname", "name of the shared segment", "enterprise/pulsar_inflate.py"), ("_deflated", "lifecycle state", "enterprise/pulsar.py")],
    ["Tempo2Pulsar.deflate/inflate/destroy", "/dev/shm"])

add("C22", "Deterministic signals produce their documented waveform on their own TOAs",
    "A deterministic signal's delay equals its waveform at each selected TOA and zero elsewhere, and the likelihood uses residuals minus the "
    "sum of delays. Burst-with-memory delays vanish before the epoch and grow linearly after with the documented antenna response and "
    "polarisation; ephemeris delays are the projection on the pulsar direction of the documented shift of the Earth's position, are zero for zero "
    "parameters, linear in the mass and orbital terms, agree with the ephemeris GP basis, and agree with epoch averaging up to interpolation.",
    ["inputs", "configurations"],
    "every TOA set, source and pulsar direction, parameter value and combination of deterministic signals",
    "Tests compare one waveform at one parameter point.",
    [S + "deterministic_signals.py", S + "utils.py"],
    [("Deterministic", S + "deterministic_signals.py"), ("PhysicalEphemerisSignal", S + "deterministic_signals.py"),
     ("bwm_delay, create_gw_antenna_pattern, physical_ephem_delay", S + "utils.py")],
    observe=["Signal.get_delay", "utils.bwm_delay", "utils.physical_ephem_delay"])

add("C23", "Epoch quantisation partitions TOAs correctly in any order",
    "The quantisation matrix groups TOAs, whatever their order, into epochs each spanning less than dt from its first TOA, every "
    "TOA in exactly one epoch, keeping exactly the epochs with at least nmin TOAs in time order with unit entries and unit weights; "
    "index lists and slices derived from it select exactly the TOAs of each epoch.",
    ["inputs"],
    "every TOA sequence (unsorted, duplicated, boundary-spaced), dt and nmin",
    "Tests use one sorted regular data set.",
    [S + "utils.py"],
    [("create_quantization_matrix", S + "utils.py"), ("quant2ind", S + "utils.py"), ("indices_from_slice", S + "utils.py")],
    observe=["utils.create_quantization_matrix", "utils.quant2ind"])

add("C24", "Prior covariance assembly and inversion are exact",
    "The coefficient covariance Phi assembled for a pulsar or an array is symmetric and holds, for every signal and pulsar pair, exactly the sum of "
    "the priors of the signals sharing those columns times the pair's correlation. Every inversion method returns its inverse and its log "
    "determinant, for diagonal, dense and mixed blocks and several common signals with different, shared or overlapping bases.",
    ["inputs", "configurations"],
    "every mixture of diagonal and dense priors, common signals, overlapping columns, inversion method and parameter value",
    "Tests compare inverses for two pulsars and one or two fixed common signals.",
    [S + "signal_base.py", S + "utils.py", S + "gp_signals.py"],
    [("KernelMatrix", S + "utils.py"), ("PTA.get_phi/get_phiinv_*", S + "signal_base.py"), ("_setcliques", S + "signal_base.py")],
    [("_cliques", "independent dense blocks of Phi", S + "signal_base.py")],
    ["PTA.get_phi", "PTA.get_phiinv", "KernelMatrix.inv"])

add("C25", "Eccentric-binary evolution and waveforms obey their physical laws",
    "Orbital frequency, eccentricity and periastron rates follow the Peters and Barack-Cutler equations: along every solution "
    "the Peters frequency-eccentricity invariant is conserved, frequency grows, eccentricity decays, the phase derivative is 2 pi F, and the circular limit has "
    "the closed-form chirp. The harmonic amplitudes and the plus/cross waveforms match their documented series over exactly the requested number of harmonics, scale linearly with "
    "strain, have the quadrupole strain of the orbit as time derivative, and reduce to the circular-binary waveform at zero eccentricity; antenna patterns match their geometric definition.",
    ["inputs"],
    "every binary (masses, frequency, eccentricity, mass ratio, inclination), time grid, source and pulsar direction",
    "Tests check a few numbers at one configuration.",
    [S + "utils.py"],
    [("get_edot/get_Fdot/get_gammadot", S + "utils.py"), ("solve_coupled_ecc_solution", S + "utils.py"),
     ("calculate_splus_scross, get_an/bn/cn", S + "utils.py"), ("create_gw_antenna_pattern", S + "utils.py")],
    observe=["utils.*"])

add("C26", "A failed evaluation is reported cleanly and leaves no trace",
    "When a covariance the model is given or builds (a correlation between pulsars, a prior matrix, the matrix Sigma of the basis "
    "coefficients) is not positive definite beyond rounding, or exactly singular as Sigma is for repeated timing-model columns, the likelihood returns "
    "-inf with every inversion and factorisation method, never NaN or a finite value. The prior raises for missing or non-numeric parameters; an "
    "exception raised inside a user function reaches the caller unchanged. After any failed, incomplete or interrupted call, at any "
    "point of any evaluation or model construction, later evaluations with valid parameters return exactly what a fresh model returns, and the "
    "pulsars are unchanged.",
    ["fault_sequences", "histories", "inputs"],
    "every fault (missing parameter, exception in a user basis/prior/noise/delay function, non-positive-definite matrix) at every call point, followed by any evaluations",
    "No test injects a failure and evaluates again.",
    [S + "signal_base.py", S + "gp_signals.py"],
    [("LogLikelihood error handling", S + "signal_base.py"), ("cache_call", S + "signal_base.py"), ("_construct_basis", S + "gp_signals.py")],
    [("_labels/_basis/_slices", "side-effect state of the last basis construction", S + "gp_signals.py")],
    ["PTA.get_lnlikelihood"])

add("C27", "Arrays and pulsar models are faithful ordered containers of their parts",
    "An array of pulsar models, and a pulsar model as a collection of signals, behave as ordered mappings: length, positions, names, keys, values and items "
    "agree with the parts in the order they were added, a string that is no name (a fragment included) raises KeyError, get_signal and signals reach every signal by its "
    "full name. Adding signals, pulsar models and arrays in any grouping appends in order, keeps the likelihood and leaves the operands unchanged. "
    "Signals given different user names have different identifiers and, for selection-based signals, different parameters. Every per-pulsar quantity of an array is the list "
    "of the same quantity of its pulsar models, and summary() lists each signal once with its class and number of varying parameters.",
    ["configurations", "histories"],
    "every set of pulsars and signals, their names (including names containing one another), every sum and every lookup",
    "Tests add and index one or two fixed models.",
    [S + "signal_base.py", S + "gp_signals.py", S + "white_signals.py", S + "deterministic_signals.py"],
    [("PTA.__add__/__getitem__/items/get_signal/summary", S + "signal_base.py"), ("SignalCollection.__getitem__/items", S + "signal_base.py"), ("MetaSignal/MetaCollection.__add__", S + "signal_base.py")],
    observe=["PTA", "SignalCollection", "Signal"])

add("C28", "Reference-frame rotations, sky geometry and constants are consistent",
    "The ecliptic-equatorial conversions are mutually inverse rotations about the equinox by the obliquity; Euler and solar-system-frame rotations are "
    "the stated product of elementary rotations for every angle, epoch and drift rate, for scalar and per-row angles, with offsets and in either frame, preserving lengths; a planet's mass shift displaces "
    "the barycentre linearly. Antenna patterns depend on the source only through its direction relative to the pulsar and its polarisation. None of these changes its inputs, and "
    "the physical constants have their accepted values.",
    ["inputs"],
    "every vector, angle, epoch, drift rate, offset and sky direction",
    "Tests use them only indirectly at one configuration.",
    [S + "utils.py", "enterprise/constants.py"],
    [("ecl2eq_vec/eq2ecl_vec/euler_vec/ss_framerotate/dmass", S + "utils.py"), ("create_gw_antenna_pattern", S + "utils.py")],
    observe=["utils.*"])

add("C29", "Models are reproducible in every process and leave global state alone",
    "A model built from the same pulsars and the same description in another process (a new interpreter with another string-hash seed, or forked children working in parallel) "
    "has the same parameters in the same order, the same summary, the same likelihood and prior at every point and, from the same numpy seed, the same samples. "
    "Separate models evaluated in several threads at once, over the same pulsars or not, give the values they give one after another. "
    "Building and evaluating models (seeded phase shifts included) leaves numpy's and Python's random generators, floating-point error handling, warning filters, "
    "working directory, environment, locale and signal handlers as they were; sampling consumes only numpy's random generator.",
    ["histories", "schedules", "configurations"],
    "every model, hash seed, process start method, parallel schedule and order of construction and evaluation",
    "Tests build models in one interpreter with one hash seed and never look at global state.",
    [S + "signal_base.py", S + "parameter.py", S + "selections.py", S + "gp_bases.py", S + "utils.py"],
    [("PTA.params/get_lnlikelihood", S + "signal_base.py"), ("sample", S + "parameter.py"), ("createfourierdesignmatrix_red", S + "gp_bases.py")],
    observe=["PTA", "Parameter", "Function"])

add("C30", "What cannot be computed is refused, never answered with something else",
    "A request the library does not support ends in an exception (of the documented type where there is one), and the nearest supported request is exact: several marginalised timing models or several ECORR "
    "kernels in one model, solves of a marginalised model without its exact operands, inversion of several common signals by the partition method, unknown inversion or ECORR methods, explicit coefficients of a "
    "common process without a span, the joint prior, sample or transform of such coefficients, samples and hypercube transforms of priors declared without sampler or inverse, transforms of correlated normals, "
    "functions without a required argument or pulsar attribute, selections of absent attributes or flags, SVD bases without normalisation, sums with things that are no signals, removed functions, and "
    "loading pulsars from files that are missing or without a timing package (which also restores the working directory). No unsupported request returns a plausible number.",
    ["inputs", "configurations"],
    "every model, argument combination and data set",
    "Tests check few refusals, and never that a neighbouring request is answered exactly.",
    [S + "gp_signals.py", S + "signal_base.py", S + "parameter.py", S + "white_signals.py", "enterprise/pulsar.py"],
    [("MarginalizingNmat/FourierBasisCommonGP/BasisCommonGP", S + "gp_signals.py"), ("get_phiinv/ndarray_alt", S + "signal_base.py"), ("Parameter.sample/get_ppf", S + "parameter.py"), ("Pulsar", "enterprise/pulsar.py")],
    observe=["PTA", "Parameter", "Pulsar"])

add("C31", "An option left out has its documented default; one given takes effect",
    "Calling any public kernel, signal factory, prior or model-level method with options left out, or with leading arguments by position, is the same as spelling every documented default out by keyword, directly and "
    "through deferred functions: same inventory (names, priors, ids, types), summary, samples, densities, bases and likelihoods. "
    "Convenience constructors (Fourier and ECORR processes, common and ephemeris processes, timing models, white noise) equal the general form written out with the same options, so that every option reaches what it names. "
    "Declarations show the arguments in effect.",
    ["inputs", "configurations"],
    "every public callable, subset of options, positional split and option values",
    "Tests call each constructor with one or two fixed argument lists.",
    [S + "white_signals.py", S + "gp_signals.py", S + "gp_bases.py", S + "gp_priors.py", S + "utils.py", S + "parameter.py", S + "deterministic_signals.py"],
    [("factories", S + "gp_signals.py"), ("factories", S + "white_signals.py"), ("function/Function", S + "parameter.py"), ("kernels", S + "gp_bases.py")],
    observe=["PTA", "Parameter", "Function"])

add("C32", "The likelihood does not depend on how the data are presented",
    "Reordering the TOAs of any pulsar changes no likelihood, delay, basis row, prior variance, noise solve or conditional process beyond following the order. "
    "Moving the origin of time (bursts and other epochs along with it), rotating the whole sky, renaming backends, flags values, telescopes and pulsars one to one, permuting the signals of a model, or holding the same columns in arrays of another memory layout or without write access leaves the likelihood unchanged; "
    "measuring residuals, uncertainties and amplitudes in another unit of time changes it by the constant of the change of unit alone.",
    ["inputs", "configurations"],
    "every model, data set, permutation, shift, rotation, unit and renaming",
    "Tests use one data set in one presentation.",
    [S + "signal_base.py", S + "gp_bases.py", S + "utils.py", S + "selections.py", S + "white_signals.py", S + "deterministic_signals.py"],
    [("PTA.get_lnlikelihood", S + "signal_base.py"), ("kernels", S + "gp_bases.py"), ("create_quantization_matrix", S + "utils.py"), ("orfs", S + "utils.py")],
    observe=["PTA", "Signal"])

add("C33", "Long runs and discarded models leave nothing behind",
    "However many points a model is evaluated at (likelihoods, priors, parts, conditional draws, failing calls in between), the memory in use stays bounded. "
    "Once a model is dropped its pulsars, signals, noise matrices, bases and products are freed, whatever was evaluated. "
    "Building, saving, loading and pickling pulsars, successfully or not, leaves no open files, temporary files, threads, changed directory or live copies.",
    ["histories", "inputs"],
    "every model, sequence of calls and number of repetitions",
    "Tests evaluate a handful of points and never look at what remains.",
    [S + "signal_base.py", S + "gp_signals.py", S + "selections.py", S + "utils.py", "enterprise/pulsar.py"],
    [("cache_call/simplememobyid", S + "signal_base.py"), ("MarginalizingNmat", S + "gp_signals.py"), ("Selection", S + "selections.py"), ("BasePulsar", "enterprise/pulsar.py")],
    observe=["PTA", "Signal", "Pulsar"])

with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl"), "w") as f:
    for p in P:
        f.write(json.dumps(p) + "\n")
print(len(P))
