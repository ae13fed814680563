"""Writes properties.jsonl and MANIFEST.json from one table (python3 tools/gen.py)."""
import json
import os
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
sys.path.insert(0, ROOT)
from bsa.rules import REGISTRY      # noqa: E402


def P(id, title, statement, over, quant, why, files, mech, technique=None, note=None, na=None, state=None):
    return dict(id=id, title=title, statement=statement, over=over, quant=quant, why=why, files=files, mech=mech,
                technique=technique, note=note, na=na, state=state)


PROPS = [
P("R01", "Every random draw follows bilby's single seed",
  "Every random number drawn by bilby's own code comes from the generator that bilby.core.utils.random.seed controls: "
  "seeding it (also after import, and also for work done in pool workers, which must be given distinct per-task seeds) fixes the draws. "
  "No bilby code draws from numpy's or Python's global generators, from a fresh unseeded or constant-seeded generator, "
  "or from a generator object captured before the seed was set.",
  ["inputs", "histories", "schedules", "configurations"],
  "all call paths and all orders of import, seed and draw, serial or pooled",
  "Tests fix one seed and one path; an unseeded draw still passes every statistical assertion and only shows as non-reproducibility.",
  ["bilby/core/utils/random.py", "bilby/core/prior/base.py", "bilby/core/result.py", "bilby/bilby_mcmc/sampler.py",
   "bilby/bilby_mcmc/proposals.py", "bilby/gw/conversion.py", "bilby/gw/prior.py", "bilby/core/sampler/proposal.py"],
  [("single generator and seed()", "bilby/core/utils/random.py"),
   ("pool tasks reseeded", "bilby/gw/conversion.py:fill_sample, bilby/bilby_mcmc/sampler.py:call_step"),
   ("seed reaches engines", "bilby/core/sampler/base_sampler.py:_translate_kwargs")],
  "resolved-name and type-based dataflow lint over every expression; call-graph reachability for pool tasks",
  "Sound for the enumerated entropy sources and resolved names; assumes third-party engines honour their own seed argument."),
P("R02", "Ordered outputs never depend on hash order",
  "No parameter order, column order, dictionary key order, sequence or draw order produced by bilby depends on the iteration "
  "order of a set, so two processes with different string hash seeds produce identically ordered results.",
  ["configurations", "inputs"], "all hash seeds and all parameter-name sets",
  "The test run fixes PYTHONHASHSEED=0, so hash-order dependence is invisible to it.",
  ["bilby/core/prior/dict.py", "bilby/gw/likelihood/relative.py", "bilby/gw/waveform_generator.py", "bilby/gw/source.py"],
  [("missing keys filled in likelihood order", "bilby/core/prior/dict.py:PriorDict.fill_priors"),
   ("source parameter keys are a set", "bilby/gw/waveform_generator.py")],
  "type inference for set-valued expressions plus order-sensitivity classification of each use",
  "Every may-be-set expression found by inference is classified; values whose type inference cannot see are assumed not to be sets."),
P("U01", "Prior formulas are consistent under a change of units and origin",
  "For every analytic prior family, prob scales as the inverse of the parameter's unit, ln_prob is the logarithm of such a density, cdf is a pure "
  "number and rescale returns a value in the parameter's unit, on every branch (scalar and array, special exponents). For location families "
  "(uniform, Gaussian, truncated Gaussian, Student-t, beta, logistic, Cauchy, triangular, delta) the density and cdf are unchanged, and rescale moves along, when "
  "parameter, bounds and location are shifted together.",
  ["inputs", "configurations"], "all parameter values and hyperparameter values",
  "Tests evaluate fixed hyperparameters, often 0 and 1, where a missing width or offset is invisible.",
  ["bilby/core/prior/analytical.py", "bilby/core/prior/base.py"],
  [("prior families", "bilby/core/prior/analytical.py"), ("range check", "bilby/core/prior/base.py:Prior.is_in_prior_range")],
  "abstract interpretation over a unit-and-translation-weight type domain",
  "Decides unit and translation consistency only; a wrong pure number is not visible."),
P("M01", "Operations leave the caller's inputs unmodified",
  "Parameter conversion, source models and waveform generation, prior construction and evaluation (prob, ln_prob, cdf, rescale, sample), "
  "detector response and inner products, reweighting, result accessors, plotting and saving do not modify the dictionaries, lists, arrays, "
  "data frames, priors or results the caller passes in; values computed from them go into new objects. Operations documented "
  "to add to a given sample in place (SNR and likelihood columns, marginalised-parameter reconstruction) are excluded.",
  ["inputs", "histories"], "all argument objects, including ones shared between calls",
  "Tests look at the returned value and build fresh inputs for each case; an aliased write only shows in a later use of the caller's object.",
  ["bilby/gw/conversion.py", "bilby/core/prior", "bilby/core/result.py", "bilby/gw/waveform_generator.py", "bilby/gw/source.py",
   "bilby/gw/detector", "bilby/core/utils", "bilby/gw/utils.py"],
  [("conversion copies its sample", "bilby/gw/conversion.py:convert_to_lal_binary_black_hole_parameters"),
   ("prior dictionary built from a dictionary", "bilby/core/prior/dict.py:PriorDict.from_dictionary"),
   ("reweight copies the result", "bilby/core/result.py:reweight")],
  "interprocedural alias-and-effect analysis with function summaries",
  "Unresolved calls are assumed pure; numbers and strings are not tracked."),
P("C01", "Detector and series caches always match the current settings",
  "After any sequence of public setters, data-loading calls and reads, the derived quantities of a detector read back as if computed afresh: "
  "coupled time and frequency arrays match duration, sampling frequency and start time; the frequency mask matches the frequency bounds, notch list and "
  "frequency array; the detector tensor, vertex and arm vectors match latitude, longitude, elevation and arm angles; the interpolated spectral density and its cache match the "
  "density last set; and the strain in one domain matches the strain last set in the other.",
  ["histories", "inputs"], "all sequences of setters, loads and reads",
  "Tests read each quantity once or after one change; a missed invalidation needs read, change, read again on the right pair of attributes.",
  ["bilby/core/series.py", "bilby/gw/detector/strain_data.py", "bilby/gw/detector/geometry.py", "bilby/gw/detector/psd.py",
   "bilby/gw/detector/interferometer.py"],
  [("series invalidation flags", "bilby/core/series.py"), ("frequency mask", "bilby/gw/detector/strain_data.py:InterferometerStrainData.frequency_mask"),
   ("geometry flags", "bilby/gw/detector/geometry.py:InterferometerGeometry"), ("density cache", "bilby/gw/detector/psd.py:PowerSpectralDensity")],
  "typestate analysis of cached attributes (valid / invalid / out of date) with dependencies derived by slicing the code that fills them",
  "Covers attribute writes through the class's own methods and setters; in-place changes of user-held arrays are not tracked.",
  state=[("*_updated flags, None sentinels, _cache", "validity of the stored derived quantity")]),
P("C02", "Remembered results are reused only for identical inputs",
  "A waveform, interpolated spectral density, reduced-order basis choice, hyper-model probability or prior rescale order remembered from an earlier call is returned "
  "only when every input it was computed from (parameters, source model, data points, frequency array, data, keys) equals the remembered one. Assigning or deleting an entry of a prior "
  "dictionary, replacing a result's posterior or a likelihood's interferometers, or changing an interpolated prior's limits or values also refreshes what "
  "was computed from them; a failed evaluation never leaves a new key with an old value.",
  ["histories", "inputs", "crash-points"], "all sequences of evaluations and changes of settings, and failures during an evaluation",
  "Tests evaluate each object once or with one input; serving a stale value needs two calls that differ only in the input the key leaves out.",
  ["bilby/gw/waveform_generator.py", "bilby/gw/detector/psd.py", "bilby/gw/likelihood/roq.py", "bilby/hyper/model.py", "bilby/core/prior/dict.py",
   "bilby/core/prior/interpolated.py", "bilby/core/result.py", "bilby/gw/likelihood/base.py"],
  [("waveform cache", "bilby/gw/waveform_generator.py:WaveformGenerator._calculate_strain"), ("basis choice", "bilby/gw/likelihood/roq.py:_update_basis"),
   ("constraint normalisation and rescale order", "bilby/core/prior/dict.py"), ("interpolants", "bilby/core/prior/interpolated.py:Interped._update_instance")],
  "backward slicing of the stored value and of the reuse comparisons, then typestate interpretation of the getter once per changed input",
  "Inputs changed in place without assignment are not seen; settings a table names as fixed at construction are not required in the key.",
  state=[("_cache, _cached_*, _kde, interpolants", "remembered result with the inputs it belongs to")]),
P("D01", "Density, log density, cdf and quantile of a prior agree",
  "For every analytic continuous prior family (power law, uniform, log-uniform and its symmetric form, sine, cosine, Gaussian, truncated and half Gaussian, log-normal, exponential, "
  "Student-t, beta, logistic, Cauchy, gamma, chi-squared, Fermi-Dirac, triangular) and all hyperparameters, the methods describe one distribution: inside the support ln_prob is the logarithm of prob, prob is the derivative "
  "of cdf, and cdf inverts rescale; outside it prob is 0, ln_prob is minus infinity, and cdf is 0 below and 1 above. "
  "Scalar and array arguments follow the same law.",
  ["inputs", "configurations"], "all arguments and hyperparameters, scalar and array branches",
  "Tests integrate prob numerically and compare at a few points for one set of hyperparameters per family; special exponents, asymmetric bounds and scalar branches are not reached.",
  ["bilby/core/prior/analytical.py", "bilby/core/prior/base.py"],
  [("prior families", "bilby/core/prior/analytical.py"), ("range check and default ln_prob", "bilby/core/prior/base.py:Prior")],
  "value numbering to algebraic normal forms per branch case, symbolic differentiation of the forms, random interpretation to identify forms",
  "Points on the boundary of the support and floating-point accuracy are not covered; log families take positive arguments."),
P("V01", "Parameter conversions describe the same binary",
  "From every combination of mass parameters that determines a binary (component, chirp and total mass, mass ratio, symmetric mass ratio; detector or source frame), the conversion functions of bilby.gw.conversion "
  "recover the same component masses and derived mass parameters, with source-frame masses differing by one plus the redshift; a single mass parameter is returned as it is. "
  "Aligned and in-plane spins give matching magnitudes, tilts, chi_eff and chi_p, and every tidal combination (component, lambda_tilde with or without delta_lambda_tilde, symmetric and antisymmetric) gives the same "
  "component deformabilities.",
  ["inputs"], "all parameter values with mass_1 > mass_2 and all determining key combinations",
  "Tests convert one binary from a few key sets; a wrong exponent or swapped component in a rarely used combination changes nothing they look at.",
  ["bilby/gw/conversion.py", "bilby/core/utils/conversion.py"],
  [("mass records", "bilby/gw/conversion.py:generate_component_masses, generate_mass_parameters"),
   ("likelihood conversions", "bilby/gw/conversion.py:convert_to_lal_binary_black_hole_parameters, convert_to_lal_binary_neutron_star_parameters"),
   ("generated parameters", "bilby/gw/conversion.py:generate_spin_parameters, generate_tidal_parameters, generate_source_frame_parameters")],
  "value numbering of records to algebraic normal forms for every input key set, identity of forms by normalisation and random interpretation",
  "Cosmology and lalsimulation calls are uninterpreted functions of their arguments; floating-point accuracy is not covered."),
P("P01", "Joint priors combine the priors of their parameters",
  "For PriorDict and ConditionalPriorDict and any order of the keys, prob is the product and ln_prob the sum of the component priors' values times the constraint normalisation, and is zero or minus infinity where a constraint "
  "on the converted sample fails; cdf, rescale and the array-returning sampling methods keep each value with its own key. Every conditional prior is evaluated at the values of its conditioning variables in the same sample, "
  "whatever was evaluated before, and conditional prior classes (prob, ln_prob, cdf, rescale, sample) use exactly the parameters their condition function returns for those values. "
  "Samples are drawn from each component prior conditioned on the same draw and satisfy the constraints, and a conditional prior given only some of its variables raises.",
  ["inputs", "histories"], "all values and key orders of a joint prior with unconditional, conditional and constraint entries, after any earlier evaluation",
  "Tests use one dictionary with independent priors or one dependency in one order; a value paired with the wrong key or a stale conditioning value shows only for other orders or after another evaluation.",
  ["bilby/core/prior/dict.py", "bilby/core/prior/conditional.py"],
  [("joint density", "bilby/core/prior/dict.py:PriorDict.prob, ln_prob, check_prob, check_ln_prob"),
   ("conditional order", "bilby/core/prior/dict.py:ConditionalPriorDict.sample_subset, rescale, _prepare_evaluation"),
   ("condition functions", "bilby/core/prior/conditional.py:ConditionalPrior.update_conditions")],
  "abstract interpretation of the dictionaries' methods over normal forms of uninterpreted component priors, compared with the product, sum and per-key reference for every key order",
  "Dictionaries have three priors with dependencies a; b given a; c given a and b, and up to two constraints; the statistical quality of the constraint normalisation estimate is not covered."),
P("L01", "Likelihoods return the log density they document",
  "For any data, model function and parameter values, the core likelihoods return the documented log density at their current data, options and parameters, also after other evaluations and after data or options are replaced: "
  "Gaussian (scalar, array or sampled sigma), Poisson, exponential, Student's t (given or sampled nu, any sigma), multinomial, and (bimodal) multivariate Gaussian, with -inf or ValueError for inadmissible rates. "
  "JointLikelihood is the sum of its members at shared parameters, log_likelihood_ratio is log_likelihood minus noise_log_likelihood, Gaussian-process likelihoods are evaluated at their current parameters, and the "
  "hyper-parameter likelihood is the sum over events of the log mean of hyper-prior over sampling prior (plus the log evidences).",
  ["inputs", "histories"], "all data, parameter and hyper-parameter values",
  "Tests compare with the same formula at one point with unit scale parameters, or only check that a number is returned.",
  ["bilby/core/likelihood.py", "bilby/hyper/likelihood.py", "bilby/hyper/model.py"],
  [("densities", "bilby/core/likelihood.py:*.log_likelihood"), ("shared parameters", "bilby/core/likelihood.py:JointLikelihood"),
   ("hyper-parameter likelihood", "bilby/hyper/likelihood.py:HyperparameterLikelihood.log_likelihood_ratio, resample_posteriors")],
  "abstract interpretation of the likelihood classes over algebraic normal forms, compared with the documented density",
  "Data sets have three entries; scipy's and the Gaussian-process packages' densities are uninterpreted; floating-point accuracy is not covered."),
P("L02", "Transient likelihood marginalises its detector inner products as documented",
  "For any data, noise spectra, responses and parameters, GravitationalWaveTransient.log_likelihood_ratio is the sum over detectors of Re<d,h> - <h,h>/2 over unmasked frequencies, and with any combination of time, "
  "distance, phase and calibration marginalization the documented marginal: ln I0(|<d,h>|), the look-up table at the rescaled inner products, the prior-weighted sum over (jittered) time samples, the mean over response curves; also after other evaluations. "
  "noise_log_likelihood, log_likelihood, the per-detector values, calculate_snrs and BasicGravitationalWaveTransient follow from the same inner products; a waveform failure gives minus infinity. "
  "The distance look-up table is the marginal over the distance prior, and a loaded or given table that does not match is rebuilt.",
  ["inputs", "histories"], "all strain, spectrum, response and parameter values, every marginalization combination",
  "Tests compare two implementations at one signal with tolerances of order one, so sample offsets, wrong weights or stale tables pass.",
  ["bilby/gw/likelihood/base.py", "bilby/gw/likelihood/basic.py", "bilby/gw/detector/interferometer.py", "bilby/gw/utils.py"],
  [("likelihood ratio", "bilby/gw/likelihood/base.py:GravitationalWaveTransient.log_likelihood_ratio, calculate_snrs"),
   ("marginalisation", "bilby/gw/likelihood/base.py:GravitationalWaveTransient.*_marginalized_likelihood"),
   ("look-up table", "bilby/gw/likelihood/base.py:GravitationalWaveTransient._setup_distance_marginalization")],
  "abstract interpretation of the likelihood over complex algebraic normal forms with uninterpreted data, compared with the reference sums",
  "Five frequencies, two detectors, two response curves and three distances stand for larger grids; spline interpolation between table entries and floating-point accuracy are not covered."),
P("L03", "Marginalised parameters are drawn from their conditional posterior",
  "For any data, spectra, responses and parameters and every combination of calibration, time, distance and phase marginalization, generate_posterior_sample_from_marginalized_likelihood of GravitationalWaveTransient "
  "draws each marginalised parameter from a table proportional to likelihood times prior, given the parameters already drawn (response curve, then time, distance, phase) and any time jitter, and still marginalising over those not yet drawn. "
  "The tables cover the prior (times inside it, all distances, a full turn of the phase for signals varying as exp(2i phase)), and the returned sample holds the drawn values.",
  ["inputs"], "all strain, spectrum, response and parameter values, every marginalization combination",
  "Tests reconstruct from one event with a duration for which normalisation factors are one and compare maxima within wide tolerances.",
  ["bilby/gw/likelihood/base.py"],
  [("reconstruction", "bilby/gw/likelihood/base.py:GravitationalWaveTransient.generate_*_from_marginalized_likelihood"),
   ("calibration", "bilby/gw/likelihood/base.py:GravitationalWaveTransient.get_calibration_log_likelihoods"),
   ("rescaling", "bilby/gw/likelihood/base.py:GravitationalWaveTransient._rescale_signal")],
  "abstract interpretation of the reconstruction over complex algebraic normal forms; tables handed to random draws compared with reference posteriors",
  "Five frequencies, eight upsampled times, three distances and two response curves stand for larger grids; the cut of table entries below a thousandth of the maximum is not modelled."),
P("F01", "Detector responses and inner products follow their definitions",
  "For any polarisations, detector geometry, calibration factors, noise spectrum and data, get_detector_response is the sum of polarisations times antenna response, shifted by the delay from geocenter to the detector and the data's start time, "
  "times the calibration factor, zero outside the analysed band. inner_product, optimal and matched-filter SNR and template_template_inner_product are 4/T times the noise-weighted sums over the analysed band (window factor in the spectrum), "
  "whitened series divide by the matching amplitude, and injecting a signal adds the projected signal to every detector's data and records that detector's SNRs.",
  ["inputs"], "all signals, spectra, data, geometries and calibration factors",
  "Tests use one detector, one duration and unit calibration, for which conventions and normalisations cancel.",
  ["bilby/gw/detector/interferometer.py", "bilby/gw/detector/networks.py", "bilby/gw/utils.py"],
  [("response", "bilby/gw/detector/interferometer.py:Interferometer.get_detector_response, antenna_response"),
   ("products", "bilby/gw/utils.py:noise_weighted_inner_product, matched_filter_snr, optimal_snr_squared; bilby/gw/detector/interferometer.py"),
   ("injection", "bilby/gw/detector/interferometer.py:Interferometer.inject_signal; bilby/gw/detector/networks.py")],
  "abstract interpretation of the detector classes over complex algebraic normal forms, compared bin by bin with the documented definitions",
  "Five frequencies stand for larger grids; antenna tensors and delays of the compiled library are uninterpreted; floating-point accuracy is not covered."),
P("F02", "Strain data and noise follow bilby's Fourier conventions",
  "For any data with an even number of samples, set through any InterferometerStrainData entry point and in any order, time and frequency domain strain are transforms of each other (FFT over sampling frequency, Tukey window and mean-square window factor for time-domain data), "
  "frequencies outside the minimum-maximum band or strictly inside a notch are zero, and the mask follows later changes of band, notches or grid. "
  "Time and frequency arrays follow duration, sampling frequency and start time; inconsistent lengths, grids or notches raise. "
  "Spectral densities given as PSD, ASD or file interpolate to the same values, noise realisations have variance PSD*T/4 per real and imaginary part and vanish at zero, Nyquist and untabulated frequencies, and PSD estimates leave out the analysis segment.",
  ["inputs", "histories"], "all strain values, grids, bands, notches and sequences of setting data",
  "Tests set data once on one grid and compare summary numbers; stale caches, wrong factors and shifted bins stay within tolerances.",
  ["bilby/gw/detector/strain_data.py", "bilby/gw/detector/psd.py", "bilby/core/series.py", "bilby/core/utils/series.py"],
  [("data", "bilby/gw/detector/strain_data.py:InterferometerStrainData"), ("grids", "bilby/core/series.py:CoupledTimeAndFrequencySeries; bilby/core/utils/series.py"),
   ("spectra", "bilby/gw/detector/psd.py:PowerSpectralDensity")],
  "abstract interpretation of the data classes over algebraic normal forms of uninterpreted samples, for sequences of documented operations, compared with the reference transforms and masks",
  "Eight samples stand for larger even grids, operation sequences have length two to three; odd sample counts and floating-point rounding are not covered."),
P("Q01", "Reweighting, combining and summarising results follow their estimators",
  "reweight weighs every posterior row (or nested sample) by new over old likelihood times prior of that same row, keeps rows in proportion, updates likelihood and prior columns, priors, log evidence (mean weight) and log Bayes factor, leaves the given result alone, and gives the same answer when interrupted and resumed from its resume file. "
  "ResultList.combine weighs nested runs by evidence, averages the evidences, concatenates everything for MCMC, rejects inconsistent runs (sampler, data, parameters, priors, missing nested samples) and leaves the inputs alone. "
  "Posteriors built from samples keep columns and rows aligned; credible levels, prior weights, log10 evidences, model dimensionality and median error bars follow their definitions.",
  ["inputs", "histories"], "all results, weights, draws, interruption points and inconsistent combinations of runs",
  "Tests reweight one result without interruption and compare evidences within tolerance; misaligned rows and resumed runs are not seen.",
  ["bilby/core/result.py"],
  [("reweighting", "bilby/core/result.py:reweight,get_weights_for_reweighting,rejection_sample"), ("combination", "bilby/core/result.py:ResultList"), ("summaries", "bilby/core/result.py:Result")],
  "abstract interpretation of the result module over data frames of uninterpreted values with supplied draws, likelihoods and priors, compared with the documented estimators, with interruptions at every sample",
  "Five rows and three runs stand for larger results; plots and file formats are not covered."),
P("T01", "Detector calibration models follow their parameters",
  "For any parameters, frequencies and spline nodes, the cubic-spline calibration factor is (1 + amplitude spline)(2 + i phase spline)/(2 - i phase spline) through the given nodal values at log-spaced nodes over the model's range, with natural end conditions, also after the parameters change. "
  "A tabulated (Precomputed) model returns the curve of the given index, interpolated in frequency, raises KeyError without an index, and is one outside its table. "
  "Curves written to and read from files keep their frequencies, values and parameters, curves drawn from priors belong to the parameters recorded with them, calibration priors describe the spline's nodes with the given means and widths, and models compare equal exactly when their settings do.",
  ["inputs", "histories"], "all calibration parameters, nodes, tabulated curves and file round trips",
  "Tests evaluate a few zero or constant calibrations, for which node positions, conventions and row order cancel.",
  ["bilby/gw/detector/calibration.py", "bilby/gw/likelihood/base.py"],
  [("spline model", "bilby/gw/detector/calibration.py:CubicSpline"), ("tabulated model", "bilby/gw/detector/calibration.py:Precomputed"),
   ("files and draws", "bilby/gw/detector/calibration.py:read_calibration_file, write_calibration_file, curves_from_spline_and_prior, build_calibration_lookup")],
  "abstract interpretation of the calibration classes over algebraic normal forms, files kept as tables in memory, compared with the documented forms",
  "Up to five nodes and a few frequencies stand for larger models; the spline is compared at its nodes and between them with uninterpreted nodal values."),
P("N01", "Samplers evaluate the given problem and keep every sample's own values",
  "For every interfaced sampler (nestle, ultranest, pymultinest, cpnest, nessai, dnest4, polychord, ptmcmc, dynesty, emcee, zeus, kombine, ptemcee), the functions handed to the external package map a point to the prior, prior transform, likelihood (or likelihood ratio) and constraints of the parameters in the order of search_parameter_keys. "
  "Each row of the stored samples and nested samples is a point of the run, in the same column order, with that point's own log likelihood, log prior and weight; burn-in and thinning drop whole rows, walkers hold each walker's chain, and evidences are the package's. "
  "DNest4 proposals are symmetric moves of one parameter weighted by the ratio of the priors.",
  ["inputs", "configurations"], "all priors, likelihoods, parameter orders and package outputs",
  "Tests run few samplers on one- or two-parameter problems and look at no pairing of samples and values; most packages are not run at all.",
  ["bilby/core/sampler"],
  [("interfaces", "bilby/core/sampler/*.py:run_sampler, _generate_result"), ("evaluation", "bilby/core/sampler/base_sampler.py:Sampler.log_likelihood, prior_transform, log_prior"),
   ("sorting", "bilby/core/sampler/base_sampler.py:NestedSampler.reorder_loglikelihoods")],
  "abstract interpretation of the sampler classes with stand-ins for the external packages, uninterpreted priors and likelihoods and labelled points",
  "Packages are represented by their documented output layout; three sampled parameters and a few points stand for larger runs; resuming from checkpoints, bilby_mcmc and pymc are not covered."),
P("N02", "run_sampler books evidence and time and reuses only matching results",
  "For any likelihood, priors and options, run_sampler builds the sampler (given by name, class or object) from exactly the caller's problem and options, keeps the caller's metadata dictionary unchanged, and refuses to sample a parameter the likelihood marginalises over. "
  "log_evidence, log_noise_evidence and log_bayes_factor follow from the sampler's evidence and whether it sampled the likelihood ratio, sampling_time is in seconds, the posterior is generated once and the file saved last holds it. "
  "A cached result is returned unchanged and without a new run, and only if its search and fixed parameters and likelihood metadata equal this run's (or use_cached is set); clean always forces a new run. "
  "Starting points are prior draws with finite prior and likelihood, paired with their own values.",
  ["inputs", "configurations", "histories"], "all combinations of sampler kind, options, cached results and acceptable or rejected draws",
  "Tests run one fast sampler by name on fresh directories; evidence bookkeeping, time units and reuse decisions for other combinations are not looked at.",
  ["bilby/core/sampler/__init__.py", "bilby/core/sampler/base_sampler.py"],
  [("run", "bilby/core/sampler/__init__.py:run_sampler"), ("reuse", "bilby/core/sampler/base_sampler.py:Sampler._check_cached_result"),
   ("set up", "bilby/core/sampler/base_sampler.py:Sampler._initialise_parameters, get_initial_points_from_prior, check_draw")],
  "abstract interpretation of run_sampler and the sampler base class with a stand-in sampler, recording events and comparing with the documented bookkeeping in every combination",
  "Command-line modes for tests and zero likelihoods, and conversion of injection parameters more than once, are not covered."),
P("S01", "A result or prior dictionary read from a file is the one that was saved",
  "For any Result saved with save_to_file as JSON, gzipped JSON, HDF5 or pickle, read_in_result and the from_json, from_hdf5 and from_pickle constructors find the file that was written and return every constructor field unchanged: labels, parameter keys, evidences, sampling time, posterior and nested sample columns, arrays, metadata and sampler options, and a prior dictionary of the same class with equal priors, whose joint priors share one distribution. Saving leaves the result unchanged. "
  "Prior dictionaries pass through to_json/from_json and prior files with the class, every constructor argument, condition functions and joint distributions intact, for every prior class. "
  "The JSON and HDF5 encoders restore numbers, infinities, booleans, None, text, arrays, lists, nested dictionaries, complex numbers, data frames, functions, classes and time spans (sequences become lists in JSON and arrays or lists in HDF5).",
  ["inputs", "configurations"], "all field values, prior classes, formats and ways of naming the file",
  "Tests save one result with independent analytical priors and compare some fields; they never reload joint or conditional priors from HDF5, missing labels or other field combinations.",
  ["bilby/core/result.py", "bilby/core/utils/io.py", "bilby/core/utils/introspection.py", "bilby/core/prior"],
  [("writer", "bilby/core/result.py:Result.save_to_file, _get_save_data_dictionary"), ("readers", "bilby/core/result.py:read_in_result, Result.from_json, from_hdf5, from_pickle"),
   ("encoding", "bilby/core/utils/io.py:BilbyJsonEncoder, decode_bilby_json, encode_for_hdf5, decode_from_hdf5"), ("priors", "bilby/core/prior/dict.py:PriorDict._get_json_dict, _get_from_json_dict, to_file, from_file")],
  "abstract interpretation of writer and reader together over files kept in memory, comparing every field of what is read with what was saved",
  "json, h5py, pickle and gzip are represented by their contracts; cosmological, HEALPix and file-based priors, Gaussian mixtures, empty dictionaries in HDF5 and results of other classes are not covered."),
P("K01", "A checkpoint is complete at every crash point and resuming uses it",
  "The checkpoint files written by dynesty (static and dynamic), ptemcee, emcee, zeus, kombine, bilby_mcmc, reweighting and the reconstruction of marginalised parameters, and the sampling-time file, hold at every interruption of a save either the complete previous or the complete new checkpoint. "
  "A sampler or reweighting resumed from one continues from the state that was written, with the elapsed sampling time added up; with resume off it ignores it, and bilby_mcmc refuses a checkpoint made with other parallel-tempering inputs.",
  ["crash_points", "histories", "configurations"], "every file operation at which the process can stop, and every number of earlier checkpoints",
  "Tests never stop inside a write, and those that resume do so after a complete run with the same settings.",
  ["bilby/core/sampler/base_sampler.py", "bilby/core/sampler/dynesty.py", "bilby/core/sampler/ptemcee.py", "bilby/core/sampler/emcee.py", "bilby/core/sampler/kombine.py", "bilby/core/sampler/zeus.py", "bilby/bilby_mcmc/sampler.py", "bilby/core/result.py", "bilby/gw/conversion.py"],
  [("safe dump", "bilby/core/utils/io.py:safe_file_dump"), ("dynesty resume", "bilby/core/sampler/dynesty.py:Dynesty.write_current_state, read_saved_state"), ("chain resume", "bilby/bilby_mcmc/sampler.py:Bilby_MCMC.write_current_state, read_current_state"),
   ("elapsed time", "bilby/core/sampler/base_sampler.py:Sampler._calculate_and_save_sampling_time"), ("reconstruction cache", "bilby/gw/conversion.py:generate_posterior_samples_from_marginalized_likelihood")],
  "effect analysis of file operations in execution order, found by abstract interpretation of writer and reader: contents of every checkpoint file at each possible interruption, and state after resume",
  "pickle, dill and os.replace are represented by their contracts; checkpoints kept by other third-party samplers (nessai, ultranest, PyMultiNest, ptmcmc) are theirs."),
P("I01", "Independent objects share no mutable state",
  "Creating, configuring or using one object never changes another object built independently, the defaults of its class or of a function, or a module-level table. "
  "Containers that a constructor or setter is given and keeps (waveform arguments, weights, options, metadata) are not added to or altered by later use of the object; likelihoods, priors, generators, detectors and joint distributions passed in are live collaborators and excluded. "
  "State that a sampler keeps on a class between calls is emptied at the start of a run.",
  ["histories", "inputs"], "all sequences of constructing and using objects in one process",
  "Tests build one object per case in a fresh set-up; leakage appears only in a second object or a second run in the same process.",
  ["bilby/core", "bilby/gw", "bilby/bilby_mcmc", "bilby/hyper"],
  [("class-level defaults are copied", "bilby/core/sampler/base_sampler.py:Sampler.kwargs"), ("walker caches reset per run", "bilby/core/sampler/dynesty.py:Dynesty._set_sampling_method"),
   ("arguments copied", "bilby/gw/waveform_generator.py:WaveformGenerator.__init__")],
  "alias-and-effect dataflow analysis with interprocedural and per-field summaries, sources being class attributes, module values, default arguments and constructor arguments",
  "Calls whose target cannot be resolved are assumed not to modify; nested contents of kept arguments are not tracked."),
P("H01", "Markov chain moves leave their target distribution invariant",
  "In bilby_mcmc every step is accepted with probability min(1, exp(log q-ratio + beta delta lnL + delta ln prior)), points without prior or likelihood are rejected, and the sample stored is the one the chain stands at; the ratio each proposal (Gaussian, jump, uniform, prior, differential evolution, stretch, KDE, GMM, normalising flow, Fisher, polarisation) returns is that of the move it makes, which stays within the bounds, and temperature swaps and ensemble steps are accepted with their own probabilities and move whole samples. "
  "The ladder of temperatures keeps its ends and order and adapts to equal swap rates, the evidence is the stepping-stone or thermodynamic sum over it, and the samples counted are those collected, with hot chains reweighted by their own likelihood. "
  "The random walks of dynesty move symmetrically in the unit cube, start each move at the last point accepted, and return a point above the likelihood level (a fresh prior draw if nothing was accepted) with its own parameters and likelihood.",
  ["inputs", "histories", "configurations"], "all current points, proposals, densities, temperatures, draws and outcomes of earlier steps",
  "Tests sample one-dimensional Gaussians with a fixed seed; a wrong ratio biases the posterior by less than their tolerance or only for parameters they do not have.",
  ["bilby/bilby_mcmc/sampler.py", "bilby/bilby_mcmc/proposals.py", "bilby/bilby_mcmc/chain.py", "bilby/core/sampler/dynesty_utils.py"],
  [("acceptance", "bilby/bilby_mcmc/sampler.py:BilbyMCMCSampler.step"), ("tempering", "bilby/bilby_mcmc/sampler.py:BilbyPTMCMCSampler.swap_tempered_chains, ensemble_step, adapt_temperatures"),
   ("proposal ratios", "bilby/bilby_mcmc/proposals.py:BaseProposal.__call__ and propose of each proposal"), ("walks", "bilby/core/sampler/dynesty_utils.py:FixedRWalk, ACTTrackingRWalk, AcceptanceTrackingRWalk")],
  "abstract interpretation of steps, proposals and walks over symbolic points and draws, comparing normal forms of acceptance ratios and densities with detailed balance",
  "Draws are uninterpreted values of their distribution; learned densities (KDE, mixtures, flows) and their training are represented by contracts; GW-specific proposals other than polarisation and phase, and convergence of the chains, are not covered."),
P("W01", "Source models and waveform generators pass on the documented quantities",
  "A waveform generator evaluates its model on its own grid with the converted parameters and its waveform arguments (transforming between time and frequency domain when only the other model is given), and leaves its caller's dictionaries as they were. "
  "Binary source models hand LALSimulation masses in kg, distance in m, spin components, phase, frequencies and the requested options in its documented argument order, and return both polarisations at the requested frequencies, zero outside the band, shifted to the documented epoch, or None when, and only when, a caught domain error was asked to be tolerated. "
  "Frequency-sequence, reduced-order-quadrature and relative-binning models use the nodes or bin edges they are given, and the burst models follow their documented formulas.",
  ["inputs", "configurations"], "all parameters, options, frequency grids and library failures",
  "Tests compare the keys and lengths of outputs for one set of parameters and default options.",
  ["bilby/gw/source.py", "bilby/gw/waveform_generator.py"],
  [("library calls", "bilby/gw/source.py:_base_lal_cbc_fd_waveform, _base_waveform_frequency_sequence, gwsignal_binary_black_hole, _base_roq_waveform, _base_relative_binning_frequency_sequence"),
   ("generator", "bilby/gw/waveform_generator.py:WaveformGenerator._calculate_strain, _strain_from_model, _strain_from_transformed_model")],
  "abstract interpretation of each source model against contracts of the waveform library, comparing the normal forms of arguments and returned series with the documented ones",
  "LALSimulation is represented by its signature; the accuracy of waveforms is not covered; short grids stand for longer ones."),
P("A01", "Approximate likelihoods agree with the exact one within their accuracy",
  "Reduced-order-quadrature, multi-banded and relative-binning likelihoods differ from the full likelihood by no more than the accuracy for which their bases, bands or bins were built.",
  ["inputs"], "all parameters in the prior", "Tests compare a few parameter values.",
  ["bilby/gw/likelihood/roq.py", "bilby/gw/likelihood/multiband.py", "bilby/gw/likelihood/relative.py"], [("bands and bins", "bilby/gw/likelihood/multiband.py, relative.py")],
  na="the size of the error depends on waveform values produced by LALSimulation and on basis files at run time; no static bound on them is in reach (L02 and L03 decide the algebra of marginalisation and reconstruction that these classes share)"),
P("A02", "Samplers converge to the posterior and evidence within the reported error",
  "For any likelihood and prior, each sampler's posterior samples and log evidence approach the true ones and the reported uncertainty covers the difference.",
  ["inputs", "schedules"], "all likelihoods, priors and seeds", "Tests sample simple targets with fixed seeds.",
  ["bilby/core/sampler", "bilby/bilby_mcmc"], [("stopping rules", "bilby/core/sampler/ptemcee.py, bilby/bilby_mcmc/chain.py")],
  na="a statistical statement about random runs of mostly third-party samplers; static analysis decides the invariance of the moves (H01) and the bookkeeping (N01, N02), not convergence"),
P("A03", "Interpolated priors, cosmologies and waveforms are accurate",
  "Interpolation tables (interpolated and cosmological priors, redshift-distance conversion, calibration splines, HEALPix sky maps) reproduce the function they tabulate within a stated tolerance.",
  ["inputs"], "all arguments", "Tests sample a few points of smooth tables.",
  ["bilby/core/prior/interpolated.py", "bilby/gw/prior.py", "bilby/gw/conversion.py"], [("tables", "bilby/core/prior/interpolated.py:Interped")],
  na="the error depends on user tables, astropy cosmologies and scipy splines evaluated at run time; only the use of the tables is decided statically (U01, D01, T01)"),
]


def main():
    lines, checks, na = [], [], []
    for p in PROPS:
        d = {"id": p["id"], "title": p["title"], "statement": p["statement"],
             "quantifier": {"over": p["over"], "text": p["quant"]}, "why_tests_cant": p["why"],
             "anchors": {"files": p["files"], "mechanism": [{"name": a, "where": b} for a, b in p["mech"]]}}
        if p["state"]:
            d["anchors"]["state"] = [{"name": a, "meaning": b} for a, b in p["state"]]
        lines.append(json.dumps(d))
        if p["id"] in REGISTRY and not p["na"]:
            checks.append({"property": p["id"], "quick_cmd": "python3 check.py %s --tier quick" % p["id"],
                           "thorough_cmd": "python3 check.py %s --tier thorough" % p["id"],
                           "technique": "static analysis: " + p["technique"], "level": "other",
                           "level_note": p["note"]})
        else:
            na.append({"property": p["id"], "reason": p["na"] or "check not built yet"})
    with open(os.path.join(ROOT, "properties.jsonl"), "w") as f:
        f.write("\n".join(lines) + "\n")
    with open(os.path.join(ROOT, "MANIFEST.json"), "w") as f:
        json.dump({"version": 1, "setup_cmd": "python3 -m compileall -q bsa check.py", "checks": checks,
                   "not_applicable": na}, f, indent=1)
        f.write("\n")
    print(len(checks), "checks,", len(na), "not applicable")


main()
