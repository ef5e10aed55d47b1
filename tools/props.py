"""The properties: single source for properties.jsonl and MANIFEST.json."""

K = "diffmah/diffmah_kernels.py"
POP = "diffmah/diffmahpop_kernels/"
FIT = "diffmah/fitting_helpers/"
LOAD = "diffmah/data_loaders/"
CENS, SATS = POP + "mc_bimod_cens.py", POP + "mc_bimod_sats.py"


def P(id, title, statement, over, quant, why, files, mech, technique, observe=()):
    return dict(id=id, title=title, statement=statement, over=over, quant=quant, why=why,
                files=files, mech=mech, technique=technique, observe=list(observe))


PROPS = [
    P("P01", "Halo mass histories follow the diffmah rolling power-law model",
      "For every halo with parameters inside their documented bounds and every cosmic time, the predicted "
      "mass is the rolling power law anchored at logm0 at the z=0 age, frozen at its t_peak value for all "
      "later times. The history is finite, never decreases before z=0, passes through logm0 at z=0 when "
      "t_peak is later than that, and shifts rigidly with logm0.",
      ["inputs"], "all five halo parameters over their bounds, times from 10 Myr to 25 Gyr, any z=0 age, both float widths",
      "The tests compare a handful of default-parameter halos at fixed times; the claim is for every parameter combination, both sides of t_peak and both precisions.",
      [K], [("_log_mah_kern freezes time at t_peak", K), ("_rolling_plaw sigmoid index", K)],
      "property-based testing against an independent float64 reference model plus metamorphic relations"),
    P("P02", "Accretion rate is the time derivative of the mass history",
      "For every halo and time, the accretion rate returned with a mass history equals the time derivative "
      "of that history in Msun per yr, is non-negative up to z=0 unless the late index exceeds the early one, and is exactly zero after t_peak. "
      "Integrating the rate between two times recovers the mass gained between them.",
      ["inputs"], "all halo parameters, times before and after t_peak, single halos and populations",
      "Tests check finiteness and positivity for a few halos; units, the chain rule and the branch at t_peak must hold everywhere.",
      [K], [("_dmhdt_kern automatic derivative", K)],
      "property-based testing: differential against a hand-differentiated reference, numerical integration, complex-step"),
    P("P03", "Single-halo, population and single-time evaluations agree",
      "Evaluating a population gives, halo by halo, exactly what evaluating each halo alone gives, and evaluating one "
      "time per halo gives the matching entry of the table. Reordering halos or times only reorders the output, and "
      "results do not depend on which other halos or times are evaluated together, nor on scalar versus array or float32 versus float64 inputs.",
      ["inputs"], "populations of halos, time tables, permutations and sub-selections of both",
      "The tests compare shapes, not the pairing of every halo and time with its output.",
      [K], [("vmap over halos and times", K)],
      "property-based testing: metamorphic relations over permutations, subsets and call forms"),
    P("P04", "Halo parameters and their unbounded form are inverse of each other",
      "Converting halo parameters inside their bounds to the unbounded form and back returns them, and converting "
      "any unbounded parameters and back returns those. The bounded form always lies within the documented bounds with "
      "late index not above early index, each conversion is strictly increasing, and histories computed from either form agree.",
      ["inputs"], "all bounded parameters with late index below early index, all unbounded parameters within the invertible range",
      "Tests round-trip the defaults and a few random draws; a bijection is a claim over the whole domain, including near the bounds and for the coupled indices.",
      [K], [("get_bounded_mah_params / get_unbounded_mah_params", K), ("late index bounded by early index", K)],
      "property-based testing: round trips both ways, bounds, monotonicity, agreement of the two evaluations"),
    P("P05", "Gradients of mass histories are exact and finite",
      "The automatic derivatives of predicted masses and accretion rates with respect to every halo parameter (bounded or unbounded), "
      "and of the fitting loss and its gradient, are finite and equal the true partial derivatives wherever those exist.",
      ["inputs"], "halo parameters over their bounds, times on both sides of t_peak, unbounded parameters",
      "Tests check at most that gradients at default values are finite; an incorrect derivative at some point of the domain is invisible to them.",
      [K, FIT + "diffmah_fitter_helpers.py"], [("differentiable kernels", K), ("mse_loss_mah gradient", FIT + "diffmah_fitter_helpers.py")],
      "property-based testing: differential against complex-step derivatives of an independent model"),
    P("P06", "The fitter uses exactly the documented part of a simulated history",
      "For every simulated history the individual-halo fitter uses exactly the snapshots above lgm_min (strictly), within dlogm_cut of the final mass "
      "and no earlier than t_fit_min, with the running maximum of the mass as target; t_peak is the first time the final mass is attained unless it is supplied. "
      "A history whose target has fewer than three snapshots below its final value, or that is marked to be skipped, gives the -99 no-fit result; the caller's arrays are never modified, mismatched shapes are rejected and suspiciously small masses warned about.",
      ["inputs", "configurations"], "histories with growth, plateaus, dips, empty snapshots; all cuts including cuts equal to snapshot times",
      "Tests use smooth histories with default cuts, so the cuts, ties and plateaus are not exercised together.",
      [FIT + "diffmah_fitter_helpers.py"], [("_get_target_data masks", FIT + "diffmah_fitter_helpers.py"), ("get_loss_data skip_fit", FIT + "diffmah_fitter_helpers.py")],
      "property-based testing against a reference implementation of the selection"),
    P("P07", "A fit never misreports its result nor does worse than its starting point",
      "For every history that is fitted, the reported loss is the mean squared log-mass residual of the returned parameters over the fitted snapshots, "
      "and is no larger than the loss of the initial guess; after a converged fit no rigid shift of the history would fit better. The returned parameters are finite, within bounds with late index not above early index, "
      "carry the inferred or supplied t_peak, and the success flags agree with the optimizer that produced them.",
      ["inputs", "configurations"], "noisy histories of every shape, fitter options",
      "Tests fit a few smooth histories and check a loss threshold only.",
      [FIT + "diffmah_fitter_helpers.py", FIT + "bfgs_wrapper.py"], [("diffmah_fitter", FIT + "diffmah_fitter_helpers.py")],
      "property-based testing: recomputed loss against a float64 model, invariants on the fit"),
    P("P08", "Fitting a history made by the model recovers that history",
      "When the simulated history was itself generated by the model, for any halo parameters in the physically plausible range, the fit nearly always converges and a converged fit reproduces "
      "the mass history at the fitted snapshots (within a few tenths of a dex, typically well below 0.1) and the value of t_peak. Scaling all masses by a constant shifts the fitted history by the same constant.",
      ["inputs"], "model parameters over the plausible range, snapshot tables",
      "Tests check recovery for a few fixed parameter sets.",
      [FIT + "diffmah_fitter_helpers.py"], [("get_loss_data initial guess", FIT + "diffmah_fitter_helpers.py"), ("bfgs_adam_fallback", FIT + "bfgs_wrapper.py")],
      "property-based testing: generate-then-fit round trip"),
    P("P09", "Optimizer wrappers return the best point and an honest status",
      "The optimizer wrappers return a point, the loss of that same point, and a flag telling whether the search terminated properly; the gradient-descent variants "
      "return the lowest-loss point of their whole history and stop early when told to. When the quasi-Newton search fails, returns a non-finite result or an impossible zero loss, the "
      "fallback optimizer runs and the code used is reported; a run that meets a non-finite value reports failure instead of a bogus fit.",
      ["inputs", "fault_sequences"], "random convex and non-convex objectives; non-finite losses or gradients injected at any evaluation; failing minimizer",
      "Tests minimize well-behaved quadratics; the failure branches are never taken.",
      [FIT + "bfgs_wrapper.py", FIT + "fit_utils.py"], [("bfgs_adam_fallback", FIT + "bfgs_wrapper.py"), ("jax_adam_wrapper", FIT + "fit_utils.py")],
      "property-based testing with fault injection into the objective and the minimizer"),
    P("P10", "Fit tables survive the text round trip halo by halo",
      "Every fit result written by the parallel fitting jobs is found again in the collated table: one row per halo, halo ids exact to 64-bit integers, parameters and loss to the "
      "printed precision, flags unchanged, rows of all ranks concatenated in rank order, columns in the documented order. Halos without a fit keep their -99 row.",
      ["inputs", "histories"], "any sequence of fitted and skipped halos over any number of ranks, 64-bit ids, extreme values",
      "Tests parse one hand-written line.",
      [FIT + "diffmah_fitter_helpers.py"], [("get_outline / get_outline_nofit", FIT + "diffmah_fitter_helpers.py"), ("write_collated_data", FIT + "diffmah_fitter_helpers.py")],
      "property-based testing: write/parse/collate/read round trip against the original records"),
    P("P11", "Flat HDF5 files are read back faithfully",
      "Reading an HDF5 table returns every stored dataset, also those inside groups, with identical shape, dtype and values; with a key selection only the requested datasets, in the requested order, and with a row range only the requested "
      "rows. Writing a named tuple of arrays and loading it back gives the same fields in the same order with the same dtypes and values. Whatever the layout, no column is lost, merged or mislabeled.",
      ["inputs", "configurations"], "randomly generated group trees, dtypes, key selections, row ranges, named tuples",
      "Tests use one small file.",
      [LOAD + "io_utils.py", LOAD + "load_hacc_mahs.py"], [("load_flat_hdf5", LOAD + "io_utils.py")],
      "property-based testing: write with h5py, read back, compare with the generated table"),
    P("P12", "Catalog loaders return each halo's own data in documented units",
      "Every merger-tree loader returns, for each requested halo and snapshot, that halo's own mass history and ids from the files on disk with the time and mass units it documents, "
      "for any file layout, number of files or sub-volume.",
      ["inputs", "configurations"], "generated catalogs of every supported simulation format",
      "The tests skip these loaders where data files or optional packages are missing.",
      [LOAD + "load_bpl_um_data.py", LOAD + "load_tng_mahs.py", LOAD + "load_galacticus_eps_mahs.py", LOAD + "load_hacc_mahs.py", LOAD + "load_diffmah_pub_data.py"],
      [("load_tng_data", LOAD + "load_tng_mahs.py"), ("load_mahs_per_rank", LOAD + "load_hacc_mahs.py")],
      "property-based testing: generated catalogs on disk read back through the loaders"),
    P("P13", "Work is partitioned over ranks without loss or duplication",
      "For every number of ranks and halos, the shares handed to the ranks together hold every halo exactly once, in order, with every column of the catalog kept aligned, and no rank fails when there are fewer halos than ranks. "
      "Gathering the shares back restores the catalog.",
      ["inputs", "configurations", "schedules"], "any number of ranks and halos",
      "Tests run on one rank at most.",
      [LOAD + "load_hacc_mahs.py"], [("load_mahs_per_rank / _scatter_nd", LOAD + "load_hacc_mahs.py")],
      "property-based testing with a simulated communicator"),
    P("P14", "Population-model parameters and their unbounded form are inverse",
      "For every ingredient of the halo population model and for the complete model, converting any parameters inside their bounds to unbounded form and back returns the same parameters under the same names, "
      "and any unbounded values map strictly inside the bounds and back; names never collide, and the default unbounded parameters map to the defaults.",
      ["inputs"], "every parameter of every ingredient over its range",
      "Tests round-trip defaults and a few random draws per component; a mislabeled or collapsed parameter can hide when the defaults coincide.",
      [POP + "bimod_censat_params.py", POP + "early_index_bimod.py", POP + "late_index_bimod.py", POP + "covariance_kernels.py"],
      [("get_component_model_params", POP + "bimod_censat_params.py"), ("component transforms", POP)],
      "property-based testing: round trips by name over the whole domain"),
    P("P15", "Each population parameter controls only the ingredient it is named for",
      "Changing one parameter of the halo population model changes only the predictions of the ingredient that parameter belongs to (a mean relation of early or late type, the scatter, the t_peak distribution of centrals or satellites, the early fraction), and does change that ingredient's "
      "prediction somewhere that the ingredient is not saturated at a bound. No parameter leaks into another ingredient.",
      ["inputs"], "each parameter of the model, random baselines and perturbations, halo masses and times",
      "Tests evaluate the model at single parameter values only.",
      [POP + "bimod_censat_params.py", CENS, SATS], [("component extraction by field names", POP + "param_utils.py")],
      "property-based testing: dependency matrix by perturbation (metamorphic)"),
    P("P16", "Monte Carlo halo populations are finite, physical and complete",
      "For every population parameters, observed halo mass, observation time and random key, the generated populations of centrals and satellites have finite halo parameters within the documented bounds with late index not above early index, "
      "weights or fractions within [0,1], and one history per halo with finite non-decreasing masses and non-negative rates.",
      ["inputs"], "parameters over their bounds, halo mass 10^10-10^16, t_obs 0.5 Gyr to z=0, keys, time tables",
      "Tests sample a few masses and times at the default parameters.",
      [CENS, SATS, POP + "bimod_logm0_kernels/logm0_pop_bimod.py"], [("mc_cenpop / mc_satpop", CENS), ("clipping into MAH_PBOUNDS", POP)],
      "property-based testing of invariants over parameters, masses, times and keys"),
    P("P17", "Every generated halo is one coherent draw of the early or late type",
      "Each halo of a Monte Carlo population is wholly early type or wholly late type with the t_peak drawn (or supplied) for it, and its returned history is exactly the history of its returned parameters, anchored at the same z=0 age. "
      "The weighted two-type form and the selected form of one population describe the same halos.",
      ["inputs"], "parameters, masses, times, keys",
      "Tests check shapes and finiteness of the mixture, not that type, t_peak, parameters and history belong together.",
      [CENS, SATS], [("mc_select_diffmah_params", CENS), ("mc_diffmah_cenpop", CENS)],
      "property-based testing: recompute each returned history from the returned parameters, match each halo with its type"),
    P("P18", "Random draws are reproducible, halo-wise and mutually independent",
      "The same key gives the same population and different keys give different ones; within a population every halo is drawn on its own, and t_peak, type and the scatter of each type use separate randomness, so no two are correlated beyond what the model prescribes. "
      "Running one ingredient never disturbs the draws of another call.",
      ["inputs", "histories"], "keys, population sizes, masses and times",
      "A reused key leaves every existing assertion satisfied; only joint statistics reveal it.",
      [CENS, SATS], [("key splitting", CENS)],
      "property-based statistical testing: rank correlations and duplicate detection on generated populations, repeatability"),
    P("P19", "Early-type fraction of a population is the one the model predicts",
      "In every generated population the fraction of early-type halos agrees with the predicted fraction for that mass and time within sampling noise, the reported weight is that fraction, and a selected population has the mixture statistics of the weighted one.",
      ["inputs"], "parameters, masses, times, keys",
      "Tests check that the fraction lies in [0,1].",
      [POP + "frac_early_cens.py", CENS, SATS], [("frac_early_cens kernel", POP + "frac_early_cens.py")],
      "property-based statistical testing with a binomial tail bound"),
    P("P20", "Population averages are the weighted moments of the generated sample",
      "The reported average log-mass and its scatter equal, at every time, the moments of the generated early- and late-type samples weighted by each halo's probability of being early type; the reported fraction of halos that have peaked stays within [0,1].",
      ["inputs"], "parameters, masses, times, keys",
      "Tests check finiteness and shape of the averages.",
      [POP + "bimod_censat_fithelp.py", POP + "bimod_cens_fithelp.py", POP + "bimod_sats_fithelp.py"], [("weighted moments", POP + "bimod_cens_fithelp.py")],
      "property-based testing: differential against float64 moments of the same sample"),
    P("P21", "t_peak draws follow the t_peak distribution of the model",
      "For centrals and satellites, drawn t_peak values lie within the allowed range, their distribution function is monotone from 0 to 1, the density is non-negative and integrates to the distribution, and the drawn sample follows that distribution for every parameters, mass and time.",
      ["inputs"], "parameters, masses, times, quantiles, keys",
      "Tests check a few values at default parameters.",
      [POP + "t_peak_kernels/tp_pdf_cens.py", POP + "t_peak_kernels/tp_pdf_cens_flex.py", POP + "t_peak_kernels/tp_pdf_sats.py", POP + "t_peak_kernels/utp_pdf_kernels.py"],
      [("inverse transform sampling", POP + "t_peak_kernels/utp_pdf_kernels.py")],
      "property-based testing: inverse/forward round trips, quadrature, Kolmogorov-Smirnov bounds against scipy"),
    P("P22", "Scatter of halo parameters follows a valid covariance",
      "For all covariance parameters within bounds and all halo masses, the covariance is symmetric positive definite with the predicted standard deviations on its diagonal and the predicted correlations off it, interpolating between its low- and high-mass limits, and the generated scatter has that covariance.",
      ["inputs"], "covariance parameters over their bounds, halo masses, keys",
      "Tests check the default covariance and a few random draws.",
      [POP + "covariance_kernels.py"], [("_get_diffmahpop_cov", POP + "covariance_kernels.py")],
      "property-based testing: eigenvalues, explicit reference, sample covariance"),
    P("P23", "Population-fit losses measure exactly the stated residuals",
      "Every loss used to calibrate the population model is the mean squared residual between the model's averages and the targets it is given, summed over the centrals and satellites it is given: zero when targets are the model's own predictions with the same key, non-negative otherwise, "
      "and equal to the loss recomputed from the public predictions.",
      ["inputs"], "parameters, targets, masses, times, keys",
      "Tests check only that the loss is finite or positive.",
      [POP + "bimod_censat_fithelp.py", POP + "bimod_cens_fithelp.py", POP + "bimod_sats_fithelp.py"], [("loss kernels", POP + "bimod_censat_fithelp.py")],
      "property-based testing: self-target, differential recomputation, additivity over bins"),
    P("P24", "Population-fit gradients are finite and correct",
      "Gradients of the population losses with respect to every unbounded parameter are finite and match the finite-difference slope of the loss along random directions, for every mass and time bin.",
      ["inputs"], "parameters, directions, masses, times, keys",
      "Tests check finiteness at the default parameters.",
      [POP + "bimod_censat_fithelp.py"], [("value_and_grad of the losses", POP + "bimod_censat_fithelp.py")],
      "property-based testing: directional finite differences"),
    P("P25", "Population ingredients follow their published functional forms",
      "Every ingredient of the population model (means of logm0, logtc, early and late index of both types, for centrals and satellites, early fraction, and fraction peaked before z=0) follows its documented sigmoid dependence on mass, time and t_peak, stays within its limits and depends on its inputs monotonically where the form does.",
      ["inputs"], "parameters of each ingredient, masses, times, t_peak",
      "Tests sample a few grids and check bounds.",
      [POP + "early_index_alpha.py", POP + "late_index_alpha.py", POP + "logtc_early.py", POP + "bimod_logm0_kernels/logm0_pop_early.py", POP + "frac_early_cens.py", POP + "ftpt0_cens.py"],
      [("sigmoid-based kernels", POP)],
      "property-based testing against an independent float64 reference of each form"),
    P("P26", "Numerical helper functions satisfy their mathematical definitions",
      "The sigmoid is monotone, finite, bounded by its limits and undone by its inverse for every argument, and the sloped line passes through its pivot with the sigmoid slope; time spacings, Cholesky and covariance/correlation conversions, and the conversion of scalars and "
      "arrays to equal length return what their documentation defines for every input, without losing precision or altering their inputs.",
      ["inputs"], "arguments over their whole ranges, including extremes, scalars and arrays",
      "Tests call them at a few values.",
      ["diffmah/utils.py"], [("_sigmoid, _inverse_sigmoid, _sig_slope", "diffmah/utils.py"), ("get_1d_arrays", "diffmah/utils.py")],
      "property-based testing: inverse relations, references, precision"),
    P("P27", "Trimmed statistics agree with the definition of trimming",
      "The trimmed mean and variance of any sample and trimming fraction are the mean and variance of the points left after discarding that fraction from each tail, whatever the order, ties, scale or offset of the data.",
      ["inputs"], "samples with ties, outliers and any trimming fraction",
      "Tests compare one Gaussian sample.",
      ["diffmah/utils.py"], [("trimmed_mean_and_variance", "diffmah/utils.py")],
      "property-based testing: differential against scipy.stats.mstats and metamorphic relations"),
    P("P28", "Target statistics measured from simulated histories are their moments",
      "The population targets measured from a sample of simulated histories are, at every requested time, the mean and scatter over halos of the log-mass and accretion rate of the histories rescaled to the target mass, linear in log time between snapshots and equal "
      "to the direct moments at the snapshots. The clean-sample mask keeps exactly the halos that stay within z_cut trimmed standard deviations of the trimmed mean at every time from the requested one on. Neither depends on the order of the halos.",
      ["inputs"], "samples of histories with growth, plateaus and dips, outliers, target masses, time tables",
      "Tests use one smooth sample.",
      [FIT + "measure_mahs.py"], [("measure_target_data, get_clean_sample_mask", FIT + "measure_mahs.py")],
      "property-based testing against direct measurements on generated histories"),
    P("P29", "Results do not depend on call history and inputs are never modified",
      "The result of any library call depends only on its arguments: any sequence of other calls made before, in any order and with any array types, leaves it unchanged, and no call modifies the arrays, tuples or defaults it is given or any global setting.",
      ["histories", "inputs"], "random sequences of library calls",
      "Each test makes isolated calls.",
      [K, FIT + "diffmah_fitter_helpers.py", CENS], [("pure functions and module-level defaults", "diffmah/")],
      "stateful property-based testing: random call sequences against fresh-call answers"),
    P("P30", "Population targets are loaded bin by bin from the measured tables",
      "Loading the tabulated population targets returns, for every mass bin and time bin present on disk, exactly the rows, sample counts and parameter samples measured for that bin, with t_peak among the parameters.",
      ["inputs", "configurations"], "generated target tables",
      "The tests read one packaged data set.",
      [POP + "load_diffmahpop_fitdata.py"], [("load_diffmahpop_targets", POP + "load_diffmahpop_fitdata.py")],
      "property-based testing: generated tables on disk read back"),
    P("P31", "Batch fitting jobs output one fit per halo of the input catalog",
      "Running a batch fitting job on a catalog, with any number of ranks, writes one row per requested halo, in catalog order, holding that halo's id (where the catalog has ids) and the same fit a direct call on its history gives, and leaves none of its temporary rank files. "
      "Collating the chunks of a sub-volume keeps every row of every column in chunk order. No other file is deleted, whatever the directories are called.",
      ["inputs", "configurations", "histories"], "generated catalogs, 1-5 ranks (also more ranks than halos), test flags, sub-volume ranges, numbers of chunks, left-overs of interrupted runs",
      "No test runs the scripts.",
      ["scripts/fitting_scripts/" + x + "_script.py" for x in ("tng_diffmah_fitter", "galacticus_diffmah_fitter", "bolshoi_planck_fitting", "hacc_discovery_sims_diffmah_fitter", "hacc_lastjourney_diffmah_fitter", "unchunk_last_journey")],
      [("rank loop and collation", "scripts/fitting_scripts/"), ("collation of chunks", "scripts/fitting_scripts/unchunk_last_journey_script.py")],
      "property-based testing: run the job on generated catalogs with a simulated communicator, differential against direct fits"),
    P("P32", "Fits of model ingredients report their own loss and never end worse",
      "Every fitter of an ingredient of the population model runs on any well-formed targets, returns parameters whose loss is the reported one, never above the loss of its starting point, "
      "keeps bounded parameters within their bounds and reports success whenever that fit is finite.",
      ["inputs"], "targets from random ingredient parameters with and without residuals, starting points, numbers of target sets",
      "One of the ten fitters is run once by the tests, on a single target.",
      [POP + "bimod_logm0_kernels/logm0_c0_early.py", POP + "bimod_logm0_sats/logm0_c1_late.py", POP + "t_peak_kernels/utp_pdf_kernels.py", POP + "t_peak_kernels/tp_pdf_cens.py"],
      [("fit_global_c0_model, fit_global_c1_model", POP + "bimod_logm0_kernels/"), ("t_peak_fitter, t_peak_cens_fitter", POP + "t_peak_kernels/")],
      "property-based testing: loss recomputed with a float64 reference, comparison with the start"),
    P("P33", "Diagnostic figures show targets and model of the bins they claim",
      "Every diagnostic figure of the population fits shows, for each mass and time it is labeled with, the target mean and scatter of the closest tabulated bin and the model's own prediction for exactly that bin (or their difference), for centrals and satellites alike, whatever bins the table holds and in whatever order; "
      "it is saved in the requested directory and the table is left unchanged.",
      ["inputs"], "random tables of target bins in any order, model parameters, all six figures",
      "No test calls the plotting functions.",
      [POP + "diagnostics/plot_bestfit_cen_mahs.py", POP + "diagnostics/plot_bestfit_sat_mahs.py"],
      [("choice of bin and prediction", POP + "diagnostics/")],
      "property-based testing: artists of the figure compared with the table and the public predictions"),
    P("P34", "Tabulated population targets hold the halos of their mass and time bin",
      "Tabulating population targets from a catalog of halo fits stores, for each bin of observed mass and time, exactly the fitted halos whose model mass at that time lies in the bin, centrals and satellites apart as flagged at that time, at most a fixed number per sub-volume; "
      "the means, scatters and peaked fractions derived from them are those of the samples (rescaled to the bin mass), for every bin with enough halos and no other, and the result can be loaded as the targets of the population fit. Only the temporary samples are deleted.",
      ["inputs", "configurations"], "generated catalogs of 1-3 sub-volumes, numbers of bins, sample sizes around the minimum",
      "No test runs the tabulation.",
      ["scripts/diffmahpop_tabulation/smdpl_diffmahpop_utils.py", "scripts/diffmahpop_tabulation/measure_smdpl_diffmahpop.py"],
      [("generate_diffmahpop_targets_for_subvol, collate_subvolume_samples", "scripts/diffmahpop_tabulation/smdpl_diffmahpop_utils.py"), ("tabulate_target_means_vars", "scripts/diffmahpop_tabulation/smdpl_diffmahpop_utils.py")],
      "property-based testing: run the tabulation on generated catalogs, compare with a float64 reference"),
]
