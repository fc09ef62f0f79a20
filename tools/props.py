#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from one table.

Run from anywhere after editing the table; both outputs are committed."""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []


def prop(id, title, statement, over, text, why, files, mechanism, state=(),
         observe=(), note="", technique=""):
    P.append(dict(id=id, title=title, statement=statement, over=over,
                  text=text, why=why, files=files, mechanism=mechanism,
                  state=state, observe=observe, note=note,
                  technique=technique))


SPEC = "echidna/core/spectra.py"

prop("C01", "Filling puts each event's weight in exactly the bin that holds it",
     "Filling a spectrum with values that all lie inside [low, high) of their "
     "dimensions adds exactly the given weight (1 by default) to the one bin "
     "whose edges enclose the values and leaves every other bin alone, also for "
     "values on a bin edge or one rounding step from a bound and after the "
     "spectrum was re-binned or cut. A fill with any value outside its dimension "
     "(including the upper bound, infinities and nan), or with missing or unknown "
     "dimension names, raises an error and changes nothing.",
     ["inputs", "histories"],
     "every binning of 1-3 dimensions, every value and weight, every fill history",
     "the unit test fills one 3-d spectrum with uniform random values; edges, "
     "bounds, odd binnings and rejected fills are never looked at bin by bin",
     [SPEC], [("Spectra.fill", SPEC)],
     [("Spectra._data", "bin contents", SPEC)], ["get_data", "sum"],
     "exact rational arithmetic decides the bin of each value; values within 1e-9 "
     "bin widths of an edge may go to either side",
     "per-fill state monitor with an exact-arithmetic bin oracle")

prop("C02", "Projections and sums are exactly the sums over the other dimensions",
     "Every projection of a spectrum onto one, two or all of its dimensions "
     "contains, bin by bin, the sum of the cells over the dimensions projected "
     "out, in the spectrum's own dimension order, so the total is the same for "
     "all of them and equals sum(). A dimension the spectrum does not have is "
     "refused, and projecting never changes the spectrum.",
     ["inputs", "configurations"],
     "every spectrum of 1-3 dimensions and every set of requested dimensions",
     "tests project one spectrum on single axes; other ranks, orders and axis "
     "lengths are unseen",
     [SPEC], [("Spectra.project / nd_project / surface / sum", SPEC)], (),
     ["project", "nd_project", "surface", "sum", "interpolate1d"],
     "projections recomputed cell by cell",
     "differential oracle over observed projections, plus input snapshots")

prop("C03", "Shrinking keeps exactly the bins between the bounds",
     "Shrinking, cutting or reducing a spectrum to a region keeps exactly the "
     "bins between the requested bounds (a bound inside a bin extends or snaps "
     "as documented), with contents and bin edges unchanged, and the reported "
     "range, bin count and array shape agree afterwards. Bounds that lie outside "
     "the spectrum (by more than rounding), bounds with no bins between them and "
     "unknown dimensions are refused leaving the spectrum as it "
     "was; cut rescales the number of decays by the surviving fraction and "
     "shrink_to_roi records efficiency and bounds of the region.",
     ["inputs", "histories", "configurations"],
     "every binning, every sequence of shrink / cut / region requests",
     "tests shrink one spectrum with one set of round bounds",
     [SPEC, "echidna/core/config.py"],
     [("Spectra.shrink / cut / shrink_to_roi", SPEC)],
     [("Spectra._rois", "regions with efficiency", SPEC)],
     ["get_data", "get_roi", "get_num_decays", "config low/high/bins"],
     "bin edges of requested bounds computed with exact fractions; bounds within "
     "5% of an edge but not on it are not generated",
     "state monitor over shrink histories with an exact edge oracle")

prop("C04", "Rebinning sums whole blocks and is refused otherwise",
     "Rebinning to a divisor of each bin count replaces each block of "
     "neighbouring bins by its sum, keeps the range of every dimension, the total "
     "and the number of decays. A target of the wrong rank or that does not "
     "divide a bin count is refused and leaves both the content and the reported "
     "binning as they were.",
     ["inputs", "histories"], "every binning and every sequence of rebin requests",
     "one test rebins one shape and one bad shape",
     [SPEC], [("Spectra.rebin", SPEC)], (), ["get_data", "config bins"],
     "block sums recomputed independently",
     "state monitor over rebin histories with a block-sum oracle")

prop("C05", "Scaling changes the normalisation only, in proportion",
     "Scaling a spectrum to a number of decays multiplies every bin by the ratio "
     "of new to current number and reports the new number afterwards, so shape, "
     "raw event count and binning are kept and scaling there and back restores "
     "the content. This holds for any sequence of scalings and fills in between.",
     ["inputs", "histories"], "every spectrum, every sequence of scale requests",
     "a single scaling of one spectrum is tested",
     [SPEC], [("Spectra.scale", SPEC)], [("Spectra._num_decays", "normalisation",
                                         SPEC)], ["get_data", "get_num_decays"],
     "relative tolerance 1e-9",
     "state monitor over scaling histories with a ratio oracle")

prop("C06", "Adding spectra adds cells of matching dimensions, or refuses",
     "Adding a spectrum adds its contents cell by cell to the cells with the same "
     "coordinates in each dimension, whatever the order of the dimensions in the "
     "two spectra, and adds raw events and number of decays; the added spectrum "
     "is unchanged. Spectra whose dimensions or binnings do not agree are refused "
     "and both stay as they were.",
     ["inputs", "configurations"],
     "every pair of spectra of 1-3 dimensions, including an added spectrum that "
     "is the spectrum itself",
     "tests add spectra with identical configs, plus simple mismatches",
     [SPEC], [("Spectra.add", SPEC)], (), ["get_data", "sum", "get_num_decays"],
     "sum recomputed through the names of dimensions",
     "state monitor with a coordinate-matching addition oracle")

prop("C07", "Bin geometry of a spectrum dimension is one consistent story",
     "For every axis, width, bin boundaries, bin centres, the bin holding a value "
     "and the rounding of a value to the nearest edge all agree with low, high "
     "and the number of bins, before and after the axis is changed. A value "
     "outside the axis has no bin.",
     ["inputs", "configurations"], "every axis and every value",
     "tests look at a handful of values on one axis",
     ["echidna/core/parameter.py", "echidna/core/config.py"],
     [("SpectraParameter geometry methods", "echidna/core/parameter.py"),
      ("SpectraConfig lookups", "echidna/core/config.py")], (),
     ["get_width", "get_bin", "round", "get_bin_centres", "get_bin_boundaries"],
     "values within rounding of an edge may be given either neighbour",
     "differential oracle over observed geometry (exact fractions)")

prop("C08", "Any history of operations leaves spectra in the computed state",
     "After any interleaving of fills, scalings, additions, rebinnings, shrinks, "
     "cuts, region cuts and copies over a set of spectra, each spectrum's content, "
     "binning, number of decays and regions are those obtained by applying the "
     "operations to plain arrays in the same order. Spectra that are copies of "
     "one another or made from one configuration "
     "do not influence each other, and refused operations leave no "
     "trace.",
     ["histories"], "every history over every pool of spectra",
     "each unit test exercises one operation on a fresh spectrum",
     [SPEC, "echidna/core/config.py"], [("Spectra operations", SPEC)],
     [("Spectra._data, _config, _num_decays, _rois", "spectrum state", SPEC)],
     ["get_data", "config", "get_num_decays", "get_roi"],
     "reference model on plain numpy arrays",
     "model-based trace monitor over operation histories")

SMEAR = "echidna/core/smear.py"
PAR = "echidna/core/parameter.py"
CFG = "echidna/core/config.py"
STAT = "echidna/fit/test_statistic.py"

prop("C09", "Weighted smearing spreads each bin by its resolution function",
     "Weighted smearing redistributes every bin along the smeared dimension with "
     "the normalised resolution function of that bin's centre (gaussian, or "
     "poisson where chosen; light yield, fractional resolution or constant "
     "radial), evaluated at bin centres over the configured number of sigma. "
     "Total, other dimensions, number of decays and binning are kept, the result "
     "is linear in the contents, and changing the resolution in between has the "
     "effect of a fresh smearer.",
     ["inputs", "configurations", "histories"],
     "every smearer, resolution, axis, rank and content",
     "tests smear one gaussian peak and compare fitted mean and sigma",
     [SMEAR], [("EnergySmearLY / EnergySmearRes / RadialSmear.weighted_smear",
                SMEAR)], (), ["get_data", "get_num_decays", "get_resolution"],
     "either neighbour is accepted for a window edge within 1e-6 bins of a tie",
     "one-hot kernel measurement against the resolution formula")

prop("C10", "Random smearing moves whole events by the resolution",
     "Random smearing moves the (whole) events of each bin independently by the "
     "resolution of that bin: no event is created or split, events only leave at "
     "the ends of the axis, other dimensions are untouched, and the destinations "
     "follow the gaussian or poisson distribution of the resolution.",
     ["inputs", "configurations"],
     "every smearer, resolution, axis, rank, content and random outcome",
     "tests check the mean and sigma of one peak",
     [SMEAR], [("random_smear", SMEAR)], (), ["get_data", "get_num_decays"],
     "distributions judged at 7 sigma + 5 events of 3000; poisson cases with "
     "photon numbers on a bin edge are left out of the distribution",
     "event accounting monitor and distribution oracle")

prop("C11", "Shifting moves contents along one dimension by the given amount",
     "Shifting by a whole number of bins moves every cell exactly that many bins; "
     "what leaves the axis is lost and what enters is empty. Any other shift "
     "takes each bin from the interpolated old contents at its shifted position, "
     "never negative, and keeps the total and the make-up of each slice in the "
     "other dimensions between those of the two old slices it falls between. "
     "Number of decays and binning are kept.",
     ["inputs", "configurations"],
     "every shift, axis, rank and content",
     "tests shift one gaussian by two values",
     ["echidna/core/shift.py"],
     [("Shift.shift / shift_by_bin", "echidna/core/shift.py")], (),
     ["get_data", "get_num_decays"],
     "shifts by half bins, where rounding decides, are not asked for",
     "exact oracle for whole-bin shifts, spline oracle for the others")

prop("C12", "Scaling a dimension stretches contents by the given factor",
     "Scaling a dimension by a factor takes each bin from the interpolated old "
     "contents at its position divided by the factor, never negative, empty where "
     "that lies outside the axis, keeps the total, and mixes the slices of the "
     "other dimensions from the two old neighbours only; a factor of one changes "
     "nothing (within interpolation), and factors that are not positive are "
     "refused.",
     ["inputs", "configurations"],
     "every factor, axis, rank and content",
     "tests scale one gaussian by one value",
     ["echidna/core/scale.py"], [("Scale.scale", "echidna/core/scale.py")], (),
     ["get_data", "get_num_decays"],
     "factors that put a bin centre within 1e-6 bins of an edge or centre are "
     "not asked for",
     "spline oracle over observed scalings")

prop("C13", "Convolutions give a new spectrum and leave their input alone",
     "Smearing, shifting and scaling, called directly or through a fit parameter, "
     "return a new spectrum that keeps the identity (background name, style, bipo "
     "flag), do not change their input in any respect, and share nothing with it: "
     "whatever is done to one afterwards, the other keeps contents, binning, "
     "regions and normalisation. Deterministic ones give the same result again, "
     "and a fit parameter does what the convolution it stands for does with its "
     "current value.",
     ["histories", "inputs"],
     "every convolution and every later history of both spectra",
     "tests never look at the input, or the result, again after other operations",
     [SMEAR, "echidna/core/shift.py", "echidna/core/scale.py", PAR],
     [("Smear / Shift / Scale and FitParameter.apply_to", PAR)],
     [("Spectra._config, _rois", "shared state", SPEC)],
     ["get_data", "config", "get_roi"], "",
     "aliasing monitor: snapshots of both spectra around later operations")

prop("C14", "Test statistics equal their definition for every input",
     "For any observed and expected counts, including empty bins, each statistic "
     "equals its textbook sum over bins, is not negative where defined so, adds "
     "up over any split of the bins, does not depend on their order, and per bin "
     "gives the summand of every bin. Counts given as integers mean the same, "
     "arrays given are not changed, and arrays of other rank or unequal length "
     "are refused.",
     ["inputs"], "every pair of arrays",
     "tests compute a few values for one pair of arrays without empty bins",
     [STAT], [("TestStatistic.compute_statistic", STAT)], (),
     ["compute_statistic"],
     "seven known findings, see known_findings.txt: the file matches the "
     "test-file pattern and may not be repaired here",
     "per-bin reference formulas over observed statistics")

prop("C15", "Penalty terms are the squared pull of their statistic",
     "The penalty of a parameter is the squared deviation from its prior in units "
     "of sigma (half of that for the log-likelihood statistic), zero at the prior, "
     "symmetric about it and the same per bin or in total.",
     ["inputs"], "every current value, prior, sigma and statistic",
     "one value is tested",
     [STAT], [("TestStatistic.get_penalty_term", STAT)], (),
     ["get_penalty_term"], "",
     "reference formula over observed penalties")

prop("C16", "Fit parameters scan the values their settings describe",
     "A fit parameter has as many values as bins, increasing from low to high, "
     "equally spaced on its scale (linear, logarithmic, or logarithmic deviations "
     "from the prior, which is then among them). Look-ups of value and index are "
     "inverse to each other, changing settings is like making the parameter anew, "
     "results set are results read, unset ones are refused, and the dictionary of "
     "a parameter makes an equal one.",
     ["inputs", "histories", "configurations"],
     "every combination of class, scale, bounds, prior and bin count, and every "
     "sequence of changes",
     "tests build one parameter of each class on one scale",
     [PAR], [("FitParameter.get_values / set_par / to_dict", PAR)],
     [("FitParameter._values", "cached grid", PAR)],
     ["get_values", "get_value_at", "get_value_index", "get_bin", "to_dict"],
     "relative tolerance 1e-9",
     "scale oracle over observed grids, state monitor over changes")

prop("C17", "Configurations survive dictionaries and files unchanged",
     "Dumping a configuration (spectrum, spectral fit or global fit, before or "
     "after a fit) to a dictionary or yaml files and loading it gives one with "
     "the same parameters, order, settings, grouping and (unless basic) results, "
     "under the documented default, blank or given file and config names; doing "
     "so twice changes nothing more. Look-ups by name and index agree, collecting "
     "configurations keeps every parameter under its spectrum's name, and "
     "malformed input is refused.",
     ["inputs", "configurations"],
     "every configuration of every class, every way of naming files",
     "tests load two fixed examples",
     [CFG], [("Config.load / dump / load_from_file / dump_to_file", CFG),
             ("GlobalFitConfig.add_config", CFG)], (),
     ["get_pars", "get_shape", "get_index"],
     "global parameters listed dimension by dimension, then spectral ones",
     "round-trip monitor over dictionaries and files")

prop("C18", "Each set of values names its own pre-convolved file",
     "The directory and file name of a pre-convolved spectrum hold each "
     "systematic's dimension, kind and value once, in order, so different values "
     "give different files, equal values the same file, and walking over a name "
     "of other values replaces them. A rate parameter sets the number of decays "
     "to its value; a parameter without a value is refused in both cases.",
     ["inputs", "histories"], "every chain of systematics and values",
     "no test covers file names of systematics",
     [PAR], [("FitParameter.get_pre_convolved / apply_to", PAR)], (),
     ["get_pre_convolved", "apply_to"],
     "values that print in at most 12 digits; base names without segments that "
     "end like a value",
     "injectivity and model monitor over chains of names")

FIT = "echidna/fit/fit.py"
MINI = "echidna/fit/minimise.py"
FRES = "echidna/fit/fit_results.py"
LIM = "echidna/limit/limit.py"
STORE = "echidna/output/store.py"

prop("C19", "Grid search visits every grid point once and reports the smallest",
     "Minimising over the grid of a fit configuration calls the objective "
     "exactly once for every combination of parameter values and stores its "
     "result and penalties at that combination's own place. The minimum reported "
     "is the smallest stored total (statistics plus penalties, summed over bins "
     "where per bin; nan points aside), and the best fit, penalty and sigma of "
     "each parameter are those of that point, with either minimum finder, with "
     "repeated values and after resets, each of which numbers the name.",
     ["inputs", "configurations", "histories"],
     "every grid of 1 or more parameters and every objective",
     "tests minimise one smooth function on one grid",
     [MINI, FRES], [("GridSearch.minimise / find_minimum", MINI)],
     [("GridSearch._stats / _penalty_terms", "the grid", FRES)],
     ["minimise", "get_minimum", "get_resource"],
     "ties may be broken either way",
     "recording objective plus a brute-force oracle over the observed grid")

prop("C20", "The stored grid of a fit reads back as it was written",
     "The accessors of a grid search (raw statistics, penalties and totals, "
     "whole, at an index or at the value of a parameter) return what was set at "
     "those grid points, total = statistics + penalties, and a projection onto "
     "any fit or spectral parameters sums over all the others: totals where "
     "only fit parameters are asked for, statistics otherwise.",
     ["inputs", "configurations"], "every grid and every choice of parameters",
     "tests cover one two-parameter grid",
     [FRES], [("GridSearch.get_raw_stats / get_stats / nd_project_stat_test",
               FRES)], (),
     ["get_raw_stats", "get_penalty_terms", "get_stats",
      "nd_project_stat_test"],
     "", "model monitor over accessors of a filled grid")

prop("C21", "A fit compares data with the sum of correctly scaled backgrounds",
     "At every grid point the statistic a fit stores is that of the data, inside "
     "its region, against the fixed background plus each floating background (and "
     "signal) scaled to its rate and convolved with the global parameters of that "
     "point, in total, per bin or as a single bin; penalties are those of the "
     "point's parameters. The same holds for spectra read from pre-made files, "
     "finer-binned backgrounds and zero rates, inputs are not changed, and "
     "unusable set-ups are refused.",
     ["inputs", "configurations"],
     "every data, background and signal spectra, every set of parameters",
     "no test runs a fit",
     [FIT], [("Fit.fit / _funct / apply_global_pars", FIT)],
     [("Fit._fixed_pars / _floating_pars", "prepared spectra", FIT)],
     ["fit", "get_fit_results", "get_statistic"],
     "up to 3 floats and 2 global parameters; per bin and single bin are not "
     "combined",
     "independent re-computation of every observed grid point from plain arrays")

prop("C22", "A fit result depends only on its inputs, not on what ran before",
     "Repeating a fit, setting, scaling and removing its signal, exchanging "
     "its signal, data, floating backgrounds, statistic or region, or building "
     "a new fit from the same spectra gives the very result that a first fit of those inputs gives.",
     ["histories"], "every sequence of operations on a fit",
     "no test runs a fit, let alone two",
     [FIT], [("Fit.set_signal / remove_signal / set_floating_backgrounds", FIT)],
     [("Fit._global_dict", "convolved spectra per set of global values", FIT)],
     ["fit"], "",
     "history monitor: every fit is recomputed by an independent model")

prop("C23", "Fixed backgrounds add up at their priors whatever the order",
     "Making the fixed background of several spectra, or appending spectra to it, "
     "gives the sum of each spectrum scaled to its prior and shrunk to the region "
     "of the data, in any order and without changing the spectra given.",
     ["inputs", "histories"], "every set and order of backgrounds",
     "no test makes a fixed background",
     [FIT], [("Fit.make_fixed_background / append_fixed_background", FIT)], (),
     ["make_fixed_background", "append_fixed_background", "get_fixed_background"],
     "", "sum oracle plus input snapshots")

prop("C24", "The limit is the first signal scale that exceeds the threshold",
     "The limit is the first scale, at or after the best fit, whose total "
     "statistic relative to the minimum (given or fitted) exceeds the threshold; "
     "if none does an error says so. The statistics of every scale are those of "
     "a fit with that signal, the summary describes the scale of the limit, "
     "and requested results and spectra files are written whether or not a limit "
     "is found. Calling it again gives the same limit.",
     ["inputs", "configurations", "histories"],
     "every fit, signal, set of scales and threshold",
     "no test sets a limit",
     [LIM], [("Limit.get_limit / get_array_limit / get_statistics", LIM)], (),
     ["get_limit", "get_array_limit", "get_statistics", "LimitResults"],
     "cases whose minimum is decided by rounding are left out",
     "independent limit oracle over every observed statistic")

prop("C25", "Limit results return what was stored for each signal scale",
     "Best fits, penalties and statistics set for a signal scale are read back "
     "for that scale, in total or per bin, full statistics are their sum, and the "
     "scales and parameters reported are those of the configurations.",
     ["inputs", "histories"], "every configuration and sequence of entries",
     "no test touches limit results",
     [FRES], [("LimitResults.set_* / get_*", FRES)], (),
     ["get_full_stats", "get_limit_stat", "get_best_fits"],
     "", "model monitor over entries")

prop("C26", "A stored spectrum comes back as it was saved",
     "Loading a spectrum that was dumped to a file gives one with the same "
     "contents, axes, regions, name, decays, events, style, background name and "
     "fit configuration including results; also for several spectra in one file, "
     "and for the former layout. Overwriting needs permission and "
     "otherwise leaves the file as it was; the spectrum dumped is not changed.",
     ["inputs", "histories"], "every spectrum and sequence of dumps",
     "the test stores one spectrum without configurations or regions",
     [STORE], [("dump / load / load_old", STORE)], (),
     ["dump", "load", "load_old"],
     "h5py is replaced by the disk-backed stand-in in lib/fakes.py",
     "round-trip monitor and file-history model")

prop("C27", "Stored fit and limit results come back as they were saved",
     "Fit results, limit results and objects of arrays that are dumped and loaded "
     "have the same configurations, statistics, penalties, best fits, names and "
     "settings (total or per bin), including results without parameters and with "
     "some or all fits kept.",
     ["inputs"], "every result object",
     "no test stores results",
     [STORE, FRES],
     [("dump_fit_results / load_fit_results / dump_limit_results / "
       "load_limit_results / dump_ndarray / load_ndarray", STORE)], (),
     ["dump_fit_results", "load_fit_results", "dump_limit_results",
      "load_limit_results", "dump_ndarray", "load_ndarray"],
     "h5py is replaced by the disk-backed stand-in in lib/fakes.py",
     "round-trip monitor")

EXT = "echidna/core/dsextract.py"
FILL = "echidna/core/fill_spectrum.py"
DEC = "echidna/calc/decay.py"
UTIL = "echidna/utilities.py"

prop("C28", "A spectrum filled from a root file holds exactly the selected events",
     "Filling from a root file puts every event that passes the cuts (a valid fit "
     "with the quantity needed, the fiducial radius, the bipo cut that drops events "
     "of several triggers) and lies in range into the bin of its own quantities: "
     "energies, radii, (r/R)^3 and its copy signed by z, taken from "
     "mc, truth or reconstruction according to the dimension's name. With only mc "
     "or truth dimensions an entry counts once, with reconstructed dimensions "
     "every accepted trigger counts. The decays are the number of entries read, "
     "accumulated when a spectrum is appended to.",
     ["inputs", "configurations"],
     "every root file, configuration of dimensions and set of cuts",
     "the extractors are tested on single hand-made entries at most; cuts, missing "
     "fits, several triggers and appending are not",
     [FILL, EXT], [("fill_from_root", FILL), ("*Extract*.get_valid_root", EXT)], (),
     ["fill_from_root", "get_valid_root", "get_value_root"],
     "ROOT and rat are replaced by the stand-ins in lib/fakes.py",
     "event-by-event reference selection compared with the observed spectrum")

prop("C29", "A spectrum filled from an ntuple holds exactly the selected events",
     "Filling from an ntuple puts every row that passes the cuts (a valid fit, the "
     "fiducial radius, the bipo cut that drops events of several triggers) and lies "
     "in range into the bin of its own quantities, taken from mc, truth or "
     "reconstruction according to the dimension's name. The decays are the number "
     "of generated events read, accumulated when a spectrum is appended to.",
     ["inputs", "configurations"],
     "every ntuple, configuration of dimensions and set of cuts",
     "no test fills from an ntuple",
     [FILL, EXT], [("fill_from_ntuple", FILL), ("*Extract*.get_valid_ntuple", EXT)],
     (), ["fill_from_ntuple", "get_valid_ntuple", "get_value_ntuple"],
     "ROOT is replaced by the stand-in in lib/fakes.py",
     "row-by-row reference selection compared with the observed spectrum")

prop("C30", "Conversions between half-life, counts, activity and mass agree",
     "Numbers of atoms follow from loading, abundance, scintillator mass (by radius "
     "or given); half-life, activity, counts and effective mass convert into each "
     "other by the decay law for the isotope, detector and livetime given, the "
     "conversions there and back undo each other, defaults are used exactly when "
     "an argument is not given, and unphysical values are refused.",
     ["inputs", "configurations"],
     "every isotope, detector, livetime and count, integer or float",
     "the test compares a few values of one isotope with literature to 10%",
     [DEC], [("DBIsotope", DEC)], (),
     ["get_n_atoms", "half_life_to_counts", "counts_to_half_life",
      "eff_mass_to_counts", "counts_to_activity"],
     "", "independent decay-law model over observed conversions")

prop("C32", "Utilities: array errors, logging and ordered yaml are exact",
     "Errors of an array follow from the relative shift on a linear, natural or "
     "decimal log scale for arrays of every shape, which stay untouched; a log "
     "record is formatted by the formatter of its nearest named ancestor; starting "
     "the logging creates one log file in the log directory, named after the "
     "script, which gets every message while the terminal gets those of the level "
     "chosen; mappings "
     "dumped to yaml and loaded again keep every value and the order of keys; "
     "random identifiers have the requested size and characters; physics tests "
     "pass exactly within their tolerance.",
     ["inputs"], "every array, logger hierarchy, nested mapping and tolerance",
     "none of them is tested",
     [UTIL, "echidna/util/yaml_loader.py", "echidna/util/strings.py"],
     [("get_array_errors / DispatchingFormatter / start_logging", UTIL),
      ("ordered_load / ordered_dump", "echidna/util/yaml_loader.py")], (),
     ["get_array_errors", "start_logging", "ordered_load", "ordered_dump"],
     "", "reference models and round trips")

SCRIPTS = "echidna/scripts"

prop("C31", "The command line tools do what they say to the files they are given",
     "Each script (rebin, shrink, scale, shift, smear, combine, extraction from "
     "root files, ntuples and lists of them, limits of the Majoron analysis, the "
     "tutorial) saves exactly the "
     "spectrum the corresponding library operations give, under the documented "
     "name and in the documented or given directory, however the path is spelled, "
     "leaves its inputs as they were and, given arguments that make no sense, ends "
     "with an error without writing anything. The limits reported are those of "
     "the signals and backgrounds configured.",
     ["inputs", "configurations"],
     "every input file, spelling of its path and combination of options",
     "no test runs a script",
     [SCRIPTS + "/" + s for s in (
         "rebin.py", "dump_shrink.py", "dump_scaled.py", "dump_shifted.py",
         "dump_smeared.py", "dump_smeared_energy.py", "combine_hdf5.py",
         "dump_spectra_root.py", "dump_spectra_ntuple.py",
         "multi_ntuple_spectrum.py", "klz_majoron_limits.py",
         "plot_summary.py", "tutorials/getting_started.py")],
     [("main of each script", SCRIPTS)], (),
     ["files written", "exit code", "log messages"],
     "h5py, ROOT and rat are replaced by the stand-ins in lib/fakes.py",
     "scripts run in scratch directories, files compared with a model")

prop("C33", "Plots show exactly the numbers they are made from",
     "What is drawn along a dimension, or two, is the contents of the spectra "
     "summed over the others, one value per bin at the bin's edges, each under its "
     "label and in its colour, with sums of all spectra and of the backgrounds; "
     "spectra with another axis are refused; graphs and maps of fits and limits "
     "show each stored statistic, penalty or best fit at its parameter values, "
     "also per bin; curves of chi squared are drawn against counts, effective mass or "
     "inverse half life, and scans of a systematic (average chi squared, offset from "
     "the scan without it, penalty less chi squared) with every value at its counts "
     "and value of the systematic; an axis carries the name of the dimension, parameter "
     "or quantity it shows; nothing plotted is changed by plotting.",
     ["inputs", "configurations"],
     "every spectrum, family of spectra, order of dimensions or parameters and "
     "set of stored results",
     "no test plots anything",
     ["echidna/output/plot.py", "echidna/output/plot_root.py",
      "echidna/output/plot_chi_squared.py",
      "echidna/output/plot_chi_squared_root.py"],
     [("plot_projection / plot_surface / spectral_plot",
       "echidna/output/plot.py, plot_root.py"),
      ("plot_*_vs_*, plot_per_bin", "echidna/output/plot_root.py"),
      ("chi_squared_vs_signal, chi_squared_map, turn_on, push_pull",
       "echidna/output/plot_chi_squared.py")], (),
     ["calls made to matplotlib and ROOT"],
     "matplotlib and ROOT are replaced by the recording stand-ins in lib/fakes.py",
     "recorded drawing calls compared with sums over the contents")

#: MORE

NOT_APPLICABLE = []


def main():
    with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
        for p in P:
            assert len(p["title"]) <= 80, p["title"]
            f.write(json.dumps({
                "id": p["id"], "title": p["title"],
                "statement": p["statement"],
                "quantifier": {"over": p["over"], "text": p["text"]},
                "why_tests_cant": p["why"],
                "anchors": {
                    "files": p["files"],
                    "state": [dict(zip(("name", "meaning", "where"), s))
                              for s in p["state"]],
                    "mechanism": [dict(zip(("name", "where"), m))
                                  for m in p["mechanism"]],
                    "observe_at": list(p["observe"]),
                    "hook_needed": None}}) + "\n")
    na = [n for n, _ in NOT_APPLICABLE]
    man = {
        "version": 1,
        "setup_cmd": "python3-vt tools/setup.py",
        "hooks": {"guard": "ECHIDNA_VERIF", "enable":
                  "no hooks were needed: the monitors observe the public API "
                  "and wrap objects from /verif", "source_commits": []},
        "checks": [{
            "property": p["id"],
            "quick_cmd": "python3-vt run.py %s" % p["id"],
            "thorough_cmd": "python3-vt run.py %s --thorough" % p["id"],
            "evidence_file": "evidence/%s.json" % p["id"],
            "technique": "runtime monitoring: " + p["technique"],
            "level": "exploration",
            "level_note": "Held on every generated execution (seeded; counts in "
                          "the evidence), not proved beyond them. Trusts the "
                          "py2-semantics loader and stand-in libraries in lib/. "
                          + (p["note"] + "." if p["note"] else ""),
        } for p in P if p["id"] not in na],
        "not_applicable": [{"property": n, "reason": r}
                           for n, r in NOT_APPLICABLE],
    }
    with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
        json.dump(man, f, indent=1)
        f.write("\n")


if __name__ == "__main__":
    main()
