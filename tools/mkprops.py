#!/usr/bin/env python3
"""Writes properties.jsonl (the texts are kept here, in a readable form)."""
import json
import os

S = "src/mcsas3/"
P = []


def prop(id, title, statement, over, text, why, files, mechanism, observe=()):
    P.append(
        dict(
            id=id, title=title, statement=statement,
            quantifier=dict(over=over, text=text), why_tests_cant=why,
            anchors=dict(
                files=[S + f for f in files],
                mechanism=[dict(name=n, where=S + w) for n, w in mechanism],
                observe_at=list(observe),
            ),
        )
    )


NOTEST = "The stable tests only load, clip, rebin and restore data; "

prop("C01", "Only improving moves change the fit, and they change all of it together",
     "A trial move is kept exactly when its goodness of fit is smaller than the current one. A kept move replaces the "
     "parameters, the volume and the intensity of the contribution under test, and the current scaling, background and "
     "goodness of fit, all with those of that same trial. A rejected move leaves every one of them as it was.",
     ["inputs", "histories"], "every measurement, model, random draw and sequence of earlier moves",
     NOTEST + "no stable test performs a Monte Carlo step, and a run shows only draws that happened.",
     ["mc_core.py"], [("accept/reject step", "mc_core.py:McCore.iterate, reEvaluate, accept")],
     ["optimisation state after one step"])
prop("C02", "The optimisation steps through all contributions and stops at its limits",
     "The optimisation continues as long as, and only as long as, the accepted moves are below their maximum, the steps are below "
     "their maximum, and the goodness of fit is above the convergence criterion. Every trial move counts as exactly one step and every kept move as "
     "exactly one accepted move. The contribution under test is the step count modulo the number of contributions, so that they take turns.",
     ["inputs", "histories"], "every setting of the limits and every history of accepted and rejected moves",
     NOTEST + "stopping conditions depend on the history of a random run.",
     ["mc_core.py"], [("loop condition", "mc_core.py:McCore.optimize"), ("step counter", "mc_core.py:McCore.iterate")])
prop("C03", "The acceptance history is exact, and restoring leaves it unchanged",
     "A new optimisation starts with an acceptance history holding step 0 and the initial goodness of fit, and every accepted move adds one entry: the step at which it "
     "was accepted and the goodness of fit it reached. Rejected moves add nothing. Restoring a stored result leaves the history as it was stored.",
     ["histories", "inputs"], "every history of accepted and rejected moves, restored any number of times",
     NOTEST + "the history is never looked at by a test.",
     ["mc_core.py", "mc_opt.py"], [("history lists", "mc_core.py:McCore.__init__, accept; mc_opt.py:McOpt.load")])
prop("C04", "The model intensity is the sum over all contributions",
     "The initial model intensity is the plain sum, over every contribution exactly once, of the intensity computed from that contribution's own parameters. "
     "Each contribution's volume is kept under its own number. The intensity of one contribution is the "
     "squared form factor of the model at its parameters together with all static parameters, divided by the volume of the same evaluation.",
     ["inputs"], "every number of contributions, parameter set, static parameters and supported kind of model",
     NOTEST + "no test computes a model intensity.",
     ["mc_core.py", "mc_model.py"], [("summation", "mc_core.py:McCore.initModelI"), ("contribution", "mc_model.py:McModel.calcModelIV")])
prop("C05", "Random parameter values come from the limits of their own parameter",
     "Every random value of a fit parameter is drawn between the lower and upper limit of that same parameter: uniformly, or uniformly "
     "in its logarithm when logarithmic picking is requested. Every parameter of every contribution, and every parameter of every trial, gets a draw of its own. "
     "Logarithmic picking from limits that are not positive is refused.",
     ["inputs"], "every set of parameters and limits, every seed",
     NOTEST + "no test draws parameters.",
     ["mc_model.py"], [("random picks", "mc_model.py:McModel.generateRandomParameterValues, log_transform_generator, resetParameterSet, pick")])
prop("C06", "The seed decides every random choice",
     "All random numbers of an optimisation come from generators that are created from the configured seed. "
     "Given the seed and the inputs there is no other source of randomness (global generators, time, process ids, hash order) in the results.",
     ["inputs", "configurations"], "every configuration with a seed",
     NOTEST + "reproducibility of a run is not tested, and a few equal runs would not show every source.",
     ["mc_model.py", "mc_hat.py"], [("generator", "mc_model.py:McModel.__init__")])
prop("C07", "Repetitions are independent of each other",
     "Every repetition starts from a newly drawn parameter set, zeroed counters and a starting scaling and background that "
     "does not come from another repetition. Repetitions that run in worker processes with the same configured seed use different random sequences.",
     ["schedules", "configurations"], "every number of repetitions and processes, every seed",
     NOTEST + "no stable test runs repetitions.",
     ["mc_hat.py", "mc_model.py", "mc_core.py"], [("repetition set-up", "mc_hat.py:McHat.runOnce")])
prop("C08", "Goodness of fit is the reduced chi-squared at optimal scaling and background",
     "The goodness of fit is the minimum, over scaling and background within their bounds, of the sum of squared deviations between the data and the scaled model plus background, each divided by the "
     "data uncertainty, divided by the number of datapoints. Explicit bounds are used as given; by default the scaling is not negative and the background is within plus or minus the mean of the data; "
     "a given starting value is used, otherwise one within the bounds is derived from the data. "
     "Data with NaN or infinite values, empty data and data of unequal shapes are refused.",
     ["inputs"], "every data, model intensity, starting value and bounds",
     NOTEST + "the fit of scaling and background is not tested.",
     ["osb.py", "mc_core.py"], [("fit", "osb.py:optimizeScalingAndBackground"), ("use", "mc_core.py:McCore.evaluate")])
prop("C09", "A stored entry reads back as what was stored last",
     "After an entry has been stored, reading it gives the last stored value whatever the entry held before: a different value, type, shape or nothing. Nested dictionaries and tables "
     "are stored entry by entry under their own names and text comes back as text. An entry stored as nothing is absent afterwards, and reading an absent entry with a default gives the default.",
     ["histories", "inputs"], "every history of stores to a result file, every supported type of value",
     NOTEST + "storing over an existing entry of other type or shape is not tested.",
     ["mc_hdf.py"], [("store", "mc_hdf.py:storeKV, storeKVPairs"), ("load", "mc_hdf.py:loadKV, loadKVPairs")])
prop("C10", "Storing never damages other content, reading never writes",
     "Storing an entry changes nothing in the file but this entry: an existing file is opened for update, never truncated, and nothing "
     "but the entry itself is removed. Every access that only reads opens its file read-only.",
     ["inputs", "histories"], "every file content, including measurement files that results are added to",
     NOTEST + "tests use files of their own only.",
     ["mc_hdf.py", "mc_data.py", "mc_analysis.py"], [("file modes", "mc_hdf.py; mc_data.py:from_nexus; mc_analysis.py:getNRep")])
prop("C11", "Results with different result indices never mix",
     "Everything that an optimisation, data set or analysis stores or loads for a result index lies in the branch of the file "
     "for exactly this index. The index that the user gave reaches every part, for storing as for loading, from the command line too.",
     ["inputs", "histories"], "every result index, every combination of results in one file",
     NOTEST + "tests use the default index.",
     ["mc_hdf.py", "mc_hat.py", "mc_core.py", "mc_opt.py", "mc_model.py", "mc_data.py", "mc_analysis.py", "mc_model_histogrammer.py", "cli_tools.py"],
     [("entry point", "mc_hdf.py:ResultIndex")])
prop("C12", "Worker processes write the result file one at a time",
     "Whenever repetitions run in several processes, every write to the result file happens while the process holds one lock shared by all of them. "
     "The lock is released on every way out, errors included, so that no process waits forever.",
     ["schedules", "fault_sequences"], "every interleaving of worker processes, every error while storing",
     "Interleavings of processes are not controlled by any test, and no stable test runs several processes.",
     ["mc_hat.py"], [("store lock", "mc_hat.py:initStoreLock, McHat.run, McHat.runOnce")])
prop("C13", "Restored 1D data equals the stored data",
     "One-dimensional data restored from a result file has the same raw data and all the same treatment settings (range, omitted ranges, number of bins, minimum uncertainty, Q offset, choice of "
     "data to fit) as the stored one. Hence it gives the same data to fit.",
     ["inputs", "configurations"], "every data and every combination of treatment settings",
     NOTEST + "restoring is tested for the presence of data and a few settings only.",
     ["mc_data.py", "mc_data_1d.py"], [("store and load", "mc_data.py:McData.store, load; mc_data_1d.py:McData1D.__init__")])
prop("C14", "A restored repetition is the stored one",
     "Restoring a repetition gives the parameter set, volumes, limits, static parameters, model name, seed, fit state and limits of exactly that repetition, each "
     "from the place where it was stored. Restoring neither draws new parameters nor changes them.",
     ["inputs", "histories"], "every repetition number and every model configuration",
     NOTEST + "no stable test restores an optimisation.",
     ["mc_model.py", "mc_opt.py", "mc_core.py"], [("model", "mc_model.py:McModel.store, load"), ("optimisation", "mc_opt.py:McOpt.store, load")])
prop("C15", "1D data is limited to the requested range, before anything else uses it",
     "Of one-dimensional data exactly the complete datapoints with Q from the lower limit (included) to the upper limit (excluded) remain, minus those within any omitted "
     "range, whose lower end is included and upper end excluded too. This happens before rebinning, for every way of loading. A range that leaves no datapoint is refused.",
     ["inputs"], "every data, range and set of omitted ranges",
     NOTEST + "a few ranges of one file are tested.",
     ["mc_data.py", "mc_data_1d.py"], [("range", "mc_data_1d.py:clip, omit"), ("order", "mc_data.py:prepare")])
prop("C16", "Rebinning averages each datapoint in exactly one logarithmic bin",
     "Rebinning divides the Q range of the limited data into the requested number of logarithmic, adjacent bins so that every datapoint lies in exactly one of them. A bin has the mean Q and mean "
     "intensity of its datapoints, and empty bins are left out. Its uncertainty is the largest of the standard error, the propagated uncertainties and the minimum relative uncertainty times the intensity.",
     ["inputs"], "every data and number of bins",
     NOTEST + "the number of bins is tested on a few files, not the values.",
     ["mc_data_1d.py"], [("rebinning", "mc_data_1d.py:McData1D.reBin")])
prop("C17", "2D data to fit is exactly the valid pixels within the limits",
     "Of two-dimensional data exactly those pixels are fitted that are not masked, have finite intensity and non-zero uncertainty, and lie within the limits on Q and both its components. "
     "Intensity, uncertainty and both Q components are those of the same pixels in the same order, and a model intensity is put back at exactly these pixels, all others left undefined.",
     ["inputs"], "every image, mask and limits",
     NOTEST + "one image is loaded, pixel selection is not verified.",
     ["mc_data_2d.py"], [("selection", "mc_data_2d.py:McData2D.clip, reconstruct2D")])
prop("C18", "Q, intensity and uncertainty to fit come from one selected stage",
     "The data to fit takes Q, intensity and uncertainty from one and the same stage of the data, which is the one that was chosen (raw, limited or rebinned; for images limited or rebinned). "
     "The Q offset is added once to Q, in the matching direction for two-dimensional data, and to nothing else.",
     ["inputs", "configurations"], "every choice of stage and offset",
     NOTEST + "one stage is tested, without offset.",
     ["mc_data_1d.py", "mc_data_2d.py", "mc_data.py"], [("link", "mc_data_1d.py:linkMeasData; mc_data_2d.py:linkMeasData")])
prop("C19", "Treatment and optimisation do not modify what they were given",
     "Loading, limiting, omitting and rebinning leave the raw data, the table and the settings (data range, ranges to omit, reading arguments, paths) given by the caller unchanged. "
     "An optimisation leaves the data to fit, the fit parameter limits and the static parameters given by the caller unchanged, and an analysis leaves the data to fit unchanged, "
     "so that they can be used again with the same outcome.",
     ["inputs", "histories"], "every data and configuration, used any number of times",
     NOTEST + "inputs are not compared with their state before.",
     ["mc_data_1d.py", "mc_data_2d.py", "mc_hat.py", "mc_core.py", "mc_opt.py"], [("copies", "mc_data_1d.py:clip; mc_hat.py:fillFitParameterLimits")])
prop("C20", "Objects do not share state",
     "Settings, histories, tables and results of one data set, model, optimisation, analysis or histogram object never appear in another one: each has containers of its own. "
     "Only storing to and loading from a file transfers them.",
     ["histories"], "every sequence of objects created and used in one process",
     "Tests create few objects each and do not look for leftovers of earlier ones.",
     ["mc_core.py", "mc_opt.py", "mc_model.py", "mc_hat.py", "mc_data.py", "mc_data_1d.py", "mc_data_2d.py", "mc_analysis.py", "mc_model_histogrammer.py", "mc_plot.py"],
     [("reset in the constructors", "mc_*.py:__init__")])
prop("C21", "Known settings are applied, unknown settings are refused",
     "Every documented setting given to a data, model, optimisation or run object is the value this object uses afterwards, also when it was restored from a file. "
     "A setting with an unknown name is refused with an error, never silently ignored.",
     ["configurations"], "every combination of settings",
     NOTEST + "a few settings of the data are given.",
     ["mc_data.py", "mc_model.py", "mc_opt.py", "mc_hat.py"], [("settings", "mc_hat.py:McHat.__init__; mc_model.py:McModel.__init__; mc_opt.py:McOpt.__init__; mc_data.py:processKwargs")])
prop("C22", "The command line tools never delete data the user did not give up",
     "The result file is deleted only when deletion was requested and it is not the data file, however its path is spelled. "
     "No other file is deleted except the previous plot of the histogrammer next to the result file.",
     ["configurations", "inputs"], "every combination of arguments and paths",
     NOTEST + "the command line tools are not tested.",
     ["cli_tools.py"], [("deletion", "cli_tools.py:McSAS3_cli_optimize.run")])
prop("C23", "Every command line option and configuration entry reaches the run",
     "Each option of the command line tools takes effect: the given files are read and written, all entries of the read and run configuration "
     "reach the data and the optimisation, and a given number of threads replaces that of the configuration. Without a configured seed the runs are not "
     "seeded.",
     ["configurations"], "every combination of options and configuration entries",
     NOTEST + "the command line tools are not tested.",
     ["cli_tools.py", "mcsas3_cli_runner.py", "mcsas3_cli_histogrammer.py", "__main__.py"], [("front ends", "cli_tools.py; __main__.py")])
prop("C24", "Automatic limits span the sizes that the data can resolve",
     "A fit parameter with automatic limits gets pi divided by the largest Q to pi divided by the smallest Q of the data of this very run, over both components if it is two-dimensional. Explicit limits are used as given. "
     "Data reaching zero Q, and any other word in place of limits, are refused.",
     ["inputs", "histories"], "every data, mixture of automatic and explicit limits, and sequence of runs",
     NOTEST + "no stable test uses automatic limits.",
     ["mc_hat.py"], [("limits", "mc_hat.py:McHat.fillFitParameterLimits")])
prop("C25", "Histogram bins cover the requested range",
     "A histogram has the requested number of bins between the limits of its own fit parameter if automatic, between the given limits otherwise. "
     "The bin edges are equidistant, or equidistant in the logarithm if logarithmic bins are requested. With an automatic number of bins, they span the same range.",
     ["configurations", "inputs"], "every histogram configuration",
     NOTEST + "no stable test makes a histogram.",
     ["mc_model_histogrammer.py"], [("bin edges", "mc_model_histogrammer.py:McModelHistogrammer.__init__, genX")])
prop("C26", "Histograms and population statistics describe the same contributions",
     "A histogram counts the contributions by their values of its own parameter, and the statistics (total, mean, variance, skew, kurtosis) are the moments of exactly those values of the "
     "same parameter within the range of the histogram. Histogram and total are scaled to absolute units with the same factor and the scaling factor of the same "
     "repetition. Without any contribution in range the statistics are undefined.",
     ["inputs"], "every parameter set, range and scaling",
     NOTEST + "no stable test makes a histogram.",
     ["mc_model_histogrammer.py"], [("histogram and modes", "mc_model_histogrammer.py:McModelHistogrammer.histogram, modes")])
prop("C27", "Averages are taken over exactly the stored repetitions",
     "The analysis uses every repetition stored for its result index, also if the numbers have gaps or several digits, each exactly once and with its own data. For every quantity (intensity, histogram, statistics, "
     "fit results) the mean and the standard deviation over these repetitions are given, the intensity of each scaled with its own scaling and background.",
     ["inputs", "histories"], "every number and numbering of repetitions and every histogram configuration",
     NOTEST + "no stable test runs the analysis.",
     ["mc_analysis.py"], [("averages", "mc_analysis.py:McAnalysis")])
prop("C28", "The analysis writes only on request, and then everything",
     "Without the request to store, the analysis does not change the result file. With it, the ranges, histograms, bin edges and statistics of every repetition and range, and all averages with their "
     "deviations, are stored, each at a place of its own.",
     ["configurations", "inputs"], "every number of repetitions and ranges",
     NOTEST + "no stable test runs the analysis.",
     ["mc_analysis.py", "mc_model_histogrammer.py"], [("store", "mc_analysis.py:McAnalysis.store; mc_model_histogrammer.py:store")])
prop("C29", "The example configurations are accepted",
     "The supplied example configuration files can be used as they are: every setting in them is accepted by the data reader, the run or the histogrammer, with the value written, and has an effect.",
     ["configurations"], "every example configuration file",
     NOTEST + "most of the example files are not used by a stable test.",
     ["mc_data.py", "mc_hat.py", "mc_model.py", "mc_opt.py", "mc_model_histogrammer.py"], [("names", "mc_data.py:storeKeys; mc_model.py:settables; mc_opt.py:storeKeys")])
prop("C30", "The built-in sphere model computes the sphere form factor",
     "The built-in sphere model returns the volume of a sphere with the given radius, and the square of that volume times the contrast times the normalised amplitude 3 (sin qr - qr cos qr)/(qr)^3 of a sphere. "
     "The contrast is the difference of its own two scattering length densities, in the fixed unit conversion.",
     ["inputs"], "every radius, contrast and Q",
     NOTEST + "the built-in sphere is not tested.",
     ["mc_model.py"], [("sphere", "mc_model.py:mcsasSphereModel")])
prop("C31", "The simulated-data model rescales its data consistently",
     "The simulated-data model evaluates the given data at Q times the size factor by linear interpolation, continues it with its first value at low Q and with the given background plus scaling times Q to the power -4 at high Q, "
     "and multiplies the intensity by the sixth and returns as volume the third power of the size factor.",
     ["inputs"], "every simulated data set, Q and size factor",
     NOTEST + "the simulated-data model is not tested by a stable test.",
     ["mc_model.py"], [("simulation", "mc_model.py:McSimPseudoModel")])
prop("C32", "Each repetition runs exactly once, in no more processes than useful",
     "A run performs each repetition from the first to the last exactly once, under its own number and on the same data and settings, with or without several processes. "
     "Never more processes are started than requested, than cores exist, or than there are repetitions; none at all for one core or one repetition.",
     ["configurations", "schedules"], "every number of repetitions and cores",
     NOTEST + "no stable test performs a run.",
     ["mc_hat.py"], [("scheduling", "mc_hat.py:McHat.run")])
prop("C33", "NeXus data is read from where the file or the user says",
     "Given paths for the data are read for exactly the quantity they are named for. Otherwise intensity, uncertainty, mask and Q are those that the file declares by its default, "
     "signal, uncertainty, mask and axes attributes, and undeclared uncertainties are a fixed fraction of the intensity. A file without a signal or without Q is refused.",
     ["inputs"], "every file layout",
     NOTEST + "two files are read.",
     ["mc_data.py"], [("reader", "mc_data.py:McData.from_nexus")])
prop("C34", "Invalid input is refused instead of being fitted",
     "Each of these ends with an error, wherever in the input it occurs. Reading: files that do not exist, file types that are not known (unless a known loader is named), tables or loading paths without Q, I or ISigma, "
     "tables in which one of these holds anything but floating point numbers, data ranges without datapoints, omitted ranges that are not a list of pairs, names of measurement data that do not exist. "
     "Fitting: values that are not a number or infinite in the intensity or its uncertainty, no datapoints, numbers of intensities and uncertainties that differ, fewer than one repetition, limits given as a word other than auto, "
     "models without fit parameter limits or static parameters, incomplete simulated data. Result indices that are negative or not integers, wherever they are given. Histograms of parameters that are not fitted, with unknown bin scale or weighting, "
     "without a positive integer number of bins or with a choice of range that is not true or false. Analysing or restoring from missing files, restoring without a repetition, analysing without data or ranges. "
     "Command line tools: data or configuration files that do not exist and configuration files that are not .yaml files.",
     ["inputs", "configurations"], "every input",
     NOTEST + "one or two cases of refused input are tested.",
     ["mc_data.py", "mc_data_1d.py", "mc_hdf.py", "mc_model_histogrammer.py", "mc_core.py", "cli_tools.py", "mc_hat.py", "osb.py", "mc_model.py", "mc_analysis.py"], [("checks", "assert statements and validators")])
prop("C35", "The Monte Carlo fit converges to a statistically sound solution",
     "For data that the model can describe, the optimisation reaches its convergence criterion with high probability, and the spread over repetitions is a fair estimate of the uncertainty of the size distribution.",
     ["inputs"], "every measurement that the model can describe",
     "Statistical convergence is a matter of distributions over random runs.", ["mc_core.py"], [("Monte Carlo loop", "mc_core.py")])
prop("C36", "A crash while storing leaves a usable result file",
     "If the process is killed at any point while a result is being stored, the file can be opened afterwards and earlier results in it are intact.",
     ["crash_points"], "every point at which the process may be killed",
     "No test kills a process.", ["mc_hdf.py"], [("store", "mc_hdf.py:storeKV")])
prop("C37", "Reports and result card show the results of the analysis",
     "The reports of an analysis give the mean and the deviation of every fit result and population statistic under its own name, the relative deviation in percent of that mean, and the range and parameter of the histogram they belong to. "
     "The result card draws every averaged histogram in a panel of its own, at its own bins and with its own deviation, scale, parameter and report, shows the fitted data with its uncertainty and the mean of the fits, and is written to the file asked for.",
     ["inputs", "configurations"], "every analysis, with any number of histograms and repetitions",
     NOTEST + "reports and plots are made but not looked at.",
     ["mc_analysis.py", "mc_plot.py"], [("reports", "mc_analysis.py:debugReport, debugRunReport"), ("card", "mc_plot.py:resultCard")])

here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(os.path.join(here, "properties.jsonl"), "w") as f:
    for p in P:
        f.write(json.dumps(p) + "\n")
print(len(P))
for p in P:
    assert len(p["title"]) <= 80, p["title"]
