"""Writes /verif/properties.jsonl (one place to edit the property texts)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, observe, state=None):
    d = dict(id=id, title=title, statement=statement,
             quantifier=dict(over=over, text=text), why_tests_cant=why,
             anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech],
                          observe_at=observe, hook_needed=None))
    if state:
        d["anchors"]["state"] = [dict(name=a, meaning=b, where=c) for a, b, c in state]
    assert len(title) <= 80, (id, len(title))
    P.append(d)

p("C01", "Each cut field's verdict on a pulse depends only on what was cut in it",
  "After any history of boolean cuts, categorical assignments, clears, and registering or unregistering of fields, a pulse is bad in a boolean field exactly if it was cut in that field since the field was registered or last cleared, and its category in a categorical field is exactly the last one assigned (the default if none). "
  "Good and bad selections over any set of fields and categories, category selections, category codes and the combined cut table are exactly the logical combinations of those per-field verdicts, and no operation on one field ever changes what another field says. "
  "Conflicting or unknown categories and unknown fields are refused and leave every verdict as it was.",
  ["histories", "inputs"], "every sequence of register/unregister/cut/cut_categorical/clear_cut/good/bad/select_category calls on every set of fields",
  "The tests walk one or two fixed scripts of cuts; independence of 32 packed bits under arbitrary interleavings, and after bits are freed and reused, is a property of histories.",
  ["mass/core/cut.py"], [("cut / cut_categorical / clear_cut", "mass/core/cut.py:Cuts"), ("good / bad / select_category / category_codes / cut_mask", "mass/core/cut.py:Cuts"), ("unregister_*", "mass/core/cut.py:CutFieldMixin")],
  ["ds.good(), ds.bad(), ds.cuts.category_codes(), ds.cuts.select_category(), ds.cuts.cut_mask()"],
  [("_mask", "32-bit packed cut word per pulse", "mass/core/cut.py:Cuts.__init__")])

p("C02", "Cut fields never share bits, and the registry survives reopening",
  "Whatever fields are registered and unregistered in whatever order, every registered boolean field owns exactly one bit and every categorical field just enough bits for its categories, no bit belongs to two fields, and the record of used bits is exactly the union of the owned bits. "
  "Registering an existing name changes nothing, unregistering an unknown name is refused with nothing changed, registration is refused once bits run out, and within a categorical field distinct categories have distinct codes with the default category at code zero. "
  "Closing and reopening the analysis file, including one written in the older on-disk format, leaves the registry and every pulse's cuts as they were.",
  ["histories", "crash_points", "configurations"], "every sequence of register/unregister/reopen on every mixture of boolean and categorical fields up to exhaustion of the 32 bits, from new and from old-format files",
  "Tests register a handful of fields in one order; fragmentation after unregistering, exhaustion and the old-format upgrade under arbitrary histories are not reachable by samples.",
  ["mass/core/cut.py", "mass/core/channel_group.py"], [("register/unregister_boolean_cut_fields", "mass/core/cut.py:CutFieldMixin"), ("register/unregister_categorical_cut_field", "mass/core/cut.py:CutFieldMixin"), ("cut_field_desc_init", "mass/core/cut.py:CutFieldMixin")],
  ["data.boolean_cut_desc, data.categorical_cut_desc, data.cut_category_list, data.cut_field_categories(), data.cut_used_bit_flags"])

p("C03", "Range cuts exclude exactly the pulses outside the allowed range",
  "Cutting on a per-pulse quantity with an allowed pair marks exactly the pulses whose value is not above the lower limit or not below the upper one (an absent limit excludes nothing, a value that is not a number meets no limit), with a list of ranges exactly the pulses in none of the closed ranges, and with inversion requested exactly those in any of them. "
  "Applying a set of quality limits cuts each pulse in exactly the fields whose limits it violates, converts units as documented (milliseconds, differences from the median, gaps to the previous pulse), and adds to earlier cuts unless clearing is requested. Automatic cuts take their limits from all of the noise records, and what they decided is kept, cleared and restored on reopening with the cuts themselves.",
  ["inputs", "histories"], "every vector of values (not-a-number included), every pair or list of limits including zero, negative and absent limits, applied over earlier cuts",
  "Boundary values, zero limits and absent limits in combination form a large input space of which the tests sample a few.",
  ["mass/core/cut.py", "mass/core/channel.py", "mass/core/controller.py"], [("cut_parameter", "mass/core/cut.py:Cuts.cut_parameter"), ("apply_cuts", "mass/core/channel.py:MicrocalDataSet.apply_cuts"), ("auto_cuts", "mass/core/channel.py:MicrocalDataSet.auto_cuts")],
  ["ds.good(field), ds.bad(field) after ds.cuts.cut_parameter / ds.apply_cuts"])

p("G01", "The set of bad channels is exactly what the history of marks says",
  "After any history of marking channels bad and good, singly, in lists or all at once, the bad channels are exactly those marked bad since last marked good, each carrying every reason given since then, in order. "
  "Every view of the data set (iteration, lists of good channels and their numbers, counts, first good data set) contains exactly the channels not bad, in channel order, unless bad channels are explicitly included. "
  "Closing and reopening the analysis restores the same bad channels and reasons.",
  ["histories", "crash_points"], "every sequence of bad/good marks and reopenings over every set of channels",
  "Tests mark one or two channels once; agreement of the in-memory table, the persisted reasons and the iteration views over arbitrary histories is not sampled.",
  ["mass/core/channel_group.py", "mass/core/channel.py"], [("set_chan_bad / set_chan_good / set_all_chan_good", "mass/core/channel_group.py:TESGroup"), ("iter_channels and derived views", "mass/core/channel_group.py:TESGroup"), ("why_bad restored on open", "mass/core/channel_group.py:TESGroup._setup_per_channel_objects")],
  ["data.why_chan_bad, data.good_channels, data.num_good_channels, iteration, data.first_good_dataset, HDF5 attribute why_bad"])

p("G02", "A channel that fails in a group operation is set aside; the rest proceed",
  "When a channel operation looped over the good channels of the group fails on some of them, each failing channel is marked bad with the failure as its reason, every other good channel is processed exactly as if the failing ones were not there, and channels already bad are not touched. "
  "A user interrupt is never swallowed: it stops the loop and marks no channel bad on its own account; channels finished before it stay processed, channels that failed before it stay marked.",
  ["fault_sequences", "histories"], "every pattern of per-channel failures (including interrupts) over every set of good and bad channels and every sequence of group operations",
  "Under the test runner these loops deliberately re-raise the error, so the fault-isolation path is never executed by any test.",
  ["mass/core/utilities.py", "mass/core/channel_group.py", "mass/off/channels.py"], [("add_group_loop", "mass/off/channels.py"), ("_add_group_loop", "mass/core/channel.py, mass/core/channel_group.py")],
  ["data.why_chan_bad, per-channel results, exceptions raised to the caller"])

p("G03", "Stored analysis results change only when absent or recomputed on request",
  "Each analysis step on a channel (summaries, average pulse, filter, filtered values, drift and phase corrections, calibration and the like) computes when its result is absent or recomputation is requested, and otherwise leaves the stored result exactly as it is, whatever other arguments are passed (averaging asks for some good pulses even when there is nothing to do). "
  "Closing and reopening the analysis at any point gives back the same results and the same notion of what is already done, and any recomputation gives what the same step gives on a fresh analysis with the same inputs.",
  ["histories", "crash_points"], "every sequence of analysis steps, forced or not, with varying arguments, and reopenings between any two of them",
  "Tests run the standard pipeline once or twice in one order; skip/force/reopen interleavings are histories they do not sample.",
  ["mass/core/channel.py", "mass/core/channel_group.py"], [("forceNew checks", "mass/core/channel.py:MicrocalDataSet"), ("HDF5-backed vectors", "mass/core/channel.py:MicrocalDataSet.__setup_vectors")],
  ["ds.p_* vectors, ds.average_pulse, ds.filter, HDF5 datasets before and after each step"])

p("G04", "Per-pulse summaries equal their definitions, however the file is read",
  "For every record, the stored summary quantities (pretrigger mean and RMS, pulse average and RMS, promptness, peak index and value, minimum, rise time, post-peak slope, shift flag, timestamps and frame counts) are those obtained by applying their definitions to that record's samples alone. "
  "They are the same whatever segment size the file is read with, whichever records neighbour it, and whether the data polarity is inverted in the file or on reading; the compiled and pure-Python implementations agree on the quantities they define alike (pretrigger mean and RMS, minimum, peak, shift flag, slope, times), and samples cut off at either end count for nothing.",
  ["inputs", "configurations"], "every record content, record length, presample count, segment size and polarity",
  "Tests check a few stored values on one file at the default segment size.",
  ["mass/core/cython_channel.pyx", "mass/core/channel.py", "mass/core/files.py", "mass/core/analysis_algorithms.pyx"], [("summarize_data", "mass/core/channel.py"), ("summarize_data_cython", "mass/core/cython_channel.pyx")],
  ["ds.p_* vectors after summarize_data"])

p("L01", "Raw pulse files are read exactly, whatever the layout or truncation",
  "For any raw pulse file of the supported versions, the number of records is the number of complete records present (a trailing partial record is ignored), and each record's samples, frame count and timestamp are exactly those stored, through every access path (whole file, segments, single traces, with or without timing, inverted or not). "
  "Record geometry and channel metadata come from the header with the documented defaults and offsets.",
  ["inputs", "crash_points", "configurations"], "every file version, record length, record count and truncation point, every segment size and access order",
  "Tests read a few fixed files; cutting a file at every byte and every version/geometry combination is out of their reach.",
  ["mass/core/files.py", "mass/core/channel.py"], [("LJHFile.open / LJHFile2_1 / LJHFile2_2", "mass/core/files.py"), ("read_trace / read_trace_with_timing / segments", "mass/core/files.py")],
  ["LJHFile.nPulses, alldata, rowcount/subframecount, datatimes, read_trace, read_trace_with_timing, iter_segments"])

p("L02", "Copying, truncating, appending and merging pulse files preserve records",
  "Every record written by the copy, append, truncate and merge tools has exactly the samples, frame count and timestamp of the source record it came from, in the requested order, with nothing else in the output and with the source's metadata still read back the same. "
  "The source is never altered: an output that is the source itself is refused, and copy, modify and merge never overwrite an existing output without permission.",
  ["inputs", "histories"], "every source content and version, every selection of records, and every sequence of these operations including on each other's outputs",
  "Tests truncate and copy one file at one or two points.",
  ["mass/core/ljh_modify.py", "mass/core/files.py", "bin/ljh_merge", "bin/ljh_truncate"], [("ljh_copy_traces / ljh_append_traces / ljh_truncate / LJHModify", "mass/core/ljh_modify.py"), ("make_ljh_header", "mass/core/files.py"), ("merge", "bin/ljh_merge")],
  ["the output files as read back, source bytes before and after"])

p("L03", "Files are matched by channel number, completely and in numeric order",
  "From any lists of pulse and noise files, exactly the channels present in both lists (or in the pulse list if no noise files are given), not excluded and, when an inclusion list is given, included, are kept, each pulse file paired with the noise file of the same channel number, in increasing channel order. "
  "Channel numbers and base names are read from the last channel tag of the name, so that base name and number rebuild every sibling file's name.",
  ["inputs", "configurations"], "every set of file names and channel numbers, every combination of exclusion and inclusion lists and limits",
  "Tests use a few hand-written lists.",
  ["mass/core/ljh_util.py", "mass/core/channel_group.py"], [("remove_unpaired_channel_files / ljh_sort_filenames_numerically / ljh_basename_channum / ljh_get_channels", "mass/core/ljh_util.py"), ("TESGroup.__init__", "mass/core/channel_group.py")],
  ["the returned lists; data.channel keys and each data set's noise file"])

p("O01", "OFF files are read exactly, also while they grow",
  "For any OFF file of a supported version, whether its projectors and basis are stored in the header or as binary, the number of records is the number of complete records present and every field of every record, the projectors, the basis and the header values are exactly those stored. "
  "After the file grows and is refreshed, all complete records are present, earlier ones unchanged, whatever byte the earlier view ended at.",
  ["inputs", "crash_points", "histories"], "every header form, number of basis vectors, record count and truncation point, and every sequence of appends and refreshes",
  "Tests open a few fixed files of one form.",
  ["mass/off/off.py"], [("OffFile / recordDtype / _updateMmap / readHeader", "mass/off/off.py")],
  ["OffFile.nRecords, len, indexing, projectors, basis, modeledPulse"])

p("O02", "Converting raw pulses to OFF preserves every record's coefficients and time",
  "Converting one or several raw pulse files with given projectors and basis yields one record per source record in source order, whose coefficients are the projectors applied to the samples, whose residual is the spread of the samples about the modeled pulse, whose pretrigger mean and slope come from the presamples not ignored, and whose time stamp, frame count, subframe divisions and record geometry are the source record's. "
  "The result is the same however many records are processed at a time, and the stored projectors and basis are those given.",
  ["inputs", "configurations"], "every record content, record count, projector/basis matrix and number of ignored presamples, one or many sources",
  "Tests convert one file with one model.",
  ["mass/core/ljh2off.py", "mass/off/off.py"], [("multi_ljh2off / ljh_records_to_off", "mass/core/ljh2off.py")],
  ["the OFF file read back"])

p("O03", "Experiment states select exactly the records between their time marks",
  "For any state log and record times, each state's records are exactly those at or after one of its start marks and before the next mark of any kind, for all of its occurrences, with excluded states and records before the first mark belonging to none. "
  "Refreshing as the log and the data grow gives the same result as reading the final log and data at once; several labels merged under one alias together cover what they covered separately.",
  ["histories", "inputs"], "every sequence of log marks (repeated, excluded, aliased), record times, and refreshes between any of them",
  "Tests use a few small logs and at most one refresh; repeated and excluded states at refresh time are never sampled.",
  ["mass/off/experiment_state.py", "mass/off/channels.py", "mass/core/channel_group.py"], [("ExperimentStateFile.parse / calcStatesDict / aliasState", "mass/off/experiment_state.py"), ("ChannelGroup.refreshFromFiles", "mass/off/channels.py")],
  ["statesDict, labels, ds.statesDict, data selected by states"])

p("O04", "A recipe computes what its ingredients meant when it was defined",
  "The value of any recipe is its function applied to the values of its ingredients as they were defined when the recipe was added, however deep the chain; redefining or adding recipes later never changes recipes defined earlier. "
  "A recipe cannot silently replace another or refer to something undefined, a negated cut is the exact complement of the cut, and saving and reloading a recipe book preserves every recipe's value.",
  ["programs", "histories"], "every sequence of recipe definitions, redefinitions, negations, saves and loads, over every ingredient graph",
  "Tests define a few recipes once; redefinition after dependents exist, deep chains and persistence in combination are not sampled.",
  ["mass/off/util.py", "mass/off/recipe_classes.py"], [("Recipe / RecipeBook", "mass/off/util.py")],
  ["RecipeBook.craft, keys, membership, exceptions"])

p("O05", "Selecting data from an OFF channel returns exactly the records asked for",
  "Getting any quantity with any combination of a record selection (slice, list of slices, one or several states, or everything) and a cut or no cut returns that quantity for exactly the selected records that pass the cut, in order, and equally for several quantities at once. "
  "Histograms count exactly those records per bin, group histograms are the sums over good channels, and without an explicit cut the default cut in force applies.",
  ["inputs", "histories"], "every record selection, cut, default cut and set of quantities over every data content",
  "Tests request a few combinations on one data set.",
  ["mass/off/channels.py", "mass/off/util.py"], [("getAttr / _indexOffWithCuts / hist / cutAdd / cutSetDefault", "mass/off/channels.py")],
  ["ds.getAttr, ds.hist, data.hist, data.hists"])

p("O06", "OFF channel groups show exactly the good channels and refresh them all",
  "After any history of marking channels bad and good, the group's length, keys, values, items, iteration and first good channel contain exactly the good channels in order, and inside an include-bad scope all of them, the earlier view being restored on leaving, also when leaving by an exception. "
  "Reasons are kept for exactly the channels that are bad, and operations over the group reach exactly the channels shown.",
  ["histories", "fault_sequences"], "every sequence of bad/good marks, scoped inclusion (nested, left normally or by exception) and group operations",
  "Tests mark one channel and look once.",
  ["mass/off/channels.py"], [("ChannelGroup.markAllGood / keys / includeBad", "mass/off/channels.py"), ("Channel.markBad / markGood", "mass/off/channels.py")],
  ["len, keys, values, items, whyChanBad, firstGoodChannel"])

p("E01", "A calibration curve reflects exactly its current anchor points",
  "After any history of adding, updating, removing, copying and reconfiguring, the anchor points are exactly those the history leaves, sorted by pulse height whenever the curve is used, with names, values and uncertainties kept together, and the conversion equals that of a new calibration built with those points and settings. "
  "An exact curve passes through every anchor and the inverse conversion undoes it; additions that would break monotonicity (equal pulse heights or energies included) or overwrite without permission are refused and leave the calibration as it was, and changing a copy never affects the original.",
  ["histories", "inputs"], "every sequence of point additions, updates by name or energy, removals by name, prefix or energy, curve-type changes, copies and evaluations in between",
  "Tests build a calibration once and evaluate it; stale-curve and bookkeeping errors need particular histories.",
  ["mass/calibration/energy_calibration.py"], [("add_cal_point / remove_cal_point_* / copy / _update_converters", "mass/calibration/energy_calibration.py:EnergyCalibration")],
  ["cal_point_names/phs/energies, ph2energy, energy2ph, drop_one_errors"])

p("E02", "Calibrations survive being stored and reloaded",
  "Storing a calibration and loading it, or reopening the analysis that holds it, gives a calibration with the same points, names, uncertainties and settings and the same conversion, whatever its history, and storing under a name replaces what was there and nothing else.",
  ["histories", "inputs"], "every calibration state and sequence of saves and loads under several names",
  "Tests round-trip one calibration.",
  ["mass/calibration/energy_calibration.py", "mass/core/channel.py"], [("save_to_hdf5 / load_from_hdf5", "mass/calibration/energy_calibration.py"), ("calibration loading on open", "mass/core/channel.py")],
  ["the loaded object's points, settings and conversions"])

p("T01", "External-trigger delays are measured to the true neighbouring triggers",
  "For every pulse, the delay since the last trigger is measured from the latest trigger not after the pulse, the delay to the next from the earliest trigger after it, the nearest delay is the smaller of the two, and a missing neighbour is reported as the largest 64-bit integer; delays in seconds are the same delays in subframe periods. "
  "This holds for any numbers of pulses and triggers, including none or one of either, and trigger logs in any supported storage form are read exactly. Delays already stored change only when asked to be computed anew, and excluded channels' delays stay as they were.",
  ["inputs"], "every sorted list of pulse times and trigger times of any lengths, with coincidences and duplicates",
  "Tests use one list with many triggers.",
  ["mass/core/analysis_algorithms.pyx", "mass/core/channel_group.py", "mass/off/channels.py"], [("nearest_arrivals", "mass/core/analysis_algorithms.pyx"), ("calc_external_trigger_timing", "mass/core/channel_group.py")],
  ["nearest_arrivals return values; ds.subframes_after_last_external_trigger etc."])

p("T02", "Flux-jump correction moves values only by whole quanta, onto one branch",
  "Correcting flux jumps changes each value by a whole number of flux quanta, leaves the first value and any jump-free sequence unchanged, and puts all good values on one branch when the underlying baseline varies by less than a quarter quantum and at least one value is good.",
  ["inputs"], "every sequence of jumps (any integer numbers of quanta, anywhere) on every small baseline variation",
  "The tests draw a few random sequences and only print on failure.",
  ["mass/core/analysis_algorithms.pyx", "mass/core/channel_group.py"], [("correct_flux_jumps", "mass/core/analysis_algorithms.pyx")],
  ["correct_flux_jumps return value"])

p("S01", "Robust statistics equal their definitions on every data set",
  "The (weighted) high median, the range, mean and center of the shortest interval holding a majority, the trimean, the median absolute deviation and the Q scale of any finite data set equal their definitions computed by exhaustive enumeration, and the bisquare and Huber weighted means are fixed points of theirs, whatever the order, ties, weights and size, and leave the caller's data untouched unless in-place sorting is requested.",
  ["inputs"], "every finite data set with ties, every weighting, even and odd sizes",
  "Tests check a few vectors; the fast algorithms have size- and tie-dependent branches.",
  ["mass/mathstat/robust.pyx"], [("high_median / shorth_range / Qscale / trimean / median_abs_dev", "mass/mathstat/robust.pyx")],
  ["return values and the argument arrays after the call"])

p("H01", "Every analysis product uses exactly the good pulses asked for",
  "Histograms of a channel or a group, count rates, lists of first good pulses, exported energy lists and average pulses use exactly the pulses that are good (when only good ones are asked for), of the category, time range, mask and channels requested, and whose value is a number, each once: bins are half open but for the last, channels set aside take no part. "
  "An average pulse is the mean of just those records (less the mean of their pretrigger samples, if asked), is kept if it exists and computing anew is not forced, and a channel without usable pulses is set aside by the group (or refused by the channel itself), leaving all others as they are.",
  ["histories", "inputs"], "every history of cuts, categories, channels set aside or restored, averages, and reopenings, with every selection, on values at bin and range edges and values that are not numbers",
  "Tests look at no histogram contents and one average with fixed cuts.",
  ["mass/core/channel.py", "mass/core/channel_group.py"], [("hist / count_rate / first_n_good_pulses", "mass/core/channel.py"), ("hists / compute_average_pulse / avg_pulses_auto_masks / ascii exports", "mass/core/channel_group.py")],
  ["return values, average pulses (and their HDF5 form), written files, why_chan_bad"])

p("K01", "A pulse is flagged as crosstalking exactly if a neighbour pulsed near it",
  "Nearest neighbours found from a position map are, for every category, all channels on the map with their true squared distances, ranked by the distances the map allows; setting them anew replaces those of that category only, and happens only if asked or if none are there. "
  "A pulse is flagged exactly if some channel of the data set (good or not) among its neighbours at the ranks asked for, in the category of the field (any category in the combined field), has a pulse within the veto time before and after it; flags already there change only when computing anew is asked for, other fields and channels never change, and reopening keeps all.",
  ["histories", "inputs"], "every map, category set, arrival times (equal, at the edge of windows, overlapping windows, empty), veto times, and every history of setting neighbours, flagging, forcing, and reopening",
  "No test calls it.",
  ["mass/core/channel.py", "mass/core/channel_group.py", "mass/core/analysis_algorithms.pyx", "mass/mathstat/utilities.py"], [("flag_crosstalking_pulses", "mass/core/channel.py"), ("set_nearest_neighbors_list", "mass/core/channel.py")],
  ["the boolean flag datasets, ds.nearest_neighbors groups"])

p("N01", "Noise spectra and autocorrelations equal their definitions",
  "The power spectrum of noise is the mean of the windowed periodograms of exactly those segments asked for (whole records, or continuous data cut anew) whose excursion is allowed, on the right frequencies, whichever window, segment length, even or odd record length, and whether accumulated in one call or many, from halves that overlap, copied, or rebinned; the autocorrelation is the mean over those segments of the lagged products about their mean. "
  "So for every number of lags and range of samples; impossible requests are refused. What is computed is stored, for the records and for the channel, only there and only if asked anew or absent, as is assumed white noise, and survives reopening; input data are not altered.",
  ["histories", "inputs"], "every sequence of accumulations into several spectra, and every history of noise analyses of small integer records (continuous or not, even or odd lengths, base levels, excursions at the limit)",
  "Tests compute one spectrum of one record length and compare levels roughly.",
  ["mass/mathstat/power_spectrum.py", "mass/core/channel.py", "mass/core/channel_group.py"], [("PowerSpectrum / PowerSpectrumOverlap / computeSpectrum", "mass/mathstat/power_spectrum.py"), ("NoiseRecords.compute_power_spectrum* / compute_autocorrelation", "mass/core/channel.py"), ("compute_noise / assume_white_noise", "mass/core/channel_group.py")],
  ["returned spectra and frequencies; noise_psd, noise_autocorr of the channel and its records, also in the HDF5 file"])

p("F01", "Optimal filters respond as designed with the least noise",
  "A filter gives the nominal signal its unit response (5-lag and Fourier filters: the peak of the parabola through the responses at five lags; arrival-time-safe filters: at one lag, with no response to the change with arrival time), does not respond to a constant, and among all such combinations of samples is the one with the least variance for the noise given (autocorrelation, whitener, or spectrum); its predicted variance and resolving power are those of that noise. "
  "It does not change under offset or scale of signal or noise; samples cut have no weight and no influence, so that the rest is the filter of the shorter record; limits of the band multiply its Fourier components by the one-pole response and remove those above the limit (an arrival-time-safe filter is not rescaled afterwards). Whitening, unwhitening and their transposes are inverse or transposed to each other for all orders, the Toeplitz solver solves the equations for all sizes. Impossible requests are refused; what is given is not altered.",
  ["histories", "inputs"], "every small integer signal (both signs, offsets, scales, lists or arrays), noise (autocorrelation, whitener, periodic), combination of cuts and band limits, in every sequence of filters from the same maker; all Toeplitz systems and whiteners of low order and integer coefficients",
  "Tests check variance of a few filters within wide tolerances, whiteners of one order, and matrices of few sizes.",
  ["mass/core/optimal_filtering.py", "mass/mathstat/toeplitz.py"], [("FilterMaker.compute_5lag / compute_ats / compute_fourier", "mass/core/optimal_filtering.py"), ("ToeplitzWhitener", "mass/core/optimal_filtering.py"), ("band_limit", "mass/core/optimal_filtering.py"), ("ToeplitzSolver", "mass/mathstat/toeplitz.py")],
  ["Filter values, dt_values, const_values, variance, predicted_v_over_dv, nominal_peak, signal_model; solutions of the solver; whitened arrays"])

p("I01", "Splines and functions have the values and derivatives their definitions give",
  "A cubic spline passes through the points given (in any order), has the slopes given at its ends or no curvature there, and continues as a straight line; combinations of splines combine their values everywhere; the natural basis represents every natural spline. A smoothing or Gaussian-process spline is the curve that balances weighted squares of deviations against curvature, with the variances that belong to it; the smoothing spline is the one with the chi squared allowed, or the weighted line if that is enough; logarithmic ones likewise of logarithms. "
  "Functions built from constants, powers, exponentials, logarithms and splines by sums, differences, products, quotients and composition, simplified or not, have the value of the expression, and their derivatives (both ways of asking for them) are its derivatives; results have the shape of the argument, and what is given is not altered.",
  ["inputs"], "every small set of knots (uneven steps, any order, scales), values, end conditions, errors and smoothing strength; every expression tree of depth up to 4 over integer constants, integer and half-integer powers, exp and log, at points of every sign and form",
  "Tests evaluate one Gaussian-process spline roughly; the function algebra has no tests.",
  ["mass/mathstat/interpolate.py", "mass/mathstat/derivative.py"], [("CubicSpline / LinterpCubicSpline / GPRSpline / SmoothingSpline / NaturalBsplineBasis", "mass/mathstat/interpolate.py"), ("Function and its operators", "mass/mathstat/derivative.py")],
  ["values and derivatives of splines and functions, variances and covariances, actualchisq"])

p("X01", "Line-shape models are numerically accurate",
  "Fluorescence line models are correctly normalised and convolved with the detector response to floating-point accuracy.",
  ["inputs"], "all line shapes and resolutions",
  "Accuracy over a continuum of inputs cannot be sampled exhaustively.",
  ["mass/calibration/line_models.py"], [("GenericLineModel", "mass/calibration/line_models.py")],
  ["model densities"])

with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl"), "w") as f:
    for d in P:
        f.write(json.dumps(d) + "\n")
print(len(P))
