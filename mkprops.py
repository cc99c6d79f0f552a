"""Regenerates properties.jsonl (single source for titles/statements/anchors)."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, state=None):
    a = {"files": files, "mechanism": mech}
    if state: a["state"] = state
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=qtext), why_tests_cant=why, anchors=a))

p("C01", "Baseline and polarization keys form a consistent algebra",
  "Reversing a baseline key is an involution that swaps the antennas and the two feeds; splitting a polarization or baseline into antenna-feeds and joining them again gives back the same (normalized) key; normalizing a key is idempotent, insensitive to the case of the polarization and never changes antenna numbers or their order. Building a key from loose arguments (two antennas and a polarization, an antenna pair and a polarization, or a full key) gives the same key as the full key itself, and filtering a list of keys returns exactly, in order, those input keys that satisfy every requested criterion (allowed antennas, excluded antennas, polarizations, minimum and maximum length).",
  ["inputs"], "all antenna numbers, all supported polarization strings in any case, all keys and key lists, all filter settings",
  "Tests try a few antenna numbers and the two or four usual polarizations; they never quantify over every antenna pair, the mixed and pseudo-Stokes polarizations, mixed case, or every combination of filters.",
  ["hera_cal/utils.py"], "_comply_vispol/_comply_antpol/split_pol/join_pol/comply_pol/split_bl/join_bl/reverse_bl/comply_bl/make_bl/filter_bls")

p("C02", "A data container behaves as a conjugation-aware mapping of baselines",
  "Starting from data that stores each baseline in one orientation, whatever sequence of insertions, overwrites and deletions has been applied, looking a baseline up by its own key gives the stored array and by the reversed key gives its complex conjugate (its plain value for boolean flags), membership and length agree with what can be looked up, and antenna-pair and polarization listings contain exactly what is stored. Writing or deleting through one orientation of a baseline affects that baseline, is visible through the other orientation, never creates a second entry for the same baseline and leaves every other baseline unchanged; keys are insensitive to polarization case, and nested (pair-then-pol or pol-then-pair) and flat construction are equivalent.",
  ["inputs", "histories"], "all keys (any antennas, polarizations, either orientation), all array contents, all sequences of get/set/delete/membership operations",
  "Tests exercise a few fixed keys of one file; the guarantee is about every key, orientation and operation history.",
  ["hera_cal/datacontainer.py"], "DataContainer.__init__/__getitem__/__setitem__/__delitem__/__contains__/has_key/has_bl/get_data/antpairs/bls/pols",
  [{"name": "_data", "meaning": "canonical key -> array; at most one orientation of a baseline is ever stored"}])

p("C03", "Data-container arithmetic and selection act on exactly the right samples",
  "Adding, subtracting, multiplying, dividing, floor-dividing, negating, inverting or transposing data containers gives, for every baseline the operands share, the elementwise numpy result of the operands' arrays for that baseline, whichever orientation each operand stores it in; baselines only the left operand has keep their values, ones only the right operand has do not appear, and no operand is modified. Selecting or expanding times, selecting frequencies, de-interleaving and concatenating keep, for every baseline and in the requested order, exactly the requested samples, and after a selection the container's times, LSTs and frequencies describe the samples kept.",
  ["inputs"], "all containers, operand orientations, array contents and shapes, all selection requests",
  "Tests compare a few sums and selections on one small data set with identical key order and orientation in both operands.",
  ["hera_cal/datacontainer.py"], "DataContainer.__add__/__sub__/__mul__/__truediv__/__floordiv__/__neg__/__invert__/T/concatenate/select_or_expand_times/select_freqs/deinterleave")

p("C04", "Redundant-group lookups always reflect the current list of groups",
  "For disjoint groups of one polarization each (all autos or all crosses): after any sequence of constructing, appending, extending, inserting, deleting, replacing, filtering, re-keying, sorting or adding redundant groups, every baseline of every group, in either orientation, maps to exactly its own group (conjugated for the reversed orientation), to one unique key shared by the whole group (a requested one, after re-keying, if the group has one), and to the group's position; a baseline in no group is reported absent, and the set of data antennas is exactly the antennas that appear in some group. Operations asked to work on a copy leave the original untouched.",
  ["inputs", "histories"], "all redundancy lists, all keys in either orientation, all sequences of mutating operations, all key choosers",
  "Tests run one or two mutations on one small array and check a few keys.",
  ["hera_cal/red_groups.py"], "RedundantGroups.* and the internal key maps",
  [{"name": "_red_list", "meaning": "the list of groups"}, {"name": "_red_key_to_bls_map/_bl_to_red_map", "meaning": "lookup caches derived from the list"}, {"name": "_data_ants", "meaning": "antennas in some group"}])

p("C05", "A redundant data container answers for every baseline of a group",
  "A container of redundant-group data returns the group's array when indexed by any baseline of that group and the conjugate when indexed by any reversed baseline, whatever baseline of the group the data was stored under; assigning through any member in either orientation changes what every member of that group returns and nothing else. Data of a baseline in no known group is dropped at construction and forms its own group when assigned later, data given under two baselines of one group is rejected at construction, and membership agrees with what can be looked up.",
  ["inputs", "histories"], "all redundancy groups, all choices of stored key and orientation, all get/set sequences",
  "Tests use one array layout and look up a few members.",
  ["hera_cal/datacontainer.py", "hera_cal/red_groups.py"], "RedDataContainer.__getitem__/__setitem__/__contains__/build_red_keys/get_ubl_key/get_red")

p("C06", "Applying gains divides or multiplies by the baseline gain and only adds flags",
  "Applying new gains (and optionally removing old ones) in place gives every visibility exactly data * old_gain / new_gain, with gain_ij = g_i * conj(g_j), or data * new_gain / old_gain in the multiply convention, for nonzero gains; autocorrelations that are real stay real, and applying gains and then un-applying them restores the data. Gains with fewer or more integrations than the data (by powers of two) are repeated, or averaged over the matching integrations with flagged gains given no weight. A sample is flagged afterwards if and only if it was flagged before or one of the calibration flags it needs is set (in any of the integrations averaged) or missing; baselines that need a missing antenna are fully flagged, weights become zero exactly where flags would be set, and no other baseline, flag or gain is touched. For redundantly averaged data the factor is the mean over the group's unflagged baselines, redundant solutions divide only where the gain is nonzero, and the SNAP decoherence correction scales exactly the cross-SNAP samples by 1/((1-p_i)(1-p_j)) and rejects unflagged samples with unmeasured p.",
  ["inputs"], "all visibilities, gains, flag patterns, gain conventions, with and without old gains, any missing antennas, any cadence ratio between data and gains",
  "Tests calibrate one file with gains of one convention; the guarantee is over every combination of baseline, polarization, convention, missing antenna and flag pattern.",
  ["hera_cal/apply_cal.py", "hera_cal/redcal.py"], "calibrate_in_place, _check_polarization_consistency, calibrate_redundant_solution, build_gains_by_cadences, correct_SNAP_decoherence_in_place, RedSol.gain_bl/model_bl/calibrate_bl")

p("C07", "Chi-squared accounting is exact",
  "For finite data, models and gains and non-negative weights, the total chi-squared equals the sum, over the baselines present in data, model and weights, of weight * |data - model scaled by its two gains|^2, and the observation count is the number of samples with positive weight that entered it; flagged gains give their samples zero weight. Splitting by antenna polarization gives the same sums per polarization over the baselines whose two feeds are equal, each antenna-feed's chi-squared and count are the sums over exactly the baselines that contain it (an autocorrelation counting once for each side), and accumulators passed in are added to. With redundancy groups the model of a group's first baseline stands for every member. Zero-weight samples never contribute and no data, model, weight, gain or flag is modified.",
  ["inputs"], "all data, models, gains, weights, redundancy groups and polarization splits",
  "Tests check a couple of hand-computed numbers with unit weights.",
  ["hera_cal/utils.py"], "utils.chisq and its accumulation dictionaries")

p("C08", "Redundancy groups partition the array's baselines and filter exactly as asked",
  "For layouts whose separations agree within tolerance or clearly differ, grouping antenna positions puts every antenna pair into exactly one group, in exactly one orientation, with all members of a group having equal separation vectors within tolerance; adding polarizations keeps that grouping per polarization mode (cross-polarizations sharing one group in the 4pol_minV mode). Filtering redundant groups by baselines, antennas, polarizations, unique baselines (each included or excluded; baselines in either orientation, antenna pairs standing for every polarization present) or by group-mean length keeps exactly the baselines satisfying all criteria, in their original groups and order, and never alters the input. Combining two selections of one partition yields a partition of their union that joins exactly the groups sharing a baseline, positions reconstructed from groups reproduce the groups, and chunking baselines keeps whole groups together, in order, without loss.",
  ["inputs"], "all antenna layouts, polarization modes, redundancy lists and filter settings",
  "Tests use regular hexagonal or linear arrays with a few filters, one at a time.",
  ["hera_cal/redcal.py", "hera_cal/utils.py"], "get_pos_reds, add_pol_reds, get_reds, filter_reds, combine_reds, reverse_red, parse_pol_mode, reds_to_antpos, chunk_baselines_by_redundant_groups")

p("C09", "LST binning assigns every integration to its own bin, with all its attributes",
  "For increasing bin edges spanning at most 2 pi, every integration whose LST (modulo 2 pi) lies above the lower and up to the upper edge of a bin goes into exactly that bin, and integrations outside the edges go into none, on every branch of LST, wherever the edges wrap, whether the rows to read are given or found from the edges, and for output files holding any number of bins. Data, flags, sample counts, inpainting masks, times and LSTs of an integration stay together in the bin, in the order given, baselines absent from a file appear flagged with no samples, baselines stored reversed appear conjugated, nothing else enters the bin, and re-phasing multiplies each row by the phase factor of the shift from its LST to its bin's centre. Rolling the bins to a branch cut keeps every bin's contents together, ordered from the cut on.",
  ["inputs"], "all integration LSTs, bin edges including ones that wrap, night orders, and antenna pairs present or absent per night",
  "Tests bin a few nights on a regular grid away from bin edges and wraps.",
  ["hera_cal/lst_stack/binning.py", "hera_cal/lst_stack/config.py", "hera_cal/lst_stack/io.py"], "get_lst_bins, adjust_lst_bin_edges, lst_align, _permute_rows_inplace, lst_bin_files_for_baselines, _read_one_file, SingleBaselineStacker._roll_lists_to_lst_branch_cut, filter_required_files_by_times, make_lst_grid, LSTConfig/LSTConfigSingle")

p("C10", "LST-bin averages use exactly the good samples, weighted by their sample counts",
  "For positive sample counts, the average over nights in each LST bin, baseline, frequency and polarization is the weighted mean of exactly the usable samples: those unflagged and not inpainted, weighted by their sample counts; in inpainted mode also the inpainted ones, weighted by the frequency-mean count of their night's non-inpainted samples (single-baseline stacks weight every unflagged sample by its own count). The reported number of samples and of days count only non-inpainted good samples, whichever statistics are requested, and the bin is flagged if and only if it has no usable sample. Values stored under a flag, NaN included, never influence any output; permuting nights changes nothing; inputs are not modified unless asked. Threshold flagging adds flags exactly where the flagged fraction of nights exceeds the threshold; sigma clipping flags exactly the samples whose deviation exceeds it; the inpaint-model mean ignores wholly flagged nights and samples flagged after inpainting.",
  ["inputs"], "all data, flags, sample counts, inpainting masks, number of nights and thresholds",
  "Tests average constant or random data with at most a few flags; the guarantee is for every pattern, including all-flagged, zero-sample and NaN-under-flag entries.",
  ["hera_cal/lst_stack/averaging.py", "hera_cal/lst_stack/flagging.py"], "get_masked_data, lst_average, reduce_lst_bins, compute_std, get_lst_median/min_days, threshold_flags")

p("C11", "Redundant averaging is the weighted mean over each redundant group",
  "For finite visibilities, averaging over redundant groups gives, for each group and polarization, the weighted mean of its members, any member stored in reversed orientation being conjugated; flagged samples have no weight unless weights are given explicitly. The output is flagged exactly where every member has no weight (with flag propagation: no weight or a flag), its sample count is the total over the members with weight, and it carries the requested key (by default the first baseline of the group in the data). Baselines in no group are dropped, every group with data appears once, groups without data do not appear and do not disturb the others, and inputs are unchanged unless in-place work was asked for. Calibrating and averaging in one step gives the inverse-noise-variance-weighted mean of the calibrated members without excluded or flagged antennas, unweighted means of the autocorrelations, effective sample counts that make the radiometer prediction from the averaged autocorrelations exact, and chi-squared per antenna and polarization normalized by its expectation.",
  ["inputs"], "all data, flags, sample counts, group structures and member orientations",
  "Tests average one data file with one redundancy set and compare a few numbers.",
  ["hera_cal/utils.py", "hera_cal/apply_cal.py"], "utils.red_average, apply_cal.calibrate_and_red_avg")

p("C12", "Flag bookkeeping reaches exactly the intended samples",
  "Deriving antenna flags from baseline flags marks an antenna-feed at a time and channel exactly when the flagged fraction of its baselines, among those whose two antennas are not wholly flagged, exceeds the threshold (all of them flagged, for a threshold of 1; an autocorrelation counts for both of its sides), and everywhere when all its baselines are wholly flagged. Factorizing flags adds exactly the channels flagged in more than the threshold fraction of the not wholly flagged integrations, at all times, and then the integrations that have other flags in the window, at all channels. Threshold-and-broadcast repeats, on the flags common to all antennas, channels above the frequency threshold, then times above the time threshold, until nothing is added, gives the result to every antenna, and drops antennas with too few samples left compared to the best one; flags are only ever added. Minimal slices, distances to the nearest nonzero sample, frequency, time and LST blacklists (inclusive bounds, LST ranges across 24 h) and smoothing weights (0 flagged, blacklist weight, else 1) agree with their definitions for every mask. The calibration smoother places every file's gains and flags at their own times on the common time grid, unfilled slots being flagged. Inputs are modified only where documented.",
  ["inputs"], "all boolean flag arrays, thresholds, antennas and baseline sets",
  "Tests use small hand-made masks.",
  ["hera_cal/flag_utils.py", "hera_cal/smooth_cal.py"], "synthesize_ant_flags, factorize_flags, get_minimal_slices, distance_to_nearest_nonzero, flag_threshold_and_broadcast, _build_wgts_grid, build_freq_blacklist, build_time_blacklist, _to_antflags, CalibrationSmoother.__init__")

p("C13", "Rephasing only rotates phases, by the stated angle, in every form",
  "Re-phasing visibilities to another LST multiplies each sample by a unit-modulus factor fixed by its baseline vector, frequency, latitude and LST shift (scalar or per time; one baseline, several, or a container; in place or copied), and a zero shift or zero baseline changes nothing. Referencing gains to an antenna (one, or one per polarization) makes that antenna's phase zero, keeps all amplitudes and all products of one gain with the conjugate of another, touches only the polarizations asked for, and either spreads the reference's flags or refuses a reference that is flagged where others are not. The reference antenna picked automatically is of the right polarization and among those with the fewest flags, whatever the flag pattern. Inputs are not modified unless in-place work was asked for.",
  ["inputs"], "all data, baseline vectors, frequencies, LST shifts and gains",
  "Tests rephase one baseline by one shift.",
  ["hera_cal/utils.py", "hera_cal/smooth_cal.py"], "lst_rephase, eq2top_m, top2eq_m, rephase_to_refant, pick_reference_antenna")

p("C14", "Time interleaving, averaging and padding account for every sample",
  "De-interleaving time-ordered data and interleaving it again restores data, times and LSTs exactly; zero-padding and un-padding along any axes restores data and coordinate values exactly, pads holding zeros (True for flags) and coordinates continuing at the typical step. Averaging in time windows uses each input row in exactly one window, with flagged samples given no weight and the others weighted by sample count, by frequency-averaged count or equally as asked, output flags exactly where the whole window is flagged, output sample counts equal to the unflagged input total, times and LSTs averaged across the 2 pi wrap; averaging again without overwriting leaves existing results, times included, in place. Trimming wholly flagged channels or integrations at the edges of contiguous chunks drops exactly those, and restoring puts zeros back exactly there; rows are skipped exactly when they hold a run of flags of at least the limit, or a flag within the distance of a chunk edge.",
  ["inputs"], "all arrays, window lengths, numbers of interleaves, axes, pads, flag and weight patterns",
  "Tests use even divisions and one axis at a time.",
  ["hera_cal/frf.py", "hera_cal/vis_clean.py"], "deinterleave_data_in_time, interleave_data_in_time, timeavg_waterfall, FRFilter.timeavg_data, zeropad_array, truncate_flagged_edges, restore_flagged_edges, flag_rows_with_contiguous_flags, flag_rows_with_flags_within_edge_distance, find_discontinuity_edges")

p("C15", "Noise prediction and gain merging follow the radiometer and product rules",
  "The predicted noise variance of a baseline is the product of the autocorrelation amplitudes of its two antennas (each with its own feed, or of one stand-in antenna) divided by channel width, integration time and sample count, symmetric under reversing the baseline; widths not given are the typical steps of the baseline's own times and of the frequencies, or for a single integration the span of a longer baseline; per-antenna predictions are the square root for its autocorrelation and exist for exactly the same-feed autocorrelations. The interleaved estimate is the squared kernel difference over the kernel's sum of squares. Merging gain sets multiplies gains and ORs flags (absent counting as gain one, or flagged) antenna by antenna over the shared, or all, antennas, without modifying the inputs.",
  ["inputs"], "all autocorrelations, times, frequencies, sample counts, and lists of gain or flag dictionaries",
  "Tests compare one statistical average on one file.",
  ["hera_cal/noise.py", "hera_cal/abscal.py"], "predict_noise_variance_from_autos, per_antenna_noise_std, infer_dt, merge_gains")

p("C16", "Files written and read back carry the same data",
  "Writing visibilities, gains, flags or redundant solutions to disk and reading them back, whole or in part, returns the same arrays and metadata for every baseline, antenna, time, frequency and polarization.",
  ["inputs", "histories"], "all data sets, file formats and partial selections",
  "Tests round-trip a few sample files.",
  ["hera_cal/io.py"], "HERAData/HERACal read/write/update")

p("C17", "Iterative calibration solvers converge to a solution of the redundant system",
  "Redundant, absolute and smoothed calibration return gains that, applied to noiseless redundant data, reproduce the model up to the stated degeneracies and converge within tolerance.",
  ["inputs"], "all array layouts, gains, sky visibilities within the convergence basin",
  "Tests run a handful of simulated arrays with fixed seeds.",
  ["hera_cal/redcal.py", "hera_cal/abscal.py", "hera_cal/smooth_cal.py"], "omnical, lincal, logcal, DPSS filters")

with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), 'properties.jsonl'), 'w') as f:
    for q in P:
        f.write(json.dumps(q) + "\n")
