"""Writes /verif/properties.jsonl (kept as a generator so that the text stays reviewable)."""
import json, os
P = []


def prop(id, title, statement, over, qtext, why, files, mech, state=None, observe=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state:
        a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    a["observe_at"] = observe or []
    a["hook_needed"] = None
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext},
              "why_tests_cant": why, "anchors": a})


prop("C01", "energy_from_power integrates power exactly and never invents energy in gaps",
     "For every power series, target frequency, maximum gap and labeling convention, energy_from_power returns a regular right-labeled series in which each interval's value equals the time integral (in Wh) of the power over that interval: a rectangular sum of right-labeled power, a trapezoidal sum of instantaneous power, after linear interpolation onto the target grid when the target is no longer than the median step. "
     "No energy is attributed to any stretch between consecutive valid (non-NaN) measurements that is longer than max_timedelta (by default the median step): an interval covered only by such stretches, lying before the first valid point, or labeled inside an over-long step of the input index is NaN, while an interval containing no such stretch is finite. "
     "A one-element series yields power times the (given or attached) interval length, and inputs with no determinable interval, a non-datetime index or an unknown power_type raise ValueError.",
     ["inputs", "configurations"],
     "all placements of NaN, missing rows and irregular steps in short series, all target frequencies (finer, equal, coarser, non-divisor, calendar), all gap limits around the step lengths, both labelings, naive/aware time zones incl. DST changes",
     "tests check about a dozen hand-written series; the gap logic depends on where NaNs, missing rows and interval edges fall relative to each other, which is combinatorial",
     ["rdtools/normalization.py"],
     [("energy_from_power", "normalization.py:energy_from_power"), ("gap mask and resample", "normalization.py:_aggregate")],
     observe=["energy_from_power return value"])

prop("C02", "interpolate is linear between valid neighbours, NaN in gaps and outside the data",
     "For every time-ordered series or frame and every target (index or frequency), interpolate returns on exactly the target index the straight-line interpolation in absolute time between the two valid points bracketing each target time, the original value where a valid point coincides, and NaN when the bracketing gap exceeds max_timedelta (default twice the median gap between valid points) or the target lies outside the span of the valid points. "
     "Each frame column is treated independently of the others, the same instants expressed in different time zones give the same values, and mixing aware and naive inputs raises ValueError. "
     "A warning is emitted exactly when the fraction of over-long gaps exceeds warning_threshold.",
     ["inputs", "configurations"],
     "all NaN/missing/irregular patterns of short series, all targets before/inside/after, on and off the points, gap limits just below/at/above the gap lengths, time-zone pairs, one to three columns",
     "tests use a few fixed patterns; the bracketing and gap rules must hold for every relative position of valid points, gaps and targets",
     ["rdtools/normalization.py"],
     [("interpolate", "normalization.py:interpolate"), ("gap bookkeeping", "normalization.py:_interpolate_series")],
     observe=["interpolate return value and warnings"])

prop("C03", "Normalized energy is measured over expected energy of the same interval",
     "normalize_with_expected_power and normalize_with_pvwatts return, for every interval of the regular input, the measured energy (the input itself, or the integral of right-labeled power) divided by the integral of expected power over the same interval, together with the integral of irradiance over that interval, both on one common index, whatever the relative granularity of measurement and model (a coarser model is linearly interpolated to the measurement times first). "
     "Expected DC power is rated power times irradiance over reference irradiance times 1 + gamma (cell temperature - reference temperature), the temperature factor being omitted when temperature or gamma is missing. "
     "An irregular measurement index or an unknown pv_input raises ValueError.",
     ["inputs", "configurations"],
     "all combinations of measurement and model granularity (finer, equal, coarser, offset), NaN placements, power/energy input, presence of temperature and gamma, reference conditions, attached or inferable frequency",
     "tests cover one or two granularities with constant data; alignment of intervals and NaN handling must hold for every combination",
     ["rdtools/normalization.py"],
     [("normalize_with_expected_power", "normalization.py"), ("pvwatts_dc_power, normalize_with_pvwatts", "normalization.py")],
     observe=["returned energy_normalized and insolation"])

prop("C04", "irradiance_rescale returns one constant times the model, or reports failure",
     "For every measured/modeled irradiance pair and either method, irradiance_rescale returns the modeled series multiplied by one constant factor, on the modeled series' own index, and when the measurement is exactly k times the model (k>0, irradiance above 200 W/m2) that factor is k regardless of NaNs or unequal indexes (as long as the ratio of 90th percentiles is within 15 % of k). "
     "For the iterative method the factor is a fixed point: iterating from the ratio of the 90th percentiles (accepted at once if already within the threshold of 1), it minimises, to the optimiser's accuracy, the squared error over the points with irradiance above 200 whose clear-sky index with that factor lies in [0.8, 1.2]. "
     "If the iterative method has not converged within max_iterations it raises ConvergenceError rather than returning a value, and an unknown method raises ValueError.",
     ["inputs", "configurations"],
     "all small irradiance patterns (clear, cloudy, low, NaN, outliers), scale factors, iteration limits from 1 up, thresholds",
     "tests check one rectangular-wave pattern and one non-convergent case",
     ["rdtools/normalization.py"],
     [("irradiance_rescale", "normalization.py:irradiance_rescale")],
     observe=["return value, ConvergenceError"])

prop("C05", "Insolation-weighted aggregation is the exact weighted mean of each bin",
     "For every normalized-energy and insolation series and every frequency, aggregation_insol returns for each calendar bin (bins anchored at midnight of the first day) the sum of insolation times normalized energy divided by the sum of insolation over that bin, and NaN for bins without insolation. "
     "Hence the aggregate of complete data lies between the bin's smallest and largest value, is unchanged when all insolation is multiplied by a constant or rows are reordered, scales with the energy, and depends only on that bin's rows.",
     ["inputs", "configurations"],
     "all small series over a few bins with NaN, zero insolation, gaps, unsorted rows, irregular times, aware/naive zones with DST, several frequencies incl. non-divisors of a day",
     "tests check two daily bins of constant data",
     ["rdtools/aggregation.py"],
     [("aggregation_insol", "aggregation.py:aggregation_insol")],
     observe=["return value"])

prop("C06", "Year-on-year rate is the median of exactly the one-year-apart slopes",
     "degradation_year_on_year pairs every point with the point whose one-year anniversary is the latest one at or before it, at most 8 days earlier, forms the slope 100 x (difference of recentered energies) / (days apart / 365), reports these slopes labeled at the later point, and returns their median as the rate; pairs with a NaN contribute nothing. "
     "Recentering divides by the robust median of the first year (or by 1 when disabled), so with recentering the rate is unchanged by multiplying all energies by a constant, it never depends on row order, and usage_of_points counts for each point whether it ends and whether it starts a slope (0, 1 or 2). "
     "Data spanning less than two years (allowing one sampling step and leap days) or yielding no pairs raises ValueError.",
     ["inputs", "configurations"],
     "daily/weekly/monthly/irregular samplings over two to four years incl. leap years, all placements of NaN and missing points within a window, shuffled rows, aware/naive, recenter on/off",
     "tests check rate recovery on synthetic smooth data with a tolerance; pairing errors of single points do not move the median noticeably",
     ["rdtools/degradation.py", "rdtools/utilities.py"],
     [("one-year asof pairing", "degradation.py:degradation_year_on_year"), ("first-year recentering", "utilities.py:robust_median")],
     observe=["Rd_pct, calc_info YoY_values, usage_of_points, renormalizing_factor"])

prop("C07", "Year-on-year uncertainty results are consistent whatever the random draws",
     "For every input and every sequence of random draws, the confidence interval returned by degradation_year_on_year is ordered, lies within the range of the underlying slopes (or of the bootstrap rates), is the central confidence_level percentile interval of the bootstrapped rates, widens (never shrinks) with confidence_level, and the exceedance level is the (100 - exceedance_prob) percentile of the same rates. "
     "The choice of uncertainty method never changes the rate, slopes, renormalizing factor or usage counts, the bootstrapped rates are obtained by resampling with replacement the slopes (simple) or circular blocks of residuals around the fitted trend (circular_block), and a block length above one third of the series or an irregular series raises ValueError for circular_block. "
     "A method other than these returns the rate alone.",
     ["inputs", "configurations", "schedules"],
     "all extreme answers of the random source, confidence levels and exceedance probabilities over a grid, all three methods, regular and irregular series",
     "tests run one seedless draw and compare loosely",
     ["rdtools/degradation.py", "rdtools/bootstrap.py"],
     [("bootstrap of slopes", "degradation.py:degradation_year_on_year"), ("circular block", "bootstrap.py")],
     observe=["confidence_interval, exceedance_level, bootstrap_rates"])

prop("C08", "OLS and classical-decomposition rates are exact least squares on the right data",
     "degradation_ols returns 100 x slope / intercept of the least-squares line through the non-NaN points against time in years of 365 days from the first timestamp, with the matching slope, intercept, rmse and standard errors; the classical decomposition does the same for the centred 365-day moving average restricted to points at least half a year from both ends and also returns that average. "
     "Both rates are unchanged by multiplying the series by a constant, and the classical decomposition raises ValueError for any series with missing data or without a defined frequency. "
     "The Mann-Kendall verdict equals the two-sided 5 % Mann-Kendall test (with tie correction) on the moving average, and confidence intervals are ordered and widen with confidence_level for every random draw.",
     ["inputs", "configurations"],
     "small value patterns (trend, seasonal, steps, ties, NaN) at several samplings over one to four years; confidence levels; random-source answers",
     "tests check rate recovery for smooth exponential decay",
     ["rdtools/degradation.py"],
     [("regressions", "degradation.py:degradation_ols, degradation_classical_decomposition"), ("Mann-Kendall", "degradation.py:_mk_test")],
     observe=["Rd_pct, calc_info"])

prop("C09", "Threshold filters keep exactly the points inside their documented bounds",
     "normalized_filter, poa_filter and tcell_filter keep a point exactly when it lies strictly between the bounds (None meaning unbounded where allowed); csi_filter keeps it exactly when measured/clear-sky lies within 1 +/- threshold inclusive; quantile_clip_filter exactly when it is below 99 % of the robust quantile; insolation_filter exactly when it is at or above the quantile; hour_angle_filter exactly when the solar hour angle lies within the inclusive limits. "
     "NaN input is never kept, the result is a boolean series on the input's index in the input's order, each point's verdict depends only on its own value and the documented thresholds, and clearsky_filter/clip_filter dispatch to the named model and reject unknown names with ValueError.",
     ["inputs", "configurations"],
     "all assignments of values just below/at/above each bound, NaN and infinities over short series, default and non-default bounds, index orders and zones",
     "tests check a few interior points with default bounds",
     ["rdtools/filtering.py"],
     [("threshold filters", "filtering.py")],
     observe=["returned boolean series"])

prop("C10", "Outlier filters drop exactly the points their windowed rule defines",
     "For every series, two_way_window_filter drops a point exactly when it differs by at least outlier_threshold (as a fraction of the 99 % quantile) from both the backward- and the forward-looking rolling median (windows closed on both ends, at least 5 points, otherwise the point is kept on that side); hampel_filter drops it exactly when it differs from the centred rolling median by more than t0 x 1.4826 x the rolling median absolute difference; directional_tukey_filter keeps it exactly when its deviation from the forward or from the backward rolling median lies strictly within k x IQR of the quartiles of those deviations. "
     "Verdicts are boolean, on the input's index, and invariant to multiplying the series by a positive constant (and, except for two_way_window, to adding one).",
     ["inputs", "configurations"],
     "all short series over a small value alphabet with outliers, NaN, gaps; window lengths, thresholds and k around the decision boundary",
     "tests check one planted outlier with default parameters",
     ["rdtools/filtering.py"],
     [("two_way_window_filter, hampel_filter, directional_tukey_filter", "filtering.py")],
     observe=["returned boolean series"])

prop("C11", "Clipping filters flag exactly flat-topped stretches, in any units",
     "logic_clip_filter marks as clipped exactly the points prescribed by its documented rule (near-constant rolling windows set daily clipping levels; points at those levels, plus an overall level when clipping is widespread, are excluded) for every sampling interval, mounting type, cutoff and window length; xgboost_clip_filter excludes only points at least 10 % of the range high and at least 95 % (90 % below 5-minute data) of that day's maximum. "
     "Both return a boolean series on exactly the input index (the logic rule also with duplicate timestamps), give the same verdict when the series is multiplied by a positive constant or renamed, and leave a strictly varying, never flat day untouched by the logic rule. "
     "A non-datetime index, unsorted index, unknown mounting type, or ten or fewer readings raise an error, never a mask.",
     ["inputs", "configurations"],
     "one to three synthetic days with all combinations of clipped/unclipped/frozen/night/gap/NaN days, sampling 1-60 min, tracking/fixed, parameter grid, aware/naive/DST",
     "tests check a handful of repeated patterns and expected counts",
     ["rdtools/filtering.py", "rdtools/utilities.py"],
     [("logic_clip_filter", "filtering.py"), ("xgboost_clip_filter", "filtering.py"), ("robust_quantile", "utilities.py")],
     observe=["returned boolean series"])

prop("C12", "Clear-sky detection uses the documented parameters for every data frequency",
     "pvlib_clearsky_filter returns exactly the Reno-Hansen clear-sky mask of the union of measured and clear-sky timestamps for the given parameters. "
     "With lookup_parameters and a series of known frequency, window length, max_diff, var_diff and slope_dev are the recommended values for 1, 5, 15 and 30 minutes, linearly interpolated between and held constant outside that range, all other parameters keep the passed values, and without a known frequency the passed values are used. "
     "Extra keyword arguments reach the detector, and the result is a plain boolean series even if components are requested.",
     ["inputs", "configurations"],
     "every data frequency in the table and between/outside, attached or absent frequency, grids of clear/cloudy day shapes tuned so that each criterion flips around its threshold, each parameter overridden",
     "tests check one frequency and one short series",
     ["rdtools/filtering.py"],
     [("pvlib_clearsky_filter", "filtering.py")],
     observe=["returned boolean series"])

prop("C13", "TrendAnalysis keeps a point only if every configured filter keeps it",
     "For every filter configuration, the final sensor and clear-sky masks of a TrendAnalysis equal the logical AND of exactly the configured filters, each evaluated with its configured parameters on its documented input, both before and after aggregation; a filter absent from the configuration has no effect, and removing a filter never removes a kept point. "
     "Ad-hoc masks are ANDed in, with NaN entries treated as False and timestamps absent from the mask treated as True, and filters whose required data are missing raise ValueError. "
     "Results are invariant to the order in which filters were configured.",
     ["configurations", "inputs", "histories"],
     "all subsets of filters up to a size and all pairs/triples with non-default parameters; ad-hoc masks with NaN, missing or extra timestamps; sensor and clear-sky workflows",
     "tests check each filter alone with one dataset",
     ["rdtools/analysis_chains.py", "rdtools/filtering.py"],
     [("filter composition", "analysis_chains.py:TrendAnalysis._filter, _aggregated_filter, _call_clearsky_filter")],
     observe=["sensor_filter, clearsky_filter, *_components, aggregated filters"])

prop("C14", "TrendAnalysis results equal the documented pipeline of public functions",
     "For every supported construction (power or energy input, interpolation frequency, aggregation frequency, pvwatts or expected-power model, measured/ambient/default temperatures, windspeed, time zones) sensor_analysis and clearsky_analysis report the same normalized energy, insolation, aggregates and degradation or soiling results that the public functions produce when applied step by step in the documented order to the same data. "
     "Aggregated points use only data that passed the filters, intervals are never counted twice or dropped, and missing required inputs, or data spanning less than two years for a year-on-year analysis, raise an error instead of a result.",
     ["inputs", "configurations"],
     "all pairs of constructor options and analysis keyword overrides over small multi-year datasets",
     "tests check one dataset per option and compare one scalar with a stored value",
     ["rdtools/analysis_chains.py"],
     [("_sensor_preprocess, _clearsky_preprocess, _aggregate, _yoy_degradation, _srr_soiling", "analysis_chains.py")],
     observe=["results dict, sensor_aggregated_*, clearsky_aggregated_*"])

prop("C15", "TrendAnalysis results depend only on configuration, not on call history",
     "For every sequence of public operations on one or several TrendAnalysis objects (running sensor or clear-sky analyses in any order and any number of times, plotting, editing and restoring filter settings, copying, pickling, failing calls), running an analysis yields the same results as on a fresh object with the same current configuration. "
     "Objects never influence each other, and the data given by the user and stored in the object are not altered by running analyses.",
     ["histories"],
     "all operation sequences up to the depth bound over the alphabet of public operations, on one object and on two interleaved objects",
     "tests run one analysis per fresh object",
     ["rdtools/analysis_chains.py"],
     [("analysis state", "analysis_chains.py:TrendAnalysis")],
     state=[("filter_params / filter_params_aggregated", "current filter configuration", "analysis_chains.py"),
            ("results, *_filter, pv_energy", "derived analysis state", "analysis_chains.py")],
     observe=["results and derived attributes after each sequence"])

prop("C16", "Invalid filter names never enter a TrendAnalysis configuration",
     "Through every way of changing the filter settings of a TrendAnalysis (assignment of a whole dict, item assignment, update in all its call forms, setdefault, in-place merge) and every sequence of such changes, a name that is not a supported filter is rejected with KeyError, and the settings then contain only supported names. "
     "Valid settings are stored exactly as given, a rejected change leaves the previously stored settings in force, and the settings survive copying and pickling.",
     ["histories", "inputs"],
     "all sequences of mutation operations up to the depth bound with valid and invalid names, for both settings dictionaries",
     "tests check one rejected assignment per dictionary",
     ["rdtools/analysis_chains.py"],
     [("ValidatedFilterDict", "analysis_chains.py"), ("setters", "analysis_chains.py:TrendAnalysis")],
     observe=["filter_params, filter_params_aggregated contents and KeyError"])

prop("C17", "Analysis functions never modify the caller's data",
     "No public function or class of the package changes any object passed to it: for every call, whether it returns or raises, all argument series, frames, indexes, dicts and lists (values, dtypes, names, index names, frequencies, order and keys) are identical before and after the call. "
     "This includes data handed to analysis objects at construction and then used by any number of analysis runs, filters supplied in configuration dicts, and results passed to plotting functions.",
     ["inputs", "histories"],
     "every public entry point with every argument shape of the catalogue (named/unnamed, NaN, attached frequency, aware/naive, int dtype, read-only arrays), including failing calls",
     "tests look at return values only",
     ["rdtools/normalization.py", "rdtools/filtering.py", "rdtools/degradation.py", "rdtools/aggregation.py", "rdtools/availability.py", "rdtools/soiling.py", "rdtools/analysis_chains.py", "rdtools/plotting.py", "rdtools/bootstrap.py"],
     [("defensive copies at function entry", "all modules")],
     observe=["deep comparison of arguments before/after"])

prop("C18", "Calls are independent: no result depends on other calls or threads",
     "For every pair or triple of public calls executed one after another in any order, including calls that fail, calls differing in one argument or option only, and calls on the same objects with new contents, the result of each call equals its result in a fresh process (given the same random draws); calls leave the process-wide settings (warning filters, numpy error handling, pandas and matplotlib options) as they were and never reseed the global random source. Re-running an analysis on the same object gives what a new object gives, and objects of one class do not influence each other. For every interleaving of two calls running in two threads, each call returns what it returns alone; in particular lazily loaded shared resources are never observed half initialised.",
     ["schedules", "histories"],
     "all ordered pairs (triples in the thorough tier) from the call catalogue; all schedules of two threads up to the preemption bound at source-line granularity",
     "tests run calls in isolation, in one thread, in one order",
     ["rdtools/filtering.py", "rdtools/clearsky_temperature.py", "rdtools/plotting.py", "rdtools/soiling.py", "rdtools/degradation.py", "rdtools/normalization.py"],
     [("lazy clipping model", "filtering.py:_load_xgboost_clipping_model"), ("module globals", "all modules")],
     state=[("clipping model", "lazily loaded classifier shared by all calls", "filtering.py")],
     observe=["call results under every order/schedule"])

prop("C19", "Soiling intervals partition the record and follow the documented criteria",
     "For every daily soiling input, the interval summary of the stochastic rate-and-recovery analysis lists consecutive non-overlapping intervals that cover the record from the first to the last available day (less the first and last interval with trim) and are delimited exactly at the cleaning events: steps of the centred rolling median of the recentered, gap-filled metric above the clean threshold (given, or the outlier fence of the absolute steps), precipitation above its threshold, or their combination as the chosen criterion says (coincidence within one day), and the borders of data gaps longer than day_scale. Start and end dates, length, slope, slope bounds and inferred start and end losses are those of the Theil-Sen fit to the interval's positive days. An interval is valid exactly when it has more than min_interval_length such days, a slope that is not positive, a relative slope error below max_relative_slope_error and no downward step of the rolling median of max_negative_step or more; invalid intervals carry slope zero. Input that is not daily, has no valid interval or names an unknown criterion raises an error; days without insolation only lose their weight.",
     ["inputs", "configurations"],
     "all small daily sawtooth profiles (depth, length, recovery, NaN, missing days, rain) with each clean criterion, threshold, day scale, trim and recentering option",
     "tests check three fixed profiles and interval counts",
     ["rdtools/soiling.py"],
     [("daily metrics", "soiling.py:SRRAnalysis._calc_daily_df"), ("interval summary", "soiling.py:SRRAnalysis._calc_result_df")],
     observe=["soiling_interval_summary"])

prop("C20", "Soiling-ratio Monte Carlo stays within what the intervals allow, for all draws",
     "For every input, method and sequence of random draws, each stochastic soiling-ratio profile is at most 1, is linear within each interval, with a slope drawn between the slope bounds of a valid interval and zero in an invalid one, and the first valid interval starts at 1. With perfect_clean every interval starts at 1; with random_clean a valid interval starts between the end of the previous valid one and 1; with half_norm_clean it starts at 1 minus the absolute value of a normal draw whose sigma is one third of the distance to 1 left by the inferred recovery; each stretch of invalid intervals holds one constant between the end before it and the start after it (1 where there is none), and a warning is given for these two methods when at least 20 % of the days lie in invalid intervals. The reported soiling ratio and confidence interval are the median and central percentiles of the insolation-weighted means of exactly these profiles, the exceedance level is their (100 - exceedance_prob) percentile, and the number of returned profiles equals reps. An unknown method raises ValueError.",
     ["inputs", "configurations", "schedules"],
     "all extreme answers (low, middle, high) of the random source at each draw up to a deviation bound; all methods; confidence levels; reps",
     "tests use a fixed seed and compare scalars",
     ["rdtools/soiling.py"],
     [("Monte Carlo", "soiling.py:SRRAnalysis._calc_monte"), ("run", "soiling.py:SRRAnalysis.run")],
     observe=["soiling_ratio_perfect_clean, stochastic_soiling_profiles, sr, ci, exceedance_level"])

prop("C21", "Annual soiling ratios and monthly soiling rates summarise the runs exactly",
     "annual_soiling_ratios reports for every calendar year in the profiles the median and the central confidence interval, over profiles, of that year's insolation-weighted mean soiling ratio, weighting by the daily insolation on matching days; mismatched indexes warn. monthly_soiling_rates samples the slopes of each valid interval uniformly between its bounds for every calendar month it touches, in proportion to the days it has in that month, ignores intervals shorter than min_interval_length, above max_relative_slope_error or invalid, and reports for each of the twelve months the median and central percentiles of these samples with the number of contributing intervals, NaN (and 0) for a month without any. Confidence bounds are always ordered.",
     ["inputs", "configurations", "schedules"],
     "all small sets of profiles, insolation patterns, year spans and interval sets incl. year boundaries and leap days; extreme answers of the random source",
     "tests check one sample profile set",
     ["rdtools/soiling.py"],
     [("annual_soiling_ratios, monthly_soiling_rates", "soiling.py")],
     observe=["returned data frames"])

prop("C22", "CODS components multiply back to the model and stay within physical bounds",
     "For every daily performance series, the CODS decomposition returns components whose product (soiling ratio x seasonal component x degradation trend x residual shift) equals the reported total model, whose residuals are the measured values divided by it, with soiling ratio at most 1 (when clipped), a seasonal component repeating by day of year, a degradation trend that is the straight line implied by the reported rate, and components close to the true ones on clean synthetic data. For every pattern of successful, non-stationary and failing fits, run_bootstrap reports the degradation and the soiling loss (in percent) as the weighted mean over exactly the successful fits with ordered central confidence bounds, the components of the best fit, and bounds of every component; failing fits are left out without affecting the others, and RuntimeError is raised when more than half of the initial fits are not stationary. A non-daily index or an order without 'SR' raises ValueError.",
     ["inputs", "configurations", "fault_sequences"],
     "small grid of synthetic degradation/soiling/seasonal profiles x order/soiling options x bootstrap failures at every fit index",
     "tests run one synthetic profile",
     ["rdtools/soiling.py", "rdtools/bootstrap.py"],
     [("iterative_signal_decomposition", "soiling.py:CODSAnalysis"), ("run_bootstrap", "soiling.py:CODSAnalysis")],
     observe=["result_df, degradation, soiling_loss"])

prop("C23", "Every bootstrap sample is the model with residuals in circular blocks",
     "For every signal, model fit, block length and seed, each generated bootstrap sample is, on the signal's index, the model combined (multiplied or added, per decomposition type) with a rearrangement of the residuals made of consecutive circular blocks of the block length whose starts are drawn uniformly, and exactly the requested number of samples is produced; equal seeds give equal samples. Confidence intervals built from samples are the central percentiles of the metric over all samples, with the exceedance level at the (100 - exceedance_prob) percentile. An unknown decomposition type raises ValueError.",
     ["inputs", "configurations", "schedules"],
     "all signals over a small alphabet up to a length, all block lengths up to it, both types, all block-start answers of the random source",
     "tests check shape and one mean",
     ["rdtools/bootstrap.py"],
     [("_make_time_series_bootstrap_samples, _construct_confidence_intervals", "bootstrap.py")],
     observe=["returned samples, intervals"])

prop("C24", "Availability loss is never negative and zero when all subsystems are up",
     "For every set of subsystem powers, meter power, expected power and production pattern, the lost power from subsystem outages reported by AvailabilityAnalysis is non-negative, zero whenever no subsystem is down (below its low threshold while others produce), bounded by the expected contribution of the subsystems that are down and by the system power limit, and the total loss is the sum of subsystem and system losses. "
     "Subsystem contributions are weighted by relative size, results do not depend on subsystem column order or on scaling of all powers and energies together, and reported availability over any period is 1 - loss / (loss + production), within [0, 1] whenever production is not negative and not both are zero. "
     "Indexes that differ raise ValueError.",
     ["inputs", "configurations"],
     "all on/off/NaN/comms patterns of two or three subsystems over short records, thresholds, relative sizes, limits, resampling frequencies",
     "tests check a fixed two-inverter day with a few outage shapes",
     ["rdtools/availability.py"],
     [("_calc_loss_subsystem, _combine_losses", "availability.py")],
     observe=["loss_subsystem, loss_total, results"])

prop("C25", "System outages are classified by metered energy and conserve it",
     "For every pattern of meter and subsystem communication loss, each whole-system dark interval is reported exactly once with its start, end, expected energy, recorded production and type: 'comms' versus 'real' according to whether the cumulative meter shows production within or below the learned uncertainty of the expected one, and 'unknown' (with no loss claimed) when the meter data around it cannot tell. "
     "The system loss integrates over each real outage to the energy shortfall (expected minus produced, never negative), is zero outside real outages, and the corrected cumulative energy stays monotone and agrees with the meter at outage ends. "
     "Running the analysis again gives the same results.",
     ["inputs", "configurations", "fault_sequences"],
     "all placements and lengths of outages of each kind in a short record, incl. at the start and end, adjacent, with missing or reset meters",
     "tests check six fixed outage scenarios",
     ["rdtools/availability.py"],
     [("outage detection and classification", "availability.py:AvailabilityAnalysis._calc_loss_system")],
     observe=["outage_info, loss_system, energy_cumulative_corrected"])

prop("C26", "Clear-sky temperature is finite, bounded and location/time consistent worldwide",
     "For every latitude/longitude on the globe and every localized time index (any frequency, irregular, any time zone, across clock changes), get_clearsky_tamb returns on exactly the given times the documented daily curve between the night and day values of the nearest climatology pixel (wrapping at the date line, where -180 and 180 agree, and clamped at the south pole), these values being the Gaussian-smoothed monthly ones of the given window and width, interpolated in time between days. The result therefore lies within the range of the smoothed values, peaks in the solar afternoon, and is the same for the same instants expressed in any time zone up to the daily smoothing. Where the climatology has no data the result is NaN and a warning is issued, never a wrong value.",
     ["inputs"],
     "a full grid of latitudes and longitudes including every edge, months, frequencies, time zones and DST changes, window sizes",
     "tests check two locations",
     ["rdtools/clearsky_temperature.py"],
     [("get_clearsky_tamb", "clearsky_temperature.py")],
     observe=["returned series, warnings"])

prop("C27", "Robust statistics treat NaN and near-zero night values identically",
     "robust_quantile, robust_median and robust_mean discard NaN and every value not above one thousandth of the q-quantile of the NaN-as-zero data, and return the plain quantile, median or mean of the rest. "
     "Hence the result is the same whether missing data are NaN or zero, does not depend on row order, scales with the data, and lies between the smallest and largest retained value.",
     ["inputs"],
     "all series over a small alphabet of NaN, zero, tiny, boundary and regular values up to a length, several q, integer dtype",
     "tests check one series",
     ["rdtools/utilities.py"],
     [("robust_quantile, robust_median, robust_mean", "utilities.py")],
     observe=["return values"])

prop("C28", "Plots display exactly the analysis results they are given",
     "For every result passed to the degradation summary, degradation time-series, soiling Monte Carlo, soiling interval, soiling rate, availability and filter-tuning plots, the drawn data equal the supplied results (the same points at the same times, the slopes in the histogram, the point, interval and rate values, the rolling median of slopes), each requested option changes only what it names, and no data are dropped, duplicated or rescaled beyond the documented normalisation. "
     "Plotting never changes the analysis state or opens on a wrong axis/figure when several plots are made in one session.",
     ["inputs", "configurations", "histories"],
     "all small result sets x plot options (bounds, colors, detailed, profiles, rolling days, fig given) and sequences of plots",
     "tests only check that a figure object comes back",
     ["rdtools/plotting.py", "rdtools/analysis_chains.py"],
     [("plot functions", "plotting.py")],
     observe=["artist data of the returned figures"])

with open(os.path.join(os.path.dirname(__file__), '..', 'properties.jsonl'), 'w') as f:
    for p in P:
        f.write(json.dumps(p, ensure_ascii=False) + '\n')
print(len(P))
