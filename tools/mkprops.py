"""Writes /verif/properties.jsonl (one place to edit the statements)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, observe=None, state=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if observe: a["observe_at"] = observe
    if state: a["state"] = state
    a["hook_needed"] = None
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a})
MS = "mizarlabs/model/model_selection.py"
BS = "mizarlabs/model/bootstrapping.py"
BG = "mizarlabs/model/sequentially_bootstrapped_bagging_classifier.py"
PL = "mizarlabs/model/pipeline.py"
LB = "mizarlabs/transformers/targets/labeling.py"
TS = "mizarlabs/transformers/targets/trend_scanning.py"
SW = "mizarlabs/transformers/sample_weights/__init__.py"
DS = "mizarlabs/transformers/sampling/down_sampling.py"
AU = "mizarlabs/transformers/sampling/average_uniqueness.py"
BZ = "mizarlabs/transformers/trading/bet_sizing.py"
F1 = "mizarlabs/transformers/microstructural_features/first_generation.py"
F2 = "mizarlabs/transformers/microstructural_features/second_generation.py"
VP = "mizarlabs/transformers/microstructural_features/vpin.py"
RZ = "mizarlabs/transformers/features/rolling_z_score.py"
CU = "mizarlabs/transformers/features/custom.py"
MA = "mizarlabs/transformers/technical/moving_average.py"
VO = "mizarlabs/transformers/technical/volume.py"
SD = "mizarlabs/structural_breaks/sdfc.py"
SA = "mizarlabs/structural_breaks/sadf.py"
CS = "mizarlabs/structural_breaks/cusum_chu_stinchcome_white.py"
FA = "mizarlabs/transformers/technical/factory.py"

p("C01", "Purged combinatorial cross-validation never leaks test information",
  "In every split produced by the purged and embargoed combinatorial cross-validator, no training sample's information interval (prediction time to evaluation time) overlaps the information interval of any test sample. Every training sample that comes after a test sample is predicted strictly later than that test sample's evaluation time plus the embargo, and no sample is both in the training and in the test set.",
  ["inputs", "configurations"], "all sample counts, non-decreasing prediction times, evaluation times not before prediction times, embargo lengths, group counts, test group counts, and every split",
  "the tests check a few fixed frames and mostly sizes of sets; leakage depends on the joint position of evaluation times, folds and embargo, which is unbounded",
  [MS], [("purge", MS + ":purge"), ("embargo", MS + ":embargo"), ("train set computation", MS + ":CombPurgedKFoldCV._compute_train_set"), ("test set computation", MS + ":CombPurgedKFoldCV._compute_test_set")],
  ["index arrays yielded by CombPurgedKFoldCV.split"])
p("C02", "Purging and embargo drop only samples that conflict with the test set",
  "In every split of the purged and embargoed combinatorial cross-validator, a sample is left out of the training set only if it is in the test set, or its information interval overlaps a test sample's information interval, or it is predicted after a test sample and no later than that sample's evaluation time plus the embargo. Every other sample is in the training set, in increasing position order and exactly once.",
  ["inputs", "configurations"], "all sample counts, non-decreasing prediction times, evaluation times not before prediction times, embargo lengths, group counts, test group counts, and every split",
  "an over-eager purge still looks like a valid split to the tests, which only sample a few layouts",
  [MS], [("purge", MS + ":purge"), ("embargo", MS + ":embargo"), ("train set computation", MS + ":CombPurgedKFoldCV._compute_train_set")],
  ["index arrays yielded by CombPurgedKFoldCV.split"])
p("C03", "The combinatorial splits enumerate every choice of test groups exactly once",
  "The samples are cut, in order, into the requested number of contiguous groups whose sizes differ by at most one, and the splits' test sets are exactly the unions of all choices of the requested number of test groups, each choice once, the first split testing on the last groups. The announced number of splits is the binomial coefficient of groups and test groups, and the announced number of back-test paths is that of groups less one and test groups less one.",
  ["inputs", "configurations"], "all sample counts, all group counts and all numbers of test groups",
  "tests fix a handful of (groups, test groups) pairs; the combinatorial identity has to hold for every pair",
  [MS], [("fold bounds", MS + ":CombPurgedKFoldCV._test_fold_bounds"), ("number of splits", MS + ":CombPurgedKFoldCV.__init__"), ("test set", MS + ":CombPurgedKFoldCV._compute_test_set"), ("number of paths", MS + ":compute_back_test_paths")],
  ["CombPurgedKFoldCV.split, CombPurgedKFoldCV.n_splits, compute_back_test_paths"])
p("C04", "Every back-test path predicts every sample once, always out of sample",
  "The combinatorial back-test returns as many paths as the number of test groups allows, and each path contains every sample exactly once with the sample's own target columns. Every prediction in a path comes from a model fitted on a split whose test set contains that sample, and across the paths each split's prediction of each of its test groups is used exactly once.",
  ["inputs", "configurations", "histories"], "all sample counts, group counts, numbers of test groups, models, and random shuffles",
  "the tests exercise the function for at most one configuration; the pairing of predictions and paths is random",
  [MS], [("path construction", MS + ":combinatorial_cross_validation_paths"), ("number of paths", MS + ":compute_back_test_paths")],
  ["frames returned by combinatorial_cross_validation_paths"])
p("B01", "The indicator matrix marks exactly the bars each label depends on",
  "The indicator matrix has one row per distinct time among label starts, label ends and the price bars from the first start to the last end, in time order, and one column per label in the order given. An entry is one if the row's time lies between that label's start and end, both included, and zero otherwise; labels with a missing end are rejected.",
  ["inputs"], "all label start and end times (label end not before its start) and all price bar indices",
  "tests use two small hand-made frames; bars missing from, or between, label times are an unbounded family of inputs",
  [BS], [("indicator matrix", BS + ":get_ind_matrix")], ["matrix and row times returned by get_ind_matrix"])
p("B02", "Average uniqueness is the mean over a label's bars of one over concurrency",
  "The average uniqueness of a label equals the mean, over the bars its information spans, of the reciprocal of the number of labels active on that bar. It is therefore always greater than zero and at most one, equals one exactly when no other label is active on any of its bars, and is returned per label in the order and with the index given.",
  ["inputs"], "all label layouts, including duplicate ends, nested and disjoint labels",
  "tests compare a handful of hand-computed values",
  [BS, AU], [("average uniqueness", BS + ":calc_average_uniqueness"), ("transformer", AU + ":AverageUniqueness.transform")], ["series returned by AverageUniqueness.transform, array returned by calc_average_uniqueness"])
p("B03", "Sequential bootstrap draws by uniqueness given the draws already made",
  "Sequential bootstrapping returns exactly the requested number of sample positions, all valid. Each batch of draws uses, for every sample, a probability proportional to the mean over the sample's bars of one over one plus the number of already drawn samples active on that bar, with the first batch uniform, whatever the history of earlier draws.",
  ["inputs", "histories", "configurations"], "all indicator matrices with non-empty columns, sample lengths, batch sizes, random states and draw histories",
  "tests check one book example and lengths; the incremental update must equal the full recomputation after every possible history of draws",
  [BS], [("incremental update", BS + ":_calc_update_avg_unique"), ("draw loop", BS + ":seq_bootstrap")], ["probabilities handed to the random generator and positions returned by seq_bootstrap"])
p("B04", "Bagged estimators train on their own draws and are scored out of bag",
  "Each base estimator is fitted on the features drawn for it with every sample weighted by its given weight times the number of times it was drawn (or on the drawn rows when weights are unsupported), where the draws come from the label columns of the training timestamps in their order. The out-of-bag votes of a sample only use estimators that did not draw it, and the stored draws are those used for fitting.",
  ["inputs", "configurations", "histories"], "all training sets and subsets of the labelled timestamps in any order, weights, numbers of estimators, sampling sizes and seeds",
  "tests check shapes and scores of a few fitted ensembles, never which rows reached which estimator",
  [BG], [("estimator building", BG + ":_parallel_build_estimators"), ("column selection", BG + ":SequentiallyBootstrappedBaseBagging._fit"), ("out of bag score", BG + ":SequentiallyBootstrappedBaggingClassifier._set_oob_score"), ("index generation", BG + ":_generate_bagging_indices")],
  ["arguments received by base estimators' fit, oob_decision_function_"])
p("W01", "Return-attribution weights share each bar's return among active labels",
  "The weight of a label is the absolute value of the sum, over the bars from its start to its end, both included, of the bar's log return divided by the number of labels active on that bar. Bars without a return contribute nothing, so weights are never negative or missing.",
  ["inputs"], "all close paths and label layouts on a time-ordered index",
  "tests compare one small example; which bars and which concurrency count enter a weight varies with every label layout",
  [SW, BS], [("weights transformer", SW + ":SampleWeightsByReturns.transform"), ("weight loop", SW + ":SampleWeightsByReturns._calculate_weights")], ["series returned by SampleWeightsByReturns.transform"])
p("W02", "Time-decay weights are linear in cumulative uniqueness and never negative",
  "Time-decay weights are a non-decreasing piecewise-linear function of the cumulative average uniqueness in time order, the newest label always having weight one. With a non-negative decay the line starts from the decay value at zero uniqueness; with a decay c between minus one and zero the oldest labels, up to the fraction -c of total uniqueness, get weight zero; no weight is ever negative.",
  ["inputs", "configurations"], "all label layouts and all decay values greater than minus one and at most one",
  "tests check a few decay values on one frame",
  [SW, AU], [("time decay transformer", SW + ":SampleWeightsByTimeDecay.transform")], ["series returned by SampleWeightsByTimeDecay.transform"])
p("S01", "CUSUM sampling selects exactly the events of the symmetric CUSUM recurrence",
  "The CUSUM filter runs an upward sum floored at zero and a downward sum capped at zero over the increments of the series, and selects a time exactly when one of them strictly passes the threshold, resetting only the sum that triggered. Selected times come from the series in order, and whether a time is selected depends only on values up to that time.",
  ["inputs"], "all series and all non-negative thresholds",
  "tests run one generated path; the state machine has unbounded histories",
  [DS], [("filter loop", DS + ":CUSUMFilter.transform")], ["index returned by CUSUMFilter.transform"])
p("L01", "A triple-barrier event ends at the first barrier touched",
  "For each bar with a volatility estimate, the event end time is the earliest of the expiration bar, the first bar from the start and strictly before the expiration bar whose side-adjusted return exceeds the profit-taking factor times volatility, and the first such bar whose side-adjusted return is below minus the stop-loss factor times volatility; a zero factor disables its barrier. Bars without enough future bars to have an expiration end only at a touched horizontal barrier found before the last bar, and otherwise have no end time, as have bars without a volatility estimate.",
  ["inputs", "configurations"], "all close paths, side series, factors, expiration lengths and volatility windows",
  "tests compare a few fixed paths; which barrier is first depends on every price in the window",
  [LB], [("barrier scan", LB + ":get_horizontal_barriers_hit"), ("barrier set-up", LB + ":triple_barrier_labeling"), ("labelling", LB + ":TripleBarrierMethodLabeling._transform")], ["event_end_time column returned by TripleBarrierMethodLabeling.transform, frame returned by triple_barrier_labeling"])
p("L02", "Triple-barrier labels and returns follow the event's first and last close",
  "The return of an event is the close at its end over the close at its start minus one, multiplied by the side under meta-labelling. The label is the sign of that return, or under meta-labelling one for a positive, zero for a negative and missing for a zero return, and zero when expiration labelling is on and no horizontal barrier was touched; bars without an event have neither return nor label.",
  ["inputs", "configurations"], "all close paths, sides, factors, expiration lengths and option combinations",
  "tests sample a few option combinations and paths",
  [LB], [("labels", LB + ":get_labels"), ("labelling", LB + ":TripleBarrierMethodLabeling._transform")], ["return and label columns returned by TripleBarrierMethodLabeling.transform"])
p("L03", "Daily volatility uses only past closes at least one day old and today's",
  "The daily volatility of a bar is the exponentially weighted standard deviation, with the given span, of the returns of the bars so far, where a bar's return compares its close with the close of the last bar strictly more than one day before it. Bars with no such earlier bar have no return and no volatility, and changing a later close never changes an earlier volatility.",
  ["inputs"], "all strictly increasing time indices, irregularly spaced or not, all close paths and all spans",
  "tests use a fixed regular index; the day-old partner of a bar depends on the whole index",
  [LB], [("daily volatility", LB + ":get_daily_vol")], ["series returned by get_daily_vol"])
p("L04", "Trend scanning labels each event with its most significant forward trend",
  "For each event with enough data after it, the reported t-value is that of the linear trend regression with the largest absolute t-value among the scanned forward windows, all starting at the event, the end time is the last bar of that window, the return is the close change from the event to that end and the label is the t-value's sign. Events without enough data have no result, only scanned window lengths can be chosen, and using the same labeller on another series gives that series' own labels.",
  ["inputs", "configurations", "histories"], "all close series, event subsets, window limits and steps, and all sequences of uses of one labeller",
  "tests compare one series with step one; a scan with a larger step or a second use is not reached",
  [TS, SD], [("window scan", TS + ":_get_t_val_and_event_end_time_index_at_index"), ("event scan", TS + ":_trend_scan_each_index"), ("label frame", TS + ":TrendScannerLabeling._transform"), ("regression", SD + ":get_beta_and_beta_var")], ["frame returned by TrendScannerLabeling.transform"])
p("Z01", "Bet sizes follow the probability's test statistic and stay within [0, 1]",
  "The bet size of a prediction is the absolute value of the prediction times twice the normal distribution function of (p - 1/n) / sqrt(p(1-p)) minus one, for winning probability p and n classes, times the primary side under meta-labelling. It is indexed like the input, always lies between zero and one for predictions and sides in [-1, 1], and is never rejected for probabilities strictly between zero and one.",
  ["inputs", "configurations"], "all probabilities in (0, 1), predictions and sides, class counts, with and without meta-labelling",
  "tests compare a few probability vectors",
  [BZ], [("bet sizing", BZ + ":BetSizingFromProbabilities._transform"), ("range check", BZ + ":BetSizingBase.transform")], ["series returned by BetSizingFromProbabilities.transform"])
p("Z02", "The averaged bet size is the mean of the bets active at that time",
  "At every time at which a bet starts or ends, the averaged signal equals the mean of the signals of all bets that have started by that time and end strictly after it or have no end, and zero when there is none. It is indexed by exactly the distinct start and end times, in time order.",
  ["inputs"], "all bet layouts, including simultaneous starts, ends without starts and missing ends",
  "tests compare a few fixed layouts",
  [BZ], [("time points", BZ + ":avg_active_signals"), ("active mean", BZ + ":_get_avg_active_signals")], ["series returned by avg_active_signals"])
p("Z03", "Discretised bet sizes are the nearest step, capped to [-1, 1]",
  "A discretised signal is the multiple of the step size nearest to the signal, rounded to three decimals, and capped to lie between minus one and one. The order and index of the signals are kept, and step sizes outside (0, 1) are rejected.",
  ["inputs", "configurations"], "all signals and all step sizes",
  "tests compare a few steps and signals",
  [BZ], [("discretisation", BZ + ":discretise_signal")], ["series returned by discretise_signal, discretised bet sizes"])
p("K01", "CUSUM level test statistic is the supremum over all earlier reference points",
  "The Chu-Stinchcombe-White statistic at a time is the largest, over all earlier times n, of the (one-sided or absolute) difference between the current value and the value at n divided by the square root of the mean squared increment so far times the distance t - n. The critical value reported is the square root of 4.6 plus the logarithm of the distance t - n of the first n that attains that supremum, one row per time from the second on.",
  ["inputs", "configurations"], "all series lengths and values and all three test sides",
  "tests compare a stored output of one series",
  [CS], [("statistic loop", CS + ":get_test_statistics_array"), ("difference", CS + ":get_y_t_y_n_diff"), ("test", CS + ":ChuStinchcombeWhiteStatTest.run")], ["frame returned by ChuStinchcombeWhiteStatTest.run"])
p("K02", "Chow-type Dickey-Fuller statistic is the t-value of the break-dummy regression",
  "For each candidate break with at least the minimum number of samples on both sides, the statistic is the ordinary least squares t-value of regressing the increments on the lagged level switched on after the break. It is indexed by the candidate breaks' times in order.",
  ["inputs", "configurations"], "all series and all minimum sample counts",
  "tests compare a stored output of one series",
  [SD], [("regression", SD + ":get_beta_and_beta_var"), ("break loop", SD + ":get_dfc_array"), ("test", SD + ":SupremumDickeyFullerChowStatTest.run")], ["series returned by SupremumDickeyFullerChowStatTest.run"])
p("K03", "Explosiveness statistic is the supremum over backward-expanding windows",
  "At each time, the explosiveness statistic is the largest, over all windows that end there and have at least the minimum length, of the t-value of the tested coefficient in the regression of the chosen model on that window. For sub- and super-martingale models it is the largest absolute t-value divided by the window-length term (t - t0) to the power phi, as documented.",
  ["inputs", "configurations"], "all series, models, lags, minimum lengths and penalties",
  "tests compare stored outputs of one series per model, with the penalty switched off",
  [SA, SD], [("inner supremum", SA + ":_get_sadf_at_t"), ("outer loop", SA + ":_sadf_outer_loop"), ("regressors", SA + ":_get_X_y"), ("lags", SA + ":_lag_df")], ["series returned by SupremumAugmentedDickeyFullerStatTest.run"])
p("F01", "Spread and volatility estimators equal their published rolling formulas",
  "On every bar with a full window, the Roll measure, Roll impact, Parkinson volatility, Corwin-Schultz spread and Beckers-Parkinson volatility equal their published formulas over exactly the last window of bars, row by row in the order given. Bars without a full window of data have no value, and the clipped estimators are never negative.",
  ["inputs", "configurations"], "all bar series with positive prices and volumes and all window lengths",
  "tests mostly check shapes and a few values for fixed windows",
  [F1], [("Roll measure", F1 + ":RollMeasure.transform"), ("Roll impact", F1 + ":RollImpact.transform"), ("Parkinson", F1 + ":ParkinsonVolatility.transform"), ("beta", F1 + ":_get_beta"), ("gamma", F1 + ":_get_gamma"), ("alpha", F1 + ":_get_alpha"), ("Corwin-Schultz", F1 + ":CorwinSchultzSpread.transform"), ("Beckers-Parkinson", F1 + ":BeckersParkinsonVolatility.transform")], ["arrays returned by the transformers"])
p("F02", "Price-impact estimators equal their published rolling formulas",
  "On every bar with a full window, the Kyle, Amihud and Hasbrouck lambdas equal the mean over exactly the last window of bars of, respectively, the absolute price change per unit of base volume, the absolute log return per unit of quote volume, and the absolute log return per square root of quote volume. Bars without a full window have no value, and no value is negative.",
  ["inputs", "configurations"], "all bar series with positive prices and volumes and all window lengths",
  "tests check a few values for fixed windows",
  [F2], [("Kyle", F2 + ":KyleLambda.transform"), ("Amihud", F2 + ":AmihudLambda.transform"), ("Hasbrouck", F2 + ":HasbrouckLambda.transform")], ["arrays returned by the transformers"])
p("F03", "VPIN is the windowed order-flow imbalance over the windowed volume",
  "From the window length on, VPIN equals the sum over the last window of bars of the absolute difference of buy and sell volume divided by the sum of total volume over the same bars, with zero in place of an undefined ratio. It has no missing value after the warm-up and lies between zero and one whenever buy and sell volumes are non-negative and add up to the total volume.",
  ["inputs", "configurations"], "all volume series and window lengths",
  "tests vary windows on fixed volume frames",
  [VP], [("VPIN", VP + ":VPIN.transform")], ["array returned by VPIN.transform"])
p("F04", "Rolling z-scores and local highs use exactly the last window of bars",
  "A rolling z-score is the bar's value minus the mean of the last window of values, divided by their sample standard deviation, for each of the predefined bar statistics; the local-high ratio is the highest high of the last window divided by the bar's close. Bars without a full window have no value, and unknown statistic names are rejected.",
  ["inputs", "configurations"], "all bar series, window lengths and statistic names",
  "tests only compare one window and series; some statistics are not tested at all",
  [RZ, CU], [("z-score", RZ + ":RollingZScoreTransformer.calc_z_score"), ("factory", RZ + ":RollingZScoreTransformerFactory.get_transformer"), ("local high", CU + ":LocalMaxToCloseRatio.transform")], ["arrays returned by the transformers"])
p("F05", "Moving-average crossovers are flagged on exactly the bars where they occur",
  "The crossover signal is one on a bar where the fast moving average is above the slow one after being at or below it on the previous bar, minus one on the mirrored event, and otherwise zero, or, when filling is on, the value of the most recent crossover. A fast window longer than the slow one is rejected, and the predictor returns these values.",
  ["inputs", "configurations"], "all price series, window pairs, with and without filling",
  "tests check a single series",
  [MA], [("crossover", MA + ":MovingAverageCrossOver.transform"), ("upward", MA + ":MovingAverageCrossOver._get_up_cross_indices"), ("downward", MA + ":MovingAverageCrossOver._get_down_cross_indices")], ["arrays returned by transform and predict"])
p("F06", "Exponential-average features equal their normalised fast-minus-slow formulas",
  "The exponential moving-average difference is the fast minus the slow exponentially weighted mean, divided by the fast mean plus one when normalised; the buy-sell imbalance is the fast minus the slow exponentially weighted mean of buy minus sell volume, divided by the total volume plus one, for the chosen volume type. The difference rejects a fast span longer than the slow one, and the imbalance an unknown volume type.",
  ["inputs", "configurations"], "all series, span pairs and volume types",
  "there is no or one test per transformer",
  [MA, VO], [("EWMA difference", MA + ":ExponentialWeightedMovingAverageDifference.transform"), ("imbalance", VO + ":BuySellImbalance.transform")], ["arrays returned by transform"])
p("F07", "Features at a bar never depend on later bars",
  "For every feature transformer and rule-based predictor, the value produced for a bar is a function of the bars up to and including that bar only. Changing, adding or removing later bars never changes an earlier feature value, and the output has one row per input bar, in the same order.",
  ["inputs", "histories"], "all bar series, parameters and all later continuations of a series",
  "no test compares a transformation of a prefix with that of its continuation; look-ahead is invisible in value checks",
  [F1, F2, VP, RZ, CU, MA, VO, LB], [("first generation", F1), ("second generation", F2), ("VPIN", VP + ":VPIN.transform"), ("rolling z-score", RZ), ("moving averages", MA), ("imbalance", VO), ("predictors", "mizarlabs/transformers/technical/rsi.py"), ("daily volatility", LB + ":get_daily_vol")], ["arrays returned by the transformers"])
p("F08", "Rule-based predictors give probability one to the class they predict",
  "For every rule-based predictor, each row of the predicted probabilities has a single one, in the column of the predicted class in the order of the announced classes, and zeros elsewhere. The predicted values are always among the announced classes.",
  ["inputs"], "all price series and rule parameters",
  "tests do not compare probabilities with predictions for arbitrary series",
  [MA, "mizarlabs/transformers/technical/rsi.py", "mizarlabs/transformers/technical/mean_reversion.py"], [("crossover predictor", MA + ":MovingAverageCrossOverPredictor.predict_proba"), ("RSI", "mizarlabs/transformers/technical/rsi.py:RSIConfirmation.predict_proba"), ("bar arrival RSI", "mizarlabs/transformers/technical/rsi.py:BarArrivalRSIStrategy.predict_proba"), ("mean reversion", "mizarlabs/transformers/technical/mean_reversion.py:MeanReversionStrategy.predict_proba")], ["arrays returned by predict and predict_proba"])
TE = "mizarlabs/transformers/technical/"
p("F09", "Rule-based strategies signal on exactly the bars their rules name",
  "The mean-reversion strategy predicts minus one on a bar whose close exceeds its exponential moving average by more than the threshold fraction of that average, one on a bar whose close falls short of it by more than that, and otherwise zero. RSI confirmation predicts one exactly when the RSI was below its threshold on each of the last confirmation-period bars and the moving average of the RSI is above its value on the previous bar, and otherwise zero. The bar-arrival strategy predicts one exactly when the RSI lies strictly between its lower and upper threshold and the fast minus the slow moving average of the time between bars, over the configured maximum, lies strictly between the bar-arrival thresholds, and otherwise zero. A bar with an undefined quantity gets zero. The MACD histogram crossover is half the change of the histogram's sign since the previous bar, and rejects a fast period longer than the slow one.",
  ["inputs", "configurations"], "all price series, bar times, thresholds and window lengths",
  "tests check single series, and not the warm-up bars, ties with the thresholds or irregular bars",
  [TE + "mean_reversion.py", TE + "rsi.py", TE + "macd.py"], [("mean reversion", TE + "mean_reversion.py:MeanReversionStrategy.predict"), ("RSI confirmation", TE + "rsi.py:RSIConfirmation.predict"), ("bar arrival", TE + "rsi.py:BarArrivalRSIStrategy.predict"), ("MACD histogram", TE + "macd.py:MACDHistogramCrossOver.transform")], ["arrays returned by predict and transform"])
p("P01", "Features of different time grids are aligned without looking ahead",
  "When features are aligned on a leading time grid, the value at a grid time aggregates, with the feature's chosen method, exactly the feature rows that lie after the last grid time that received rows and at or before this grid time, and repeats the previous value when there are none. Each feature row is used at most once, never before its own time, and the leading features are left unchanged.",
  ["inputs", "configurations"], "all time grids, denser, sparser, earlier or later, all feature values and aggregation methods",
  "tests align two regular grids; gaps and irregular grids are unbounded",
  [PL], [("alignment", PL + ":StrategySignalPipeline._align_on")], ["features returned by the alignment, create_dataset_primary"])
p("P02", "A signal's side and size come from the right models' outputs",
  "The side of each signal is the primary model's prediction at that time. Its size is the primary model's highest class probability, or with a meta-labelling model the probability of the primary being correct, or with a bet sizer the bet size computed from the winning class and probability of the meta-labelling model if there is one and of the primary model otherwise, together with the primary side; times without a side or size are dropped.",
  ["inputs", "configurations"], "all feature frames, primary and meta-labelling models, bet sizers and option combinations",
  "tests mock one model at a time with fixed outputs",
  [PL], [("side and size", PL + ":StrategySignalPipeline.get_side_and_size"), ("predictions", PL + ":StrategySignalPipeline.predict"), ("probabilities", PL + ":StrategySignalPipeline.predict_proba")], ["frame returned by get_side_and_size"])
p("P03", "Training sets pair each time's features with that time's own label",
  "The primary training set contains exactly the times with a label and no missing feature, each with its own features and label. The meta-labelling training set pairs, for such times at which the meta-labelling features exist, those features and the primary model's prediction and probabilities at that time (as configured) with one if the prediction equals the label and zero otherwise.",
  ["inputs", "configurations"], "all feature frames with missing values anywhere, label series on a subset of times, primary models and option combinations",
  "tests use frames without interleaved gaps",
  [PL], [("primary set", PL + ":StrategySignalPipeline.create_dataset_primary"), ("meta set", PL + ":StrategySignalPipeline.create_dataset_metalabeling"), ("meta features", PL + ":StrategySignalPipeline._get_features_for_metalabeling"), ("alignment with labels", PL + ":StrategySignalPipeline._align_X_dict_and_y")], ["frames returned by create_dataset_primary and create_dataset_metalabeling"])
p("P04", "Positions carry volatility-scaled exits and the validity of the signal",
  "For every bar of the leading frame the stop loss and the profit taking equal the daily volatility at that bar (or one when not volatility adjusted) times their factors, with the configured number of expiration bars, and a position joins them with that time's side and size. The strategy is flagged valid exactly when every size lies in [0, 1] and every side in [-1, 1], and frames with repeated times are rejected.",
  ["inputs", "configurations"], "all leading frames, factors, windows, signals and option combinations",
  "tests check columns and a single valid signal",
  [PL, LB], [("bars", PL + ":StrategyTrader.create_strategy_bars"), ("validity", PL + ":StrategyTrader._check_signal_has_valid_output"), ("position", PL + ":StrategyTrader.create_position")], ["frames returned by create_strategy_bars, create_signal and create_position, strategy_valid"])
p("P05", "The closing model decides which positions to close",
  "When a closing-positions model is configured, its answer for the given data is returned unchanged if it is 'all', 'long', 'short' or nothing, and any other answer is rejected. Without such a model nothing is closed.",
  ["inputs", "configurations"], "all closing models and all answers they may give",
  "the tests do not configure a closing model that answers",
  [PL], [("closing", PL + ":StrategySignalPipeline.determine_positions_to_close"), ("trader", PL + ":StrategyTrader.determine_positions_to_close")], ["value returned by determine_positions_to_close"])
p("R01", "Public operations never modify the data they are given",
  "Transforming, labelling, weighting, bootstrapping, splitting, testing for structural breaks, sizing bets, training-set creation and position creation leave every frame, series and array passed by the caller exactly as it was. Repeating an operation with the same object on the same data therefore gives the same result, and using it on other data in between makes no difference.",
  ["inputs", "histories"], "all inputs of all public operations, and all sequences of uses of one object",
  "tests build fresh inputs and objects per case and do not compare them afterwards",
  [F1, VP, LB, TS, SW, BZ, PL, MS, BS, SA, SD, CS, MA], [("transformers", "mizarlabs/transformers"), ("strategy bars", PL + ":StrategyTrader.create_strategy_bars"), ("trend scanning", TS + ":TrendScannerLabeling._transform"), ("in-place fills", VP + ":VPIN.transform")], ["arguments after each public call"])
p("T01", "Technical-indicator transformers route columns and options as requested",
  "A transformer created for an indicator passes the requested columns of the frame to the indicator in its declared argument order, applying the given renaming, together with exactly the given options, and returns the indicator's outputs unchanged as one column per output. Missing columns, unknown functions, unknown options and renamings of unknown arguments are rejected.",
  ["inputs", "configurations"], "all indicators, column choices, renamings, options and frames",
  "tests exercise a few indicators",
  [FA], [("argument selection", FA + ":TAFactory._check_and_set_args"), ("option check", FA + ":TAFactory._check_and_set_kwargs"), ("signature", FA + ":TAFactory.get_args_kwargs"), ("transformer", FA + ":TAFactory.create_transformer")], ["array returned by the created transformer"])

import jsonschema
S = json.load(open("/root/.vp/PROPERTIES.schema.json"))
for x in P: jsonschema.validate(x, S); assert len(x["title"]) <= 80, x["id"]
with open(os.path.join(os.path.dirname(__file__), "..", "properties.jsonl"), "w") as f:
    for x in P: f.write(json.dumps(x) + "\n")
print(len(P))
