"""Per property: level claimed when every obligation is discharged, and notes."""
import json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
IDS = [json.loads(l)["id"] for l in open(os.path.join(HERE, "properties.jsonl"))]
BASE = ("Contracts on the current source, every obligation discharged for all lengths and values by the verifier in vf/eng (z3, cvc5 and its own rules, all trusted); "
        "floats are reals with a missing flag; library contracts are assumed. ")
PROOF = {
    "F01": "Every transformer's transform, for every window, all five estimators.",
    "F02": "The three lambdas' transforms, for every window.",
    "F03": "VPIN's transform, for every window and every volume pattern; bounds under the stated volume precondition.",
    "F04": "Both transformers, for every window and every predefined statistic.",
    "F05": "The transformer and the predictor, with and without filling, for every pair of windows.",
    "F06": "Both transformers, for every span and volume type; ewm().mean() is a library contract.",
    "F07": "Each transformer's and predictor's output term at bar k mentions bars up to k only; TA-Lib indicators are assumed causal.",
    "F08": "Every rule-based predictor: predict and predict_proba.",
    "F09": "The three strategies' predict and the MACD crossover's transform, for every window and threshold (mean reversion: threshold >= 0, average not zero; bar arrival: maximum not zero); TA-Lib indicators opaque.",
    "S01": "The filter and its compiled loop (verified as its Python source) against the recurrence, by loop contract; threshold >= 0.",
    "Z01": "BetSize.transform in all configurations; the normal distribution function by axioms (monotone, symmetric, in (0, 1)).",
    "Z02": "avg_active_signals and its kernel for any number of bets in any order.",
    "Z03": "The discretiser for every step size and signal.",
    "K01": "The three kernels and the transformer; where the mean squared increment so far is positive (otherwise x/0).",
    "K02": "The transformer and its regressions; matrix inversion is an opaque function of the entries, no singular regression.",
    "K03": "All models for any series length, window and phi, with lags from {1, 2, 3, [2], [1, 3]}; matrix inversion opaque, estimated variances positive.",
    "B01": "get_ind_matrix for any labels and bars, ties and orders included.",
    "B02": "Average uniqueness and AverageUniqueness.transform; no label ends before it starts.",
    "B03": "The update of the uniqueness and the whole drawing loop for any indicator matrix, draw count and batch size, the random generator's answer arbitrary; every sample active on some bar, float32 exact.",
    "B04": "The building loop, the constructor and fit (first fit, refit, warm start; jobs by sklearn's and joblib's contracts) and the out-of-bag score for any number of estimators, samples, features and draws; base estimators row-wise and opaque, draws by B03.",
    "W01": "The transformer for any labels and closes; no label ends before it starts.",
    "W02": "The transformer for every decay > -1, over the contract of AverageUniqueness.transform (B02).",
    "L01": "The labeller's transform and the barrier kernel for any closes, factors and expiration lengths >= 0; get_daily_vol by its contract (L03).",
    "L02": "get_labels and the labeller's transform in all configurations; every event ends at a bar of the closes.",
    "L03": "get_daily_vol for any closes; ewm().std() is a library contract.",
    "L04": "The kernel, the per-event function and transform for any series, events, window range and step; matrix inversion opaque, estimated variances positive.",
    "C01": "CombPurgedKFoldCV.split, purge and embargo for any numbers of samples, groups and test groups; prediction times do not decrease.",
    "C02": "As C01: the converse inclusion.",
    "C03": "Group cuts, enumeration of choices and announced numbers; itertools.combinations and array_split by contract.",
    "P01": "The alignment for one to three other grids, every aggregation method; times distinct and increasing.",
    "P02": "The signal pipeline in every configuration with opaque row-wise models; _align_on by its contract (P01).",
    "P03": "Both training sets in every configuration with opaque row-wise models; _align_on by its contract (P01).",
    "P04": "The strategy frames and positions; get_daily_vol by its contract (L03).",
    "P05": "The closing decision for every answer of the model.",
    "C04": "The whole function for any numbers of samples, groups and test groups and every shuffle; split and the number of paths by their contracts (C01-C03), row-wise model, targets over the samples' times.",
    "R01": "Frame obligations (no store into an argument, no attribute read before it is set again, no state kept in modules, classes or defaults) on every path of every operation under contract of the other properties; "
           "with the same random draws.",
    "T01": "Every TA-Lib function: routing of every subset of options and renaming of one or two arguments, indicators opaque.",
}
JIT = ("S01", "Z02", "K01", "K02", "K03", "W01", "B02", "B03", "L01", "L04", "F01")
OTHER = "Bounded run-time contract check of the real code against an oracle written from the statement."
NOTES = {
}
PROPS = {}
for i in IDS:
    PROPS[i] = {"level": "proof" if i in PROOF else "other", "note": BASE + PROOF[i] if i in PROOF else NOTES.get(i, OTHER), "jit": i in JIT}
