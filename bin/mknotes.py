"""levels.json and notes.json: what the check of each property assures.  python3 bin/mknotes.py && python3 bin/mkmanifest.py"""
import json, os
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PROOF = "deductive verification of contracts on the real functions (own VC generator over /repo's source, z3); executable contracts replay"
BOUND = "executable contracts on the real code's API (bounded)"
TRUST = " Trusted: the VC generator, assumed contracts of pandas/numpy/scipy (dv/pdops.py), reals for floats. %s The executable contracts " \
        "cross-check the real code on sampled inputs (bounded)."
ANY = "No assumption on the shape of the triangle beyond what the property states."
SQ = "Shape: square run-off triangles with observed cells i + j <= n - 1 (any n, labels, amounts)."
SHAPE = {"C01": ANY, "C02": ANY, "C03": ANY, "C04": ANY, "C05": ANY, "C06": ANY, "C20": "", "C23": SQ}
N = {
 "C01": (1, "Proved for any records: constructor and totri of incremental data (cell sums, ascending labels, missing cells, first-period floor, "
            "order/index/extra-column independence through uninterpreted record order). Column names: defaults and one distinct renaming."),
 "C02": (1, "Proved for any records with positive first-period amounts: constructor and totri for cumulative triangles, including interior gaps. "
            "Column names: defaults and one distinct renaming."),
 "C03": (1, "Proved: totri on six representations x two triangle types gives the same triangle; unknown arguments are rejected. Rejections' wording is bounded."),
 "C04": (1, "Proved for gap-free triangles of any run-off outline (each origin observed up to its own latest period) and for square ones: to_incr, "
            "to_cum, to_tbl and the three round trips, including the rebuild from the table."),
 "C05": (1, "Proved for square triangles and for any run-off outline: indicators, latest amounts, maturities, diagonal. Only latest_by_devp with "
            "several origins whose latest period is the same is bounded."),
 "C06": (1, "Proved for non-zero amounts: a2a, a2aind, its setter (also before the first read) and a2a_lvi."),
 "C07": (1, "Proved: the four averages over all or the latest d origins under any 0/1 indicator, and the factor selection from them (per-column "
            "medial/geometric reductions stated as sums, products, minima and maxima)."),
 "C08": (1, "Proved: cumulative factors, emergence, named averages, arrays and series of factors, wrong length. Lists, tuples and arrays of factors are separate contracts; factors carry no sign assumption."),
 "C09": (1, "Proved: maturity, latest, cldf, emergence, ultimate, reserve and total row of the chain ladder and Mack summaries."),
 "C10": (1, "Proved: every cell of the completed triangle and its ultimate column."),
 "C11": (1, "Proved for non-zero amounts and alpha 0, 1, 2: factors, variance parameters incl. the last-column rule, factor variances."),
 "C12": (1, "Proved for alpha 1 and positive amounts (a negative latest amount is sampled only): process and parameter recursions, squared standard errors, total with covariance, coefficient of variation."),
 "C13": (1, "Proved: parameters of the reserve distributions give the stated mean and standard deviation; quantile columns of summary and get_quantiles. "
            "norm.ppf/cdf, exp and log are uninterpreted functions with their defining identities."),
 "C14": (1, "Proved: fitted triangles, residuals, scale parameter, adjusted residuals, membership in the sampling distribution."),
 "C15": (1, "Proved for any number of simulations: samples and factors of each simulation, without a sign assumption on the factors; random draws are uninterpreted functions of generator state."),
 "C16": (1, "Proved for any number of simulations: forecasts, process error parameters, reserves."),
 "C17": (1, "Proved: summary means, standard errors and percentiles of the simulated reserves and get_quantiles. percentile is an uninterpreted function "
            "of the multiset. The same seed twice gives the same samples and process error (draws are functions of seed, shape and parameters)."),
 "C18": (1, "Proved: ranks (average ranks among the same origins), coefficients, weighted statistic, variance and interval (n >= 4)."),
 "C19": (1, "Proved: classification against the medians (median uninterpreted, closeness of numpy.allclose), table of S, L, Z, n, m, E_Z, V_Z (loop "
            "invariant) and interval (n >= 4)."),
 "C20": (1, "Proved for any file contents: the records kept by every combination of filters, loss measure and triangle type, and the rejections "
            "(reading the CSV files is an assumed contract; the bounded part reads the bundled ones)."),
 "C21": (1, "Proved frame conditions: the listed functions leave the triangle's amounts, labels and indicator and the caller's data unchanged. "
            "A second read gives the same result, also after the caller wrote into the first one, for the accessors "
            "under a second-read contract; arbitrary interleavings are bounded."),
 "C22": (1, "Proved through contracts over arbitrary increasing integer labels whose values mention positions only; same-seed simulations after relabelling are bounded."),
 "C23": (0, "Known finding: the count in the code is cells - (periods - 1) + origins. The check accepts exactly that value or the right one and reports anything else; "
            "a contract proves that the code computes exactly the recorded formula."),
 "C24": (1, "Proved: rejection outside [0, 1], sorted distinct probabilities, one column each, two-sided pairs, the header text of each column."),
}
lv, notes = {}, {"_": "Contracts on the real code; see DESIGN.md."}
for p, (k, t) in N.items():
    lv[p] = "proof" if k else "exploration"
    notes[p] = {"technique": PROOF if k else BOUND, "note": t + (TRUST % SHAPE.get(p, SQ) if k else "")}
json.dump(lv, open(H + "/levels.json", "w"), indent=1)
json.dump(notes, open(H + "/notes.json", "w"), indent=1)
