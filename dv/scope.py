"""Which obligations decide a property.  A contract of a callee, or an obligation of a shared contract that is about another
property, is a dependency: when it is not discharged the property is not proved, but it does not follow that it is broken
(the executable contracts then decide)."""
import re

CALL, MACK, BOOT = r"BaseChainLadder.__call__", r"MackChainLadder.__call__", r"BootstrapChainLadder.__call__"
GQ, WRITE = r".*\.get_quantiles", r"not written to"
# property: [(functions, obligations)] decided by it; None: every obligation.  Properties not listed own all their contracts.
OWN = {
    "C03": [(r"totri \[(representation|unknown)", None)],
    "C05": [(r"_BaseTriangle\.(?!to_tbl)", None)],
    "C07": [(r"_BaseCumTriangle\.(_simple|_geometric|_medial|a2a_avgs)", None)],
    "C08": [(r"BaseChainLadder\.(_cldfs|_ldfs)", None),
            (CALL, r"selected average|attribute (ldfs|cldfs|emergence|tail)|column (cldf|emergence)|rejected")],
    "C09": [(r"BaseChainLadder\.(_ultimates|_reserves)", None),
            (CALL + "|" + MACK, r"summary (is|index|columns)|column (maturity|cldf|emergence|latest|ultimate|reserve)$|"
             r"attribute (maturity|latest|ultimate|reserve|cldfs|emergence)|reserve plus|total reserve")],
    "C10": [(r"BaseChainLadder\._trisqrd", None), (CALL, r"trisqrd|completed triangle")],
    "C11": [(r"MackChainLadder\.", None)],
    "C12": [(r"MackChainLadder\.(_mean_squared_error|_process_error|_parameter_error)", None),
            (MACK, r"std_error|column cv|process error|parameter error|squared error")],
    "C13": [(MACK, r"distribution|q[12]%|lognormal|rejected"), (GQ, r"quantiles|requested")],
    "C14": [(r"BootstrapChainLadder\.(_tri_fit_cum|_tri_fit_incr|_resid_us|_resid_adj|_scale_param|_sampling_dist)", r"^(?!.*not written to)"),
            (BOOT, r"the factors are|stage (_tri_fit_incr|_resid|_scale|_sampling)")],
    "C15": [(r"BootstrapChainLadder\.(_bs_samples|_bs_ldfs)", None), (BOOT, r"stage (_bs_samples|_bs_ldfs)")],
    "C16": [(r"BootstrapChainLadder\.(_bs_forecasts|_bs_process_error|_bs_reserves)", None),
            (BOOT, r"stage (_bs_forecasts|_bs_process_error|_bs_reserves)")],
    "C17": [(r"BootstrapChainLadder\._bs_std_error", None), (BOOT, r"summary|given seed"), (r".*", r"same seed"), (GQ, r"quantiles|requested")],
    "C21": [(r".*", WRITE), (r".*read again", None)],
    "C22": [],
    "C24": [(r".*_qtls_formatter", None), (GQ, r"requested|columns labels"), (BOOT, r"requested|suffixes|columns labels")],
}
ALWAYS = re.compile(r"no exception under the precondition|is rejected")


def decides(prop, qual, name):
    """Does the obligation called name of the contract on qual (with its tag) decide the property?"""
    if prop not in OWN:
        return not re.search(WRITE, name)
    for fs, obs in OWN[prop]:
        if re.match(fs, qual):
            if obs is None or re.search(obs, name) or (ALWAYS.search(name) and prop != "C21"):
                return True
    return False
