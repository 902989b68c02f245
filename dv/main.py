"""dv/main.py PROP --repo REPO --tier T --out FILE : discharge the obligations of the contracts that carry a property."""
import argparse
import re
import json
import multiprocessing
import os
import sys
import time
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.setrecursionlimit(20000)
import core        # noqa: E402
import contracts   # noqa: E402
import contracts_mack   # noqa: E402,F401
import contracts_tri    # noqa: E402,F401
import contracts_bs    # noqa: E402,F401
import contracts_tests    # noqa: E402,F401
import contracts_utils    # noqa: E402,F401
import scope    # noqa: E402
import verify      # noqa: E402


def run_one(repo, qual, wk, body, tag, timeout, deadline):
    w = contracts.World(repo, **wk)
    core.cx.deadline = deadline
    for q, f in contracts.APPLY.items():
        if q != qual:
            w.ip.contracts[q] = contracts.Summ(q, f)
    ck = verify.run_contract(w.ip, w, qual, lambda c: body(w, c), timeout, tag)
    return w, ck


def job(spec):
    """One contract: (obligations, function record, trusted items)."""
    k, repo, timeout, deadline, prop = spec
    qual, props, wk, body, tag = contracts.REG[k]
    t0 = time.time()
    w, ck = run_one(repo, qual, wk, body, tag, timeout, deadline)
    obls = []
    for nm in ck.order:
        o = ck.obls[nm]
        obls.append({"name": nm, "status": o.status, "backend": "+".join(sorted(o.backend)), "time": round(o.time, 3), "reason": str(o.reason)})
        if prop != "all" and o.status == "refuted" and not scope.decides(prop, qual + tag, nm[len(qual + tag) + 2:]):
            obls[-1].update(status="undecided", reason="a contract this property depends on is refuted: " + str(o.reason))
        if o.model:
            obls[-1]["counterexample"] = o.model
    return obls, {"function": qual + tag, "inlined": sorted(w.ip.inlined - {qual}), "callee_contracts": sorted(w.ip.used),
                  "wall_s": round(time.time() - t0, 2)}, sorted(core.cx.trusted)


HEAVY = r"MackChainLadder.__call__|_bs_forecasts|_bs_std_error|ranked_a2a$|alpha=2|_cy_effects_table|cum, any run-off|and back.*run-off|_tri_fit"
NO_LABELS = r"_load|.*_qtls_formatter"        # functions that see no triangle


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--repo", default="/repo")
    ap.add_argument("--tier", default="quick")
    ap.add_argument("--out")
    ap.add_argument("--only")
    ap.add_argument("--exact")
    ap.add_argument("--jobs", type=int, default=8)
    a = ap.parse_args()
    t0 = time.time()
    limit = 200. if a.tier == "quick" else 600.
    todo = [k for k, (qual, props, wk, body, tag) in enumerate(contracts.REG)
            if (a.prop == "all" or a.prop in props or a.prop in ("C21", "C22") and not re.match(NO_LABELS, qual)) and (not a.only or a.only in qual + tag) and (not a.exact or a.exact == qual)]
    todo.sort(key=lambda k: not re.search(HEAVY, contracts.REG[k][0] + contracts.REG[k][4]))       # long ones first
    jobs = [(k, a.repo, 8000 if a.tier == "quick" else 30000, None if a.prop == "all" else t0 + limit, a.prop) for k in todo]
    if a.jobs > 1 and len(jobs) > 1:
        with multiprocessing.get_context("fork").Pool(min(a.jobs, len(jobs))) as pool:
            done = pool.map(job, jobs, chunksize=1)
    else:
        done = [job(j) for j in jobs]
    obls, funcs, trusted = [], [], set()
    for o, f, t in done:
        obls += o
        funcs.append(f)
        trusted |= set(t)
    res = {"obligations": obls, "functions": funcs, "bounded": [], "trusted_base": sorted(trusted), "assumptions": ASSUME, "error": None,
           "wall": round(time.time() - t0, 2)}
    if a.out:
        json.dump(res, open(a.out, "w"), indent=1)
    else:
        for o in obls:
            print("{:10} {:6.2f} {:14} {}  {}".format(o["status"], o["time"], o["backend"], o["name"], o["reason"][:300] if o["status"] != "proved" else ""))
        for f in funcs:
            print(f)
        print(res["wall"], "trusted:", res["trusted_base"])


ASSUME = [
    "float arithmetic is treated as exact real arithmetic (no rounding, overflow or negative zero); NaN is a separate missing flag",
    "pandas, numpy and scipy operations have the meaning given in dv/pdops.py and dv/model.py (assumed contracts on dependencies); the "
    "bounded executable contracts run the real libraries on the same properties",
    "the Python subset of dv/interp.py is executed as CPython would; partial correctness (termination of library calls is not proved, "
    "every loop of the verified functions is a for loop over a finite sequence)",
    "contracts of estimators, averages and tests assume a square run-off triangle of symbolic size n >= 2 (larger where stated) with cells (i, j) "
    "observed exactly for i + j <= n - 1; those marked 'any run-off shape' (constructors, conversions, accessors, link ratios) assume only that later "
    "origins are observed no further than earlier ones; labels are strictly increasing integers; amounts are unconstrained, non-zero (link ratios) or "
    "positive (averages, residuals, estimator calls) as the contract's positive= argument says",
    "column names in record contracts are representatives (default names, and one list of fresh distinct names)",
    "object identity: a frame reached through two names is one object; columns of one frame are not shared with another frame",
    "counterexamples to undischarged goals come from evaluating them at concrete sizes and are replayed on the real code by the bounded part",
]

if __name__ == "__main__":
    main()
