"""Executable contracts C11..C24 on the public API of trikit."""
import copy
import csv
import math
import os
import random
import tempfile
from common import *
import gen
import oracle as O
from props1 import _rng, _frame, NAMES


# ---------------------------------------------------------------- C11 C12
def gen_C11(rng, k):
    n = gen.size(rng, 4, 9)
    t = gen.tri_case(rng, n, kind=rng.choice(["float", "noisy", "grow", "small", "float", "huge", "wild"]), strict=True)
    ex = []
    if k % 3 == 2:
        cells = [[i, j] for j in range(n - 3) for i in range(n - 1 - j)]
        ex = rng.sample(cells, min(len(cells), rng.randint(1, 2)))
        ex = [c for a, c in enumerate(ex) if c[1] not in [b[1] for b in ex[:a]]]
    return {"tri": t, "alpha": k % 3 if k % 2 else rng.choice([0, 1, 2]), "ex": ex, "tail": rng.choice([1.0]),
            "hist": rng.random() < .3}


def _mack(case, **kw):
    t = case["tri"]
    tri = mktri(t)
    if case.get("hist"):
        tri.mack_cl(alpha=(case["alpha"] + 1) % 3)
    for i, j in case.get("ex", []):
        tri.a2aind.at[t["origins"][i], t["devs"][j]] = 0
    return tri, tri.mack_cl(alpha=case["alpha"], **kw)


def run_C11(case):
    t = case["tri"]
    C = gen.cums(t)
    d = t["devs"]
    F = O.ratios(C)
    W = O.ones(F)
    for i, j in case["ex"]:
        W[i][j] = 0
    f, s2, v = O.mack(C, case["alpha"], W)
    tri, r = _mack(case)
    series_eq(r.ldfs, f + [1.], d, "Mack factors")
    series_eq(r.devpvar, s2, d[:-1], "variance parameters", rel=1e-6, ab=0 if min(s2) > 1e-9 else 1e-12)
    series_eq(r.ldfvar, v, d[:-1], "factor variances", rel=1e-6, ab=0 if min(v) > 1e-12 else 1e-15)


def gen_C12(rng, k):
    c = gen_C11(rng, k)
    c["alpha"], c["ex"] = 1, []
    if k % 4 == 1:
        # decreasing amounts: negative reserves
        for _ in range(20):
            t = gen.tri_case(rng, gen.size(rng, 4, 8), kind=rng.choice(["float", "noisy", "small"]))
            f, s2, v = O.mack(gen.cums(t), 1)
            if min(s2) > 1e-6 * max(s2):
                c["tri"] = t
                break
    elif k % 8 == 2:
        # an origin whose latest amount is negative
        for _ in range(20):
            t = gen.tri_case(rng, gen.size(rng, 4, 8), kind=rng.choice(["float", "noisy", "small"]), strict=True)
            n = len(t["origins"])
            i = rng.randrange(1, n - 1)
            t["incr"][i][n - 1 - i] -= sum(x for x in t["incr"][i] if x is not None) * rng.uniform(1.01, 1.6)
            C = gen.cums(t)
            if min(sum(C[a][j] for a in range(n - 1 - j)) for j in range(n - 1)) <= 1 or min(O.mack(C, 1)[0]) < .05:
                continue
            f, s2, v = O.mack(C, 1)
            proc, par, mse, tot, ult = O.mack_errors(C, f, s2, v)
            if min(s2) > 1e-6 * max(s2) and min(mse[1:]) > 1e-6 * max(mse) and tot > 1e-3 * max(mse):
                c["tri"] = t
                break
    elif k % 4 == 3:
        # two later origins with equal ultimates: the first factor is exactly 2
        t = c["tri"]
        n = len(t["origins"])
        a = [float(rng.randint(5, 90) * 4) for _ in range(n)]
        a[n - 1] = a[n - 2]
        dl = [float(rng.randint(-8, 8)) for _ in range(n - 1)]
        dl[n - 2] = 0.
        dl[0] -= sum(dl)
        b = [a[i] + dl[i] for i in range(n - 1)]
        if min(b) > 0 and max(map(abs, dl)) > 0:
            for i in range(n):
                t["incr"][i][0] = a[i]
                if i < n - 1:
                    t["incr"][i][1] = b[i]
    return c


def run_C12(case):
    t = case["tri"]
    C = gen.cums(t)
    o = t["origins"]
    n = len(o)
    f, s2, v = O.mack(C, 1)
    proc, par, mse, tot, ult = O.mack_errors(C, f, s2, v)
    tri, r = _mack(case)
    k = dict(rel=1e-6, ab=1e-9)
    series_eq(r.process_error, proc, o, "process error", **k)
    series_eq(r.parameter_error, par, o, "parameter error", **k)
    s = r.summary
    eqlist(s["std_error"].iloc[:n], [math.sqrt(x) for x in mse], "standard error", **k)
    eq(s.loc["total", "std_error"], math.sqrt(tot), "total standard error", **k)
    lat = [x[1] for x in O.latest(C)]
    res = [u - l for u, l in zip(ult, lat)]
    for i in range(1, n):
        if abs(res[i]) > 1e-6 * abs(ult[i]):
            eq(s["cv"].iloc[i], math.sqrt(mse[i]) / res[i], "cv of origin {}".format(o[i]), rel=1e-5)
    if abs(sum(res)) > 1e-6 * sum(map(abs, ult)):
        eq(s.loc["total", "cv"], math.sqrt(tot) / sum(res), "total cv", rel=1e-5)
    eqlist(s["reserve"].iloc[:n], res, "reserve", rel=1e-6, ab=1e-9 * max(map(abs, ult)))
    eqlist(s["ultimate"].iloc[:n], ult, "ultimate", **k)
    eq(s.loc["total", "reserve"], sum(res), "total reserve", rel=1e-6)
    eq(s.loc["total", "ultimate"], sum(ult), "total ultimate", rel=1e-6)
    series_eq(r.std_error, list(s["std_error"]), list(s.index), "std_error attribute")


# ---------------------------------------------------------------- C13
QS = [[.75, .95], .5, [.95, .05, .5], .99, [.01, .1, .1, .3], [.995], .9, [.25, .75, .125]]


def gen_C13(rng, k):
    c = gen_C11(rng, k)
    c["ex"] = []
    c["alpha"] = rng.choice([1, 1, 0, 2])
    c["dist"] = ["norm", "lognorm"][k % 2]
    c["q"] = rng.choice(QS)
    c["two"] = k % 3 == 0
    return c


def run_C13(case):
    t = case["tri"]
    o = t["origins"]
    tri, r = _mack(case, dist=case["dist"], q=case["q"], two_sided=case["two"])
    s = r.summary
    rows = o + ["total"]
    same(list(r.rvs.index), rows, "rvs labels")
    qs = O.qtls(case["q"], case["two"])
    gq = r.get_quantiles(q=case["q"])
    q1 = O.qtls(case["q"])
    same(list(gq.index), rows, "get_quantiles rows")
    same(list(gq.columns), [O.ordinal(x) for x in q1], "get_quantiles columns")
    qcols = [c for c in s.columns if str(c).endswith("%")]
    same(qcols, [O.pct(x) for x in qs], "summary quantile columns")
    for i, lab in enumerate(rows):
        R, SE = s.loc[lab, "reserve"], s.loc[lab, "std_error"]
        if i == 0 or not (R > 1.0) or not (SE > 1e-5 * R):      # log(1 + x^2) loses its digits below that
            continue
        rv = r.rvs.iloc[i]
        eq(rv.mean(), R, "mean of the reserve distribution of {}".format(lab), rel=1e-6)
        eq(rv.std(), SE, "standard deviation of the reserve distribution of {}".format(lab), rel=1e-6)

        def quant(p):
            z = O.norm_ppf(p)
            if case["dist"] == "norm":
                return R + SE * z
            s2 = math.log(1 + (SE / R) ** 2)
            return math.exp(math.log(R) - s2 / 2 + math.sqrt(s2) * z)
        for p in qs:
            eq(s.loc[lab, O.pct(p)], quant(p), "summary quantile {} of {}".format(O.pct(p), lab), rel=1e-6, ab=1e-6 * SE)
        for p in q1:
            eq(gq.loc[lab, O.ordinal(p)], quant(p), "get_quantiles {} of {}".format(O.ordinal(p), lab), rel=1e-6, ab=1e-6 * SE)
    expect_exc(lambda: tri.mack_cl(dist="gamma"), ValueError, "unknown distribution")


# ---------------------------------------------------------------- bootstrap
def gen_boot(rng, k, sims=None, kind=None):
    n = gen.size(rng, 3, 7)
    t = gen.tri_case(rng, n, kind=kind or rng.choice(["float", "grow", "round", "noisy", "float", "huge", "micro"]), strict=True,
                     devkind=gen.DEVKINDS[k % 6])
    if k % 5 in (1, 4):
        # single negative increments, every fitted factor still above 1
        for _ in range(10):
            t2 = gen.tri_case(rng, n, kind=rng.choice(["float", "noisy", "round"]), devkind=gen.DEVKINDS[k % 6])
            f = _fit(gen.cums(t2))[0]
            if all(x > 1.001 for x in f[:n - 1]):
                t = t2
                break
    return {"tri": t, "sims": sims or gen.pick(rng, [1, 3, 8], 1, 40, True), "seed": rng.choice([0, 1, rng.randint(0, 2**31 - 1), rng.randint(0, 2**31 - 1)]), "parametric": k % 4 == 3}


def _boot(case, **kw):
    tri = mktri(case["tri"])
    args = dict(sims=case["sims"], random_state=case["seed"], parametric=case["parametric"])
    args.update(kw)
    return tri, tri.boot_cl(**args)


def gen_C14(rng, k):
    return dict(gen_boot(rng, k, sims=2), parametric=False)


def _fit(C):
    n = len(C)
    f = O.vw(C)
    M = []
    for i in range(n):
        row = [None] * n
        row[n - 1 - i] = C[i][n - 1 - i]
        for j in range(n - 2 - i, -1, -1):
            row[j] = row[j + 1] / f[j]
        M.append(row)
    inc = [[None if r[j] is None else (r[j] - (r[j - 1] if j else 0.)) for j in range(n)] for r in M]
    return f, M, inc


def run_C14(case):
    t = case["tri"]
    C = gen.cums(t)
    o, d = t["origins"], t["devs"]
    n = len(o)
    f, M, inc = _fit(C)
    tri, r = _boot(case)
    tol = dict(rel=1e-8, ab=1e-6)
    series_eq(r.ldfs, f + [1.], d, "bootstrap factors")
    eqmat(r.fitted_tri_cum, M, o, d, "fitted cumulative triangle", **tol)
    eqmat(r.fitted_tri_incr, inc, o, d, "fitted increments", **tol)
    us = [[None if v is None else (t["incr"][i][j] - v) / math.sqrt(abs(v)) for j, v in enumerate(row)]
          for i, row in enumerate(inc)]
    eqmat(r.unscaled_residuals, us, o, d, "unscaled residuals", rel=1e-6, ab=1e-6)
    ss = sum(x * x for row in us for x in row if x is not None)
    dof, N = float(r.dof), n * (n + 1) / 2
    eq(r.scale_param, ss / dof, "scale parameter", rel=1e-6, ab=1e-9)
    adj = [[None if x is None else x * math.sqrt(N / dof) for x in row] for row in us]
    eqmat(r.adjusted_residuals, adj, o, d, "adjusted residuals", rel=1e-6, ab=1e-6)
    flat = [float(v) for row in np.asarray(r.adjusted_residuals)[:-1, :-1] for v in row]
    want = sorted(v for v in flat if not math.isnan(v) and v != 0)
    eqlist(sorted(float(x) for x in r.sampling_dist), want, "sampling distribution", rel=1e-9)


def gen_C15(rng, k):
    c = gen_boot(rng, k, sims=[1, 5, 150, 300][k % 4])
    c["parametric"] = k % 3 == 0
    if c["parametric"] and k % 2 == 0:
        # uneven volumes: residuals with a mean far from zero
        n = gen.size(rng, 5, 7)
        t = gen.tri_case(rng, n, kind="noisy", strict=True, devkind=gen.DEVKINDS[k % 6])
        for i in range(n - 1):
            if i % 2:
                t["incr"][i] = [None if v is None else (v * .01 if j == 0 else v * .01 * rng.uniform(5, 9)) for j, v in enumerate(t["incr"][i])]
        c["tri"], c["sims"] = t, 300
    return c


def _chi2_sf(x, k):
    from scipy.stats import chi2
    return chi2.sf(x, k)


def run_C15(case):
    t = case["tri"]
    C = gen.cums(t)
    o, d = t["origins"], t["devs"]
    n = len(o)
    f, M, inc = _fit(C)
    tri, r = _boot(case)
    sd = r.sims_data
    S = case["sims"]
    need(len(sd) == S * n * n, "{} simulated cells, contract requires {}".format(len(sd), S * n * n))
    keys = sorted(zip(sd["sim"].tolist(), sd["origin"].tolist(), sd["dev"].tolist()))
    want = [(s, oo, dd) for s in range(S) for oo in o for dd in d]
    need(keys == want, "every simulation contains every cell exactly once")
    adj = np.asarray(r.adjusted_residuals)[:-1, :-1].ravel()
    adj = adj[~np.isnan(adj)]
    pool = np.sort(adj[adj != 0])
    oi, di = {x: i for i, x in enumerate(o)}, {x: i for i, x in enumerate(d)}
    cell = {}
    draws = []
    for s, oo, dd, res, rt, si, sc in zip(sd["sim"], sd["origin"], sd["dev"], sd["resid"], sd["rectype"], sd["samp_incr"], sd["samp_cum"]):
        i, j = oi[oo], di[dd]
        obs = i + j <= n - 1
        need(rt == ("actual" if obs else "forecast"), "rectype of ({},{}) is {}".format(oo, dd, rt))
        if not obs:
            need(isna(res), "future cell ({},{}) carries a residual".format(oo, dd))
            continue
        m = inc[i][j]
        eq(si, m + res * math.sqrt(m), "sampled increment sim {} ({},{})".format(s, oo, dd), rel=1e-6, ab=1e-5)
        draws.append(float(res))
        cell[s, i, j] = float(si)
        if not case["parametric"]:
            p = np.searchsorted(pool, res)
            near = min(abs(pool[min(p, len(pool) - 1)] - res), abs(pool[max(p - 1, 0)] - res))
            need(near <= 1e-6 * (1 + abs(res)), "residual {!r} is not in the sampling distribution".format(res))
    cum = {}
    for s, oo, dd, sc in zip(sd["sim"], sd["origin"], sd["dev"], sd["samp_cum"]):
        i, j = oi[oo], di[dd]
        if i + j <= n - 1:
            w = sum(cell[s, i, jj] for jj in range(j + 1))
            eq(sc, w, "sampled cumulative sim {} ({},{})".format(s, oo, dd), rel=1e-6, ab=1e-4)
            cum[s, i, j] = w
    seen = {}
    for s, dd, l in zip(sd["sim"], sd["dev"], sd["ldf"]):
        j = di[dd]
        if j < n - 1:
            den = sum(cum[s, i, j] for i in range(n - 1 - j))
            if (s, j) not in seen:
                seen[s, j] = sum(cum[s, i, j + 1] for i in range(n - 1 - j)) / den if den else NAN
            if abs(den) > 1e-6:
                eq(l, seen[s, j], "factor of simulation {} at {}".format(s, dd), rel=1e-6)
    if len(draws) >= 500:
        D = np.asarray(draws)
        if case["parametric"]:
            from scipy.stats import kstest, norm
            sc = pool.std(ddof=1)
            need(abs(D.mean()) < 6.5 * sc / math.sqrt(len(D)), "parametric residuals have mean {!r}, contract requires 0 (sd {!r}, {} draws)".format(D.mean(), sc, len(D)))
            need(kstest(D, norm(loc=0, scale=sc).cdf).pvalue > 1e-9, "parametric residuals are not normal(0, sd of the sampling distribution)")
        else:
            u, cnt = np.unique(np.round(pool, 9), return_counts=True)
            idx = np.searchsorted(u, np.round(D, 9))
            idx = np.clip(idx, 0, len(u) - 1)
            lo = np.clip(idx - 1, 0, len(u) - 1)
            idx = np.where(np.abs(u[lo] - D) < np.abs(u[idx] - D), lo, idx)
            ob = np.bincount(idx, minlength=len(u))
            ex = cnt / cnt.sum() * len(D)
            if len(u) > 1:
                need(_chi2_sf(float(((ob - ex) ** 2 / ex).sum()), len(u) - 1) > 1e-9,
                     "residual draws are not uniform over the sampling distribution")
    # the draws of different simulations differ
    if S >= 5 and len(pool) > 2:
        per = {}
        for (s, i, j), v in sorted(cell.items()):
            per.setdefault(s, []).append(v)
        need(len({tuple(v) for v in per.values()}) > 1, "all simulations drew the same residuals")


def gen_C16(rng, k):
    return gen_boot(rng, k, sims=[2, 6, 60][k % 3], kind=rng.choice(["float", "grow", "round"]))


def run_C16(case):
    t = case["tri"]
    o, d = t["origins"], t["devs"]
    n = len(o)
    tri, r = _boot(case)
    sd = r.sims_data
    oi, di = {x: i for i, x in enumerate(o)}, {x: i for i, x in enumerate(d)}
    cum, incr, fin, ldf, ult = {}, {}, {}, {}, {}
    for s, oo, dd, sc, si, fi, l, u in zip(sd["sim"], sd["origin"], sd["dev"], sd["samp_cum"], sd["samp_incr"], sd["final_incr"], sd["ldf"], sd["ultimate"]):
        kk = (s, oi[oo], di[dd])
        cum[kk], incr[kk], fin[kk], ult[kk] = float(sc), float(si), float(fi), float(u)
        ldf[s, di[dd]] = float(l)
    S = case["sims"]
    phi = float(r.scale_param)
    us = []
    for s in range(S):
        for i in range(n):
            k0 = n - 1 - i
            c = cum[s, i, k0]
            tol = 1e-6 * (abs(c) + 1)
            run = 0.
            for j in range(n):
                if j > k0:
                    c = c * ldf[s, j - 1]
                    eq(cum[s, i, j], c, "forecast cumulative sim {} ({},{})".format(s, o[i], d[j]), rel=1e-6, ab=tol)
                prev = cum[s, i, j - 1] if j else 0.
                eq(incr[s, i, j], cum[s, i, j] - prev, "increment sim {} ({},{})".format(s, o[i], d[j]), rel=1e-6, ab=tol)
                if j <= k0:
                    eq(fin[s, i, j], incr[s, i, j], "observed cell sim {} ({},{}) keeps its sampled increment".format(s, o[i], d[j]), rel=1e-7, ab=tol)
                else:
                    x, m = fin[s, i, j], incr[s, i, j]
                    need(x * m >= 0 or abs(x) < 1e-12, "process draw {!r} does not carry the sign of the increment {!r}".format(x, m))
                    if abs(m) > 1e-6 and phi > 0:
                        us.append((abs(x), abs(m) / phi))
                run += fin[s, i, j]
                eq(ult[s, i, j], run, "final cumulative sim {} ({},{})".format(s, o[i], d[j]), rel=1e-6, ab=tol)
    rd = r.reserve_dist
    rr = {}
    for s, oo, l, u, x in zip(rd["sim"], rd["origin"], rd["latest"], rd["ultimate"], rd["reserve"]):
        if oo == "total":
            continue
        need((s, oo) not in rr, "one reserve per simulation and origin")
        rr[s, oo] = (float(l), float(u), float(x))
    need(len(rr) == S * n, "reserve_dist has {} simulated reserves, contract requires {}".format(len(rr), S * n))
    for (s, oo), (l, u, x) in rr.items():
        i = oi[oo]
        U = sum(fin[s, i, j] for j in range(n))
        Lt = cum[s, i, n - 1 - i]
        tol = 1e-6 * (abs(U) + 1)
        eq(u, U, "simulated ultimate sim {} {}".format(s, oo), rel=1e-6, ab=tol)
        eq(x, 0. if i == 0 else U - Lt, "simulated reserve sim {} {}".format(s, oo), rel=1e-6, ab=tol)
    if len(us) >= 200:
        from scipy.stats import gamma, kstest
        A = np.asarray(us)
        ok = A[:, 1] > .05
        if ok.sum() >= 200:
            P = gamma.cdf(A[ok, 0], a=A[ok, 1], scale=phi)
            need(kstest(P, "uniform").pvalue > 1e-9, "process-error draws do not follow gamma(|increment|/scale, scale)")


# ---------------------------------------------------------------- C17
METHODS = ["linear", "lower", "higher", "midpoint", "nearest"]


def gen_C17(rng, k):
    c = gen_boot(rng, k, sims=rng.choice([2, 7, 20, 41]))
    c.update(q=rng.choice(QS), two=k % 3 == 0, interp=METHODS[k % 5], lb=rng.choice([0., 0., 100., -50., 5.]))
    return c


def run_C17(case):
    t = case["tri"]
    C = gen.cums(t)
    o = t["origins"]
    n = len(o)
    kw = dict(q=case["q"], two_sided=case["two"], interpolation=case["interp"])
    tri, r = _boot(case, **kw)
    s, rd = r.summary, r.reserve_dist
    U, R = {}, {}
    for sim, oo, u, x in zip(rd["sim"], rd["origin"], rd["ultimate"], rd["reserve"]):
        if oo != "total":
            U.setdefault(oo, {})[sim] = float(u)
            R.setdefault(oo, {})[sim] = float(x)
    R = {a: [v[k] for k in sorted(v)] for a, v in R.items()}
    U = {a: [v[k] for k in sorted(v)] for a, v in U.items()}
    R["total"] = [sum(R[a][k] for a in o) for k in range(case["sims"])]
    lat = [x[1] for x in O.latest(C)]
    same(list(s.index), o + ["total"], "summary rows")
    ult = [lat[0] if i == 0 else sum(U[a]) / len(U[a]) for i, a in enumerate(o)]
    res = [a - b for a, b in zip(ult, lat)]
    big = max(map(abs, ult)) * 1e-8 + 1e-9
    k = dict(rel=1e-7, ab=big)
    eqlist(s["latest"].iloc[:n], lat, "latest", **k)
    eqlist(s["ultimate"].iloc[:n], ult, "ultimate", **k)
    eqlist(s["reserve"].iloc[:n], res, "reserve", **k)
    eq(s.loc["total", "ultimate"], sum(ult), "total ultimate", **k)
    eq(s.loc["total", "reserve"], sum(res), "total reserve", **k)
    eq(s.loc["total", "latest"], sum(lat), "total latest", **k)

    def sd(x):
        m = sum(x) / len(x)
        return math.sqrt(sum((v - m) ** 2 for v in x) / (len(x) - 1))
    for a in o + ["total"]:
        eq(s.loc[a, "std_error"], sd(R[a]), "standard error of {}".format(a), rel=1e-6, ab=big)
    qs = O.qtls(case["q"], case["two"])
    same([c for c in s.columns if str(c).endswith("%")], [O.pct(x) for x in qs], "summary quantile columns")
    for a in o + ["total"]:
        for p in qs:
            eqany(s.loc[a, O.pct(p)], O.percentiles(R[a], p, case["interp"]), "summary {} of {}".format(O.pct(p), a), **k)
    q1 = O.qtls(case["q"])
    for lb in (None, case["lb"]):
        g = r.get_quantiles(q=case["q"], interpolation=case["interp"], lb=lb)
        same(list(g.index), o + ["total"], "get_quantiles rows")
        same(list(g.columns), [O.ordinal(x) for x in q1], "get_quantiles columns")
        for a in o + ["total"]:
            for p in q1:
                w = O.percentiles(R[a], p, case["interp"])
                eqany(g.loc[a, O.ordinal(p)], w if lb is None else [max(x, lb) for x in w], "get_quantiles {} of {} lb={}".format(O.ordinal(p), a, lb), **k)
    tri2, r2 = _boot(case, **kw)
    frame_equal(r2.summary, r.summary, "summary for the same seed", rel=0, ab=0)
    r3 = tri.boot_cl(sims=case["sims"], random_state=case["seed"], parametric=case["parametric"], **kw)
    frame_equal(r3.summary, r.summary, "summary for the same seed on the same triangle", rel=0, ab=0)


# ---------------------------------------------------------------- C18 C19
def gen_C18(rng, k):
    n = gen.size(rng, 5, 9)
    t = gen.tri_case(rng, n, kind=rng.choice(["float", "noisy", "small"] + (["ties"] if k % 5 == 4 else [])), strict=True)
    return {"tri": t, "p": gen.pick(rng, [.5, .5, .8, .9, .25, .6], .01, .98), "pc": gen.pick(rng, [.05, .1, .01, .2], .001, .98)}


def run_C18(case):
    t = case["tri"]
    C = gen.cums(t)
    n = len(C)
    F = O.ratios(C)
    num = den = 0.
    for j in range(1, n - 2):
        rows = [i for i in range(n) if F[i][j] is not None]
        m = len(rows)
        r = O.rank([F[i][j] for i in rows])
        s = O.rank([F[i][j - 1] for i in rows])
        T = 1 - 6 * sum((a - b) ** 2 for a, b in zip(r, s)) / (m ** 3 - m)
        num += (m - 1) * T
        den += m - 1
    tri = mktri(t)
    res = tri.mack_cl()
    (lo, hi), T = res.devp_corr_test(p=case["p"])
    eq(T, num / den, "weighted Spearman statistic", rel=1e-7)
    z = O.norm_ppf((1 + case["p"]) / 2) / math.sqrt((n - 2) * (n - 3) / 2)
    eq(hi, z, "upper end of the acceptance interval", rel=1e-5)
    eq(lo, -z, "lower end of the acceptance interval", rel=1e-5)


gen_C19 = gen_C18


def run_C19(case):
    t = case["tri"]
    C = gen.cums(t)
    o, d = t["origins"], t["devs"]
    n = len(C)
    F = O.ratios(C)
    cl = [[None] * (n - 1) for _ in range(n)]
    for j in range(n - 1):
        med = O.median([F[i][j] for i in range(n) if F[i][j] is not None])
        for i in range(n):
            if F[i][j] is not None:
                x = F[i][j]
                if x != med and abs(x - med) <= 1e-4 * (abs(med) + 1):
                    if abs(x - med) > 1e-12 * abs(med):
                        return      # within the tolerance of "equal to the median": outside the contract
                    x = med
                cl[i][j] = 0 if x == med else (1 if x > med else -1)
    tri = mktri(t)
    A = tri.a2a_assignment
    eqmat(A, cl[:n - 1], o[:n - 1], d[:n - 1], "classification")
    Z = mu = var = 0.
    for k in range(1, n - 1):       # diagonal of the ratio triangle: i + j == k, at least two ratios
        vals = [cl[i][k - i] for i in range(k + 1)]
        L, Sm = vals.count(1), vals.count(-1)
        m = L + Sm
        if m == 0:
            continue
        c = math.comb(m - 1, (m - 1) // 2)
        E = m / 2. - c * m / 2. ** m
        V = m * (m - 1) / 4. - c * m * (m - 1) / 2. ** m + E - E * E
        Z += min(L, Sm)
        mu += E
        var += V
    res = tri.mack_cl()
    (lo, hi), z = res.cy_effects_test(p=case["pc"])
    eq(z, Z, "total Z")
    w = abs(O.norm_ppf(case["pc"] / 2)) * math.sqrt(max(var, 0))
    eq(lo, mu - w, "lower end of the interval", rel=1e-6)
    eq(hi, mu + w, "upper end of the interval", rel=1e-6)


# ---------------------------------------------------------------- C20
def gen_C20(rng, k):
    mode = ["bundled", "lrdb", "lrdb", "lrdb"][k % 4]
    rows = []
    lobs = ["comauto", "ppauto", "wkcomp"]
    for lob in lobs:
        for code, name in [(1767, "State Farm"), (353, "Acme"), (388, "State Farm"), (1767, "State Farm Mutual"), (353, "Acme Re")]:
            if rng.random() < .8 or (lob == "comauto" and code == 1767):
                n = gen.size(rng, 2, 4)
                y0 = rng.choice([1988, 1990])
                for i in range(n):
                    for j in range(n):
                        rows.append([lob, code, name, y0 + i, 1 + j, round(rng.uniform(1, 900), 2), round(rng.uniform(1, 900), 2),
                                     1 if i + j < n else 0])
    return {"mode": mode, "rows": rows, "loss_type": rng.choice(["incurred", "paid"]),
            "lob": rng.choice(lobs + [None, "bogus"]), "grcode": rng.choice([1767, 353, 388, None, 99]),
            "grname": rng.choice([None, "State Farm", "Acme", "Nobody", "Acme Re", "farm"]), "train": rng.choice([True, False]),
            "tri_type": rng.choice([None, None, "cum", "incr"]), "which": rng.randint(0, 10**6)}


def run_C20(case):
    import trikit
    if case["mode"] == "bundled":
        names = trikit.get_datasets()
        need(list(names) == sorted(n for n in trikit.dataref if n != "lrdb"), "get_datasets lists the bundled datasets")
        nm = names[case["which"] % len(names)]
        with open(trikit.dataref[nm]) as fh:
            rd = list(csv.DictReader(fh))
        want = [[int(float(x["origin"])), int(float(x["dev"])), float(x["value"])] for x in rd]
        df = trikit.load(nm)
        same(list(df.columns), ["origin", "dev", "value"], "loaded columns")
        need(len(df) == len(want), "{}: {} records, file has {}".format(nm, len(df), len(want)))
        for a, b in zip(df.values.tolist(), want):
            need(a[0] == b[0] and a[1] == b[1] and close(a[2], b[2]), "{}: record {} where the file has {}".format(nm, a, b))
        same(list(df.index), list(range(len(want))), "loaded index")
        df2 = trikit.load(nm)
        df2["value"] = -1.
        frame_equal(trikit.load(nm), df, "{} loaded again after the caller changed the earlier frame".format(nm))
        for tt in ("cum", "incr"):
            tri = trikit.load(nm, tri_type=tt)
            ref = trikit.totri(df.copy(), tri_type=tt)
            need(type(tri) is type(ref), "load({}, {}) type".format(nm, tt))
            frame_equal(tri, ref, "load({}, {})".format(nm, tt))
        expect_exc(lambda: trikit.load("no_such_set"), KeyError, "unknown dataset")
        return
    tmp = tempfile.mkdtemp(prefix="c20_")
    path = os.path.join(tmp, "lrdb.csv")
    cols = ["loss_key", "grcode", "grname", "origin", "dev", "incrd_loss", "paid_loss", "train_ind"]
    try:
        with open(path, "w", newline="") as fh:
            w = csv.writer(fh)
            w.writerow(cols)
            w.writerows(case["rows"])
        rows = [dict(zip(cols, r)) for r in case["rows"]]
        invalid = False
        for key, col in (("lob", "loss_key"), ("grcode", "grcode"), ("grname", "grname")):
            if case[key] is not None:
                if case[key] not in {r[col] for r in rows}:
                    invalid = True
                    break
                rows = [r for r in rows if r[col] == case[key]]
        if case["train"]:
            rows = [r for r in rows if r["train_ind"] == 1]
        vcol = "incrd_loss" if case["loss_type"] == "incurred" else "paid_loss"
        want = [[r["origin"], r["dev"], r[vcol]] for r in rows]
        kw = dict(loss_type=case["loss_type"], lob=case["lob"], grcode=case["grcode"], grname=case["grname"],
                  train_only=case["train"], dataref={"lrdb": path})
        if invalid:
            expect_exc(lambda: trikit.load_lrdb(**kw), ValueError, "invalid lrdb selection {}".format({k: case[k] for k in ("lob", "grcode", "grname")}))
            return
        expect_exc(lambda: trikit.load_lrdb(**dict(kw, loss_type="xyz")), ValueError, "invalid loss_type")
        df = trikit.load_lrdb(**kw)
        same(list(df.columns), ["origin", "dev", "value"], "lrdb columns")
        need(len(df) == len(want), "lrdb selection has {} records, contract requires {}".format(len(df), len(want)))
        for a, b in zip(df.values.tolist(), want):
            need(a[0] == b[0] and a[1] == b[1] and close(a[2], b[2]), "lrdb record {} where contract requires {}".format(a, b))
        df["value"] = -1.
        for a, b in zip(trikit.load_lrdb(**kw).values.tolist(), want):
            need(a[0] == b[0] and a[1] == b[1] and close(a[2], b[2]), "lrdb record {} where the file has {} after the caller changed the earlier frame".format(a, b))
        if case["tri_type"] and want:
            tri = trikit.load_lrdb(tri_type=case["tri_type"], **kw)
            ref = trikit.totri(pd.DataFrame(want, columns=["origin", "dev", "value"]), tri_type=case["tri_type"])
            frame_equal(tri, ref, "lrdb triangle")
            need(type(tri) is type(ref), "lrdb triangle type")
        same(trikit.get_lrdb_lobs(lrdb_path=path), sorted({r[0] for r in case["rows"]}), "get_lrdb_lobs")
    finally:
        try:
            os.unlink(path)
        except OSError:
            pass
        os.rmdir(tmp)


# ---------------------------------------------------------------- C21
OPS = ["latest", "latest_by_origin", "latest_by_devp", "maturity", "rlvi", "clvi", "triind", "nbr_cells", "devp", "origins",
       "a2a", "a2aind", "a2a_lvi", "ranked_a2a", "a2a_assignment", "a2a_avgs", "to_incr", "to_tbl", "diagonal",
       "base", "base_custom", "base_series", "mack0", "mack1", "macknorm", "mackdiag", "boot", "bootpar", "str"]


def gen_C21(rng, k):
    n = gen.size(rng, 5, 7)
    t = gen.tri_case(rng, n, kind=rng.choice(["float", "noisy", "round"]), strict=True)
    ops = [rng.choice(OPS) for _ in range(rng.randint(3, 7))]
    ex = [[0, 1], [1, 0]][k % 2] if k % 3 == 1 else None
    return {"tri": t, "ops": ops, "fac": [round(rng.uniform(1.0, 2.0), 4) for _ in range(n - 1)], "ex": ex,
            "rs": rng.randint(0, 10**9), "how": rng.choice(["sorted", "random", "reversed"]), "dup": k % 2 == 0}


def _op(tri, op, case, held):
    if op in ("a2a_avgs", "to_incr", "to_tbl"):
        return getattr(tri, op)()
    if op == "diagonal":
        return tri.diagonal(offset=-1)
    if op == "base":
        return tri.base_cl(sel="simple-3", tail=1.02).summary
    if op == "base_custom":
        return tri.base_cl(sel=held["list"], tail=1.01).summary
    if op == "base_series":
        return tri.base_cl(sel=held["series"], tail=1.01).summary
    if op == "mack0":
        return tri.mack_cl(alpha=0).summary
    if op == "mack1":
        return tri.mack_cl().summary
    if op == "macknorm":
        r = tri.mack_cl(alpha=2, dist="norm")
        return pd.concat([r.summary, r.get_quantiles(q=[.5, .9])], axis=1)
    if op == "mackdiag":
        r = tri.mack_cl()
        c = r.cy_effects_test()
        s = r.devp_corr_test()
        return pd.DataFrame({"a": [c[0][0], c[0][1], c[1], round(s[0][0], 5), round(s[0][1], 5), s[1]]})
    if op == "boot":
        r = tri.boot_cl(sims=3, random_state=11)
        a = r.get_quantiles(q=.9)
        return pd.concat([r.summary, a], axis=1)
    if op == "bootpar":
        return tri.boot_cl(sims=3, random_state=11, parametric=True).summary
    if op == "str":
        return pd.DataFrame({"a": [str(tri)]})
    v = getattr(tri, op)
    return v.copy() if hasattr(v, "copy") else pd.DataFrame({"a": [v]})


def run_C21(case):
    import trikit
    t = case["tri"]
    rng = _rng(case)
    recs = gen.records(t)
    if case["dup"]:
        recs = gen.split_dups(rng, recs)
    recs = gen.shuffled(rng, recs, case["how"])
    df = pd.DataFrame(recs, columns=["origin", "dev", "value"])
    df.index = range(5, 5 + len(df))
    before = frame_snapshot(df)

    def build():
        tri = trikit.totri(df)
        trikit.totri(df, tri_type="incr")
        trikit.totri(df, data_format="cum")
        if case["ex"]:
            tri.a2aind = (t["origins"][case["ex"][0]], t["devs"][case["ex"][1]], 0)
        return tri
    held = {"list": list(case["fac"]), "series": pd.Series(case["fac"], index=t["devs"][:-1])}
    h0 = (list(held["list"]), held["series"].copy())
    tri = build()
    need(snap_eq(before, frame_snapshot(df)), "building a triangle changed the caller's data")
    wide = pd.DataFrame([[NAN if v is None else v for v in r] for r in gen.cums(t)], index=t["origins"], columns=t["devs"])
    w0 = frame_snapshot(wide)
    trikit.totri(wide, data_shape="triangle", data_format="cum")
    trikit.totri(wide, data_shape="triangle", data_format="incr", tri_type="incr")
    need(snap_eq(w0, frame_snapshot(wide)), "building a triangle changed the caller's triangle-shaped data")
    snap = frame_snapshot(tri)
    tri_ind = frame_snapshot(build().a2aind)
    first = {}
    for op in case["ops"] + case["ops"][::-1]:
        out = _op(tri, op, case, held)
        out = out.to_frame() if isinstance(out, pd.Series) else out
        if not isinstance(out, pd.DataFrame):
            out = pd.DataFrame({"a": [out]})
        out = pd.DataFrame(out).copy(deep=True)
        need(snap_eq(snap, frame_snapshot(tri)), "{} changed the triangle".format(op))
        need(snap_eq(before, frame_snapshot(df)), "{} changed the caller's data".format(op))
        need(held["list"] == h0[0] and held["series"].equals(h0[1]) and list(held["series"].index) == list(h0[1].index),
             "{} changed the caller's factor sequence".format(op))
        if op in first:
            frame_equal(out, first[op], "repeated {}".format(op), rel=1e-12, ab=1e-12)
        first[op] = out
    need(snap_eq(tri_ind, frame_snapshot(tri.a2aind)), "the inclusion indicator was changed")
    # the same calls on a triangle without history give the same results
    for op in dict.fromkeys(case["ops"]):
        out = _op(build(), op, case, {"list": list(case["fac"]), "series": pd.Series(case["fac"], index=t["devs"][:-1])})
        out = out.to_frame() if isinstance(out, pd.Series) else out
        if not isinstance(out, pd.DataFrame):
            out = pd.DataFrame({"a": [out]})
        frame_equal(pd.DataFrame(out), first[op], "{} with and without earlier calls".format(op), rel=1e-12, ab=1e-12)


# ---------------------------------------------------------------- C22
def gen_C22(rng, k):
    n = gen.size(rng, 5, 7)
    t = gen.tri_case(rng, n, kind=rng.choice(["float", "noisy", "grow"]), strict=True, devkind="one", origkind="year")
    return {"tri": t, "devs2": gen.dev_labels(rng, n, gen.DEVKINDS[1:][k % 5]),
            "origins2": gen.origin_labels(rng, n, gen.ORIGKINDS[k % 4]), "alpha": rng.choice([0, 1, 2]), "seed": rng.randint(0, 10**6),
            "ex": k % 3 == 0, "how": rng.choice(["sorted", "random", "bydev"]), "rs": rng.randint(0, 10**9)}


def run_C22(case):
    import trikit
    t = case["tri"]
    t2 = dict(t, devs=case["devs2"], origins=case["origins2"])
    om = dict(zip(t2["origins"], t["origins"]))
    dm = dict(zip(t2["devs"], t["devs"]))

    def mk(x):
        rs = gen.shuffled(_rng(case), gen.records(x), case["how"])
        tri = trikit.totri(pd.DataFrame(rs, columns=["origin", "dev", "value"]))
        if case["ex"]:
            tri.a2aind = (x["origins"][1], x["devs"][0], 0)
        return tri
    A, B = mk(t), mk(t2)

    def num(a, b, what):
        a, b = np.asarray(a, dtype=object), np.asarray(b, dtype=object)
        need(a.shape == b.shape, "{}: shape {} vs {}".format(what, a.shape, b.shape))
        for x, y in zip(a.ravel(), b.ravel()):
            if isinstance(x, str) or isinstance(y, str):
                continue
            eq(y, x, what + " after relabelling", rel=1e-9, ab=1e-9)

    def lab(x, y, m, what):
        same([m.get(v, v) for v in y], list(x), what + " labels after relabelling")
    for nm in ("triind", "a2a", "a2aind"):
        num(getattr(A, nm).values, getattr(B, nm).values, nm)
        lab(getattr(A, nm).index, getattr(B, nm).index, om, nm)
        lab(getattr(A, nm).columns, getattr(B, nm).columns, dm, nm)
    num(A.a2a_avgs().values, B.a2a_avgs().values, "a2a_avgs")
    num(A.latest["latest"].values, B.latest["latest"].values, "latest")
    lab(A.latest["dev"], B.latest["dev"], dm, "latest dev")
    lab(A.maturity.values, B.maturity.values, dm, "maturity")
    num(A.a2a_assignment.values, B.a2a_assignment.values, "a2a_assignment")
    sm = {str(k): str(v) for k, v in dm.items()}

    def summ(x, y, what):
        lab(x.summary.index, y.summary.index, om, what + " summary")
        same([sm.get(v, v) for v in y.summary["maturity"]], list(x.summary["maturity"]), what + " maturity after relabelling")
        for c in x.summary.columns:
            if c != "maturity":
                num(x.summary[c].values, y.summary[c].values, what + " " + c)
        num(x.ldfs.values, y.ldfs.values, what + " ldfs")
        lab(x.ldfs.index, y.ldfs.index, dm, what + " ldfs")
        num(x.trisqrd.values, y.trisqrd.values, what + " trisqrd")
    a, b = A.base_cl(sel="simple-3", tail=1.03), B.base_cl(sel="simple-3", tail=1.03)
    summ(a, b, "base")
    a, b = A.mack_cl(alpha=case["alpha"]), B.mack_cl(alpha=case["alpha"])
    summ(a, b, "mack")
    num(a.devpvar.values, b.devpvar.values, "devpvar")
    num(a.process_error.values, b.process_error.values, "process error")
    num(a.parameter_error.values, b.parameter_error.values, "parameter error")
    x, y = a.cy_effects_test(), b.cy_effects_test()
    num([x[0][0], x[0][1], x[1]], [y[0][0], y[0][1], y[1]], "calendar year test")
    eq(b.devp_corr_test()[1], a.devp_corr_test()[1], "correlation statistic after relabelling")
    a, b = A.boot_cl(sims=4, random_state=case["seed"]), B.boot_cl(sims=4, random_state=case["seed"])
    summ(a, b, "bootstrap")
    key = ["sim", "origin", "dev"]
    sa, sb = a.sims_data.sort_values(by=key), b.sims_data.sort_values(by=key)
    for c in ("samp_incr", "samp_cum", "final_incr", "ultimate", "reserve", "latest"):
        if c in sa.columns and c in sb.columns:
            num(sa[c].values, sb[c].values, "simulated " + c)
    ra, rb = a.reserve_dist, b.reserve_dist
    num(ra[["latest", "ultimate", "reserve"]].values, rb[["latest", "ultimate", "reserve"]].values, "reserve distribution")


# ---------------------------------------------------------------- C23
def gen_C23(rng, k):
    c = dict(gen_boot(rng, k, sims=1), parametric=False)
    if k % 3 == 2:
        # cumulative amounts of zero or below
        n = len(c["tri"]["origins"])
        for _ in range(rng.randint(1, 3)):
            i = rng.randrange(n - 1)
            j = rng.randrange(1, n - i)
            row = c["tri"]["incr"][i]
            row[j] = -float(sum(row[:j])) - rng.choice([0., 0., 5.])
        c["odd"] = True
    return c


class Known(Exception):
    def __init__(self, key, msg):
        super().__init__(msg)
        self.key = key


def run_C23(case):
    t = case["tri"]
    n, m = len(t["origins"]), len(t["devs"])
    if case.get("odd"):
        from trikit.estimators.bootstrap import BootstrapChainLadder
        r = BootstrapChainLadder(mktri(t))
    else:
        tri, r = _boot(case)
    N = n * (n + 1) // 2
    want = N - (n + m - 1)
    got = int(r.dof)
    if got != want:
        if got == N - (m - 1) + n:
            raise Known("dof=cells-(periods-1)+origins", "dof is {} for {} cells, {} origins, {} periods; contract requires {}".format(got, N, n, m, want))
        raise Broken("dof is {} for {} cells, {} origins, {} periods; contract requires {}".format(got, N, n, m, want))


# ---------------------------------------------------------------- C24
def gen_C24(rng, k):
    n = 5
    t = gen.tri_case(rng, n, kind="float", strict=True)
    pool = [.05, .11, .115, .12, .13, .21, .22, .23, .33, .5, .75, .9, .95, .975, .99, .995, .999, 0.01, .1, .2, .3, .7, .6,
            .111, .0125, .9999, .02, .03, .91, .42]
    q = [rng.choice(pool) for _ in range(rng.randint(1, 5))]
    if k % 4 == 0:
        q = q[0]
    bad = rng.choice([1.2, -.1, [.5, 1.01], [-.2, .5], [.1, .2, 2], [1.0000001], -1e-9])
    return {"tri": t, "q": q, "two": k % 3 == 0, "bad": bad, "as": rng.choice(["list", "tuple", "array"]), "edge": k % 6 == 1}


def run_C24(case):
    tri = mktri(case["tri"])
    q = case["q"]
    arg = q if not isinstance(q, list) else (tuple(q) if case["as"] == "tuple" else np.asarray(q) if case["as"] == "array" else list(q))
    m = tri.mack_cl(q=arg, two_sided=case["two"])
    b = tri.boot_cl(sims=3, random_state=1, q=arg, two_sided=case["two"])
    want = [O.pct(x) for x in O.qtls(q, case["two"])]
    for r, nm in ((m, "mack"), (b, "boot")):
        same([c for c in r.summary.columns if str(c).endswith("%")], want, nm + " quantile columns")
        same(list(r.get_quantiles(q=arg).columns), [O.ordinal(x) for x in O.qtls(q)], nm + " get_quantiles columns")
        bad = case["bad"]
        expect_exc(lambda: r.get_quantiles(q=bad), ValueError, nm + ".get_quantiles({})".format(bad))
    for two in (False, True):
        expect_exc(lambda: tri.mack_cl(q=case["bad"], two_sided=two), ValueError, "mack_cl(q={})".format(case["bad"]))
        expect_exc(lambda: tri.boot_cl(sims=2, q=case["bad"], two_sided=two), ValueError, "boot_cl(q={})".format(case["bad"]))
    if case["edge"]:
        for e in (0, 1, [0, 1], [0., .5, 1.]):
            g = b.get_quantiles(q=e)
            same(list(g.columns), [O.ordinal(x) for x in O.qtls(e)], "get_quantiles columns for q={}".format(e))
            m.get_quantiles(q=e)
