"""Executable contracts C01..C10 on the public API of trikit (run under /repo's interpreter)."""
import copy
import math
import random
from common import *
import gen
import oracle as O


def _rng(case):
    return random.Random(case["rs"])


def _frame(recs, names=("origin", "dev", "value"), rng=None, extra=False, index=False):
    df = pd.DataFrame(recs, columns=list(names))
    if rng is not None and extra:
        df.insert(rng.randint(0, 2), "company", [rng.choice(["a", "b", "c"]) for _ in recs])
        df["rowid"] = range(len(recs))
    if rng is not None and index:
        idx = list(range(100, 100 + len(recs)))
        rng.shuffle(idx)
        df.index = idx
    return df


NAMES = [("origin", "dev", "value"), ("origin", "dev", "value"), ("AY", "age", "paid"), ("acc_year", "devp", "incurred"),
         ("origin", "lag", "value"), ("index", "dev", "loss")]


# ---------------------------------------------------------------- C01
def gen_C01(rng, k):
    n, m = rng.randint(1, 6), rng.randint(1, 6)
    o, d = gen.origin_labels(rng, n), gen.dev_labels(rng, m)
    recs = []
    for oo in o:
        for dd in d:
            if rng.random() < .7:
                for _ in range(rng.choice([1, 1, 1, 2, 3])):
                    v = rng.choice([rng.uniform(-50, 500), float(rng.randint(-3, 900)), 0., rng.uniform(1, 2)])
                    recs.append([oo, dd, v])
    if not recs:
        recs = [[o[0], d[0], 10.]]
    if rng.random() < .3:
        recs = [[a, b, float(int(c))] for a, b, c in recs]
    return {"recs": gen.shuffled(rng, recs), "names": list(rng.choice(NAMES)[:]) if k % 3 == 0 else ["origin", "dev", "value"],
            "extra": k % 4 == 1, "index": k % 4 in (1, 2), "rs": rng.randint(0, 10**9), "intval": k % 7 == 3}


def run_C01(case):
    import trikit
    names = case["names"]
    if names[0] == "index":
        names = ["AY", "dev", "loss"]
    recs = case["recs"]
    if case["intval"]:
        recs = [[a, b, int(round(c))] for a, b, c in recs]
    df = _frame(recs, names, _rng(case), case["extra"], case["index"])
    tri = trikit.totri(df, tri_type="incr", origin=names[0], dev=names[1], value=names[2])
    need(type(tri).__name__ == "IncrTriangle", "result is an IncrTriangle")
    os_, ds = sorted({r[0] for r in recs}), sorted({r[1] for r in recs})
    cell = {}
    for o, d, v in recs:
        v = 1. if (d == ds[0] and v <= 0) else v
        cell[o, d] = cell.get((o, d), 0.) + v
    eqmat(tri, [[cell.get((o, d)) for d in ds] for o in os_], os_, ds, "incremental triangle")
    need(all(str(t) == "float64" for t in tri.dtypes), "cells are floats")


# ---------------------------------------------------------------- C02
def gen_C02(rng, k):
    n = gen.size(rng, 1, 7)
    c = gen.tri_case(rng, n)
    recs = gen.records(c)
    first = c["devs"][0]
    gaps = k % 3 == 2
    if gaps:
        recs = [r for r in recs if r[1] == first or rng.random() < .8]
    d0 = gen.split_dups(rng, recs, p=.4 if k % 2 else 0.)
    return {"recs": gen.shuffled(rng, d0), "rs": rng.randint(0, 10**9),
            "names": list(rng.choice(NAMES[:5])) if k % 5 == 4 else ["origin", "dev", "value"],
            "extra": k % 7 == 1, "index": k % 7 in (1, 2)}


def run_C02(case):
    import trikit
    names, recs = case["names"], case["recs"]
    df = _frame(recs, names, _rng(case), case["extra"], case["index"])
    tri = trikit.totri(df, tri_type="cum", origin=names[0], dev=names[1], value=names[2])
    need(type(tri).__name__ == "CumTriangle", "result is a CumTriangle")
    os_, ds = sorted({r[0] for r in recs}), sorted({r[1] for r in recs})
    same(list(tri.index), os_, "row labels")
    same(list(tri.columns), ds, "column labels")
    last = {o: max(r[1] for r in recs if r[0] == o) for o in os_}
    for i, o in enumerate(os_):
        for j, d in enumerate(ds):
            got = tri.iat[i, j]
            if d <= last[o]:
                eq(got, math.fsum(r[2] for r in recs if r[0] == o and r[1] <= d), "cumulative[{},{}]".format(o, d))
            elif not any(last[o2] >= d for o2 in os_[i:]):
                need(isna(got), "cell [{},{}] of a later diagonal is {!r}, must be missing".format(o, d, got))


# ---------------------------------------------------------------- C03
def gen_C03(rng, k):
    n = gen.size(rng, 2, 7)
    return {"tri": gen.tri_case(rng, n), "rs": rng.randint(0, 10**9), "how": rng.choice(["sorted", "random", "reversed", "bydev", "devdesc"]),
            "names": list(rng.choice(NAMES[:5])), "inval": k % 4 == 0,
            "fmt": rng.choice([["incr", "cum"], ["incr", "cum"], ["incremental", "cumulative"], ["Incr", "Cum"], ["i", "c"]])}


def run_C03(case):
    import trikit
    t = case["tri"]
    rng = _rng(case)
    C = gen.cums(t)
    irec = gen.records(t)
    crec = [[o, d, C[i][j]] for i, o in enumerate(t["origins"]) for j, d in enumerate(t["devs"]) if C[i][j] is not None]
    irec, crec = gen.shuffled(rng, irec, case["how"]), gen.shuffled(rng, crec, case["how"])
    nm = case["names"]
    ishape = pd.DataFrame([[NAN if v is None else v for v in r] for r in t["incr"]], index=t["origins"], columns=t["devs"])
    cshape = pd.DataFrame([[NAN if v is None else v for v in r] for r in C], index=t["origins"], columns=t["devs"])
    want = {"incr": t["incr"], "cum": C}
    fi, fc = case.get("fmt", ["incr", "cum"])
    for tt in ("incr", "cum"):
        kw = dict(tri_type=tt, origin=nm[0], dev=nm[1], value=nm[2])
        for what, mk in [
                ("incremental records", lambda: trikit.totri(pd.DataFrame(irec, columns=nm), data_format=fi, **kw)),
                ("cumulative records", lambda: trikit.totri(pd.DataFrame(crec, columns=nm), data_format=fc, **kw)),
                ("incremental triangle frame", lambda: trikit.totri(ishape.copy(), data_format=fi, data_shape="triangle", **kw)),
                ("cumulative triangle frame", lambda: trikit.totri(cshape.copy(), data_format=fc, data_shape="triangle", **kw))]:
            tri = mk()
            eqmat(tri, want[tt], t["origins"], t["devs"], "{} triangle from {}".format(tt, what), rel=1e-9, ab=1e-6)
            need(type(tri).__name__ == ("IncrTriangle" if tt == "incr" else "CumTriangle"), "triangle type for " + tt)
    if case["inval"]:
        df = pd.DataFrame(irec, columns=["origin", "dev", "value"])
        expect_exc(lambda: trikit.totri(df, tri_type="bogus"), Exception, "unknown tri_type", "tri_type")
        expect_exc(lambda: trikit.totri(df, data_shape="bogus"), Exception, "unknown data_shape", "data_shape")
        expect_exc(lambda: trikit.totri(ishape, data_shape="triangle", data_format="bogus"), Exception,
                   "unknown data_format", "data_format")


# ---------------------------------------------------------------- C04
def gen_C04(rng, k):
    return {"tri": gen.tri_case(rng, gen.size(rng, 1 if k % 9 == 0 else 2, 7)), "names": list(rng.choice(NAMES[:5]))}


def run_C04(case):
    import trikit
    t, nm = case["tri"], case["names"]
    C, I = gen.cums(t), t["incr"]
    df = pd.DataFrame(gen.records(t), columns=nm)
    kw = dict(origin=nm[0], dev=nm[1], value=nm[2])
    it = trikit.totri(df.copy(), tri_type="incr", **kw)
    ct = trikit.totri(df.copy(), tri_type="cum", **kw)
    o, d = t["origins"], t["devs"]
    tol = dict(rel=1e-9, ab=1e-6)
    eqmat(it.to_cum(), C, o, d, "incr.to_cum()", **tol)
    eqmat(ct.to_incr(), I, o, d, "cum.to_incr()", **tol)
    eqmat(it.to_cum().to_incr(), I, o, d, "incr -> cum -> incr", **tol)
    eqmat(ct.to_incr().to_cum(), C, o, d, "cum -> incr -> cum", **tol)
    need(type(it.to_cum()).__name__ == "CumTriangle" and type(ct.to_incr()).__name__ == "IncrTriangle", "conversion types")
    for tri, M, fmt in ((it, I, "incr"), (ct, C, "cum")):
        tbl = tri.to_tbl()
        want = [[o[i], d[j], M[i][j]] for i in range(len(o)) for j in range(len(d)) if M[i][j] is not None]
        same(list(tbl.columns), nm, fmt + " to_tbl columns")
        need(len(tbl) == len(want), "{} to_tbl has {} records, contract requires {}".format(fmt, len(tbl), len(want)))
        same(list(tbl.index), list(range(len(want))), "to_tbl index")
        for a, b in zip(tbl.values.tolist(), want):
            need(a[0] == b[0] and a[1] == b[1], "{} to_tbl record {} where contract requires {}".format(fmt, a, b))
            eq(a[2], b[2], "{} to_tbl amount at {}".format(fmt, b[:2]), **tol)
        eqmat(trikit.totri(tbl, tri_type=fmt, data_format=fmt, **kw), M, o, d, "triangle rebuilt from to_tbl", **tol)
        full = tri.to_tbl(dropna=False)
        need(len(full) == len(o) * len(d), "to_tbl(dropna=False) lists every cell")


# ---------------------------------------------------------------- C05
def gen_C05(rng, k):
    n = gen.size(rng, 1, 7)
    t = gen.tri_case(rng, n)
    if k % 3 == 1:      # rectangular run-off shape
        m = rng.randint(1, 6)
        t = gen.tri_case(rng, n, m if m != n else m + 1)
        lat, out = m - 1 if m != n else m, []
        mm = len(t["devs"])
        cur = mm - 1
        for i in range(n):
            t["incr"][i] = [v if j <= cur else None for j, v in enumerate(t["incr"][i])]
            cur = max(0, cur - rng.choice([0, 1, 1, 2]))
    return {"tri": t, "type": rng.choice(["cum", "incr"]), "names": list(rng.choice(NAMES[:5])) if k % 4 == 3 else ["origin", "dev", "value"],
            "rs": rng.randint(0, 10**9)}


ACCESSORS5 = ["latest", "latest_by_origin", "latest_by_devp", "maturity", "rlvi", "clvi", "triind", "nbr_cells", "devp", "origins"]


def run_C05(case):
    import trikit
    t, nm = case["tri"], case["names"]
    df = pd.DataFrame(gen.records(t), columns=nm)
    tri = trikit.totri(df, tri_type=case["type"], origin=nm[0], dev=nm[1], value=nm[2])
    M = t["incr"] if case["type"] == "incr" else gen.cums(t)
    o, d = t["origins"], t["devs"]
    n, m = len(o), len(d)
    L = O.latest(M)
    order = ACCESSORS5[:]
    _rng(case).shuffle(order)
    for a in order:
        getattr(tri, a)
    lt = tri.latest
    same(list(lt.columns), ["origin", "dev", "latest"], "latest columns")
    got = sorted([int(r[0]), int(r[1]), float(r[2])] for r in lt.values.tolist())
    need(len(got) == n, "latest lists {} origins of {}".format(len(got), n))
    for g, i in zip(got, range(n)):
        need(g[0] == o[i] and g[1] == d[L[i][0]], "latest record {}: contract requires origin {} dev {}".format(g, o[i], d[L[i][0]]))
        eq(g[2], L[i][1], "latest[{}]".format(o[i]))
    series_eq(tri.latest_by_origin, [x[1] for x in L], o, "latest_by_origin")
    lb = tri.latest_by_devp
    wl = sorted((d[L[i][0]], L[i][1]) for i in range(n))
    gl = sorted((int(a), float(b)) for a, b in zip(lb.index, lb.values))
    need(list(lb.index) == sorted(lb.index), "latest_by_devp is sorted by development period")
    need(len(wl) == len(gl), "latest_by_devp size")
    for a, b in zip(gl, wl):
        need(a[0] == b[0], "latest_by_devp labels {} vs {}".format(gl, wl))
        eq(a[1], b[1], "latest_by_devp[{}]".format(a[0]))
    same([int(x) for x in tri.maturity.values], [d[L[i][0]] for i in range(n)], "maturity")
    same(list(tri.maturity.index), o, "maturity labels")
    rl = tri.rlvi
    same(list(rl.index), o, "rlvi labels")
    same([int(x) for x in rl["dev"]], [d[x[0]] for x in L], "rlvi dev")
    same([int(x) for x in rl["col_offset"]], [x[0] for x in L], "rlvi col_offset")
    lv = [max(i for i in range(n) if M[i][j] is not None) for j in range(m)]
    cl = tri.clvi
    same(list(cl.index), d, "clvi labels")
    same([int(x) for x in cl["origin"]], [o[i] for i in lv], "clvi origin")
    same([int(x) for x in cl["row_offset"]], lv, "clvi row_offset")
    eqmat(tri.triind, [[0 if j <= L[i][0] else 1 for j in range(m)] for i in range(n)], o, d, "triind")
    eq(tri.nbr_cells, sum(x[0] + 1 for x in L), "nbr_cells")
    same([int(x) for x in tri.devp], d, "devp")
    same([int(x) for x in tri.origins], o, "origins")
    if n == m and all(L[i][0] == n - 1 - i for i in range(n)):
        for k in range(n):
            dg = tri.diagonal(offset=-k)
            same(list(dg.columns), ["origin", "dev", "value"], "diagonal columns")
            want = [(o[i], d[L[i][0] - k], M[i][L[i][0] - k]) for i in range(n) if L[i][0] - k >= 0]
            g = sorted((int(a), int(b), float(c)) for a, b, c in dg.values.tolist())
            need(len(g) == len(want), "diagonal({}) lists {} origins, contract requires {}".format(-k, len(g), len(want)))
            for a, b in zip(g, want):
                need(a[:2] == b[:2], "diagonal({}) cell {} where contract requires {}".format(-k, a[:2], b[:2]))
                eq(a[2], b[2], "diagonal({}) at {}".format(-k, b[:2]))
        expect_exc(lambda: tri.diagonal(offset=-n), ValueError, "diagonal beyond the triangle")


# ---------------------------------------------------------------- C06
def gen_C06(rng, k):
    n = gen.size(rng, 2, 7)
    c = {"tri": gen.tri_case(rng, n), "first": k % 2 == 0, "rs": rng.randint(0, 10**9)}
    if k % 4 == 3:
        # non-positive cumulative amounts (never zero), later than the first development period
        if c["tri"]["kind"] == "micro":
            c["tri"] = gen.tri_case(rng, n, kind="float")
        for row in c["tri"]["incr"]:
            cum = 0.
            for j, v in enumerate(row):
                if v is not None and j > 0 and rng.random() < .3:
                    row[j] = v = -cum * rng.choice([1.5, .5, 2.25]) - 1.
                while j > 0 and v is not None and abs(cum + v) < 1e-3:
                    row[j] = v = v - 1.
                cum += v or 0.
    cells = [(i, j) for i in range(n) for j in range(n - 1) if i + j + 1 <= n - 1]
    c["sets"] = [[list(rng.choice(cells)), rng.choice([0, 0, 1])] for _ in range(rng.randint(1, 4))]
    return c


def run_C06(case):
    t = case["tri"]
    tri = mktri(t)
    C = gen.cums(t)
    o, d = t["origins"], t["devs"]
    n = len(o)
    F = O.ratios(C)[:n - 1]
    W = O.ones(F)
    o1, d1 = o[:n - 1], d[:n - 1]
    if not case["first"]:
        eqmat(tri.a2aind, W, o1, d1, "a2aind")
    for (i, j), v in case["sets"]:
        tri.a2aind = (o[i], d[j], v)
        W[i][j] = v
        eqmat(tri.a2aind, W, o1, d1, "a2aind after setting ({},{})={}".format(o[i], d[j], v))
    eqmat(tri.a2a, F, o1, d1, "a2a")
    lvi = tri.a2a_lvi
    same(list(lvi.index), d1, "a2a_lvi labels")
    last = [max(i for i in range(n - 1) if F[i][j] is not None) for j in range(n - 1)]
    same([int(x) for x in lvi["origin"]], [o[i] for i in last], "a2a_lvi origin")
    same([int(x) for x in lvi["row_offset"]], last, "a2a_lvi row_offset")
    eqmat(tri.a2a, F, o1, d1, "a2a (read again)")


# ---------------------------------------------------------------- C07
def gen_C07(rng, k):
    n = gen.size(rng, 2, 8)
    t = gen.tri_case(rng, n, kind=rng.choice(gen.VALKINDS + ["ties"]))
    ex = []
    if k % 3:
        cells = [[i, j] for i in range(n) for j in range(n - 1) if i + j + 1 <= n - 1]
        ex = rng.sample(cells, min(len(cells), rng.randint(1, 4)))
        if k % 6 == 5:
            jj = rng.randrange(n - 1)
            ex = [c for c in cells if c[1] == jj]
    return {"tri": t, "ex": ex, "hist": rng.choice([0, 0, 1, 2])}


def run_C07(case):
    t = case["tri"]
    tri = mktri(t)
    C = gen.cums(t)
    o, d = t["origins"], t["devs"]
    n = len(o)
    F = O.ratios(C)
    W = O.ones(F)
    h = case.get("hist", 0)
    if h:
        tri.a2a_avgs()
        if h == 2 and n > 2:
            tri.base_cl(sel="simple-1", tail=1.5)
            tri.a2aind = (o[0], d[0], 0)
            tri.a2a_avgs()
            tri.a2aind = (o[0], d[0], 1)
    for i, j in case["ex"]:
        if h:
            tri.a2aind = (o[i], d[j], 0)
        else:
            tri.a2aind.at[o[i], d[j]] = 0
        W[i][j] = 0
    A = tri.a2a_avgs()
    same(list(A.columns), d[:-1], "a2a_avgs columns")
    rows = [("{}-{}".format(k, w), k, w) for k in ("simple", "geometric", "medial", "weighted")
            for w in list(range(1, n - 1)) + [None]]
    rows = [(("all-" + k) if w is None else lab, k, w) for lab, k, w in rows]
    need(sorted(A.index) == sorted(r[0] for r in rows), "a2a_avgs rows are {}".format(sorted(A.index)))
    for lab, k, w in rows:
        for j in range(n - 1):
            eq(A.loc[lab, d[j]], O.average(C, F, W, k, w, j), "{} at development period {}".format(lab, d[j]))


# ---------------------------------------------------------------- C08 C09 C10
def _sel(rng, n):
    lo, hi = rng.choice([(.97, 2.5), (.97, 2.5), (.97, 2.5), (.2, 6.)])
    fac = [round(rng.uniform(lo, hi), rng.choice([2, 4, 6])) for _ in range(n - 1)]
    if rng.random() < .06:
        fac[rng.randrange(n - 1)] *= -1         # the arithmetic is the same for a factor below zero
    return fac


def gen_C08(rng, k):
    n = gen.size(rng, 2, 8)
    if k % 8 in (0, 2) and rng.random() < .12:
        n = rng.randint(11, 14)         # windows of one and of two digits
    t = gen.tri_case(rng, n, kind=rng.choice([v for v in gen.VALKINDS if v != "ties"]))
    kinds = ["simple", "geometric", "medial", "weighted"]
    names = ["all-" + x for x in kinds] + ["{}-{}".format(x, w) for x in kinds for w in range(1, n - 1)]
    how = ["name", "list", "name", "tuple", "array", "series", "rseries", "ints"][k % 8]
    fac = _sel(rng, n)
    if how == "ints":
        fac = [float(rng.randint(1, 3)) for _ in fac]
    return {"tri": t, "how": how, "name": rng.choice([x for x in names if x.endswith("-1")] if n > 10 and rng.random() < .6 else names), "fac": fac, "tail": gen.pick(rng, [1.0, 1.05, .985, 1.0, 1.2], .5, 3),
            "default": k % 16 == 0, "ex": [rng.randrange(n - 1), 0] if n > 3 and k % 8 in (0, 2) and rng.random() < .4 else None,
            "before": rng.random() < .3}


def _mksel(case, d):
    fac, how = case["fac"], case["how"]
    if how == "list":
        return list(fac)
    if how == "tuple":
        return tuple(fac)
    if how == "array":
        return np.asarray(fac)
    if how == "ints":
        return [int(x) for x in fac]
    if how == "series":
        return pd.Series(fac, index=d[:-1])
    if how == "rseries":
        return pd.Series(fac)
    return case["name"]


def _factors(case, C):
    t, d = case["tri"], case["tri"]["devs"]
    n = len(d)
    if case["how"] != "name" or case["default"]:
        if case["default"]:
            F = O.ratios(C)
            W = _incl(case, F)
            return [O.average(C, F, W, "weighted", None, j) for j in range(n - 1)] + [1.0]
        return list(case["fac"]) + [case["tail"]]
    nm = case["name"]
    k, w = (nm[4:], None) if nm.startswith("all-") else (nm.split("-")[0], int(nm.split("-")[1]))
    F = O.ratios(C)
    return [O.average(C, F, _incl(case, F), k, w, j) for j in range(n - 1)] + [case["tail"]]


def _incl(case, F):
    W = O.ones(F)
    if case.get("ex"):
        W[case["ex"][0]][case["ex"][1]] = 0
    return W


def _base(case, sel=None):
    tri = mktri(case["tri"])
    if case.get("before"):
        tri.base_cl(tail=1.25)
    if case.get("ex"):
        tri.a2aind = (case["tri"]["origins"][case["ex"][0]], case["tri"]["devs"][case["ex"][1]], 0)
    if case["default"]:
        return tri, tri.base_cl()
    sel = _mksel(case, case["tri"]["devs"]) if sel is None else sel
    return tri, tri.base_cl(sel=sel, tail=case["tail"])


def run_C08(case):
    t = case["tri"]
    C = gen.cums(t)
    o, d = t["origins"], t["devs"]
    n = len(d)
    f = _factors(case, C)
    if any(isna(x) for x in f):
        return
    sel = _mksel(case, d)
    before = copy.deepcopy(sel)
    tri, r = _base(case, sel)
    series_eq(r.ldfs, f, d, "ldfs")
    cd = O.cldf(f)
    same([str(x) for x in r.summary["maturity"].iloc[:n]], [str(d[n - 1 - i]) for i in range(n)], "summary maturity")
    eqlist(r.summary["cldf"].iloc[:n], [cd[n - 1 - i] for i in range(n)], "summary cldf")
    eqlist(r.summary["emergence"].iloc[:n], [1 / cd[n - 1 - i] for i in range(n)], "summary emergence")
    if not isinstance(sel, str):
        need(type(sel) is type(before) and len(sel) == len(before) and all(float(a) == float(b) for a, b in zip(list(sel), list(before))),
             "the supplied factors were changed")
        r2 = tri.base_cl(sel=sel, tail=case["tail"])
        series_eq(r2.ldfs, f, d, "ldfs on reuse of the same sequence")
        frame_equal(r2.summary, r.summary, "summary on reuse of the same sequence")
        for bad in (list(case["fac"]) + [1.1], list(case["fac"])[:-1], list(case["fac"]) + [1.2, 1.1]):
            b = bad
            if case["how"] == "array":
                b = np.asarray(bad)
            elif case["how"] in ("series", "rseries"):
                b = pd.Series(bad, dtype=float)
            elif case["how"] == "tuple":
                b = tuple(bad)
            expect_exc(lambda: tri.base_cl(sel=b, tail=case["tail"]), ValueError, "{} factors for {} periods".format(len(bad), n))


gen_C09 = gen_C08


def run_C09(case):
    t = case["tri"]
    C = gen.cums(t)
    o, d = t["origins"], t["devs"]
    n = len(d)
    f = _factors(case, C)
    if any(isna(x) for x in f):
        return
    tri, r = _base(case)
    cd, L = O.cldf(f), O.latest(C)
    s = r.summary
    same(list(s.index), o + ["total"], "summary rows")
    for c in ("maturity", "cldf", "emergence", "latest", "ultimate", "reserve"):
        need(c in s.columns, "summary column " + c)
    lat = [x[1] for x in L]
    ult = [lat[i] * cd[L[i][0]] for i in range(n)]
    res = [u - l for u, l in zip(ult, lat)]
    same([str(x) for x in s["maturity"].iloc[:n]], [str(d[x[0]]) for x in L], "maturity")
    eqlist(s["latest"].iloc[:n], lat, "latest")
    eqlist(s["cldf"].iloc[:n], [cd[x[0]] for x in L], "cldf")
    eqlist(s["ultimate"].iloc[:n], ult, "ultimate")
    tol = 1e-9 * max(map(abs, ult + [1]))
    eqlist(s["reserve"].iloc[:n], res, "reserve", ab=tol)
    eq(s.loc["total", "latest"], math.fsum(lat), "total latest")
    eq(s.loc["total", "ultimate"], math.fsum(ult), "total ultimate", ab=tol * n)
    eq(s.loc["total", "reserve"], math.fsum(res), "total reserve", ab=tol * n)
    need(isna(s.loc["total", "cldf"]) and isna(s.loc["total", "emergence"]), "total row has no factor or emergence")
    need(s.loc["total", "maturity"] == "" or isna(s.loc["total", "maturity"]), "total row has no maturity")
    for a, c in (("ultimate", "ultimate"), ("reserve", "reserve"), ("latest", "latest"), ("cldfs", "cldf"), ("maturity", "maturity"), ("emergence", "emergence")):
        if hasattr(r, a):
            x, y = getattr(r, a), s[c]
            need(len(x) == len(y) and all(_same(p, q) for p, q in zip(x.values, y.values)), "result attribute {} is the summary's {}".format(a, c))


def _same(p, q):
    return (isna(p) and isna(q)) or p == q


def gen_C10(rng, k):
    c = gen_C08(rng, k)
    if k % 3:
        n = gen.size(rng, 4, 7)
        c["tri"] = gen.tri_case(rng, n, kind=rng.choice(["round", "float", "grow", "huge"]), strict=True)
        c["ex"] = None
    c["est"] = ["base", "mack", "boot"][k % 3]
    c["alpha"] = rng.choice([0, 1, 2])
    return c


def run_C10(case):
    t = case["tri"]
    C = gen.cums(t)
    o, d = t["origins"], t["devs"]
    n = len(d)
    if case["est"] == "base":
        f = _factors(case, C)
        if any(isna(x) for x in f):
            return
        tri, r = _base(case)
    elif case["est"] == "mack":
        tri = mktri(t)
        r = tri.mack_cl(alpha=case["alpha"])
        f = O.mack(C, case["alpha"])[0] + [1.]
    else:
        tri = mktri(t)
        r = tri.boot_cl(sims=2, random_state=3)
        f = O.vw(C) + [1.]
    S, ult = O.square(C, f)
    sq = r.trisqrd
    tol = dict(rel=1e-8, ab=1e-7)
    same(list(sq.index), o, "trisqrd rows")
    same(list(sq.columns)[:n], d, "trisqrd columns")
    eqmat(sq.iloc[:, :n], S, o, d, "completed triangle", **tol)
    if case["est"] == "base":
        same(list(sq.columns), d + ["ultimate"], "trisqrd columns")
    if "ultimate" in sq.columns:
        eqlist(sq["ultimate"].values, ult, "trisqrd ultimate", **tol)
        if case["est"] != "boot":
            eqlist(sq["ultimate"].values, r.summary["ultimate"].iloc[:n], "trisqrd ultimate vs summary", **tol)
    elif case["est"] == "mack":
        eqlist(sq.iloc[:, -1].values, r.summary["ultimate"].iloc[:n], "last column vs summary ultimate", **tol)
    eqmat(tri, C, o, d, "the triangle itself after the estimator", **tol)
