"""Reference formulas, written from the property statements in plain Python."""
import math
import statistics


def nan():
    return float("nan")


def latest(C):
    out = []
    for r in C:
        k = max(j for j, v in enumerate(r) if v is not None)
        out.append((k, r[k]))
    return out


def ratios(C):
    n = len(C)
    m = len(C[0])
    return [[C[i][j + 1] / C[i][j] if j + 1 < m and C[i][j + 1] is not None else None
             for j in range(m - 1)] for i in range(n)]


def medial(x):
    x = sorted(x)
    if not x:
        return nan()
    if x[0] == x[-1]:
        return x[0]
    if len(x) == 2:
        return sum(x) / 2.
    y = [v for v in x if v != x[0] and v != x[-1]]
    return sum(y) / len(y) if y else nan()


def average(C, F, W, kind, d, j):
    """kind over the latest d (None = all) origins having a ratio in column j, W[i][j] inclusion."""
    rows = [i for i in range(len(C)) if F[i][j] is not None]
    if d is not None:
        rows = rows[-d:]
    rows = [i for i in rows if W[i][j]]
    x = [F[i][j] for i in rows]
    if not x:
        return nan()
    if kind == "simple":
        return sum(x) / len(x)
    if kind == "geometric":
        return math.exp(sum(math.log(v) for v in x) / len(x))
    if kind == "medial":
        return medial(x)
    return sum(C[i][j + 1] for i in rows) / sum(C[i][j] for i in rows)


def ones(F):
    return [[0 if v is None else 1 for v in r] for r in F]


def vw(C):
    F = ratios(C)
    W = ones(F)
    return [average(C, F, W, "weighted", None, j) for j in range(len(C[0]) - 1)]


def cldf(ldfs):
    out, p = [], 1.
    for f in reversed(ldfs):
        p *= f
        out.append(p)
    return out[::-1]


def square(C, ldfs):
    """C completed with ldfs (last = tail); returns (square, ultimate column)."""
    S = []
    for r in C:
        row = list(r)
        for j in range(1, len(row)):
            if row[j] is None:
                row[j] = row[j - 1] * ldfs[j - 1]
        S.append(row)
    return S, [r[-1] * ldfs[-1] for r in S]


def mack(C, alpha, W=None):
    n = len(C)
    F = ratios(C)
    W = ones(F) if W is None else W
    f, s2, v = [], [], []
    for j in range(n - 1):
        rows = [i for i in range(n) if F[i][j] is not None and W[i][j]]
        sw = sum(C[i][j] ** alpha for i in rows)
        f.append(sum(F[i][j] * C[i][j] ** alpha for i in rows) / sw)
    for j in range(n - 2):
        rows = [i for i in range(n) if F[i][j] is not None and W[i][j]]
        nr = len([i for i in range(n) if F[i][j] is not None])
        s2.append(sum(C[i][j] ** alpha * (F[i][j] - f[j]) ** 2 for i in rows) / (nr - 1))
    s, p = s2[-1], s2[-2]
    s2.append(min([x for x in ((s * s / p) if p != 0 else nan(), s, p)]) if p != 0 else nan())
    for j in range(n - 1):
        rows = [i for i in range(n) if F[i][j] is not None and W[i][j]]
        v.append(s2[j] / sum(C[i][j] ** alpha for i in rows))
    return f, s2, v


def mack_errors(C, f, s2, v):
    n = len(C)
    S, ult = square(C, f + [1.])
    proc, par = [0.], [0.]
    for i in range(1, n):
        k = n - 1 - i
        P = R = 0.
        for j in range(k, n - 1):
            P = f[j] ** 2 * P + S[i][j] * s2[j]
            R = f[j] ** 2 * R + S[i][j] ** 2 * v[j] + v[j] * R
        proc.append(P)
        par.append(R)
    mse = [a + b for a, b in zip(proc, par)]
    tot = 0.
    for i in range(1, n):
        later = sum(ult[i + 1:])
        q = sum(s2[j] / f[j] ** 2 / sum(C[m][j] for m in range(0, n - 1 - j)) for j in range(n - 1 - i, n - 1))
        tot += mse[i] + 2 * ult[i] * later * q
    return proc, par, mse, tot, ult


def rank(xs):
    """average ranks"""
    out = []
    for x in xs:
        lo = sum(1 for y in xs if y < x)
        eqn = sum(1 for y in xs if y == x)
        out.append(lo + (eqn + 1) / 2.)
    return out


def median(x):
    return statistics.median(x)


def norm_ppf(p):
    return statistics.NormalDist().inv_cdf(p)


def _pct(x, h, method):
    h = min(max(h, 0.), len(x) - 1.)
    lo = min(int(math.floor(h)), len(x) - 1)
    hi = min(lo + 1, len(x) - 1) if h > lo else lo
    if method == "linear":
        return x[lo] + (h - lo) * (x[hi] - x[lo])
    if method == "lower":
        return x[lo]
    if method == "higher":
        return x[hi]
    if method == "midpoint":
        return (x[lo] + x[hi]) / 2.
    return x[lo] if h - lo < .5 else x[hi] if h - lo > .5 else (x[lo] if lo % 2 == 0 else x[hi])


def percentiles(x, q, method="linear"):
    """The percentile, and its neighbours when (len - 1) * q is within rounding of a breakpoint."""
    x = sorted(x)
    h = (len(x) - 1) * q
    return [_pct(x, h + e, method) for e in (0., 1e-9, -1e-9)]


def qtls(q, two_sided=False):
    q = [float(v) for v in (q if isinstance(q, (list, tuple)) else [q])]
    if two_sided:
        q = [(1 - v) / 2. for v in q] + [(1 + v) / 2. for v in q]
    out = []
    for v in sorted(q):
        if not out or v != out[-1]:
            out.append(v)
    return out


def pct(v):
    return "{:.5f}".format(100 * v).rstrip("0").rstrip(".") + "%"


def ordinal(v):
    s = "{:.5f}".format(100 * v).rstrip("0").rstrip(".")
    if "." in s:
        return s + "th"
    if s[-2:] in ("11", "12", "13"):
        return s + "th"
    return s + {"1": "st", "2": "nd", "3": "rd"}.get(s[-1], "th")
