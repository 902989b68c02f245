import math
import warnings
warnings.simplefilter("ignore")
import numpy as np
import pandas as pd

NAN = float("nan")


class Broken(AssertionError):
    """A contract clause is false on the real code."""


def need(cond, msg):
    if not cond:
        raise Broken(msg)


def isna(v):
    return v is None or (isinstance(v, float) and math.isnan(v)) or v is pd.NaT or (np.isscalar(v) and not isinstance(v, str) and pd.isna(v))


def close(a, b, rel=1e-7, ab=1e-7):
    if isna(a) or isna(b):
        return isna(a) and isna(b)
    a, b = float(a), float(b)
    if math.isinf(a) or math.isinf(b):
        return a == b
    return abs(a - b) <= ab + rel * max(abs(a), abs(b))


def eq(got, want, what, rel=1e-7, ab=1e-7):
    if not close(got, want, rel, ab):
        raise Broken("{}: got {!r}, contract requires {!r}".format(what, got, want))


def eqany(got, wants, what, rel=1e-7, ab=1e-7):
    if not any(close(got, w, rel, ab) for w in wants):
        raise Broken("{}: got {!r}, contract requires {!r}".format(what, got, wants[0]))


def eqlist(got, want, what, **k):
    got, want = list(got), list(want)
    need(len(got) == len(want), "{}: {} entries, contract requires {}".format(what, len(got), len(want)))
    for i, (g, w) in enumerate(zip(got, want)):
        eq(g, w, "{}[{}]".format(what, i), **k)


def same(got, want, what):
    need(list(got) == list(want), "{}: got {!r}, contract requires {!r}".format(what, list(got), list(want)))


def eqmat(frame, want, rows, cols, what, **k):
    same(list(frame.index), rows, what + " row labels")
    same(list(frame.columns), cols, what + " column labels")
    vals = frame.values
    for i in range(len(rows)):
        for j in range(len(cols)):
            eq(vals[i][j], want[i][j], "{}[{},{}]".format(what, rows[i], cols[j]), **k)


def series_eq(s, want, labels, what, **k):
    same(list(s.index), labels, what + " labels")
    eqlist(s.values, want, what, **k)


def expect_exc(fn, types, what, names=None):
    try:
        r = fn()
    except types as e:
        if names is not None:
            need(names in str(e), "{}: exception {!r} does not name {!r}".format(what, e, names))
        return
    except Exception as e:
        raise Broken("{}: raised {}({}) instead of {}".format(what, type(e).__name__, e, types))
    raise Broken("{}: accepted, answered with {}".format(what, type(r).__name__))


def frame_snapshot(df):
    return (list(df.columns), list(df.index), [list(r) for r in np.asarray(df, dtype=object).tolist()],
            [str(t) for t in df.dtypes])


def snap_eq(a, b):
    if a[0] != b[0] or a[1] != b[1] or a[3] != b[3]:
        return False
    return all(_obj_eq(x, y) for r, s in zip(a[2], b[2]) for x, y in zip(r, s)) and len(a[2]) == len(b[2])


def _obj_eq(x, y):
    if isna(x) or isna(y):
        return isna(x) and isna(y)
    if isinstance(x, str) or isinstance(y, str):
        return x == y
    return x == y


def frame_equal(a, b, what, rel=1e-10, ab=1e-9):
    same(list(map(str, a.columns)), list(map(str, b.columns)), what + " columns")
    same(list(map(str, a.index)), list(map(str, b.index)), what + " index")
    A, B = np.asarray(a, dtype=object), np.asarray(b, dtype=object)
    for i in range(A.shape[0]):
        for j in range(A.shape[1]):
            x, y = A[i, j], B[i, j]
            if isinstance(x, str) or isinstance(y, str):
                need(x == y, "{}[{},{}]: {!r} vs {!r}".format(what, a.index[i], a.columns[j], x, y))
            else:
                eq(x, y, "{}[{},{}]".format(what, a.index[i], a.columns[j]), rel=rel, ab=ab)


def mktri(case, tri_type="cum"):
    import trikit
    from gen import records
    df = pd.DataFrame(records(case), columns=["origin", "dev", "value"])
    return trikit.totri(df, tri_type=tri_type)
