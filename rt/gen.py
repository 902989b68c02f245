"""Input generation for the executable contracts (plain JSON-able cases)."""
import random

HINTS = {"n": [], "ints": [], "floats": []}      # sizes and numbers worth trying: constants of the source, verifier models


def mine(root):
    """Numeric constants of the source: sizes, labels and parameters at which the code may treat an input specially."""
    import ast
    import glob
    import warnings
    out = set()
    for f in sorted(glob.glob(root + "/*.py") + glob.glob(root + "/estimators/*.py")):
        try:
            with warnings.catch_warnings():
                warnings.simplefilter("ignore")
                tree = ast.parse(open(f).read())
        except (SyntaxError, OSError):
            continue
        for x in ast.walk(tree):
            if isinstance(x, ast.Constant) and type(x.value) in (int, float):
                out.add(x.value)
    ints = sorted(v for v in out if isinstance(v, int) and 2 <= v <= 300000)
    HINTS["ints"] = sorted({w for v in ints for w in (v - 1, v, v + 1) if w > 1})
    HINTS["floats"] = sorted(v for v in out if isinstance(v, float))


def size(rng, lo, hi):
    """Number of origins: lo..hi, now and then larger or one of the hinted sizes."""
    r = rng.random()
    if r < .4 and HINTS["n"]:
        c = [v for v in HINTS["n"] if lo <= v <= 40]
        if c:
            return rng.choice(c)
    if r > .97:
        return rng.randint(hi + 1, hi + 6)
    if r > .93:
        c = [v for v in HINTS["ints"] if hi < v <= 24]
        if c:
            return rng.choice(c)
    return rng.randint(lo, hi)


def pick(rng, usual, lo=None, hi=None, ints=False):
    """One of the usual values, now and then a hinted number in [lo, hi]."""
    if rng.random() < .12:
        c = [v for v in (HINTS["ints"] if ints else HINTS["floats"] + HINTS["ints"]) if (lo is None or v >= lo) and (hi is None or v <= hi)]
        if c:
            return rng.choice(c)
    return rng.choice(usual)


DEVKINDS = ["one", "twelve", "zero", "uneven", "offset", "six"]
ORIGKINDS = ["year", "uneven", "one", "big"]
VALKINDS = ["round", "float", "small", "ties", "grow", "huge", "noisy", "wild", "micro"]


def dev_labels(rng, m, kind=None):
    if kind is None and rng.random() < .05:
        # labels of different lengths as text
        s, d = 10 ** rng.randint(1, 4), rng.choice([1, 1, 3, 12])
        s = max(0, s - d * rng.randint(1, m))
        return [s + d * k for k in range(m)]
    if kind is None and rng.random() < .08 and HINTS["ints"]:
        s = max(0, rng.choice(HINTS["ints"]) - rng.randint(0, m))
        return list(range(s, s + m))
    kind = kind or rng.choice(DEVKINDS)
    if kind == "one":
        return list(range(1, m + 1))
    if kind == "twelve":
        return [12 * (k + 1) for k in range(m)]
    if kind == "zero":
        return list(range(m))
    if kind == "six":
        return [6 + 12 * k for k in range(m)]
    if kind == "offset":
        s, d = rng.randint(2, 9), rng.randint(1, 4)
        return [s + d * k for k in range(m)]
    out, cur = [], rng.randint(1, 5)
    for _ in range(m):
        out.append(cur)
        cur += rng.choice([1, 2, 3, 7])
    return out


def origin_labels(rng, n, kind=None):
    if kind is None and rng.random() < .04:
        s = 10 ** rng.randint(1, 4)
        s = max(0, s - rng.randint(1, n))
        return list(range(s, s + n))
    if kind is None and rng.random() < .1 and HINTS["ints"]:
        s = max(0, rng.choice(HINTS["ints"]) - rng.randint(0, n - 1))
        return list(range(s, s + n))
    kind = kind or rng.choice(ORIGKINDS)
    if kind == "year":
        s = rng.randint(1975, 2010)
        return list(range(s, s + n))
    if kind == "one":
        return list(range(1, n + 1))
    if kind == "big":
        s = rng.randint(200001, 202001)
        return [s + 3 * k for k in range(n)]
    out, cur = [], rng.randint(1970, 2000)
    for _ in range(n):
        out.append(cur)
        cur += rng.choice([1, 2, 5])
    return out


def tri_case(rng, n, m=None, kind=None, strict=False, devkind=None, origkind=None, integer=False):
    """Square run-off triangle (n x n), incr[i][j] for i + j <= n - 1, cumulative amounts positive.
    strict: every increment positive."""
    m = n if m is None else m
    kind = kind or rng.choice(VALKINDS)
    incr = []
    for i in range(n):
        row = []
        base = {"round": rng.randint(100, 5000), "float": rng.uniform(50, 3000), "small": rng.uniform(.5, 20),
                "ties": rng.choice([100, 200]), "grow": 1000 * (1.1 ** i), "huge": rng.randint(10**6, 10**8),
                "noisy": rng.uniform(10, 9000), "wild": rng.uniform(10, 9000), "micro": rng.uniform(1e-4, 1e-2)}[kind]
        cum = 0.
        for j in range(m):
            obs = (i + j <= n - 1) if m == n else True
            if not obs:
                row.append(None)
                continue
            if j == 0:
                v = base
            elif kind == "ties":
                v = cum * rng.choice([.5, 1., .25])
            elif kind == "wild":
                v = cum * (rng.uniform(.02, 4.) if strict else rng.choice([rng.uniform(-.95, 4.), rng.uniform(-.95, 0.), rng.uniform(-.1, .1)]))
            else:
                v = base * rng.uniform(.05, 1.2) * (.65 ** j)
                if not strict:
                    r = rng.random()
                    if r < .08:
                        v = 0.
                    elif r < .18:
                        v = -rng.uniform(.01, .3) * cum
            if kind in ("round", "huge", "grow") or integer:
                v = float(round(v))
                if strict and j > 0 and v <= 0:
                    v = 1.
                if j == 0 and v <= 0:
                    v = 1.
            if cum + v <= 0:
                v = abs(v) + (1e-3 if kind == "micro" else 1.)
            if strict and j > 0 and v <= 0:
                v = abs(v) + (1e-3 if kind == "micro" else .5)
            cum += v
            row.append(float(v))
        incr.append(row)
    if rng.random() < .06:
        # another currency unit: a power of two, so every exact relation between amounts stays exact
        f = 2. ** rng.choice([4, 10, 16, 22])
        incr = [[None if v is None else v * f for v in row] for row in incr]
    return {"origins": origin_labels(rng, n, origkind), "devs": dev_labels(rng, m, devkind), "incr": incr,
            "kind": kind}


def records(case):
    return [[o, d, case["incr"][i][j]]
            for i, o in enumerate(case["origins"]) for j, d in enumerate(case["devs"])
            if case["incr"][i][j] is not None]


def shuffled(rng, recs, how=None):
    recs = [list(r) for r in recs]
    how = how or rng.choice(["sorted", "random", "reversed", "bydev", "devdesc"])
    if how == "random":
        rng.shuffle(recs)
    elif how == "reversed":
        recs.reverse()
    elif how == "bydev":
        recs.sort(key=lambda r: (r[1], r[0]))
    elif how == "devdesc":
        recs.sort(key=lambda r: (r[0], -r[1]))
    return recs


def split_dups(rng, recs, p=.35, keep_positive_dev=None):
    """Split some records into several that add up to the same amount."""
    out = []
    for o, d, v in recs:
        if rng.random() < p:
            a = v * rng.uniform(.2, .8)
            if keep_positive_dev is None or d != keep_positive_dev or v > 0:
                out += [[o, d, a], [o, d, v - a]]
                continue
        out.append([o, d, v])
    return out


def cums(case):
    out = []
    for row in case["incr"]:
        c, r = 0., []
        for v in row:
            if v is None:
                r.append(None)
            else:
                c += v
                r.append(c)
        out.append(r)
    return out
