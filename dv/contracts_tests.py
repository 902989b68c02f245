"""Contracts of the diagnostics of a Mack result: development-period correlation and calendar-year effects."""
import z3
import core
import model
import pdops as P
import interp as I
from core import V, NAN, Lab, SStr, cx, simp, b_and, b_or, b_not, zi, zb, num, rv, hyp, ite, aggregate, s_bin, s_cmp
from model import Dom, Block, Series, DF, axis_block, const_block, freshint, sz
from contracts import contract, summary, one, sumr, mul, add, sub, div, frame_of, ckframe_of, has_ratio, ratio, a2a_rows, a2a_cols


def power(a, k):
    return s_bin("**", a, k)


def result(w):
    return w.inst("MackChainLadderResult")


def real_fn(name, w):
    f = z3.Function(name, z3.IntSort(), z3.RealSort())
    return lambda j: V(False, f(zi(j)))


# ==================================================================== development-period correlation
def coeffs(w):
    """Table of coefficients: k, weight and coefficient of the n - 3 pairs of adjacent columns."""
    t = real_fn("T", w)
    return lambda i: sz(zi(i) + 2), lambda i: sz(w.n - 3 - zi(i)), t


@summary("MackChainLadderResult._spearman_corr_coeffs")
def s_coeffs(ip, w, args, kw):
    if not w.is_tri(args[0].attrs.get("tri")):
        return NotImplemented
    k, wt, t = coeffs(w)
    return frame_of(w, Dom([Block((sz(w.n - 3),), lab=lambda p: p)]), k=k, w=wt, T_k=t)


@contract("MackChainLadderResult._spearman_corr_total", "C18", nmin=4)
def c_total(w, ck):
    k, wt, t = coeffs(w)
    res = ck.call("MackChainLadderResult._spearman_corr_total", [result(w)])
    n3 = sz(w.n - 3)
    top = sumr(0, n3, lambda i: mul(num(wt(i)), t(i)).v)
    ck.value("the statistic is the average weighted by w", res, div(top, sumr(0, n3, lambda i: num(wt(i)).v)))


def variance(w):
    return V(False, core.rv(w.n - 2) * core.rv(w.n - 3) / 2)


@contract("MackChainLadderResult._devp_corr_test_var", "C18", nmin=4)
def c_var(w, ck):
    ck.value("variance", ck.call("MackChainLadderResult._devp_corr_test_var", [result(w)]), variance(w))


@summary("MackChainLadderResult._devp_corr_test_var")
def s_var(ip, w, args, kw):
    return variance(w) if w.is_tri(args[0].attrs.get("tri")) else NotImplemented


@summary("MackChainLadderResult._spearman_corr_total")
def s_total(ip, w, args, kw):
    return V(False, z3.Real("T_total")) if w.is_tri(args[0].attrs.get("tri")) else NotImplemented


@contract("MackChainLadderResult.devp_corr_test", "C18", nmin=4)
def c_devp_test(w, ck):
    p = z3.Real("p")
    cx.hyps += [p > 0, p < 1]
    res = ck.call("MackChainLadderResult.devp_corr_test", [result(w)], dict(p=V(False, p)))
    ok = isinstance(res, tuple) and len(res) == 2 and isinstance(res[0], tuple) and len(res[0]) == 2
    ck.ob("result is ((lower, upper), statistic)").add("proved" if ok else "undecided", "got {!r}".format(res))
    if not ok:
        return
    (lo, hi), stat = res
    ck.value("statistic", stat, V(False, z3.Real("T_total")))
    ck.value("the interval is symmetric around zero", lo, core.s_neg(num(hi)))
    z = mul(num(hi), core.s_un("sqrt", variance(w)))
    cdf = lambda x: I.dist_fn(I.SObj("norm", loc=0, scale=1), "cdf", x)
    ck.value("the interval spans the central probability p", sub(cdf(z), cdf(core.s_neg(z))), V(False, p))


def rank(w, i, j, m):
    """Average rank of the link ratio of origin i in column j among the first m origins."""
    x = ratio(w, i, j)
    ok = lambda q: b_and(has_ratio(w, q, j), simp(zi(q) < zi(m)))
    less = aggregate("count", 0, sz(w.n - 1), lambda q: (b_and(ok(q), s_cmp("<", ratio(w, q, j), x)), 1))
    eq = aggregate("count", 0, sz(w.n - 1), lambda q: (b_and(ok(q), core.s_eq(ratio(w, q, j), x)), 1))
    return V(b_not(b_and(has_ratio(w, i, j), simp(zi(i) < zi(m)))), rv(less) + (rv(eq) + 1) / 2)


def s_rank(w, i, t):
    return rank(w, i, t, sz(w.n - 2 - zi(t)))


def r_rank(w, i, t):
    return rank(w, i, sz(zi(t) + 1), w.n)


def ranks(w):
    """Columns s_2 r_2 s_3 r_3 ...: at 2t the ranks of column t among the origins that have a ratio in column t + 1, at 2t + 1 the ranks of column t + 1."""
    def cell(r, c):
        i, q = one(r), one(c)
        return ite(simp(zi(q) % 2 == 0), lambda: s_rank(w, i, model.exact_div(q, 2)), lambda: r_rank(w, i, model.exact_div(zi(q) - 1, 2)))
    return Dom([axis_block(w.OX, 0, sz(w.n - 2))]), Dom([Block((sz(2 * (w.n - 3)),), lab=lambda q: rank_label(q))]), cell


def rank_label(q):
    a = zi(q) % 2 == 0
    if core.branch(simp(a)):
        return SStr("fmt:s_{}", (sz(zi(model.exact_div(q, 2)) + 2),))
    return SStr("fmt:r_{}", (sz(zi(model.exact_div(zi(q) - 1, 2)) + 2),))


def rank_names(w):
    """The ranks of the contract of ranked_a2a under names: (s, r) as functions of origin and pair number."""
    fs, fr = [z3.Function("rank_" + x, z3.IntSort(), z3.IntSort(), z3.RealSort()) for x in "sr"]
    s = lambda i, t: V(b_not(b_and(has_ratio(w, i, t), simp(zi(i) < w.n - 2 - zi(t)))), fs(zi(i), zi(t)))
    r = lambda i, t: V(b_not(has_ratio(w, i, sz(zi(t) + 1))), fr(zi(i), zi(t)))
    return s, r


@summary("_BaseCumTriangle.ranked_a2a")
def s_ranked(ip, w, args, kw):
    if not (w.is_tri(args[0]) and core.entails(w.n >= 4)):
        return NotImplemented
    s, r = rank_names(w)
    return DF(*ranks(w)[:2], lambda a, c: ite(simp(zi(one(c)) % 2 == 0), lambda: s(one(a), model.exact_div(one(c), 2)),
                                              lambda: r(one(a), model.exact_div(zi(one(c)) - 1, 2))))


@contract("MackChainLadderResult._spearman_corr_coeffs", "C18", nmin=4)
def c_coeffs(w, ck):
    res = ck.call("MackChainLadderResult._spearman_corr_coeffs", [result(w)])
    k, wt, _ = coeffs(w)

    def t(i):
        m = core.rv(sz(w.n - 2 - zi(i)))
        both = lambda q: b_and(has_ratio(w, q, sz(zi(i) + 1)), simp(zi(q) < w.n - 2 - zi(i)))
        s_, r_ = rank_names(w)
        den = m * m * m - m
        return V(False, 1 - 6 * aggregate("sum", 0, sz(w.n - 2), lambda q: (both(q), power(sub(r_(q, i), s_(q, i)), 2).v / den)))
    ckframe_of(ck, "coefficients", res, Dom([Block((sz(w.n - 3),), lab=lambda p: p)]), k=k, w=wt, T_k=t)


@contract("_BaseCumTriangle.ranked_a2a", "C18", nmin=4)
def c_ranked(w, ck):
    st = w.tri.state()
    res = ck.call("_BaseCumTriangle.ranked_a2a", [w.tri])
    rows, cols, cell = ranks(w)
    if not isinstance(res, DF) or not ck.eqdom("rows of the ranks", res.rows, rows) or len(res.cols.blocks) != 1:
        ck.ob("ranks").add("undecided", "no frame over these origins")
        return
    ck.value("number of columns", num(res.cols.size()), num(cols.size()))
    t, i = freshint("t"), freshint("i")
    with hyp(t >= 0, t < w.n - 3, i >= 0, i < w.n - 2):
        for q, kind, want in ((sz(2 * t), "s", s_rank(w, i, t)), (sz(2 * t + 1), "r", r_rank(w, i, t))):
            ck.goal("label of {} columns".format(kind), core.s_eq(res.cols.lab((0, (q,))), SStr("fmt:{}_{{}}".format(kind), (sz(t + 2),))))
            ck.value("{} columns".format(kind), res.cell((0, (i,)), (0, (q,))), want)
    ck.unchanged("the amounts are not written to", w.tri, st)


# ==================================================================== calendar-year effects
def median_of(w, j):
    """Median of the link ratios of column j."""
    return V(False, aggregate("median", 0, sz(w.n - 1), lambda i: (has_ratio(w, i, j), ratio(w, i, j).v)))


def near(a, b):
    """numpy.allclose of two numbers: |a - b| <= 1e-8 + 1e-5 |b|."""
    return (s_cmp("<=", core.s_un("abs", sub(a, b)), add(num(1e-8), mul(num(1e-5), core.s_un("abs", b)))))


def assign_cell(w):
    """+1 above the column's median, -1 below it, 0 at it (up to numpy's closeness), missing without a ratio."""
    def f(r, c):
        i, j = one(r), one(c)
        x, m = ratio(w, i, j), median_of(w, j)
        v = ite(near(x, m), lambda: rv(0), lambda: ite(s_cmp(">", x, m), lambda: rv(1), lambda: rv(-1)))
        return V(b_not(has_ratio(w, i, j)), num(v).v)
    return f


@contract("_BaseCumTriangle.a2a_assignment", "C19", nmin=3)
def c_assign(w, ck):
    st = w.tri.state()
    res = ck.call("_BaseCumTriangle.a2a_assignment", [w.tri])
    ck.frame("classification", res, a2a_rows(w), a2a_cols(w), assign_cell(w))
    ck.unchanged("the amounts are not written to", w.tri, st)


@summary("_BaseCumTriangle.a2a_assignment")
def s_assign(ip, w, args, kw):
    return DF(a2a_rows(w), a2a_cols(w), assign_cell(w)) if w.is_tri(args[0]) else NotImplemented


CY = ("j", "S", "L", "Z", "n", "m", "E_Z", "V_Z")


@summary("MackChainLadderResult._cy_effects_table")
def s_cy(ip, w, args, kw):
    if not w.is_tri(args[0].attrs.get("tri")):
        return NotImplemented
    return frame_of(w, Dom([Block((sz(w.n - 2),), lab=lambda p: p)]), **{c: real_fn("cy_" + c, w) for c in CY})


@contract("MackChainLadderResult.cy_effects_test", "C19", nmin=4)
def c_cy_test(w, ck):
    p = z3.Real("p")
    cx.hyps += [p > 0, p < 1]
    res = ck.call("MackChainLadderResult.cy_effects_test", [result(w)], dict(p=V(False, p)))
    ok = isinstance(res, tuple) and len(res) == 2 and isinstance(res[0], tuple) and len(res[0]) == 2
    ck.ob("result is ((lower, upper), Z)").add("proved" if ok else "undecided", "got {!r}".format(res))
    if not ok:
        return
    (lo, hi), z = res
    tot = lambda c: sumr(0, sz(w.n - 2), lambda i: real_fn("cy_" + c, w)(i).v)
    ck.value("Z is the total over diagonals", z, tot("Z"))
    crit = core.s_un("abs", I.dist_fn(I.SObj("norm", loc=0, scale=1), "ppf", V(False, p / 2)))
    half = mul(crit, core.s_un("sqrt", tot("V_Z")))
    ck.value("lower bound", lo, sub(tot("E_Z"), half))
    ck.value("upper bound", hi, add(tot("E_Z"), half))


def last_table(w):
    """Loop invariant: after t iterations the table lists, for each of the first n - 1 - t development periods d, the ratio
    of diagonal n - 2 - t."""
    def at(t):
        return frame_of(w, Dom([Block((sz(w.n - 1 - zi(t)),), lab=lambda p: p)]), dev=lambda d: Lab(w.DX, d),
                        origin=lambda d: Lab(w.OX, sz(w.n - 2 - zi(t) - zi(d))), row_offset=lambda d: sz(w.n - 2 - zi(d)))
    return at


def counted(w, t, sign):
    """Number of link ratios of calendar diagonal n - 2 - t classified sign."""
    cell = assign_cell(w)
    return aggregate("count", 0, sz(w.n - 1 - zi(t)),
                     lambda d: (core.s_eq(cell((0, (sz(w.n - 2 - zi(t) - zi(d)),)), (0, (d,))), sign), 1))


@contract("MackChainLadderResult._cy_effects_table", "C19", nmin=4)
def c_cy_table(w, ck):
    w.loop_invs = [last_table(w)]
    res = ck.call("MackChainLadderResult._cy_effects_table", [result(w)])

    def row(p):
        """Row p is diagonal j = p + 2."""
        t = sz(w.n - 3 - zi(p))
        s, l = (V(False, rv(counted(w, t, k))) for k in (-1, 1))
        z = ite(s_cmp("<", s, l), lambda: s, lambda: l)
        n = add(s, l)
        m = core.s_un("floor", div(sub(n, num(1)), num(2)))
        c = I.binom(sub(n, num(1)), m)
        p2 = power(2, n)
        e = sub(div(n, num(2)), div(mul(c, n), p2))
        nn = mul(n, sub(n, num(1)))
        v = sub(add(sub(div(nn, num(4)), div(mul(c, nn), p2)), e), mul(e, e))
        return dict(j=num(sz(zi(p) + 2)), S=s, L=l, Z=z, n=n, m=m, E_Z=e, V_Z=v)
    rows = Dom([Block((sz(w.n - 2),), lab=lambda p: p)])
    ck.frame("table", res, rows, Dom([const_block(x) for x in CY]), lambda r, c: row(one(r))[CY[c[0]]], index=False)


# ------------------------------------------------------------------ repetition: a second read of an accessor gives the first one's result
def same_again(ck, a, b):
    if a is b:
        ck.ob("a second read gives the same result").add("proved", backend="identity")
    elif isinstance(a, DF) and isinstance(b, DF):
        ck.frame("a second read", b, a.rows, a.cols, a.cell)
    elif isinstance(a, Series) and isinstance(b, Series):
        ck.series("a second read", b, a.dom, a.fn)
    else:
        ck.value("a second read gives the same result", b, a)


def again(q, wk):
    @contract(q, "C21", tag=" [read again]", **wk)
    def c(w, ck):
        cls, _, m = q.partition(".")
        o = w.tri if cls != "MackChainLadder" else w.inst("MackChainLadder", alpha=1, _mod_tri=None, _mod_a2aind=None)
        st = None
        a = ck.call(q, [o])
        if isinstance(a, (DF, Series)):
            st = a.state()
        b = ck.call(q, [o])
        if st is not None:
            ck.unchanged("the first result is not written to", a, st)
        same_again(ck, a, b)


for _q in ("triind", "rlvi", "clvi", "latest", "latest_by_origin", "latest_by_devp", "devp", "origins", "maturity", "nbr_cells"):
    again("_BaseTriangle." + _q, dict(positive=False))
for _q in ("a2a", "a2aind", "a2a_lvi"):
    again("_BaseCumTriangle." + _q, {})
again("_BaseCumTriangle.ranked_a2a", dict(nmin=4))
again("_BaseCumTriangle.a2a_assignment", dict(nmin=3))
for _q in ("mod_tri", "mod_a2aind"):
    again("MackChainLadder." + _q, {})
