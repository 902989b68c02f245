"""Contracts on the triangle constructors and conversions."""
import z3
import core
import model
import pdops as P
from core import V, NAN, Lab, cx, simp, b_and, b_or, b_not, zi, hyp, aggregate, ite, rv, num
from model import BaseAx, Dom, Block, DF, axis_block, const_block, freshint, sz, exists
from core import zb
from contracts import REG, peel_hi, contract, summary, one, sumr, add, sub, ckframe_of, frame_of

R, INT = z3.RealSort(), z3.IntSort()


class Records:
    """An arbitrary non-empty table of loss records: M rows with arbitrary (even repeated) row labels, record r holding the
    origin at position o(r) of the ascending distinct origins, the development period at position d(r) of the ascending
    distinct development periods, and the amount x(r).  Every origin and development period occurs by definition."""
    def __init__(self, w, names=("origin", "dev", "value"), extra=()):
        self.M, self.no, self.nd = z3.Int("M"), z3.Int("no"), z3.Int("nd")
        cx.hyps += [self.M >= 1, self.no >= 1, self.nd >= 1]
        M, no, nd = self.M, self.no, self.nd
        self.OX, self.DX = BaseAx("rorg", no), BaseAx("rdev", nd)
        self.o, self.d = z3.Function("o", INT, INT), z3.Function("d", INT, INT)
        self.xf = z3.Function("x", INT, R)
        rl = z3.Function("rowlabel", INT, INT)
        cx.termfacts["o"] = lambda r: [self.o(r) >= 0, self.o(r) < no]
        cx.termfacts["d"] = lambda r: [self.d(r) >= 0, self.d(r) < nd]
        b = Block((M,), lambda p: rl(zi(p)))
        b.onto = frozenset([self.OX, self.DX])
        self.rows = Dom([b])
        self.names = names
        cols = list(names) + list(extra)
        ex = {c: z3.Function("extra_" + c, INT, R) for c in extra}
        order = extra[:1] and [extra[0]] + list(names) + list(extra[1:]) or cols

        def cell(r, c):
            q = zi(one(r))
            nm = order[c[0]]
            if nm == names[0]:
                return Lab(self.OX, self.o(q))
            if nm == names[1]:
                return Lab(self.DX, self.d(q))
            return V(False, (self.xf if nm == names[2] else ex[nm])(q))
        self.df = DF(self.rows, Dom([const_block(c) for c in order]), cell)
        self.tr, self.tc = Dom([axis_block(self.OX)]), Dom([axis_block(self.DX)])

    def here(self, i, j):
        return lambda r: b_and(simp(self.o(zi(r)) == zi(i)), simp(self.d(zi(r)) == zi(j)))

    def present(self, i, j):
        return exists(self.here(i, j), 0, self.M)

    def x(self, r):
        return V(False, self.xf(zi(r)))

    def incr_x(self, r):
        """A first-period record that is not positive counts as 1."""
        return ite(b_and(simp(self.d(zi(r)) == 0), simp(self.xf(zi(r)) <= 0)), lambda: V(False, rv(1)), lambda: self.x(r))

    def total(self, i, j, f):
        return V(False, aggregate("sum", 0, self.M, lambda r: (self.here(i, j)(r), f(r))))

    def incr(self, r, c):
        i, j = one(r), one(c)
        return ite(self.present(i, j), lambda: self.total(i, j, self.incr_x), lambda: NAN)


def is_triangle(ck, res, cls, names):
    ok = isinstance(res, DF) and res.cls is not None and res.cls.name == cls
    ck.ob("the result is a " + cls).add("proved" if ok else "undecided", "got {!r}".format(res))
    if ok:
        for a, n in zip(("origin", "dev", "value"), names):
            ck.value("attribute " + a, res.attrs.get(a), n)
        bad = [k for k, v in res.attrs.items() if k.startswith("_") and v is not None]
        ck.ob("nothing is cached yet").add("proved" if not bad else "undecided", str(bad))
    return ok


NAMED = {"default": {}, "named": dict(origin="AY", dev="LAG", value="LOSS")}


def _incr(tag, kw):
    @contract("IncrTriangle.__init__", "C01 C21 C22", tag=" [{} columns]".format(tag))
    def c(w, ck):
        names = (kw.get("origin", "origin"), kw.get("dev", "dev"), kw.get("value", "value"))
        rec = Records(w, names, ("note", "other") if kw else ())
        st = rec.df.state()
        res = ck.new("IncrTriangle", [rec.df], dict(kw))
        if is_triangle(ck, res, "IncrTriangle", names):
            ck.frame("triangle", res, rec.tr, rec.tc, rec.incr)
        ck.unchanged("the caller's records are not written to", rec.df, st)


for _t, _k in NAMED.items():
    _incr(_t, _k)


def cum_of(rec, i, j):
    """Running total of the raw record values of origin i up to development period j."""
    return V(False, aggregate("sum", 0, sz(zi(j) + 1), lambda k: (rec.present(i, k), rec.total(i, k, rec.x))))


def floor1(j, v):
    """A first-period amount that is not positive counts as 1."""
    return ite(b_and(simp(zi(j) == 0), simp(v.v <= 0)), lambda: V(False, rv(1)), lambda: v)


def cum_cell(rec):
    def f(r, c):
        i, j = one(r), one(c)
        return ite(rec.present(i, j), lambda: floor1(j, cum_of(rec, i, j)), lambda: NAN)
    return f


def _cum(tag, kw):
    @contract("CumTriangle.__init__", "C02 C21 C22", tag=" [{} columns]".format(tag))
    def c(w, ck):
        names = (kw.get("origin", "origin"), kw.get("dev", "dev"), kw.get("value", "value"))
        rec = Records(w, names, ("note", "other") if kw else ())
        st = rec.df.state()
        res = ck.new("CumTriangle", [rec.df], dict(kw))
        if is_triangle(ck, res, "CumTriangle", names):
            ck.frame("triangle", res, rec.tr, rec.tc, cum_cell(rec))
        ck.unchanged("the caller's records are not written to", rec.df, st)


for _t, _k in NAMED.items():
    _cum(_t, _k)


# ==================================================================== conversions of a run-off triangle
def incr_spec(w):
    def f(r, c):
        i, j = one(r), one(c)
        return ite(w.obs(i, j), lambda: ite(simp(zi(j) == 0), lambda: w.C(i, 0), lambda: sub(w.C(i, j), w.C(i, sz(zi(j) - 1)))), lambda: NAN)
    return f


@contract("CumTriangle.to_incr", "C04 C21 C22", positive="first")
def c_to_incr(w, ck):
    st = w.tri.state()
    res = ck.call("CumTriangle.to_incr", [w.tri])
    if is_triangle(ck, res, "IncrTriangle", ("origin", "dev", "value")):
        ck.frame("incremental triangle", res, w.rows, w.cols, incr_spec(w))
    ck.unchanged("the triangle is not written to", w.tri, st)


@contract("IncrTriangle.to_cum", "C04 C21 C22", positive="first")
def c_to_cum(w, ck):
    t = w.triangle("IncrTriangle")
    st = t.state()
    res = ck.call("IncrTriangle.to_cum", [t])
    if is_triangle(ck, res, "CumTriangle", ("origin", "dev", "value")):
        ck.frame("cumulative triangle", res, w.rows, w.cols,
                 lambda r, c: ite(w.obs(one(r), one(c)), lambda: sumr(0, sz(zi(one(c)) + 1), lambda k: w.C(one(r), k)), lambda: NAN))
    ck.unchanged("the triangle is not written to", t, st)


# ==================================================================== totri
def totri(ck, args, **kw):
    return ck.call("totri", list(args), kw)


@contract("totri", "C01 C03 C21 C22", tag=" [incremental records to incremental]", positive="first")
def c_totri_ii(w, ck):
    rec = Records(w)
    st = rec.df.state()
    res = totri(ck, [rec.df], tri_type="incr", data_format="incr", data_shape="tabular")
    if is_triangle(ck, res, "IncrTriangle", ("origin", "dev", "value")):
        ck.frame("triangle", res, rec.tr, rec.tc, rec.incr)
    ck.unchanged("the caller's records are not written to", rec.df, st)


def long_table(w, fn, dev_major=False):
    """One record per observed cell, listed by origin or by development period."""
    b = Block((w.n, w.m), None, lambda i, j: w.obs(i, j), (1, 0) if dev_major else (0, 1))
    names = ("origin", "dev", "value")
    return DF(Dom([b]), Dom([const_block(c) for c in names]),
              lambda r, c: Lab(w.OX, r[1][0]) if c[0] == 0 else Lab(w.DX, r[1][1]) if c[0] == 1 else fn(*r[1]))


def incr_at(w, i, j):
    return ite(simp(zi(j) == 0), lambda: w.C(i, 0), lambda: sub(w.C(i, j), w.C(i, sz(zi(j) - 1))))


def shapes(w):
    """The same losses in every representation totri accepts."""
    inc = lambda i, j: incr_at(w, i, j)
    for major in (False, True):
        for fmt, f in (("incr", inc), ("cum", w.C)):
            yield "{} records by {}".format(fmt, "development period" if major else "origin"), long_table(w, f, major), fmt, "tabular"
    for fmt, f in (("incr", inc), ("cum", w.C)):
        yield fmt + " triangle", DF(w.rows, w.cols, lambda r, c, f=f: ite(w.obs(one(r), one(c)), lambda: f(one(r), one(c)), lambda: NAN)), fmt, "triangle"


def running(w):
    """Observed cells hold the sum of the increments so far."""
    return lambda r, c: ite(w.obs(one(r), one(c)), lambda: sumr(0, sz(zi(one(c)) + 1), lambda k: incr_at(w, one(r), k)), lambda: NAN)


def telescopes(w, ck):
    """sum of C(i, k) - C(i, k-1) up to j is C(i, j): by induction over j."""
    i, j = freshint("i"), freshint("j")
    f = lambda k: incr_at(w, i, k)
    with hyp(i >= 0, i < w.n):
        peel_hi("sum", 0, 1, f)
        ck.value("the increments of an origin add up to its cumulative amount (base)", sumr(0, 1, f), w.C(i, 0))
        with hyp(j >= 0, j < w.m - 1, w.obs(i, sz(j + 1))):
            peel_hi("sum", 0, sz(j + 2), f)
            ih = ck.veq(sumr(0, sz(j + 1), f), w.C(i, j))
            ck.goal("the increments of an origin add up to its cumulative amount (step)", ck.veq(sumr(0, sz(j + 2), f), w.C(i, sz(j + 1))), hyps=[zb(ih)])


def _reps(k):
    for typ, cls in (("incr", "IncrTriangle"), ("cum", "CumTriangle")):
        @contract("totri", "C03 C21 C22", tag=" [representation {} to {}]".format(k, typ), positive="first")
        def c(w, ck, typ=typ, cls=cls):
            name, data, fmt, shape = list(shapes(w))[k]
            st = data.state()
            res = totri(ck, [data], tri_type=typ, data_format=fmt, data_shape=shape)
            if is_triangle(ck, res, cls, ("origin", "dev", "value")):
                ck.frame("{} triangle from {}".format(typ, name), res, w.rows, w.cols, incr_spec(w) if typ == "incr" else running(w))
                if typ == "cum":
                    telescopes(w, ck)
            ck.unchanged("the caller's data is not written to", data, st)


for _k in range(6):
    _reps(_k)


@contract("totri", "C03", tag=" [unknown arguments]", positive="first")
def c_totri_bad(w, ck):
    data = long_table(w, w.C)
    tri = DF(w.rows, w.cols, lambda r, c: w.cell(one(r), one(c)))
    for t in ("x", "", "triangle", "ucm"):
        ck.raises("triangle type {!r} is rejected".format(t), lambda: totri(ck, [data], tri_type=t), "NameError")
    for t in ("x", "", "wide", "tab"):
        ck.raises("data shape {!r} is rejected".format(t), lambda: totri(ck, [data], data_shape=t), "NameError")
    for t in ("x", "", "wide", "ucm"):
        ck.raises("data format {!r} is rejected".format(t), lambda: totri(ck, [tri], data_shape="triangle", data_format=t), "NameError")


# ==================================================================== round trips
@contract("CumTriangle.to_incr", "C04", tag=" [and back]", positive="first")
def c_round_ci(w, ck):
    inc = ck.call("CumTriangle.to_incr", [w.tri])
    res = ck.call("IncrTriangle.to_cum", [inc])
    if is_triangle(ck, res, "CumTriangle", ("origin", "dev", "value")):
        ck.frame("cumulative triangle", res, w.rows, w.cols, running(w))
        telescopes(w, ck)


@contract("IncrTriangle.to_cum", "C04", tag=" [and back]", positive="first")
def c_round_ic(w, ck):
    cum = ck.call("IncrTriangle.to_cum", [w.triangle("IncrTriangle")])
    res = ck.call("CumTriangle.to_incr", [cum])

    def cell(r, c):
        i, j = one(r), one(c)
        peel_hi("sum", 0, sz(zi(j) + 1), lambda k: w.C(i, k))
        return w.cell(i, j)
    if is_triangle(ck, res, "IncrTriangle", ("origin", "dev", "value")):
        ck.frame("incremental triangle", res, w.rows, w.cols, cell)


def _tab(typ, cls, fmt):
    @contract("_BaseTriangle.to_tbl", "C04", tag=" [and back, {}]".format(typ), positive="first")
    def c(w, ck):
        t = w.triangle(cls)
        tbl = ck.call("_BaseTriangle.to_tbl", [t])
        res = totri(ck, [tbl], tri_type=typ, data_format=fmt, data_shape="tabular")
        if is_triangle(ck, res, cls, ("origin", "dev", "value")):
            ck.frame("rebuilt triangle", res, w.rows, w.cols, running(w) if typ == "cum" else lambda r, c: w.cell(one(r), one(c)))
            if typ == "cum":
                telescopes(w, ck)


_tab("incr", "IncrTriangle", "incr")
_tab("cum", "CumTriangle", "cum")


# ==================================================================== interior gaps
@contract("totri", "C02 C21 C22", tag=" [interior gaps are carried forward]", positive="first")
def c_gaps(w, ck):
    """One record per present cell; the first and the latest cell of every origin are present, any other may be missing."""
    n = w.n
    Pr = z3.Function("present", INT, INT, z3.BoolSort())
    present = lambda i, j: b_and(w.obs(i, j), b_or(simp(zi(j) == 0), simp(zi(j) == zi(w.last(i))), Pr(zi(i), zi(j))))
    b = Block((n, w.m), None, present)
    b.onto = frozenset([0, 1])          # by the precondition every origin and every development period occurs
    names = ("origin", "dev", "value")
    data = DF(Dom([b]), Dom([const_block(c) for c in names]),
              lambda r, c: Lab(w.OX, r[1][0]) if c[0] == 0 else Lab(w.DX, r[1][1]) if c[0] == 1 else w.C(*r[1]))
    st = data.state()
    # a first-period record that is not positive counts as 1
    x = lambda i, k: ite(b_and(simp(zi(k) == 0), simp(w.C(i, k).v <= 0)), lambda: V(False, rv(1)), lambda: w.C(i, k))
    S = lambda i, j: V(False, aggregate("sum", 0, sz(zi(j) + 1), lambda k: (present(i, k), x(i, k))))

    def inv(rf):
        if rf.arity == 2 and isinstance(getattr(rf, "obj", None), DF):
            def spec(*a):
                (r, c) = rf.unflat(a)
                return S(one(r), one(c))
            return spec
        return None
    ck.inv.append(inv)
    res = totri(ck, [data], tri_type="cum", data_format="incr", data_shape="tabular")
    if is_triangle(ck, res, "CumTriangle", names):
        ck.frame("triangle", res, w.rows, w.cols, lambda r, c: ite(w.obs(one(r), one(c)), lambda: S(one(r), one(c)), lambda: NAN))
    ck.unchanged("the caller's records are not written to", data, st)


# ==================================================================== the same conversions for any run-off shape
for _q, _p, _t, _f in [r for r in [(q, p, t, f) for q, p, wk, f, t in REG if f.__module__ == __name__]
                       if "C04" in r[1] or "C03" in r[1] and "representation" in r[2]]:
    contract(_q, " ".join(_p), tag=_t.rstrip("]") + (", " if _t else " [") + "any run-off shape]", runoff=True, positive="first")(_f)
