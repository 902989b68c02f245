"""Contracts on trikit/estimators/mack.py."""
import z3
import core
import model
import pdops as P
from contracts import *          # noqa: F401,F403
from contracts import contract, summary, one, sumr, prodr, mul, add, sub, div, with_weights, a2a_rows, a2a_cols, has_ratio, ratio, square_spec, \
    cldf_spec, is_devs, ldfs_of, peel_hi, text_of, rows_total
from core import V, NAN, Lab, cx, simp, b_and, b_or, b_not, zi, zb, num, hyp, ite, rv, aggregate, entails
from model import Dom, Series, DF, axis_block, const_block, range_block, freshint, sz


def mack(w, **kw):
    return w.inst("MackChainLadder", _mod_tri=None, _mod_a2aind=None, **kw)


def mod_cell(w):
    return lambda r, c: V(b_not(has_ratio(w, one(r), one(c))), w.C(one(r), one(c)).v)


@contract("MackChainLadder.mod_tri", "C11 C12", positive=False)
def c_mod_tri(w, ck):
    st = w.tri.state()
    res = ck.call("MackChainLadder.mod_tri", [mack(w)])
    ck.frame("triangle without its latest diagonal", res, a2a_rows(w), a2a_cols(w), mod_cell(w))
    ck.unchanged("the triangle is not written to", w.tri, st)


@summary("MackChainLadder.mod_tri", positive=False)
def s_mod_tri(ip, w, args, kw):
    if not w.is_tri(args[0].attrs["tri"]):
        return NotImplemented
    return DF(a2a_rows(w), a2a_cols(w), mod_cell(w))


def wgt(w, i, j):
    return V(False, w.W(zi(i), zi(j)))


@contract("MackChainLadder.mod_a2aind", "C11", positive=False)
def c_mod_a2aind(w, ck):
    with_weights(w)
    st = w.ind.state()
    res = ck.call("MackChainLadder.mod_a2aind", [mack(w)])
    ck.frame("inclusion indicator, excluded ratios missing", res, a2a_rows(w), a2a_cols(w),
             lambda r, c: ite(simp(w.W(zi(one(r)), zi(one(c))) == 0), lambda: NAN, lambda: wgt(w, one(r), one(c))))
    ck.unchanged("the indicator is not written to", w.ind, st)


@summary("MackChainLadder.mod_a2aind", positive=False)
def s_mod_a2aind(ip, w, args, kw):
    if not w.is_tri(args[0].attrs["tri"]) or not hasattr(w, "W"):
        return NotImplemented
    return DF(a2a_rows(w), a2a_cols(w),
              lambda r, c: ite(simp(w.W(zi(one(r)), zi(one(c))) == 0), lambda: NAN, lambda: wgt(w, one(r), one(c))))


def incl(w, i, j):
    return b_and(w.W(zi(i), zi(j)) != 0)


def colsum(w, j, f):
    """Sum over the included link ratios of development period j."""
    return V(False, aggregate("sum", 0, sz(w.n - 1 - zi(j)), lambda i: (incl(w, i, j), f(i))))


def power(x, a):
    return V(False, rv(1)) if a == 0 else x if a == 1 else mul(x, x)


def mack_ldf(w, a, j):
    return div(colsum(w, j, lambda i: mul(ratio(w, i, j), power(w.C(i, j), a))), colsum(w, j, lambda i: power(w.C(i, j), a)))


def mack_ldfs_contract(a):
    @contract("MackChainLadder._ldfs", "C11 C12", tag=" [alpha={}]".format(a), nmin=2)
    def c(w, ck):
        with_weights(w)
        cx.divmode = "ieee"
        tail = V(False, z3.Real("tail"))
        st, sti = w.tri.state(), w.ind.state()
        res = ck.call("MackChainLadder._ldfs", [mack(w)], dict(alpha=a, tail=tail))
        ck.series("factors", res, w.cols, lambda pt: ite(simp(zi(one(pt)) == w.n - 1), lambda: tail, lambda: mack_ldf(w, a, one(pt))))
        ck.unchanged("the amounts are not written to", w.tri, st)
        ck.unchanged("the indicator is not written to", w.ind, sti)


for _a in (0, 1, 2):
    mack_ldfs_contract(_a)


def devpvar_spec(w, a, f):
    def s(j):
        return div(colsum(w, j, lambda i: mul(power(w.C(i, j), a), power(sub(ratio(w, i, j), f(j)), 2))), num(sz(w.n - 2 - zi(j))))
    return s


def vmin(a, b):
    return ite(simp(zb(core.s_cmp("<", a, b))), lambda: a, lambda: b)


def devpvar_full(w, a, f):
    s = devpvar_spec(w, a, f)
    n = w.n

    def full(j):
        return ite(simp(zi(j) == n - 2), lambda: (lambda x, y: vmin(div(mul(x, x), y), vmin(x, y)))(s(sz(n - 3)), s(sz(n - 4))), lambda: s(j))
    return full


def devpvar_contract(a):
    @contract("MackChainLadder._devp_variance", "C11 C12", tag=" [alpha={}]".format(a), nmin=4)
    def c(w, ck):
        with_weights(w)
        cx.divmode = "ieee"
        f = w.vec("F")
        st, sti = w.tri.state(), w.ind.state()
        l = w.dev_series(f)
        stl = l.state()
        sp = devpvar_spec(w, a, f)
        cx.hyps += [c for j in (w.n - 3, w.n - 4) for x in [sp(sz(j))] for c in [zb(b_not(x.nan)), x.v > 0]]      # precondition: positive estimates
        res = ck.call("MackChainLadder._devp_variance", [mack(w), l], dict(alpha=a))
        s = devpvar_full(w, a, f)
        ck.series("variance estimates", res, a2a_cols(w), lambda pt: s(one(pt)), "devpvar")
        ck.unchanged("the amounts are not written to", w.tri, st)
        ck.unchanged("the indicator is not written to", w.ind, sti)
        ck.unchanged("the factors are not written to", l, stl)


for _a in (0, 1, 2):
    devpvar_contract(_a)


def ldfvar_contract(a):
    @contract("MackChainLadder._ldf_variance", "C11 C12", tag=" [alpha={}]".format(a), nmin=2, positive=False)
    def c(w, ck):
        with_weights(w)
        cx.divmode = "ieee"
        s = w.vec("S")
        d = w.dev_series(s, "devpvar", sz(w.n - 1))
        st, std = w.tri.state(), d.state()
        res = ck.call("MackChainLadder._ldf_variance", [mack(w), d], dict(alpha=a))
        ck.series("variance of the factors", res, a2a_cols(w), lambda pt: div(s(one(pt)), colsum(w, one(pt), lambda i: power(w.C(i, one(pt)), a))), "ldfvar")
        ck.unchanged("the amounts are not written to", w.tri, st)
        ck.unchanged("the variance estimates are not written to", d, std)


for _a in (0, 1, 2):
    ldfvar_contract(_a)


def org_tail(w, k0):
    return Dom([axis_block(w.OX)])


@contract("MackChainLadder._mean_squared_error", "C12", nmin=4, positive=False)
def c_mse(w, ck):
    p, q = w.vec("P"), w.vec("Q")
    a, b = w.org_series(p, "process_error"), w.org_series(q, "parameter_error")
    res = ck.call("MackChainLadder._mean_squared_error", [mack(w), a, b])
    ck.series("mean squared error is process plus parameter error", res, w.rows, lambda pt: add(p(one(pt)), q(one(pt))), "mse")


# ==================================================================== prediction error
def err_rec(w, name, first, step):
    """Error of origin i accumulated up to development period j (recursively over j, first forecast period n - i)."""
    def body(i, j):
        return ite(simp(j == w.n - i), lambda: first(i), lambda: step(i, j, rf(i, sz(j - 1))))
    rf = core.RecFn(name, 2, body, lambda i, j: j, lambda i, j: [i >= 1, i < w.n, j >= w.n - i, j < w.n])
    cx.recfacts[name] = lambda i, j: rf.unfold([i, j])[0]
    return rf


def err_cell(w, rf):
    def cell(i, j):
        return ite(simp(b_and(zi(i) >= 1, zi(j) >= w.n - zi(i))), lambda: rf(i, j), lambda: NAN)
    return cell


def proc_spec(w, f, s2):
    sq = square_spec(w, f)
    return err_rec(w, "procerr", lambda i: mul(w.latest(i), s2(sz(w.n - 1 - zi(i)))),
                   lambda i, j, prev: add(mul(power(f(sz(j - 1)), 2), prev), mul(sq(i, sz(j - 1)), s2(sz(j - 1)))))


def param_spec(w, f, v):
    sq = square_spec(w, f)
    return err_rec(w, "paramerr", lambda i: mul(power(w.latest(i), 2), v(sz(w.n - 1 - zi(i)))),
                   lambda i, j, prev: add(mul(power(f(sz(j - 1)), 2), prev), mul(power(sq(i, sz(j - 1)), 2), v(sz(j - 1))), mul(v(sz(j - 1)), prev)))


def err_contract(meth, spec, vec, sname, what):
    @contract("MackChainLadder." + meth, "C12", nmin=4, positive=False)
    def c(w, ck):
        f, s2 = w.vec("F"), w.vec(vec)
        rf = spec(w, f, s2)
        cell = err_cell(w, rf)

        def inv(lf):
            if lf.arity == 2 and isinstance(getattr(lf, "obj", None), DF):
                def sp(*a):
                    r, c = lf.unflat(a)
                    return cell(one(r), one(c))
                return sp
            return None
        ck.inv.append(inv)
        st = w.tri.state()
        l, d = w.dev_series(f, "ldf"), w.dev_series(s2, sname, sz(w.n - 1))
        stl, std = l.state(), d.state()
        res = ck.call("MackChainLadder." + meth, [mack(w), l, d])
        ck.frame(what, res, w.rows, w.cols, lambda r, c: cell(one(r), one(c)))
        ck.unchanged("the triangle is not written to", w.tri, st)
        ck.unchanged("the factors are not written to", l, stl)
        ck.unchanged("the variances are not written to", d, std)


err_contract("_process_error", proc_spec, "S", "devpvar", "process error")
err_contract("_parameter_error", param_spec, "S", "ldfvar", "parameter error")


@summary("MackChainLadder._ldfs", positive=True)
def s_mldfs(ip, w, args, kw):
    w.asked = dict(kw)
    tail = num(kw.get("tail", 1.0))
    f = w.vec("F", positive=True)
    w.F = lambda j: ite(simp(zi(j) == w.n - 1), lambda: tail, lambda: f(j))
    return w.dev_series(w.F)


def is_part(w, s):
    """A series over the development periods but the last."""
    return isinstance(s, Series) and model.same_labels(s.dom, Dom([axis_block(w.DX, 0, sz(w.n - 1))])) is True


@summary("MackChainLadder._devp_variance", positive=True)
def s_devpvar(ip, w, args, kw):
    l = kw.get("ldfs", args[1] if len(args) > 1 else None)
    if not is_devs(w, l):
        return NotImplemented
    w.asked_devpvar = (l, kw.get("alpha", args[2] if len(args) > 2 else 1))
    return w.dev_series(w.vec("S", positive=True), "devpvar", sz(w.n - 1))


@summary("MackChainLadder._ldf_variance", positive=True)
def s_ldfvar(ip, w, args, kw):
    d = kw.get("devpvar", args[1] if len(args) > 1 else None)
    if not is_part(w, d):
        return NotImplemented
    w.asked_ldfvar = (d, kw.get("alpha", args[2] if len(args) > 2 else 1))
    return w.dev_series(w.vec("VV", positive=True), "ldfvar", sz(w.n - 1))


def err_summary(meth, spec, pos, key):
    @summary("MackChainLadder." + meth, positive=False)
    def s(ip, w, args, kw):
        l = kw.get("ldfs", args[1] if len(args) > 1 else None)
        d = kw.get(key, args[2] if len(args) > 2 else None)
        if not (is_devs(w, l) and is_part(w, d)):
            return NotImplemented
        rf = spec(w, ldfs_of(l), ldfs_of(d))
        setattr(w, "rf" + meth, rf)
        cell = err_cell(w, rf)
        return DF(w.rows, w.cols, lambda r, c: cell(one(r), one(c)))


err_summary("_process_error", proc_spec, 1, "devpvar")
err_summary("_parameter_error", param_spec, 1, "ldfvar")


@summary("MackChainLadder._mean_squared_error", positive=False)
def s_mse(ip, w, args, kw):
    p = kw.get("process_error", args[1] if len(args) > 1 else None)
    q = kw.get("parameter_error", args[2] if len(args) > 2 else None)
    for x in (p, q):
        if not (isinstance(x, Series) and model.same_labels(x.dom, w.rows) is True):
            return NotImplemented
    return w.org_series(lambda i: add(num(p.fn((0, (i,)))), num(q.fn((0, (i,))))), "mse")


QHDR = ["q1%", "q2%"]


@summary("BaseRangeEstimator._qtls_formatter")
def s_qf(ip, w, args, kw):
    if not hasattr(w, "qlev"):
        return NotImplemented
    w.asked_q = (kw.get("q", args[1] if len(args) > 1 else None), kw.get("two_sided", args[2] if len(args) > 2 else False))
    return (I.SList([("i", q) for q in w.qlev]), I.SList([("i", h) for h in QHDR]))


def mack_spec(w):
    """Everything the Mack summary states, from the factors F and the variances S and VV."""
    n, F = w.n, w.F
    S, VV = w.vec("S"), w.vec("VV")
    P, Q = w.rf_process_error, w.rf_parameter_error
    l1 = sz(n - 1)
    zero = V(False, rv(0))
    g = cldf_spec(w, F)
    age = lambda i: sz(n - 1 - zi(i))
    sp = dict(maturity=lambda i: text_of(Lab(w.DX, age(i))), cldf=lambda i: g(age(i)), emergence=lambda i: div(V(False, rv(1)), g(age(i))),
              latest=w.latest)
    sp["ultimate"] = lambda i: mul(w.latest(i), g(age(i)))
    sp["reserve"] = lambda i: sub(sp["ultimate"](i), w.latest(i))
    w.proc = lambda i: ite(simp(zi(i) == 0), lambda: zero, lambda: P(i, l1))
    w.param = lambda i: ite(simp(zi(i) == 0), lambda: zero, lambda: Q(i, l1))
    w.mse = lambda i: add(w.proc(i), w.param(i))
    sp["std_error"] = lambda i: core.s_un("sqrt", w.mse(i))
    sp["cv"] = lambda i: div(sp["std_error"](i), sp["reserve"](i))
    later = lambda i: sumr(sz(zi(i) + 1), n, sp["ultimate"])
    quot = lambda j: div(S(j), power(F(j), 2))
    rh = lambda i: sumr(sz(n - 1 - zi(i)), l1, lambda j: div(quot(j), sumr(0, sz(n - 1 - zi(j)), lambda m: w.C(m, j))))
    w.msetot = lambda i: add(w.mse(i), mul(V(False, rv(2)), sp["ultimate"](i), later(i), rh(i)))
    tot = {k: sumr(0, n, sp[k]) for k in ("latest", "ultimate", "reserve")}
    tot.update(maturity="", cldf=NAN, emergence=NAN)
    tot["std_error"] = core.s_un("sqrt", sumr(1, n, w.msetot))
    tot["cv"] = div(tot["std_error"], tot["reserve"])
    return sp, tot


def moments(w, ck, dist, params):
    """Mean and standard deviation of the distribution with the stated parameters, for a reserve above 1."""
    if dist == "norm":
        return          # location and scale are the mean and the standard deviation
    r, e = z3.Real("r!any"), z3.Real("e!any")
    with hyp(r > 1, e >= 0):
        p = params(dict(reserve=V(False, r), std_error=V(False, e)))
        ex, lg = core.uf("exp", 1), core.uf("log", 1)
        s2 = mul(p["s"], p["s"]).v
        c = 1 + (e / r) * (e / r)
        lr = lg(r)
        facts = [ex(lr) == r, ex(lg(c)) == c, lr >= 0, lg(c) >= 0, ex(lr - lg(c) / 2) * ex(lg(c) / 2) == ex(lr)]
        core.trust("exp and log: log inverts exp, log(x) >= 0 for x >= 1, exp(a - b) exp(b) = exp(a) (instances in the moment lemma)")
        ck.goal("lognormal shape squared is log(1 + cv^2)", s2 == lg(c), hyps=facts)
        ck.goal("lognormal scale is exp(log r - s^2 / 2)", p["scale"].v == ex(lr - lg(c) / 2), hyps=facts + [s2 == lg(c)])
        scale, half = z3.Real("scale!any"), z3.Real("half!any")
        fx = [scale == ex(lr - lg(c) / 2), half == ex(lg(c) / 2)] + facts
        ck.goal("lognormal mean scale * exp(s^2 / 2) is the reserve", scale * half == r, hyps=fx)
        ck.goal("lognormal variance mean^2 (exp(s^2) - 1) is the squared error", r * r * (ex(lg(c)) - 1) == e * e, hyps=fx)


@contract("MackChainLadder.__call__", "C13", tag=" [unknown distribution]", nmin=4, positive=True)
def c_mack_bad(w, ck):
    cx.divmode = "ieee"
    with_weights(w)
    w.qlev = [V(False, z3.Real("p1")), V(False, z3.Real("p2"))]
    ck.raises("an unknown distribution raises ValueError", lambda: ck.call("MackChainLadder.__call__", [mack(w)], dict(dist="gamma")), "ValueError")


def mack_call(dist):
    @contract("MackChainLadder.__call__", "C12 C13 C09 C10", tag=" [{}]".format(dist), nmin=4, positive=True)
    def c(w, ck):
        cx.divmode = "ieee"
        with_weights(w)
        w.qlev = [V(False, z3.Real("p1")), V(False, z3.Real("p2"))]
        cx.hyps += [w.qlev[0].v < w.qlev[1].v, w.qlev[0].v >= 0, w.qlev[1].v <= 1]
        st = w.tri.state()
        res = ck.call("MackChainLadder.__call__", [mack(w)], dict(dist=dist, q=I.SList([("i", q) for q in w.qlev])))
        sp, tot = mack_spec(w)
        names = ["maturity", "cldf", "emergence", "latest", "ultimate", "reserve", "std_error", "cv"] + QHDR
        ok = isinstance(res, I.Inst) and res.cls.name == "MackChainLadderResult"
        ck.ob("result is a MackChainLadderResult").add("proved" if ok else "undecided", "got {!r}".format(res))
        if not ok:
            return
        ok_ = lambda v, *a: b_and(b_not(v.nan), v.v > 0)
        ck.rec_lemma("process error is positive", w.rf_process_error, ok_)
        ck.rec_lemma("parameter error is positive", w.rf_parameter_error, ok_)
        ck.series("process error", res.attrs["process_error"], w.rows, lambda pt: w.proc(one(pt)), "process_error")
        ck.series("parameter error", res.attrs["parameter_error"], w.rows, lambda pt: w.param(one(pt)), "parameter_error")

        def params(x):
            r, s = x["reserve"], x["std_error"]
            if dist == "norm":
                return dict(loc=r, scale=s)
            ratio2 = power(div(s, r), 2)
            sd = core.s_un("sqrt", P.logv(add(V(False, rv(1)), ratio2)))
            sd = ite(sd.nan, lambda: V(False, rv(0)), lambda: sd)
            lg = P.logv(r)
            return dict(s=sd, loc=0, scale=core.s_un("exp", sub(P.minmax2(lg, V(False, rv(0)), True), div(mul(sd, sd), V(False, rv(2))))))

        def quant(x, k):
            return I.dist_fn(I.SObj(dist, **params(x)), "ppf", w.qlev[k])

        def cell(r, c):
            nm = names[c[0]]
            x = tot if r[0] == 1 else {k: v(one(r)) for k, v in sp.items()}
            if nm in QHDR:
                v = lambda: quant(x, QHDR.index(nm))
            else:
                v = lambda: x[nm]
            if r[0] == 0 and nm in QHDR + ["cv"]:
                return ite(simp(zi(one(r)) == 0), lambda: NAN, v)
            return v()
        ck.frame("summary", res.attrs["summary"], rows_total(w), Dom([const_block(x) for x in names]), cell,
                 tag=lambda r: " total" if r[0] == 1 else " by origin")
        spec_of = lambda r: params(tot if r[0] == 1 else {k: v(one(r)) for k, v in sp.items()})
        rvs = res.attrs["rvs"]
        if isinstance(rvs, Series) and ck.eqdom("distributions", rvs.dom, rows_total(w)):
            for pt, _ in rows_total(w).pts():
                with hyp(rows_total(w).present(pt)):
                    d, want = rvs.fn(pt), spec_of(pt)
                    okd = isinstance(d, P.SObj) and d.kind == dist and set(d.kw) == set(want)
                    ck.ob("distributions are {}".format(dist)).add("proved" if okd else "undecided", "got {!r}".format(d), backend="rewriting")
                    with hyp((tot["reserve"] if pt[0] == 1 else sp["reserve"](one(pt))).v > 1):
                        for k in want if okd else ():
                            ck.value("distribution parameter {} of a reserve above 1".format(k), d.kw[k], want[k])
        else:
            ck.ob("distributions").add("undecided", "no series of distributions")
        ck.series("attribute ldfs", res.attrs["ldfs"], w.cols, lambda pt: w.F(one(pt)))
        ck.value("attribute tail", res.attrs["tail"], num(rv(1)))
        moments(w, ck, dist, params)
        ck.unchanged("the triangle is not written to", w.tri, st)


mack_call("norm")
mack_call("lognorm")
