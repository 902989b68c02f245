"""Contracts on trikit/estimators/bootstrap.py."""
import z3
import core
import model
import interp as I
import pdops as P
from contracts_mack import QHDR
from contracts import contract, summary, one, sumr, prodr, mul, add, sub, div, peel_hi, is_devs, ldfs_of
from core import V, NAN, Lab, SStr, cx, simp, b_and, b_or, b_not, zi, zb, num, hyp, ite, rv, aggregate
from model import Block, Dom, Series, DF, Arr, Index, SList, axis_block, const_block, freshint, sz


SUFFIX = {str(x): {1: "st", 2: "nd", 3: "rd"}.get(x, "th") for x in range(10)}


def boot(w, **kw):
    return w.inst("BootstrapChainLadder", **dict(dict(_dfrlvi=None, _dof=None), **kw))


# ------------------------------------------------------------------ fitted triangle
def fit_cum(w, f):
    """Latest actual divided by the factors between its age and j."""
    def s(i, j):
        l = sz(w.n - 1 - zi(i))
        return ite(w.obs(i, j), lambda: div(w.latest(i), prodr(j, l, f)), lambda: NAN)
    return s


@contract("BootstrapChainLadder._tri_fit_cum", "C14 C21", nmin=2, positive=False)
def c_fit_cum(w, ck):
    f = w.vec("F", positive=True)
    fc = fit_cum(w, f)

    def inv(rf):
        if rf.arity == 2 and isinstance(getattr(rf, "obj", None), DF):
            def spec(*a):
                (r, c) = rf.unflat(a)
                peel_lo("prod", one(c), w.n - 1 - one(r), f)
                return fc(one(r), one(c))
            return spec
        return None
    ck.inv.append(inv)
    st = w.tri.state()
    res = ck.call("BootstrapChainLadder._tri_fit_cum", [boot(w)], dict(ldfs=w.dev_series(f, "ldf")))
    ck.frame("fitted cumulative triangle", res, w.rows, w.cols, lambda r, c: fc(one(r), one(c)))
    i = freshint("i")
    with hyp(i >= 0, i < w.n):
        ck.value("the latest diagonal is the actual one", fc(i, sz(w.n - 1 - i)), w.latest(i))
    ck.unchanged("the triangle is not written to", w.tri, st)


def peel_lo(kind, lo, hi, f):
    """Definition of a product / sum at its first element: a lemma instance."""
    lo = zi(lo)
    a = aggregate(kind, lo, hi, lambda w: (True, f(w)))
    b = aggregate(kind, sz(lo + 1), hi, lambda w: (True, f(w)))
    x = f(sz(lo)).v
    core.add_axiom_local(z3.Implies(lo < zi(hi), a == (b * x if kind == "prod" else b + x)))
    core.add_axiom_local(z3.Implies(lo >= zi(hi), a == z3.RealVal(1 if kind == "prod" else 0)))
    return a


def tri_frame(w, f):
    return DF(w.rows, w.cols, lambda r, c: f(one(r), one(c)))


def given(w, name, like=None):
    """A triangle of numbers, missing outside the observed cells."""
    g = z3.Function(name, z3.IntSort(), z3.IntSort(), z3.RealSort())
    return lambda i, j: V(b_not(w.obs(i, j)), g(zi(i), zi(j)))


@contract("BootstrapChainLadder._tri_fit_incr", "C14", positive=False)
def c_fit_incr(w, ck):
    fc = given(w, "fitcum")
    df = tri_frame(w, fc)
    st = df.state()
    res = ck.call("BootstrapChainLadder._tri_fit_incr", [], dict(fitted_tri_cum=df))
    ck.frame("fitted increments", res, w.rows, w.cols, lambda r, c: fit_incr(w, fc)(one(r), one(c)))
    ck.unchanged("the fitted cumulative triangle is not written to", df, st)


def fit_incr(w, fc):
    return lambda i, j: ite(simp(zi(j) == 0), lambda: fc(i, j), lambda: sub(fc(i, j), fc(i, sz(zi(j) - 1))))


def incr(w):
    return lambda i, j: ite(w.obs(i, j), lambda: ite(simp(zi(j) == 0), lambda: w.C(i, j), lambda: sub(w.C(i, j), w.C(i, sz(zi(j) - 1)))), lambda: NAN)


def resid(w, m):
    return lambda i, j: ite(w.obs(i, j), lambda: div(sub(incr(w)(i, j), m(i, j)), core.s_un("sqrt", core.s_un("abs", m(i, j)))), lambda: NAN)


@contract("BootstrapChainLadder._resid_us", "C14", positive=True)
def c_resid_us(w, ck):
    cx.divmode = "ieee"
    m = given(w, "m")
    df = tri_frame(w, m)
    st, st2 = df.state(), w.tri.state()
    res = ck.call("BootstrapChainLadder._resid_us", [boot(w)], dict(fitted_tri_incr=df))
    ck.frame("unscaled residuals", res, w.rows, w.cols, lambda r, c: resid(w, m)(one(r), one(c)))
    ck.unchanged("the fitted triangle is not written to", df, st)
    ck.unchanged("the triangle is not written to", w.tri, st2)


def dof_value(w):
    n = w.n
    cells = aggregate("sum", 0, n, lambda i: (True, sz(n - zi(i))))
    return V(False, cells - z3.ToReal(n - 1) + z3.ToReal(n))


def cells_total(w):
    return sumr(0, w.n, lambda i: V(False, z3.ToReal(w.n - zi(i))))


@summary("_BaseTriangle.nbr_cells", positive=False)
def s_nbr(ip, w, args, kw):
    if not w.is_tri(args[0]):
        return NotImplemented
    return cells_total(w)


@contract("BootstrapChainLadder.dof", "C23", tag=" [the recorded finding and nothing else]", positive=False)
def c_dof(w, ck):
    """The documented degrees of freedom are cells - (origins + devs - 1); the code adds the origins instead of subtracting
    them (recorded finding, pinned by the repository's tests).  This contract fixes the value to exactly that."""
    o = boot(w)
    res = ck.call("BootstrapChainLadder.dof", [o])
    n = w.n
    ck.value("degrees of freedom", num(res), V(False, cells_total(w).v - (z3.ToReal(n) - 1) + z3.ToReal(n)))
    again = ck.call("BootstrapChainLadder.dof", [o])
    ck.value("the second access returns the same value", num(again), num(res))


@contract("BootstrapChainLadder._resid_adj", "C14", positive=False)
def c_resid_adj(w, ck):
    D = V(False, z3.Real("D"))
    cx.hyps.append(D.v > 0)
    r = given(w, "r")
    df = tri_frame(w, r)
    st = df.state()
    res = ck.call("BootstrapChainLadder._resid_adj", [boot(w, _dof=D)], dict(resid_us=df))
    fac = core.s_un("sqrt", div(cells_total(w), D))
    ck.frame("adjusted residuals", res, w.rows, w.cols, lambda a, c: mul(V(False, fac.v), r(one(a), one(c))))
    ck.unchanged("the unscaled residuals are not written to", df, st)


@contract("BootstrapChainLadder._scale_param", "C14", positive=False)
def c_scale(w, ck):
    D = V(False, z3.Real("D"))
    cx.hyps.append(D.v > 0)
    r = given(w, "r")
    df = tri_frame(w, r)
    st = df.state()
    res = ck.call("BootstrapChainLadder._scale_param", [boot(w, _dof=D)], dict(resid_us=df))
    ss = sumr(0, w.n, lambda j: sumr(0, sz(w.n - zi(j)), lambda i: mul(r(i, j), r(i, j))))
    ck.value("sum of squared residuals over the degrees of freedom", res, div(ss, D))
    ck.unchanged("the unscaled residuals are not written to", df, st)


@contract("BootstrapChainLadder._sampling_dist", "C14", nmin=3, positive=False)
def c_sampling(w, ck):
    r = given(w, "r")
    df = tri_frame(w, r)
    st = df.state()
    res = ck.call("BootstrapChainLadder._sampling_dist", [], dict(resid_adj=df))
    n = w.n
    ck.listing("sampling distribution", res, (n - 1, n - 1), lambda i, j: b_and(w.obs(i, j), simp(r(i, j).v != 0)), r)
    ck.unchanged("the adjusted residuals are not written to", df, st)


# ------------------------------------------------------------------ simulation tables
class Sims:
    """S simulations of the full square: one row per (sim, origin, dev) sorted in that order, with a fresh row numbering."""
    def __init__(self, w, cols):
        self.w, self.S = w, z3.Int("S")
        cx.hyps.append(self.S >= 1)
        self.rows = Dom([Block((self.S, w.n, w.n))])
        self.names = [c for c, _ in cols]
        self.f = dict(cols)
        self.df = DF(self.rows, Dom([const_block(c) for c in self.names]), lambda r, c: self.f[self.names[c[0]]](*r[1]))


def keys(w):
    return [("sim", lambda s, i, j: s), ("origin", lambda s, i, j: Lab(w.OX, i)), ("dev", lambda s, i, j: Lab(w.DX, j))]


def num3(name, nan=None):
    g = z3.Function(name, *([z3.IntSort()] * 3 + [z3.RealSort()]))
    return lambda s, i, j: V(False if nan is None else nan(s, i, j), g(zi(s), zi(i), zi(j)))


@contract("BootstrapChainLadder._bs_reserves", "C16 C17", positive=False)
def c_bs_reserves(w, ck):
    ult = num3("ult")
    lat = num3("lat", lambda s, i, j: simp(zi(i) == 0))
    sm = Sims(w, keys(w) + [("ultimate", ult), ("latest", lat), ("samp_cum", num3("sc")), ("rectype", lambda s, i, j: SStr("r", ()))])
    res = ck.call("BootstrapChainLadder._bs_reserves", [], dict(dfprocerror=sm.df))
    ck.listed("reserves", res, [("sim", None), ("origin", w.OX)], (sm.S, w.n), lambda s, i: True, reserves_spec(w, ult, lat), ["origin", "sim"])


def reserves_spec(w, ult, lat):
    """The value at the last development period: reserve = ultimate - latest, zero for the fully developed oldest origin."""
    l1 = w.n - 1
    u = lambda s, i: ult(s, i, l1)
    l = lambda s, i: ite(simp(zi(i) == 0), lambda: u(s, i), lambda: lat(s, i, l1))
    return [("ultimate", u), ("latest", l), ("reserve", lambda s, i: sub(u(s, i), l(s, i)))]


def num2(name):
    g = z3.Function(name, z3.IntSort(), z3.IntSort(), z3.RealSort())
    return lambda s, i: V(False, g(zi(s), zi(i)))


class Reserves:
    """One row per origin and simulation, sorted by origin then simulation."""
    def __init__(self, w, f):
        self.S = z3.Int("S")
        cx.hyps.append(self.S >= 2)
        b = Block((w.n, self.S))
        self.rows = Dom([b])
        cols = [("sim", lambda i, s: s), ("origin", lambda i, s: Lab(w.OX, i))] + [(k, lambda i, s, g=g: g(s, i)) for k, g in f]
        self.df = DF(self.rows, Dom([const_block(c) for c, _ in cols]), lambda r, c: cols[c[0]][1](*r[1]))


def std(S, f):
    """Sample standard deviation of f(0..S-1)."""
    m = div(sumr(0, S, f), num(S))
    return core.s_un("sqrt", div(sumr(0, S, lambda s: mul(sub(f(s), m), sub(f(s), m))), num(sz(zi(S) - 1))))


@contract("BootstrapChainLadder._bs_std_error", "C17", positive=False)
def c_bs_std(w, ck):
    r = num2("res")
    t = Reserves(w, [("latest", num2("lat")), ("ultimate", num2("ult")), ("reserve", r)])
    st = t.df.state()
    res = ck.call("BootstrapChainLadder._bs_std_error", [], dict(dfreserves=t.df))
    tot = lambda s: sumr(0, w.n, lambda i: r(s, i))
    ck.series("standard errors", res, Dom([axis_block(w.OX), const_block("total")]),
              lambda pt: std(t.S, tot) if pt[0] == 1 else std(t.S, lambda s: r(s, one(pt))))
    ck.unchanged("the reserve distribution is not written to", t.df, st)


# ------------------------------------------------------------------ process error
def final_incr(w, si, sign, scale, stream):
    """Forecast increments are a gamma draw with mean |increment| and the given scale, with the sign of the increment; actual
    increments are kept."""
    def f(s, i, j):
        x = si(s, i, j)
        d = P.draw_value("gamma", stream.seed, stream.first, (s, i, j), [core.s_un("abs", div(x, scale)), scale])
        return ite(w.obs(i, j), lambda: x, lambda: mul(d, sign(s, i, j)))
    return f


def forecasts_table(w):
    """Output of _bs_forecasts: the sampled increments of every cell with their sign, completed per simulation."""
    si = num3("si")
    sign = lambda s, i, j: ite(simp(si(s, i, j).v > 0), lambda: num(1), lambda: num(-1))
    lat = num3("lat", lambda s, i, j: simp(zi(i) == 0))
    rect = lambda s, i, j: ite(w.obs(i, j), lambda: "actual", lambda: "forecast")
    sm = Sims(w, keys(w) + [("samp_incr", si), ("sign", sign), ("l_act_cum", lat), ("rectype", rect), ("samp_cum", num3("sc")), ("var", num3("var"))])
    return sm, si, sign, lat


def seeds(which):
    if which == "none":
        return None
    seed = z3.Int("seed")
    return seed if which == "int" else P.Stream(seed)


def proc_contract(which):
    @contract("BootstrapChainLadder._bs_process_error", "C16 C15", tag=" [random_state %s]" % which, positive=False)
    def c(w, ck):
        sm, si, sign, lat = forecasts_table(w)
        scale = V(False, z3.Real("phi"))
        cx.hyps.append(scale.v > 0)
        rs = seeds(which)
        kw = {} if rs is None else dict(random_state=rs)
        n0 = P.Stream.fresh[0]
        res = ck.call("BootstrapChainLadder._bs_process_error", [], dict(dict(dfforecasts=sm.df, scale_param=scale), **kw))

        class S0:
            seed = z3.Int("seed") if which != "none" else z3.Int("entropy!%d" % (n0 + 1))
            first = 0
        fi = final_incr(w, si, sign, scale, S0)
        cum = lambda s, i, j: sumr(0, sz(zi(j) + 1), lambda k: fi(s, i, k))
        ck.listed("simulated triangles", res, [("sim", None), ("origin", w.OX), ("dev", w.DX)], (sm.S, w.n, w.n), lambda s, i, j: True,
                  [("samp_incr", si), ("final_incr", fi), ("ultimate", cum), ("latest", lat)], ["sim", "origin", "dev"], only=False)
        if isinstance(rs, P.Stream):
            ck.goal("the given generator is advanced by one call", rs.calls == 1)
    return c


for _w in ("none", "int", "instance"):
    proc_contract(_w)


@contract("BootstrapChainLadder._bs_process_error", "C16", tag=" [unknown distribution]", positive=False)
def c_proc_bad(w, ck):
    sm, si, sign, lat = forecasts_table(w)
    ck.raises("an unknown distribution raises ValueError", lambda: ck.call(
        "BootstrapChainLadder._bs_process_error", [], dict(dfforecasts=sm.df, scale_param=V(False, z3.Real("phi")), procdist="normal")), "ValueError")


# ------------------------------------------------------------------ samples
def samples_contract(which, parametric):
    @contract("BootstrapChainLadder._bs_samples", "C15", tag=" [%s, random_state %s]" % ("parametric" if parametric else "resampled", which), nmin=3, positive=False)
    def c(w, ck):
        m = given(w, "m")
        mf = z3.Function("m", z3.IntSort(), z3.IntSort(), z3.RealSort())
        cx.termfacts["m"] = lambda i, j: [z3.Implies(j >= 1, mf(i, j) >= 0)]
        fti = tri_frame(w, m)
        st, st2 = fti.state(), w.tri.state()
        K, S = z3.Int("K"), z3.Int("S")
        cx.hyps += [K >= 2, S >= 1]
        dist = w.vec("pool")
        member = z3.Function("is_residual", z3.RealSort(), z3.BoolSort())
        cx.termfacts["pool"] = lambda t: [z3.Implies(z3.And(t >= 0, t < K), member(dist(t).v))]
        sd = Arr([Dom([Block((K,))])], lambda pt: dist(one(pt)))
        rs = seeds(which)
        kw = {} if rs is None else dict(random_state=rs)
        normal = z3.Function("is_normal_draw", z3.RealSort(), z3.RealSort(), z3.RealSort(), z3.BoolSort())
        res = ck.call("BootstrapChainLadder._bs_samples", [boot(w)], dict(dict(sampling_dist=sd, fitted_tri_incr=fti, sims=S, parametric=parametric), **kw))
        ky = [("sim", None), ("origin", w.OX), ("dev", w.DX)]
        inc = lambda s, i, j: ite(simp(b_and(zi(j) == 0, m(i, j).v < 0)), lambda: num(1), lambda: m(i, j))
        get = ck.reader(res, ky)
        own = lambda c: (lambda s, i, j: num(get(c, s, i, j)))
        r, si = own("resid"), own("samp_incr")

        def resid_ok(s, i, j):
            v = r(s, i, j)
            ok = normal(v.v, z3.RealVal(0), std(K, dist).v) if parametric else member(v.v)
            return b_or(b_and(b_not(w.obs(i, j)), v.nan), b_and(w.obs(i, j), b_not(v.nan), ok))
        ck.listed("samples", res, ky, (S, w.n, w.n), lambda s, i, j: True, [
            ("incr", inc), ("rectype", lambda s, i, j: ite(w.obs(i, j), lambda: "actual", lambda: "forecast")),
            ("samp_incr", lambda s, i, j: ite(w.obs(i, j), lambda: add(inc(s, i, j), mul(r(s, i, j), core.s_un("sqrt", inc(s, i, j)))), lambda: NAN)),
            ("samp_cum", lambda s, i, j: ite(w.obs(i, j), lambda: sumr(0, sz(zi(j) + 1), lambda k: V(False, si(s, i, k).v)), lambda: NAN))],
            ["sim", "origin", "dev"], only=False, goals=[("every actual cell has a centred normal residual with the pool's deviation, forecasts none" if parametric else "every actual cell has a residual of the pool, forecasts none", resid_ok)])
        ck.unchanged("the fitted triangle is not written to", fti, st)
        ck.unchanged("the triangle is not written to", w.tri, st2)
        if isinstance(rs, P.Stream):
            ck.goal("the given generator is advanced by one call", rs.calls == 1)
    return c


for _w in ("none", "int", "instance"):
    for _p in (False, True):
        samples_contract(_w, _p)


def same_seed(parametric):
    @contract("BootstrapChainLadder._bs_samples", "C17", tag=" [same seed twice, %s]" % ("parametric" if parametric else "resampled"), nmin=3, positive=False)
    def c(w, ck):
        m = given(w, "m")
        fti = tri_frame(w, m)
        K, S, seed = z3.Int("K"), z3.Int("S"), z3.Int("seed")
        cx.hyps += [K >= 2, S >= 1]
        dist = w.vec("pool")
        sd = Arr([Dom([Block((K,))])], lambda pt: dist(one(pt)))
        kw = dict(sampling_dist=sd, fitted_tri_incr=fti, sims=S, parametric=parametric, random_state=seed)
        two = [ck.call("BootstrapChainLadder._bs_samples", [boot(w)], kw) for _ in "12"]
        repeat(w, ck, two, S, ["incr", "rectype", "resid", "samp_incr", "samp_cum"])
    return c


def repeat(w, ck, two, S, cols):
    """Two results of the same call agree in every cell."""
    if not all(isinstance(x, DF) for x in two):
        raise Unsupported("not tables")
    ky = [("sim", None), ("origin", w.OX), ("dev", w.DX)]
    get = [ck.reader(x, ky) for x in two]
    s, i, j = freshint("s"), freshint("i"), freshint("j")
    with hyp(s >= 0, s < S, i >= 0, i < w.n, j >= 0, j < w.n):
        for c in cols:
            a, b = (g(c, s, i, j) for g in get)
            if isinstance(a, str) or isinstance(b, str):
                ck.goal("the same seed gives the same " + c, a == b)
            else:
                ck.value("the same seed gives the same " + c, a, b)


for _p in (False, True):
    same_seed(_p)


@contract("BootstrapChainLadder._bs_process_error", "C17", tag=" [same seed twice]", positive=False)
def c_proc_twice(w, ck):
    sm, si, sign, lat = forecasts_table(w)
    scale = V(False, z3.Real("phi"))
    cx.hyps.append(scale.v > 0)
    two = [ck.call("BootstrapChainLadder._bs_process_error", [], dict(dfforecasts=sm.df, scale_param=scale, random_state=z3.Int("seed"))) for _ in "12"]
    repeat(w, ck, two, sm.S, ["final_incr", "ultimate"])


# ------------------------------------------------------------------ factors of each simulation
def sim_ldf(w, sc):
    """Volume-weighted factor from age j to j + 1 of a simulation's own cumulatives."""
    def f(s, j):
        return div(sumr(0, sz(w.n - 1 - zi(j)), lambda i: sc(s, i, sz(zi(j) + 1))), sumr(0, sz(w.n - 1 - zi(j)), lambda i: sc(s, i, j)))
    return f


@contract("BootstrapChainLadder._bs_ldfs", "C15", nmin=3, positive=False)
def c_bs_ldfs(w, ck):
    g = z3.Function("sc", *([z3.IntSort()] * 3 + [z3.RealSort()]))
    sc = num3("sc", lambda s, i, j: b_not(w.obs(i, j)))
    sm = Sims(w, keys(w) + [("samp_cum", sc), ("samp_incr", num3("si", lambda s, i, j: b_not(w.obs(i, j)))), ("incr", num3("incr"))])
    st = sm.df.state()
    res = ck.call("BootstrapChainLadder._bs_ldfs", [boot(w)], dict(dfsamples=sm.df))
    v = lambda s, i, j: V(False, g(zi(s), zi(i), zi(j)))
    tot = lambda s, j: sumr(0, sz(w.n - 1 - zi(j)), lambda i: v(s, i, j))
    ck.listed("factors", res, [("sim", None), ("dev", w.DX)], (sm.S, w.n), lambda s, j: b_and(simp(zi(j) <= w.n - 2), simp(tot(s, j).v != 0)),
              [("ldf", sim_ldf(w, v))], ["sim", "dev"])
    ck.unchanged("the samples are not written to", sm.df, st)


class SimLdfs:
    """One row per simulation and development period with a factor."""
    def __init__(self, w, S, f):
        self.rows = Dom([Block((S, sz(w.n - 1)))])
        cols = [("sim", lambda s, j: s), ("dev", lambda s, j: Lab(w.DX, j)), ("ldf", f)]
        self.df = DF(self.rows, Dom([const_block(c) for c, _ in cols]), lambda r, c: cols[c[0]][1](*r[1]))


def fcst_spec(w, sc, ldf, scale):
    """Observed amounts are the sampled ones; later amounts are the origin's latest sampled amount developed by the
    simulation's factors; increments are differences."""
    l = lambda i: sz(w.n - 1 - zi(i))

    def cum(s, i, j):
        return ite(w.obs(i, j), lambda: sc(s, i, j), lambda: mul(sc(s, i, l(i)), prodr(l(i), zi(j), lambda k: ldf(s, k))))

    def incr(s, i, j):
        return ite(simp(zi(j) == 0), lambda: cum(s, i, j), lambda: sub(cum(s, i, j), cum(s, i, sz(zi(j) - 1))))
    return [("samp_cum", cum), ("samp_incr", incr),
            ("l_act_cum", lambda s, i, j: ite(b_and(simp(zi(i) > 0), simp(zi(j) >= zi(l(i)))), lambda: sc(s, i, l(i)), lambda: NAN)),
            ("var", lambda s, i, j: core.s_un("abs", mul(incr(s, i, j), scale))),
            ("sign", lambda s, i, j: (lambda x: ite(simp(x.v > 0), lambda: num(1), lambda: num(-1)))(incr(s, i, j)))]


@contract("BootstrapChainLadder._bs_forecasts", "C16", nmin=3, positive=False)
def c_bs_fcst(w, ck):
    sc = num3("sc", lambda s, i, j: b_not(w.obs(i, j)))
    si = num3("si", lambda s, i, j: b_not(w.obs(i, j)))
    rect = lambda s, i, j: ite(w.obs(i, j), lambda: "actual", lambda: "forecast")
    sm = Sims(w, keys(w) + [("incr", num3("incr")), ("rectype", rect), ("incr_sqrt", num3("isq")), ("resid", num3("resid")), ("samp_incr", si), ("samp_cum", sc)])
    g = z3.Function("sldf", z3.IntSort(), z3.IntSort(), z3.RealSort())
    ld = SimLdfs(w, sm.S, lambda s, j: V(False, g(zi(s), zi(j))))
    scale = V(False, z3.Real("phi"))
    cx.hyps.append(scale.v > 0)
    st, st2 = sm.df.state(), ld.df.state()
    res = ck.call("BootstrapChainLadder._bs_forecasts", [boot(w)], dict(dfsamples=sm.df, dfldfs=ld.df, scale_param=scale))
    ck.listed("forecasts", res, [("sim", None), ("origin", w.OX), ("dev", w.DX)], (sm.S, w.n, w.n), lambda s, i, j: True,
              fcst_spec(w, lambda s, i, j: V(False, sc(s, i, j).v), lambda s, j: V(False, g(zi(s), zi(j))), scale) + [("rectype", rect)],
              ["sim", "origin", "dev"], only=False)
    ck.unchanged("the samples are not written to", sm.df, st)
    ck.unchanged("the factors are not written to", ld.df, st2)


# ------------------------------------------------------------------ the estimator
STAGES = ["_tri_fit_cum", "_tri_fit_incr", "_resid_us", "_resid_adj", "_scale_param", "_sampling_dist", "_bs_samples", "_bs_ldfs",
          "_bs_forecasts", "_bs_process_error"]


def stage(meth):
    @summary("BootstrapChainLadder." + meth)
    def s(ip, w, args, kw):
        if not hasattr(w, "stages"):
            return NotImplemented
        # what the stage returns is the business of its own contract: here only the flow of the results matters
        r = V(False, z3.Real("phi")) if meth == "_scale_param" else P.SObj(meth)
        w.stages[meth] = (list(args), dict(kw), r)
        return r


for _s in STAGES:
    stage(_s)


@summary("BootstrapChainLadder._bs_reserves")
def s_bs_reserves(ip, w, args, kw):
    if not hasattr(w, "stages"):
        return NotImplemented
    w.stages["_bs_reserves"] = (list(args), dict(kw), w.reserves.df)
    return w.reserves.df


@summary("BootstrapChainLadder._bs_std_error")
def s_bs_std(ip, w, args, kw):
    d = kw.get("dfreserves", args[-1] if args else None)
    if not hasattr(w, "stages") or d is not w.reserves.df:
        return NotImplemented
    w.stages["_bs_std_error"] = (list(args), dict(kw), None)
    return Series(Dom([axis_block(w.OX), const_block("total")]), lambda pt: w.se_total if pt[0] == 1 else w.se(one(pt)), "std_error")


def flow(w, ck, meth, **want):
    """The stage was called with exactly these results of earlier stages."""
    o = ck.ob("stage {} gets the results of the stages before it".format(meth))
    rec = w.stages.get(meth)
    if rec is None:
        o.add("undecided", "the stage was not called")
        return None
    args, kw, r = rec
    fn = w.ip.find("BootstrapChainLadder." + meth)
    names = [a.arg for a in fn.node.args.args]
    if names and names[0] == "self" and not (args and isinstance(args[0], I.Inst)):
        names = names[1:]
    if not (names and names[0] == "self") and args and isinstance(args[0], I.Inst):
        args = args[1:]
    got = dict(zip(names, args))
    got.update(kw)
    for k, v in want.items():
        g = got.get(k)
        if g is v or (g is not None and not isinstance(g, (P.SObj, DF, Series)) and isinstance(v, (int, str, bool)) and g == v):
            continue
        o.add("undecided", "argument {} is {!r}, not {!r}".format(k, g, v))
    return r


def seeded(w, ck, meth, seed):
    args, kw, _ = w.stages.get(meth, ([], {}, None))
    ck.ob("stage {} draws from the given seed".format(meth)).add("proved" if kw.get("random_state") is seed or any(a is seed for a in args) else "undecided",
                                                                 "random_state is not the given seed")


def bs_spec(w):
    """What the summary states, from the factors of the fit, the simulated reserves and their deviations."""
    n, F = w.n, w.F
    ult, res = w.sim_ult, w.sim_res
    S = w.reserves.S
    age = lambda i: sz(n - 1 - zi(i))
    from contracts import cldf_spec, text_of
    g = cldf_spec(w, F)
    sp = dict(maturity=lambda i: text_of(Lab(w.DX, age(i))), cldf=lambda i: g(age(i)), emergence=lambda i: div(V(False, rv(1)), g(age(i))), latest=w.latest)
    sp["ultimate"] = lambda i: ite(simp(zi(i) == 0), lambda: w.latest(i), lambda: div(sumr(0, S, lambda s: ult(s, i)), num(S)))
    sp["reserve"] = lambda i: sub(sp["ultimate"](i), w.latest(i))
    sp["std_error"] = w.se
    sp["cv"] = lambda i: div(w.se(i), sp["reserve"](i))
    tot = {k: sumr(0, n, sp[k]) for k in ("latest", "ultimate", "reserve")}
    tot.update(maturity="", cldf=NAN, emergence=NAN)
    tot["std_error"] = w.se_total
    tot["cv"] = div(w.se_total, tot["reserve"])

    def pct(f, q):
        t = aggregate("values", 0, S, lambda s: (True, f(s)))
        return V(False, core.uf("percentile_linear", 2)(t, mul(num(100), q).v))
    for k, h in enumerate(QHDR):
        sp[h] = lambda i, k=k: pct(lambda s: res(s, i), w.qlev[k])
        tot[h] = pct(lambda s: sumr(0, n, lambda i: res(s, i)), w.qlev[k])
    return sp, tot


@contract("BootstrapChainLadder.__call__", "C17 C16 C15 C14 C24", nmin=2, positive=True)
def c_bs_call(w, ck):
    from contracts import rows_total
    cx.divmode = "ieee"
    w.stages = {}
    w.qlev = [V(False, z3.Real("p1")), V(False, z3.Real("p2"))]
    cx.hyps += [w.qlev[0].v < w.qlev[1].v, w.qlev[0].v >= 0, w.qlev[1].v <= 1]
    w.sim_ult = num2("ult")
    lat = num2("lat")
    w.sim_res = num2("res")
    w.reserves = Reserves(w, [("latest", lat), ("ultimate", w.sim_ult), ("reserve", w.sim_res)])
    w.se, w.se_total = w.vec("se"), V(False, z3.Real("se_total"))
    f0 = w.vec("F", positive=True)
    w.F = lambda j: ite(simp(zi(j) == w.n - 1), lambda: num(1), lambda: f0(j))
    seed, sims = z3.Int("seed"), w.reserves.S
    st = w.tri.state()
    res = ck.call("BootstrapChainLadder.__call__", [boot(w, _dof=V(False, z3.Real("D")))],
                  dict(sims=sims, q=I.SList([("i", q) for q in w.qlev]), random_state=seed))
    for s in ("_bs_samples", "_bs_process_error"):
        seeded(w, ck, s, seed)
    ok = isinstance(res, I.Inst) and res.cls.name == "BootstrapChainLadderResult"
    ck.ob("result is a BootstrapChainLadderResult").add("proved" if ok else "undecided", "got {!r}".format(res))
    if not ok:
        return
    ck.value("the factors are the all-year volume-weighted ones", w.asked[0], "all-weighted")
    out = {m: w.stages[m][2] for m in w.stages}
    flow(w, ck, "_tri_fit_incr", fitted_tri_cum=out.get("_tri_fit_cum"))
    flow(w, ck, "_resid_us", fitted_tri_incr=out.get("_tri_fit_incr"))
    flow(w, ck, "_resid_adj", resid_us=out.get("_resid_us"))
    flow(w, ck, "_scale_param", resid_us=out.get("_resid_us"))
    flow(w, ck, "_sampling_dist", resid_adj=out.get("_resid_adj"))
    flow(w, ck, "_bs_samples", sampling_dist=out.get("_sampling_dist"), fitted_tri_incr=out.get("_tri_fit_incr"), sims=sims, random_state=seed)
    flow(w, ck, "_bs_ldfs", dfsamples=out.get("_bs_samples"))
    flow(w, ck, "_bs_forecasts", dfsamples=out.get("_bs_samples"), dfldfs=out.get("_bs_ldfs"), scale_param=out.get("_scale_param"))
    flow(w, ck, "_bs_process_error", dfforecasts=out.get("_bs_forecasts"), scale_param=out.get("_scale_param"), procdist="gamma", random_state=seed)
    flow(w, ck, "_bs_reserves", dfprocerror=out.get("_bs_process_error"))
    sfx = res.attrs.get("dsuffix")
    ck.ob("ordinal suffixes of the result").add("proved" if isinstance(sfx, P.PyDict) and sfx.d == SUFFIX else "undecided", "other suffixes", backend="rewriting")
    ck.ob("the requested quantiles are one-sided as asked").add("proved" if w.asked_q[1] is False else "undecided", "two_sided is {!r}".format(w.asked_q[1]), backend="rewriting")
    sp, tot = bs_spec(w)
    names = ["maturity", "cldf", "emergence", "latest", "ultimate", "reserve", "std_error", "cv"] + QHDR
    ck.frame("summary", res.attrs["summary"], rows_total(w), Dom([const_block(x) for x in names]),
             lambda r, c: tot[names[c[0]]] if r[0] == 1 else sp[names[c[0]]](one(r)), tag=lambda r: " total" if r[0] == 1 else " by origin")
    ck.unchanged("the triangle is not written to", w.tri, st)


# ------------------------------------------------------------------ quantiles on demand
@summary("BaseRangeEstimatorResult._qtls_formatter")
def s_rqf(ip, w, args, kw):
    if not hasattr(w, "qlev"):
        return NotImplemented
    w.asked_q = kw.get("q", args[1] if len(args) > 1 else None)
    return (I.SList([("i", q) for q in w.qlev]), I.SList([("i", h) for h in QHDR]))


def result(w, cls, **attrs):
    o = I.Inst(w.ip.classes[cls])
    o.attrs = dict(attrs)
    return o


def bs_dist(w):
    """The simulated reserves by origin followed by their per-simulation totals, as the estimator builds it."""
    r = num2("res")
    t = Reserves(w, [("latest", num2("lat")), ("ultimate", num2("ult")), ("reserve", r)])
    tot = lambda s: sumr(0, w.n, lambda i: r(s, i))
    S = t.S
    b0 = t.rows.blocks[0]
    names = ["sim", "origin", "latest", "ultimate", "reserve"]
    from core import Opaque
    tcol = {"sim": lambda s: s, "origin": lambda s: "total", "reserve": tot, "latest": lambda s: V(False, z3.Function("tl", z3.IntSort(), z3.RealSort())(zi(s))),
            "ultimate": lambda s: V(False, z3.Function("tu", z3.IntSort(), z3.RealSort())(zi(s)))}
    df = t.df
    rows = Dom([b0, Block((S,))])
    d = DF(rows, Dom([const_block(c) for c in names]), lambda p, c: df.cell(p, c) if p[0] == 0 else tcol[names[c[0]]](one(p)))
    return d, r, tot, S


def get_q_bs(lb):
    @contract("BootstrapChainLadderResult.get_quantiles", "C17 C24 C21", tag=" [with a lower bound]" if lb else "")
    def c(w, ck):
        from contracts import rows_total
        w.qlev = [V(False, z3.Real("p1")), V(False, z3.Real("p2"))]
        cx.hyps += [w.qlev[0].v < w.qlev[1].v, w.qlev[0].v >= 0, w.qlev[1].v <= 1]
        dist, r, tot, S = bs_dist(w)
        summ = DF(rows_total(w), Dom([const_block("reserve")]), lambda a, c: num(z3.Real("x")))
        st, st2 = dist.state(), summ.state()
        L = V(False, z3.Real("lb"))
        q = I.SList([("i", q) for q in reversed(w.qlev)])
        res = ck.call("BootstrapChainLadderResult.get_quantiles", [result(w, "BootstrapChainLadderResult", reserve_dist=dist, summary=summ, tri=w.tri)],
                      dict(q=q, **(dict(lb=L) if lb else {})))

        def pct(f, q):
            t = aggregate("values", 0, S, lambda s: (True, f(s)))
            v = V(False, core.uf("percentile_linear", 2)(t, mul(num(100), q).v))
            return ite(simp(v.v < L.v), lambda: L, lambda: v) if lb else v
        ck.ob("the requested probabilities are formatted").add("proved" if w.asked_q is q else "undecided", "other probabilities", backend="rewriting")
        ck.frame("quantiles", res, rows_total(w), Dom([const_block(h) for h in QHDR]),
                 lambda a, c: pct(tot, w.qlev[c[0]]) if a[0] == 1 else pct(lambda s: r(s, one(a)), w.qlev[c[0]]))
        ck.unchanged("the reserve distribution is not written to", dist, st)
        ck.unchanged("the summary is not written to", summ, st2)
    return c


get_q_bs(False)
get_q_bs(True)


def get_q_mack(dist):
    @contract("MackChainLadderResult.get_quantiles", "C13 C24 C21", tag=" [{}]".format(dist))
    def c(w, ck):
        from contracts import rows_total
        w.qlev = [V(False, z3.Real("p1")), V(False, z3.Real("p2"))]
        cx.hyps += [w.qlev[0].v < w.qlev[1].v, w.qlev[0].v >= 0, w.qlev[1].v <= 1]
        a, b = w.vec("loc"), w.vec("scale", positive=True)
        ta, tb = num(z3.Real("tl")), num(z3.Real("ts"))

        def rv_(pt):
            x, y = (ta, tb) if pt[0] == 1 else (a(one(pt)), b(one(pt)))
            return I.SObj("norm", loc=x, scale=y) if dist == "norm" else I.SObj("lognorm", s=y, loc=0, scale=x)
        rvs = Series(rows_total(w), rv_, "rv")
        summ = DF(rows_total(w), Dom([const_block("reserve")]), lambda a, c: num(z3.Real("x")))
        st = summ.state()
        q = I.SList([("i", q) for q in reversed(w.qlev)])
        res = ck.call("MackChainLadderResult.get_quantiles", [result(w, "MackChainLadderResult", rvs=rvs, summary=summ, tri=w.tri)], dict(q=q))
        ck.ob("the requested probabilities are formatted").add("proved" if w.asked_q is q else "undecided", "other probabilities", backend="rewriting")
        ck.frame("quantiles", res, rows_total(w), Dom([const_block(h) for h in QHDR]), lambda r, c: I.dist_fn(rv_(r), "ppf", w.qlev[c[0]]))
        ck.unchanged("the summary is not written to", summ, st)
    return c


get_q_mack("norm")
get_q_mack("lognorm")


# ------------------------------------------------------------------ requested probabilities
def qfmt_contract(qual, two, scalar=False):
    cls = qual.split(".")[0]
    tag = (" [two-sided]" if two else "") + (" [single probability]" if scalar else "")

    @contract(qual, "C24", tag=tag)
    def c(w, ck):
        m = z3.Int("m")
        f = w.vec("q")
        if scalar:
            cx.hyps.append(m == 1)
            q = f(0)
        else:
            cx.hyps.append(m >= 1)
            q = I.SList([("s", P.Seq(m, f))])
        cx.termfacts["q"] = lambda t: [z3.Implies(z3.And(t >= 0, t < m), z3.And(f(t).v >= 0, f(t).v <= 1))]
        cx.hyps += [f(0).v >= 0, f(0).v <= 1] if scalar else [z3.ForAll([z3.Int("t!q")], z3.Implies(z3.And(z3.Int("t!q") >= 0, z3.Int("t!q") < m), z3.And(f(z3.Int("t!q")).v >= 0, f(z3.Int("t!q")).v <= 1)))]
        args = [] if cls == "BaseRangeEstimator" else [result(w, cls, tri=w.tri, dsuffix=P.PyDict(SUFFIX))]
        res = ck.call(qual, args, dict(q=q, **(dict(two_sided=True) if two else {})))
        ok = isinstance(res, tuple) and len(res) == 2
        ck.ob("two sequences are returned").add("proved" if ok else "undecided", "got {!r}".format(res), backend="rewriting")
        if not ok:
            return
        qd, qf = P.domfn(res[0])
        hd, hf = P.domfn(res[1])
        same = model.same_shape(plain_(qd), plain_(hd)) and len(qd.blocks) == 1 and qd.blocks[0].k == 1 and qd.blocks[0].guard is None
        ck.ob("one header per probability").add("proved" if same else "undecided", "different sizes", backend="z3")
        if not same:
            return
        U = qd.blocks[0].sizes[0]
        val = lambda k: num(qf((0, (k,))))
        k, l, t = freshint("k"), freshint("l"), freshint("t")
        with hyp(k >= 0, k < l, l < zi(U)):
            ck.goal("probabilities are strictly ascending", simp(val(k).v < val(l).v), hyps=P.unique_facts([k, l]))
        wanted = [lambda t: f(t)] if not two else [lambda t: div(sub(num(1), f(t)), num(2)), lambda t: div(add(num(1), f(t)), num(2))]
        with hyp(k >= 0, k < zi(U)):
            src = [0] if scalar else P.unique_sources(k)
            ck.goal("every column is a requested probability", b_or(*[b_and(simp(zi(s) >= 0), simp(zi(s) < m), simp(val(k).v == g(s).v)) for s in src for g in wanted]),
                    hyps=P.unique_facts([k]))
            h = hf((0, (k,)))
            txt = header_spec(w, cls, mul(num(100), val(k)))
            if txt is not None:
                ck.value("a column is labelled with its percentage", h, txt)
        for x, g in enumerate(wanted):
            with hyp(t >= 0, t < m):
                ps = P.unique_positions(x, t)
                ck.goal("every requested probability has a column", b_or(*[b_and(simp(zi(p) >= 0), simp(zi(p) < zi(U)), simp(val(p).v == g(t).v)) for p in ps]),
                        hyps=P.unique_facts([], [(x, t)]))
    return c


def plain_(d):
    return model.plain(d)


def header_spec(w, cls, pct):
    base = SStr("rstrip(fmt:{:.5f})", (pct, "0"))
    base = SStr("rstrip({})".format(base.kind), base.parts + (".",))
    if cls == "BaseRangeEstimator":
        return SStr("cat", (base, "%"))
    tail = lambda k, o: core.s_eq(SStr("slice[{}]({})".format(k, base.kind), base.parts), o)
    th = b_or(core.text_test("contains", base, "."), *[tail("-2:", x) for x in ("11", "12", "13")])
    suffix = "th"
    for x, e in (("1", "st"), ("2", "nd"), ("3", "rd")):
        suffix = core.ite_val(zb(b_and(b_not(th), tail("-1", x))), e, suffix)
    return SStr("cat", (base, suffix))


qfmt_contract("BaseRangeEstimator._qtls_formatter", False)
qfmt_contract("BaseRangeEstimator._qtls_formatter", True)
qfmt_contract("BaseRangeEstimator._qtls_formatter", False, True)
qfmt_contract("BaseRangeEstimatorResult._qtls_formatter", False)
qfmt_contract("BaseRangeEstimatorResult._qtls_formatter", False, True)


def qfmt_bad(qual, high):
    cls = qual.split(".")[0]

    @contract(qual, "C24", tag=" [probability {}]".format("above one" if high else "below zero"))
    def c(w, ck):
        m, b = z3.Int("m"), z3.Int("bad")
        f = w.vec("q")
        cx.witnesses = [b]
        cx.hyps += [m >= 1, b >= 0, b < m, f(b).v > 1 if high else f(b).v < 0]
        args = [] if cls == "BaseRangeEstimator" else [result(w, cls, tri=w.tri, dsuffix=None)]
        ck.raises("a probability outside [0, 1] is rejected", lambda: ck.call(qual, args, dict(q=I.SList([("s", P.Seq(m, f))]))), "ValueError")
    return c


for _q in ("BaseRangeEstimator._qtls_formatter", "BaseRangeEstimatorResult._qtls_formatter"):
    qfmt_bad(_q, True)
    qfmt_bad(_q, False)

