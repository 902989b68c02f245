"""Contracts on the functions of /repo.

World: a square run-off triangle of symbolic size n: origins OX and development periods DX (strictly ascending integer
labels), cell (i, j) observed iff i + j <= n - 1 with amount C(i, j).  Everything below holds for every n, every label
sequence and all real amounts satisfying the stated precondition."""
import z3
import core
import model
import pdops as P
import interp as I
import verify
from core import (V, NAN, Lab, SStr, Opaque, Unsupported, PyRaise, cx, simp, b_and, b_or, b_not, zi, zb, num, s_eq, s_bin,
                  hyp, decide, entails, isz, is_int, is_num, aggregate, ite, rv, uf)
from model import BaseAx, Dom, Block, Series, DF, Index, Arr, SList, Seq, Mut, axis_block, const_block, range_block, freshint, sz

FILES = ["trikit/triangle.py", "trikit/estimators/base.py", "trikit/estimators/mack.py", "trikit/estimators/bootstrap.py",
         "trikit/utils.py"]

R = z3.RealSort()
INT = z3.IntSort()


class World:
    def __init__(self, repo, nmin=2, positive="nonzero", labels=True, runoff=False):
        core.reset()
        cx.uniqs = []
        cx.recfacts, cx.termfacts, cx.localax, cx.inverses = {}, {}, {}, {}
        self.ip = I.Interp(repo)
        for f in FILES:
            self.ip.load(f)
        self.n = z3.Int("n")
        cx.hyps = [self.n >= nmin]
        n = self.n
        self.m = z3.Int("m") if runoff else n
        self.runoff = runoff
        if runoff:
            # any run-off shape: origin i is observed up to period L(i), later origins no further; K(j) is the last origin observed in
            # period j, so j <= L(i) exactly when i <= K(j)
            m = self.m
            self.L, self.K = z3.Function("L", INT, INT), z3.Function("K", INT, INT)
            L, K = self.L, self.K
            cx.hyps += [m >= 2, L(0) == m - 1, K(0) == n - 1]
            cx.theory, self.memo = self.shape_facts, {}
            cx.bounds = [sz(K(1) + 1)]
            cx.shapes = {"L": lambda sm, i: shape_of(sm)[0].get(i, 0), "K": lambda sm, j: shape_of(sm)[1].get(j, 0)}
        self.OX, self.DX = BaseAx("org", n), BaseAx("dev", self.m)
        self.Cf = z3.Function("C", INT, INT, R)
        # what is known of the amounts: all positive (True), none zero ("nonzero"), the first period positive ("first"), nothing (False)
        self.positive = positive
        if positive:
            cx.termfacts["C"] = lambda i, j: [self.Cf(i, j) > 0 if positive is True else self.Cf(i, j) != 0 if positive == "nonzero"
                                              else z3.Implies(j == 0, self.Cf(i, j) > 0)]
        self.rows, self.cols = Dom([axis_block(self.OX)]), Dom([axis_block(self.DX)])
        self.tri = self.triangle()
        self.ip.world = cx.world = self

    # ------------------------------------------------------------ data
    def C(self, i, j):
        return V(False, self.Cf(zi(i), zi(j)))

    def obs(self, i, j):
        if self.runoff:
            i, j = zi(i), zi(j)
            return simp(z3.And(j <= self.L(i), i <= self.K(j)))
        return simp(zi(i) + zi(j) <= self.n - 1)

    def shape_facts(self, exprs):
        """Instances of: L and K stay in range, and j <= L(i) exactly when i <= K(j)."""
        L, K, n, m, memo = self.L, self.K, self.n, self.m, self.memo
        ls, ks = {}, {}
        for e in exprs:
            got = memo.get(e.get_id())
            if got is None:
                got = ({}, {}, e)
                for x in core.consts_of(e).values():
                    if x.num_args() == 1 and x.decl().name() in ("L", "K") and not core.has_var(x):
                        got["LK".index(x.decl().name())][x.arg(0).get_id()] = x.arg(0)
                memo[e.get_id()] = got
            ls.update(got[0])
            ks.update(got[1])
        key = (tuple(sorted(ls)), tuple(sorted(ks)))
        if key in memo:
            return memo[key]
        def fact(k, make):
            if k not in memo:
                memo[k] = make()
            return memo[k]
        inL = lambda i: fact(("i", i.get_id()), lambda: z3.And(i >= 0, i < n))
        inK = lambda j: fact(("j", j.get_id()), lambda: z3.And(j >= 0, j < m))
        out = [fact(("L", a), lambda: z3.Implies(inL(i), z3.And(L(i) >= 0, L(i) <= m - 1, K(L(i)) >= i, K(L(i)) <= n - 1))) for a, i in ls.items()]
        out += [fact(("K", b), lambda: z3.Implies(inK(j), z3.And(K(j) >= 0, K(j) <= n - 1, L(K(j)) >= j, L(K(j)) <= m - 1))) for b, j in ks.items()]
        out += [fact((a, b, "LK"), lambda: z3.Implies(z3.And(inL(i), inK(j)), (j <= L(i)) == (i <= K(j)))) for a, i in ls.items() for b, j in ks.items()]
        out = [z3.And(out)] if out else out
        memo[key] = out
        return out

    def last(self, i):
        """Position of the latest observed development period of origin i."""
        return self.L(zi(i)) if self.runoff else sz(self.n - 1 - zi(i))

    def lastorg(self, j):
        """Position of the last origin observed in development period j."""
        return self.K(zi(j)) if self.runoff else sz(self.n - 1 - zi(j))

    def cell(self, i, j):
        o = self.obs(i, j)
        return V(b_not(o) if isinstance(o, bool) else simp(z3.Not(o)), self.Cf(zi(i), zi(j)))

    def triangle(self, cls="CumTriangle"):
        t = DF(self.rows, self.cols, lambda r, c: self.cell(r[1][0], c[1][0]))
        t.cls = self.ip.classes[cls]
        t.attrs = dict(origin="origin", dev="dev", value="value")
        for a in ("_latest_by_origin", "_latest_by_devp", "_nbr_cells", "_maturity", "_triind", "_devp", "_latest", "_origins",
                  "_rlvi", "_clvi", "_dof", "_a2a_assignment", "_ranked_a2a", "_a2a_lvi", "_weights", "_a2aind", "_a2a"):
            t.attrs[a] = None
        self.tri0 = t.state()
        return t

    def inst(self, cls, **attrs):
        o = I.Inst(self.ip.classes[cls])
        o.attrs = dict(tri=self.tri)
        o.attrs.update(attrs)
        return o

    def is_tri(self, o):
        """The receiver is this world's triangle with its original contents."""
        return o is self.tri and o.rows is self.tri0[0] and o.cols is self.tri0[1] and o.cell is self.tri0[2]

    def latest(self, i):
        return self.C(i, self.last(i))

    # ------------------------------------------------------------ parameters of the estimators
    def vec(self, name, positive=False):
        f = z3.Function(name, INT, R)
        if positive:
            cx.termfacts[name] = lambda i: [f(i) > 0]
        return lambda j: V(False, f(zi(j)))

    def dev_series(self, f, name=None, size=None, off=0):
        return Series(Dom([axis_block(self.DX, off, size)]), lambda pt: f(pt[1][0]), name)

    def org_series(self, f, name=None):
        return Series(Dom([axis_block(self.OX)]), lambda pt: f(pt[1][0]), name)


def shape_of(sm):
    """A random run-off shape of a concrete sample: (last period of each origin, last origin of each period)."""
    if not hasattr(sm, "shape"):
        n, m = sm.ints["n"], sm.int_const("m")
        last = sorted([m - 1] + [sm.rng.randint(0, max(m - 1, 0)) for _ in range(n - 1)], reverse=True)
        sm.shape = (dict(enumerate(last)), {j: max(i for i in range(n) if last[i] >= j) for j in range(m)})
    return sm.shape


def one(pt):
    return pt[1][0]


def sumr(lo, hi, f):
    return V(False, aggregate("sum", lo, hi, lambda w: (True, f(w))))


def prodr(lo, hi, f):
    return V(False, aggregate("prod", lo, hi, lambda w: (True, f(w))))


def mul(*xs):
    r = xs[0]
    for x in xs[1:]:
        r = s_bin("*", r, x)
    return r


def add(*xs):
    r = xs[0]
    for x in xs[1:]:
        r = s_bin("+", r, x)
    return r


def sub(a, b):
    return s_bin("-", a, b)


def div(a, b):
    """Specification-level division (no obligation)."""
    n = len(cx.side)
    r = s_bin("/", a, b)
    del cx.side[n:]
    return r


REG = []          # (qual, props, world kwargs, body, file)
APPLY = {}        # qual -> function(ip, w, args, kw) -> value or NotImplemented


def contract(qual, props, tag="", **wk):
    def deco(f):
        REG.append((qual, tuple(props.split()), wk, f, tag))
        return f
    return deco


def summary(q, positive="nonzero"):
    """Contract of q for its callers; positive: what its proof assumes of the amounts (callers that know less use the body)."""
    enough = {False: (False, "first", "nonzero", True), "nonzero": ("nonzero", True), True: (True,)}[positive]

    def deco(f):
        APPLY[q] = lambda ip, w, args, kw: f(ip, w, args, kw) if w.positive in enough else NotImplemented
        return f
    return deco


class Summ:
    def __init__(self, q, f):
        self.q, self.f = q, f

    def apply(self, ip, args, kw):
        w = ip.world
        r = self.f(ip, w, args, kw)
        if r is NotImplemented:
            # outside the contract's precondition: the body is used instead
            f = ip.find(self.q)
            ip.used.discard(self.q)
            c = ip.contracts.pop(self.q)
            try:
                return ip.call_func(f, args, kw)
            finally:
                ip.contracts[self.q] = c
        if isinstance(r, (Series, DF)) and args and args[0] is w.tri and self.is_prop(ip):
            ip.handed.append((self.q, r, r.state()))       # may be a cached object of the triangle: see verify.run_contract
        return r

    def is_prop(self, ip):
        c, _, m = self.q.rpartition(".")
        return c in ip.classes and isinstance(ip.classes[c].lookup(m), I.Prop)


# ==================================================================== base chain ladder
def ldfs_of(s):
    """position -> value function of an LDF series over the development periods."""
    return lambda j: s.fn((0, (j,)))


def is_devs(w, s):
    return isinstance(s, Series) and model.same_labels(s.dom, w.cols) is True


def cldf_spec(w, f):
    return lambda j: prodr(j, w.n, f)


@contract("BaseChainLadder._cldfs", "C08 C09", positive=False)
def c_cldfs(w, ck):
    f = w.vec("F")
    res = ck.call("BaseChainLadder._cldfs", [w.inst("BaseChainLadder"), w.dev_series(f, "ldf")])
    ck.series("cumulative factors", res, w.cols, lambda pt: cldf_spec(w, f)(one(pt)), "cldf")


@summary("BaseChainLadder._cldfs", positive=False)
def s_cldfs(ip, w, args, kw):
    l = kw.get("ldfs", args[1] if len(args) > 1 else None)
    if not is_devs(w, l):
        return NotImplemented
    f = ldfs_of(l)
    return w.dev_series(cldf_spec(w, f), "cldf")


@contract("BaseChainLadder._ultimates", "C09", positive=False)
def c_ultimates(w, ck):
    g = w.vec("G")
    res = ck.call("BaseChainLadder._ultimates", [w.inst("BaseChainLadder"), w.dev_series(g, "cldf")])
    ck.series("ultimates", res, w.rows, lambda pt: mul(w.latest(one(pt)), g(w.n - 1 - one(pt))), "ultimate")


@summary("BaseChainLadder._ultimates", positive=False)
def s_ultimates(ip, w, args, kw):
    l = kw.get("cldfs", args[1] if len(args) > 1 else None)
    if not is_devs(w, l):
        return NotImplemented
    g = ldfs_of(l)
    return w.org_series(lambda i: mul(w.latest(i), g(sz(w.n - 1 - zi(i)))), "ultimate")


@contract("BaseChainLadder._reserves", "C09", positive=False)
def c_reserves(w, ck):
    u = w.vec("U")
    res = ck.call("BaseChainLadder._reserves", [w.inst("BaseChainLadder"), w.org_series(u, "ultimate")])
    ck.series("reserves", res, w.rows, lambda pt: sub(u(one(pt)), w.latest(one(pt))), "reserve")


@summary("BaseChainLadder._reserves", positive=False)
def s_reserves(ip, w, args, kw):
    l = kw.get("ultimates", args[1] if len(args) > 1 else None)
    if not (isinstance(l, Series) and model.same_labels(l.dom, w.rows) is True):
        return NotImplemented
    return w.org_series(lambda i: sub(l.fn((0, (i,))), w.latest(i)), "reserve")


def square_spec(w, f):
    """Completed triangle as a function of (i, j)."""
    def s(i, j):
        l = sz(w.n - 1 - zi(i))
        return ite(w.obs(i, j), lambda: w.C(i, j), lambda: mul(w.latest(i), prodr(l, j, f)))
    return s


def with_ult(w):
    return Dom([axis_block(w.DX), const_block("ultimate")])


@contract("BaseChainLadder._trisqrd", "C10", positive=False)
def c_trisqrd(w, ck):
    f = w.vec("F")
    sq = square_spec(w, f)

    def inv(rf):
        if rf.arity == 2 and isinstance(getattr(rf, "obj", None), DF):
            def spec(*a):
                (r, c) = rf.unflat(a)
                return sq(one(r), one(c))
            return spec
        return None
    ck.inv.append(inv)
    st = w.tri.state()
    res = ck.call("BaseChainLadder._trisqrd", [w.inst("BaseChainLadder"), w.dev_series(f, "ldf")])
    l1 = w.n - 1

    def cell(r, c):
        i = one(r)
        if c[0] == 1:
            return mul(sq(i, l1), f(l1))
        return sq(i, one(c))
    ck.frame("completed triangle", res, w.rows, with_ult(w), cell)
    # every later cell is its predecessor times the predecessor's factor
    i, j = freshint("i"), freshint("j")
    with hyp(i >= 0, i < w.n, j >= 1, j < w.n, i + j > w.n - 1):
        peel_hi("prod", w.n - 1 - i, j, f)
        ck.value("a forecast cell is its predecessor times the factor", sq(i, j), mul(sq(i, sz(j - 1)), f(sz(j - 1))))
        peel_hi("prod", w.n - 1 - i, w.n, f)
    ck.unchanged("the triangle is not written to", w.tri, st)


def peel_hi(kind, lo, hi, f):
    """Definition of a product / sum at its last element (lo < hi must hold): a lemma instance."""
    a = aggregate(kind, lo, hi, lambda w: (True, f(w)))
    b = aggregate(kind, lo, sz(zi(hi) - 1), lambda w: (True, f(w)))
    x = f(sz(zi(hi) - 1)).v
    e = z3.simplify(zi(hi) - 1 - zi(lo))
    empty = z3.RealVal(1 if kind == "prod" else 0)
    core.add_axiom_local(z3.Implies(zi(lo) < zi(hi), a == (b * x if kind == "prod" else b + x)))
    core.add_axiom_local(z3.Implies(zi(lo) >= zi(hi), a == empty))
    core.add_axiom_local(z3.Implies(zi(lo) >= zi(hi) - 1, b == empty))
    return a


# ==================================================================== triangle accessors
def caches_clean(w):
    return w.is_tri(w.tri)


def triind_spec(w):
    return lambda r, c: ite(w.obs(one(r), one(c)), lambda: V(False, rv(0)), lambda: V(False, rv(1)))


@contract("_BaseTriangle.triind", "C05 C09 C10", positive=False)
def c_triind(w, ck):
    st = w.tri.state()
    res = ck.call("_BaseTriangle.triind", [w.tri])
    ck.frame("forecast indicator", res, w.rows, w.cols, triind_spec(w))
    ck.unchanged("the amounts are not written to", w.tri, st)


@summary("_BaseTriangle.triind", positive=False)
def s_triind(ip, w, args, kw):
    if not w.is_tri(args[0]):
        return NotImplemented
    return DF(w.rows, w.cols, triind_spec(w))


def frame_of(w, rows, /, **cols):
    names = list(cols)
    cd = Dom([const_block(x) for x in names])
    return DF(rows, cd, lambda r, c: cols[names[c[0]]](one(r)))


def ckframe_of(ck, name, res, rows, /, **cols):
    names = list(cols)
    ck.frame(name, res, rows, Dom([const_block(x) for x in names]), lambda r, c: cols[names[c[0]]](one(r)))


@contract("_BaseTriangle.rlvi", "C05", positive=False)
def c_rlvi(w, ck):
    res = ck.call("_BaseTriangle.rlvi", [w.tri])
    ckframe_of(ck, "row last-valid table", res, w.rows, dev=lambda i: Lab(w.DX, w.last(i)), col_offset=lambda i: w.last(i))


@summary("_BaseTriangle.rlvi", positive=False)
def s_rlvi(ip, w, args, kw):
    if not w.is_tri(args[0]):
        return NotImplemented
    return frame_of(w, w.rows, dev=lambda i: Lab(w.DX, w.last(i)), col_offset=lambda i: w.last(i))


@contract("_BaseTriangle.clvi", "C05 C10", positive=False)
def c_clvi(w, ck):
    res = ck.call("_BaseTriangle.clvi", [w.tri])
    ckframe_of(ck, "column last-valid table", res, w.cols, origin=lambda j: Lab(w.OX, w.lastorg(j)), row_offset=lambda j: w.lastorg(j))


@summary("_BaseTriangle.clvi", positive=False)
def s_clvi(ip, w, args, kw):
    if not w.is_tri(args[0]):
        return NotImplemented
    return frame_of(w, w.cols, origin=lambda j: Lab(w.OX, w.lastorg(j)), row_offset=lambda j: w.lastorg(j))


LATEST_COLS = lambda w: dict(origin=lambda i: Lab(w.OX, i), dev=lambda i: Lab(w.DX, w.last(i)), latest=lambda i: w.latest(i))


@contract("_BaseTriangle.latest", "C05 C09", positive=False)
def c_latest(w, ck):
    res = ck.call("_BaseTriangle.latest", [w.tri])
    ckframe_of(ck, "latest diagonal", res, Dom([range_block(w.n)]), **LATEST_COLS(w))


@summary("_BaseTriangle.latest", positive=False)
def s_latest(ip, w, args, kw):
    if not w.is_tri(args[0]):
        return NotImplemented
    return frame_of(w, Dom([range_block(w.n)]), **LATEST_COLS(w))


@contract("_BaseTriangle.latest_by_origin", "C05 C09", positive=False)
def c_lbo(w, ck):
    res = ck.call("_BaseTriangle.latest_by_origin", [w.tri])
    ck.series("latest by origin", res, w.rows, lambda pt: w.latest(one(pt)), "latest_by_origin")


@summary("_BaseTriangle.latest_by_origin", positive=False)
def s_lbo(ip, w, args, kw):
    if not w.is_tri(args[0]):
        return NotImplemented
    return w.org_series(w.latest, "latest_by_origin")


@contract("_BaseTriangle.latest_by_devp", "C05", positive=False)
def c_lbd(w, ck):
    res = ck.call("_BaseTriangle.latest_by_devp", [w.tri])
    ck.series("latest by development period", res, w.cols, lambda pt: w.latest(w.lastorg(one(pt))), "latest_by_devp")


@summary("_BaseTriangle.latest_by_devp", positive=False)
def s_lbd(ip, w, args, kw):
    if not w.is_tri(args[0]) or w.runoff:
        return NotImplemented
    return w.dev_series(lambda j: w.latest(w.lastorg(j)), "latest_by_devp")


@contract("_BaseTriangle.devp", "C05", positive=False)
def c_devp(w, ck):
    res = ck.call("_BaseTriangle.devp", [w.tri])
    ck.series("development periods", res, Dom([range_block(w.m)]), lambda pt: Lab(w.DX, one(pt)), "devp")


@summary("_BaseTriangle.devp", positive=False)
def s_devp(ip, w, args, kw):
    if not w.is_tri(args[0]):
        return NotImplemented
    return Series(Dom([range_block(w.m)]), lambda pt: Lab(w.DX, one(pt)), "devp")


@contract("_BaseTriangle.origins", "C05", positive=False)
def c_origins(w, ck):
    res = ck.call("_BaseTriangle.origins", [w.tri])
    ck.series("origins", res, Dom([range_block(w.n)]), lambda pt: Lab(w.OX, one(pt)), "origin")


@summary("_BaseTriangle.origins", positive=False)
def s_origins(ip, w, args, kw):
    if not w.is_tri(args[0]):
        return NotImplemented
    return Series(Dom([range_block(w.n)]), lambda pt: Lab(w.OX, one(pt)), "origin")


@contract("_BaseTriangle.maturity", "C05 C09", positive=False)
def c_maturity(w, ck):
    res = ck.call("_BaseTriangle.maturity", [w.tri])
    ck.series("maturity", res, w.rows, lambda pt: Lab(w.DX, w.last(one(pt))), "maturity")


@summary("_BaseTriangle.maturity", positive=False)
def s_maturity(ip, w, args, kw):
    if not w.is_tri(args[0]):
        return NotImplemented
    return w.org_series(lambda i: Lab(w.DX, w.last(i)), "maturity")


@contract("_BaseTriangle.nbr_cells", "C05 C14 C23", positive=False)
def c_nbr(w, ck):
    res = ck.call("_BaseTriangle.nbr_cells", [w.tri])
    ck.value("number of observed cells", num(res), sumr(0, w.m, lambda j: V(False, z3.ToReal(zi(w.lastorg(j)) + 1))))


@contract("_BaseTriangle.to_tbl", "C04 C05", positive=False)
def c_to_tbl(w, ck):
    res = ck.call("_BaseTriangle.to_tbl", [w.tri])
    ck.table("tabular form", res, lambda i, j: w.obs(i, j), ("origin", "dev"), ("value", lambda i, j: w.C(i, j)))


@contract("_BaseTriangle.diagonal", "C05", positive=False)
def c_diagonal(w, ck):
    k = z3.Int("k")
    with hyp(k <= 0, k > -w.n):
        res = ck.call("_BaseTriangle.diagonal", [w.tri, k])
        ckframe_of(ck, "k-th earlier diagonal", res, Dom([range_block(sz(w.n + k))]), origin=lambda i: Lab(w.OX, i),
                   dev=lambda i: Lab(w.DX, sz(w.n - 1 - zi(i) + k)), value=lambda i: w.C(i, w.n - 1 - zi(i) + k))


@contract("_BaseTriangle.diagonal", "C05", tag=" [offset out of range]", positive=False)
def c_diagonal2(w, ck):
    k = z3.Int("k")
    with hyp(b_or(k >= w.n, k <= -w.n)):
        ck.raises("an offset beyond the triangle is rejected", lambda: ck.call("_BaseTriangle.diagonal", [w.tri, k]), "ValueError")


# the same contracts for any run-off shape (as many origins and periods as there are, later origins no more mature than earlier ones)
for _q, _f in (("triind", c_triind), ("rlvi", c_rlvi), ("clvi", c_clvi), ("latest", c_latest), ("latest_by_origin", c_lbo), ("devp", c_devp),
               ("origins", c_origins), ("maturity", c_maturity), ("nbr_cells", c_nbr), ("to_tbl", c_to_tbl)):
    contract("_BaseTriangle." + _q, "C05", tag=" [any run-off shape]", runoff=True, positive=False)(_f)


# ==================================================================== link ratios
def a2a_rows(w):
    """Origins with at least one link ratio."""
    return Dom([axis_block(w.OX, 0, sz(w.lastorg(1) + 1))])


def a2a_cols(w):
    return Dom([axis_block(w.DX, 0, sz(w.m - 1))])


def ratio(w, i, j):
    return div(w.C(i, sz(zi(j) + 1)), w.C(i, j))


def has_ratio(w, i, j):
    return w.obs(i, sz(zi(j) + 1)) if w.runoff else simp(zi(i) + zi(j) <= w.n - 2)


def a2a_cell(w):
    def f(r, c):
        g = has_ratio(w, one(r), one(c))
        return V(b_not(g), ratio(w, one(r), one(c)).v)
    return f


@contract("_BaseCumTriangle.a2a", "C06 C07")
def c_a2a(w, ck):
    st = w.tri.state()
    res = ck.call("_BaseCumTriangle.a2a", [w.tri])
    ck.frame("link ratios", res, a2a_rows(w), a2a_cols(w), a2a_cell(w))
    ck.unchanged("the amounts are not written to", w.tri, st)


@summary("_BaseCumTriangle.a2a")
def s_a2a(ip, w, args, kw):
    if not w.is_tri(args[0]):
        return NotImplemented
    return DF(a2a_rows(w), a2a_cols(w), a2a_cell(w))


@contract("_BaseCumTriangle.a2aind", "C06 C07 C11")
def c_a2aind(w, ck):
    res = ck.call("_BaseCumTriangle.a2aind", [w.tri])
    ck.frame("inclusion indicator", res, a2a_rows(w), a2a_cols(w),
             lambda r, c: ite(has_ratio(w, one(r), one(c)), lambda: V(False, rv(1)), lambda: V(False, rv(0))))
    res2 = ck.call("_BaseCumTriangle.a2aind", [w.tri])
    ck.ob("the indicator is remembered").add("proved" if res2 is res else "undecided", "a second read gives another object")


@contract("_BaseCumTriangle.a2aind.setter", "C06 C07")
def c_a2aind_set(w, ck):
    i0, j0, v0 = freshint("i0"), freshint("j0"), z3.Real("v0")
    with hyp(i0 >= 0, j0 >= 0, i0 < w.n, j0 < w.m - 1, has_ratio(w, i0, j0)):
        ck.ip.active = "_BaseCumTriangle.a2aind.setter"
        w.ip.contracts.pop("_BaseCumTriangle.a2aind", None)
        ck.call("_BaseCumTriangle.a2aind.setter", [w.tri, (Lab(w.OX, i0), Lab(w.DX, j0), V(False, v0))])
        res = w.ip.getattr(w.tri, "a2aind")
        ck.frame("inclusion indicator after setting one entry", res, a2a_rows(w), a2a_cols(w),
                 lambda r, c: ite(simp(b_and(zi(one(r)) == i0, zi(one(c)) == j0)), lambda: V(False, v0), lambda:
                                  ite(has_ratio(w, one(r), one(c)), lambda: V(False, rv(1)), lambda: V(False, rv(0)))))


def last_ratio(w, j):
    """Position of the last origin with a link ratio in column j."""
    return w.lastorg(sz(zi(j) + 1)) if w.runoff else sz(w.n - 2 - zi(j))


@contract("_BaseCumTriangle.a2a_lvi", "C06")
def c_a2a_lvi(w, ck):
    res = ck.call("_BaseCumTriangle.a2a_lvi", [w.tri])
    ckframe_of(ck, "last link ratio table", res, a2a_cols(w), origin=lambda j: Lab(w.OX, last_ratio(w, j)), row_offset=lambda j: last_ratio(w, j))


@summary("_BaseCumTriangle.a2a_lvi")
def s_a2a_lvi(ip, w, args, kw):
    if not w.is_tri(args[0]):
        return NotImplemented
    return frame_of(w, a2a_cols(w), origin=lambda j: Lab(w.OX, last_ratio(w, j)), row_offset=lambda j: last_ratio(w, j))


for _q, _f in (("a2a", c_a2a), ("a2aind", c_a2aind), ("a2aind.setter", c_a2aind_set), ("a2a_lvi", c_a2a_lvi)):
    contract("_BaseCumTriangle." + _q, "C06", tag=" [any run-off shape]", runoff=True)(_f)


# ==================================================================== averages
TYPES = ("simple", "geometric", "medial", "weighted")


def avg_label(t, d):
    """Row label of the d-period average of type t; d None: all periods."""
    return "all-" + t if d is None else SStr("fmt:" + t + "-{}", (d,))


def avg_rows(w):
    bl = []
    for t in TYPES:
        bl.append(Block((sz(w.n - 2),), lab=lambda p, t=t: avg_label(t, sz(zi(p) + 1))))
        bl.append(const_block("all-" + t))
    return Dom(bl)


def avg_fn(t, all_=False):
    """Abstract value of an average: A_t(d, j), with its missing-value flag."""
    nm = "avg_{}{}".format(t, "_all" if all_ else "")
    return z3.Function(nm, INT, INT, R), z3.Function(nm + "_nan", INT, INT, z3.BoolSort())


def avg_val(t, d, j):
    f, g = avg_fn(t, d is None)
    d = zi(0 if d is None else d)
    return V(g(d, zi(j)), f(d, zi(j)))


def avg_cell(r, c):
    t = TYPES[r[0] // 2]
    return avg_val(t, None if r[0] % 2 else sz(zi(one(r)) + 1), one(c))


@summary("_BaseCumTriangle.a2a_avgs", positive=True)
def s_avgs(ip, w, args, kw):
    if not w.is_tri(args[0]):
        return NotImplemented
    return DF(avg_rows(w), a2a_cols(w), avg_cell)


def ldfs_contract(t, all_):
    @contract("BaseChainLadder._ldfs", "C07 C08", tag=" [{}{}]".format("all-" + t if all_ else t, "" if all_ else "-d"), nmin=3, positive=True)
    def c(w, ck):
        d = z3.Int("d")
        tail = V(False, z3.Real("tail"))
        with hyp(d >= 1, d <= w.n - 2):
            res = ck.call("BaseChainLadder._ldfs", [w.inst("BaseChainLadder")], dict(sel=avg_label(t, None if all_ else d), tail=tail))
            ck.series("development factors", res, w.cols, lambda pt: ite(simp(zi(one(pt)) == w.n - 1), lambda: tail,
                      lambda: avg_val(t, None if all_ else d, one(pt))), "ldf")


for _t in TYPES:
    for _a in (True, False):
        ldfs_contract(_t, _a)


@summary("BaseChainLadder._ldfs")
def s_ldfs(ip, w, args, kw):
    # the factors of the selected row, whatever they are; the last one is the tail
    sel = kw.get("sel", args[1] if len(args) > 1 else "all-weighted")
    tail = num(kw.get("tail", args[2] if len(args) > 2 else rv(1)))
    w.asked = (sel, tail)
    f = w.vec("F")
    return w.dev_series(lambda j: ite(simp(zi(j) == w.n - 1), lambda: tail, lambda: f(j)), "ldf")


@summary("BaseChainLadder._trisqrd", positive=False)
def s_trisqrd(ip, w, args, kw):
    l = kw.get("ldfs", args[1] if len(args) > 1 else None)
    if not is_devs(w, l):
        return NotImplemented
    f = ldfs_of(l)
    sq = square_spec(w, f)
    l1 = w.n - 1

    def cell(r, c):
        return mul(sq(one(r), l1), f(l1)) if c[0] == 1 else sq(one(r), one(c))
    return DF(w.rows, with_ult(w), cell)


def text_of(x):
    return SStr("label", (x,))


def cl_summary(w, f):
    """Specification of the chain ladder summary for factors f (tail included)."""
    g = cldf_spec(w, f)
    age = lambda i: sz(w.n - 1 - zi(i))
    ult = lambda i: mul(w.latest(i), g(age(i)))
    res = lambda i: sub(ult(i), w.latest(i))
    return dict(maturity=lambda i: text_of(Lab(w.DX, age(i))), cldf=lambda i: g(age(i)), emergence=lambda i: div(V(False, rv(1)), g(age(i))),
                latest=lambda i: w.latest(i), ultimate=ult, reserve=res)


def cl_total(w, s):
    t = {k: sumr(0, w.n, s[k]) for k in ("latest", "ultimate", "reserve")}
    t.update(maturity="", cldf=NAN, emergence=NAN)
    return t


def rows_total(w):
    return Dom([axis_block(w.OX), const_block("total")])


def check_result(w, ck, res, f, tail, sel, cls="BaseChainLadderResult"):
    names = ["maturity", "cldf", "emergence", "latest", "ultimate", "reserve"]
    spec = cl_summary(w, f)
    tot = cl_total(w, spec)
    ok = isinstance(res, I.Inst) and res.cls.name == cls
    ck.ob("result is a " + cls).add("proved" if ok else "undecided", "got {!r}".format(res))
    if not ok:
        return
    ck.frame("summary", res.attrs["summary"], rows_total(w), Dom([const_block(x) for x in names]),
             lambda r, c: tot[names[c[0]]] if r[0] == 1 else spec[names[c[0]]](one(r)))
    for nm, a in (("cldf", "cldfs"), ("emergence", "emergence"), ("ultimate", "ultimate"), ("maturity", "maturity"), ("reserve", "reserve"),
                  ("latest", "latest")):
        ck.series("attribute " + a, res.attrs[a], rows_total(w), lambda pt: tot[nm] if pt[0] == 1 else spec[nm](one(pt)))
    ck.series("attribute ldfs", res.attrs["ldfs"], w.cols, lambda pt: f(one(pt)))
    ck.value("attribute tail", res.attrs["tail"], tail)
    sq = square_spec(w, f)
    l1 = w.n - 1
    ck.frame("attribute trisqrd", res.attrs["trisqrd"], w.rows, with_ult(w),
             lambda r, c: mul(sq(one(r), l1), f(l1)) if c[0] == 1 else sq(one(r), one(c)))
    ck.ob("attribute tri is the triangle").add("proved" if res.attrs["tri"] is w.tri else "undecided", "another object")
    # lemmas relating the summary to the completed triangle and the totals
    i = freshint("i")
    with hyp(i >= 0, i < w.n):
        peel_hi("prod", w.n - 1 - i, w.n, f)
        ck.value("ultimate equals the completed triangle's ultimate", spec["ultimate"](i), mul(sq(i, l1), f(l1)))
        ck.value("reserve plus latest is the ultimate", add(spec["reserve"](i), spec["latest"](i)), spec["ultimate"](i))
    lin_sum(ck, w, "total reserve is total ultimate less total latest", tot["reserve"], tot["ultimate"], tot["latest"], spec)


def lin_sum(ck, w, name, a, b, c, spec):
    """sum(u - l) == sum(u) - sum(l): proved by induction over the number of origins."""
    k = freshint("k")
    S = lambda key, m: sumr(0, m, spec[key])
    with hyp(k >= 0, k < w.n):
        for key in ("reserve", "ultimate", "latest"):
            peel_hi("sum", 0, sz(k + 1), spec[key])
        ih = ck.veq(S("reserve", k), sub(S("ultimate", k), S("latest", k)))
        ck.goal(name + " (step)", ck.veq(S("reserve", sz(k + 1)), sub(S("ultimate", sz(k + 1)), S("latest", sz(k + 1)))), hyps=[zb(ih)])
    ck.goal(name + " (base)", ck.veq(S("reserve", 0), sub(S("ultimate", 0), S("latest", 0))))


def pos_factors(w):
    f = w.vec("F", positive=True)
    tail = V(False, z3.Real("tail"))
    cx.hyps.append(tail.v > 0)
    return (lambda j: ite(simp(zi(j) == w.n - 1), lambda: tail, lambda: f(j))), tail


@contract("BaseChainLadder.__call__", "C08 C09 C10", tag=" [named average]")
def c_call(w, ck):
    f, tail = pos_factors(w)
    st = w.tri.state()
    res = ck.call("BaseChainLadder.__call__", [w.inst("BaseChainLadder")], dict(sel="all-simple", tail=tail))
    ck.value("the selected average is used", w.asked[0], "all-simple")
    check_result(w, ck, res, f, tail, "all-simple")
    ck.unchanged("the triangle is not written to", w.tri, st)


@contract("BaseChainLadder.__call__", "C08 C09 C10", tag=" [array of factors]", positive=False)
def c_call2(w, ck):
    f, tail = pos_factors(w)
    st = w.tri.state()
    f0 = w.vec("F")
    arr = Arr([Dom([range_block(sz(w.n - 1))])], lambda pt: f0(one(pt)))
    res = ck.call("BaseChainLadder.__call__", [w.inst("BaseChainLadder")], dict(sel=arr, tail=tail))
    check_result(w, ck, res, f, tail, None)
    ck.unchanged("the triangle is not written to", w.tri, st)


for _tup in (False, True):
    @contract("BaseChainLadder.__call__", "C08 C09 C10 C21", tag=" [{} of factors]".format("tuple" if _tup else "list"), positive=False)
    def c_call2l(w, ck, tup=_tup):
        f, tail = pos_factors(w)
        f0 = w.vec("F")
        xs = SList([("s", Seq(w.n - 1, lambda k: f0(k)))])
        xs.tup = tup
        st = xs.state()
        res = ck.call("BaseChainLadder.__call__", [w.inst("BaseChainLadder")], dict(sel=xs, tail=tail))
        check_result(w, ck, res, f, tail, None)
        ck.ob("the caller's factors are not written to").add("proved" if xs.parts == st else "undecided", "written to")


@contract("BaseChainLadder.__call__", "C08 C09 C10 C21", tag=" [series of factors by age]", positive=False)
def c_call3(w, ck):
    f, tail = pos_factors(w)
    f0 = w.vec("F")
    s = w.dev_series(f0, "mine", sz(w.n - 1))
    st = s.state()
    res = ck.call("BaseChainLadder.__call__", [w.inst("BaseChainLadder")], dict(sel=s, tail=tail))
    check_result(w, ck, res, f, tail, None)
    ck.unchanged("the caller's factors are not written to", s, st)


@contract("BaseChainLadder.__call__", "C08 C09 C10 C21", tag=" [series of factors by age, in any order]", positive=False)
def c_call3b(w, ck):
    """A series labelled by the ages is read by label, whatever the order of its rows."""
    f, tail = pos_factors(w)
    f0 = w.vec("F")
    to, _ = model.permutation("perm", zi(sz(w.n - 1)))
    s = Series(Dom([Block((sz(w.n - 1),), lambda p: Lab(w.DX, to(p)))]), lambda pt: f0(to(one(pt))), "mine")
    st = s.state()
    res = ck.call("BaseChainLadder.__call__", [w.inst("BaseChainLadder")], dict(sel=s, tail=tail))
    check_result(w, ck, res, f, tail, None)
    ck.unchanged("the caller's factors are not written to", s, st)


@contract("BaseChainLadder.__call__", "C08 C09 C10 C21", tag=" [series of factors with other labels]", positive=False)
def c_call3c(w, ck):
    """A series whose labels are not the ages is read by position."""
    f, tail = pos_factors(w)
    f0 = w.vec("F")
    s = Series(Dom([Block((sz(w.n - 1),), lambda p: SStr("factor", (p,)))]), lambda pt: f0(one(pt)), "mine")
    st = s.state()
    res = ck.call("BaseChainLadder.__call__", [w.inst("BaseChainLadder")], dict(sel=s, tail=tail))
    check_result(w, ck, res, f, tail, None)
    ck.unchanged("the caller's factors are not written to", s, st)


@contract("BaseChainLadder.__call__", "C08", tag=" [wrong number of factors]", positive=False)
def c_call4(w, ck):
    m = z3.Int("m")
    f0 = w.vec("F")
    with hyp(m >= 0, m != w.n - 1):
        s = Series(Dom([range_block(m)]), lambda pt: f0(one(pt)), None)
        ck.raises("a series of the wrong length is rejected", lambda: ck.call("BaseChainLadder.__call__", [w.inst("BaseChainLadder")], dict(sel=s)), "ValueError")
        a = Arr([Dom([range_block(m)])], lambda pt: f0(one(pt)))
        ck.raises("an array of the wrong length is rejected", lambda: ck.call("BaseChainLadder.__call__", [w.inst("BaseChainLadder")], dict(sel=a)), "ValueError")
        for tup in (False, True):
            xs = SList([("s", Seq(m, lambda k: f0(k)))])
            xs.tup = tup
            ck.raises("a {} of the wrong length is rejected".format("tuple" if tup else "list"),
                      lambda: ck.call("BaseChainLadder.__call__", [w.inst("BaseChainLadder")], dict(sel=xs)), "ValueError")


# ==================================================================== the averages themselves
def with_weights(w):
    """The triangle carries an arbitrary 0/1 inclusion indicator W (0 where there is no link ratio)."""
    W = z3.Function("W", INT, INT, R)
    cx.termfacts["W"] = lambda i, j: [z3.Or(W(i, j) == 0, W(i, j) == 1), z3.Implies(i + j > w.n - 2, W(i, j) == 0)]
    w.W = W
    w.ind = DF(a2a_rows(w), a2a_cols(w), lambda r, c: V(False, W(zi(one(r)), zi(one(c)))))
    w.tri.attrs["_a2aind"] = w.ind
    w.tri0 = w.tri.state()
    w.ip.contracts.pop("_BaseCumTriangle.a2aind", None)


def window(w, d, j):
    """First and one-past-last origin of the latest d link ratios of development period j (d None: all)."""
    hi = sz(w.n - 1 - zi(j))
    if d is None:
        return 0, hi
    return z3.If(zi(hi) - zi(d) > 0, zi(hi) - zi(d), 0), hi


def included(w, i, j):
    return w.W(zi(i), zi(j)) != 0


def avg_spec(w, t, d, j):
    lo, hi = window(w, d, j)
    if t == "weighted":
        num_ = aggregate("sum", lo, hi, lambda i: (included(w, i, j), w.C(i, sz(zi(j) + 1))))
        den = aggregate("sum", lo, hi, lambda i: (included(w, i, j), w.C(i, j)))
        return div(V(False, num_), V(False, den))
    return avg_of(t, lo, hi, lambda i: (included(w, i, j), ratio(w, i, j)))


def avg_of(t, lo, hi, fn):
    """Abstract average of the present values of fn over [lo, hi): a function of the sequence of values, fixed by the
    contracts of _simple, _geometric and _medial."""
    v = aggregate("average:" + t, lo, hi, fn)
    nan = aggregate("undefined:" + t, lo, hi, fn)
    return V(nan != 0, v)


def avg_summary(t):
    @summary("_BaseCumTriangle._" + t)
    def s(ip, w, args, kw):
        vals = kw.get("vals", args[0])
        if len(args) > 1 and args[1] is not None or kw.get("weights") is not None:
            return NotImplemented
        d, f = P.domfn(vals)
        if len(d.blocks) != 1 or d.blocks[0].k != 1:
            return NotImplemented
        bl = d.blocks[0]
        return avg_of(t, 0, bl.sizes[0], lambda q: (b_and(True if bl.guard is None else bl.guard(q)), num(f((0, (q,))))))


for _t in TYPES[:3]:
    avg_summary(_t)


def vector(w, filtered=True):
    """An arbitrary finite series of numbers."""
    m = z3.Int("m")
    cx.hyps.append(m >= 0)
    x = z3.Function("x", INT, R)
    g = z3.Function("g", INT, z3.BoolSort())
    lab = lambda p: Lab(w.OX, p)
    fn = lambda p: V(False, x(zi(p)))
    return m, x, g, Series(Dom([Block((m,), lab, lambda p: g(zi(p)))]), lambda pt: fn(one(pt)), "x")


def agg3(m, g, x):
    s = V(False, aggregate("sum", 0, m, lambda i: (g(zi(i)), V(False, x(zi(i))))))
    k = z3.ToInt(aggregate("count", 0, m, lambda i: (g(zi(i)), rv(1))))
    return s, k


@contract("_BaseCumTriangle._simple", "C07")
def c_simple(w, ck):
    m, x, g, v = vector(w)
    st = v.state()
    res = ck.call("_BaseCumTriangle._simple", [v])
    s, k = agg3(m, g, x)
    ck.value("arithmetic mean, undefined when nothing is selected", res, ite(k == 0, lambda: NAN, lambda: div(s, num(k))))
    ck.unchanged("the values are not written to", v, st)


@contract("_BaseCumTriangle._geometric", "C07")
def c_geometric(w, ck):
    m, x, g, v = vector(w)
    cx.termfacts["x"] = lambda i: [x(i) > 0]            # the link ratios of positive amounts
    st = v.state()
    res = ck.call("_BaseCumTriangle._geometric", [v])
    s, k = agg3(m, g, x)
    logs = V(False, aggregate("sum", 0, m, lambda i: (g(zi(i)), core.s_un("log", V(False, x(zi(i)))))))
    gm = core.s_un("exp", div(logs, num(k)))
    ck.value("geometric mean, undefined when nothing is selected", res, ite(k == 0, lambda: NAN, lambda: gm))
    ck.unchanged("the values are not written to", v, st)


@contract("_BaseCumTriangle._medial", "C07")
def c_medial(w, ck):
    m, x, g, v = vector(w)
    st = v.state()
    res = ck.call("_BaseCumTriangle._medial", [v])
    s, k = agg3(m, g, x)
    lo = aggregate("min", 0, m, lambda i: (g(zi(i)), V(False, x(zi(i)))))
    hi = aggregate("max", 0, m, lambda i: (g(zi(i)), V(False, x(zi(i)))))
    alleq = P.b_not(P.exists(lambda i: b_and(g(zi(i)), x(zi(i)) != lo), 0, m))
    mid = lambda i: b_and(g(zi(i)), x(zi(i)) != lo, x(zi(i)) != hi)
    s2 = V(False, aggregate("sum", 0, m, lambda i: (mid(i), V(False, x(zi(i))))))
    k2 = z3.ToInt(aggregate("count", 0, m, lambda i: (mid(i), rv(1))))
    want = ite(k == 0, lambda: NAN, lambda: ite(alleq, lambda: V(False, lo), lambda: ite(k == 2, lambda: div(s, num(k)),
               lambda: ite(k2 == 0, lambda: NAN, lambda: div(s2, num(k2))))))
    ck.value("mean of the values strictly between the extremes", res, want)
    ck.unchanged("the values are not written to", v, st)


@contract("_BaseCumTriangle.a2a_avgs", "C07", nmin=3, positive=True)
def c_avgs(w, ck):
    with_weights(w)
    cx.divmode = "ieee"
    st, sti = w.tri.state(), w.ind.state()
    res = ck.call("_BaseCumTriangle.a2a_avgs", [w.tri])

    def cell(r, c):
        t = TYPES[r[0] // 2]
        return avg_spec(w, t, None if r[0] % 2 else sz(zi(one(r)) + 1), one(c))
    ck.frame("averages", res, avg_rows(w), a2a_cols(w), cell, tag=lambda r: " of {}{}".format("all-" if r[0] % 2 else "", TYPES[r[0] // 2]))
    ck.unchanged("the amounts are not written to", w.tri, st)
    ck.unchanged("the indicator is not written to", w.ind, sti)
