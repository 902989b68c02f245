"""Methods of the modelled pandas/numpy objects."""
import z3
import core
import model
from core import (V, NAN, Lab, SStr, Opaque, Unsupported, PyRaise, cx, simp, b_and, b_or, b_not, zi, zb, num, s_bin,
                  s_eq, s_cmp, s_isnan, s_un, s_neg, is_int, is_num, is_boolish, isz, ite, hyp, decide, entails,
                  aggregate, branch, toint, ite_val, rv)
from model import (Block, Dom, Series, DF, Index, Arr, Seq, SList, Mut, BaseAx, sz, interval, exists, forall, range_dom, plain,
                   same_labels, same_shape, locate, lookup, find, slice_dom, norm_slice, filter_dom, sort_dom, reverse_dom,
                   union_labels, align, coalesced, count_of, reduce_block, solve_eqs, const_block, range_block, structural,
                   seq_dom, freshint, contains, coef)


def call(f, *args):
    return cx.interp.call(f, list(args), {})


class Lazy:
    """A callable applied later (elementwise operations are evaluated on demand): it sees the variables and objects as
    they are now."""
    def __init__(self, f):
        self.f, self.mark = f, len(model.mutlog())
        if hasattr(f, "env") and hasattr(f, "node"):
            g = type(f)(f.node, f.env.snapshot(), f.mod, f.name, f.cls)
            g.defaults = f.defaults
            self.f = g


def lazy(f):
    return f if isinstance(f, (Lazy, PyDict)) else Lazy(f)


def mapcall(f, *args):
    """Value of a Python callable applied elementwise (branches merged)."""
    if not isinstance(f, Lazy):
        return core.evalm(lambda: call(f, *args))
    log = model.mutlog()
    if len(log) == f.mark:
        return core.evalm(lambda: call(f.f, *args))
    now, seen = [], set()
    for o, st in log[f.mark:]:
        if id(o) not in seen:
            seen.add(id(o))
            now.append((o, o.state(), st))
    for o, _, st in now:
        o.setstate(st)
    n = len(log)
    try:
        return core.evalm(lambda: call(f.f, *args))
    finally:
        for o, st, _ in now:
            o.setstate(st)
        del log[n:]


class PyDict:
    """Python dict with concrete keys."""
    def __init__(self, d=None):
        self.d = dict(d or {})


class SObj:
    """Opaque library object with symbolic constructor arguments."""
    def __init__(self, kind, **kw):
        self.kind, self.kw = kind, kw


class Stream(Mut):
    """numpy.random.RandomState: a stream of draws.  The k-th drawing call of a stream seeded with s returns at each position
    a value that is a function of (s, k, position, parameters) only; nothing else is assumed of it, except its sign."""
    fresh = [0]

    def __init__(self, seed=None):
        if seed is None:
            Stream.fresh[0] += 1
            seed = z3.Int("entropy!%d" % Stream.fresh[0])
        if not is_int(seed):
            raise Unsupported("seed")
        self.seed, self.calls = zi(seed), 0
        self.init_mut()

    def state(self):
        return self.calls

    def setstate(self, s):
        self.calls = s

    def draw(self, kind, dom, *params):
        """Array over dom; params are functions of a point."""
        model.note_write(self, "draw")
        k = self.calls
        self.calls += 1
        core.trust("numpy.random.RandomState: draws are functions of seed, call, position and parameters (uninterpreted)")
        if len(dom.blocks) != 1:
            raise Unsupported("draws over a composite domain")
        return Arr([plain(dom)], lambda pt: draw_value(kind, self.seed, k, pt[1], [num(p(pt)) for p in params]))


def draw_value(kind, seed, call, pos, params):
    if any(p.v is None for p in params):
        return NAN
    f = draw_fn(kind, len(pos), len(params))
    return V(b_or(*[p.nan for p in params]) if params else False, f(zi(seed), zi(call), *[zi(p) for p in pos], *[p.v for p in params]))


def draw_fn(kind, npos, npar):
    nm = "draw_%s_%d" % (kind, npos)
    f = z3.Function(nm, *([z3.IntSort()] * (2 + npos) + [z3.RealSort()] * npar + [z3.RealSort()]))
    if kind == "normal":
        p = z3.Function("is_normal_draw", z3.RealSort(), z3.RealSort(), z3.RealSort(), z3.BoolSort())
        cx.termfacts[nm] = lambda *a: [p(f(*a), a[-2], a[-1])]
    if kind == "gamma":
        core.trust("gamma draws are not negative")
        cx.termfacts[nm] = lambda *a: [f(*a) >= 0]
    return f


def st_gamma(o, shape, scale=1, size=None):
    if size is not None:
        raise Unsupported("gamma with a size")
    d, f = domfn(shape)
    g = domfn(scale)[1] if is_container(scale) else (lambda pt: scale)
    return o.draw("gamma", d, f, g)


def draw_dom(size):
    if isinstance(size, tuple) and len(size) == 1:
        size = size[0]
    if size is None:
        return None
    if not is_int(size):
        raise Unsupported("size of a draw")
    return Dom([Block((size,))])


def st_normal(o, loc=0., scale=1., size=None):
    d = draw_dom(size)
    if d is None or is_container(loc) or is_container(scale):
        raise Unsupported("normal draws")
    return o.draw("normal", d, lambda pt: loc, lambda pt: scale)


def st_choice(o, a, size=None, replace=True, p=None):
    d = draw_dom(size)
    if d is None or replace is not True or p is not None:
        raise Unsupported("choice")
    ad, af = domfn(a)
    n = ad.size()
    if branch(simp(zi(n) <= 0)):
        raise PyRaise("ValueError", "choice from an empty array")
    model.note_write(o, "draw")
    k = o.calls
    o.calls += 1
    core.trust("numpy.random.RandomState.choice draws an index of its argument as a function of seed, call and position")
    g = z3.Function("draw_choice", *([z3.IntSort()] * 5))
    cx.termfacts["draw_choice"] = lambda *t: [z3.And(g(*t) >= 0, g(*t) < t[3])]

    def at(pt):
        i = g(o.seed, zi(k), zi(pt[1][0]), zi(n))
        with hyp(i >= 0, i < zi(n)):
            return ad.at(i, af)
    return Arr([d], at)


STREAM_METHODS = {"gamma": st_gamma, "normal": st_normal, "choice": st_choice}

SLICE_ALL = slice(None)


def is_true(x):
    return x is True


def boolv(x):
    """Truth value of an element used as a mask."""
    if isinstance(x, V):
        if x.v is None:
            return True
        return b_or(x.nan, x.v != 0)
    if isinstance(x, bool) or (isz(x) and z3.is_bool(x)):
        return x
    if is_int(x):
        return simp(zi(x) != 0)
    raise Unsupported("mask element {!r}".format(x))


def as_list(x):
    """Concrete python list of a value, or None."""
    if isinstance(x, SList):
        if all(k == "i" for k, _ in x.parts):
            return [v for _, v in x.parts]
        return None
    if isinstance(x, (list, tuple)):
        return list(x)
    if isinstance(x, range):
        return list(x)
    if isinstance(x, Seq) and isinstance(x.size, int):
        return [x.at(k) for k in range(x.size)]
    if isinstance(x, PyDict):
        return list(x.d)
    if isinstance(x, (Series, Arr, Index)):
        d = x.dom
        if all(b.k == 0 for b in d.blocks):
            return [x.fn((k, ())) for k in range(len(d.blocks))]
        if all(b.k == 0 or (b.k == 1 and isinstance(b.sizes[0], int)) for b in d.blocks):
            out = []
            for k, b in enumerate(d.blocks):
                if b.k == 0:
                    out.append(x.fn((k, ())))
                else:
                    if b.guard is not None:
                        return None
                    out += [x.fn((k, (p,))) for p in range(b.sizes[0])]
            return out
    return None


def domfn(x):
    """(Dom, fn) of a list-like."""
    if isinstance(x, (Series, Index)):
        return x.dom, x.fn
    if isinstance(x, Arr):
        return x.dom, x.fn
    if isinstance(x, SList):
        return seq_dom(x.parts)
    if isinstance(x, Seq):
        return Dom([Block((x.size,))]), (lambda pt: x.at(*pt[1]))
    if isinstance(x, (list, tuple, range)):
        xs = list(x)
        return Dom([Block(()) for _ in xs]), (lambda pt: xs[pt[0]])
    raise Unsupported("list-like value needed, got {!r}".format(x))


def remap(src, dst):
    """Mapping of points of dst to points of src, position by position (same total size)."""
    if same_shape(src, dst):
        return lambda pt: pt
    # both positional: go through positions
    if src.positional() and all(b.guard is None for b in dst.blocks):
        if not entails(zi(src.size()) == zi(dst.size())):
            raise PyRaise("ValueError", "lengths differ") if entails(zi(src.size()) != zi(dst.size())) else Unsupported("lengths may differ")
        return None
    raise Unsupported("positional correspondence of different domains")


def transfer(src, fn, dst):
    """fn over src viewed over dst position by position."""
    m = remap(src, dst)
    if m is not None:
        return fn
    return lambda pt: src.at(dst.pos(pt), fn)


# ------------------------------------------------------------------ sorted vectors
class Bag:
    """A sorted one-dimensional array: the positions are those of the unsorted values, in an order that is not modelled.
    Only operations that do not depend on the order are available, besides the first and the last element."""
    def __init__(self, dom, fn, tok, whole=True):
        self.dom, self.fn, self.tok, self.whole = dom, fn, tok, whole


class BagWhere:
    def __init__(self, mask, tok):
        self.mask, self.tok = mask, tok


def np_sort(x, **kw):
    if kw:
        raise Unsupported("sort keywords")
    if isinstance(x, Bag) or getattr(x, "ascending", False):
        return x
    d, f = domfn(x)
    if len(d.blocks) != 1 or d.blocks[0].k != 1:
        raise Unsupported("sort of a composite vector")
    return Bag(d, f, object())


class Uniq:
    """np.unique(x): a strictly ascending vector of symbolic size U with the same set of values (the documented contract of
    numpy; the facts are instantiated on demand)."""
    def __init__(self, d, f):
        k = len(cx.__dict__.setdefault("uniqs", []))
        self.dom, self.f = d, f
        self.U = z3.Int("uniq!size{}".format(k))
        self.u = z3.Function("uniq!{}".format(k), z3.IntSort(), z3.RealSort())
        self.src = [z3.Function("uniq!{}src{}".format(k, b), z3.IntSort(), z3.IntSort()) for b in range(len(d.blocks))]
        self.at = [z3.Function("uniq!{}pos{}".format(k, b), z3.IntSort(), z3.IntSort()) for b in range(len(d.blocks))]
        cx.axioms.append(z3.And(self.U >= 0, self.U <= zi(d.size())))
        cx.uniqs.append(self)
        core.trust("np.unique: strictly ascending, same set of values")

    def params(self, b, t):
        bl = self.dom.blocks[b]
        return (t,) if bl.k else ()

    def facts(self, ks, srcs):
        out = []
        for k in ks:
            k = zi(k)
            inr = z3.And(k >= 0, k < self.U)
            alts = []
            for b in range(len(self.dom.blocks)):
                t = self.src[b](k)
                pt = (b, self.params(b, t))
                with hyp(self.dom.present(pt)):
                    v = num(self.f(pt))
                alts.append(z3.And(zb(self.dom.present(pt)), zb(b_not(v.nan)), self.u(k) == v.v))
            out.append(z3.Implies(inr, z3.Or(*alts)))
            for l in ks:
                l = zi(l)
                if not k.eq(l):
                    out.append(z3.Implies(z3.And(k >= 0, k < l, l < self.U), self.u(k) < self.u(l)))
        for b, t in srcs:
            if b >= len(self.dom.blocks):
                continue
            pt = (b, self.params(b, t))
            with hyp(self.dom.present(pt)):
                v = num(self.f(pt))
            p = self.at[b](zi(t))
            out.append(z3.Implies(z3.And(zb(self.dom.present(pt)), zb(b_not(v.nan))), z3.And(p >= 0, p < self.U, self.u(p) == v.v)))
        return out


def unique_facts(ks, srcs=()):
    return [f for q in cx.__dict__.get("uniqs", []) for f in q.facts(ks, srcs)]


def unique_sources(k):
    return [g(zi(k)) for q in cx.__dict__.get("uniqs", []) for g in q.src]


def unique_positions(b, t):
    return [q.at[b](zi(t)) for q in cx.__dict__.get("uniqs", []) if b < len(q.at)]


def np_unique(x, **kw):
    if kw:
        raise Unsupported("np.unique keywords")
    d, f = domfn(x)
    if any(b.k > 1 or b.guard is not None for b in d.blocks):
        raise Unsupported("np.unique of a composite vector")
    for pt, _ in d.pts():
        with hyp(d.present(pt)):
            v = f(pt)
            if not (isinstance(v, V) or is_num(v)) or not entails(b_not(num(v).nan)):
                raise Unsupported("np.unique of values that may be missing")
    q = Uniq(d, f)
    r = Arr([Dom([Block((q.U,))])], lambda pt: V(False, q.u(zi(pt[1][0]))))
    r.ascending = True
    return r


def constant_of(dom, fn):
    """The value of a vector all of whose elements are the same expression, or None."""
    if len(dom.blocks) != 1:
        return None
    bl = dom.blocks[0]
    q = [freshint("cv") for _ in bl.sizes]
    with hyp(bl.present(q)):
        v = fn((0, tuple(q)))
    if isinstance(v, (int, float)) or v is None:
        return v
    if isinstance(v, V) and isinstance(v.nan, bool) and v.v is not None and not any(contains(v.v, x) for x in q):
        return v
    return None


def bag_elementwise(f, *xs):
    b = next(x for x in xs if isinstance(x, Bag))
    gs = []
    for x in xs:
        if isinstance(x, Bag):
            if x.tok != b.tok:
                raise Unsupported("operation on differently sorted vectors")
            gs.append(x.fn)
        elif isinstance(x, (Arr, Series)):
            c = constant_of(x.dom, x.fn)
            if c is None or not entails(zi(x.dom.size()) == zi(b.dom.size())):
                raise Unsupported("operation on a sorted and an unsorted vector")
            gs.append(lambda pt, c=c: c)
        elif is_num(x):
            gs.append(lambda pt, x=x: x)
        else:
            raise Unsupported("operation on a sorted vector")
    return Bag(b.dom, lambda pt: f(*[g(pt) for g in gs]), b.tok, False)


def bag_getitem(b, key):
    if isinstance(key, tuple) and len(key) == 1:
        key = key[0]
    if isinstance(key, int) and key in (0, -1) and b.whole:
        return red_ext("min" if key == 0 else "max", b.dom, b.fn)
    if isinstance(key, Bag) and key.tok == b.tok:
        return bag_filter(b, key.fn, b.tok)
    if isinstance(key, BagWhere) and key.tok == b.tok:
        return bag_filter(b, key.mask, b.tok)
    raise Unsupported("indexing of a sorted vector")


def bag_filter(b, mask, tok):
    nd, back = filter_dom(b.dom, lambda pt: boolv(mask(pt)))
    fn = b.fn
    return Bag(nd, lambda pt: fn(back(pt)), (tok, id(mask)), b.whole)


def where_getitem(a, key):
    """Constant vector indexed by the selected positions of a sorted one."""
    c = constant_of(a.dom, a.fn)
    if c is None:
        raise Unsupported("unsorted vector indexed by positions of a sorted one")
    b = key.base
    if not entails(zi(a.dom.size()) == zi(b.dom.size())):
        raise Unsupported("sizes differ")
    return bag_filter(Bag(b.dom, lambda pt: c, b.tok, False), key.mask, b.tok)


BAG = {"size": lambda a: a.dom.size(), "shape": lambda a: (a.dom.size(),), "ndim": lambda a: 1}
BAG_M = {
    "sum": lambda a, **kw: red_sum(a.dom, a.fn, False),
    "mean": lambda a, **kw: red_mean(a.dom, a.fn, False),
    "min": lambda a, **kw: red_ext("min", a.dom, a.fn),
    "max": lambda a, **kw: red_ext("max", a.dom, a.fn),
    "any": lambda a, **kw: red_all(a.dom, a.fn, "any"),
    "all": lambda a, **kw: red_all(a.dom, a.fn, "all"),
    "prod": lambda a, **kw: (lambda fn, bl: V(False, reduce_block("prod", bl, lambda *ps: (nonnan(fn((0, ps))), zero_nan(fn((0, ps)))))))(a.fn, a.dom.blocks[0]),
    "astype": lambda a, t, **kw: (lambda n: bag_elementwise(lambda x: astype_val(n, x), a))(dtype_name(t)),
    "copy": lambda a: a,
}


# ------------------------------------------------------------------ elementwise
def elementwise(f, *xs):
    """Apply f to scalars / broadcast containers (with label alignment for pandas objects)."""
    if any(isinstance(x, Bag) for x in xs):
        return bag_elementwise(f, *xs)
    if any(isinstance(x, DF) for x in xs):
        return df_elementwise(f, *xs)
    sers = [x for x in xs if isinstance(x, Series)]
    if sers:
        dom = sers[0].dom
        fns = [s.fn for s in sers]
        name = sers[0].name if all(s.name == sers[0].name if not isinstance(s.name, (Lab, SStr)) and not isinstance(sers[0].name, (Lab, SStr))
                                   else s.name is sers[0].name for s in sers) else None
        if len(sers) == 2:
            dom, f0, f1 = align(sers[0], sers[1])
            fns = [f0, f1]
        elif len(sers) > 2:
            raise Unsupported("three-way alignment")
        it = iter(fns)
        gs = []
        for x in xs:
            if isinstance(x, Series):
                gs.append(next(it))
            elif isinstance(x, (Arr, Index, SList, Seq, list, tuple)):
                d, g = domfn(x)
                gs.append(transfer(d, g, dom))
            else:
                gs.append(lambda pt, x=x: x)
        return Series(dom, lambda pt: f(*[g(pt) for g in gs]), name)
    arrs = [x for x in xs if isinstance(x, (Arr, Index))]
    if arrs:
        if any(isinstance(x, Arr) and len(x.doms) == 2 for x in arrs):
            a = next(x for x in arrs if isinstance(x, Arr) and len(x.doms) == 2)
            gs = []
            for x in xs:
                if isinstance(x, Arr) and len(x.doms) == 2:
                    if not all(same_shape(p, q) for p, q in zip(x.doms, a.doms)):
                        raise Unsupported("2-d broadcast")
                    gs.append(x.fn)
                elif isinstance(x, (Arr, Index)):
                    raise Unsupported("mixed broadcast")
                else:
                    gs.append(lambda *pt, x=x: x)
            return Arr(a.doms, lambda r, c: f(*[g(r, c) for g in gs]))
        d0 = arrs[0].dom
        one = None
        for x in arrs[1:]:
            s = x.dom.size()
            if isinstance(d0.size(), int) and d0.size() == 1 and not (isinstance(s, int) and s == 1):
                raise Unsupported("broadcast")
        gs = []
        for x in xs:
            if isinstance(x, (Arr, Index)):
                gs.append(transfer(x.dom, x.fn, d0))
            elif isinstance(x, (SList, Seq, list, tuple)):
                d, g = domfn(x)
                gs.append(transfer(d, g, d0))
            else:
                gs.append(lambda pt, x=x: x)
        if all(isinstance(x, Index) or not isinstance(x, Arr) for x in xs) and any(isinstance(x, Index) for x in xs):
            return IndexOf(plain(d0), lambda pt: f(*[g(pt) for g in gs]))
        return Arr([plain(d0)], lambda pt: f(*[g(pt) for g in gs]))
    return f(*xs)


def owned(ix, obj, attr):
    ix.owner = (obj, attr)
    return ix


def IndexOf(dom, fn, name=None):
    """Index whose labels are fn(pt)."""
    blocks = [Block(b.sizes, (lambda *ps, k=k: fn((k, tuple(ps)))), b.guard, b.order) for k, b in enumerate(dom.blocks)]
    return Index(Dom(blocks, name))


def df_elementwise(f, *xs):
    dfs = [x for x in xs if isinstance(x, DF)]
    rows, cols = dfs[0].rows, dfs[0].cols
    cells = [d.cell for d in dfs]
    if len(dfs) == 2:
        a, b = dfs
        rows, ra, rb = align_axis(a.rows, b.rows)
        cols, ca, cb = align_axis(a.cols, b.cols)
        cells = [(lambda r, c, x=a, m=ra, n=ca, cell=a.cell: at2(m, n, r, c, cell)),
                 (lambda r, c, x=b, m=rb, n=cb, cell=b.cell: at2(m, n, r, c, cell))]
    elif len(dfs) > 2:
        raise Unsupported("three-way alignment")
    it = iter(cells)
    gs = []
    for x in xs:
        if isinstance(x, DF):
            gs.append(next(it))
        elif isinstance(x, Series):       # aligned with the columns
            if same_labels(x.dom, cols) is True:
                gs.append(lambda r, c, g=x.fn: g(c))
            else:
                gs.append(lambda r, c, x=x, g=x.fn, d=x.dom: lookup(d, cols.lab(c), g, lambda: NAN))
                u = union_labels(x.dom, cols)
                if u is not cols:
                    raise Unsupported("frame and series alignment adds columns")
        elif isinstance(x, Arr) and len(x.doms) == 2:
            if not (same_shape(x.doms[0], rows) and same_shape(x.doms[1], cols)):
                raise Unsupported("array shape")
            gs.append(x.fn)
        elif isinstance(x, (Arr, SList, Index, Seq)):
            raise Unsupported("frame and 1-d array")
        else:
            gs.append(lambda r, c, x=x: x)
    return DF(rows, cols, lambda r, c: f(*[g(r, c) for g in gs]))


def align_axis(a, b):
    """(dom, map to a, map to b); a map gives [(cond, pt)] candidates or a point."""
    if same_labels(a, b) is True:
        return a, None, None
    d = union_labels(a, b)
    return d, (None if d is a else (lambda pt: locate(a, d.lab(pt)))), (None if d is b else (lambda pt: locate(b, d.lab(pt))))


def at2(m, n, r, c, cell):
    rs = [(True, r)] if m is None else m(r)
    cs = [(True, c)] if n is None else n(c)

    def go(i, j):
        if i == len(rs):
            return NAN
        if j == len(cs):
            return go(i + 1, 0)
        return ite(b_and(rs[i][0], cs[j][0]), lambda: cell(rs[i][1], cs[j][1]), lambda: go(i, j + 1))
    return go(0, 0)


def binop(op, a, b):
    if is_container(a) or is_container(b):
        if op == "+" and isinstance(a, SList) and isinstance(b, SList):
            return SList(a.parts + b.parts)
        return elementwise(lambda x, y: s_bin(op, x, y), a, b)
    if isinstance(a, SList) or isinstance(b, SList):
        if op == "+" and isinstance(a, SList) and isinstance(b, SList):
            return SList(a.parts + b.parts)
        if op == "*" and isinstance(a, SList) and isinstance(b, int):
            return SList(a.parts * b)
    if isinstance(a, tuple) and isinstance(b, tuple) and op == "+":
        return a + b
    if isinstance(a, str) and op == "%":
        return SStr("fmt", (a, b))
    return s_bin(op, a, b)


def is_container(x):
    return isinstance(x, (Series, DF, Arr, Index, Bag))


def cmpop(op, a, b):
    if is_container(a) or is_container(b):
        if isinstance(a, Index):
            a = Arr([plain(a.dom)], a.fn)
        if isinstance(b, Index):
            b = Arr([plain(b.dom)], b.fn)
        return elementwise(lambda x, y: s_cmp(op, x, y), a, b)
    if isinstance(a, SList) or isinstance(b, SList):
        la, lb = as_list(a), as_list(b)
        if la is not None and lb is not None and op in ("==", "!="):
            e = len(la) == len(lb) and b_and(*[s_eq(x, y) for x, y in zip(la, lb)])
            return e if op == "==" else b_not(e)
        raise Unsupported("list comparison")
    if isinstance(a, PySet) or isinstance(b, PySet):
        return set_cmp(op, a, b)
    return s_cmp(op, a, b)


class PySet:
    def __init__(self, dom, fn):
        self.dom, self.fn = dom, fn


def set_cmp(op, a, b):
    if op not in ("==", "!=") or not (isinstance(a, PySet) and isinstance(b, PySet)):
        raise Unsupported("set comparison")

    def sub(x, y):
        conds = []
        for k, bl in enumerate(x.dom.blocks):
            ps = [freshint("se") for _ in bl.sizes]
            with hyp(bl.present(ps)):
                v = x.fn((k, tuple(ps)))
                ydom = Dom([Block(q.sizes, (lambda *pp, kk=kk: y.fn((kk, tuple(pp)))), q.guard, q.order) for kk, q in enumerate(y.dom.blocks)])
                c = b_or(*[c for c, _ in locate(ydom, v)])
                if not (c is True or (not isinstance(c, bool) and entails(c))):
                    return False
        return True
    def apart(x, y):
        """Some element of x is certainly not one of y."""
        for k, bl in enumerate(x.dom.blocks):
            for ps in ([0] * bl.k, [sz(zi(s) - 1) for s in bl.sizes]):
                if not entails(zb(bl.present(ps))):
                    continue
                v = x.fn((k, tuple(ps)))
                ydom = Dom([Block(q.sizes, (lambda *pp, kk=kk: y.fn((kk, tuple(pp)))), q.guard, q.order) for kk, q in enumerate(y.dom.blocks)])
                c = b_or(*[c for c, _ in locate(ydom, v)])
                if c is False or (not isinstance(c, bool) and entails(z3.Not(c))):
                    return True
        return False
    r = sub(a, b) and sub(b, a)
    if not r and not (apart(a, b) or apart(b, a)):
        raise Unsupported("sets not provably equal")
    return r if op == "==" else not r


def logic(op, a, b):
    f = {"and": b_and, "or": b_or}[op]
    if is_container(a) or is_container(b):
        return elementwise(lambda x, y: f(boolv(x), boolv(y)), a, b)
    return f(boolv(a), boolv(b))


def lnot(a):
    if is_container(a):
        return elementwise(lambda x: b_not(boolv(x)), a)
    return b_not(boolv(a))


def isnan_(x):
    if isinstance(x, (str, SStr, Lab)) or (is_int(x)):
        return False
    return s_isnan(x)


def np_isnan(x):
    if is_container(x):
        return elementwise(isnan_, x)
    return isnan_(x)


# ------------------------------------------------------------------ reductions
def nonnan(v):
    return b_not(isnan_(v))


def red_sum(dom, fn, skipna=True):
    total = None
    anynan = False
    for k, bl in enumerate(dom.blocks):
        if bl.k == 0:
            v = fn((k, ()))
            if not (is_num(v) or v is None):
                return Opaque("sum of non-numbers")
            x = num(v)
            if x.v is None:
                t = z3.RealVal(0)
            else:
                t = num(ite_val(b_not(x.nan), x.v, z3.RealVal(0))).v
            anynan = b_or(anynan, x.nan)
        else:
            q = [freshint("rs") for _ in bl.sizes]
            with hyp(bl.present(q)):
                v = fn((k, tuple(q)))
                if not (is_num(v) or v is None):
                    return Opaque("sum of non-numbers")
                if not skipna and not entails_nonnan(v):
                    anynan = b_or(anynan, exists_nan(bl, lambda *ps, k=k: fn((k, tuple(ps)))))
            c = v if isinstance(v, (int, float)) and not isinstance(v, bool) and v == v else None
            if c is not None:
                t = rv(c) * z3.ToReal(zi(red_count(Dom([bl]), lambda pt, k=k: fn((k, pt[1])))))
                total = t if total is None else total + t
                continue
            t = reduce_block("sum", bl, lambda *ps, k=k: (nonnan(fn((k, ps))), zero_nan(fn((k, ps)))))
        total = t if total is None else total + t
    if total is None:
        total = z3.RealVal(0)
    return V(anynan if not skipna else False, simp_real(total))


def exists_nan(bl, f):
    if bl.k != 1:
        raise Unsupported("NaN test over several parameters")
    return exists(lambda q: b_and(True if bl.guard is None else bl.guard(q), isnan_(f(q))), 0, bl.sizes[0])


def simp_real(t):
    return t


def zero_nan(v):
    x = num(v)
    return V(x.nan, x.v) if x.v is not None else V(True, z3.RealVal(0))


def entails_nonnan(v):
    n = isnan_(v)
    return n is False or (not isinstance(n, bool) and entails(z3.Not(n)))


def red_count(dom, fn):
    """Number of non-missing values, as an Int."""
    total = None
    for k, bl in enumerate(dom.blocks):
        if bl.k == 0:
            g = nonnan(fn((k, ())))
            t = 1 if g is True else 0 if g is False else z3.If(g, 1, 0)
        else:
            t = count_of(bl, lambda *ps, k=k: nonnan(fn((k, ps))))
        total = t if total is None else total + t
    return sz(total) if total is not None else 0


def red_mean(dom, fn, skipna=True):
    s = red_sum(dom, fn, skipna)
    if isinstance(s, Opaque):
        return s
    n = red_count(dom, fn) if skipna else dom.size()
    nz = simp(zi(n) > 0)
    x = core.s_div(V(b_or(s.nan, b_not(nz)), s.v), num(n))
    return x


def red_ext(kind, dom, fn):
    """min / max over the non-missing values (numbers or labels)."""
    if len(dom.blocks) == 1 and dom.blocks[0].k == 1:
        bl = dom.blocks[0]
        q = freshint("mx")
        with hyp(bl.present([q])):
            v = fn((0, (q,)))
        if isinstance(v, Lab) and v.base in bl.onto:
            return Lab(v.base, 0 if kind == "min" else sz(zi(v.base.size) - 1))
        if isinstance(v, Lab) or (is_int(v) and isz(v)):
            # monotone integer expression of the parameter over an interval
            f = lambda *ps: fn((0, tuple(ps)))
            c = coef(bl, f, 0)
            iv = interval(lambda p: (True if bl.guard is None else bl.guard(p)), 0, bl.sizes[0])
            if c is not None and iv is not None:
                L, H = iv
                if not entails(zi(L) < zi(H)):
                    raise Unsupported("min/max of a possibly empty range")
                first = (kind == "min") == (c > 0)
                return f(sz(L) if first else sz(zi(H) - 1))
            if not contains(zi(v.pos) if isinstance(v, Lab) else v, q):
                return v
    if len(dom.blocks) == 1 and dom.blocks[0].k > 1:
        bl = dom.blocks[0]
        f = lambda *ps: fn((0, tuple(ps)))
        for k in range(bl.k):
            c = coef(bl, f, k)
            if c is not None:
                # extreme of one parameter: attained when some present point has it
                end = (kind == "min") == (c > 0)
                v = sz(0 if end else zi(bl.sizes[k]) - 1)
                ps = [freshint("mm") for _ in bl.sizes]
                ps[k] = v
                others = [i for i in range(bl.k) if i != k]
                if bl.guard is not None and k not in bl.onto:
                    # witness: the other parameters at 0 or at the end
                    ok = False
                    for pick in ((0,) * len(others), tuple(sz(zi(bl.sizes[i]) - 1) for i in others)):
                        qs = list(ps)
                        for i, w in zip(others, pick):
                            qs[i] = w
                        if entails(zb(bl.guard(*qs))):
                            ok = True
                    if not ok:
                        raise Unsupported("extreme label of a filtered domain")
                qs = [0] * bl.k
                qs[k] = v
                return f(*qs)
    vals = []
    for k, bl in enumerate(dom.blocks):
        if bl.k == 0:
            vals.append(fn((k, ())))
    if len(vals) == len(dom.blocks) and vals and all(isinstance(v, (int, float)) for v in vals):
        return min(vals) if kind == "min" else max(vals)
    if len(vals) == len(dom.blocks) and vals:
        r = vals[0]
        for v in vals[1:]:
            c = s_cmp("<" if kind == "min" else ">", v, r)
            r = ite_val(zb(c) if not isinstance(c, bool) else c, v, r)
        return r
    if len(dom.blocks) == 1 and dom.blocks[0].k == 1:
        bl = dom.blocks[0]
        t = reduce_block(kind, bl, lambda *ps: (nonnan(fn((0, ps))), zero_nan(fn((0, ps)))))
        n = red_count(dom, fn)
        return V(False if entails(zi(n) >= 1) else simp(zi(n) == 0), t)
    raise Unsupported("{} of this value".format(kind))


def red_all(dom, fn, kind):
    res = kind == "all"
    for k, bl in enumerate(dom.blocks):
        if bl.k == 0:
            t = boolv(fn((k, ())))
        elif bl.k == 1:
            g = lambda q, k=k, bl=bl: (True if bl.guard is None else bl.guard(q))
            if kind == "all":
                t = b_not(exists(lambda q: b_and(g(q), b_not(boolv(fn((k, (q,)))))), 0, bl.sizes[0]))
            else:
                t = exists(lambda q: b_and(g(q), boolv(fn((k, (q,))))), 0, bl.sizes[0])
        else:
            raise Unsupported("any/all over several parameters")
        res = b_and(res, t) if kind == "all" else b_or(res, t)
    return res


def red_std(dom, fn, ddof=1):
    """Sample variance via sums; sqrt uninterpreted."""
    n = red_count(dom, fn)
    m = red_mean(dom, fn)
    ss = red_sum(dom, lambda pt: s_bin("**", s_bin("-", fn(pt), m), 2))
    core.trust("std: computed as sqrt(sum((x-mean)^2)/(n-ddof))")
    if ss.v is not None and isz(ss.v) and ss.v.get_id() in cx.aggs:
        cx.axioms.append(ss.v >= 0)            # a sum of squares
    var = core.s_div(V(simp(zi(n) <= ddof), ss.v), num(sz(zi(n) - ddof)))
    if var.v is not None and isz(ss.v) and ss.v.get_id() in cx.aggs:
        cx.axioms.append(z3.simplify(z3.Implies(zi(n) > ddof, 0 <= var.v)))
        cx.__dict__.setdefault("nonneg", set()).add(z3.simplify(var.v).get_id())
        cx.keep.append(z3.simplify(var.v))
    return var


_evd = [0]


def irregular_extreme(dom, bl, fn, last):
    """The last (first) present position of a column with gaps: an end that is present and beyond which nothing is."""
    g = lambda q: zb(b_and(True if bl.guard is None else bl.guard(q), nonnan(fn((0, (q,))))))
    q = z3.Int("ev!q{}".format(_evd[0]))
    _evd[0] += 1
    try:
        with hyp(q >= 0, q < zi(bl.sizes[0])):
            e = g(q)
        # the hypotheses about the constants of this column suffice
        ok = set(core.consts_of(e)) | set(core.consts_of(zi(bl.sizes[0])))
        hy = [h for h in cx.hyps if all(x.num_args() or i in ok for i, x in core.consts_of(h).items())]
        key = ("irregular", e.get_id(), last, tuple(sorted(h.get_id() for h in hy)))
        if key not in cx.cache:
            save, cx.hyps = cx.hyps, hy
            try:
                cx.cache[key] = (irregular_search(bl, g, e, q, last), e, hy)
            finally:
                cx.hyps = save
        t = cx.cache[key][0]
        if t is None and len(hy) < len(cx.hyps):
            key = ("irregular", e.get_id(), last, tuple(h.get_id() for h in cx.hyps))
            if key not in cx.cache:
                cx.cache[key] = (irregular_search(bl, g, e, q, last), e, list(cx.hyps))
            t = cx.cache[key][0]
    finally:
        _evd[0] -= 1
    if t is None:
        if __import__("os").environ.get("DVX"):
            print("IRR", e, hy, cx.hyps)
        raise Unsupported("last valid index of an irregular column")
    return dom.lab((0, (sz(t),)))


def irregular_search(bl, g, e, q, last):
    facts = lambda *es: [f for y in es for x in core.consts_of(y).values() if x.num_args() and x.decl().name() in cx.termfacts
                         for f in cx.termfacts[x.decl().name()](*x.children())]
    atoms = facts(e) + [e]
    cands = {}
    for a in atoms:
        for t in model.linear_ends(a, q):
            cands[t.get_id()] = t
    inr = lambda t: z3.And(zi(t) >= 0, zi(t) < zi(bl.sizes[0]))
    for t in cands.values():
        beyond = z3.And(e, inr(q), q > t if last else q < t)
        if core._check(list(cx.hyps) + cx.axioms + facts(e) + [beyond], 1500)[0] != z3.unsat:
            continue
        here = g(t)
        if core._check(list(cx.hyps) + cx.axioms + facts(here) + [z3.Not(z3.And(here, inr(t)))], 1500)[0] == z3.unsat:
            return t
    return None


def extreme_valid(dom, fn, last):
    """last_valid_index / first_valid_index."""
    res = None
    if len(dom.blocks) == 1 and dom.blocks[0].k == 1:
        bl = dom.blocks[0]
        iv = interval(lambda q: b_and(True if bl.guard is None else bl.guard(q), nonnan(fn((0, (q,))))), 0, bl.sizes[0])
        if iv is None:
            return irregular_extreme(dom, bl, fn, last)
        L, H = iv
        if entails(zi(L) < zi(H)):
            return dom.lab((0, (sz(zi(H) - 1) if last else sz(L),)))
        if entails(zi(L) >= zi(H)):
            return None
        raise Unsupported("column may be entirely missing")
    raise Unsupported("last valid index of a composite axis")


def prefix(kind, dom, fn, propagate):
    """cumsum / cumprod.  propagate: numpy NaN semantics (else pandas skipna)."""
    bl = dom.single()
    q = freshint("cp")
    with hyp(bl.inrange([q])):
        clean = entails_nonnan(fn((0, (q,))))
    k = "sum" if kind == "cumsum" else "prod"

    def f(pt):
        p = pt[1][0]
        t = aggregate(k, 0, sz(zi(p) + 1), lambda w: (nonnan(fn((0, (w,)))), zero_nan(fn((0, (w,))))))
        if clean:
            return V(False, t)
        if propagate:
            return V(exists(lambda w: isnan_(fn((0, (w,)))), 0, sz(zi(p) + 1)), t)
        return V(isnan_(fn(pt)), t)
    return f


# ------------------------------------------------------------------ Series
def s_values(s):
    a = Arr([plain(s.dom)], s.fn)
    if getattr(s, "src", None) is not None and s.src[2] is s.fn:
        a.src = s.src[:2]
    return a


def from_listlike(x):
    d, f = domfn(x)
    return d, f


def make_series(data=None, index=None, name=None, dtype=None, copy=None):
    idx = None
    if index is not None:
        idx = to_dom(index)
    if isinstance(data, PyDict):
        d = Dom([const_block(k) for k in data.d])
        vals = list(data.d.values())
        data = Series(d, lambda pt: vals[pt[0]])
    if data is None:
        if idx is None:
            return Series(Dom([]), lambda pt: NAN, name)
        return Series(idx, lambda pt: NAN, name)
    if isinstance(data, Series):
        fn, d = data.fn, data.dom
        if idx is None or same_labels(idx, d) is True:
            return Series(d if idx is None else idx, fn, name if name is not None else data.name)
        return Series(idx, lambda pt: lookup(d, idx.lab(pt), fn, lambda: NAN), name if name is not None else data.name)
    if isinstance(data, Index):
        d = idx if idx is not None else positional_dom(data.dom)
        return Series(d, transfer(data.dom, data.fn, d), name)
    if isinstance(data, (Arr, SList, Seq, list, tuple, range)):
        d0, f0 = domfn(data)
        if dtype == "float":
            f0 = floatify(f0)
        if idx is None:
            return Series(positional_dom(d0), f0, name)
        return Series(idx, transfer(d0, f0, idx), name)
    if idx is None:
        raise Unsupported("Series from a scalar without index")
    return Series(idx, lambda pt: data, name)


def floatify(f):
    return lambda pt: num(f(pt))


def positional_dom(d):
    """Same shape, RangeIndex labels."""
    if len(d.blocks) == 1:
        return Dom([b.with_(lab=None) for b in d.blocks])
    if d.positional():
        # labels are the running positions
        dd = plain(d)
        return dd
    return plain(d)


def to_dom(index):
    if isinstance(index, Dom):
        return index
    if isinstance(index, Index):
        return index.dom
    if isinstance(index, Series):
        f = index.fn
        return Dom([Block(b.sizes, (lambda *ps, k=k: f((k, tuple(ps)))), b.guard, b.order) for k, b in enumerate(index.dom.blocks)], index.name)
    if isinstance(index, range):
        return range_dom(len(index), index.start) if index.step == 1 else Dom([const_block(i) for i in index])
    if isinstance(index, SymRange):
        return index.dom()
    d, f = domfn(index)
    return Dom([Block(b.sizes, (lambda *ps, k=k: f((k, tuple(ps)))), b.guard, b.order) for k, b in enumerate(d.blocks)])


class SymRange(Seq):
    """range(start, stop, step) with a symbolic bound and step +-1."""
    def __init__(self, start, stop, step=1):
        self.start, self.stop, self.step = start, stop, step
        n = sz(zi(stop) - zi(start)) if step == 1 else sz(zi(start) - zi(stop))
        if not entails(zi(n) >= 0):
            n = sz(z3.If(zi(n) > 0, zi(n), z3.IntVal(0))) if decide(zi(n) >= 0) is None else 0
        Seq.__init__(self, n, lambda k: sz(zi(start) + zi(k)) if step == 1 else sz(zi(start) - zi(k)))

    def dom(self):
        at = self.at
        return Dom([Block((self.size,), lambda p: at(p))])


def series_sort_index(s, **kw):
    if kw.get("ascending", True) is not True:
        raise Unsupported("descending sort_index")
    d, f = coalesced(s.dom, s.fn)
    dom = d
    nd, back = sort_dom(d, [lambda pt: dom.lab(pt)])
    return Series(nd, lambda pt: f(back(pt)), s.name)


def series_getitem(s, key):
    if isinstance(key, slice):
        if is_labelish(key.start) or is_labelish(key.stop):
            raise Unsupported("label slice")
        return series_iloc(s, key)
    if isinstance(key, Series) and bool_series(key):
        return series_filter(s, key)
    if isinstance(key, Arr) and bool_series(key):
        return series_filter(s, key)
    if isinstance(key, (Index, SList, Series, Arr)):
        kd, kf = domfn(key)
        fn, dom = s.fn, s.dom
        lab = to_dom(key) if not isinstance(key, Index) else key.dom
        # every label must be present (KeyError otherwise)
        for k, bl in enumerate(kd.blocks):
            ps = [freshint("gi") for _ in bl.sizes]
            with hyp(bl.present(ps)):
                c = b_or(*[c for c, _ in locate(dom, lab.lab((k, tuple(ps))))])
                if not (c is True or (not isinstance(c, bool) and entails(c))):
                    raise Unsupported("label list may be absent")
        return Series(lab, lambda pt: lookup(dom, lab.lab(pt), fn, lambda: NAN), s.name)
    return s.fn(find(s.dom, key))


def is_labelish(x):
    return isinstance(x, (Lab, str, SStr))


def bool_series(k):
    d = k.dom
    for b, bl in enumerate(d.blocks):
        ps = [freshint("bs") for _ in bl.sizes]
        with hyp(bl.present(ps)):
            try:
                v = k.fn((b, tuple(ps)))
            except Unsupported:
                raise
        return is_boolish(v)
    return True


def series_filter(s, mask):
    fn = s.fn
    if isinstance(mask, Series):
        if same_labels(s.dom, mask.dom) is True:
            mf = mask.fn
        else:
            md, mfn = mask.dom, mask.fn
            union = union_labels(md, s.dom)
            mf = lambda pt, sd=s.dom: lookup(md, sd.lab(pt), mfn, lambda: False)
    else:
        mf = transfer(mask.dom, mask.fn, s.dom)
    nd, back = filter_dom(s.dom, lambda pt: boolv(mf(pt)))
    return Series(nd, lambda pt: fn(back(pt)), s.name)


def series_iloc(s, key):
    fn = s.fn
    if isinstance(key, slice):
        if key.step is not None and key.step != 1:
            if key.step == -1 and key.start is None and key.stop is None:
                d, back = reverse_dom(s.dom)
                return Series(d, lambda pt: fn(back(pt)), s.name)
            raise Unsupported("slice step")
        lo, hi = norm_slice(s.dom.size(), key.start, key.stop)
        d, back = slice_dom(s.dom, lo, hi)
        return Series(d, lambda pt: fn(back(pt)), s.name)
    if isinstance(key, (SList, Arr)):
        ks = as_list(key)
        if ks is None:
            raise Unsupported("iloc with an array")
        p = [norm_pos(k, s.dom) for k in ks]
        labs = [s.dom.at(k, s.dom.lab) for k in p]
        vals = [s.dom.at(k, fn) for k in p]
        return Series(Dom([const_block(l) for l in labs]), lambda pt: vals[pt[0]], s.name)
    return s.dom.at(norm_pos(key, s.dom), fn)


def norm_pos(key, dom):
    k = toint(key)
    n = dom.size()
    c = decide(zi(k) >= 0)
    if c is None:
        c = branch(zi(k) >= 0)
    if not c:
        k = sz(zi(n) + zi(k))
        if not branch(zi(k) >= 0):
            raise PyRaise("IndexError")
    if not branch(zi(k) < zi(n)):
        raise PyRaise("IndexError")
    return k


def pt_eq(a, b):
    """Truth value: the same point."""
    if a[0] != b[0]:
        return False
    return b_and(*[simp(zi(x) == zi(y)) for x, y in zip(a[1], b[1])])


def series_set(s, key, val):
    """s[label] = val / s.loc[label] = val, with enlargement."""
    if isinstance(key, (Series, Arr)) and bool_series(key):
        mf = key.fn
        if isinstance(key, Series) and same_labels(key.dom, s.dom) is not True:
            raise Unsupported("mask alignment")
        s.update(lambda pt: boolv(mf(pt)), lambda pt: val)
        return
    if isinstance(key, (SList, slice)):
        raise Unsupported("assignment to a list of labels")
    for c, pt in locate(s.dom, key):
        if c is True or branch(c):
            s.update(lambda q: pt_eq(q, pt), lambda q: val)
            return
    structural(s, "enlargement of a Series")
    dom, fn, n = s.dom, s.fn, len(s.dom.blocks)
    s.dom = Dom(dom.blocks + [const_block(key)], dom.name)
    s.fn = lambda pt: val if pt[0] == n else fn(pt)


def series_set_iloc(s, key, val):
    if isinstance(key, slice):
        raise Unsupported("iloc slice assignment on a Series")
    p = norm_pos(key, s.dom)
    tgt = s.dom.point(p)
    s.update(lambda q: pt_eq(q, tgt), lambda q: val)


def series_to_frame(s, name=None):
    nm = name if name is not None else (s.name if s.name is not None else 0)
    fn = s.fn
    return DF(s.dom, Dom([const_block(nm)]), lambda r, c: fn(r))


def series_reset_index(s, drop=False, name=None, **kw):
    if drop:
        return Series(positional_dom(s.dom), s.fn, s.name)
    return df_reset_index(series_to_frame(s, name))


def series_map(s, f):
    fn = s.fn
    if isinstance(f, PyDict):
        items = list(f.d.items())

        def g(pt):
            x = fn(pt)

            def go(k):
                if k == len(items):
                    return NAN
                return ite(s_eq(x, items[k][0]), lambda: items[k][1], lambda: go(k + 1))
            return go(0)
        return Series(s.dom, g, s.name)
    if isinstance(f, Series):
        d, h = f.dom, f.fn
        return Series(s.dom, lambda pt: lookup(d, fn(pt), h, lambda: NAN), s.name)
    f = lazy(f)
    return Series(s.dom, lambda pt: mapcall(f, fn(pt)), s.name)


def replace_val(x, frm, to):
    if is_nan_const(frm):
        n = isnan_(x)
        return ite(n, lambda: to, lambda: x) if n is not False else x
    try:
        c = s_eq(x, frm)
    except Unsupported:
        raise
    return ite(c, lambda: to, lambda: x)


def series_fillna(s, v):
    if isinstance(v, Series):
        if same_labels(s.dom, v.dom) is True:
            f, g = s.fn, v.fn
            return Series(s.dom, lambda pt: replace_val(f(pt), NAN, g(pt)), s.name)
        raise Unsupported("fillna with other labels")
    if is_container(v):
        raise Unsupported("fillna with {}".format(type(v).__name__))
    return elementwise(lambda x: replace_val(x, NAN, v), s)


def df_fillna(d, v):
    if is_container(v) or isinstance(v, (DF, PyDict)):
        raise Unsupported("fillna with {}".format(type(v).__name__))
    return df_replace(d, NAN, v)


def series_rename(s, v):
    if not isinstance(v, str):
        raise Unsupported("Series.rename")
    return Series(s.dom, s.fn, v)


def is_nan_const(x):
    return (isinstance(x, V) and x.v is None) or (isinstance(x, float) and x != x)


def shift_many(bl, fn, k, fill):
    """Value one row before (k = 1) or after (k = -1) in a block of several parameters: the least significant parameter that
    can move by one does, the less significant ones restart at their other end."""
    def inside(d, pre, q):
        """Some row has these values of the d+1 most significant parameters."""
        if d == bl.k - 1:
            ps = [None] * bl.k
            for e, v in zip(bl.order, list(pre) + [q]):
                ps[e] = v
            return True if bl.guard is None else bl.guard(*ps)
        return exists(lambda r: inside(d + 1, list(pre) + [q], r), 0, bl.sizes[bl.order[d + 1]])

    def bounds(d, pre):
        iv = interval(lambda q: inside(d, pre, q), 0, bl.sizes[bl.order[d]])
        if iv is None:
            raise Unsupported("shift over rows with gaps")
        return iv

    def f(pt):
        vs = [pt[1][e] for e in bl.order]

        def moved(d):
            pre = vs[:d] + [sz(zi(vs[d]) - k)]
            for e in range(d + 1, bl.k):
                lo, hi = bounds(e, pre)
                pre = pre + [sz(zi(hi) - 1) if k == 1 else lo]
            ps = [None] * bl.k
            for e, v in zip(bl.order, pre):
                ps[e] = v
            return fn((0, tuple(ps)))

        def go(d):
            if d < 0:
                return fill
            lo, hi = bounds(d, vs[:d])
            can = simp(zi(vs[d]) > zi(lo)) if k == 1 else simp(zi(vs[d]) < zi(hi) - 1)
            return ite(can, lambda: moved(d), lambda: go(d - 1))
        return go(bl.k - 1)
    return f


def shift_fn(dom, fn, periods, fill=NAN):
    k = toint(periods)
    if len(dom.blocks) == 1 and (dom.blocks[0].k > 1 or dom.blocks[0].guard is not None) and isinstance(k, int) and abs(k) == 1:
        return shift_many(dom.blocks[0], fn, k, fill)
    bl = dom.single()

    def f(pt):
        p = sz(zi(pt[1][0]) - zi(k))
        return ite(b_and(simp(zi(p) >= 0), simp(zi(p) < zi(bl.sizes[0]))), lambda: fn((0, (p,))), lambda: fill)
    return f


def series_shift(s, periods=1, **kw):
    return Series(s.dom, shift_fn(s.dom, s.fn, periods), s.name)


def series_dropna(s, **kw):
    fn = s.fn
    nd, back = filter_dom(s.dom, lambda pt: nonnan(fn(pt)))
    return Series(nd, lambda pt: fn(back(pt)), s.name)


def series_item(s):
    n = s.dom.size()
    if not entails(zi(n) == 1):
        raise Unsupported("item() of a Series not provably of size one")
    # the unique row
    if len(s.dom.blocks) != 1:
        raise Unsupported("item() of a composite Series")
    bl = s.dom.blocks[0]
    if bl.k == 0:
        return s.fn((0, ()))
    if bl.k == 1 and bl.guard is None:
        return s.fn((0, (0,)))
    raise Unsupported("item()")


def series_reindex(s, index=None, fill_value=NAN, **kw):
    d = to_dom(index)
    fn, dom = s.fn, s.dom
    return Series(d, lambda pt: lookup(dom, d.lab(pt), fn, lambda: fill_value), s.name)


def astype_val(t, x):
    if t == "str":
        if isinstance(x, (str, SStr)):
            return x
        if isinstance(x, (Lab,)) or is_int(x):
            return SStr("label", (x,))
        return Opaque("text of a number")
    if t == "int":
        if isinstance(x, Lab) or is_int(x):
            return x
        if isinstance(x, V):
            y = z3.simplify(x.v) if x.v is not None else None
            if y is not None and y.decl().kind() == z3.Z3_OP_TO_REAL:
                return y.arg(0)
            if y is not None and x.nan is False and core.integral(y):
                return z3.ToInt(y)
            raise Unsupported("float to int conversion")
        if isinstance(x, float):
            return int(x)
        if isinstance(x, bool):
            return int(x)
        if isinstance(x, z3.BoolRef):
            return z3.If(x, z3.IntVal(1), z3.IntVal(0))
        raise Unsupported("int conversion of {!r}".format(x))
    if t == "float":
        if isinstance(x, (Lab,)):
            return x
        if is_int(x) or isinstance(x, V) or is_num(x) or x is None:
            return num(x)
        raise Unsupported("float conversion of {!r}".format(x))
    if t == "object":
        return x
    raise Unsupported("astype {}".format(t))


def dtype_name(t):
    t = getattr(t, "pyname", t)
    if t in ("int", "float", "str", "object", "bool"):
        return t
    if t in ("int64", "np.int64"):
        return "int"
    if t in ("float64", "np.float64"):
        return "float"
    raise Unsupported("dtype {}".format(t))


def series_rank(s, method="average", **kw):
    if method != "average":
        raise Unsupported("rank method")
    fn, dom = s.fn, s.dom
    bl = dom.single()

    def f(pt):
        x = num(fn(pt))
        less = aggregate("count", 0, bl.sizes[0], lambda w: (b_and(nonnan(fn((0, (w,)))), s_cmp("<", fn((0, (w,))), x)), 1))
        eq = aggregate("count", 0, bl.sizes[0], lambda w: (b_and(nonnan(fn((0, (w,)))), s_eq(fn((0, (w,))), x)), 1))
        return V(x.nan, less + (eq + 1) / 2)
    return Series(dom, f, s.name)


def value_counts(s, **kw):
    """Number of occurrences of each non-missing value."""
    if kw:
        raise Unsupported("value_counts options")
    return SObj("counts", dom=s.dom, fn=s.fn)


def counts_get(o, k, default):
    dom, fn = o.kw["dom"], o.kw["fn"]
    t = 0
    for b, bl in enumerate(dom.blocks):
        c = lambda *ps, b=b: b_and(nonnan(fn((b, tuple(ps)))), s_eq(fn((b, tuple(ps))), k))
        t = t + zi(model.count_of(bl, c))
    if isinstance(default, int) and default == 0:
        return t
    return ite(simp(t == 0), lambda: default, lambda: t)


def red_median(dom, fn):
    """Median as an uninterpreted function of the multiset: identified by its body."""
    bl = dom.single()
    core.trust("median is a function of the multiset of non-missing values (uninterpreted)")
    t = aggregate("median", 0, bl.sizes[0], lambda w: (nonnan(fn((0, (w,)))), zero_nan(fn((0, (w,))))))
    n = red_count(dom, fn)
    return V(simp(zi(n) == 0), t)


def np_percentile(a, q, axis=None, method="linear", interpolation=None, **kw):
    """A function of the multiset of values, the probability and the method (uninterpreted)."""
    if kw or axis is not None or not isinstance(a, (Arr, Series)) or len(getattr(a, "doms", (0,))) != 1:
        raise Unsupported("percentile")
    method = method if interpolation is None else interpolation
    dom, fn = a.dom, a.fn
    live = [b for b, bl in enumerate(dom.blocks) if not empty_block(bl)]
    if len(live) != 1:
        raise Unsupported("percentile of a composite array")
    b = live[0]
    full = run_of(dom.blocks[b])
    if full is None:
        raise Unsupported("percentile of a composite array")
    lo, m, full = full
    for pt, cond in [(pt, None) for pt, _ in dom.pts() if pt[0] == b]:
        with hyp(dom.present(pt)):
            if not entails(b_not(num(fn(pt)).nan)):
                raise Unsupported("percentile of an array with missing values")
    core.trust("np.percentile is a function of the multiset of values, the probability and the method (uninterpreted)")
    t = aggregate("values", lo, m, lambda w: (True, fn((b, full(w)))))
    if not isinstance(method, str):
        raise Unsupported("percentile method")
    return V(False, core.uf("percentile_" + method, 2)(t, num(q).v))


def run_of(bl):
    """(lo, hi, q -> parameters) of a block whose rows are those of one running parameter, the others being fixed."""
    fixed, free = {}, []
    for d in range(bl.k):
        def pred(q, d=d):
            if bl.guard is None:
                return True
            rest = [e for e in range(bl.k) if e != d]

            def some(k, got):
                if k == len(rest):
                    return bl.guard(*[q if e == d else got[e] for e in range(bl.k)])
                return exists(lambda r: some(k + 1, {**got, rest[k]: r}), 0, bl.sizes[rest[k]])
            return some(0, {})
        iv = interval(pred, 0, bl.sizes[d])
        if iv is None:
            return None
        if entails(zi(iv[1]) - zi(iv[0]) <= 1):
            fixed[d] = iv[0]
        else:
            free.append((d, iv))
    if len(free) > 1:
        return None
    if not free:
        return None
    d, (lo, hi) = free[0]
    # the guard is exactly: the fixed parameters have their values and the running one is in [lo, hi)
    ps = [freshint("ro") for _ in bl.sizes]
    with hyp(bl.inrange(ps)):
        want = b_and(*[simp(zi(ps[e]) == zi(v)) for e, v in fixed.items()], simp(zi(ps[d]) >= zi(lo)), simp(zi(ps[d]) < zi(hi)))
        have = True if bl.guard is None else bl.guard(*ps)
        if not entails(zb(want) == zb(have)):
            return None
    return lo, hi, lambda q: tuple(q if e == d else fixed[e] for e in range(bl.k))


def empty_block(bl):
    ps = [freshint("eb") for _ in bl.sizes]
    with hyp(*bl.here(ps)):
        return not core.feasible()


SERIES = {
    "values": s_values,
    "array": s_values,
    "index": lambda s: owned(Index(s.dom, s.dom.name), s, "dom"),
    "size": lambda s: s.dom.size(),
    "shape": lambda s: (s.dom.size(),),
    "T": lambda s: s,
    "empty": lambda s: simp(zi(s.dom.size()) == 0),
    "dtype": lambda s: Opaque("dtype"),
}

SERIES_M = {
    "unique": lambda s: ValueSet(s.dom, s.fn),
    "value_counts": value_counts,
    "copy": lambda s, deep=True: Series(s.dom, s.fn, s.name) if deep is True else _uns("shallow copy"),
    "astype": lambda s, t, **kw: (lambda fn, n: Series(s.dom, lambda pt: astype_val(n, fn(pt)), s.name))(s.fn, dtype_name(t)),
    "sort_index": series_sort_index,
    "sum": lambda s, axis=0, skipna=True, **kw: red_sum(s.dom, s.fn, skipna),
    "mean": lambda s, axis=0, **kw: red_mean(s.dom, s.fn),
    "count": lambda s: red_count(s.dom, s.fn),
    "min": lambda s, **kw: red_ext("min", s.dom, s.fn),
    "max": lambda s, **kw: red_ext("max", s.dom, s.fn),
    "median": lambda s, **kw: red_median(s.dom, s.fn),
    "std": lambda s, ddof=1, **kw: (lambda v: s_un("sqrt", v))(red_std(s.dom, s.fn, ddof)),
    "any": lambda s, **kw: red_all(s.dom, s.fn, "any"),
    "all": lambda s, **kw: red_all(s.dom, s.fn, "all"),
    "prod": lambda s, **kw: (lambda fn: V(False, reduce_block("prod", s.dom.single(), lambda *ps: (nonnan(fn((0, ps))), zero_nan(fn((0, ps)))))))(s.fn),
    "cumsum": lambda s, **kw: Series(s.dom, prefix("cumsum", s.dom, s.fn, False), s.name),
    "cumprod": lambda s, **kw: Series(s.dom, prefix("cumprod", s.dom, s.fn, False), s.name),
    "to_frame": series_to_frame,
    "reset_index": series_reset_index,
    "map": series_map,
    "apply": series_map,
    "isnull": lambda s: elementwise(isnan_, s),
    "isna": lambda s: elementwise(isnan_, s),
    "notnull": lambda s: elementwise(lambda x: b_not(isnan_(x)), s),
    "notna": lambda s: elementwise(lambda x: b_not(isnan_(x)), s),
    "dropna": series_dropna,
    "clip": lambda s, lower=None, upper=None: pd_clip(s, lower, upper),
    "where": lambda s, cond, other=NAN: pd_where(s, cond, other, True),
    "mask": lambda s, cond, other=NAN: pd_where(s, cond, other, False),
    "fillna": lambda s, v, **kw: series_fillna(s, v),
    "rename": lambda s, v=None, **kw: series_rename(s, v),
    "replace": lambda s, a, b: elementwise(lambda x: replace_val(x, a, b), s),
    "abs": lambda s: elementwise(lambda x: s_un("abs", x), s),
    "item": series_item,
    "tolist": lambda s: list_of(s),
    "to_list": lambda s: list_of(s),
    "shift": series_shift,
    "diff": lambda s, periods=1: binop("-", s, series_shift(s, periods)),
    "reindex": series_reindex,
    "get": lambda s, k, default=None: lookup(s.dom, k, s.fn, lambda: default),
    "last_valid_index": lambda s: extreme_valid(s.dom, s.fn, True),
    "first_valid_index": lambda s: extreme_valid(s.dom, s.fn, False),
    "rank": series_rank,
    "to_numpy": s_values,
    "head": lambda s, n=5: series_iloc(s, slice(None, n)),
    "tail": lambda s, n=5: series_iloc(s, slice(-n, None)),
    "squeeze": lambda s: s,
    "round": lambda s, *a: Opaque("round"),
}
for _n, _o in (("mul", "*"), ("multiply", "*"), ("div", "/"), ("divide", "/"), ("truediv", "/"), ("sub", "-"), ("subtract", "-"), ("add", "+"), ("pow", "**")):
    SERIES_M[_n] = lambda s, o, _o=_o, **kw: binop(_o, s, o) if not [k for k in kw if k not in ("axis",)] else _uns("arithmetic method keywords")
for _n, _o in (("lt", "<"), ("gt", ">"), ("le", "<="), ("ge", ">="), ("eq", "=="), ("ne", "!=")):
    SERIES_M[_n] = lambda s, o, _o=_o: cmpop(_o, s, o)


def _uns(w):
    raise Unsupported(w)


def list_of(x):
    d, f = domfn(x)
    parts = []
    for k, bl in enumerate(d.blocks):
        if bl.guard is not None or bl.k > 1:
            raise Unsupported("list of a filtered domain")
        if bl.k == 0:
            parts.append(("i", f((k, ()))))
        else:
            parts.append(("s", Seq(bl.sizes[0], lambda p, k=k: f((k, (p,))))))
    return SList(parts)


# ------------------------------------------------------------------ Index
def index_get_loc(ix, label):
    pt = find(ix.dom, label)
    return ix.dom.pos(pt)


def index_getitem(ix, key):
    if isinstance(key, slice):
        if key.step == -1 and key.start is None and key.stop is None:
            d, _ = reverse_dom(ix.dom)
            return Index(d, ix.name)
        if key.step not in (None, 1):
            raise Unsupported("index slice step")
        lo, hi = norm_slice(ix.dom.size(), key.start, key.stop)
        d, _ = slice_dom(ix.dom, lo, hi)
        return Index(d, ix.name)
    if isinstance(key, (Series, Arr)):
        mf = transfer(key.dom, key.fn, ix.dom)
        d, _ = filter_dom(ix.dom, lambda pt: boolv(mf(pt)))
        return Index(d, ix.name)
    return ix.dom.at(norm_pos(key, ix.dom), ix.dom.lab)


def index_searchsorted(ix, v, side="left", **kw):
    if side != "left":
        raise Unsupported("searchsorted side")
    bl = ix.dom.single()
    iv = interval(lambda q: s_cmp("<", ix.dom.lab((0, (q,))), v), 0, bl.sizes[0])
    if iv is None:
        raise Unsupported("searchsorted")
    return sz(zmaxi(iv[1], 0))


def zmaxi(a, b):
    return model.zmax(a, b)


INDEX = {
    "values": lambda ix: Arr([plain(ix.dom)], ix.fn),
    "size": lambda ix: ix.dom.size(),
    "shape": lambda ix: (ix.dom.size(),),
    "name": lambda ix: ix.name,
}
INDEX_M = {
    "get_loc": index_get_loc,
    "droplevel": lambda ix, level=0: index_droplevel(ix, level),
    "min": lambda ix, **kw: red_ext("min", ix.dom, ix.fn),
    "max": lambda ix, **kw: red_ext("max", ix.dom, ix.fn),
    "tolist": lambda ix: list_of(ix),
    "to_list": lambda ix: list_of(ix),
    "searchsorted": index_searchsorted,
    "astype": lambda ix, t: (lambda n: IndexOf(ix.dom, lambda pt: astype_val(n, ix.fn(pt)), ix.name))(dtype_name(t)),
    "copy": lambda ix, **kw: ix,
    "isin": lambda ix, other: (lambda d: Arr([plain(ix.dom)], lambda pt: contains_label(d, ix.fn(pt))))(to_dom(other)),
    "map": lambda ix, f: (lambda f: IndexOf(ix.dom, lambda pt: mapcall(f, ix.fn(pt)), ix.name))(lazy(f)),
    "to_series": lambda ix: Series(ix.dom, ix.fn, ix.name),
    "sort_values": lambda ix, **kw: (lambda r: Index(r[0], ix.name))(sort_dom(ix.dom, [ix.dom.lab])),
    "unique": lambda ix: index_unique(ix),
}


class ValueSet:
    """Distinct values of a vector in order of appearance: only membership is modelled."""
    def __init__(self, dom, fn):
        self.dom, self.fn = dom, fn


def occurs(xs, v):
    """Is some non-missing element equal to v?"""
    d, f = (xs.dom, xs.fn) if isinstance(xs, ValueSet) else domfn(xs)
    out = []
    for k, bl in enumerate(d.blocks):
        def here(*ps, k=k, bl=bl):
            x = f((k, tuple(ps)))
            return b_and(bl.present(list(ps)), nonnan(x) if isinstance(x, V) else True, s_eq(x, v))
        if bl.k == 0:
            out.append(here())
        elif bl.k == 1:
            out.append(model.exists(here, 0, bl.sizes[0]))
        else:
            raise Unsupported("membership in a composite vector")
    return b_or(*out)


def contains_label(dom, label):
    return b_or(*[c for c, _ in locate(dom, label)])


# ------------------------------------------------------------------ DataFrame
def df_from(data=None, index=None, columns=None, dtype=None, copy=None):
    if isinstance(data, DF):
        d = DF(data.rows, data.cols, data.cell)
        return d
    if data is None:
        r = to_dom(index) if index is not None else Dom([])
        c = to_dom(columns) if columns is not None else Dom([])
        return DF(r, c, lambda a, b: NAN)
    if isinstance(data, PyDict):
        names = list(data.d)
        vals = list(data.d.values())
        rows = to_dom(index) if index is not None else None
        fns = []
        for v in vals:
            if isinstance(v, Series):
                if rows is None:
                    rows = v.dom
                if same_labels(v.dom, rows) is True:
                    fns.append(v.fn)
                else:
                    fns.append(lambda pt, d=v.dom, f=v.fn: lookup(d, rows.lab(pt), f, lambda: NAN))
            elif isinstance(v, (Arr, SList, Seq, Index, range, list, tuple)):
                d, f = domfn(v)
                if rows is None:
                    rows = positional_dom(d)
                fns.append(transfer(d, f, rows))
            else:
                fns.append(lambda pt, v=v: v)
        if rows is None:
            raise Unsupported("DataFrame of scalars")
        return DF(rows, Dom([const_block(n) for n in names]), lambda r, c: fns[c[0]](r))
    if isinstance(data, Arr) and len(data.doms) == 2:
        rd, cd = data.doms
        r = to_dom(index) if index is not None else positional_dom(rd)
        c = to_dom(columns) if columns is not None else positional_dom(cd)
        if not (same_shape(rd, r) and same_shape(cd, c)):
            raise Unsupported("DataFrame shape")
        return DF(r, c, data.fn)
    if isinstance(data, (SList, Seq, list)):
        return df_records(data, index, columns)
    if (is_num(data) or is_int(data) or isinstance(data, V)) and index is not None and columns is not None:
        return DF(to_dom(index), to_dom(columns), lambda a, b: data)
    raise Unsupported("DataFrame from {!r}".format(data))


def df_records(data, index=None, columns=None):
    """DataFrame of a list of dicts with the same string keys."""
    d, f = domfn(data)
    names = None
    for b, bl in enumerate(d.blocks):
        ps = tuple(freshint("dr") for _ in bl.sizes)
        with hyp(bl.inrange(ps)):
            x = f((b, ps))
        if not isinstance(x, PyDict) or not all(isinstance(k, str) for k in x.d):
            raise Unsupported("DataFrame from a list of {!r}".format(type(x).__name__))
        if names is None:
            names = list(x.d)
        elif names != list(x.d):
            raise Unsupported("DataFrame from dicts with different keys")
    if names is None or index is not None or columns is not None:
        raise Unsupported("DataFrame from a list")
    r = positional_dom(d)
    fn = transfer(d, f, r)
    return DF(r, Dom([const_block(n) for n in names]), lambda p, c: fn(p).d[names[c[0]]])


def index_unique(ix):
    """Labels of one axis are distinct already."""
    if len(ix.dom.blocks) != 1 or ix.dom.blocks[0].k != 1 or ix.dom.blocks[0].lab is None:
        raise Unsupported("unique of an index that may repeat labels")
    a, b = freshint("ua"), freshint("ub")
    bl = ix.dom.blocks[0]
    with hyp(bl.present([a]), bl.present([b]), a < b):
        e = s_eq(bl.lab(a), bl.lab(b))
        if not (e is False or (not isinstance(e, bool) and entails(z3.Not(e)))):
            raise Unsupported("unique of an index that may repeat labels")
    return ix


def np_tile(x, reps):
    """Stack of copies of a table (or a vector)."""
    rs = list(reps) if isinstance(reps, tuple) else as_list(reps) if isinstance(reps, SList) else [reps]
    if not isinstance(x, DF) and not (isinstance(x, Arr) and len(x.doms) == 2):
        if len(rs) == 1:
            d, f = domfn(x)
            return Arr([tile_dom(d, rs[0])], lambda pt: f((pt[0], pt[1][1:])))
        raise Unsupported("np.tile")
    rows, cols, cell = (x.rows, x.cols, x.cell) if isinstance(x, DF) else (x.doms[0], x.doms[1], x.fn)
    if len(rs) != 2 or not (isinstance(rs[1], int) and rs[1] == 1):
        raise Unsupported("np.tile")
    return Arr([tile_dom(rows, rs[0]), plain(cols)], lambda r, c: cell((r[0], r[1][1:]), c))


def tile_dom(d, s):
    if len(d.blocks) != 1 or not is_int(s):
        raise Unsupported("np.tile")
    b = d.blocks[0]
    if not entails(zi(s) >= 0):
        raise Unsupported("np.tile")
    return Dom([Block((s,) + b.sizes, None, None if b.guard is None else (lambda q, *ps: b.guard(*ps)), (0,) + tuple(k + 1 for k in b.order))])


def np_divmod(a, b):
    return (elementwise(lambda x: s_bin("//", x, b), a), elementwise(lambda x: s_bin("%", x, b), a))


def df_col(df, label):
    pt = find(df.cols, label)
    s = df.col(pt, label)
    if isinstance(label, str):
        s.src = (df, label, s.fn)
    return s


def df_select(df, labels):
    """Sub-frame of a list-like of labels."""
    cell = df.cell
    ks = as_list(labels)
    if ks is not None:
        pts = [find(df.cols, k) for k in ks]
        return DF(df.rows, Dom([const_block(k) for k in ks], df.cols.name), lambda r, c: cell(r, pts[c[0]]))
    d = to_dom(labels)
    cols = df.cols
    check_present(cols, d)
    return DF(df.rows, d, lambda r, c: lookup(cols, d.lab(c), lambda q: cell(r, q), lambda: NAN))


def check_present(dom, d):
    for k, bl in enumerate(d.blocks):
        ps = [freshint("cp") for _ in bl.sizes]
        with hyp(bl.present(ps)):
            c = b_or(*[c for c, _ in locate(dom, d.lab((k, tuple(ps))))])
            if not (c is True or (not isinstance(c, bool) and entails(c))):
                raise Unsupported("label may be absent")


def df_filter(df, mask):
    cell = df.cell
    if isinstance(mask, Series):
        if same_labels(df.rows, mask.dom) is True or (same_shape(df.rows, mask.dom) and df.rows.blocks[0].lab is mask.dom.blocks[0].lab):
            mf = mask.fn
        else:
            raise Unsupported("mask alignment")
    else:
        mf = transfer(mask.dom, mask.fn, df.rows)
    nd, back = filter_dom(df.rows, lambda pt: boolv(mf(pt)))
    return DF(nd, df.cols, lambda r, c: cell(back(r), c))


def df_getitem(df, key):
    if isinstance(key, slice):
        return df_iloc(df, (key, SLICE_ALL))
    if isinstance(key, (Series, Arr)) and bool_series(key):
        return df_filter(df, key)
    if isinstance(key, DF):
        raise Unsupported("frame mask")
    if isinstance(key, (SList, Index, Series, Arr, Seq)):
        return df_select(df, key)
    return df_col(df, key)


def df_setcol(df, key, val):
    """df[key] = val."""
    if isinstance(key, SList):
        ks = as_list(key)
        if ks is None:
            raise Unsupported("column list")
        for k in ks:
            df_setcol(df, k, val)
        return
    f = column_values(df, val)
    for c, pt in locate(df.cols, key):
        if c is True or branch(c):
            df.update(lambda r, q: pt_eq(q, pt), lambda r, q: f(r), what="column assignment")
            return
    structural(df, "new column")
    n, cell = len(df.cols.blocks), df.cell
    df.cols = Dom(df.cols.blocks + [const_block(key)], df.cols.name)
    df.cell = lambda r, c: f(r) if c[0] == n else cell(r, c)


def column_values(df, val):
    rows = df.rows
    if isinstance(val, Series):
        if same_labels(val.dom, rows) is True:
            return val.fn
        if val.dom.blocks and rows.blocks and same_shape(val.dom, rows) and val.dom.blocks[0].lab is rows.blocks[0].lab:
            return val.fn
        d, f = val.dom, val.fn
        return lambda r: lookup(d, rows.lab(r), f, lambda: NAN)
    if isinstance(val, (Arr, SList, Seq, Index, range, list, tuple)):
        d, f = domfn(val)
        return transfer(d, f, rows)
    return lambda r: val


def df_reset_index(df, drop=False, **kw):
    if kw:
        raise Unsupported("reset_index keywords")
    rows, cell = df.rows, df.cell
    nd = positional_dom(rows)
    if drop:
        return DF(nd, df.cols, cell)
    name = rows.name if rows.name is not None else "index"
    cols = Dom([const_block(name)] + df.cols.blocks, df.cols.name)
    return DF(nd, cols, lambda r, c: rows.lab(r) if c[0] == 0 else cell(r, (c[0] - 1, c[1])))


def rename_label(lab, m):
    items = list(m.d.items())

    def go(k):
        if k == len(items):
            return lab
        return ite(s_eq(lab, items[k][0]), lambda: items[k][1], lambda: go(k + 1))
    return go(0)


def dom_rename(d, mapper):
    mapper = lazy(mapper)

    def blk(bl):
        if bl.lab is None:
            return bl
        lab = bl.lab
        if isinstance(mapper, PyDict):
            if all(isinstance(k, str) for k in mapper.d):
                q = [freshint("rn") for _ in bl.sizes]
                with hyp(bl.inrange(q)):
                    x = lab(*q)
                if not isinstance(x, (str, SStr)):
                    return bl
            return bl.with_(lab=lambda *ps: rename_label(lab(*ps), mapper))
        return bl.with_(lab=lambda *ps: mapcall(mapper, lab(*ps)))
    return Dom([blk(b) for b in d.blocks], d.name)


def axis_no(axis):
    """pandas axis argument -> 0 or 1 (anything else raises ValueError, as in pandas)."""
    if isinstance(axis, str):
        if axis in ("index", "rows"):
            return 0
        if axis == "columns":
            return 1
    elif isinstance(axis, int) and axis in (0, 1):
        return int(axis)
    elif axis is None or not isinstance(axis, int):
        raise Unsupported("axis {!r}".format(axis))
    raise PyRaise("ValueError", "No axis named {}".format(axis))


def df_rename(df, mapper=None, axis=None, columns=None, index=None, **kw):
    if kw:
        raise Unsupported("rename keywords")
    rows, cols = df.rows, df.cols
    if axis is not None:
        axis = axis_no(axis)
    if mapper is not None:
        if axis == 1:
            columns = mapper
        else:
            index = mapper
    if columns is not None:
        cols = dom_rename(cols, columns)
    if index is not None:
        rows = dom_rename(rows, index)
    return DF(rows, cols, df.cell)


def df_sort_index(df, axis=0, **kw):
    if axis_no(axis) != 0 or kw.get("ascending", True) is not True or set(kw) - {"ascending"}:
        raise Unsupported("sort_index options")
    rows, cell = df.rows, df.cell
    d, back = sort_dom(rows, [lambda pt: rows.lab(pt)])
    return DF(d, df.cols, lambda r, c: cell(back(r), c))


def merge_blocks(df, keypts):
    """Rows that are disjoint parts of one box, with keys that are the box's parameters, as a single block: for sorting by
    those keys (which leaves no ties, so the order of the parts does not matter)."""
    bs, cell = df.rows.blocks, df.cell
    b0 = bs[0]
    for b in bs[1:]:
        if b.k != b0.k or not all(entails(zi(x) == zi(y)) for x, y in zip(b.sizes, b0.sizes)):
            raise Unsupported("sort of a composite domain")
    g = lambda k, ps: True if bs[k].guard is None else bs[k].guard(*ps)
    ps = tuple(freshint("mb") for _ in b0.sizes)
    with hyp(b0.inrange(ps)):
        gs = [zb(g(k, ps)) for k in range(len(bs))]
        for x in range(len(bs)):
            for y in range(x):
                if not core.never(simp(z3.And(gs[x], gs[y]))):
                    raise Unsupported("sort of overlapping parts")
        every = simp(z3.Or(*gs))
        full = every is True or (not isinstance(every, bool) and entails(every))
    hit = set()
    for p in keypts:
        found = None
        for d in range(b0.k):
            if all(coef(bs[k], lambda *q, k=k: cell((k, tuple(q)), p), d) == 1 for k in range(len(bs))):
                found = d
        if found is None:
            raise Unsupported("sort of a composite domain")
        # the same key value at the same parameters in every part
        base = [bs[k].here(ps) for k in range(len(bs))]
        ks = []
        for k in range(len(bs)):
            with hyp(*base[k]):
                ks.append(cell((k, ps), p))
        for k in ks[1:]:
            with hyp(b0.inrange(ps)):
                e = s_eq(ks[0], k)
                if not (e is True or (not isinstance(e, bool) and entails(e))):
                    raise Unsupported("sort of a composite domain")
        hit.add(found)
    if hit != set(range(b0.k)):
        raise Unsupported("sort of a composite domain with ties")

    def pick(ps, f):
        def go(k):
            if k == len(bs) - 1:
                return f(k)
            return ite(zb(g(k, ps)), lambda: f(k), lambda: go(k + 1))
        return go(0)
    if any((b.lab is None) != (b0.lab is None) for b in bs) or any(b.order != b0.order for b in bs):
        raise Unsupported("sort of a composite domain")
    lab = None if b0.lab is None else (lambda *q: pick(q, lambda k: bs[k].lab(*q)))
    guard = None if full else (lambda *q: b_or(*[g(k, q) for k in range(len(bs))]))
    rows = Dom([Block(b0.sizes, lab, guard, b0.order)])
    return DF(rows, df.cols, lambda r, c: pick(r[1], lambda k: cell((k, r[1]), c)))


def df_sort_values(df, by=None, axis=0, ascending=True, **kw):
    if ascending is not True or axis_no(axis) != 0 or [k for k in kw if k not in ("kind",)]:
        raise Unsupported("sort_values options")
    keys = as_list(by) if isinstance(by, SList) else [by]
    pts = [find(df.cols, k) for k in keys]
    cell = df.cell
    if len(df.rows.blocks) > 1 and not df.rows.positional():
        df = merge_blocks(df, pts)
        cell = df.cell
    d, back = sort_dom(df.rows, [lambda pt, c=c: cell(pt, c) for c in pts])
    return DF(d, df.cols, lambda r, c: cell(back(r), c))


def df_drop_duplicates(df, subset=None, **kw):
    """Nothing to drop: some columns identify the row (each row parameter is determined by one of them)."""
    if kw or len(df.rows.blocks) != 1:
        raise Unsupported("drop_duplicates")
    bl = df.rows.blocks[0]
    cols = [(k, ()) for k, b in enumerate(df.cols.blocks) if b.k == 0] if subset is None else [find(df.cols, k) for k in as_list(subset)]
    for k in range(bl.k):
        if not any(is_key(df.cell, bl, c, k) for c in cols) and not fixed_param(bl, k):
            raise Unsupported("drop_duplicates of rows that may repeat")
    cell = df.cell
    return DF(df.rows, df.cols, lambda r, c: cell(r, c))


def fixed_param(bl, k):
    """The guard leaves one value for parameter k."""
    q = [freshint("fp") for _ in bl.sizes]
    r = list(q)
    r[k] = freshint("fp")
    with hyp(bl.present(q), bl.present(r)):
        return entails(q[k] == r[k])


def is_key(cell, bl, c, k):
    q = [freshint("dk") for _ in bl.sizes]
    with hyp(bl.present(q)):
        try:
            x = cell((0, tuple(q)), c)
        except Unsupported:
            return False
    return isinstance(x, Lab) and isz(x.pos) and x.pos.eq(q[k]) or is_int(x) and isz(x) and x.eq(q[k])


def df_dropna(df, axis=0, how="any", subset=None, **kw):
    rows, cols, cell = df.rows, df.cols, df.cell
    if kw or how not in ("any", "all"):
        raise Unsupported("dropna options")
    if axis_no(axis) == 1:
        t = df_dropna(df_T(df), 0, how, subset)
        return df_T(t)
    keep = [k for k in range(len(cols.blocks))]
    if subset is not None:
        pts = [find(cols, k) for k in as_list(subset)]

    def g(r):
        res = how == "any"
        if subset is not None:
            tests = [nonnan(cell(r, c)) for c in pts]
        else:
            tests = []
            for k in keep:
                bl = cols.blocks[k]
                if bl.k == 0:
                    tests.append(nonnan(cell(r, (k, ()))))
                else:
                    gd = lambda q, bl=bl: True if bl.guard is None else bl.guard(q)
                    gr = getattr(bl, "groups", None)
                    if gr is not None and bl.guard is None:
                        for m in range(gr.w):
                            inr = lambda q, m=m: b_and(simp(zi(q) * gr.w + m >= zi(gr.off)), simp(zi(q) * gr.w + m < zi(gr.off) + zi(gr.size)))
                            cellm = lambda q, m=m, k=k: cell(r, (k, (sz(zi(q) * gr.w + m - zi(gr.off)),)))

                            def hit(q, inr=inr, cellm=cellm):
                                i = inr(q)
                                with hyp(i):
                                    return b_and(i, nonnan(cellm(q)) if how == "all" else isnan_(cellm(q)))
                            t = exists(hit, 0, gr.count)
                            tests.append(t if how == "all" else b_not(t))
                    elif how == "all":
                        tests.append(exists(lambda q: b_and(gd(q), nonnan(cell(r, (k, (q,))))), 0, bl.sizes[0]))
                    else:
                        tests.append(b_not(exists(lambda q: b_and(gd(q), isnan_(cell(r, (k, (q,))))), 0, bl.sizes[0])))
        return b_and(*tests) if how == "any" else b_or(*tests)
    d, back = filter_dom(rows, g)
    return DF(d, cols, lambda r, c: cell(back(r), c))


def df_T(df):
    cell = df.cell
    return DF(df.cols, df.rows, lambda r, c: cell(c, r))


def df_reduce(df, axis, f):
    rows, cols, cell = df.rows, df.cols, df.cell
    if axis is None or axis_no(axis) == 0:
        return Series(cols, lambda c: f(rows, lambda r: cell(r, c)))
    return Series(rows, lambda r: f(cols, lambda c: cell(r, c)))


def df_map(df, f):
    cell = df.cell
    f = lazy(f)
    return DF(df.rows, df.cols, lambda r, c: mapcall(f, cell(r, c)))


def df_shift(df, periods=1, axis=0, **kw):
    rows, cols, cell = df.rows, df.cols, df.cell
    if kw:
        raise Unsupported("shift options")
    if axis_no(axis) == 1:
        return DF(rows, cols, lambda r, c: shift_fn(cols, lambda q: cell(r, q), periods)(c))
    return DF(rows, cols, lambda r, c: shift_fn(rows, lambda q: cell(q, c), periods)(r))


def df_diff(df, periods=1, axis=0):
    return elementwise(lambda x, y: s_bin("-", x, y), df, df_shift(df, periods, axis))


def df_apply(df, f, axis=0, **kw):
    rows, cols, cell = df.rows, df.cols, df.cell
    f = lazy(f)
    if kw:
        raise Unsupported("apply options")
    if axis_no(axis) == 0:
        return Series(cols, lambda c: mapcall(f, Series(rows, lambda r: cell(r, c), cols.lab(c))))
    return Series(rows, lambda r: mapcall(f, Series(cols, lambda c: cell(r, c), lab_or_none(rows, r))))


def lab_or_none(d, r):
    try:
        return d.lab(r)
    except Unsupported:
        return None


def rowsel(dom, key):
    """Row selection for iloc: ('pt', pt) or ('dom', dom, back)."""
    if isinstance(key, slice):
        if key.step == -1 and key.start is None and key.stop is None:
            d, b = reverse_dom(dom)
            return "dom", d, b
        if key.step not in (None, 1):
            raise Unsupported("slice step")
        if key.start is None and key.stop is None:
            return "dom", dom, lambda pt: pt
        lo, hi = norm_slice(dom.size(), key.start, key.stop)
        d, b = slice_dom(dom, lo, hi)
        return "dom", d, b
    if isinstance(key, (SList, Arr)):
        ks = as_list(key)
        if ks is None:
            raise Unsupported("iloc with an array")
        pts = [dom.point(norm_pos(k, dom)) for k in ks]
        return "dom", Dom([const_block(dom.lab(p)) for p in pts], dom.name), lambda pt: pts[pt[0]]
    return "pos", norm_pos(key, dom), None


def df_iloc(df, key):
    cell, rows, cols = df.cell, df.rows, df.cols
    rk, ck = key if isinstance(key, tuple) else (key, SLICE_ALL)
    r, c = rowsel(rows, rk), rowsel(cols, ck)
    if r[0] == "dom" and c[0] == "dom":
        return DF(r[1], c[1], lambda a, b: cell(r[2](a), c[2](b)))
    if r[0] == "dom":
        return Series(r[1], lambda a: cols.at(c[1], lambda q: cell(r[2](a), q)), cols.at(c[1], cols.lab))
    if c[0] == "dom":
        return Series(c[1], lambda b: rows.at(r[1], lambda q: cell(q, c[2](b))), rows.at(r[1], rows.lab))
    return rows.at(r[1], lambda a: cols.at(c[1], lambda b: cell(a, b)))


def locsel(dom, key):
    if isinstance(key, slice):
        if key.start is None and key.stop is None and key.step is None:
            return "dom", dom, lambda pt: pt
        raise Unsupported("label slice")
    if isinstance(key, (Series, Arr)) and bool_series(key):
        mf = key.fn if same_shape(key.dom, dom) else _uns("mask shape")
        d, b = filter_dom(dom, lambda pt: boolv(mf(pt)))
        return "dom", d, b
    if isinstance(key, (SList, Index, Series, Arr)):
        ks = as_list(key)
        if ks is not None:
            pts = [find(dom, k) for k in ks]
            return "dom", Dom([const_block(k) for k in ks], dom.name), lambda pt: pts[pt[0]]
        d = to_dom(key)
        check_present(dom, d)

        def back(pt):
            for c, q in locate(dom, d.lab(pt)):
                if c is True or entails(c):
                    return q
            raise Unsupported("label list")
        return "dom", d, back
    return "pt", find(dom, key), None


def df_loc(df, key):
    cell, rows, cols = df.cell, df.rows, df.cols
    rk, ck = key if isinstance(key, tuple) else (key, SLICE_ALL)
    r, c = locsel(rows, rk), locsel(cols, ck)
    if r[0] == "dom" and c[0] == "dom":
        return DF(r[1], c[1], lambda a, b: cell(r[2](a), c[2](b)))
    if r[0] == "dom":
        return Series(r[1], lambda a: cell(r[2](a), c[1]), ck)
    if c[0] == "dom":
        return Series(c[1], lambda b: cell(r[1], c[2](b)), rk)
    return cell(r[1], c[1])


def df_set_at(df, rk, ck, val):
    """df.at[r, c] = val (label based, enlarging)."""
    df_set_loc(df, (rk, ck), val)


def df_set_loc(df, key, val):
    rk, ck = key if isinstance(key, tuple) else (key, SLICE_ALL)
    scalar_r = not isinstance(rk, (slice, SList, Index, Series, Arr))
    scalar_c = not isinstance(ck, (slice, SList, Index, Series, Arr))
    if scalar_c:
        cs = locate(df.cols, ck)
        if not any(c is True or branch(c) for c, _ in cs):
            enlarge_col(df, ck)
    elif isinstance(ck, SList):
        for k in as_list(ck) or _uns("column list"):
            if not any(c is True or branch(c) for c, _ in locate(df.cols, k)):
                enlarge_col(df, k)
    if scalar_r:
        rs = locate(df.rows, rk)
        if not any(c is True or branch(c) for c, _ in rs):
            enlarge_row(df, rk)
    rows, cols = df.rows, df.cols
    if scalar_r:
        rpt = find(rows, rk)
        rg = lambda r: pt_eq(r, rpt)
    elif isinstance(rk, slice) and rk == SLICE_ALL:
        rg = lambda r: True
    elif isinstance(rk, (Series, Arr)) and bool_series(rk):
        if not same_shape(rk.dom, rows):
            raise Unsupported("mask shape")
        mf = rk.fn
        rg = lambda r: boolv(mf(r))
    else:
        raise Unsupported("loc assignment rows")
    if scalar_c:
        cpt = find(cols, ck)
        cg = lambda c: pt_eq(c, cpt)
    elif isinstance(ck, slice) and ck == SLICE_ALL:
        cg = lambda c: True
    elif isinstance(ck, SList):
        cpts = [find(cols, k) for k in as_list(ck)]
        cg = lambda c: b_or(*[pt_eq(c, p) for p in cpts])
    else:
        raise Unsupported("loc assignment columns")
    if isinstance(val, Series):
        vd, vf = val.dom, val.fn
        if scalar_r and not scalar_c:
            if same_labels(vd, cols) is True:
                g = lambda r, c: vf(c)
            else:
                g = lambda r, c: lookup(vd, cols.lab(c), vf, lambda: NAN)
        elif scalar_c:
            if same_labels(vd, rows) is True:
                g = lambda r, c: vf(r)
            else:
                g = lambda r, c: lookup(vd, rows.lab(r), vf, lambda: NAN)
        else:
            raise Unsupported("loc assignment of a Series")
    elif is_container(val) or isinstance(val, (SList, Seq)):
        d, f = domfn(val)
        if scalar_r and not scalar_c:
            t = transfer(d, f, cols)
            g = lambda r, c: t(c)
        elif scalar_c and isinstance(rk, slice):
            t = transfer(d, f, rows)
            g = lambda r, c: t(r)
        else:
            raise Unsupported("loc assignment of an array")
    else:
        g = lambda r, c: val
    df.update(lambda r, c: b_and(rg(r), cg(c)), g)


def enlarge_col(df, label):
    log = cx.__dict__.get("wlog")
    if log is not None and df.stamp <= cx.wlog_stamp:
        cx.wensure.append((df, label))
        raise NeedColumn(df, label)
    if df.frozen:
        raise Unsupported("mutation of a view")
    n, cell = len(df.cols.blocks), df.cell
    df.cols = Dom(df.cols.blocks + [const_block(label)], df.cols.name)
    df.cell = lambda r, c: NAN if c[0] == n else cell(r, c)


class NeedColumn(Exception):
    def __init__(self, df, label):
        self.df, self.label = df, label


def enlarge_row(df, label):
    structural(df, "new row")
    n, cell = len(df.rows.blocks), df.cell
    df.rows = Dom(df.rows.blocks + [const_block(label)], df.rows.name)
    df.cell = lambda r, c: NAN if r[0] == n else cell(r, c)


def possel(dom, key):
    """Guard over points for an iloc assignment target + position of a point in the selection."""
    if isinstance(key, slice):
        if key.step not in (None, 1):
            raise Unsupported("slice step")
        if key.start is None and key.stop is None:
            return lambda pt: True
        lo, hi = norm_slice(dom.size(), key.start, key.stop)
        return lambda pt: b_and(simp(zi(dom.pos(pt)) >= zi(lo)), simp(zi(dom.pos(pt)) < zi(hi)))
    if isinstance(key, (SList, Arr, Series)):
        raise Unsupported("iloc assignment to a list")
    k = norm_pos(key, dom)
    return lambda pt: simp(zi(dom.pos(pt)) == zi(k))


def df_set_iloc(df, key, val):
    rk, ck = key if isinstance(key, tuple) else (key, SLICE_ALL)
    rows, cols = df.rows, df.cols
    rg, cg = possel(rows, rk), possel(cols, ck)
    if isinstance(val, Series):
        vd, vf = val.dom, val.fn
        if isinstance(rk, slice) and not isinstance(ck, slice):
            if same_labels(vd, rows) is True:
                g = lambda r, c: vf(r)
            else:
                g = lambda r, c: lookup(vd, rows.lab(r), vf, lambda: NAN)
        elif not isinstance(rk, slice) and isinstance(ck, slice):
            g = lambda r, c: lookup(vd, cols.lab(c), vf, lambda: NAN)
        else:
            raise Unsupported("iloc assignment of a Series")
    elif isinstance(val, (Arr, SList, Seq, Index)):
        d, f = domfn(val)
        if isinstance(rk, slice) and not isinstance(ck, slice):
            sd, sb = rowsel(rows, rk)[1:]
            t = transfer(d, f, sd)
            lo = 0 if rk.start is None else norm_slice(rows.size(), rk.start, rk.stop)[0]
            g = lambda r, c: sd.at(sz(zi(rows.pos(r)) - zi(lo)), t)
        elif not isinstance(rk, slice) and isinstance(ck, slice):
            sd, sb = rowsel(cols, ck)[1:]
            t = transfer(d, f, sd)
            lo = 0 if ck.start is None else norm_slice(cols.size(), ck.start, ck.stop)[0]
            g = lambda r, c: sd.at(sz(zi(cols.pos(c)) - zi(lo)), t)
        else:
            raise Unsupported("iloc assignment of an array")
    elif isinstance(val, DF):
        raise Unsupported("iloc assignment of a frame")
    else:
        g = lambda r, c: val
    df.update(lambda r, c: b_and(rg(r), cg(c)), g)


def df_melt(df, id_vars=None, var_name=None, value_name="value", **kw):
    if kw:
        raise Unsupported("melt keywords")
    ids = as_list(id_vars) if isinstance(id_vars, SList) else [id_vars]
    if isinstance(var_name, SList):
        var_name = as_list(var_name)[0]
    idpts = [find(df.cols, k) for k in ids]
    idblocks = {p[0] for p in idpts}
    if any(df.cols.blocks[b].k for b in idblocks):
        raise Unsupported("id column inside an axis")
    if var_name is None:
        var_name = df.cols.name if df.cols.name is not None else "variable"
    rows, cols, cell = df.rows, df.cols, df.cell
    if len(rows.blocks) != 1:
        raise Unsupported("melt of composite rows")
    rb = rows.blocks[0]
    blocks, maps = [], []
    for k, cb in enumerate(cols.blocks):
        if k in idblocks:
            continue
        g = None
        if rb.guard is not None or cb.guard is not None:
            g = lambda *ps, cb=cb: b_and(True if rb.guard is None else rb.guard(*ps[:rb.k]), True if cb.guard is None else cb.guard(*ps[rb.k:]))
        order = tuple(rb.k + x for x in cb.order) + rb.order
        blocks.append(Block(rb.sizes + cb.sizes, None, g, order))
        maps.append(k)
    names = ids + [var_name, value_name]

    def cellf(r, c):
        rp, cp = (0, r[1][:rb.k]), (maps[r[0]], r[1][rb.k:])
        if c[0] < len(ids):
            return cell(rp, idpts[c[0]])
        if c[0] == len(ids):
            return cols.lab(cp)
        return cell(rp, cp)
    return DF(Dom(blocks), Dom([const_block(n) for n in names]), cellf)


def df_merge(left, right, on=None, how="inner", **kw):
    if [k for k in kw if k not in ("sort", "suffixes")] or kw.get("sort", False) is not False:
        raise Unsupported("merge keywords")
    if on is None:
        raise Unsupported("merge without keys")
    keys = as_list(on) if isinstance(on, SList) else [on]
    lk = [find(left.cols, k) for k in keys]
    rk = [find(right.cols, k) for k in keys]
    lcell, rcell = left.cell, right.cell
    rextra = []
    for b, bl in enumerate(right.cols.blocks):
        if bl.k:
            raise Unsupported("merge of a frame with an axis of columns")
        nm = bl.lab()
        if any(s_eq(nm, k) is True for k in keys):
            continue
        if any(bb.k == 0 and s_eq(bb.lab(), nm) is True for bb in left.cols.blocks):
            raise Unsupported("overlapping merge columns")
        rextra.append((b, nm))
    nl = len(left.cols.blocks)

    def match(r):
        """candidates [(cond, right pt)]"""
        out = []
        for b, bl in enumerate(right.rows.blocks):
            sol = solve_eqs(bl, [((lambda *ps, q=q: rcell((b, tuple(ps)), q)), lcell(r, p)) for p, q in zip(lk, rk)])
            if sol is None:
                raise Unsupported("merge keys do not identify the right rows")
            ps, c = sol
            if c is not False:
                out.append((c, (b, tuple(ps))))
        return out

    def cellf(r, c):
        if c[0] < nl:
            return lcell(r, c)
        b = rextra[c[0] - nl][0]
        cands = match(r)

        def go(k):
            if k == len(cands):
                return NAN
            return ite(cands[k][0], lambda: rcell(cands[k][1], (b, ())), lambda: go(k + 1))
        return go(0)
    cols = Dom(left.cols.blocks + [const_block(nm) for _, nm in rextra])
    if how in ("left", "inner", "outer"):
        rows = positional_dom(left.rows)
        back = lambda pt: pt
        if how == "outer":
            # supported when every right row has a left partner
            for b, bl in enumerate(right.rows.blocks):
                ps = [freshint("mo") for _ in bl.sizes]
                with hyp(bl.present(ps)):
                    conds = []
                    for lb, lbl in enumerate(left.rows.blocks):
                        sol = solve_eqs(lbl, [((lambda *qs, q=q: lcell((lb, tuple(qs)), q)), rcell((b, tuple(ps)), p)) for q, p in zip(lk, rk)])
                        if sol is None:
                            raise Unsupported("outer merge")
                        conds.append(sol[1])
                    c = b_or(*conds)
                    if not (c is True or (not isinstance(c, bool) and entails(c))):
                        raise Unsupported("outer merge adds rows")
            order = []
            rows, bk = sort_dom(left.rows, [lambda pt, p=p: lcell(pt, p) for p in lk])
            rows = Dom([b.with_(lab=None) for b in rows.blocks])
            return DF(rows, cols, lambda r, c: cellf(bk(r), c))
        if how == "inner":
            d, back = filter_dom(left.rows, lambda r: b_or(*[c for c, _ in match(r)]))
            rows = positional_dom(d)
        return DF(rows, cols, lambda r, c: cellf(back(r), c))
    raise Unsupported("merge how={}".format(how))


def df_join(left, right, **kw):
    if kw:
        raise Unsupported("join keywords")
    if isinstance(right, Series):
        right = series_to_frame(right)
    lcell, rcell, n = left.cell, right.cell, len(left.cols.blocks)
    for b in right.cols.blocks:
        if b.k:
            raise Unsupported("join of an axis of columns")
    same = same_labels(left.rows, right.rows) is True
    if same:
        f = lambda r, c: rcell(r, (c[0] - n, c[1]))
    else:
        lrows, rrows = left.rows, right.rows
        f = lambda r, c: lookup(rrows, lrows.lab(r), lambda q: rcell(q, (c[0] - n, c[1])), lambda: NAN)
    return DF(left.rows, Dom(left.cols.blocks + right.cols.blocks), lambda r, c: lcell(r, c) if c[0] < n else f(r, c))


def df_set_index(df, key, **kw):
    cell = df.cell
    if isinstance(key, (Index, Series)):
        d = to_dom(key)
        if not same_shape(d, df.rows):
            t = transfer(d, d.lab, df.rows)
        else:
            t = d.lab
        rows = Dom([Block(b.sizes, (lambda *ps, k=k: t((k, tuple(ps)))), b.guard, b.order) for k, b in enumerate(df.rows.blocks)], d.name)
        return DF(rows, df.cols, cell)
    pt = find(df.cols, key)
    rows = Dom([Block(b.sizes, (lambda *ps, k=k: cell((k, tuple(ps)), pt)), b.guard, b.order) for k, b in enumerate(df.rows.blocks)], key)
    keep = [k for k in range(len(df.cols.blocks)) if k != pt[0]]
    if df.cols.blocks[pt[0]].k:
        raise Unsupported("set_index on an axis column")
    return DF(rows, Dom([df.cols.blocks[k] for k in keep]), lambda r, c: cell(r, (keep[c[0]], c[1])))


def df_drop(df, labels=None, axis=0, columns=None, index=None, **kw):
    if columns is not None:
        labels, axis = columns, 1
    if index is not None:
        labels, axis = index, 0
    if axis_no(axis) == 0:
        t = df_drop(df_T(df), labels, 1)
        return df_T(t)
    ks = as_list(labels) if isinstance(labels, SList) else [labels]
    cell = df.cell
    gone = set()
    for k in ks:
        pt = find(df.cols, k)
        if df.cols.blocks[pt[0]].k:
            d, back = filter_dom(df.cols, lambda q: b_not(pt_eq(q, pt)))
            if len(ks) > 1:
                raise Unsupported("drop of several axis labels")
            return DF(df.rows, d, lambda r, c: cell(r, back(c)))
        gone.add(pt[0])
    keep = [k for k in range(len(df.cols.blocks)) if k not in gone]
    return DF(df.rows, Dom([df.cols.blocks[k] for k in keep], df.cols.name), lambda r, c: cell(r, (keep[c[0]], c[1])))


def df_astype(df, t):
    cell, cols = df.cell, df.cols
    if isinstance(t, PyDict):
        pts = [(find(cols, k), dtype_name(v)) for k, v in t.d.items()]

        def f(r, c):
            x = cell(r, c)
            for p, n in pts:
                g = pt_eq(c, p)
                if g is True or (g is not False and entails(g)):
                    return astype_val(n, x)
                if g is not False and not entails(z3.Not(g)):
                    raise Unsupported("astype of an axis column")
            return x
        return DF(df.rows, cols, f)
    if isinstance(t, DictOver):
        n = dtype_name(t.value)
        if same_labels(t.dom, cols) is not True:
            raise Unsupported("astype by other labels")
        return DF(df.rows, cols, lambda r, c: astype_val(n, cell(r, c)))
    n = dtype_name(t)
    return DF(df.rows, cols, lambda r, c: astype_val(n, cell(r, c)))


class DictOver:
    """{k: value for k in axis}."""
    def __init__(self, dom, value):
        self.dom, self.value = dom, value


def df_values(df):
    return Arr([plain(df.rows), plain(df.cols)], df.cell)


def df_copy(df, deep=True):
    if deep is not True:
        raise Unsupported("shallow copy")
    return DF(df.rows, df.cols, df.cell)


def df_assign(df, **kw):
    out = df_copy(df)
    for k, v in kw.items():
        if cx.interp.callable(v):
            v = cx.interp.call(v, [out], {})
        df_setcol(out, k, v)
    return out


def df_rename_axis(df, mapper=NAN, index=NAN, columns=NAN):
    rows, cols, cell = df.rows, df.cols, df.cell
    for x in (mapper, index, columns):
        if not (x is NAN or x is None or isinstance(x, str)):
            raise Unsupported("rename_axis")
    if mapper is not NAN:
        index = mapper
    if index is not NAN:
        rows = Dom(rows.blocks, index)
    if columns is not NAN:
        lv = getattr(cols, "levels", 1)
        cols = Dom(cols.blocks, columns)
        cols.levels = lv
    return DF(rows, cols, cell)


def df_replace(df, a, b):
    cell = df.cell
    return DF(df.rows, df.cols, lambda r, c: replace_val(cell(r, c), a, b))


DFA = {
    "index": lambda d: owned(Index(d.rows, d.rows.name), d, "rows"),
    "columns": lambda d: owned(Index(d.cols, d.cols.name), d, "cols"),
    "shape": lambda d: (d.rows.size(), d.cols.size()),
    "values": df_values,
    "T": df_T,
    "size": lambda d: s_bin("*", d.rows.size(), d.cols.size()),
    "empty": lambda d: b_or(simp(zi(d.rows.size()) == 0), simp(zi(d.cols.size()) == 0)),
}
DFM = {
    "copy": df_copy,
    "sort_index": df_sort_index,
    "sort_values": df_sort_values,
    "reset_index": df_reset_index,
    "rename": df_rename,
    "dropna": df_dropna, "drop_duplicates": df_drop_duplicates,
    "sum": lambda d, axis=0, **kw: df_reduce(d, axis, red_sum),
    "mean": lambda d, axis=0, **kw: df_reduce(d, axis, red_mean),
    "count": lambda d, axis=0: df_reduce(d, axis, red_count),
    "median": lambda d, axis=0, **kw: df_reduce(d, axis, red_median),
    "min": lambda d, axis=0, **kw: df_reduce(d, axis, lambda a, b: red_ext("min", a, b)),
    "max": lambda d, axis=0, **kw: df_reduce(d, axis, lambda a, b: red_ext("max", a, b)),
    "map": df_map,
    "from_dict": lambda df, data, orient="columns", **kw: df_from(data) if not kw and orient == "columns" else _uns("from_dict"),
    "applymap": df_map,
    "apply": df_apply,
    "shift": df_shift,
    "diff": df_diff,
    "merge": df_merge,
    "join": df_join,
    "set_index": df_set_index,
    "drop": df_drop,
    "astype": df_astype,
    "assign": df_assign,
    "replace": df_replace,
    "abs": lambda d: elementwise(lambda x: s_un("abs", x), d),
    "isnull": lambda d: elementwise(isnan_, d),
    "isna": lambda d: elementwise(isnan_, d),
    "notnull": lambda d: elementwise(lambda x: b_not(isnan_(x)), d),
    "notna": lambda d: elementwise(lambda x: b_not(isnan_(x)), d),
    "clip": lambda s, lower=None, upper=None: pd_clip(s, lower, upper),
    "where": lambda s, cond, other=NAN: pd_where(s, cond, other, True),
    "mask": lambda s, cond, other=NAN: pd_where(s, cond, other, False),
    "fillna": lambda d, v, **kw: df_fillna(d, v),
    "transpose": df_T,
    "to_numpy": df_values,
    "melt": df_melt,
    "rename_axis": lambda d, *a, **kw: df_rename_axis(d, *a, **kw),
    "pivot": lambda d, index=None, columns=None, values=None: df_pivot(d, index, columns, values),
    "groupby": lambda d, by, as_index=True, **kw: GroupBy(d, by, as_index),
    "get": lambda d, k, default=None: df_col(d, k) if any(c is True or branch(c) for c, _ in locate(d.cols, k)) else default,
    "head": lambda d, n=5: df_iloc(d, (slice(None, n), SLICE_ALL)),
}
for _n, _o in (("mul", "*"), ("multiply", "*"), ("div", "/"), ("divide", "/"), ("truediv", "/"), ("sub", "-"), ("add", "+"), ("pow", "**")):
    DFM[_n] = lambda s, o, _o=_o, **kw: binop(_o, s, o) if not kw or (isinstance(o, DF) and set(kw) <= {"axis"}) else _uns("arithmetic method keywords")


# ------------------------------------------------------------------ keyword discipline
HARMLESS = {"axis": (0, None, "index"), "skipna": (True,), "ascending": (True,), "copy": (True,), "inplace": (False,),
            "numeric_only": (True, False), "sort": (True,), "keepdims": (False,), "drop": (False,), "dropna": (True,), "level": (None,)}


def strict(f, own=False):
    """f rejects every keyword its semantics does not account for (own: f checks its own keywords)."""
    import inspect
    ps = inspect.signature(f).parameters.values()
    if own or not any(p.kind == p.VAR_KEYWORD for p in ps):
        return f
    named = {p.name for p in ps if p.kind in (p.POSITIONAL_OR_KEYWORD, p.KEYWORD_ONLY)}

    def g(*a, **kw):
        for k, v in kw.items():
            if k in named:
                continue
            if k not in HARMLESS or not any(v is x or (type(v) is type(x) and v == x) for x in HARMLESS[k]):
                raise Unsupported("keyword {}={!r}".format(k, v if isinstance(v, (str, int, bool)) else type(v).__name__))
        return f(*a, **kw)
    return g


OWN = {"assign", "rename_axis"} | {"mul", "multiply", "div", "divide", "truediv", "sub", "subtract", "add", "pow"} | {"merge", "sort_values", "sort_index", "join"}


# ------------------------------------------------------------------ groupby
class GroupBy:
    def __init__(self, df, by, as_index=True, sel=None):
        self.df, self.as_index, self.sel = df, as_index, sel
        self.keys = as_list(by) if isinstance(by, SList) else [by]

    def analyse(self):
        """Key parameters of the single row block: (block, key dims, rest dims, key cells)."""
        df = self.df
        if len(df.rows.blocks) != 1:
            raise Unsupported("groupby over composite rows")
        bl = df.rows.blocks[0]
        pts = [find(df.cols, k) for k in self.keys]
        dims = []
        for p in pts:
            f = lambda *ps, p=p: df.cell((0, tuple(ps)), p)
            hit = None
            for k in range(bl.k):
                if coef(bl, f, k) == 1:
                    hit = k
            if hit is None:
                raise Unsupported("groupby key is not a row parameter")
            dims.append(hit)
        if len(set(dims)) != len(dims):
            raise Unsupported("repeated groupby key")
        rest = [k for k in range(bl.k) if k not in dims]
        return bl, dims, rest, pts

    def assemble(self, bl, dims, rest, kp, rp):
        ps = [None] * bl.k
        for d, v in zip(dims, kp):
            ps[d] = v
        for d, v in zip(rest, rp):
            ps[d] = v
        return tuple(ps)

    def by_label(self):
        """Groups of the rows by key cells that are arbitrary labels of an axis: (block, axes, positions, points)."""
        df = self.df
        if len(df.rows.blocks) != 1 or df.rows.blocks[0].k != 1:
            return None
        bl = df.rows.blocks[0]
        pts = [find(df.cols, k) for k in self.keys]
        q = freshint("gl")
        axes = []
        with hyp(bl.present([q])):
            for p in pts:
                x = df.cell((0, (q,)), p)
                if not isinstance(x, Lab) or not isz(x.pos) or not contains(x.pos, q):
                    return None
                axes.append(x.base)
                if not core.never(z3.Or(zi(x.pos) < 0, zi(x.pos) >= zi(x.base.size))):
                    return None
            if any(coef(bl, lambda w, p=p: df.cell((0, (w,)), p), 0) is not None for p in pts):
                return None
        pos = [lambda w, p=p: df.cell((0, (w,)), p).pos for p in pts]
        return bl, axes, pos, pts

    def agg_by_label(self, f, bl, axes, pos, pts):
        cell = self.df.cell
        here = lambda kp: (lambda w: b_and(True if bl.guard is None else bl.guard(w), *[simp(zi(g(w)) == zi(p)) for g, p in zip(pos, kp)]))
        guard = lambda *kp: exists(here(kp), 0, bl.sizes[0])
        if len(axes) == 1 and axes[0] in bl.onto:
            guard = None

        def value(kp, c):
            return f(Dom([Block(bl.sizes, None, here(kp))]), lambda pt: cell((0, pt[1]), c))
        keyf = [lambda *kp, k=k: Lab(axes[k], kp[k]) for k in range(len(axes))]
        onto = frozenset(k for k, a in enumerate(axes) if a in bl.onto)
        return [a.size for a in axes], guard, keyf, self.value_cols(pts), value, onto

    def agg(self, f):
        """f(dom over the rest params, fn) -> value; result over the groups."""
        df = self.df
        self.onto = frozenset()
        r = self.by_label()
        if r is not None:
            *out, self.onto = self.agg_by_label(f, *r)
            return out
        bl, dims, rest, pts = self.analyse()
        if not rest:
            self.onto = frozenset(dims.index(k) for k in bl.onto if k in dims)
        cell = df.cell
        vals = self.value_cols(pts)

        def sub(kp):
            sizes = [bl.sizes[k] for k in rest]
            order = tuple(rest.index(k) for k in bl.order if k in rest)
            g = None if bl.guard is None else (lambda *rp: bl.guard(*self.assemble(bl, dims, rest, kp, rp)))
            return Dom([Block(sizes, None, g, order)])

        def value(kp, c):
            d = sub(kp)
            if not rest:
                ps = self.assemble(bl, dims, rest, kp, ())
                return f(Dom([Block(())]), lambda pt: cell((0, ps), c))
            return f(d, lambda pt: cell((0, self.assemble(bl, dims, rest, kp, pt[1])), c))
        guard = None
        if bl.guard is not None:
            if not rest:
                guard = lambda *kp: bl.guard(*self.assemble(bl, dims, rest, kp, ()))
            elif len(rest) == 1:
                q = [freshint("gg") for _ in dims]
                gf = lambda *kp: exists(lambda w: bl.guard(*self.assemble(bl, dims, rest, kp, (w,))), 0, bl.sizes[rest[0]])
                with hyp(*[z3.And(x >= 0, x < zi(bl.sizes[d])) for x, d in zip(q, dims)]):
                    g = gf(*q)
                    guard = None if g is True or (not isinstance(g, bool) and entails(g)) else gf
            else:
                q = [freshint("gg") for _ in dims]
                # some rest point present for every group?
                ok = False
                with hyp(*[z3.And(x >= 0, x < zi(bl.sizes[d])) for x, d in zip(q, dims)]):
                    for pick in ([0] * len(rest), [sz(zi(bl.sizes[k]) - 1) for k in rest]):
                        if entails(zb(bl.guard(*self.assemble(bl, dims, rest, q, pick)))):
                            ok = True
                if not ok:
                    raise Unsupported("groups of a filtered domain")
        sizes = [bl.sizes[d] for d in dims]
        keyf = [lambda *kp, p=p: cell((0, self.assemble(bl, dims, rest, kp, [0] * len(rest))), p) for p in pts]
        return sizes, guard, keyf, vals, value

    def value_cols(self, pts):
        df = self.df
        if self.sel is not None:
            ks = as_list(self.sel) if isinstance(self.sel, SList) else [self.sel]
            return [(k, find(df.cols, k)) for k in ks]
        out = []
        for b, c in enumerate(df.cols.blocks):
            if c.k:
                raise Unsupported("groupby with an axis of columns")
            if any(b == p[0] for p in pts):
                continue
            out.append((c.lab(), (b, ())))
        return out

    def result(self, f):
        sizes, guard, keyf, vals, value = self.agg(f)
        if self.as_index:
            if len(keyf) != 1:
                raise Unsupported("groupby MultiIndex result")
            b = Block(sizes, lambda *kp: keyf[0](*kp), guard)
            b.onto = self.onto
            d = Dom([b], self.keys[0])
            if self.sel is not None and not isinstance(self.sel, SList):
                c = vals[0][1]
                return Series(d, lambda pt: value(pt[1], c), self.sel)
            return DF(d, Dom([const_block(k) for k, _ in vals]), lambda r, c: value(r[1], vals[c[0]][1]))
        names = self.keys + [k for k, _ in vals]
        nk = len(self.keys)
        b = Block(sizes, None, guard)
        b.onto = self.onto
        return DF(Dom([b]), Dom([const_block(k) for k in names]),
                  lambda r, c: keyf[c[0]](*r[1]) if c[0] < nk else value(r[1], vals[c[0] - nk][1]))

    def within(self, f):
        """Row-wise result: f(lo-rest bound fn...) over the preceding rows of the group."""
        df = self.df
        bl, dims, rest, pts = self.analyse()
        if len(rest) != 1:
            raise Unsupported("grouped running value over several parameters")
        if self.sel is None:
            raise Unsupported("grouped running value without a column")
        c = find(df.cols, self.sel if not isinstance(self.sel, SList) else as_list(self.sel)[0])
        cell, k = df.cell, rest[0]
        fn = lambda pt: f(lambda w: cell((0, pt[1][:k] + (w,) + pt[1][k + 1:]), c),
                          lambda w: True if bl.guard is None else bl.guard(*(pt[1][:k] + (w,) + pt[1][k + 1:])), pt[1][k], bl.sizes[k])
        if isinstance(self.sel, SList) or not self.as_index:
            nm = self.sel if not isinstance(self.sel, SList) else as_list(self.sel)[0]
            if isinstance(self.sel, SList):
                return DF(df.rows, Dom([const_block(nm)]), lambda r, cc: fn(r))
        return Series(df.rows, fn, self.sel)


def gb_cumsum(g, **kw):
    def f(val, present, p, size):
        t = aggregate("sum", 0, sz(zi(p) + 1), lambda w: (b_and(present(w), nonnan(val(w))), zero_nan(val(w))))
        return V(isnan_(val(p)), t)
    return g.within(f)


def gb_cumprod(g, **kw):
    def f(val, present, p, size):
        t = aggregate("prod", 0, sz(zi(p) + 1), lambda w: (b_and(present(w), nonnan(val(w))), zero_nan(val(w))))
        return V(isnan_(val(p)), t)
    return g.within(f)


def gb_diff(g, periods=1, **kw):
    if periods != 1:
        raise Unsupported("diff periods")

    def f(val, present, p, size):
        iv = interval(present, 0, size)
        if iv is None:
            raise Unsupported("diff over an irregular group")
        q = sz(zi(p) - 1)
        return ite(simp(zi(q) >= zi(iv[0])), lambda: s_bin("-", val(p), val(q)), lambda: NAN)
    return g.within(f)


def gb_transform(g, how, **kw):
    """The reduction of a row's group (or a running value) at every row."""
    if not isinstance(how, str) or kw:
        raise Unsupported("transform")
    if how in ("cumsum", "cumprod", "diff"):
        return GBM[how](g)
    red = {"sum": red_sum, "mean": red_mean, "count": red_count}.get(how)
    if how in ("min", "max"):
        red = lambda d, f: red_ext(how, d, f)
    if red is None or g.sel is None or isinstance(g.sel, SList):
        raise Unsupported("transform")
    if g.by_label() is not None:
        raise Unsupported("transform of groups by label")
    bl, dims, rest, pts = g.analyse()
    _, _, _, vals, value = g.agg(red)
    c = vals[0][1]
    return Series(g.df.rows, lambda pt: value([pt[1][d] for d in dims], c), g.sel)


GBM = {
    "transform": gb_transform,
    "sum": lambda g, **kw: g.result(red_sum),
    "mean": lambda g, **kw: g.result(red_mean),
    "max": lambda g, **kw: g.result(lambda d, f: red_ext("max", d, f)),
    "min": lambda g, **kw: g.result(lambda d, f: red_ext("min", d, f)),
    "count": lambda g, **kw: g.result(red_count),
    "std": lambda g, ddof=1, **kw: g.result(lambda d, f: s_un("sqrt", red_std(d, f, ddof))),
    "cumsum": gb_cumsum,
    "cumprod": gb_cumprod,
    "diff": gb_diff,
}


class PivotCols:
    pass


def df_pivot(df, index=None, columns=None, values=None):
    """Long to wide; index and columns must be the two row parameters (so no cell has two rows)."""
    if len(df.rows.blocks) != 1 or df.rows.blocks[0].k != 2:
        raise Unsupported("pivot of this frame")
    bl = df.rows.blocks[0]
    ip, cp = find(df.cols, index), find(df.cols, columns)
    dims = []
    for p in (ip, cp):
        hit = [k for k in range(2) if coef(bl, lambda *ps, p=p: df.cell((0, ps), p), k) == 1]
        if len(hit) != 1:
            raise Unsupported("pivot keys")
        dims.append(hit[0])
    if dims[0] == dims[1]:
        raise Unsupported("pivot keys")
    others = [(c.lab(), (b, ())) for b, c in enumerate(df.cols.blocks) if c.k == 0 and b not in (ip[0], cp[0])]
    if any(c.k for c in df.cols.blocks) or values is None and len(others) != 1:
        raise Unsupported("pivot values")
    vname, vp = others[0] if values is None else (values, find(df.cols, values))
    cell = df.cell
    at = lambda a, b: tuple([a, b][dims.index(k)] for k in range(2))
    pres = lambda a, b: True if bl.guard is None else bl.guard(*at(a, b))

    def axis(k, p):
        lab = lambda w: cell((0, at(w, 0) if k == 0 else at(0, w)), p)
        g = None
        if bl.guard is not None and dims[k] not in bl.onto:
            o = bl.sizes[dims[1 - k]]
            g = lambda w: exists(lambda z: pres(w, z) if k == 0 else pres(z, w), 0, o)
            q = freshint("pv")
            with hyp(q >= 0, q < zi(bl.sizes[dims[k]])):
                t = g(q)
                if t is True or t is not False and (entails(t) or core.never(simp(z3.Not(t)))):
                    g = None
        return Block((bl.sizes[dims[k]],), lab, g)
    rb, cb = axis(0, ip), axis(1, cp)
    cols = Dom([cb], columns)
    if values is None:
        cl = cb.lab
        cols = Dom([cb.with_(lab=lambda w: (vname, cl(w)))], columns)
        cols.levels = 2
    return DF(Dom([rb], index), cols, lambda r, c: ite(pres(r[1][0], c[1][0]), lambda: cell((0, at(r[1][0], c[1][0])), vp), lambda: NAN))


def index_droplevel(ix, level=0):
    d = ix.dom
    if getattr(d, "levels", 1) != 2 or level != 0 or len(d.blocks) != 1:
        raise Unsupported("droplevel")
    b = d.blocks[0]
    return Index(Dom([b.with_(lab=lambda *ps: b.lab(*ps)[1])], d.name), d.name)


# ------------------------------------------------------------------ numpy / pandas functions
def np_where(c, *ab):
    if not ab and isinstance(c, Bag):
        r = BagWhere(c.fn, c.tok)
        r.base = c
        return (r,)
    if not ab:
        d = c.dom if not isinstance(c, Series) else c.dom
        fn = c.fn
        nd, back = filter_dom(plain(d), lambda pt: boolv(fn(pt)))
        return (Arr([plain(nd)], lambda pt: d.pos(back(pt))),)
    a, b = ab
    xs = [x.dom and Arr([plain(x.dom)], x.fn) if isinstance(x, (Series, Index)) else x for x in (c, a, b)]
    if any(isinstance(x, Arr) for x in xs):
        return elementwise(lambda p, x, y: ite(boolv(p), lambda: x, lambda: y), *xs)
    return ite(boolv(c), lambda: a, lambda: b)


def np_append(a, b, **kw):
    da, fa = domfn(a) if not is_num(a) else (Dom([Block(())]), lambda pt: a)
    db, fb = domfn(b) if (is_container(b) or isinstance(b, (SList, list, tuple))) else (Dom([Block(())]), lambda pt: b)
    n = len(da.blocks)
    return Arr([Dom([Block(x.sizes, None, x.guard, x.order) for x in da.blocks + db.blocks])],
               lambda pt: fa(pt) if pt[0] < n else fb((pt[0] - n, pt[1])))


def np_cumprod(a, **kw):
    d, f = domfn(a)
    r = prefix("cumprod", d, f, True)
    if isinstance(a, Series):
        return Series(a.dom, r, a.name)
    return Arr([plain(d)], r)


def np_cumsum(a, **kw):
    d, f = domfn(a)
    return Arr([plain(d)], prefix("cumsum", d, f, True))


def np_asarray(x, dtype=None, **kw):
    if isinstance(x, Arr) and len(x.doms) == 2:
        return x
    if isinstance(x, DF):
        return df_values(x)
    d, f = domfn(x)
    if dtype is not None and dtype_name(dtype) == "float":
        return Arr([plain(d)], floatify(f))
    return Arr([plain(d)], f)


def np_sum(x, **kw):
    if isinstance(x, Series):
        return red_sum(x.dom, x.fn, True)
    if isinstance(x, Arr) and len(x.doms) == 1:
        return red_sum(x.dom, x.fn, False)
    if isinstance(x, DF):
        return df_reduce(x, 0, red_sum)
    d, f = domfn(x)
    return red_sum(d, f, False)


def np_min(x, **kw):
    xs = as_list(x)
    if xs is None:
        if isinstance(x, (Series, Arr, Index)):
            return red_ext("min", x.dom, x.fn)
        raise Unsupported("np.min")
    r = num(xs[0])
    for y in xs[1:]:
        y = num(y)
        if r.v is None or y.v is None:
            return NAN
        r = V(b_or(r.nan, y.nan), z3.If(y.v < r.v, y.v, r.v))
    return r


def np_max(x, **kw):
    xs = as_list(x)
    if xs is None:
        if isinstance(x, (Series, Arr, Index)):
            return red_ext("max", x.dom, x.fn)
        raise Unsupported("np.max")
    r = num(xs[0])
    for y in xs[1:]:
        y = num(y)
        r = V(b_or(r.nan, y.nan), z3.If(y.v > r.v, y.v, r.v))
    return r


def minmax2(a, b, gt):
    x, y = num(a), num(b)
    if x.v is None or y.v is None:
        return NAN
    return V(b_or(x.nan, y.nan), z3.If((x.v > y.v) if gt else (x.v < y.v), x.v, y.v))


def pd_clip(x, lower=None, upper=None):
    if is_container(lower) or is_container(upper):
        raise Unsupported("clip with a vector of bounds")
    return elementwise(lambda v: clip(v, lower, upper), x)


def pd_where(x, cond, other, keep):
    """x.where / x.mask with a condition over the same labels."""
    if callable(cond) and not is_container(cond):
        raise Unsupported("where with a function")
    if isinstance(x, DF) and not isinstance(cond, DF) or isinstance(x, Series) and not isinstance(cond, Series):
        raise Unsupported("where with this condition")
    if isinstance(x, Series):
        if not (same_shape(x.dom, cond.dom) and model.same_labels(x.dom, cond.dom) is True):
            raise Unsupported("where with other labels")
        r = elementwise(lambda v, c: ite(boolv(c) if keep else b_not(boolv(c)), lambda: v, lambda: other), x, Series(cond.dom, cond.fn, x.name))
        return r
    return elementwise(lambda v, c: ite(boolv(c) if keep else b_not(boolv(c)), lambda: v, lambda: other), x, cond)


def clip(x, lo, hi):
    x = num(x)
    if x.v is None:
        return x
    v = x.v
    if lo is not None:
        v = z3.If(v < rv(lo), rv(lo), v)
    if hi is not None:
        v = z3.If(v > rv(hi), rv(hi), v)
    return V(x.nan, v)


def np_clip(x, a_min=None, a_max=None, **kw):
    return elementwise(lambda v: clip(v, a_min, a_max), x)


def logv(x):
    x = num(x)
    if x.v is None:
        return x
    if cx.__dict__.get("divmode") == "ieee":
        core.trust("log of a negative number is missing, log(0) is a fixed negative number (stands for -inf)")
        ninf = z3.Real("neginf")
        core.add_axiom_local(ninf <= -1)
        if core.never(simp(x.v <= 0)):
            return s_un("log", x)
        l = s_un("log", x)
        return V(b_or(x.nan, simp(x.v < 0)), z3.If(x.v == 0, ninf, l.v))
    # log of a non-positive number is -inf or NaN: those values are kept apart
    core.side(b_or(x.nan, x.v > 0), "argument of log is positive")
    return s_un("log", x)


def np_all(x, **kw):
    if is_container(x):
        if isinstance(x, DF) or (isinstance(x, Arr) and len(x.doms) == 2):
            raise Unsupported("np.all 2-d")
        return red_all(x.dom, x.fn, "all")
    return boolv(x)


def np_any(x, **kw):
    if is_container(x):
        return red_all(x.dom, x.fn, "any")
    return boolv(x)


def concat_groups(g):
    """pd.concat(axis=1) of a loop-filled list of one-column frames whose rows are prefixes of one axis."""
    k = freshint("cg")
    sizes, ax = [], None
    for r in range(g.w):
        a = sz(zi(k) * g.w + r - zi(g.off))
        with hyp(k >= 0, k < zi(g.count), zi(a) >= 0, zi(a) < zi(g.size)):
            x = g.item(k, r)
            if not isinstance(x, DF) or len(x.cols.blocks) != 1 or x.cols.blocks[0].k:
                raise Unsupported("concatenation of a symbolic list")
            bl = x.rows.single()
            p = freshint("cp")
            with hyp(bl.inrange((p,))):
                l = x.rows.lab((0, (p,)))
            if not isinstance(l, Lab) or not entails(zi(l.pos) == p) or (ax is not None and ax is not l.base):
                raise Unsupported("concatenation of frames over different axes")
            ax = l.base
            sizes.append((a, bl.sizes[0], r))
    best = None
    for a, s, r in sizes:
        for e in (z3.IntVal(0), sz(zi(g.size) - 1), sz(zi(g.size) - 2), z3.IntVal(1)):
            # the member of kind r at position e or next to it
            q = freshint("cq")
            kk = sz((zi(e) + zi(g.off) - r) / g.w)
            m = sz(z3.substitute(zi(s), (k, zi(kk)))) if isz(s) else s
            at = sz(zi(kk) * g.w + r - zi(g.off))
            if not entails(b_and(simp(zi(at) >= 0), simp(zi(at) < zi(g.size)))):
                continue
            if all(ub(k, g, a2, s2, m) for a2, s2, r2 in sizes):
                best = m
                break
        if best is not None:
            break
    if best is None:
        raise Unsupported("rows of a symbolic concatenation")

    def at(q, f):
        return f(g.get(q))

    def cellf(r, c):
        x = g.get(c[1][0])
        p = r[1][0]
        return ite(simp(zi(p) < zi(x.rows.single().sizes[0])), lambda: x.cell((0, (p,)), (0, ())), lambda: NAN)
    col = Block((g.size,), lab=lambda q: g.get(q).cols.lab((0, ())))
    col.groups = g
    return DF(Dom([model.axis_block(ax, 0, best)]), Dom([col]), cellf)


def ub(k, g, a, s, m):
    with hyp(k >= 0, k < zi(g.count), zi(a) >= 0, zi(a) < zi(g.size)):
        return entails(zi(s) <= zi(m))


def pd_concat(objs, axis=0, **kw):
    if isinstance(objs, SList) and len(objs.parts) == 1 and isinstance(objs.parts[0][1], model.Groups) and axis_no(axis) == 1 and not kw:
        return concat_groups(objs.parts[0][1])
    xs = as_list(objs)
    if xs is None or [k for k in kw if k not in ("sort",)]:
        raise Unsupported("concat")
    if axis_no(axis) == 1:
        out = xs[0] if isinstance(xs[0], DF) else series_to_frame(xs[0])
        for y in xs[1:]:
            y = y if isinstance(y, DF) else series_to_frame(y)
            u = union_labels(out.rows, y.rows)
            if u is not out.rows and same_labels(u, out.rows) is not True:
                a, b = out, y
                ra, ca, cb = u, a.cell, b.cell
                n = len(a.cols.blocks)
                out = DF(u, Dom(a.cols.blocks + b.cols.blocks),
                         lambda r, c, ar=a.rows, ac=a.cell, br=b.rows, bc=b.cell, n=n, u=u: lookup(ar, u.lab(r), lambda q: ac(q, c), lambda: NAN) if c[0] < n
                         else lookup(br, u.lab(r), lambda q: bc(q, (c[0] - n, c[1])), lambda: NAN))
            else:
                out = df_join(out, y)
        return out
    if all(isinstance(x, Series) for x in xs):
        blocks, src = [], []
        for x in xs:
            for k, b in enumerate(x.dom.blocks):
                blocks.append(b)
                src.append((x.fn, k))
        return Series(Dom(blocks), lambda pt: src[pt[0]][0]((src[pt[0]][1], pt[1])), xs[0].name)
    if all(isinstance(x, DF) for x in xs):
        names = []
        for x in xs:
            for b in x.cols.blocks:
                if b.k:
                    raise Unsupported("concat of axis columns")
                if b.lab() not in names:
                    names.append(b.lab())
        if kw.get("sort"):
            names = sorted(names)
        blocks, src = [], []
        for x in xs:
            for k, b in enumerate(x.rows.blocks):
                blocks.append(b)
                cp = {bb.lab(): (i, ()) for i, bb in enumerate(x.cols.blocks)}
                src.append((x.cell, k, cp))

        def cellf(r, c):
            cell, k, cp = src[r[0]]
            nm = names[c[0]]
            return cell((k, r[1]), cp[nm]) if nm in cp else NAN
        return DF(Dom(blocks), Dom([const_block(n) for n in names]), cellf)
    raise Unsupported("concat")


def np_nan_to_num(x, copy=True, nan=0.0, **kw):
    if nan not in (0, 0.0) or kw:
        raise Unsupported("nan_to_num options")
    if copy is False or copy == 0:
        # in place: the column the array belongs to is written to
        if not isinstance(x, Arr) or getattr(x, "src", None) is None:
            raise Unsupported("nan_to_num in place")
        r = elementwise(lambda v: replace_val(v, NAN, 0), x)
        df_setcol(x.src[0], x.src[1], r)
        return r
    return elementwise(lambda v: replace_val(v, NAN, 0), x)


def gmean(a, **kw):
    d, f = domfn(a)
    if len(d.blocks) != 1 or d.blocks[0].k != 1:
        raise Unsupported("geometric mean of a composite vector")
    bl = d.blocks[0]
    core.trust("scipy.stats.gmean is exp of the mean of the logarithms")
    g = lambda w: True if bl.guard is None else bl.guard(w)
    t = aggregate("sum", 0, bl.sizes[0], lambda w: (g(w), s_un("log", f((0, (w,))))))
    return s_un("exp", core.s_div(V(False, t), num(d.size())))


def arr_mean(a):
    return red_mean(a.dom, a.fn, False)


ARR = {
    "size": lambda a: a.dom.size() if len(a.doms) == 1 else s_bin("*", a.doms[0].size(), a.doms[1].size()),
    "shape": lambda a: tuple(d.size() for d in a.doms),
    "T": lambda a: a if len(a.doms) == 1 else Arr([a.doms[1], a.doms[0]], lambda r, c: a.fn(c, r)),
    "ndim": lambda a: len(a.doms),
}
def arr_std(a, ddof=0, var=False, **kw):
    """numpy's: a missing value makes the result missing."""
    if kw or not all(entails(b_not(num(a.fn(pt)).nan)) for pt, _ in [(p, 0) for p, _ in a.dom.pts()]):
        raise Unsupported("std of an array with missing values")
    r = red_std(a.dom, a.fn, ddof)
    return r if var else s_un("sqrt", r)


ARR_M = {
    "std": arr_std, "var": lambda a, ddof=0, **kw: arr_std(a, ddof, True, **kw),
    "sum": lambda a, **kw: red_sum(a.dom, a.fn, False),
    "mean": lambda a, **kw: arr_mean(a),
    "min": lambda a, **kw: red_ext("min", a.dom, a.fn),
    "max": lambda a, **kw: red_ext("max", a.dom, a.fn),
    "astype": lambda a, t, **kw: (lambda n: elementwise(lambda x: astype_val(n, x), a))(dtype_name(t)),
    "copy": lambda a: a,
    "tolist": lambda a: list_of(a),
    "cumprod": lambda a, **kw: np_cumprod(a),
    "cumsum": lambda a, **kw: np_cumsum(a),
    "any": lambda a, **kw: red_all(a.dom, a.fn, "any"),
    "all": lambda a, **kw: red_all(a.dom, a.fn, "all"),
    "nonzero": lambda a: np_where(a),
    "item": lambda a: series_item(Series(a.dom, a.fn)),
    "flatten": lambda a: a if len(a.doms) == 1 else _uns("flatten"),
    "ravel": lambda a: a if len(a.doms) == 1 else ravel(a),
}


def ravel(a):
    rd, cd = a.doms
    if len(rd.blocks) != 1 or len(cd.blocks) != 1:
        raise Unsupported("ravel")
    rb, cb = rd.blocks[0], cd.blocks[0]
    if rb.guard is not None or cb.guard is not None:
        raise Unsupported("ravel of a filtered array")
    nr = rb.k
    return Arr([Dom([Block(rb.sizes + cb.sizes, None, None)])], lambda pt: a.fn((0, pt[1][:nr]), (0, pt[1][nr:])))


def arr_getitem(a, key):
    if len(a.doms) == 2:
        raise Unsupported("2-d array indexing")
    if isinstance(key, tuple) and len(key) == 1:
        key = key[0]
    if isinstance(key, BagWhere):
        return where_getitem(a, key)
    d, fn = a.dom, a.fn
    if isinstance(key, slice):
        if key.step == -1 and key.start is None and key.stop is None:
            nd, back = reverse_dom(d)
        elif key.step in (None, 1):
            lo, hi = norm_slice(d.size(), key.start, key.stop)
            nd, back = slice_dom(d, lo, hi)
        else:
            raise Unsupported("slice step")
        return Arr([plain(nd)], lambda pt: fn(back(pt)))
    if isinstance(key, (Arr, Series)) and bool_series(key):
        mf = transfer(key.dom, key.fn, d)
        nd, back = filter_dom(d, lambda pt: boolv(mf(pt)))
        return Arr([plain(nd)], lambda pt: fn(back(pt)))
    if isinstance(key, tuple) and len(key) == 1:
        return arr_getitem(a, key[0])
    if isinstance(key, Arr):
        kf = key.fn
        return Arr([plain(key.dom)], lambda pt: d.at(toint(kf(pt)), fn))
    if isinstance(key, int) and key == 0 and len(d.blocks) == 1 and d.blocks[0].guard is not None:
        v = model.common_value(d.blocks[0], lambda q: fn((0, (q,))))
        if v is not None:
            return v
    return d.at(norm_pos(key, d), fn)


for _t in (BAG_M, SERIES_M, INDEX_M, DFM, GBM, ARR_M):
    for _n in _t:
        _t[_n] = strict(_t[_n], own=_n in OWN)
