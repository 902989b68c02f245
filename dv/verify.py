"""Verification harness: runs a function of the real code symbolically under its contract's precondition and discharges
the postcondition obligations.  Results are (name, status) with status proved / refuted / undecided."""
import os
import time
import traceback
import z3
import concrete
import core
import model
import pdops as P
import interp as I
from core import (V, NAN, Lab, SStr, Opaque, Unsupported, PyRaise, cx, simp, b_and, b_or, b_not, zi, zb, num, s_eq, hyp,
                  decide, entails, isz, is_int, is_num, aggregate, ite)
from model import BaseAx, Dom, Block, Series, DF, Index, Arr, SList, axis_block, const_block, freshint, sz


DEBUG = os.environ.get("DVDEBUG")
CROSS = float(os.environ.get("DVCROSS", "0"))     # developer mode: evaluate proved goals at concrete samples for so many seconds
SEARCH = 25.                                      # seconds per contract spent on counterexamples to undischarged goals


def conditions(g):
    """Integer conditions of the if-then-else terms of g (outside aggregate bodies), innermost first."""
    out, seen = [], set()

    def walk(x):
        if x.get_id() in seen:
            return
        seen.add(x.get_id())
        for c in x.children():
            walk(c)
        if x.decl().kind() == z3.Z3_OP_ITE and simple_int(x.arg(0)):
            out.append(x.arg(0))
    walk(g)
    return out


def simple_int(c):
    for x in core.consts_of(c).values():
        if x.get_id() in cx.aggs or x.num_args() > 0 or not (z3.is_int(x) or z3.is_bool(x)):
            return False
    return True


def split_prove(g, hyps, timeout, depth=0):
    """core.prove with case distinctions on the integer conditions of the goal."""
    t0 = core.time.time()
    with hyp(*hyps):
        g0 = g
        while True:
            cs = conditions(g)
            undecided = None
            changed = False
            for c in cs:
                d = decide(c)
                if d is not None:
                    g = z3.simplify(z3.substitute(g, (c, z3.BoolVal(d))))
                    changed = True
                    break
                if undecided is None:
                    undecided = c
            if not changed:
                break
        if undecided is None or depth >= 7:
            return core.prove(g, (), timeout)
        tot, worst = 0., None
        back = set()
        for c in (undecided, z3.Not(undecided)):
            with hyp(c):
                if not core.feasible():
                    continue
                gg = z3.simplify(z3.substitute(g, (undecided, z3.BoolVal(c is undecided))))
                r = split_prove(gg, (), timeout, depth + 1)
            if r.status != "proved":
                return r
            back.add(r.backend)
        return core.Result("proved", "", core.time.time() - t0, backend="+".join(sorted(back)) or "z3")


def int_vars(e, seen=None):
    """Integer constants in e (also inside aggregate bodies)."""
    seen = set() if seen is None else seen
    out = set()
    for x in core.consts_of(e).values():
        if x.get_id() in cx.aggs:
            if x.get_id() not in seen:
                seen.add(x.get_id())
                for y in cx.aggs[x.get_id()].bexpr:
                    out |= int_vars(y, seen)
        elif z3.is_int(x) and x.num_args() == 0:
            out.add(x.get_id())
    return out


class Obl:
    def __init__(self, name):
        self.name, self.status, self.reason, self.time, self.backend = name, "proved", "", 0., set()
        self.model = None

    def add(self, status, reason="", t=0., backend=None):
        rank = {"proved": 0, "undecided": 1, "refuted": 2}
        if rank[status] > rank[self.status]:
            self.status, self.reason = status, reason
        self.time += t
        if backend:
            self.backend.add(backend)


class Checker:
    """Collects the obligations of one contract."""
    def __init__(self, ip, w, qual, timeout=8000):
        self.ip, self.w, self.qual, self.timeout = ip, w, qual, timeout
        self.obls = {}
        self.order = []
        self.inv = []            # loop invariants: fn(RecFn) -> spec(args) or None
        self.lemma_done = {}

    def ob(self, name):
        full = "{}: {}".format(self.qual, name)
        if full not in self.obls:
            self.obls[full] = Obl(full)
            self.order.append(full)
        return self.obls[full]

    # ---------------------------------------------------------------- goals
    def goal(self, name, g, hyps=()):
        o = self.ob(name)
        try:
            g = simp(g) if not isinstance(g, bool) else g
            if g is True:
                o.add("proved", backend="rewriting")
                return True
            if g is False:
                if not core.feasible():
                    o.add("proved", backend="z3")
                    return True
                self.failed(o, False, (), core.Result(self.strength([z3.BoolVal(False)]), "the result differs from the contract on every input of this path"))
                return False
            r = self.prove(g, hyps)
        except Unsupported as e:
            o.add("undecided", str(e))
            return False
        if r.status == "proved":
            o.add("proved", t=r.time, backend=r.backend)
            if CROSS:
                m = concrete.refute(g, hyps, CROSS, 12)
                print("CROSS", concrete.refute.count, "FALSE" if m else "", o.name, m or "", flush=True)
            return True
        self.failed(o, g, hyps, r)
        return False

    def failed(self, o, g, hyps, r):
        """An undischarged goal: look for a concrete counterexample."""
        st, why = ("refuted" if r.status == "refuted" else "undecided"), r.reason
        left = getattr(self, "search_s", SEARCH)
        if left > 0:
            t0 = core.time.time()
            try:
                m = concrete.refute(g, hyps, min(left, 5.))
            except Exception as e:       # the search is best effort: the obligation stays undischarged
                m, why = None, "{} (counterexample search: {})".format(why, e)
            self.search_s = left - (core.time.time() - t0)
            if m is not None:
                o.model = m
                st, why = "refuted", "counterexample at n = {}: {}".format(m["n"], r.reason if g is False else str(g)[:300])
        o.add(st, why, r.time, r.backend)

    def strength(self, exprs):
        """refuted is claimed only for goals without abstraction (aggregates, recursive or uninterpreted functions)."""
        for e in list(exprs) + list(cx.hyps):
            for x in core.consts_of(e).values():
                nm = x.decl().name()
                if x.get_id() in cx.aggs or nm in cx.recs or x.num_args() and nm not in ("C", "W", "x", "o", "d") and not nm.startswith(("lab_", "col_")):
                    return "undecided"
        return "refuted"

    def prove(self, g, hyps=()):
        """Discharge a goal, with lemmas for recursive functions (loop invariants by strong induction)."""
        self.prepare([g] + list(hyps) + list(cx.hyps))
        r = split_prove(g, hyps, self.timeout)
        if r.status == "refuted":
            if self.strength([g] + list(hyps)) != "refuted" or r.model is None:
                r.status = "undecided"
        elif r.status == "unknown":
            r.status = "undecided"
        return r

    def prepare(self, exprs):
        """Make sure every recursive function occurring (transitively) has its invariant proved as a lemma."""
        seen, todo = set(), list(exprs)
        while todo:
            e = todo.pop()
            for x in core.consts_of(e).values():
                if x.get_id() in cx.aggs and x.get_id() not in seen:
                    seen.add(x.get_id())
                    todo += [z for z in cx.aggs[x.get_id()].bexpr]
                nm = x.decl().name()
                if nm in cx.recs:
                    self.lemma(cx.recs[nm])

    def lemma(self, f):
        if f.name in self.lemma_done:
            return
        self.lemma_done[f.name] = False
        spec = None
        for i in self.inv:
            spec = i(f)
            if spec is not None:
                break
        if spec is None:
            return
        o = self.ob("loop invariant of {}".format(getattr(f, "desc", f.name.split("_")[-1])))
        a = [freshint("a") for _ in range(f.arity)]
        try:
            base = {h.get_id() for h in self.base_hyps}
            extra = self.relevant(f, a, [h for h in f.hyps if h.get_id() not in base])
            save, cx.hyps = cx.hyps, list(self.base_hyps) + extra
            try:
                with hyp(*f.ranges(*a)):
                    m = f.measure(*a)

                    def ih(*b):
                        s = num(spec(*b))
                        app = f(*b)
                        pre = b_and(*f.ranges(*b), simp(zi(f.measure(*b)) < zi(m)))
                        return z3.Implies(zb(pre), zb(self.veq(app, s)))
                    eq, _, body = f.unfold(a)
                    s = num(spec(*a))
                    g = self.veq(body, s)
                    cx.recfacts[f.name] = ih
                    self.prepare([zb(g)] if not isinstance(g, bool) else [])
                    r = split_prove(g, (), self.timeout) if not isinstance(g, bool) else core.Result("proved" if g else "refuted", backend="rewriting")
            finally:
                cx.hyps = save
                cx.recfacts.pop(f.name, None)
        except Unsupported as e:
            o.add("undecided", str(e))
            return
        if r.status == "proved":
            o.add("proved", t=r.time, backend=r.backend)
            self.lemma_done[f.name] = True

            def fact(*b):
                return z3.Implies(zb(b_and(*f.ranges(*b), *extra)), zb(self.veq(f(*b), num(spec(*b)))))
            cx.recfacts[f.name] = fact
        else:
            o.add("undecided", r.reason, r.time, r.backend)

    def relevant(self, f, a, hs):
        """The creation hypotheses of f that constrain a variable its body or range mentions."""
        if not hs:
            return []
        save, cx.hyps = cx.hyps, list(self.base_hyps) + hs
        try:
            rng = f.ranges(*a)
            with hyp(*rng):
                eq, _, _ = f.unfold(a)
        finally:
            cx.hyps = save
        used = set()
        for e in [eq] + [zb(r) for r in rng]:
            used |= int_vars(e)
        used -= {x.get_id() for x in a}
        base = set()
        for h in self.base_hyps:
            base |= int_vars(h)
        used -= base
        return [h for h in hs if int_vars(h) & used or not int_vars(h) - base]

    def rec_lemma(self, name, f, prop):
        """prop(value of f at its arguments, arguments) by induction on the measure of f; then a fact about f."""
        a = [freshint("a") for _ in range(f.arity)]
        o = self.ob(name)
        old = cx.recfacts.get(f.name)
        P_ = lambda v, *b: z3.Implies(zb(b_and(*f.ranges(*b))), zb(prop(v, *b)))
        try:
            with hyp(*f.ranges(*a)):
                m = f.measure(*a)
                cx.recfacts[f.name] = lambda *b: z3.Implies(zi(f.measure(*b)) < zi(m), P_(f(*b), *b))
                _, _, body = f.unfold(a)
                r = split_prove(zb(prop(num(body), *a)), (), self.timeout)
        except Unsupported as e:
            r = core.Result("undecided", str(e))
        if r.status == "proved":
            o.add("proved", t=r.time, backend=r.backend)
            cx.recfacts[f.name] = lambda *b: P_(f(*b), *b)
            return True
        o.add("undecided", r.reason, r.time, r.backend)
        cx.recfacts[f.name] = old
        return False

    @staticmethod
    def veq(a, b):
        a, b = num(a), num(b)
        an, bn = a.nan, b.nan
        if a.v is None and b.v is None:
            return True
        if a.v is None:
            return bn
        if b.v is None:
            return an
        if an is False and bn is False:
            return simp(a.v == b.v)
        same = (an == bn) if isinstance(an, bool) and isinstance(bn, bool) else simp(zb(an) == zb(bn))
        return simp(b_and(same, b_or(an, a.v == b.v)))

    # ---------------------------------------------------------------- values
    def value(self, name, got, want):
        o = self.ob(name)
        try:
            if isinstance(want, (str, SStr, Lab)) or isinstance(got, (str, SStr, Lab)):
                if isinstance(want, (str, type(None))) and isinstance(got, (str, type(None))):
                    g = want == got
                else:
                    g = s_eq(got, want)
                if isinstance(want, Lab) and isinstance(got, Lab) and got.base is not want.base:
                    o.add("refuted" if False else "undecided", "labels of different axes")
                    return False
            elif isinstance(got, Opaque):
                o.add("undecided", str(got))
                return False
            else:
                g = self.veq(got, want)
        except Unsupported as e:
            o.add("undecided", str(e))
            return False
        return self.goal(name, g)

    def eqdom(self, name, got, want):
        """Label-by-label equality of two domains; returns a function got-point -> want-point, or None."""
        o = self.ob(name + " labels")
        try:
            ok = model.same_labels(got, want) is True and model.same_shape(got, want)
            if ok:
                o.add("proved", backend="z3")
                return lambda pt: pt
            if not got.positional():
                o.add("undecided", "domain of the result is not positional")
                return None
            if not self.goal(name + " size", zi(got.size()) == zi(want.size())):
                return None
            bad = False
            for pt, _ in got.pts():
                with hyp(got.present(pt)):
                    wpt = self.wpoint(got, pt, want)
                    if not self.value(name + " labels", got.lab(pt), want.lab(wpt)):
                        bad = True
            return None if bad else (lambda pt: self.wpoint(got, pt, want))
        except Unsupported as e:
            o.add("undecided", str(e))
            return None

    def wpoint(self, got, pt, want):
        return want.point(got.pos(pt))

    def series(self, name, got, dom, fn, sname=None):
        o = self.ob(name + " is a series")
        if not isinstance(got, Series):
            o.add("undecided", "got {!r}".format(got))
            return
        o.add("proved")
        m = self.eqdom(name, got.dom, dom)
        if m is None:
            return
        for pt, _ in got.dom.pts():
            def run():
                self.value(name + " values", got.fn(pt), fn(m(pt)))
            self.under(name, got.dom.present(pt), run)
        if sname is not None:
            self.value(name + " name", got.name, sname)

    def arr(self, name, got, dom, fn):
        o = self.ob(name + " is a vector")
        if isinstance(got, (SList, model.Seq)):
            d, f = P.domfn(got)
        elif isinstance(got, (Arr, Series)):
            d, f = got.dom, got.fn
        else:
            o.add("undecided", "got {!r}".format(got))
            return
        o.add("proved")
        d, f = d, f
        if not self.goal(name + " size", zi(d.size()) == zi(dom.size())):
            return
        for pt, _ in d.pts():
            self.under(name, d.present(pt), lambda pt=pt: self.value(name + " values", f(pt), fn(dom.point(d.pos(pt)))))

    def frame(self, name, got, rows, cols, cell, tag=None, index=True):
        o = self.ob(name + " is a frame")
        if not isinstance(got, DF):
            o.add("undecided", "got {!r}".format(got))
            return
        o.add("proved")
        if index:
            mr = self.eqdom(name + " index", got.rows, rows)
        else:       # rows are compared by position
            mr = (lambda pt: self.wpoint(got.rows, pt, rows)) if self.goal(name + " number of rows", zi(got.rows.size()) == zi(rows.size())) else None
        mc = self.eqdom(name + " columns", got.cols, cols)
        if mr is None or mc is None:
            return
        for r, _ in got.rows.pts():
            for c, _ in got.cols.pts():
                def run(r=r, c=c):
                    cp = mc(c)
                    self.value(name + " values" + (tag(mr(r)) if tag else "") + self.colname(cols, cp), got.cell(r, c), cell(mr(r), cp))
                self.under(name, b_and(got.rows.present(r), got.cols.present(c)), run)

    def table(self, name, got, present, keys, *vals):
        """Long table: exactly one row per (i, j) with present(i, j), sorted by origin then development period; key columns
        carry the labels and each (column, fn) of vals the value fn(i, j)."""
        w = self.w
        o = self.ob(name + " is a table")
        if not isinstance(got, DF):
            o.add("undecided", "got {!r}".format(got))
            return
        if len(got.rows.blocks) != 1 or got.rows.blocks[0].k != 2:
            o.add("undecided", "rows of the table are not indexed by two parameters")
            return
        o.add("proved")
        bl = got.rows.blocks[0]
        cols = {}
        for k, b in enumerate(got.cols.blocks):
            if b.k != 0 or not isinstance(b.lab(), str):
                o.add("undecided", "column labels")
                return
            cols[b.lab()] = k
        want = list(keys) + [v[0] for v in vals]
        self.goal(name + " columns", list(cols) == want or set(cols) == set(want))
        if set(cols) != set(want):
            return
        ps = tuple(freshint("tp") for _ in bl.sizes)

        def run():
            ko = got.cell((0, ps), (cols[keys[0]], ()))
            kd = got.cell((0, ps), (cols[keys[1]], ()))
            ko, kd = aslab(w.OX, ko), aslab(w.DX, kd)
            if ko is None or kd is None:
                self.ob(name + " keys").add("undecided", "key columns are not labels")
                return
            i, j = ko.pos, kd.pos
            self.goal(name + " rows are observed cells", b_and(present(i, j), zi(i) >= 0, zi(i) < w.n, zi(j) >= 0, zi(j) < w.m))
            for vn, f in vals:
                self.value(name + " values of " + vn, got.cell((0, ps), (cols[vn], ())), f(i, j))
        self.under(name, bl.present(ps), run)
        # every observed cell occurs exactly once
        i, j = freshint("i"), freshint("j")
        with hyp(i >= 0, j >= 0, i < w.n, j < w.m, present(i, j)):
            eqs = [(lambda *p: aslab(w.OX, got.cell((0, p), (cols[keys[0]], ()))), Lab(w.OX, i)),
                   (lambda *p: aslab(w.DX, got.cell((0, p), (cols[keys[1]], ()))), Lab(w.DX, j))]
            try:
                r = model.solve_eqs(bl, eqs)
            except Unsupported as e:
                r = None
            if r is None:
                self.ob(name + " lists every cell").add("undecided", "cannot solve for the row of a cell")
            else:
                self.goal(name + " lists every cell", r[1])
        # order: significance origin first, both ascending
        co = model.coef(bl, lambda *p: aslab(w.OX, got.cell((0, p), (cols[keys[0]], ()))), bl.order[0])
        cd = model.coef(bl, lambda *p: aslab(w.DX, got.cell((0, p), (cols[keys[1]], ()))), bl.order[1])
        self.ob(name + " order").add("proved" if co == 1 and cd == 1 else "undecided", "row order", backend="z3")

    def listing(self, name, got, sizes, present, value):
        """A vector listing value(*ps) for the points ps of a box (of the given sizes) with present(*ps), last parameter
        fastest."""
        o = self.ob(name + " is a listing of cells")
        dom = getattr(got, "dom", None)
        if dom is None or len(dom.blocks) != 1 or dom.blocks[0].k != len(sizes) or dom.blocks[0].order != tuple(range(len(sizes))):
            o.add("undecided", "got {!r}".format(got))
            return
        o.add("proved")
        bl = dom.blocks[0]
        for a, b in zip(bl.sizes, sizes):
            self.goal(name + " extent", zi(a) == zi(b))
        ps = tuple(freshint("lp") for _ in sizes)

        def run():
            g = True if bl.guard is None else bl.guard(*ps)
            self.goal(name + " lists exactly the cells required", zb(g) == zb(present(*ps)))
            self.under(name, b_and(g, present(*ps)), lambda: self.value(name + " values", got.fn((0, ps)), value(*ps)))
        self.under(name, bl.inrange(ps), run)

    def reader(self, got, keys):
        """get(column, *keys): the value of a column in the row of a key, for tables whose row parameters are the keys."""
        bl = got.rows.blocks[0]
        cols = {b.lab(): k for k, b in enumerate(got.cols.blocks)}
        perm = {}
        for d in range(bl.k):
            for k, (c, ax) in enumerate(keys):
                f = lambda *p: (lambda x: x if ax is None or x is None else aslab(ax, x).pos)(got.cell((0, tuple(p)), (cols[c], ())))
                ps = [freshint("rp") for _ in bl.sizes]
                with hyp(bl.present(ps)):
                    x = f(*ps)
                    if is_int(x) and entails(zi(x) == ps[d]):
                        perm[d] = k
        if len(perm) < bl.k:
            raise Unsupported("rows are not indexed by the keys")

        def get(col, *ks):
            return got.cell((0, tuple(ks[perm[d]] for d in range(bl.k))), (cols[col], ()))
        return get

    def listed(self, name, got, keys, sizes, present, vals, order, only=True, goals=()):
        """Long table with exactly one row per key tuple that is present, sorted by the columns `order` (the keys that vary):
        keys = [(column, axis or None for integers)], sizes = number of values of each key, vals = [(column, fn(*keys))] where
        a value may be a (label, goal) pair instead."""
        o = self.ob(name + " is a table")
        if not isinstance(got, DF) or len(got.rows.blocks) != 1 or any(b.k or not isinstance(b.lab(), str) for b in got.cols.blocks):
            o.add("undecided", "got {!r}".format(got))
            return
        o.add("proved")
        bl = got.rows.blocks[0]
        cols = {b.lab(): k for k, b in enumerate(got.cols.blocks)}
        want = [k for k, _ in keys] + [v[0] for v in vals]
        self.goal(name + " columns", set(cols) == set(want) if only else set(want) <= set(cols))
        if not set(want) <= set(cols):
            return

        def key(k, ps):
            c, ax = keys[k]
            x = got.cell((0, tuple(ps)), (cols[c], ()))
            if ax is not None:
                x = aslab(ax, x)
                return None if x is None else x.pos
            if isinstance(x, V):
                x = core.toint(x) if x.nan is False else None
            return x if is_int(x) else None
        ps = tuple(freshint("tp") for _ in bl.sizes)

        def run():
            ks = [key(k, ps) for k in range(len(keys))]
            if any(k is None for k in ks):
                self.ob(name + " keys").add("undecided", "key columns are not keys")
                return
            self.goal(name + " rows are the required ones", b_and(present(*ks), *[b_and(zi(k) >= 0, zi(k) < zi(s)) for k, s in zip(ks, sizes)]))
            for vn, f in vals:
                self.value(name + " values of " + vn, got.cell((0, ps), (cols[vn], ())), f(*ks))
            for gn, f in goals:
                self.goal(name + ": " + gn, f(*ks))
        self.under(name, bl.present(ps), run)
        qs = [freshint("key") for _ in keys]
        with hyp(*[z3.And(q >= 0, q < zi(s)) for q, s in zip(qs, sizes)], present(*qs)):
            eqs = []
            for k in range(len(keys)):
                ax = keys[k][1]
                eqs.append((lambda *p, k=k, ax=ax: Lab(ax, key(k, p)) if ax is not None else key(k, p), Lab(ax, qs[k]) if ax is not None else qs[k]))
            for d in range(len(bl.sizes)):
                with hyp(bl.present(ps)):
                    for t in model.linear_ends(zb(bl.present(ps)), ps[d]):
                        if not any(model.contains(t, p) for p in ps) and entails(ps[d] == t):
                            eqs.append((lambda *p, d=d: p[d], t))
                            break
            try:
                r = model.solve_eqs(bl, eqs)
            except Unsupported as e:
                r = None
            if r is None:
                self.ob(name + " lists every key").add("undecided", "cannot solve for the row of a key")
            else:
                self.goal(name + " lists every key", r[1])
        # no key twice: every row parameter is given by a key or has a single value; sorted: those parameters ascend
        given = []
        for d in bl.order:
            hit = [k for k in range(len(keys)) if model.coef(bl, lambda *p, k=k: key(k, p), d) == 1]
            if hit:
                given.append(keys[hit[0]][0])
            elif not P.fixed_param(bl, d):
                given.append(None)
        self.ob(name + " lists no key twice").add("proved" if None not in given else "undecided", "row parameter", backend="z3")
        self.ob(name + " order").add("proved" if given == list(order) else "undecided", "rows are ordered by {}".format(given), backend="z3")

    def colname(self, cols, cp):
        bl = cols.blocks[cp[0]]
        if bl.k == 0:
            l = cols.lab(cp)
            return " of column {}".format(l) if isinstance(l, str) else ""
        return ""

    def under(self, name, cond, run):
        """Run the checks under a hypothesis, on every path they fork into."""
        c = simp(cond) if not isinstance(cond, bool) else cond
        if c is False:
            return
        try:
            with hyp(c):
                if not core.feasible():
                    return
                for pc, r in core.explore(run):
                    if isinstance(r, PyRaise):
                        self.ob(name + " values").add("undecided", "raises {}".format(r.etype))
        except Unsupported as e:
            self.ob(name + " values").add("undecided", str(e))

    # ---------------------------------------------------------------- running
    def call(self, qual, args, kw=None):
        """Execute the body of the function under verification."""
        self.ip.active = qual
        self.ip.depth = 0
        f = self.ip.find(qual)
        if f is None:
            raise Unsupported("function {} not found".format(qual))
        return self.ip.call_func(f, list(args), dict(kw or {}))

    def new(self, cls, args, kw=None):
        """Construct an instance by executing the constructor under verification."""
        self.ip.active = cls + ".__init__"
        self.ip.depth = 0
        c = self.ip.classes.get(cls)
        if c is None:
            raise Unsupported("class {} not found".format(cls))
        return self.ip.instantiate(c, list(args), dict(kw or {}))

    def raises(self, name, thunk, etype):
        o = self.ob(name)
        try:
            thunk()
        except PyRaise as e:
            if e.etype == etype:
                o.add("proved")
                return
        self.goal(name, False)

    def unchanged(self, name, o, st):
        """Frame condition: modelled object o has the state st (as returned by o.state())."""
        ob = self.ob(name)
        now = o.state()
        if isinstance(o, DF):
            same = now[0] is st[0] and now[1] is st[1] and now[2] is st[2]
        else:
            same = all(a is b for a, b in zip(now, st)) if isinstance(now, tuple) else now == st
        ob.add("proved" if same else "undecided", "the object is written to")


def aslab(ax, x):
    if isinstance(x, Lab) and x.base is ax:
        return x
    if isz(x) and x.decl().name() == "lab_" + ax.name:
        return Lab(ax, x.arg(0))
    return None


def run_contract(ip, w, qual, body, timeout, tag=""):
    """body(ck) runs the function and states the obligations; explored over all paths."""
    ck = Checker(ip, w, qual + tag, timeout)
    ip.ck = ck
    cx.recfacts = {}
    ck.base_hyps = list(cx.hyps)
    t0 = time.time()
    main = ck.ob("no exception under the precondition")
    try:
        nside = len(cx.side)

        def one():
            ck.base_hyps = list(cx.hyps)
            ck.lemma_done = {}
            st = w.tri.state()
            ip.handed = []
            body(ck)
            ck.unchanged("the amounts of the triangle are not written to", w.tri, st)
            # a caller of an accessor may get the triangle's own cached object: writing to it would change later reads
            for q, o, s0 in ip.handed:
                ck.unchanged("what the accessor {} returned is not written to".format(q.split(".")[-1]), o, s0)
        paths = core.explore(one)
        for pc, r in paths:
            if isinstance(r, PyRaise):
                save, cx.hyps = cx.hyps, list(getattr(r, "hyps", cx.hyps))
                try:
                    if core.feasible() and r.etype in ("TypeError", "AttributeError", "NameError"):
                        main.add("undecided", "raises {} ({}): the contract does not fit the function".format(r.etype, r.msg))
                    elif core.feasible():
                        ck.failed(main, False, (), core.Result("undecided", "raises {} ({})".format(r.etype, r.msg)))
                finally:
                    cx.hyps = save
        # partial operations
        seen = set()
        so = ck.ob("divisors are non-zero")
        for hs, c, what in cx.side[nside:]:
            key = (tuple(sorted(h.get_id() for h in hs)), c.get_id())
            if key in seen:
                continue
            seen.add(key)
            save, cx.hyps = cx.hyps, list(hs)
            try:
                r = core.prove(c, (), min(timeout, 4000))
            finally:
                cx.hyps = save
            so.add("proved" if r.status == "proved" else "undecided", what, r.time, r.backend)
        if not cx.side[nside:]:
            so.add("proved", backend="none needed")
    except Unsupported as e:
        if DEBUG:
            traceback.print_exc()
        ck.ob("inside the verified subset").add("undecided", str(e))
    except (I.ReturnEx, z3.Z3Exception, RecursionError, KeyError, TypeError, AttributeError, IndexError, ValueError, AssertionError, NotImplementedError, P.NeedColumn) as e:
        if DEBUG:
            traceback.print_exc()
        tb = traceback.extract_tb(e.__traceback__)[-1]
        ck.ob("inside the verified subset").add("undecided", "verifier limitation: {} {} at {}:{}".format(
            type(e).__name__, e, tb.filename.split("/")[-1], tb.lineno))
    ck.time = time.time() - t0
    return ck
