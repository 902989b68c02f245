"""Symbolic numpy/pandas objects over domains of symbolic size.

A Dom is a list of Blocks; a Block has parameters 0 <= p_k < sizes[k], a guard (which parameter tuples are present),
a label function and a row order (parameter significance).  A Series is (Dom, fn), a DataFrame (row Dom, column Dom,
cell).  Points are (block number, parameter tuple).  Anything outside the modelled subset raises Unsupported, so the
function is reported undecided; nothing is guessed.  The pandas semantics used here are assumptions of the proof and are
cross-checked against the installed pandas by dv/crosscheck.py."""
import z3
import core
from core import (V, NAN, Lab, SStr, Opaque, Unsupported, PyRaise, cx, simp, b_and, b_or, b_not, zi, zb, num, s_bin,
                  s_eq, s_cmp, s_isnan, s_un, s_neg, is_int, is_num, is_boolish, isz, ite, hyp, decide, entails,
                  aggregate, branch, toint, ite_val)


# ------------------------------------------------------------------ base axes
class BaseAx:
    """An axis of strictly increasing integer labels."""
    def __init__(self, name, size):
        self.name, self.size = name, size
        self.f = z3.Function("lab_" + name, z3.IntSort(), z3.IntSort())

    def term(self, pos):
        t = self.f(zi(pos))
        terms = cx.__dict__.setdefault("axterms", {}).setdefault(self.name, {})
        p = zi(pos)
        if p.get_id() not in terms:
            for q in terms.values():      # labels ascend strictly
                core.add_axiom_local(z3.And(z3.Implies(p < q, self.f(p) < self.f(q)), z3.Implies(q < p, self.f(q) < self.f(p))))
            terms[p.get_id()] = p
            cx.keep.append(p)
        return t


_q = [0]


def freshint(name="q"):
    return cx.fresh(name, z3.IntSort())


def lin(e, q):
    """e == a*q + r with integer constant a: (a, r) or None."""
    e = zi(e)
    r = z3.simplify(z3.substitute(e, (q, z3.IntVal(0))))
    a = z3.simplify(z3.substitute(e, (q, z3.IntVal(1))) - r)
    if not z3.is_int_value(a):
        return None
    d = z3.simplify(e - (a * q + r))
    if not (z3.is_int_value(d) and d.as_long() == 0):
        if not entails(d == 0):
            return None
    return a.as_long(), r


def contains(e, q):
    if not isz(e):
        return False
    i = q.get_id()
    stack, seen = [e], set()
    while stack:
        x = stack.pop()
        if x.get_id() == i:
            return True
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        stack.extend(x.children())
    return False


def zmax(a, b):
    d = decide(zi(a) >= zi(b))
    return a if d is True else b if d is False else z3.If(zi(a) >= zi(b), zi(a), zi(b))


def zmin(a, b):
    d = decide(zi(a) <= zi(b))
    return a if d is True else b if d is False else z3.If(zi(a) <= zi(b), zi(a), zi(b))


def sz(x):
    x = z3.simplify(zi(x))
    return x.as_long() if z3.is_int_value(x) else x


def interval(guard, lo, hi):
    """(L, H) with: for q in [lo, hi), guard(q) iff L <= q < H.  None when not found.  L <= H is not guaranteed."""
    q = freshint("iq")
    outer = tuple(h.get_id() for h in cx.hyps)
    with hyp(zi(lo) <= q, q < zi(hi)):
        g = guard(q)
        g = simp(g) if not isinstance(g, bool) else g
        if isinstance(g, bool):
            return (lo, hi) if g else (lo, lo)
        # the same question up to the name of q has the same answer
        same = z3.substitute(z3.And(zi(lo) <= q, q < zi(hi), g), (q, z3.Int("iq")))
        key = (outer, same.get_id(), len(cx.axioms), "interval")
        if key not in cx.cache:
            cx.cache[key] = (find_interval(g, q, lo, hi), same, list(cx.hyps))
        return cx.cache[key][0]


def find_interval(g, q, lo, hi):
    d = g if isinstance(g, bool) else decide(g)
    if d is True:
        return lo, hi
    if d is False:
        return lo, lo
    g0 = g
    g = tidy(g)
    d = g if isinstance(g, bool) else decide(g)
    if d is True:
        return lo, hi
    if d is False:
        return lo, lo
    r = _interval(g, q, lo, hi)
    if r is not None:
        L, H = sz(r[0]), sz(r[1])
        if entails(g0 == z3.And(zi(L) <= q, q < zi(H))):
            return L, H
    r = candidates(g, q, lo, hi)
    if r is None and cx.__dict__.get("theory") and not g0.eq(g):
        r = candidates(g0, q, lo, hi)
    if r is None:
        return None
    L, H = r
    return L, H


def tidy(g, depth=0):
    """Equivalent guard (under the hypotheses) with the if-then-else conditions lifted to its Boolean structure."""
    if isinstance(g, bool):
        return g
    while True:
        c = first_cond(g)
        if c is None:
            return prune(g)
        d = decide(c)
        if d is None:
            break
        g = z3.simplify(z3.substitute(g, (c, z3.BoolVal(d))))
    if depth > 6:
        return g
    with hyp(c):
        a = tidy(z3.simplify(z3.substitute(g, (c, z3.BoolVal(True)))), depth + 1)
    with hyp(z3.Not(c)):
        b = tidy(z3.simplify(z3.substitute(g, (c, z3.BoolVal(False)))), depth + 1)
    if isz(a) and isz(b) and a.eq(b):
        return a
    a, b = zb(a), zb(b)
    # a or b may be good for both cases
    if entails(z3.Implies(c, a == b)):
        return prune(b)
    if entails(z3.Implies(z3.Not(c), a == b)):
        return prune(a)
    return simp(z3.Or(z3.And(c, a), z3.And(z3.Not(c), b)))


def prune(g):
    """Drop the conjuncts / disjuncts that are settled by the hypotheses."""
    g = simp(g)
    if isinstance(g, bool):
        return g
    d = decide(g)
    if d is not None:
        return d
    k = g.decl().kind()
    if k in (z3.Z3_OP_AND, z3.Z3_OP_OR):
        out = []
        for x in g.children():
            d = decide(x)
            if d is (k == z3.Z3_OP_AND):
                continue
            out.append(x)
        # implied by the others
        i = 0
        while i < len(out) and len(out) > 1:
            rest = out[:i] + out[i + 1:]
            if k == z3.Z3_OP_AND:
                red = entails(z3.Implies(z3.And(*rest), out[i]))
            else:
                red = entails(z3.Implies(out[i], z3.Or(*rest)))
            if red:
                out = rest
            else:
                i += 1
        if len(out) == 1:
            return out[0]
        return z3.And(*out) if k == z3.Z3_OP_AND else z3.Or(*out)
    return g


def candidates(g, q, lo, hi):
    """Interval of a guard by guessing bounds among those of its atoms and validating the guess."""
    los, his = [sz(lo)], [sz(hi)] + list(cx.__dict__.get("bounds", ()))
    seen, stack, atoms = set(), [g], []
    while stack:
        x = stack.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        k = x.decl().kind()
        if k in (z3.Z3_OP_LE, z3.Z3_OP_LT, z3.Z3_OP_GE, z3.Z3_OP_GT, z3.Z3_OP_EQ) and z3.is_int(x.arg(0)):
            atoms.append(x)
        else:
            stack.extend(c for c in x.children() if z3.is_bool(c))
    for x in atoms:
        l = lin(x.arg(0) - x.arg(1), q) if contains(x, q) else None
        if l is None or l[0] not in (1, -1):
            continue
        b = sz(-l[1] if l[0] == 1 else l[1])
        for e in (b, sz(zi(b) + 1)):
            if not any(zi(e).eq(zi(y)) for y in los):
                los.append(e)
            if not any(zi(e).eq(zi(y)) for y in his):
                his.append(e)
    if len(los) > 9:
        return None
    for L in los:
        if not entails(z3.Implies(g, zi(L) <= q)):
            continue
        for H in his:
            if entails(g == z3.And(zi(L) <= q, q < zi(H))):
                return L, H
    return None


def first_cond(g):
    """An if-then-else condition of g without if-then-else inside."""
    stack = [g]
    seen = set()
    while stack:
        x = stack.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if x.decl().kind() == z3.Z3_OP_ITE:
            return first_cond(x.arg(0)) if first_cond(x.arg(0)) is not None else x.arg(0)
        stack.extend(x.children())
    return None


def _interval(g, q, lo, hi):
    if not contains(g, q):
        # constant guard: all or nothing
        d = decide(g)
        if d is True:
            return lo, hi
        if d is False:
            return lo, lo
        return lo, z3.If(g, zi(hi), zi(lo))
    k = g.decl().kind()
    if k == z3.Z3_OP_AND:
        L, H = lo, hi
        for c in g.children():
            r = _interval(c, q, lo, hi)
            if r is None:
                return None
            L, H = zmax(L, r[0]), zmin(H, r[1])
        return L, H
    if k == z3.Z3_OP_OR:
        rs = [(_interval(c, q, lo, hi), c) for c in g.children()]
        # drop disjuncts that are impossible, or implied by another one
        for r, c in rs:
            if r is not None and entails(g == c):
                return r
        return None
    if k == z3.Z3_OP_NOT:
        c = g.arg(0)
        kk = c.decl().kind()
        if kk == z3.Z3_OP_AND:
            return _interval(z3.Or([z3.Not(x) for x in c.children()]), q, lo, hi)
        if kk == z3.Z3_OP_OR:
            return _interval(z3.And([z3.Not(x) for x in c.children()]), q, lo, hi)
        if kk == z3.Z3_OP_NOT:
            return _interval(c.arg(0), q, lo, hi)
        if kk == z3.Z3_OP_LE:
            return _interval(c.arg(0) > c.arg(1), q, lo, hi)
        if kk == z3.Z3_OP_GE:
            return _interval(c.arg(0) < c.arg(1), q, lo, hi)
        if kk == z3.Z3_OP_LT:
            return _interval(c.arg(0) >= c.arg(1), q, lo, hi)
        if kk == z3.Z3_OP_GT:
            return _interval(c.arg(0) <= c.arg(1), q, lo, hi)
        if kk == z3.Z3_OP_EQ and z3.is_int(c.arg(0)):
            a, b = c.arg(0), c.arg(1)
            if entails(a <= b):
                return _interval(a < b, q, lo, hi)
            if entails(a >= b):
                return _interval(a > b, q, lo, hi)
        return None
    if k in (z3.Z3_OP_LE, z3.Z3_OP_LT, z3.Z3_OP_GE, z3.Z3_OP_GT, z3.Z3_OP_EQ) and z3.is_arith(g.arg(0)):
        a, b = g.arg(0), g.arg(1)
        if not z3.is_int(a):
            return None
        l = lin(a - b, q)
        if l is None:
            return None
        c, r = l
        if c not in (1, -1):
            return None
        # c*q + r  OP  0
        if k == z3.Z3_OP_EQ:
            v = -r if c == 1 else r
            return v, v + 1
        up = (k in (z3.Z3_OP_LE, z3.Z3_OP_LT)) == (c == 1)
        strict = k in (z3.Z3_OP_LT, z3.Z3_OP_GT)
        bnd = -r if c == 1 else r
        if up:                       # q <= bnd or q < bnd
            return lo, (bnd if strict else bnd + 1)
        return (bnd + 1 if strict else bnd), hi
    return None


def exists(guard, lo, hi):
    """Truth value of: some q in [lo, hi) has guard(q)."""
    q = freshint("ex")
    with hyp(zi(lo) <= q, q < zi(hi)):
        g = guard(q)
        d = g if isinstance(g, bool) else decide(g)
    if d is False:
        return False
    if d is True:
        return simp(zi(lo) < zi(hi))
    r = interval(guard, lo, hi)
    if r is not None:
        return tidy(simp(zi(r[0]) < zi(r[1])))
    r = exists_at_end(guard, g, q, lo, hi)
    if r is not None:
        return r
    for t in getattr(cx, "witnesses", ()):
        if entails(b_and(simp(zi(lo) <= zi(t)), simp(zi(t) < zi(hi)))) and entails(guard(t)):
            return True
    n = aggregate("any", lo, hi, lambda w: (guard(w), 1))
    b = n != 0
    return b


def exists_at_end(guard, g, q, lo, hi):
    """Some position satisfies the guard iff one particular position does: whenever any does, so does that one."""
    if isinstance(g, bool) or any(x.get_id() in cx.aggs or x.decl().name() in cx.recs for x in core.consts_of(g).values()):
        return None
    inr = z3.And(zi(lo) <= q, q < zi(hi))
    for w0 in linear_ends(z3.And(g, inr), q):
        here = z3.And(zi(lo) <= w0, w0 < zi(hi), zb(guard(w0)))
        if core._check(list(cx.hyps) + cx.axioms + [inr, g, z3.Not(here)], 700)[0] == z3.unsat:
            return tidy(simp(here))
    return None


def common_value(bl, f):
    """The value of f in every present row of a filtered block, when there is a present row and all agree: also the first one's."""
    if bl.guard is None or bl.k != 1:
        return None
    q = freshint("cv")
    with hyp(bl.inrange([q])):
        g = zb(bl.guard(q))
    cands = {}
    for x in core.consts_of(g).values():
        if x.num_args() and x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
            for a in x.children():
                if z3.is_int(a) and not contains(a, q):
                    cands[a.get_id()] = a
    for t in cands.values():
        if not entails(b_and(zi(t) >= 0, zi(t) < zi(bl.sizes[0]), z3.substitute(g, (q, zi(t))))):
            continue
        with hyp(bl.inrange([q]), g):
            a, b = f(q), f(sz(t))
            if is_int(a) and is_int(b) and entails(zi(a) == zi(b)):
                return b
            if isinstance(a, Lab) and isinstance(b, Lab) and a.base is b.base and entails(zi(a.pos) == zi(b.pos)):
                return b
    return None


def linear_ends(e, q):
    """Integer terms t with q (<|<=|=) t or the like occurring in e."""
    out, seen = [], set()

    def walk(c):
        if c.get_id() in seen:
            return
        seen.add(c.get_id())
        k = c.decl().kind()
        if k in (z3.Z3_OP_LE, z3.Z3_OP_GE, z3.Z3_OP_LT, z3.Z3_OP_GT, z3.Z3_OP_EQ) and z3.is_int(c.arg(0)):
            d = z3.simplify(c.arg(0) - c.arg(1))
            r = z3.simplify(z3.substitute(d, (q, z3.IntVal(0))))
            cf = z3.simplify(z3.substitute(d, (q, z3.IntVal(1))) - r)
            if z3.is_int_value(cf) and cf.as_long() in (1, -1):
                out.append(z3.simplify(-r if cf.as_long() == 1 else r))
            return
        for x in c.children():
            walk(x)
    walk(z3.simplify(e))
    return out



def forall(guard, lo, hi):
    return b_not(exists(lambda q: b_not(guard(q)), lo, hi))


# ------------------------------------------------------------------ domains
class Block:
    def __init__(self, sizes, lab=None, guard=None, order=None):
        self.sizes = tuple(sz(s) for s in sizes)
        self.lab = lab                   # params -> label, or None (positional RangeIndex)
        self.guard = guard               # params -> Bool, or None
        self.order = order if order is not None else tuple(range(len(self.sizes)))
        self.onto = frozenset()          # axes (or parameter numbers) every value of which occurs in a present row

    @property
    def k(self):
        return len(self.sizes)

    def inrange(self, ps):
        return b_and(*[b_and(simp(zi(p) >= 0), simp(zi(p) < zi(s))) for p, s in zip(ps, self.sizes)])

    def here(self, ps):
        """Hypotheses of a present row: the ranges and the guard (evaluated under the ranges)."""
        r = self.inrange(ps)
        if self.guard is None:
            return [r]
        with hyp(r):
            return [r, self.guard(*ps)]

    def present(self, ps):
        return b_and(*self.here(ps))

    def with_(self, **kw):
        d = dict(sizes=self.sizes, lab=self.lab, guard=self.guard, order=self.order)
        d.update(kw)
        b = Block(**d)
        if b.sizes == self.sizes and b.guard is self.guard:
            b.onto = self.onto
        return b

    def key(self):
        return tuple(zi(s).get_id() for s in self.sizes)


def const_block(label):
    return Block((), lab=lambda: label)


def axis_block(ax, off=0, size=None):
    size = ax.size if size is None else size
    return Block((size,), lab=lambda p: Lab(ax, p + off if not (isinstance(off, int) and off == 0) else p))


def range_block(size, start=0):
    return Block((size,), lab=lambda p: p + start if not (isinstance(start, int) and start == 0) else p)


class Dom:
    def __init__(self, blocks, name=None):
        self.blocks = list(blocks)
        self.name = name

    def pts(self):
        """Skolem points, one per block: [(pt, hypothesis)]."""
        out = []
        for b, bl in enumerate(self.blocks):
            ps = tuple(freshint("p") for _ in bl.sizes)
            out.append(((b, ps), ps))
        return out

    def present(self, pt):
        return self.blocks[pt[0]].present(pt[1])

    def lab(self, pt):
        bl = self.blocks[pt[0]]
        if bl.lab is None:
            return self.pos(pt)
        return bl.lab(*pt[1])

    def bsize(self, b):
        bl = self.blocks[b]
        if bl.k == 0:
            if bl.guard is not None:
                raise Unsupported("guarded constant block")
            return 1
        if bl.guard is not None:
            if bl.k == 1:
                iv = interval(bl.guard, 0, bl.sizes[0])
                if iv is not None:
                    return sz(zmax(0, zi(iv[1]) - zi(iv[0])))
            return count_of(bl, lambda *ps: True)
        r = bl.sizes[0]
        for s in bl.sizes[1:]:
            r = r * s
        return r

    def size(self):
        t = 0
        for b in range(len(self.blocks)):
            s = self.bsize(b)
            t = t + s if not (isinstance(t, int) and t == 0) else s
        return sz(t) if is_int(t) else t

    def pos(self, pt):
        """Row position of a point."""
        off = 0
        for b in range(pt[0]):
            s = self.bsize(b)
            off = s if isinstance(off, int) and off == 0 else off + s
        bl = self.blocks[pt[0]]
        if bl.k == 0:
            return off
        if bl.guard is not None:
            raise Unsupported("position in a filtered domain")
        if bl.k == 1:
            p = pt[1][0]
            return p if isinstance(off, int) and off == 0 else off + p
        # mixed radix, by significance
        ps, ss = [pt[1][d] for d in bl.order], [bl.sizes[d] for d in bl.order]
        r = ps[0]
        for p, s in zip(ps[1:], ss[1:]):
            r = r * s + p
        return r if isinstance(off, int) and off == 0 else off + r

    def at(self, p, f):
        """f(point at position p) as a value (ite over blocks)."""
        if len(self.blocks) == 0:
            raise PyRaise("IndexError")
        offs, off = [], 0
        for b in range(len(self.blocks)):
            offs.append(off)
            off = off + self.bsize(b)

        def go(b):
            bl = self.blocks[b]
            if bl.k > 1 or bl.guard is not None:
                raise Unsupported("position in a multi-parameter domain")
            here = lambda: f((b, () if bl.k == 0 else (sz(zi(p) - offs[b]) if not (isinstance(offs[b], int) and offs[b] == 0) else p,)))
            if b == len(self.blocks) - 1:
                return here()
            nxt = offs[b] + self.bsize(b)
            return ite(simp(zi(p) < zi(nxt)), here, lambda: go(b + 1))
        return go(0)

    def point(self, p):
        """The point at position p; the block must be determined."""
        off = 0
        for b, bl in enumerate(self.blocks):
            if bl.k > 1 or bl.guard is not None:
                raise Unsupported("position in a multi-parameter domain")
            n = self.bsize(b)
            last = b == len(self.blocks) - 1
            if last or branch(simp(zi(p) < zi(off + n))):
                return (b, () if bl.k == 0 else (sz(zi(p) - off),))
            off = off + n
        raise PyRaise("IndexError")

    def positional(self):
        return all(b.k <= 1 and b.guard is None for b in self.blocks)

    def single(self):
        if len(self.blocks) != 1 or self.blocks[0].k != 1 or self.blocks[0].guard is not None:
            raise Unsupported("a plain one-dimensional axis is needed here")
        return self.blocks[0]

    def relabel(self, labs, name=None):
        """labs: list per block of label functions."""
        return Dom([b.with_(lab=l) for b, l in zip(self.blocks, labs)], name)


def range_dom(n, start=0):
    return Dom([range_block(n, start)])


def same_labels(a, b):
    """Same label sequence (block by block, parameter by parameter): True/False/None."""
    if a is b:
        return True
    if len(a.blocks) != len(b.blocks):
        return None
    for x, y in zip(a.blocks, b.blocks):
        if x.k != y.k or (x.k > 1 and x.order != y.order):
            return None
        ps = [freshint("sl") for _ in x.sizes]
        for s, t in zip(x.sizes, y.sizes):
            if not entails(zi(s) == zi(t)):
                return None
        with hyp(x.inrange(ps)):
            gx = True if x.guard is None else x.guard(*ps)
            gy = True if y.guard is None else y.guard(*ps)
            if gx is not gy and not entails(zb(gx) == zb(gy)):
                return None
            with hyp(gx):
                if x.lab is None and y.lab is None:
                    continue
                if x.k > 1 and (x.lab is None or y.lab is None):
                    return None
                lx = x.lab(*ps) if x.lab else ps[0]
                ly = y.lab(*ps) if y.lab else ps[0]
                try:
                    e = s_eq(lx, ly)
                except Unsupported:
                    return None
                if e is not True and not (not isinstance(e, bool) and entails(e)):
                    return None
    return True


def same_shape(a, b):
    """Position-wise correspondence with identical parameters."""
    if a is b:
        return True
    if len(a.blocks) != len(b.blocks):
        return False
    for x, y in zip(a.blocks, b.blocks):
        if x.k != y.k or (x.k > 1 and x.order != y.order):
            return False
        for s, t in zip(x.sizes, y.sizes):
            if not entails(zi(s) == zi(t)):
                return False
        if x.guard is y.guard:
            continue
        ps = [freshint("ss") for _ in x.sizes]
        with hyp(x.inrange(ps)):
            gx = True if x.guard is None else x.guard(*ps)
            gy = True if y.guard is None else y.guard(*ps)
            if not entails(zb(gx) == zb(gy)):
                return False
    return True


def permutation(name, m):
    """An arbitrary permutation of 0..m-1 with its inverse; every application brings its defining facts."""
    f, g = z3.Function(name, z3.IntSort(), z3.IntSort()), z3.Function(name + "_inv", z3.IntSort(), z3.IntSort())

    def apply(a, b):
        def ap(p):
            p = zi(p)
            if z3.is_app(p) and p.decl().eq(b) and entails(z3.And(p.arg(0) >= 0, p.arg(0) < m)):
                return p.arg(0)
            t = a(p)
            ax = z3.Implies(z3.And(p >= 0, p < m), z3.And(t >= 0, t < m, b(t) == p))
            if not any(ax.eq(x) for x in core.cx.axioms):
                core.cx.axioms.append(ax)
            return t
        return ap
    to, back = apply(f, g), apply(g, f)
    core.cx.__dict__.setdefault("perms", {}).update({name: (name, m), name + "_inv": (name, m)})
    core.cx.__dict__.setdefault("inverses", {}).update({name: back, name + "_inv": to})
    return to, back


def solve_eqs(bl, eqs):
    """Parameters of block bl from equations [(params -> value, target)].  Returns (params, cond): the block has a
    present point satisfying the equations iff cond, and then it is params.  None when not determined."""
    ps = [freshint("u") for _ in bl.sizes]
    known = {}
    rest = []

    def flat(x, y):
        if isinstance(x, SStr) and isinstance(y, SStr):
            if x.kind != y.kind or len(x.parts) != len(y.parts):
                return None
            out = []
            for a, b in zip(x.parts, y.parts):
                f = flat(a, b)
                if f is None:
                    return None
                out += f
            return out
        if isinstance(x, Lab) and isinstance(y, Lab) and x.base is y.base:
            return [(x.pos, y.pos)]
        if is_int(x) and is_int(y):
            return [(x, y)]
        if isinstance(x, V) and isinstance(y, V):
            return None
        return None

    todo = []
    with hyp(*bl.here(ps)):
        for f, target in eqs:
            x = f(*ps)
            fl = flat(x, target)
            if fl is None:
                try:
                    e = s_eq(x, target)
                except Unsupported:
                    return None
                if e is False:
                    return [0] * bl.k, False
                if e is True:
                    continue
                if isz(e) and not any(contains(e, p) for p in ps):
                    rest.append(e)
                    continue
                return None
            todo += fl
    progress = True
    while todo and progress:
        progress = False
        for item in list(todo):
            x, t = item
            x = zi(x)
            for i, p in enumerate(ps):
                if i in known:
                    x = z3.substitute(x, (p, zi(known[i])))
            un = [i for i, p in enumerate(ps) if i not in known and contains(x, p)]
            if not un:
                rest.append(x == zi(t))
                todo.remove(item)
                progress = True
            elif len(un) == 1:
                inv = core.cx.__dict__.get("inverses", {}).get(x.decl().name()) if x.num_args() == 1 and x.arg(0).eq(ps[un[0]]) else None
                if inv is not None:
                    known[un[0]] = inv(t)
                    rest.append(x == zi(t))
                    rest[-1] = z3.substitute(rest[-1], (ps[un[0]], zi(known[un[0]])))
                    todo.remove(item)
                    progress = True
                    continue
                l = lin(x, ps[un[0]])
                if l is None or l[0] not in (1, -1):
                    continue
                known[un[0]] = sz((zi(t) - l[1]) if l[0] == 1 else (l[1] - zi(t)))
                todo.remove(item)
                progress = True
            elif not known:
                sol = radix(bl, x, ps, t)
                if sol is not None:
                    known.update(sol)
                    todo.remove(item)
                    progress = True
    if todo or len(known) < bl.k:
        return None
    vals = [known[i] for i in range(bl.k)]
    cond = b_and(bl.inrange(vals), *[simp(e) for e in rest])
    if bl.guard is not None and cond is not False:
        with hyp(cond):
            cond = b_and(cond, bl.guard(*vals))
    return vals, simp(cond) if not isinstance(cond, bool) else cond


def radix(bl, x, ps, t):
    """Parameters whose row number in the box of the block's sizes is t, when x is that row number: the digits of t."""
    order = bl.order
    r = zi(ps[order[0]])
    for d in order[1:]:
        r = r * zi(bl.sizes[d]) + ps[d]
    diff = z3.simplify(x - r, som=True)
    if not (z3.is_int_value(diff) and diff.as_long() == 0):
        return None
    sol, t = {}, zi(t)
    try:
        for d in reversed(order[1:]):
            t, sol[d] = core.int_divmod(t, zi(bl.sizes[d]))
            sol[d] = sz(sol[d])
    except Unsupported:
        return None
    sol[order[0]] = sz(t)
    return sol


def locate(dom, label):
    """[(cond, pt)] for the points carrying label (at most one per block)."""
    out = []
    for b, bl in enumerate(dom.blocks):
        if bl.lab is None and bl.k != 1:
            raise Unsupported("label lookup in a domain without labels")
        lab = bl.lab if bl.lab is not None else (lambda p: p)
        r = solve_eqs(bl, [(lab, label)])
        if r is None:
            raise Unsupported("label lookup of {!r}".format(label))
        ps, c = r
        d = c if isinstance(c, bool) else decide(c)
        if d is False:
            continue
        out.append((True if d is True else c, (b, tuple(ps))))
        if d is True:
            break
    return out


def lookup(dom, label, f, default):
    """f(point of label) or default()."""
    cands = locate(dom, label)

    def go(k):
        if k == len(cands):
            return default()
        c, pt = cands[k]
        return ite(c, lambda: f(pt), lambda: go(k + 1))
    return go(0)


def find(dom, label):
    """The point of a label that is present (KeyError when absent); forks when undetermined."""
    for c, pt in locate(dom, label):
        if c is True or branch(c):
            return pt
    raise PyRaise("KeyError", repr(label))


def count_of(bl, cond):
    """Number of present points of a block with cond, as an Int-valued value."""
    if bl.k == 1:
        iv = interval(lambda q: b_and(True if bl.guard is None else bl.guard(q), cond(q)), 0, bl.sizes[0])
        if iv is not None:
            return sz(zmax(0, zi(iv[1]) - zi(iv[0])))
    t = reduce_block("count", bl, lambda *ps: (cond(*ps), 1))
    return z3.ToInt(t)


def indicator_interval(fn, size):
    """The run of positions at which fn(w) = (present, value) is a present 1, when the values are 1 or 0 and that is one run."""
    def cond(w):
        p, v = fn(w)
        v = num(v)
        if v.v is None:
            return False
        e = z3.simplify(v.v)
        p = b_and(p, b_not(v.nan))
        if z3.is_rational_value(e) and e.eq(z3.RealVal(1)):
            return p
        if e.decl().kind() == z3.Z3_OP_ITE and all(z3.is_rational_value(x) for x in e.children()[1:]):
            x, y = (t.as_fraction() for t in e.children()[1:])
            if (x, y) in ((1, 0), (0, 1)):
                return b_and(p, e.arg(0) if x == 1 else z3.Not(e.arg(0)))
        return None
    q = freshint("iq")
    with hyp(q >= 0, q < zi(size)):
        if cond(q) is None:
            return None
    return interval(cond, 0, size)


def reduce_block(kind, bl, fn):
    """aggregate over all present points of a block; fn(*ps) -> (present, value)."""
    def go(d, ps):
        if d == bl.k:
            g = True if bl.guard is None else bl.guard(*ps)
            p, v = fn(*ps)
            return b_and(g, p), v
        inner = lambda w: go(d + 1, ps + [w])
        if d == bl.k - 1:
            return inner
        return lambda w: (True, aggregate("sum" if kind in ("sum", "count") else kind, 0, bl.sizes[d + 1], go(d + 1, ps + [w])))
    if bl.k == 0:
        p, v = fn()
        v = num(v)
        return ite_val(b_and(p, b_not(v.nan)), v.v, z3.RealVal(1 if kind == "prod" else 0)) if kind in ("sum", "prod", "count") else None
    if bl.k > 1 and kind not in ("sum", "count", "prod"):
        raise Unsupported("{} over several parameters".format(kind))
    if bl.k == 1 and kind == "sum":
        iv = indicator_interval(lambda w: go(1, [w]), bl.sizes[0])
        if iv is not None:
            return z3.ToReal(zmax(0, zi(iv[1]) - zi(iv[0])))
    if bl.k == 1:
        return aggregate("sum" if kind == "count" else kind, 0, bl.sizes[0], lambda w: go(1, [w]))

    def outer(w):
        return go(1, [w])

    def wrap(d, ps):
        if d == bl.k:
            return go(bl.k, ps)
        return True, aggregate("prod" if kind == "prod" else "sum", 0, bl.sizes[d], lambda w: wrap(d + 1, ps + [w]))
    return wrap(0, [])[1]


# ------------------------------------------------------------------ mutable objects
class Mut:
    """Mutable modelled object; `state()`/`setstate` let loops snapshot and restore it."""
    count = [0]

    def init_mut(self):
        Mut.count[0] += 1
        self.stamp = Mut.count[0]
        reg = cx.__dict__.setdefault("registry", [])
        reg.append(self)
        self.frozen = None


def mutlog():
    return cx.__dict__.setdefault("mutations", [])


def wlog(obj, guard, val):
    log = cx.__dict__.get("wlog")
    if log is not None and obj.stamp <= cx.wlog_stamp:
        log.append((obj, guard, val))


def structural(obj, what):
    """A structural change of an object older than the loop being summarised is outside the subset."""
    mutlog().append((obj, obj.state()))
    log = cx.__dict__.get("wlog")
    if log is not None and obj.stamp <= cx.wlog_stamp:
        raise Unsupported("{} inside a summarised loop".format(what))
    if obj.frozen:
        raise core.Unsupported("mutation of a view: " + obj.frozen)
    chk = cx.__dict__.get("protected")
    if chk and id(obj) in chk:
        cx.frame.append("{}: {}".format(chk[id(obj)], what))


def note_write(obj, what):
    mutlog().append((obj, obj.state()))
    if obj.frozen:
        raise Unsupported("mutation of a view: " + obj.frozen)
    chk = cx.__dict__.get("protected")
    if chk and id(obj) in chk:
        cx.frame.append("{}: {}".format(chk[id(obj)], what))


class Series(Mut):
    def __init__(self, dom, fn, name=None, dtype=None):
        self.dom, self.fn, self.name, self.dtype = dom, fn, name, dtype
        self.init_mut()

    def state(self):
        return (self.dom, self.fn, self.name)

    def setstate(self, s):
        self.dom, self.fn, self.name = s

    def update(self, guard, val, what="element assignment"):
        note_write(self, what)
        old = self.fn
        self.fn = lambda pt, old=old: ite(guard(pt), lambda: val(pt), lambda: old(pt))
        wlog(self, guard, val)

    def view(self, why):
        self.frozen = why
        return self


class DF(Mut):
    def __init__(self, rows, cols, cell):
        self.rows, self.cols, self.cell = rows, cols, cell
        self.attrs = {}
        self.cls = None
        self.init_mut()

    def state(self):
        return (self.rows, self.cols, self.cell, dict(self.attrs), self.cls)

    def setstate(self, s):
        self.rows, self.cols, self.cell = s[:3]
        self.attrs = dict(s[3])
        self.cls = s[4]

    def update(self, guard, val, what="cell assignment"):
        note_write(self, what)
        old = self.cell
        self.cell = lambda r, c, old=old: ite(guard(r, c), lambda: val(r, c), lambda: old(r, c))
        wlog(self, guard, val)

    def col(self, cpt, name=None):
        cell = self.cell
        return Series(self.rows, lambda r: cell(r, cpt), name)


class Index:
    """Index object: domain whose labels are the elements."""
    def __init__(self, dom, name=None):
        self.dom, self.name = dom, name if name is not None else dom.name

    def fn(self, pt):
        return self.dom.lab(pt)


class Arr:
    """numpy array, 1-d (doms=(d,)) or 2-d."""
    def __init__(self, doms, fn):
        self.doms, self.fn = tuple(doms), fn

    @property
    def dom(self):
        if len(self.doms) != 1:
            raise Unsupported("1-d array needed")
        return self.doms[0]


class Seq:
    """Python sequence of symbolic length: at(k) for 0 <= k < size."""
    def __init__(self, size, at):
        self.size, self.at = sz(size), at


def exact_div(e, w):
    """e / w for an integer multiple e of w."""
    e = sz(e)
    if isinstance(e, int):
        return e // w
    parts = e.children() if z3.is_add(e) else [e]
    out = 0
    for x in parts:
        if z3.is_int_value(x) and x.as_long() % w == 0:
            out = out + x.as_long() // w
        elif z3.is_mul(x) and x.num_args() == 2 and z3.is_int_value(x.arg(0)) and x.arg(0).as_long() % w == 0:
            out = out + (x.arg(0).as_long() // w) * x.arg(1)
        else:
            return sz(e / w)
    return sz(out)


class Groups(Seq):
    """A stretch of a list filled by a loop that appends w items per iteration; item(k, r) is the r-th of iteration k."""
    def __init__(self, count, w, item, off=0, size=None):
        self.count, self.w, self.item, self.off = count, w, item, off
        Seq.__init__(self, sz(zi(count) * w) if size is None else size, self.get)

    def where(self, p):
        """(iteration, member) of position p; forks when the member is open."""
        a = sz(zi(p) + zi(self.off))
        if isinstance(a, int):
            return a // self.w, a % self.w
        for r in range(self.w):
            c = simp(zi(a) % self.w == r)
            if r == self.w - 1 or (c if isinstance(c, bool) else branch(c)):
                return exact_div(zi(a) - r, self.w), r

    def get(self, p):
        return self.item(*self.where(p))

    def part(self, lo, size):
        return Groups(self.count, self.w, self.item, sz(zi(self.off) + zi(lo)), size)


class SList(Mut):
    """Python list (or, when tup is set, tuple): parts are concrete items ('i', v) or symbolic stretches ('s', Seq)."""
    tup = False

    def __init__(self, parts):
        self.parts = list(parts)
        self.init_mut()

    def state(self):
        return list(self.parts)

    def setstate(self, s):
        self.parts = list(s)


def seq_dom(parts):
    """Domain + element function of a list of parts."""
    blocks, fns = [], []
    run = None
    for kind, x in parts:
        if kind == "i":
            blocks.append(Block(()))
            fns.append(lambda x=x: x)
        else:
            blocks.append(Block((x.size,)))
            fns.append(lambda p, x=x: x.at(p))
    return Dom(blocks), (lambda pt: fns[pt[0]](*pt[1]))


def plain(d):
    """The domain without labels."""
    return Dom([Block(b.sizes, None, b.guard, b.order) for b in d.blocks])


def reverse_dom(d):
    """(reversed domain, mapping new point -> old point)."""
    if not d.positional():
        raise Unsupported("reversal of a filtered domain")
    nb = len(d.blocks)

    def back(pt):
        b = nb - 1 - pt[0]
        bl = d.blocks[b]
        if bl.k == 0:
            return (b, ())
        return (b, (sz(zi(bl.sizes[0]) - 1 - zi(pt[1][0])),))
    blocks = []
    for k in range(nb):
        bl = d.blocks[nb - 1 - k]
        if bl.k == 0:
            blocks.append(bl)
        elif bl.lab is None:
            blocks.append(bl)
        else:
            blocks.append(bl.with_(lab=lambda p, bl=bl: bl.lab(sz(zi(bl.sizes[0]) - 1 - zi(p)))))
    return Dom(blocks, d.name), back


def slice_dom(d, a, b):
    """Sub-domain of positions [a, b) (ints already normalised to 0 <= a, b <= size): (dom, new pt -> old pt)."""
    if not d.positional():
        raise Unsupported("positional slice of a filtered domain")
    blocks, maps = [], []
    off = 0
    for k, bl in enumerate(d.blocks):
        n = d.bsize(k)
        lo, hi = zmax(a, off), zmin(b, off + n)
        if bl.k == 0:
            c = decide(zi(lo) < zi(hi))
            if c is None:
                c = branch(zi(lo) < zi(hi))
            if c:
                blocks.append(bl)
                maps.append((k, None))
        else:
            s, o = zi(hi) - zi(lo), zi(lo) - zi(off)
            o, s = sz(o), sz(s)
            dd = decide(zi(s) > 0)
            if dd is not False:
                if dd is None and not entails(zi(s) >= 0):
                    s = z3.If(zi(s) > 0, zi(s), 0)
                z0 = isinstance(o, int) and o == 0
                lab = None
                if bl.lab is not None:
                    lab = (lambda p, bl=bl, o=o: bl.lab(sz(zi(p) + zi(o)))) if not z0 else bl.lab
                elif not z0 or len(d.blocks) > 1:
                    lab = lambda p, off=off, o=o: sz(zi(p) + zi(o) + zi(off))
                blocks.append(Block((s,), lab))
                maps.append((k, o))
        off = off + n
    return Dom(blocks, d.name), (lambda pt: (maps[pt[0]][0], () if maps[pt[0]][1] is None else (sz(zi(pt[1][0]) + zi(maps[pt[0]][1])),)))


def norm_slice(size, lo, hi):
    """Python slice bounds for a step of 1."""
    def nb(x, default):
        if x is None:
            return default
        x = toint(x) if not is_int(x) else x
        c = decide(zi(x) >= 0)
        if c is None:
            c = branch(zi(x) >= 0)
        if not c:
            x = zmax(0, zi(size) + zi(x))
        return zmin(x, size)
    return sz(nb(lo, 0)), sz(nb(hi, size))


def filter_dom(d, guardfn):
    """Sub-domain of the points with guardfn(pt): (dom, new pt -> old pt)."""
    blocks, maps = [], []
    for k, bl in enumerate(d.blocks):
        if bl.k == 0:
            g = guardfn((k, ()))
            if branch(g):
                blocks.append(bl)
                maps.append((k, None))
            continue
        full = lambda *ps, k=k, bl=bl: b_and(True if bl.guard is None else bl.guard(*ps), guardfn((k, tuple(ps))))
        if bl.k == 1:
            iv = interval(full, 0, bl.sizes[0])
            if iv is not None:
                L, H = iv
                if entails(zi(H) <= zi(L)):
                    continue
                s = sz(zi(H) - zi(L))
                if not entails(zi(s) >= 0):
                    s = z3.If(zi(s) > 0, zi(s), 0)
                L = sz(L)
                z0 = isinstance(L, int) and L == 0
                if bl.lab is not None:
                    lab = (lambda p, bl=bl, L=L: bl.lab(sz(zi(p) + zi(L)))) if not z0 else bl.lab
                else:
                    base = 0
                    for kk in range(k):
                        base = base + d.bsize(kk)
                    lab = lambda p, L=L, base=base: sz(zi(p) + zi(L) + zi(base))
                blocks.append(Block((s,), lab))
                maps.append((k, L))
                continue
        lab = bl.lab
        if lab is None and bl.guard is None and d.blocks.index(bl) == 0:
            # the positional labels stay attached to the rows
            lab = lambda *ps, bl=bl: Dom([bl]).pos((0, tuple(ps)))
        q = [freshint("fd") for _ in bl.sizes]
        with hyp(bl.inrange(q)):
            g = full(*q)
            dd = g if isinstance(g, bool) else decide(g)
        if dd is False:
            continue
        blocks.append(Block(bl.sizes, lab, None if dd is True else full, bl.order))
        maps.append((k, 0))
    return Dom(blocks, d.name), (lambda pt: (maps[pt[0]][0], () if maps[pt[0]][1] is None else
                                             tuple(sz(zi(p) + zi(maps[pt[0]][1])) for p in pt[1])))


def coef(bl, f, k):
    """How value f(*ps) depends on parameter k alone: +1, -1 (strictly monotone), or None."""
    ps = [freshint("cf") for _ in bl.sizes]
    with hyp(*bl.here(ps)):
        x = f(*ps)
    if isinstance(x, Lab):
        x = x.pos
    if not is_int(x) or not isz(x):
        return None
    for i, p in enumerate(ps):
        if i != k and contains(x, p):
            return None
    if not contains(x, ps[k]):
        return None
    with hyp(*bl.here(ps)):
        l = lin(x, ps[k])
    if l is None or l[0] == 0:
        return None
    return 1 if l[0] > 0 else -1


def sort_block(bl, keyfns):
    """Stable ascending sort of one block by key functions: (new order, set of reversed params)."""
    sig, rev = [], set()
    for f in keyfns:
        hit = None
        for k in range(bl.k):
            c = coef(bl, f, k)
            if c is not None:
                hit = (k, c)
                break
        if hit is None:
            ps = [freshint("so") for _ in bl.sizes]
            with hyp(*bl.here(ps)):
                x = f(*ps)
            if isinstance(x, (str, int)) or (isinstance(x, Lab) and not any(contains(zi(x.pos), p) for p in ps)):
                continue               # constant key
            raise Unsupported("sort by a key that is not one of the row parameters")
        if hit[0] in sig:
            continue
        sig.append(hit[0])
        if hit[1] < 0:
            rev.add(hit[0])
    for k in bl.order:
        if k not in sig:
            sig.append(k)
    return tuple(sig), rev


def sort_dom(d, keyfns):
    """Sort a domain ascending by keys.  (dom, new pt -> old pt)"""
    if not d.blocks:
        return d, lambda pt: pt
    if len(d.blocks) != 1:
        # acceptable only when the order is provably unchanged
        return _sort_multi(d, keyfns)
    bl = d.blocks[0]
    if bl.k == 0:
        return d, lambda pt: pt
    order, rev = sort_block(bl, [lambda *ps, f=f: f((0, tuple(ps))) for f in keyfns])

    def back1(ps):
        return tuple(sz(zi(bl.sizes[k]) - 1 - zi(p)) if k in rev else p for k, p in enumerate(ps))
    if not rev:
        lab = bl.lab
        if lab is None and order != bl.order and bl.k > 1:
            lab = lambda *ps, bl=bl: Dom([bl]).pos((0, tuple(ps)))
        return Dom([bl.with_(order=order, lab=lab)], d.name), lambda pt: pt
    g = None if bl.guard is None else (lambda *ps: bl.guard(*back1(ps)))
    if bl.lab is None:
        lab = lambda *ps: Dom([bl]).pos((0, back1(ps)))
    else:
        lab = lambda *ps: bl.lab(*back1(ps))
    return Dom([Block(bl.sizes, lab, g, order)], d.name), lambda pt: (0, back1(pt[1]))


def _sort_multi(d, keyfns):
    """Several blocks: supported when the blocks hold disjoint stretches of another block's key space is too hard; only
    the already-sorted case (first key ascending across blocks) is recognised."""
    if not d.positional() or len(keyfns) != 1:
        raise Unsupported("sort of a composite domain")
    f = keyfns[0]
    for k, bl in enumerate(d.blocks):
        if bl.k == 1:
            o, rev = sort_block(bl, [lambda *ps: f((k, tuple(ps)))])
            if rev:
                raise Unsupported("sort of a composite domain")
    for k in range(len(d.blocks) - 1):
        x, y = d.blocks[k], d.blocks[k + 1]
        p = [freshint("sm") for _ in x.sizes]
        q = [freshint("sm") for _ in y.sizes]
        with hyp(x.inrange(p), y.inrange(q)):
            c = s_cmp("<=", f((k, tuple(p))), f((k + 1, tuple(q))))
            if not (c is True or (not isinstance(c, bool) and entails(c))):
                raise Unsupported("sort of a composite domain")
    return d, lambda pt: pt


# ------------------------------------------------------------------ merging blocks / labels union
def coalesce(d):
    """Merge adjacent blocks that continue each other's labels (axis slice + next label): a single axis block."""
    if len(d.blocks) < 2:
        return d, lambda pt: pt
    a = d.blocks
    if len(a) == 2 and a[0].k == 1 and a[0].guard is None and a[0].lab is not None and a[1].guard is None and a[1].lab is not None:
        n0 = a[0].sizes[0]
        nxt = a[1].lab(*([0] * a[1].k))
        lab0 = a[0].lab
        cand = lab0(n0)
        try:
            e = s_eq(cand, nxt)
        except Unsupported:
            return d, lambda pt: pt
        if e is True or (not isinstance(e, bool) and entails(e)):
            if a[1].k == 1:
                q = freshint("co")
                with hyp(a[1].inrange([q])):
                    e2 = s_eq(lab0(sz(zi(n0) + q)), a[1].lab(q))
                    if not (e2 is True or (not isinstance(e2, bool) and entails(e2))):
                        return d, lambda pt: pt
                total = sz(zi(n0) + zi(a[1].sizes[0]))
            else:
                total = sz(zi(n0) + 1)
            nd = Dom([Block((total,), lab0)], d.name)
            return nd, None
    return d, lambda pt: pt


def coalesced(d, fn):
    """(dom, fn) with the blocks merged when possible; fn is over d's points."""
    nd, m = coalesce(d)
    if m is not None:
        return nd, (lambda pt: fn(m(pt)))
    n0 = d.blocks[0].sizes[0]
    k1 = d.blocks[1].k

    def f(pt):
        p = pt[1][0]
        return ite(simp(zi(p) < zi(n0)), lambda: fn((0, (p,))), lambda: fn((1, () if k1 == 0 else (sz(zi(p) - zi(n0)),))))
    return nd, f


def union_labels(a, b):
    """Domain of the union of two label domains (outer alignment), when one contains the other."""
    def contained(x, y):
        for k, bl in enumerate(x.blocks):
            ps = [freshint("un") for _ in bl.sizes]
            with hyp(bl.present(ps)):
                lab = x.lab((k, tuple(ps)))
                cs = locate(y, lab)
                c = b_or(*[c for c, _ in cs])
                if not (c is True or (not isinstance(c, bool) and entails(c))):
                    return False
        return True
    if contained(a, b):
        return b
    if contained(b, a):
        return a
    raise Unsupported("alignment of unrelated indexes")




def align(a, b):
    """(dom, fa, fb) of two Series under pandas' label alignment."""
    if same_labels(a.dom, b.dom) is True:
        return a.dom, a.fn, b.fn
    d = union_labels(a.dom, b.dom)
    fa, fb, da, db = a.fn, b.fn, a.dom, b.dom
    ga = fa if d is da else (lambda pt: lookup(da, d.lab(pt), fa, lambda: NAN))
    gb = fb if d is db else (lambda pt: lookup(db, d.lab(pt), fb, lambda: NAN))
    return d, ga, gb
