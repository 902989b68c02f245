"""Core of the deductive verifier: symbolic values, path context, aggregates, recursive functions, prover.

Reals stand for floats (stated assumption); NaN is an explicit flag.  Labels are (axis, position) pairs."""
import itertools
import re
import time
from fractions import Fraction
import z3

z3.set_param("smt.random_seed", 7)


class Unsupported(Exception):
    """The construct is outside the verified subset: the function is not proved (never counted as violated)."""


class PyRaise(Exception):
    """A Python exception raised by the code under verification."""
    def __init__(self, etype, msg=""):
        Exception.__init__(self, etype, msg)
        self.etype, self.msg = etype, msg


# ------------------------------------------------------------------ values
class V:
    """Maybe-missing number: nan (Bool) and v (Real)."""
    __slots__ = ("nan", "v")

    def __init__(self, nan, v):
        self.nan, self.v = nan, v

    def __repr__(self):
        return "V(nan={}, {})".format(self.nan, self.v)


NAN = V(True, None)


class Lab:
    """Label at position pos of base axis `base` (a BaseAx)."""
    __slots__ = ("base", "pos")

    def __init__(self, base, pos):
        self.base, self.pos = base, pos

    def __repr__(self):
        return "Lab({},{})".format(self.base.name, self.pos)


class SStr:
    """Symbolic string: str() / format of symbolic parts; equal iff kind and parts are equal (injective formats)."""
    __slots__ = ("kind", "parts")

    def __init__(self, kind, parts):
        self.kind, self.parts = kind, parts

    def __repr__(self):
        return "SStr({},{})".format(self.kind, self.parts)


class Opaque:
    """A value the verifier does not model; any use is Unsupported."""
    def __init__(self, what):
        self.what = what

    def __repr__(self):
        return "Opaque({})".format(self.what)


def isz(x):
    return isinstance(x, z3.ExprRef)


def is_int(x):
    return (isinstance(x, int) and not isinstance(x, bool)) or (isz(x) and z3.is_int(x))


def is_boolish(x):
    return isinstance(x, bool) or (isz(x) and z3.is_bool(x))


def is_num(x):
    return isinstance(x, (int, float, Fraction, V)) or (isz(x) and z3.is_arith(x)) or is_boolish(x)


def rv(x):
    """python/z3 number -> z3 Real."""
    if isinstance(x, bool):
        return z3.RealVal(1 if x else 0)
    if isinstance(x, int):
        return z3.RealVal(x)
    if isinstance(x, float):
        return z3.RealVal(str(Fraction(repr(x))))
    if isinstance(x, Fraction):
        return z3.RealVal(str(x))
    if isz(x):
        if z3.is_bool(x):
            return z3.If(x, z3.RealVal(1), z3.RealVal(0))
        return z3.ToReal(x) if z3.is_int(x) else x
    raise Unsupported("not a number: {!r}".format(x))


def num(x):
    if isinstance(x, V):
        return x
    if isinstance(x, float) and x != x:
        return NAN
    if x is None:
        return NAN
    if isinstance(x, Lab):
        return V(False, z3.ToReal(x.base.term(x.pos)))
    if isinstance(x, (int, float, Fraction)) or isz(x):
        return V(False, rv(x))
    raise Unsupported("not a number: {!r}".format(x))


def zb(x):
    if isinstance(x, bool):
        return z3.BoolVal(x)
    if isz(x) and z3.is_bool(x):
        return x
    raise Unsupported("not a truth value: {!r}".format(x))


def b_not(a):
    return (not a) if isinstance(a, bool) else z3.Not(a)


def b_and(*xs):
    xs = [x for x in xs if x is not True]
    if any(x is False for x in xs):
        return False
    if not xs:
        return True
    return xs[0] if len(xs) == 1 else z3.And(*xs)


def b_or(*xs):
    xs = [x for x in xs if x is not False]
    if any(x is True for x in xs):
        return True
    if not xs:
        return False
    return xs[0] if len(xs) == 1 else z3.Or(*xs)


def simp(c):
    if isinstance(c, bool):
        return c
    c = z3.simplify(c)
    if z3.is_true(c):
        return True
    if z3.is_false(c):
        return False
    return c


# ------------------------------------------------------------------ context
class Ctx:
    def __init__(self):
        self.hyps = []
        self.scripts = []          # stack of exploration scripts
        self.ctxkey = []
        self.cache = {}
        self.fresh_n = 0
        self.side = []             # (hyps, cond, what): side obligations (nonzero divisors, index bounds)
        self.aggs = {}             # z3 const id -> Agg
        self.aggkey = {}
        self.recs = {}             # z3 func name -> RecFn
        self.axioms = []           # global facts
        self.axset = set()
        self.solver_time = 0.
        self.queries = 0
        self.trusted = set()
        self.deadline = None
        self.keep = []             # keep asts alive (ids are reused otherwise)

    def fresh(self, name, sort=None):
        self.fresh_n += 1
        return z3.Const("{}!{}".format(name, self.fresh_n), z3.IntSort() if sort is None else sort)


cx = Ctx()


def reset():
    cx.__dict__.clear()          # nothing of an earlier contract may leak into the next
    cx.__init__()
    return cx


def tick():
    if cx.deadline and time.time() > cx.deadline:
        raise Unsupported("time limit of the deductive part")


class hyp:
    def __init__(self, *cs):
        self.cs = [c for c in cs if c is not True]

    def __enter__(self):
        cx.hyps.extend(zb(c) for c in self.cs)

    def __exit__(self, *a):
        if self.cs:
            del cx.hyps[-len(self.cs):]


def trust(what):
    cx.trusted.add(what)


def add_axiom(a):
    if a is True:
        return
    k = a.get_id()
    if k not in cx.axset:
        cx.axset.add(k)
        cx.keep.append(a)
        cx.axioms.append(a)


_solver_pool = {}


def theory(exprs):
    """Facts of the world about the applications in exprs (see contracts.World: run-off shapes)."""
    f = cx.__dict__.get("theory")
    return f(exprs) if f else []


def _check(asserts, timeout):
    tick()
    s = z3.Solver()
    s.set("timeout", timeout)
    for a in asserts:
        s.add(a)
    s.add(*theory(asserts))
    t0 = time.time()
    r = s.check()
    cx.solver_time += time.time() - t0
    cx.queries += 1
    return r, s


class _Inc:
    """Incremental solver following cx.hyps (for decide)."""
    def __init__(self):
        self.s = z3.Solver()
        self.s.set("timeout", 1500)
        self.stack = []
        self.nax = 0

    def sync(self):
        hy = cx.hyps
        k = 0
        while k < len(self.stack) and k < len(hy) and self.stack[k].get_id() == hy[k].get_id():
            k += 1
        if len(cx.axioms) != self.nax:
            # axioms are global: re-assert everything
            self.s = z3.Solver()
            self.s.set("timeout", 1500)
            for a in cx.axioms:
                self.s.add(a)
            self.nax = len(cx.axioms)
            self.stack = []
            k = 0
        while len(self.stack) > k:
            self.s.pop()
            self.stack.pop()
        for h in hy[k:]:
            self.s.push()
            self.s.add(h)
            self.stack.append(h)


def decide(c):
    """True / False when the hypotheses entail c / not c, else None."""
    c = simp(c)
    if isinstance(c, bool):
        return c
    key = (tuple(h.get_id() for h in cx.hyps), c.get_id(), len(cx.axioms))
    if key in cx.cache:
        return cx.cache[key][0]
    tick()
    inc = getattr(cx, "inc", None)
    if inc is None:
        inc = cx.inc = _Inc()
    inc.sync()
    t0 = time.time()
    res = None
    th = theory(list(cx.hyps) + [c])
    inc.s.push()
    inc.s.add(z3.Not(c), *th)
    r = inc.s.check()
    inc.s.pop()
    if r == z3.unsat:
        res = True
    else:
        inc.s.push()
        inc.s.add(c, *th)
        r = inc.s.check()
        inc.s.pop()
        if r == z3.unsat:
            res = False
    cx.solver_time += time.time() - t0
    cx.queries += 2
    cx.cache[key] = (res, c, list(cx.hyps))
    return res


def entails(c):
    return decide(c) is True


def feasible():
    return decide(z3.BoolVal(False)) is None if False else _feas()


def _feas():
    key = (tuple(h.get_id() for h in cx.hyps), "feas", len(cx.axioms))
    if key in cx.cache:
        return cx.cache[key][0]
    inc = getattr(cx, "inc", None)
    if inc is None:
        inc = cx.inc = _Inc()
    inc.sync()
    inc.s.push()
    inc.s.add(*theory(cx.hyps))
    r = inc.s.check() != z3.unsat
    inc.s.pop()
    cx.queries += 1
    cx.cache[key] = (r, None, list(cx.hyps))
    return r


# ------------------------------------------------------------------ exploration of branches
class Script:
    def __init__(self, choices):
        self.choices, self.pos, self.extra = choices, 0, []


def branch(c):
    """Concrete truth of c on the current path (forks the innermost exploration when undetermined)."""
    if isinstance(c, V):
        c = b_or(c.nan, c.v != 0) if c.v is not None else True
    elif is_int(c) and isz(c):
        c = c != 0
    c = simp(zb(c)) if not isinstance(c, bool) else c
    if isinstance(c, bool):
        return c
    d = decide(c)
    if d is not None:
        return d
    if not cx.scripts:
        raise Unsupported("undetermined branch outside an exploration: {}".format(str(c)[:200]))
    s = cx.scripts[-1]
    if s.pos < len(s.choices):
        v = s.choices[s.pos]
    else:
        v = True
        s.choices.append(True)
    s.pos += 1
    cc = c if v else z3.Not(c)
    cx.hyps.append(cc)
    s.extra.append(cc)
    cx.keep.append(cc)
    return v


def explore(fn, limit=64):
    """Run fn on every path.  Returns [(pathcond, value | PyRaise)]."""
    out, todo = [], [[]]
    while todo:
        ch = todo.pop()
        n0 = len(ch)
        s = Script(list(ch))
        base = len(cx.hyps)
        cx.scripts.append(s)
        keyn = len(cx.ctxkey)
        try:
            try:
                r = fn()
            except PyRaise as e:
                e.hyps = list(cx.hyps)
                r = e
        finally:
            cx.scripts.pop()
            del cx.hyps[base:]
            del cx.ctxkey[keyn:]
        for k in range(n0, len(s.choices)):
            todo.append(s.choices[:k] + [False])
        out.append((b_and(*s.extra), r))
        if len(out) > limit:
            raise Unsupported("too many paths")
    return out


def merge(paths):
    """Value equal to the path's value on each path (paths are exclusive and exhaustive under the hypotheses)."""
    if len(paths) == 1:
        if isinstance(paths[0][1], PyRaise):
            raise paths[0][1]
        return paths[0][1]
    for _, v in paths:
        if isinstance(v, PyRaise):
            raise Unsupported("exception {} on a data-dependent path".format(v.etype))
    r = paths[-1][1]
    for c, v in reversed(paths[:-1]):
        r = ite_val(c, v, r)
    return r


def evalm(fn):
    return merge(explore(fn))


def ite_val(c, a, b):
    c = simp(c)
    if c is True:
        return a
    if c is False:
        return b
    if a is b:
        return a
    if isinstance(a, Lab) and isinstance(b, Lab) and a.base is b.base:
        if zi(a.pos).eq(zi(b.pos)):
            return a
        return Lab(a.base, z3.If(c, zi(a.pos), zi(b.pos)))
    if is_boolish(a) and is_boolish(b):
        return z3.If(c, zb(a), zb(b))
    if is_int(a) and is_int(b):
        if zi(a).eq(zi(b)):
            return a
        return z3.If(c, zi(a), zi(b))
    if (is_num(a) or a is None) and (is_num(b) or b is None):
        x, y = num(a), num(b)
        if x.v is None and y.v is None:
            return NAN
        xv = x.v if x.v is not None else y.v
        yv = y.v if y.v is not None else x.v
        xn, yn = x.nan, y.nan
        nan = xn if (isinstance(xn, bool) and isinstance(yn, bool) and xn == yn) else z3.If(c, zb(xn), zb(yn))
        return V(nan, xv if xv.eq(yv) else z3.If(c, xv, yv))
    if isinstance(a, str) and a == b:
        return a
    if isinstance(a, tuple) and isinstance(b, tuple) and len(a) == len(b):
        return tuple(ite_val(c, x, y) for x, y in zip(a, b))
    if isinstance(a, SStr) and isinstance(b, SStr) and a.kind == b.kind != "if" and len(a.parts) == len(b.parts):
        return SStr(a.kind, tuple(ite_val(c, x, y) for x, y in zip(a.parts, b.parts)))
    if isinstance(a, (str, SStr)) and isinstance(b, (str, SStr)):
        return SStr("if", (c, a, b))
    for x, y in ((a, b), (b, a)):
        # a label column with missing entries holds floats
        if isinstance(x, Lab) and isinstance(y, V):
            lv = V(False, z3.ToReal(x.base.term(x.pos)))
            return ite_val(c, lv, b) if x is a else ite_val(c, a, lv)
    raise Unsupported("cannot merge {!r} and {!r}".format(a, b))


def ite(c, fa, fb):
    """Lazy conditional: each branch is built under its guard."""
    c = simp(c)
    d = c if isinstance(c, bool) else decide(c)
    if d is True:
        return fa()
    if d is False:
        return fb()
    with hyp(c):
        a = fa()
    with hyp(z3.Not(c)):
        b = fb()
    return ite_val(c, a, b)


def zi(x):
    if isinstance(x, bool):
        raise Unsupported("bool as int")
    if isinstance(x, int):
        return z3.IntVal(x)
    if isz(x) and z3.is_int(x):
        return x
    if isinstance(x, V) and x.v is not None:
        return z3.ToInt(x.v)
    raise Unsupported("not an integer: {!r}".format(x))


def toint(x):
    """int-like view of a value used as a position."""
    if is_int(x):
        return x
    if isinstance(x, float) and x == int(x):
        return int(x)
    if isinstance(x, V) and x.nan is False:
        v = z3.simplify(x.v)
        if v.decl().kind() == z3.Z3_OP_TO_REAL:
            return v.arg(0)
        if z3.is_rational_value(v) and v.denominator_as_long() == 1:
            return v.numerator_as_long()
        return z3.ToInt(x.v)
    raise Unsupported("not a position: {!r}".format(x))


# ------------------------------------------------------------------ scalar arithmetic
_uf = {}


def uf(name, n):
    if (name, n) not in _uf:
        _uf[name, n] = z3.Function(name, *([z3.RealSort()] * (n + 1)))
    return _uf[name, n]


def side(cond, what):
    c = simp(cond)
    if c is True:
        return
    cx.side.append((list(cx.hyps), zb(c), what))


def s_div(a, b):
    if a.v is None or b.v is None:
        return NAN
    nn = b_and(b_not(a.nan), b_not(b.nan))
    if cx.__dict__.get("divmode") == "ieee":
        # the contract says what an undefined quotient means: a missing value
        z = simp(b.v == 0)
        if isz(z) and never(z):
            z = False
        if z is False:
            return V(nn_or(a, b), a.v / b.v)
        # 0 / 0 is missing; a / 0 is infinite, and an infinity is a value like any other but not a missing one
        trust("an infinite quotient (a / 0, a != 0) is an unknown number that is not missing")
        z0 = simp(b_and(z, simp(a.v == 0)))
        inf = z3.If(a.v > 0, z3.Real("plus_infinity"), z3.Real("minus_infinity"))
        return V(b_or(a.nan, b.nan, z0), z3.If(zb(z), inf, a.v / b.v))
    side(b_or(b_not(nn), b.v != 0), "divisor is not zero: {}".format(str(b.v)[:120]))
    return V(b_or(a.nan, b.nan), a.v / b.v)


def nn_or(a, b):
    return b_or(a.nan, b.nan)


_never = [0]


def never(z):
    """Is the condition z excluded by the hypotheses (with the facts about aggregates and applications)?"""
    d = decide(z)
    if d is not None:
        return not d
    if _never[0] or not any(x.get_id() in cx.aggs or x.num_args() for x in consts_of(z).values()):
        return False
    key = ("never", z.get_id(), tuple(h.get_id() for h in cx.hyps))
    if key not in cx.cache:
        _never[0] = 1
        try:
            g = z3.Not(z)
            ax = closure_axioms([g] + list(cx.hyps), cx.hyps, 2, 30)
            r = _check(list(cx.hyps) + ax + [z], 300)[0] == z3.unsat
        finally:
            _never[0] = 0
        cx.cache[key] = (r, z, list(cx.hyps))
    return cx.cache[key][0]


def s_pow(a, b):
    if isinstance(b, float) and b == int(b):
        b = int(b)
    if isinstance(b, V) and b.nan is False and z3.is_rational_value(z3.simplify(b.v)):
        f = z3.simplify(b.v)
        if f.denominator_as_long() == 1:
            b = f.numerator_as_long()
    if isinstance(b, int):
        a = num(a) if not is_int(a) else a
        if isinstance(a, V):
            if b == 0:
                return V(False, rv(1))         # numpy: nan ** 0 == 1
            if a.v is None:
                return NAN
            if b == 1:
                return a
            if b > 1:
                r = a.v
                for _ in range(b - 1):
                    r = r * a.v
                return V(a.nan, r)
        else:
            if isinstance(a, int) and b >= 0:
                return a ** b
            if b >= 1:
                r = a
                for _ in range(b - 1):
                    r = r * a
                return r
    if isz(b) or isinstance(b, (V, int)):
        a2, b2 = num(a), num(b)
        if a2.v is None or b2.v is None:
            return NAN
        trust("pow is an uninterpreted function of its arguments where the exponent is symbolic; powers of positive numbers are positive")
        cx.__dict__.setdefault("termfacts", {})["pow"] = lambda x, y: [z3.Implies(x > 0, uf("pow", 2)(x, y) > 0)]
        return V(b_or(a2.nan, b2.nan), uf("pow", 2)(a2.v, b2.v))
    raise Unsupported("power {!r}".format(b))


def s_bin(op, a, b):
    if isinstance(a, Lab):
        a = a.base.term(a.pos)
    if isinstance(b, Lab):
        b = b.base.term(b.pos)
    if isinstance(a, Opaque) or isinstance(b, Opaque):
        return Opaque("arithmetic on " + str(a if isinstance(a, Opaque) else b))
    pa = isinstance(a, (int, float, Fraction)) and not isinstance(a, bool) and a == a
    pb = isinstance(b, (int, float, Fraction)) and not isinstance(b, bool) and b == b
    if pa and pb:
        if op == "+":
            return a + b
        if op == "-":
            return a - b
        if op == "*":
            return a * b
        if op == "/":
            if b == 0:
                raise PyRaise("ZeroDivisionError")
            r = Fraction(repr(a) if isinstance(a, float) else a) / Fraction(repr(b) if isinstance(b, float) else b)
            return float(r) if r.denominator in (1, 2, 4, 8) else r
        if op == "//":
            return a // b
        if op == "%":
            return a % b
        if op == "**":
            return a ** b
    if op == "**":
        return s_pow(a, b)
    if is_int(a) and is_int(b):
        if op == "+":
            return a + b
        if op == "-":
            return a - b
        if op == "*":
            return a * b
        if op in ("//", "%") and isinstance(b, int) and b > 0:
            return zi(a) / b if op == "//" else zi(a) % b
        if op in ("//", "%"):
            q, r = int_divmod(zi(a), zi(b))
            return q if op == "//" else r
    if isinstance(a, str) or isinstance(b, str) or isinstance(a, SStr) or isinstance(b, SStr):
        if op == "+":
            if isinstance(a, str) and isinstance(b, str):
                return a + b
            return SStr("cat", (a, b))
        if op == "*" and isinstance(a, str) and isinstance(b, int):
            return a * b
    x, y = num(a), num(b)
    if op == "/":
        return s_div(x, y)
    if x.v is None or y.v is None:
        return NAN
    nan = b_or(x.nan, y.nan)
    if op == "+":
        return V(nan, x.v + y.v)
    if op == "-":
        return V(nan, x.v - y.v)
    if op == "*":
        return V(nan, x.v * y.v)
    if op == "//":
        return V(nan, z3.ToReal(z3.ToInt(x.v / y.v)))
    raise Unsupported("operator " + op)


def monomials(e):
    """{sorted variable names with multiplicity: (coefficient, factor terms)} of an integer polynomial, or None."""
    e = z3.simplify(e, som=True)
    out = {}
    for t in (e.children() if z3.is_add(e) else [e]):
        c, fs, todo = 1, [], [t]
        while todo:
            x = todo.pop()
            if z3.is_mul(x):
                todo += reversed(x.children())
            elif z3.is_int_value(x):
                c *= x.as_long()
            elif z3.is_app(x) and x.decl().kind() == z3.Z3_OP_POWER and z3.is_int_value(x.arg(1)):
                fs += [x.arg(0)] * x.arg(1).as_long()
            elif z3.is_add(x):
                return None
            else:
                fs.append(x)
        key = tuple(sorted(x.get_id() for x in fs))
        if key in out:
            return None
        if c:
            out[key] = (c, fs)
    return out


def int_divmod(a, b):
    """Quotient and remainder of a by a monomial b (Python's, for b > 0): the terms divisible by b form the quotient when the
    rest provably lies in [0, b)."""
    ma, mb = monomials(a), monomials(b)
    if ma is None or mb is None or len(mb) != 1:
        raise Unsupported("integer division")
    (cb, fb), = mb.values()
    q, r = z3.IntVal(0), z3.IntVal(0)
    for c, fs in ma.values():
        left = list(fs)
        ok = c % cb == 0
        for x in fb:
            hit = next((k for k, y in enumerate(left) if y.eq(x)), None)
            if hit is None:
                ok = False
                break
            left.pop(hit)
        if ok:
            t = z3.IntVal(c // cb)
            for x in left:
                t = t * x
            q = q + t
        else:
            t = z3.IntVal(c)
            for x in fs:
                t = t * x
            r = r + t
    q, r = z3.simplify(q), z3.simplify(r)
    if not entails(r >= 0) and entails(z3.And(r < 0, r >= -b)):
        q, r = z3.simplify(q - 1), z3.simplify(r + b)
    elif not entails(r < b) and entails(z3.And(r >= b, r < 2 * b)):
        q, r = z3.simplify(q + 1), z3.simplify(r - b)
    if not (entails(b > 0) and entails(r >= 0) and entails(r < b)):
        raise Unsupported("integer division")
    return q, r


def s_neg(a):
    if isinstance(a, (int, float)) or (is_int(a)):
        return -a
    return s_bin("-", 0, a)


def s_eq(a, b):
    """Equality of scalars as a truth value."""
    if a is b and not isinstance(a, V):
        return True
    if isinstance(a, Opaque) or isinstance(b, Opaque):
        raise Unsupported("comparison of {} and {}".format(a, b))
    if isinstance(a, Lab) and isinstance(b, Lab):
        if a.base is b.base:
            return simp(zi(a.pos) == zi(b.pos))
        return simp(a.base.term(a.pos) == b.base.term(b.pos))
    for x, y in ((a, b), (b, a)):
        if isinstance(x, SStr) and x.kind == "if":
            c, p, q = x.parts
            p, q = s_eq(p, y), s_eq(q, y)
            return simp(z3.If(zb(c), zb(p), zb(q))) if not (isinstance(p, bool) and p is q) else p
    if isinstance(a, SStr) or isinstance(b, SStr):
        if isinstance(a, SStr) and isinstance(b, SStr):
            if a.kind == b.kind and len(a.parts) == len(b.parts):
                return b_and(*[s_eq(x, y) for x, y in zip(a.parts, b.parts)])
            x, y = text_parts(a), text_parts(b)
            if x is None or y is None:
                raise Unsupported("comparison of strings {} and {}".format(a, b))
            return text_eq(x, y)
        s, o = (a, b) if isinstance(a, SStr) else (b, a)
        if o is None or isinstance(o, (int, Lab)) or isz(o):
            return False
        if isinstance(o, str):
            m = s_match(s, o)
            if m is not None:
                return m
        raise Unsupported("comparison of strings {} and {}".format(a, b))
    if isinstance(a, (str, type(None), tuple)) or isinstance(b, (str, type(None), tuple)):
        if isinstance(a, (Lab, V)) or isinstance(b, (Lab, V)) or isz(a) or isz(b):
            return False
        return a == b
    if isinstance(a, Lab):
        a = a.base.term(a.pos)
    if isinstance(b, Lab):
        b = b.base.term(b.pos)
    if is_boolish(a) and is_boolish(b):
        if isinstance(a, bool) and isinstance(b, bool):
            return a == b
        return simp(zb(a) == zb(b))
    if is_int(a) and is_int(b):
        return a == b if isinstance(a, int) and isinstance(b, int) else simp(zi(a) == zi(b))
    if not (is_num(a) and is_num(b)):
        raise Unsupported("comparison of {!r} and {!r}".format(a, b))
    x, y = num(a), num(b)
    if x.v is None or y.v is None:
        return False
    return simp(b_and(b_not(x.nan), b_not(y.nan), x.v == y.v))


def text_of(s, vals):
    """The concrete text of a formatted number, given its numeric parts."""
    k, parts = s.kind, list(s.parts)
    m = re.fullmatch(r"slice\[(-?\d+)(:?)\]\((.*)\)", k)
    if m:
        t = text_of(SStr(m.group(3), s.parts), vals)
        return t[int(m.group(1)):] if m.group(2) else t[int(m.group(1))]
    m = re.fullmatch(r"(rstrip|lstrip|strip)\((.*)\)", k)
    if m:
        return getattr(text_of(SStr(m.group(2), s.parts[:-1]), vals), m.group(1))(s.parts[-1])
    return k[4:].format(*[float(v) for v in vals])


def is_number_text(s):
    """Text made from numbers by a format and by stripping and slicing with literal arguments."""
    return isinstance(s, SStr) and bool(re.fullmatch(r"(slice\[-?\d+:?\]\()?((rstrip|lstrip|strip)\()*fmt:\{:[^{}]*\}\)*", s.kind)) and all(
        isinstance(x, str) or is_num(x) and num(x).nan is False for x in s.parts)


def text_test(op, s, o):
    """Uninterpreted predicate of a formatted number: its text contains (is) the literal o."""
    trust("tests of the text of a formatted number are uninterpreted predicates of the number")
    vals = [num(x).v for x in s.parts if not isinstance(x, str)]
    if op == "is" and len(o) == 1:
        name = "txt!char!{}!{}".format(s.kind, "!".join(x for x in s.parts if isinstance(x, str)))
        cx.__dict__.setdefault("texts", {})[name] = lambda *vs: ord(text_of(s, vs))
        return z3.Function(name, *([z3.RealSort()] * len(vals) + [z3.IntSort()]))(*vals) == ord(o)
    name = "txt!{}!{}!{}!{}".format(op, o, s.kind, "!".join(x for x in s.parts if isinstance(x, str)))
    cx.__dict__.setdefault("texts", {})[name] = lambda *vs: (o in text_of(s, vs)) if op == "contains" else text_of(s, vs) == o
    return z3.Function(name, *([z3.RealSort()] * len(vals) + [z3.BoolSort()]))(*vals)


def s_match(s, o):
    """SStr against a concrete string."""
    if s.kind.startswith("slice[") and is_number_text(s):
        return text_test("is", s, o)
    x = text_parts(s)
    return None if x is None else text_eq(x, [o] if o else [])


def text_parts(s):
    """Literal pieces and integers (decimal text) of a symbolic string, or None."""
    if s.kind == "label":
        return [(s.parts[0],)]
    if s.kind.startswith("fmt:") and "{:" not in s.kind and all(isinstance(p, Lab) or is_int(p) for p in s.parts):
        out = []
        lits = s.kind[4:].split("{}")
        if len(lits) != len(s.parts) + 1:
            return None
        for k, l in enumerate(lits):
            if l:
                out.append(l.replace("{{", "{"))
            if k < len(s.parts):
                out.append((s.parts[k],))
        return out
    return None


def text_eq(x, y):
    """Equality of two texts made of literals and decimal integers."""
    x, y = list(x), list(y)
    conds = []
    num = re.compile(r"-?[0-9]+")
    while x and y:
        a, b = x[0], y[0]
        if isinstance(a, str) and isinstance(b, str):
            k = min(len(a), len(b))
            if a[:k] != b[:k]:
                return False
            x[0:1] = [a[k:]] if a[k:] else []
            y[0:1] = [b[k:]] if b[k:] else []
            continue
        if isinstance(a, tuple) and isinstance(b, tuple):
            for z in (x, y):
                if len(z) > 1 and (isinstance(z[1], tuple) or z[1][0].isdigit()):
                    raise Unsupported("comparison of ambiguous texts")
            conds.append(s_eq(a[0], b[0]))
            x, y = x[1:], y[1:]
            continue
        if isinstance(a, str):
            x, y, a, b = y, x, b, a
        m = num.match(b)
        if not m:
            return False
        if (len(m.group(0)) == len(b) and len(y) > 1) or (len(x) > 1 and (isinstance(x[1], tuple) or x[1][0].isdigit())):
            raise Unsupported("comparison of ambiguous texts")
        t = m.group(0)
        if str(int(t)) != t:
            return False
        conds.append(s_eq(a[0], int(t)))
        x = x[1:]
        y[0:1] = [b[len(t):]] if b[len(t):] else []
    if x or y:
        return False
    return b_and(*conds)


def s_cmp(op, a, b):
    if op == "==":
        return s_eq(a, b)
    if op == "!=":
        return b_not(s_eq(a, b)) if not isinstance(s_eq(a, b), bool) else (not s_eq(a, b))
    if isinstance(a, Lab) and isinstance(b, Lab) and a.base is b.base:
        a, b = a.pos, b.pos        # labels ascend with position
    if isinstance(a, Lab):
        a = a.base.term(a.pos)
    if isinstance(b, Lab):
        b = b.base.term(b.pos)
    f = {"<": lambda x, y: x < y, "<=": lambda x, y: x <= y, ">": lambda x, y: x > y, ">=": lambda x, y: x >= y}[op]
    if isinstance(a, str) and isinstance(b, str):
        return f(a, b)
    if isinstance(a, (int, float, Fraction)) and isinstance(b, (int, float, Fraction)):
        return f(a, b)
    if is_int(a) and is_int(b):
        return simp(f(zi(a), zi(b)))
    x, y = num(a), num(b)
    if x.v is None or y.v is None:
        return False
    return simp(b_and(b_not(x.nan), b_not(y.nan), f(x.v, y.v)))


def s_isnan(a):
    if isinstance(a, V):
        return a.nan
    if a is None:
        return True
    if isinstance(a, float):
        return a != a
    return False


def s_un(name, a):
    a = num(a)
    if a.v is None:
        return NAN
    if name == "abs":
        return V(a.nan, z3.If(a.v >= 0, a.v, -a.v))
    if name == "sqrt":
        r = uf("sqrt", 1)(a.v)
        add_axiom_local(z3.Implies(a.v >= 0, z3.And(r >= 0, r * r == a.v)))
        neg = simp(a.v < 0)
        if neg is not False and a.nan is not True and z3.simplify(a.v).get_id() in cx.__dict__.get("nonneg", ()):
            neg = False if entails(z3.Implies(zb(b_not(a.nan)), a.v >= 0)) else neg
        return V(b_or(a.nan, neg), r)
    if name in ("log", "exp", "floor"):
        return V(a.nan, uf(name, 1)(a.v))
    raise Unsupported(name)


def add_axiom_local(a):
    """Instances of true facts about uninterpreted functions (always sound, global)."""
    cx.keep.append(a)
    cx.localax = getattr(cx, "localax", {})
    cx.localax[a.get_id()] = a


# ------------------------------------------------------------------ bound-variable handling
def subst(e, pairs):
    return z3.substitute(e, *pairs)


def consts_of(e, acc=None, seen=None):
    """All uninterpreted constants and applications in e: {id: expr}."""
    acc = {} if acc is None else acc
    seen = set() if seen is None else seen
    stack = [e]
    while stack:
        x = stack.pop()
        i = x.get_id()
        if i in seen:
            continue
        seen.add(i)
        if z3.is_app(x):
            if x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                acc[i] = x
            stack.extend(x.children())
        elif z3.is_quantifier(x):
            stack.append(x.body())
    return acc


# ------------------------------------------------------------------ aggregates
class Agg:
    """kind over positions w in [lo, hi) with present(w), value val(w).  The aggregate of the current context is
    identified by the text of its body, so equal bodies give the same term; extensionality gives the rest."""
    def __init__(self, kind, lo, hi, fn, const, bexpr, extra=()):
        self.kind, self.lo, self.hi, self.fn, self.const, self.bexpr, self.extra = kind, lo, hi, fn, const, bexpr, extra

    def at(self, w):
        """(present, value) at position w, from the stored body text."""
        p, v = self.bexpr
        return subst(p, [(BV[self.depth], zi(w))]), subst(v, [(BV[self.depth], zi(w))])


BV = [z3.Int("bv!{}".format(k)) for k in range(12)]
_depth = [0]


def aggregate(kind, lo, hi, fn, extra=()):
    """fn(w) -> (present Bool, value V|Bool|Int).  Returns z3 Real (or Bool for any/all) term."""
    d = _depth[0]
    if d >= len(BV):
        raise Unsupported("too deeply nested aggregates")
    b = BV[d]
    _depth[0] += 1
    try:
        with hyp(zi(lo) <= b, b < zi(hi)):
            p, v = fn(b)
            if isinstance(v, V):
                p = b_and(p, b_not(v.nan))
                v = v.v if v.v is not None else z3.RealVal(0)
            else:
                v = rv(v)
            if simp(p) is False:
                v = z3.RealVal(0)
    finally:
        _depth[0] -= 1
    p = b_and(simp(zb(p)), zi(lo) <= b, b < zi(hi))
    p = z3.simplify(p)
    v = z3.simplify(v)
    if kind in ("sum", "count"):
        if v.decl().kind() == z3.Z3_OP_ITE and z3.is_rational_value(v.arg(1)) and z3.is_rational_value(v.arg(2)):
            # an indicator: counting
            x, y = (t.as_fraction() for t in v.children()[1:])
            if (x, y) == (1, 0):
                p, v = z3.simplify(z3.And(p, v.arg(0))), z3.RealVal(1)
            elif (x, y) == (0, 1):
                p, v = z3.simplify(z3.And(p, z3.Not(v.arg(0)))), z3.RealVal(1)
        kind = "count" if z3.is_rational_value(v) and v.eq(z3.RealVal(1)) else "sum"
    key = (kind, p.get_id(), v.get_id(), d, tuple(repr(e) for e in extra))
    if key in cx.aggkey:
        return cx.aggkey[key].const
    # fix-up: bodies that differ only in nesting depth use different bound variables; extensionality covers them
    const = z3.Real("agg!{}!{}".format(kind, len(cx.aggkey)))
    a = Agg(kind, lo, hi, fn, const, (p, v), extra)
    a.depth = d
    cx.aggkey[key] = a
    cx.aggs[const.get_id()] = a
    cx.keep += [p, v, const]
    if kind == "count":
        cx.axioms.append(const >= 0)
    return const


def agg_sub(e, bvar, w):
    """Substitute bvar by w in e, *through* aggregate constants (their bodies may mention bvar)."""
    occ = [x for x in consts_of(e).values() if x.get_id() in cx.aggs]
    pairs = [(bvar, zi(w))]
    for x in occ:
        a = cx.aggs[x.get_id()]
        if mentions(a, bvar):
            pairs.append((x, agg_inst(a, bvar, w)))
    return subst(e, pairs)


def mentions(a, bvar):
    k = (a.const.get_id(), bvar.get_id())
    _ment = cx.__dict__.setdefault("ment", {})
    if k not in _ment:
        r = False
        for e in (() if bvar.get_id() == BV[a.depth].get_id() else a.bexpr):    # its own bound variable is not free in it
            for x in consts_of(e).values():
                if x.get_id() == bvar.get_id() or (x.get_id() in cx.aggs and x.get_id() != a.const.get_id()
                                                   and mentions(cx.aggs[x.get_id()], bvar)):
                    r = True
        _ment[k] = (r, a.const, bvar)
    return _ment[k][0]


def agg_inst(a, bvar, w):
    """The aggregate a with free variable bvar replaced by w."""
    if isz(w) and any(x.get_id() == BV[a.depth].get_id() for x in consts_of(w).values()):
        raise Unsupported("bound variable would be captured")
    p = agg_sub(a.bexpr[0], bvar, w)
    v = agg_sub(a.bexpr[1], bvar, w)
    return inst_agg(a, z3.simplify(p), z3.simplify(v))


def inst_agg(a, p, v):
    """The aggregate of a's kind and depth with another body."""
    kind = a.kind
    if kind in ("sum", "count"):
        kind = "count" if z3.is_rational_value(v) and v.eq(z3.RealVal(1)) else "sum"
    key = (kind, p.get_id(), v.get_id(), a.depth, tuple(repr(e) for e in a.extra))
    if key in cx.aggkey:
        return cx.aggkey[key].const
    const = z3.Real("agg!{}!{}".format(kind, len(cx.aggkey)))
    n = Agg(kind, None, None, None, const, (p, v), a.extra)
    n.depth = a.depth
    cx.aggkey[key] = n
    cx.aggs[const.get_id()] = n
    cx.keep += [p, v, const]
    return const


def agg_body(a, w):
    """(present, value) of aggregate a at position term w."""
    return agg_sub(a.bexpr[0], BV[a.depth], w), agg_sub(a.bexpr[1], BV[a.depth], w)


def fv_subst(e, var, w):
    """Substitute a free variable in e, through aggregates."""
    return agg_sub(e, var, w)


# ------------------------------------------------------------------ recursive functions
class RecFn:
    """A recursively defined numeric function of integer arguments (summary of a loop, or a spec recursion).
    body(args) -> V (may apply the function itself); measure(args) -> Int decreasing along recursive calls."""
    def __init__(self, name, arity, body, measure, ranges):
        self.name, self.arity, self.body, self.measure, self.ranges = name, arity, body, measure, ranges
        I, R, B = z3.IntSort(), z3.RealSort(), z3.BoolSort()
        self.fv = z3.Function(name + "!v", *([I] * arity + [R]))
        self.fn = z3.Function(name + "!nan", *([I] * arity + [B]))
        cx.recs[self.fv.name()] = self
        cx.recs[self.fn.name()] = self
        self.unf = {}
        self.hyps = list(cx.hyps)          # the body may mention variables constrained here

    def __call__(self, *args):
        args = [zi(z3.simplify(zi(a))) for a in args]
        return V(self.fn(*args), self.fv(*args))

    def unfold(self, args):
        """Definitional equations at args."""
        key = tuple(a.get_id() for a in args), tuple(h.get_id() for h in cx.hyps)
        if key not in self.unf:
            cx.keep += list(args) + list(cx.hyps)
            with hyp(*self.ranges(*args)):
                r = num(evalm(lambda: self.body(*args)))
            nanv = zb(r.nan)
            v = r.v if r.v is not None else z3.RealVal(0)
            g = b_and(*self.ranges(*args))
            eq = z3.Implies(zb(g), z3.And(self.fn(*args) == nanv, z3.Or(nanv, self.fv(*args) == v)))
            self.unf[key] = (eq, list(args), r)
            cx.keep.append(eq)
        return self.unf[key]


def rec_apps(e):
    """Applications of recursive functions in e: [(RecFn, args)] (also inside aggregate bodies: not followed)."""
    out = {}
    for x in consts_of(e).values():
        nm = x.decl().name()
        if nm in cx.recs:
            r = cx.recs[nm]
            args = x.children()
            out[(r.name, tuple(a.get_id() for a in args))] = (r, args)
    return list(out.values())


# ------------------------------------------------------------------ prover
class Result:
    def __init__(self, status, reason="", time=0., model=None, backend="z3"):
        self.status, self.reason, self.time, self.model, self.backend = status, reason, time, model, backend


def closure_axioms(exprs, hyps, rounds=3, maxpairs=400, maxax=2500):
    """Extensionality instances for the aggregates occurring in exprs, facts about recursive functions (recfacts) and about
    other applications (termfacts), to a fixed number of rounds."""
    ax, done, work, npairs = [], set(), list(exprs), 0
    seen_aggs = {}
    recfacts, termfacts = cx.__dict__.get("recfacts", {}), cx.__dict__.get("termfacts", {})
    for rnd in range(rounds):
        new = []
        for e in work:
            for x in consts_of(e).values():
                if x.get_id() in cx.aggs and x.get_id() not in seen_aggs:
                    seen_aggs[x.get_id()] = cx.aggs[x.get_id()]
                nm = x.decl().name()
                if (nm in termfacts or nm in cx.recs) and not has_var(x):
                    k = ("app", nm[:-2] if nm in cx.recs else nm, tuple(a.get_id() for a in x.children()))
                    if nm in cx.recs:
                        k = ("app", cx.recs[nm].name, k[2])
                    if k in done:
                        continue
                    done.add(k)
                    if nm in termfacts:
                        new += [f for f in termfacts[nm](*x.children()) if f is not True]
                    elif cx.recs[nm].name in recfacts:
                        f = recfacts[cx.recs[nm].name](*x.children())
                        if f is not True:
                            new.append(f)
        lst = list(seen_aggs.values())
        for a in lst:
            k = ("self", a.const.get_id())
            if k in done:
                continue
            done.add(k)
            new += agg_facts(a)
        for a, b in itertools.combinations(lst, 2):
            k = (a.const.get_id(), b.const.get_id())
            if k in done or akin(a) != akin(b) or tuple(map(repr, a.extra)) != tuple(map(repr, b.extra)):
                continue
            done.add(k)
            npairs += 1
            if npairs > maxpairs or len(ax) + len(new) > maxax:
                break
            new += ext(a, b)
        if any(a.kind in ("min", "max") for a in lst) or sum(a.kind == "any" for a in lst) > 1:
            new += extreme_facts(lst, ax + new, done)
        ax += new
        work = new
        if not new or len(ax) > maxax:
            break
    return ax


def has_var(e):
    """Does e contain a variable bound by a quantifier around it?"""
    stack = [e]
    while stack:
        x = stack.pop()
        if z3.is_var(x):
            return True
        stack.extend(x.children())
    return False


def akin(a):
    return "sum" if a.kind == "count" else a.kind


def extreme_facts(aggs, facts, done):
    """Minima and maxima bound the present values and are attained; two present positions make the count at least two."""
    out, ws = [], {}
    for e in facts:
        for x in consts_of(e).values():
            if z3.is_int(x) and x.decl().name().startswith("wa!"):
                ws[x.get_id()] = x
    ws = list(ws.values())[:24]
    for a in aggs:
        if a.kind in ("min", "max"):
            for w in ws:
                k = ("bound", a.const.get_id(), w.get_id())
                if k not in done:
                    done.add(k)
                    p, v = agg_body(a, w)
                    out.append(z3.Implies(p, v >= a.const if a.kind == "min" else v <= a.const))
            for b in aggs:
                k = ("attained", a.const.get_id(), b.const.get_id())
                if b.kind == "count" and b.depth == a.depth and b.bexpr[0].eq(a.bexpr[0]) and k not in done:
                    done.add(k)
                    w = cx.fresh("wa")
                    p, v = agg_body(a, w)
                    out.append(z3.Or(b.const == 0, z3.And(p, v == a.const)))
        elif a.kind == "any":
            for w in ws:
                k = ("some", a.const.get_id(), w.get_id())
                if k not in done:
                    done.add(k)
                    out.append(z3.Implies(agg_body(a, w)[0], a.const != 0))
        elif a.kind == "count":
            for x, y in itertools.combinations(ws, 2):
                k = ("two", a.const.get_id(), x.get_id(), y.get_id())
                if k not in done:
                    done.add(k)
                    out.append(z3.Implies(z3.And(x != y, agg_body(a, x)[0], agg_body(a, y)[0]), a.const >= 2))
    return out


BVIDS = {b.get_id() for b in BV}


def has_bv(e):
    return any(x.get_id() in BVIDS for x in consts_of(e).values())


def agg_unit(kind):
    return z3.RealVal(1 if kind == "prod" else 0)


def integral(e, depth=0):
    """Is the real-valued term a whole number, by its form?"""
    if depth > 12:
        return False
    k = e.decl().kind()
    if k == z3.Z3_OP_TO_REAL:
        return True
    if z3.is_rational_value(e):
        return e.denominator_as_long() == 1
    if k in (z3.Z3_OP_ADD, z3.Z3_OP_SUB, z3.Z3_OP_MUL, z3.Z3_OP_UMINUS):
        return all(integral(x, depth + 1) for x in e.children())
    if k == z3.Z3_OP_ITE:
        return integral(e.arg(1), depth + 1) and integral(e.arg(2), depth + 1)
    a = cx.aggs.get(e.get_id())
    if a is not None:
        return a.kind == "count" or a.kind in ("sum", "prod", "min", "max") and integral(a.bexpr[1], depth + 1)
    return False


def agg_facts(a):
    """Defining facts of an aggregate that need no other one."""
    out = []
    if a.kind in ("min", "max"):
        w = cx.fresh("w")
        p, v = agg_body(a, w)
        # attained when non-empty
        e = z3.Const("ne!{}".format(a.const), z3.BoolSort())
        out.append(z3.Implies(e, z3.And(p, a.const == v)))
    if a.kind in ("sum", "prod", "count", "any"):
        w = cx.fresh("wa" if a.kind == "any" else "w")
        p, v = agg_body(a, w)
        out.append(z3.Or(a.const == agg_unit(a.kind), p))
        # a single present position
        lows, highs = agg_bounds(a)
        cand = {t.get_id(): t for t in lows + [z3.simplify(h - 1) for h in highs]}
        if a.kind in ("sum", "prod", "count"):
            for w0 in cand.values():
                w = cx.fresh("w")
                p, _ = agg_body(a, w)
                out.append(z3.Or(a.const == term_at(a, w0)[1], z3.And(p, w != w0)))
    if a.kind == "any":
        lows, highs = agg_bounds(a)
        cand = {t.get_id(): t for t in lows + [z3.simplify(h - 1) for h in highs]}
        for w0 in cand.values():
            out.append(z3.Implies(agg_body(a, w0)[0], a.const != 0))
    if a.kind == "sum" and integral(a.const):
        out.append(a.const == z3.ToReal(z3.ToInt(a.const)))
    if a.kind == "count":
        out.append(a.const >= 0)
        out.append(a.const == z3.ToReal(z3.ToInt(a.const)))
    # signs (skolemised: otherwise some present element has the other sign)
    if a.kind == "prod":
        w = cx.fresh("w")
        p, v = agg_body(a, w)
        out.append(z3.Or(a.const > 0, z3.And(p, v <= 0)))
    if a.kind == "sum" and not z3.is_rational_value(z3.simplify(a.bexpr[1])):
        w = cx.fresh("w")
        p, v = agg_body(a, w)
        out.append(z3.Or(a.const >= 0, z3.And(p, v < 0)))
        w = cx.fresh("w")
        p, v = agg_body(a, w)
        lows, highs = agg_bounds(a)
        for w0 in lows[:2]:
            p0, v0 = agg_body(a, w0)
            out.append(z3.Or(a.const > 0, z3.And(p, v < 0), z3.Not(z3.And(p0, v0 > 0))))
    return out


def agg_bounds(a):
    """Candidate end positions [(lo, hi)] of an aggregate, from the linear bounds in its presence condition."""
    if getattr(a, "bnds", None) is not None:
        return a.bnds
    bv = BV[a.depth]
    lows, highs = [], []

    def atom(c, neg):
        k = c.decl().kind()
        if k == z3.Z3_OP_NOT:
            atom(c.arg(0), not neg)
            return
        if k not in (z3.Z3_OP_LE, z3.Z3_OP_GE, z3.Z3_OP_LT, z3.Z3_OP_GT) or not z3.is_int(c.arg(0)):
            return
        d = z3.simplify(c.arg(0) - c.arg(1))
        r = z3.simplify(z3.substitute(d, (bv, z3.IntVal(0))))
        cf = z3.simplify(z3.substitute(d, (bv, z3.IntVal(1))) - r)
        if not z3.is_int_value(cf) or cf.as_long() not in (1, -1):
            return
        le = k in (z3.Z3_OP_LE, z3.Z3_OP_LT)
        strict = k in (z3.Z3_OP_LT, z3.Z3_OP_GT)
        if neg:
            le, strict = not le, not strict
        # cf*bv + r (<=|<|>=|>) 0
        b = z3.simplify(-r if cf.as_long() == 1 else r)
        up = le == (cf.as_long() == 1)
        if up:
            highs.append(z3.simplify(b if strict else b + 1))       # bv < hi
        else:
            lows.append(z3.simplify(b + 1 if strict else b))        # bv >= lo

    def walk(c, neg):
        k = c.decl().kind()
        if k == z3.Z3_OP_NOT:
            walk(c.arg(0), not neg)
        elif (k == z3.Z3_OP_AND and not neg) or (k == z3.Z3_OP_OR and neg):
            for x in c.children():
                walk(x, neg)
        else:
            atom(c, neg)
    walk(a.bexpr[0], False)
    a.bnds = (lows, highs)
    return a.bnds


def term_at(a, w):
    p, v = agg_body(a, w)
    return p, z3.If(p, v, agg_unit(a.kind))


def ext(a, b):
    """a == b unless their bodies differ somewhere (witness w): congruence of finite aggregates.  For sums and products
    also the lemma for bodies that differ at a single position w0."""
    out = []
    for align in alignments(a, b):
        out.append(z3.Or(a.const == b.const, differ(a, b, cx.fresh("w"), align)))
    if a.kind in ("sum", "prod", "count") and cx.__dict__.get("peel", True):
        out += peel(a, b)
    return out


def bound_terms(a):
    lows, highs = agg_bounds(a)
    return lows, highs


def peel(a, b):
    """Instances of: if the bodies agree everywhere but at w0, then a and b differ by their terms at w0."""
    out = []
    la, ha = agg_bounds(a)
    lb, hb = agg_bounds(b)
    cands = {}
    for x in ha:
        for y in hb:
            d = z3.simplify(x - y)
            if z3.is_int_value(d) and d.as_long() in (1, -1):
                t = z3.simplify(y if d.as_long() == 1 else x)
                cands[t.get_id()] = t
    for x in la:
        for y in lb:
            d = z3.simplify(x - y)
            if z3.is_int_value(d) and d.as_long() in (1, -1):
                t = z3.simplify(x if d.as_long() == -1 else y)
                cands[t.get_id()] = t
    for t in cx.__dict__.get("peelat", []):
        cands[t.get_id()] = t
    for w0 in cands.values():
        w = cx.fresh("w")
        _, ta = term_at(a, w)
        _, tb = term_at(b, w)
        _, xa = term_at(a, w0)
        _, xb = term_at(b, w0)
        if a.kind == "prod":
            rest = cx.fresh("rest", z3.RealSort())
            f = z3.And(a.const == xa * rest, b.const == xb * rest)
        else:
            f = a.const - b.const == xa - xb
        out.append(z3.Or(f, z3.And(w != w0, ta != tb)))
    return out


ORDERED = {"seqfn"}


def alignments(a, b):
    """Maps between the positions of two aggregates: identity, shifts that match their ends, and reversal.
    (All are bijections of the integers, so equal bodies along one of them make the aggregates equal.)"""
    al, seen = [lambda w: w], {0}
    if a.kind in ORDERED:
        return al
    (la, ha), (lb, hb) = agg_bounds(a), agg_bounds(b)
    for x, y in [(x, y) for x in la[:2] for y in lb[:2]] + [(x, y) for x in ha[:2] for y in hb[:2]]:
        d = z3.simplify(zi(y) - zi(x))
        k = d.as_long() if z3.is_int_value(d) else d.get_id()
        if k not in seen and len(al) < 4:
            seen.add(k)
            al.append(lambda w, d=d: w + d)
    for x in ha[:1]:
        for y in lb[:1]:
            s = z3.simplify(zi(x) + zi(y) - 1)
            al.append(lambda w, s=s: s - w)       # reversal
    return al


def prove(goal, hyps=(), timeout=6000, unfold=(), rounds=3, want_model=False):
    """Is goal implied by cx.hyps + hyps (+ global facts)?"""
    r = prove1(goal, hyps, timeout, unfold, rounds, want_model)
    if r.status != "proved" and not _unify_depth[0] and not _pair_depth[0]:
        g = simp(goal)
        if isz(g):
            g2 = pull_factors(g, list(cx.hyps) + [zb(h) for h in hyps] + list(cx.axioms))
            if not g2.eq(g):
                r2 = prove1(g2, hyps, timeout, unfold, rounds, want_model)
                if r2.status == "proved":
                    r2.time += r.time
                    return r2
    return r


def free_of(e, d):
    b = BV[d]
    for x in consts_of(e).values():
        if x.get_id() == b.get_id() or x.get_id() in cx.aggs and mentions(cx.aggs[x.get_id()], b):
            return False
    return True


def pull_factors(g, hs):
    """g with sum(c * f) replaced by c * sum(f) and sum(f / c) by sum(f) / c (c not zero) for factors c free of the bound variable."""
    pairs = []
    for x in consts_of(g).values():
        a = cx.aggs.get(x.get_id())
        if a is None or a.kind != "sum":
            continue
        p, v = a.bexpr
        over, under = [], []
        while True:
            k = v.decl().kind()
            if k == z3.Z3_OP_DIV and free_of(v.arg(1), a.depth) and lite(v.arg(1) != 0, hs):
                under.append(v.arg(1))
                v = v.arg(0)
                continue
            if k == z3.Z3_OP_MUL:
                fr = [c for c in v.children() if free_of(c, a.depth)]
                rest = [c for c in v.children() if not free_of(c, a.depth)]
                if fr and rest:
                    over += fr
                    v = z3.Product(*rest) if len(rest) > 1 else rest[0]
                    continue
            break
        if not over and not under:
            continue
        t = inst_agg(a, p, z3.simplify(v))
        for c in over:
            t = c * t
        for c in under:
            t = t / c
        pairs.append((x, t))
    return z3.simplify(z3.substitute(g, *pairs)) if pairs else g


def prove1(goal, hyps=(), timeout=6000, unfold=(), rounds=3, want_model=False):
    t0 = time.time()
    goal = simp(goal)
    if goal is True:
        return Result("proved", "simplification", 0., backend="rewriting")
    g = zb(goal)
    if count_reals(g):
        return Result("proved", "", time.time() - t0)
    hs = list(cx.hyps) + [zb(h) for h in hyps] + list(cx.axioms)
    g = known_eq(g, hs)
    if z3.is_true(g):
        return Result("proved", "", time.time() - t0)
    near = [f for f in getattr(cx, "localax", {}).values() if any(x.get_id() in cx.aggs for x in consts_of(f).values())]
    if near and any(x.get_id() in cx.aggs for x in consts_of(g).values()):
        if _check(hs + near + [z3.Not(g)], 400)[0] == z3.unsat:      # one step of an induction is often linear
            return Result("proved", "", time.time() - t0)
    g = settle(g, hs)
    if z3.is_true(g):
        return Result("proved", "", time.time() - t0)
    g2 = unify_aggs(g, hs)
    if z3.is_true(g2):
        return Result("proved", "", time.time() - t0)
    if not g2.eq(g):
        r, s = _check(list(cx.hyps) + [zb(h) for h in hyps] + [z3.Not(g2)], min(timeout, 2000))
        if r == z3.unsat:
            return Result("proved", "", time.time() - t0)
        if r == z3.unknown and _abstract(list(cx.hyps) + [zb(h) for h in hyps] + [z3.Not(g2)], min(timeout, 3000)) == z3.unsat:
            return Result("proved", "", time.time() - t0, backend="z3-nlsat")
        g = g2
    tick()
    g3 = pair_eq(g, hs, timeout)
    if not g3.eq(g):
        if z3.is_true(g3):
            return Result("proved", "", time.time() - t0)
        r, s = _check(list(cx.hyps) + [zb(h) for h in hyps] + [z3.Not(g3)], min(timeout, 2000))
        if r == z3.unsat:
            return Result("proved", "", time.time() - t0)
        g = g3
    ax = closure_axioms([g] + hs, hs, rounds)
    import os
    if os.environ.get("DVSIZE"):
        print("PROVE", len(ax), str(g)[:300], flush=True)
    loc = list(getattr(cx, "localax", {}).values())
    asserts = hs + ax + loc + [z3.Not(g)]
    try:
        r, s = _check(asserts, timeout)
    except z3.Z3Exception as e:
        return Result("unknown", str(e), time.time() - t0)
    if r == z3.unsat:
        return Result("proved", "", time.time() - t0)
    if r == z3.unknown:
        # nonlinear equalities: abstract uninterpreted applications by variables
        r2 = _abstract(asserts, timeout)
        if r2 == z3.unsat:
            return Result("proved", "", time.time() - t0, backend="z3-nlsat")
        return Result("unknown", s.reason_unknown(), time.time() - t0)
    return Result("refuted", str(g)[:400], time.time() - t0, model=s.model())


def atoms_of(g):
    """Comparisons occurring as conditions in g (not g itself), innermost first."""
    out, seen = [], set()

    def walk(x):
        if x.get_id() in seen or z3.is_quantifier(x):
            return
        seen.add(x.get_id())
        for c in x.children():
            walk(c)
        if z3.is_bool(x) and x.num_args() and z3.is_arith(x.arg(0)) and not x.eq(g):
            out.append(x)
    walk(g)
    return out


def settle(g, hs):
    """g with the comparisons that the hypotheses decide replaced by their truth value (goals with many of them only)."""
    if _pair_depth[0] or _unify_depth[0] or len(atoms_of(g)) < 5:
        return g
    s = z3.Solver()
    s.set("timeout", 150)
    s.add(*hs)
    s.add(*[a for a in closure_axioms([g] + hs, hs, 1, 0, 150)])
    s.add(*theory([g] + hs))
    known, t0 = set(), time.time()
    while True:
        for a in atoms_of(g):
            if a.get_id() in known:
                continue
            known.add(a.get_id())
            if time.time() - t0 > 5 or len(known) > 60:
                return g
            tick()
            v = None
            for val, e in ((True, z3.Not(a)), (False, a)):
                s.push()
                s.add(e)
                r = s.check()
                s.pop()
                if r == z3.unsat:
                    v = val
                    break
            if v is not None:
                g = z3.simplify(z3.substitute(g, (a, z3.BoolVal(v))))
                break
        else:
            return g
        if z3.is_true(g) or z3.is_false(g):
            return g


def count_reals(g):
    """Counts are whole numbers: does g hold for arbitrary whole numbers in their place?"""
    cs = [x for x in consts_of(g).values() if x.get_id() in cx.aggs and cx.aggs[x.get_id()].kind == "count"]
    if not cs:
        return False
    g = z3.simplify(z3.substitute(g, *((c, z3.ToReal(z3.Int("count!{}".format(i)))) for i, c in enumerate(cs))))
    if z3.is_true(g):
        return True
    if _check([z3.Not(g)], 500)[0] == z3.unsat:
        return True
    facts = [f for x in consts_of(g).values() if x.num_args() and x.decl().name() in cx.__dict__.get("termfacts", {})
             and not has_var(x) for f in cx.termfacts[x.decl().name()](*x.children())]
    return bool(facts) and _abstract(facts + [z3.Not(g)], 2000) == z3.unsat


_pair_depth = [0]


def known_eq(g, hs):
    """g with aggregates proved equal by an earlier goal (under a subset of the hypotheses) replaced by one of them."""
    aggs = sorted([cx.aggs[x.get_id()] for x in consts_of(g).values() if x.get_id() in cx.aggs], key=lambda a: a.const.decl().name())
    now, gone = None, []
    for a, b in itertools.combinations(aggs, 2):
        for ids, ok, _ in cx.cache.get(("paireq", a.const.get_id(), b.const.get_id()), ()):
            now = {h.get_id() for h in hs} if now is None else now
            if ok and ids <= now:
                gone.append((b.const, a.const))
                break
    return z3.simplify(z3.substitute(g, *gone)) if gone else g


def pair_eq(g, hs, timeout):
    """g with aggregates proved equal (as numbers, by a goal of their own) replaced by one of them; only for goals that are
    more than such an equality."""
    if _pair_depth[0] or not has_apps(g):
        return g
    aggs = sorted([cx.aggs[x.get_id()] for x in consts_of(g).values() if x.get_id() in cx.aggs], key=lambda a: a.const.decl().name())
    pairs = [(a, b) for a, b in itertools.combinations(aggs, 2) if akin(a) == akin(b) and a.kind in ("sum", "prod", "count")]
    if not pairs or len(pairs) > 3:
        return g
    gone = []
    for a, b in pairs:
        known = cx.cache.setdefault(("paireq", a.const.get_id(), b.const.get_id()), [])
        now = {h.get_id() for h in hs}
        hit = next((ok for ids, ok, _ in known if (ids <= now if ok else ids == now)), None)
        if hit is None:
            _pair_depth[0] += 1
            try:
                hit = prove(a.const == b.const, (), min(timeout, 6000)).status == "proved"
            finally:
                _pair_depth[0] -= 1
            known.append((now, hit, hs))
        if hit:
            gone.append((b.const, a.const))
    return z3.simplify(z3.substitute(g, *gone)) if gone else g


def has_apps(g):
    """Does g apply uninterpreted functions to terms with aggregates (so that their equality is not all of g)?"""
    for x in consts_of(g).values():
        if x.num_args() and any(y.get_id() in cx.aggs for c in x.children() for y in consts_of(c).values()):
            return True
    return False


_unify_depth = [0]


def unify_aggs(g, hs):
    """g with aggregates that are proved equal (their bodies agree everywhere) replaced by one of them."""
    if _unify_depth[0] > 3:
        return g
    aggs = [cx.aggs[x.get_id()] for x in consts_of(g).values() if x.get_id() in cx.aggs]
    if len(aggs) < 2 or len(aggs) > 14:
        return g
    aggs.sort(key=lambda a: a.const.decl().name())
    gone = {}
    for a, b in itertools.combinations(aggs, 2):
        if a.const.get_id() in gone or b.const.get_id() in gone or akin(a) != akin(b) or tuple(map(repr, a.extra)) != tuple(map(repr, b.extra)):
            continue
        if same_body(a, b, hs):
            gone[b.const.get_id()] = (b.const, a.const)
    if not gone:
        return g
    return z3.simplify(z3.substitute(g, *gone.values()))


def same_body(a, b, hs):
    key = ("same", a.const.get_id(), b.const.get_id(), tuple(h.get_id() for h in hs))
    if key in cx.cache:
        return cx.cache[key][0]
    good = cx.cache.setdefault(("same", a.const.get_id(), b.const.get_id()), [])
    if good:
        now = {h.get_id() for h in hs}
        if any(ids <= now for ids, _ in good):
            return True
    r = False
    _unify_depth[0] += 1
    try:
        for align in alignments(a, b):
            w = cx.fresh("w")
            p1, v1 = agg_body(a, w)
            p2, v2 = agg_body(b, align(w))
            if lite(p1 == p2, hs):
                with hyp(z3.simplify(p1)):
                    if a.kind == "any" or lite(v1 == v2, hs + [p1]):
                        r = True
                        break
            r = lite(z3.Not(differ(a, b, w, align)), hs)
            if r:
                break
    except z3.Z3Exception:
        r = False
    finally:
        _unify_depth[0] -= 1
    cx.cache[key] = (r, hs, None)
    if r:
        good.append(({h.get_id() for h in hs}, hs))
    return r


def lite(g, hs):
    """Inexpensive proof attempt."""
    g = simp(g)
    if isinstance(g, bool):
        return g
    if z3.is_eq(g) and z3.is_arith(g.arg(0)) and z3.simplify(g.arg(0) - g.arg(1)).eq(rv(0)):
        return True
    g = unify_aggs(g, hs)
    if z3.is_true(g):
        return True
    ax = closure_axioms([g] + list(cx.hyps), hs, 2, 12, 150)
    return _check(hs + ax + [z3.Not(g)], 700)[0] == z3.unsat


def differ(a, b, w, align):
    p1, v1 = agg_body(a, w)
    p2, v2 = agg_body(b, align(w))
    if a.kind in ("sum", "count"):
        return z3.If(p1, v1, z3.RealVal(0)) != z3.If(p2, v2, z3.RealVal(0))
    if a.kind == "prod":
        return z3.If(p1, v1, z3.RealVal(1)) != z3.If(p2, v2, z3.RealVal(1))
    if a.kind == "any":
        return p1 != p2
    return z3.Or(p1 != p2, z3.And(p1, v1 != v2))


def _abstract(asserts, timeout):
    """Replace uninterpreted applications by fresh constants (weaker facts: unsat still means proved)."""
    apps = {}
    for a in asserts:
        for x in consts_of(a).values():
            if x.num_args() > 0:
                apps[x.get_id()] = x
    order = sorted(apps.values(), key=lambda x: -x.get_id())
    pairs = [(x, z3.Const("abs!{}".format(k), x.sort())) for k, x in enumerate(order)]
    sub = [z3.substitute(a, *pairs) for a in asserts] if pairs else asserts
    s = z3.SolverFor("QF_NIRA") if False else z3.Solver()
    s.set("timeout", timeout)
    s.add(*sub)
    t0 = time.time()
    r = s.check()
    cx.solver_time += time.time() - t0
    return r
