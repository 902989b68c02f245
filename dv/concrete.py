"""Counterexample search for undischarged goals: evaluate hypotheses and goal at concrete sizes and random amounts.

The prover works on symbolic sizes and cannot produce models for aggregates or recursive functions.  Here every aggregate is
expanded over its range, every recursive function is unfolded, every uninterpreted data function is a random table, and
sqrt/exp/log are the real ones; a sample that satisfies all hypotheses and falsifies the goal refutes the obligation."""
import math
import random
import statistics
import time
from fractions import Fraction
import numpy
import z3
import core
from core import cx


class Skip(Exception):
    """The sample cannot be evaluated (division by zero, value outside a function's domain)."""


class Off(Exception):
    """The sample violates a hypothesis."""


TOL = 1e-9


def close(a, b):
    if isinstance(a, (bool, int, Fraction)) and isinstance(b, (bool, int, Fraction)):
        return a == b
    a, b = float(a), float(b)
    return a == b or abs(a - b) <= TOL * max(1., abs(a), abs(b))


def quantile_text(v):
    return "{:.10g}".format(float(v))


class Sample:
    def __init__(self, rng, n):
        self.rng, self.n = rng, n
        self.ints, self.reals, self.bools, self.fns = {"n": n}, {}, {}, {}
        self.memo, self.keep, self.perms, self.multisets = {}, [], {}, {}
        self.mode = rng.randrange(4)
        self.deadline = None
        self.steps = 0

    # ---------------------------------------------------------------- atoms
    def span(self):
        return max([self.n * self.n] + [v for k, v in self.ints.items() if "!" not in k]) + 3

    def number(self, positive):
        r = self.rng
        k = r.randrange(6)
        if positive or k < 4:
            return Fraction(r.randint(1, 60), r.choice([1, 2, 3, 4, 8, 20, 64]))
        if k == 4:
            return Fraction(0)
        return Fraction(-r.randint(1, 30), r.choice([1, 2, 4]))

    def int_const(self, name):
        if name not in self.ints:
            r = self.rng
            self.ints[name] = r.randint(0, self.n) if "!" in name else r.choice([1, 2, 2, 3, 3, 4, self.n])
        return self.ints[name]

    def real_const(self, name):
        if name.startswith("root!"):
            raise Skip("the root of an equation")
        if name not in self.reals:
            self.reals[name] = self.number(self.rng.random() < .8)
        return self.reals[name]

    def fn_key(self, name, args):
        return (name,) + tuple(a if isinstance(a, (bool, int)) else quantile_text(a) for a in args)

    def apply(self, e, name, args):
        if name == "sqrt":
            if args[0] < 0:
                raise Skip("sqrt")
            return math.sqrt(args[0])
        try:
            if name == "exp":
                return math.exp(args[0])
            if name == "log":
                return math.log(args[0])
            if name == "floor":
                return Fraction(math.floor(args[0]))
            if name == "pow":
                if args[0] <= 0:
                    raise Skip("pow")
                return float(args[0]) ** float(args[1])
            if name in ("norm_cdf", "norm_ppf") and args[2] > 0:
                d = statistics.NormalDist(float(args[1]), float(args[2]))
                return d.cdf(args[0]) if name == "norm_cdf" else d.inv_cdf(float(args[0]))
            if name in ("lognorm_cdf", "lognorm_ppf") and args[2] > 0 and args[3] > 0:
                x, loc, sh, sc = [float(a) for a in args]
                d = statistics.NormalDist()
                return d.cdf(math.log((x - loc) / sc) / sh) if name == "lognorm_cdf" else loc + sc * math.exp(sh * d.inv_cdf(x))
        except (ValueError, OverflowError):       # also statistics.StatisticsError
            raise Skip(name)
        if name.startswith(("norm_", "lognorm_")):
            raise Skip("distribution")
        if name.startswith("percentile_"):
            return self.percentile(name[11:], *args)
        if name.startswith("draw_normal_"):                     # loc + scale * a draw of the standard normal
            return args[-2] + args[-1] * self.table(name, args[:-2])
        if name.startswith("draw_gamma_"):                      # scale * a draw of the standard gamma
            if args[-1] < 0:
                raise Skip("gamma")
            return args[-1] * abs(self.table(name, args[:-1]))
        if name == "is_normal_draw":
            if args[2] == 0:
                return close(args[0], args[1])
            z = (args[0] - args[1]) / args[2]
            return any(close(z, v) for k, v in self.fns.items() if isinstance(k[0], str) and k[0].startswith("draw_normal_"))
        if name == "binom":
            x, y = args
            if x != int(x) or y != int(y) or not 0 <= x <= 200:
                raise Skip("binom")
            return Fraction(math.comb(int(x), int(y)) if 0 <= y else 0)
        if name in cx.__dict__.get("texts", {}):
            return cx.texts[name](*args)
        if name in cx.recs:
            return self.rec(cx.recs[name], name, args)
        if name.startswith("lab_"):
            return self.label(name, args[0])
        if name in cx.__dict__.get("shapes", {}):
            return cx.shapes[name](self, *args)
        key = self.fn_key(name, args)
        if key in self.fns:
            return self.fns[key]
        if name in cx.__dict__.get("perms", {}):
            return self.perm(name, args)
        u = self.unique(name, args)
        if u is not None:
            return u
        rs = e.decl().range()
        facts = None
        tf = cx.__dict__.get("termfacts", {}).get(name)
        for t in range(60):
            if rs == z3.BoolSort():
                v = self.rng.random() < .6
            elif rs == z3.IntSort():
                v = self.rng.randint(0, self.n)
            else:
                v = self.number(t % 2 == 0 and self.mode != 3)
                if t % 5 == 4:
                    v = Fraction(self.rng.randint(0, 16), 16)
            self.fns[key] = v
            if tf is None:
                return v
            if facts is None:
                facts = tf(*[self.lit(a, e.arg(k)) for k, a in enumerate(args)])
                self.keep.append(facts)
            try:
                if all(self.ev(core.zb(f), {}, False) for f in facts):
                    return v
            except Skip:
                return v
        raise Off(name)

    def table(self, name, args):
        key = self.fn_key(name, args)
        if key not in self.fns:
            self.fns[key] = self.number(False)
        return self.fns[key]

    def percentile(self, method, token, q):
        vals = self.multisets.get(quantile_text(token))
        if vals is None or not vals or not 0 <= q <= 100:
            raise Skip("percentile")
        try:
            return float(numpy.percentile([float(v) for v in vals], float(q), method=method))
        except ValueError:
            raise Skip("percentile method")

    def lit(self, v, like):
        if z3.is_int(like):
            return z3.IntVal(int(v))
        if z3.is_bool(like):
            return z3.BoolVal(bool(v))
        return z3.RealVal(str(v) if isinstance(v, Fraction) else repr(float(v)))

    def label(self, name, p):
        key = (name, "base")
        if key not in self.fns:
            self.fns[key] = (self.rng.randint(-3, 2000), [self.rng.choice([1, 1, 2, 12]) for _ in range(80)])
        base, steps = self.fns[key]
        forced = self.fns.get(("force", name, p))
        if forced is None:
            pins = sorted((q[2], v) for q, v in self.fns.items() if q[0] == "force" and q[1] == name)
            if pins:          # stay strictly ascending around the pinned labels, when there is room
                lo = [x for x in pins if x[0] < p]
                return lo[-1][1] + (p - lo[-1][0]) if lo else pins[0][1] - (pins[0][0] - p)
        else:
            return forced
        if p >= 0:
            return base + sum(steps[:p])
        return base + p

    def perm(self, name, args):
        fam, size = cx.perms[name]
        m = self.ev(core.zi(size), {}, False)
        if fam not in self.perms:
            q = list(range(m))
            self.rng.shuffle(q)
            self.perms[fam] = q
        q = self.perms[fam]
        if not 0 <= args[0] < m or len(q) != m:
            return self.rng.randint(0, self.n)
        return q[args[0]] if name == fam else q.index(args[0])

    def unique(self, name, args):
        if not name.startswith("uniq!"):
            return None
        for k, q in enumerate(cx.__dict__.get("uniqs", [])):
            if name == "uniq!{}".format(k):
                vals = self.uniq_vals(k, q)
                return vals[args[0]][0] if 0 <= args[0] < len(vals) else Fraction(0)
            for b in range(len(q.src)):
                if name == "uniq!{}src{}".format(k, b):
                    vals = self.uniq_vals(k, q)
                    hit = [t for bb, t in vals[args[0]][1] if bb == b] if 0 <= args[0] < len(vals) else []
                    return hit[0] if hit else -1
                if name == "uniq!{}pos{}".format(k, b):
                    vals = self.uniq_vals(k, q)
                    hit = [p for p, (v, s) in enumerate(vals) if (b, args[0]) in s]
                    return hit[0] if hit else -1
        return None

    def uniq_vals(self, k, q):
        key = ("uniqvals", k)
        if key not in self.fns:
            got = []
            for b, bl in enumerate(q.dom.blocks):
                m = self.ev(core.zi(bl.sizes[0]), {}, False) if bl.k else 1
                for t in range(m):
                    v = core.num(q.f((b, (z3.IntVal(t),) if bl.k else ())))
                    got.append((self.ev(v.v, {}, False), b, t))
            vals = []
            for v, b, t in sorted(got, key=lambda x: float(x[0])):
                if vals and close(vals[-1][0], v):
                    vals[-1][1].append((b, t))
                else:
                    vals.append((v, [(b, t)]))
            self.fns[key] = vals
        return self.fns[key]

    def rec(self, r, name, args):
        key = self.fn_key(name, args)
        if key in self.fns:
            v = self.fns[key]
            if v is Skip:
                raise Skip("recursion")
            return v
        zs = [z3.IntVal(int(a)) for a in args]
        if not all(self.ev(core.zb(c), {}, False) for c in r.ranges(*zs)):
            raise Skip("outside the range of a recursive function")
        self.fns[key] = Skip
        _, _, body = r.unfold(zs)
        self.keep.append(body)
        if name.endswith("!nan"):
            v = body.nan if isinstance(body.nan, bool) else self.ev(body.nan, {}, False)
        else:
            v = Fraction(0) if body.v is None else self.ev(body.v, {}, False)
        self.fns[key] = v
        return v

    # ---------------------------------------------------------------- aggregates
    def agg(self, a, env, memo):
        d = a.depth
        env = {k: v for k, v in env.items() if k != d}
        key = ("agg", a.const.get_id(), tuple(sorted(env.items())))
        if memo and key in self.memo:
            return self.memo[key]
        p, v = a.bexpr
        got = []
        lo, hi = self.bounds(p, d, env, memo)
        if hi - lo > 3000:
            raise Skip("range")
        for w in range(lo, hi):
            env2 = dict(env)
            env2[d] = w
            if self.ev(p, env2, memo):
                got.append(self.ev(v, env2, memo))
        r = self.combine(a, got)
        if memo:
            self.memo[key] = r
        return r

    def bounds(self, p, d, env, memo):
        """Range of the bound variable from the linear conjuncts of the body's condition."""
        b = core.BV[d]
        lo, hi = -2, self.span()
        for c in (p.children() if z3.is_and(p) else [p]):
            neg = z3.is_not(c)
            q = c.arg(0) if neg else c
            k = q.decl().kind()
            if k not in (z3.Z3_OP_LE, z3.Z3_OP_GE) or not z3.is_int(q.arg(0)):
                continue
            x, y = q.arg(0), q.arg(1)
            if k == z3.Z3_OP_GE:
                x, y = y, x
            if any(z.get_id() in cx.aggs or z.num_args() and b.get_id() in core.consts_of(z) for t in (x, y)
                   for z in core.consts_of(t).values()):
                continue          # not linear in the bound variable, perhaps
            try:                  # x <= y, or (negated) x >= y + 1
                d0 = self.ev(x, env | {d: 0}, memo) - self.ev(y, env | {d: 0}, memo)
                d1 = self.ev(x, env | {d: 1}, memo) - self.ev(y, env | {d: 1}, memo)
                d2 = self.ev(x, env | {d: 2}, memo) - self.ev(y, env | {d: 2}, memo)
            except Skip:
                continue
            a = d1 - d0
            if abs(a) != 1 or d2 - d1 != a:
                continue
            if not neg:           # a*w + d0 <= 0
                if a == 1:
                    hi = min(hi, -d0 + 1)
                else:
                    lo = max(lo, d0)
            else:                 # a*w + d0 >= 1
                if a == 1:
                    lo = max(lo, 1 - d0)
                else:
                    hi = min(hi, d0)
        return lo, hi

    def combine(self, a, got):
        k = a.kind
        if k in ("count", "any"):
            return Fraction(len(got))
        if k == "sum":
            return sum(got, Fraction(0))
        if k == "prod":
            r = Fraction(1)
            for x in got:
                r = r * x
            return r
        if k in ("min", "max"):
            return (min if k == "min" else max)(got) if got else Fraction(0)
        if k == "median":
            s = sorted(got)
            m = len(s)
            return Fraction(0) if not m else s[m // 2] if m % 2 else (s[m // 2 - 1] + s[m // 2]) / 2
        if k.startswith("undefined:"):
            return Fraction(0 if got else 1)
        if k in ("gmean", "average:geometric"):
            if any(x <= 0 for x in got) or not got:
                raise Skip("geometric mean")
            return math.exp(sum(math.log(x) for x in got) / len(got))
        if k == "average:simple" and got:
            return sum(got, Fraction(0)) / len(got)
        if k == "average:medial" and got:
            if len(got) < 3 or all(close(x, got[0]) for x in got):
                return sum(got, Fraction(0)) / len(got)
            mid = [x for x in got if not close(x, min(got)) and not close(x, max(got))]
            if not mid:
                raise Skip("medial average of two values")
            return sum(mid, Fraction(0)) / len(mid)
        if k != "values" and not k.startswith("average:"):
            raise Skip("aggregate {}".format(k))
        txt = (k, tuple(repr(x) for x in a.extra), tuple(sorted(quantile_text(x) for x in got)))
        r = random.Random(repr(txt))
        v = Fraction(r.randint(1, 4000), 64)
        if k == "values":
            v = Fraction(r.randint(1, 10 ** 9), 1)
            self.multisets[quantile_text(v)] = got
        return v

    # ---------------------------------------------------------------- terms
    def ev(self, e, env, memo=True):
        if isinstance(e, (bool, int, Fraction)):
            return e
        self.steps += 1
        if self.steps % 512 == 0 and self.deadline and time.time() > self.deadline:
            raise Skip("time")
        k = e.decl().kind() if z3.is_app(e) else None
        if z3.is_quantifier(e):
            raise Skip("quantifier")
        if z3.is_int_value(e):
            return e.as_long()
        if z3.is_rational_value(e):
            return Fraction(e.numerator_as_long(), e.denominator_as_long())
        if z3.is_true(e):
            return True
        if z3.is_false(e):
            return False
        ek = None
        if memo and e.num_args():
            ek = (e.get_id(), tuple(sorted(env.items())))
            if ek in self.memo:
                return self.memo[ek]
        r = self.ev1(e, k, env, memo)
        if ek is not None:
            self.memo[ek] = r
        return r

    def ev1(self, e, k, env, memo):
        ch = e.children()
        if not ch:
            if e.get_id() in cx.aggs:
                return self.agg(cx.aggs[e.get_id()], env, memo)
            nm = e.decl().name()
            if z3.is_int(e):
                if nm.startswith("bv!"):
                    d = int(nm[3:])
                    if d not in env:
                        raise Skip("free bound variable")
                    return env[d]
                if nm.startswith("uniq!size"):
                    i = int(nm[9:])
                    return len(self.uniq_vals(i, cx.uniqs[i]))
                return self.int_const(nm)
            if z3.is_bool(e):
                if nm not in self.bools:
                    self.bools[nm] = self.rng.random() < .5
                return self.bools[nm]
            return self.real_const(nm)
        if k == z3.Z3_OP_AND:
            return all(self.ev(c, env, memo) for c in ch)
        if k == z3.Z3_OP_OR:
            return any(self.ev(c, env, memo) for c in ch)
        if k == z3.Z3_OP_IMPLIES:
            return (not self.ev(ch[0], env, memo)) or self.ev(ch[1], env, memo)
        if k == z3.Z3_OP_ITE:
            return self.ev(ch[1] if self.ev(ch[0], env, memo) else ch[2], env, memo)
        a = [self.ev(c, env, memo) for c in ch]
        if k == z3.Z3_OP_NOT:
            return not a[0]
        if k in (z3.Z3_OP_EQ, z3.Z3_OP_IFF):
            return close(a[0], a[1])
        if k == z3.Z3_OP_DISTINCT:
            return all(not close(a[x], a[y]) for x in range(len(a)) for y in range(x))
        if k in (z3.Z3_OP_LE, z3.Z3_OP_LT, z3.Z3_OP_GE, z3.Z3_OP_GT):
            if (isinstance(a[0], float) or isinstance(a[1], float)) and close(a[0], a[1]):
                raise Skip("comparison of nearly equal numbers")
            return {z3.Z3_OP_LE: a[0] <= a[1], z3.Z3_OP_LT: a[0] < a[1], z3.Z3_OP_GE: a[0] >= a[1], z3.Z3_OP_GT: a[0] > a[1]}[k]
        if k == z3.Z3_OP_ADD:
            return sum(a[1:], a[0])
        if k == z3.Z3_OP_SUB:
            r = a[0]
            for x in a[1:]:
                r = r - x
            return r
        if k == z3.Z3_OP_UMINUS:
            return -a[0]
        if k == z3.Z3_OP_MUL:
            r = a[0]
            for x in a[1:]:
                r = r * x
            return r
        if k == z3.Z3_OP_DIV:
            if a[1] == 0 or (isinstance(a[1], float) and abs(a[1]) < 1e-12):
                raise Skip("division by zero")
            if isinstance(a[0], float) or isinstance(a[1], float):
                return float(a[0]) / float(a[1])
            return Fraction(a[0]) / Fraction(a[1])
        if k in (z3.Z3_OP_IDIV, z3.Z3_OP_MOD):
            if a[1] == 0:
                raise Skip("division by zero")
            q = a[0] // a[1] if a[1] > 0 else -(a[0] // -a[1])
            return q if k == z3.Z3_OP_IDIV else a[0] - a[1] * q
        if k == z3.Z3_OP_POWER:
            if isinstance(a[1], (int, Fraction)) and a[1] == int(a[1]) and 0 <= a[1] < 20:
                return a[0] ** int(a[1])
            raise Skip("power")
        if k == z3.Z3_OP_TO_REAL:
            return Fraction(a[0])
        if k == z3.Z3_OP_TO_INT:
            return math.floor(a[0])
        if k == z3.Z3_OP_IS_INT:
            return a[0] == math.floor(a[0])
        if k == z3.Z3_OP_UNINTERPRETED:
            return self.apply(e, e.decl().name(), a)
        raise Skip("operator {}".format(e.decl()))

    # ---------------------------------------------------------------- hypotheses
    def settle(self, h, tries=40):
        """Choose the integers first mentioned in h so that h holds."""
        new = [x for x in int_names(h) if x not in self.ints]
        for _ in range(tries if new else 1):
            for x in new:
                self.ints.pop(x, None)
            try:
                if self.ev(h, {}, False):
                    return
            except OverflowError:
                raise Skip("overflow")
        raise Off("hypothesis")

    def describe(self):
        out = {"n": self.n, "integers": {k: v for k, v in sorted(self.ints.items())},
               "numbers": {k: str(v) for k, v in sorted(self.reals.items())}}
        tabs = {}
        for k, v in self.fns.items():
            if isinstance(v, (int, Fraction, float, bool)) and len(tabs) < 400:
                tabs.setdefault(k[0], {})[",".join(str(x) for x in k[1:])] = str(v)
        out["tables"] = {k: v for k, v in tabs.items() if not k.endswith(("!v", "!nan"))}
        return out


def int_names(e):
    """Names of the free integer constants of e, followed into aggregate bodies."""
    out, seen, todo = [], set(), [e]
    while todo:
        for x in core.consts_of(todo.pop()).values():
            if x.get_id() in seen:
                continue
            seen.add(x.get_id())
            if x.get_id() in cx.aggs:
                todo += list(cx.aggs[x.get_id()].bexpr)
            elif z3.is_int(x) and x.num_args() == 0 and not x.decl().name().startswith(("bv!", "uniq!")):
                out.append(x.decl().name())
    return out


INTERP = {"sqrt", "exp", "log", "floor", "pow"}


def plain_fact(h):
    """No aggregate, recursive function, interpreted function or quantifier."""
    if z3.is_quantifier(h):
        return False
    for x in core.consts_of(h).values():
        nm = x.decl().name()
        if x.get_id() in cx.aggs or nm in cx.recs or nm in INTERP or nm.startswith("uniq!"):
            return False
    return True


def models(hs, goal, count=5):
    """Solutions of the plain hypotheses (and of the negated goal, when it is plain): starting points for samples."""
    hs = [h for h in hs if plain_fact(h)]
    s = z3.Solver()
    s.set("timeout", 400)
    s.add(*hs)
    if not isinstance(goal, bool) and plain_fact(goal):
        s.push()
        s.add(z3.Not(goal))
        if s.check() != z3.sat:
            s.pop()
    apps = []
    for h in hs:
        apps += [x for x in core.consts_of(h).values() if x.num_args() and x.decl().kind() == z3.Z3_OP_UNINTERPRETED]
    out, n = [], z3.Int("n")
    for lim in (6, 12, 40):
        s.push()
        big = False
        s.add(n <= lim)
        while len(out) < count and s.check() == z3.sat:
            m = s.model()
            ints, reals, fns = {}, {}, {}
            for d in m.decls():
                if d.arity() == 0:
                    v = value(m[d])
                    if v is not None and not d.name().startswith(("bv!", "agg!")):
                        (ints if d.range() == z3.IntSort() else reals)[d.name()] = v
            for x in apps:
                a = [value(m.eval(c, True)) for c in x.children()]
                v = value(m.eval(x, True))
                if v is not None and None not in a:
                    fns[(x.decl().name(),) + tuple(c if isinstance(c, (bool, int)) else quantile_text(c) for c in a)] = v
            if any(abs(v) > 60 for k, v in ints.items() if not isinstance(v, bool)):
                s.add(*[z3.And(z3.Int(k) <= 60, z3.Int(k) >= -60) for k in ints if not k.startswith("uniq!")])
                if big:
                    break
                big = True
                continue
            out.append((ints, {k: v for k, v in reals.items() if not isinstance(v, bool)}, fns))
            s.add(n != ints.get("n", 2))
        s.pop()
    return out


def value(v):
    if z3.is_int_value(v):
        return v.as_long()
    if z3.is_rational_value(v):
        return Fraction(v.numerator_as_long(), v.denominator_as_long())
    if z3.is_true(v) or z3.is_false(v):
        return z3.is_true(v)
    return None


def refute(goal, hyps=(), seconds=4., samples=400, seed=1, want=1):
    """A sample satisfying cx.hyps + hyps + cx.axioms at which goal is false: its description, or None.  Also counts the samples
    at which the goal was evaluated (refute.count)."""
    g = core.zb(goal) if not isinstance(goal, bool) else goal
    hs = list(cx.hyps) + [core.zb(h) for h in hyps]
    rng = random.Random(seed)
    end = time.time() + seconds
    refute.count = 0
    k = 0
    try:
        starts = models(hs, g)
    except z3.Z3Exception:
        starts = []
    while time.time() < end and k < 40 * samples and refute.count < samples:
        k += 1
        st = rng.choice(starts) if starts and rng.random() < .6 else None
        s = Sample(rng, st[0].get("n", 3) if st else rng.choice([2, 3, 3, 4, 4, 5]))
        if st and s.n <= 40:
            how = rng.randrange(3)
            if how:
                s.fns.update({q: v for q, v in st[2].items() if not q[0].startswith("lab_")})
                s.reals.update(st[1])
                s.fns.update({("force",) + q: v for q, v in st[2].items() if q[0].startswith("lab_")})
            if how == 2:
                s.ints.update(st[0])
        s.deadline = end
        try:
            for h in hs:
                s.settle(h)
            for a in cx.axioms:
                try:
                    if not s.ev(a, {}):
                        raise Off("axiom")
                except Skip:
                    pass
            refute.count += 1
            if s.ev(g, {}) is False:
                return s.describe()
        except (Off, Skip, core.Unsupported, core.PyRaise, RecursionError, OverflowError):
            continue
    return None


refute.count = 0
