"""Symbolic interpreter of the real source under /repo: parsed from the working tree on every run, nothing copied.

Loops over a symbolic number of iterations are summarised exactly: the body is executed once for an arbitrary iteration k
(on every path), the cells it writes are recorded with the condition under which iteration k writes them, the iteration
that last writes a cell is solved for, and the cell's final value is the body re-executed at that iteration, where reads
of cells written by earlier iterations become applications of a recursively defined function."""
import ast
import os
from fractions import Fraction
import z3
import core
import model
import pdops as P
from core import (V, NAN, Lab, SStr, Opaque, Unsupported, PyRaise, cx, simp, b_and, b_or, b_not, zi, zb, num, s_bin,
                  s_eq, s_cmp, s_un, is_int, is_num, is_boolish, isz, ite, hyp, decide, entails, aggregate, branch, toint,
                  ite_val)
from model import Series, DF, Index, Arr, Seq, SList, Mut, Dom, Block, sz, interval, freshint, contains
from pdops import PyDict, SObj, SymRange, PySet, as_list, domfn


class PyFunc:
    def __init__(self, node, env, mod, name, cls=None):
        self.node, self.env, self.mod, self.name, self.cls = node, env, mod, name, cls
        self.defaults = None


class PyClass:
    def __init__(self, name, bases, mod):
        self.name, self.bases, self.mod = name, bases, mod
        self.members = {}

    def mro(self):
        out = [self]
        for b in self.bases:
            if isinstance(b, PyClass):
                for c in b.mro():
                    if c not in out:
                        out.append(c)
        return out

    def lookup(self, name):
        for c in self.mro():
            if name in c.members:
                return c.members[name]
        return None

    def isdf(self):
        return any(b is DF_CLASS for c in self.mro() for b in c.bases)


DF_CLASS = "pandas.DataFrame"


class Inst(Mut):
    """Instance of a class of the code under verification."""
    def __init__(self, cls):
        self.cls, self.attrs = cls, {}
        self.init_mut()

    def state(self):
        return dict(self.attrs)

    def setstate(self, s):
        self.attrs = dict(s)


class Prop:
    def __init__(self, fget, fset=None):
        self.fget, self.fset = fget, fset


class Static:
    def __init__(self, f):
        self.f = f


class Bound:
    def __init__(self, f, self_):
        self.f, self.self_ = f, self_


class Builtin:
    def __init__(self, f, name=""):
        self.f, self.pyname = f, name


class Mod:
    def __init__(self, name):
        self.name = name


class Super:
    def __init__(self, cls, obj):
        self.cls, self.obj = cls, obj


class Loc:
    def __init__(self, obj, kind):
        self.obj, self.kind = obj, kind


class Partial:
    def __init__(self, f, args, kw):
        self.f, self.args, self.kw = f, args, kw


class Env:
    __slots__ = ("vars", "parent", "mod")

    def __init__(self, parent, mod, vars=None):
        self.parent, self.mod, self.vars = parent, mod, vars if vars is not None else {}

    def snapshot(self):
        return Env(self.parent.snapshot() if self.parent is not None else None, self.mod, dict(self.vars))

    def get(self, name):
        e = self
        while e is not None:
            if name in e.vars:
                return e.vars[name]
            e = e.parent
        raise KeyError(name)


class Poison:
    """Value of a variable after a summarised loop that the summary does not define."""


POISON = Poison()


class ReturnEx(Exception):
    def __init__(self, v):
        self.v = v


class BreakEx(Exception):
    pass


class ContinueEx(Exception):
    pass


BINOPS = {ast.Add: "+", ast.Sub: "-", ast.Mult: "*", ast.Div: "/", ast.Pow: "**", ast.FloorDiv: "//", ast.Mod: "%"}
CMPS = {ast.Eq: "==", ast.NotEq: "!=", ast.Lt: "<", ast.LtE: "<=", ast.Gt: ">", ast.GtE: ">="}


class Interp:
    def __init__(self, repo):
        self.repo = repo
        self.modules = {}
        self.contracts = {}          # qualified name -> Contract with .apply(interp, args, kw)
        self.active = None           # qualified name under verification (not replaced by its contract at depth 0)
        self.used = set()            # contracts used
        self.depth = 0
        self.classes = {}
        self.inlined = set()
        cx.interp = self

    # ---------------------------------------------------------------- loading
    def load(self, rel):
        """rel like 'trikit/triangle.py'."""
        if rel in self.modules:
            return self.modules[rel]
        src = open(os.path.join(self.repo, rel)).read()
        tree = ast.parse(src)
        env = Env(None, rel)
        self.modules[rel] = env
        for st in tree.body:
            try:
                self.exec_top(st, env, rel)
            except Unsupported:
                pass
        return env

    def exec_top(self, st, env, rel):
        if isinstance(st, ast.Import):
            for a in st.names:
                nm = a.asname or a.name.split(".")[0]
                env.vars[nm] = Mod(a.name if a.asname else a.name.split(".")[0])
        elif isinstance(st, ast.ImportFrom):
            for a in st.names:
                nm = a.asname or a.name
                if st.level:
                    base = os.path.dirname(rel)
                    for _ in range(st.level - 1):
                        base = os.path.dirname(base)
                    modpath = (st.module or "").replace(".", "/")
                    p = os.path.join(base, modpath) if modpath else base
                    cand = p + ".py"
                    if st.module and os.path.exists(os.path.join(self.repo, cand)):
                        env.vars[nm] = ("lazy", cand, a.name)
                    elif not st.module and os.path.exists(os.path.join(self.repo, p, a.name + ".py")):
                        env.vars[nm] = ("lazymod", os.path.join(p, a.name + ".py"))
                    else:
                        env.vars[nm] = Opaque("import " + a.name)
                else:
                    env.vars[nm] = self.libattr(st.module, a.name)
        elif isinstance(st, ast.ClassDef):
            bases = []
            for b in st.bases:
                try:
                    bases.append(self.eval(b, env))
                except Unsupported:
                    bases.append(Opaque("base"))
            bases = [DF_CLASS if isinstance(b, Builtin) and b.pyname == "DataFrame" else b for b in bases]
            c = PyClass(st.name, bases, rel)
            for s in st.body:
                if isinstance(s, ast.FunctionDef):
                    f = PyFunc(s, env, rel, st.name + "." + s.name, c)
                    kind = None
                    for d in s.decorator_list:
                        if isinstance(d, ast.Name) and d.id == "property":
                            kind = Prop(f)
                        elif isinstance(d, ast.Name) and d.id == "staticmethod":
                            kind = Static(f)
                        elif isinstance(d, ast.Attribute) and d.attr == "setter":
                            old = c.members.get(s.name)
                            f.name = st.name + "." + s.name + ".setter"
                            kind = Prop(old.fget if isinstance(old, Prop) else None, f)
                        else:
                            kind = Opaque("decorated function")
                    c.members[s.name] = kind if kind is not None else f
                elif isinstance(s, ast.Assign) and len(s.targets) == 1 and isinstance(s.targets[0], ast.Name):
                    try:
                        c.members[s.targets[0].id] = self.eval(s.value, env)
                    except (Unsupported, PyRaise):
                        c.members[s.targets[0].id] = Opaque("class attribute")
            env.vars[st.name] = c
            self.classes[st.name] = c
        elif isinstance(st, ast.FunctionDef):
            env.vars[st.name] = PyFunc(st, env, rel, st.name)
        elif isinstance(st, ast.Assign) and len(st.targets) == 1 and isinstance(st.targets[0], ast.Name):
            try:
                env.vars[st.targets[0].id] = self.eval(st.value, env)
            except (Unsupported, PyRaise):
                env.vars[st.targets[0].id] = Opaque("module constant")

    # ---------------------------------------------------------------- libraries
    def libattr(self, mod, name):
        full = "{}.{}".format(mod, name)
        if full in LIB:
            return Builtin(LIB[full], name) if callable(LIB[full]) else LIB[full]
        if full in ("numpy.random", "scipy.stats", "scipy.special", "scipy.optimize"):
            return Mod(full)
        if full in ("pandas.DataFrame", "pandas.Series", "pandas.Index"):
            return Builtin(LIB.get(full), name)
        return LibOpaque(full)

    def find(self, qual):
        """Function object of a qualified name ("Class.method", "Class.prop.setter" or "function")."""
        parts = qual.split(".")
        if len(parts) == 1:
            for env in list(self.modules.values()):
                v = env.vars.get(qual)
                if isinstance(v, PyFunc):
                    return v
            return None
        c = self.classes.get(parts[0])
        m = c.members.get(parts[1]) if c is not None else None
        if isinstance(m, Prop):
            return m.fset if parts[-1] == "setter" else m.fget
        if isinstance(m, Static):
            return m.f
        return m

    # ---------------------------------------------------------------- calls
    def callable(self, f):
        return isinstance(f, (PyFunc, Bound, Builtin, PyClass, Partial, Static))

    def call(self, f, args, kw):
        core.tick()
        if isinstance(f, Builtin):
            return f.f(*args, **kw)
        if isinstance(f, Partial):
            k2 = dict(f.kw)
            k2.update(kw)
            return self.call(f.f, list(f.args) + list(args), k2)
        if isinstance(f, Bound):
            if isinstance(f.f, PyFunc):
                return self.call_func(f.f, [f.self_] + list(args), kw)
            return f.f(f.self_, *args, **kw)
        if isinstance(f, Static):
            return self.call_func(f.f, args, kw)
        if isinstance(f, PyFunc):
            return self.call_func(f, args, kw)
        if isinstance(f, PyClass):
            return self.instantiate(f, args, kw)
        if isinstance(f, FormatMethod):
            return P_format(f.s, args)
        if isinstance(f, Inst):
            m = f.cls.lookup("__call__")
            if m is not None:
                return self.call_func(m, [f] + list(args), kw)
        raise Unsupported("call of {!r}".format(f))

    def instantiate(self, cls, args, kw):
        q = cls.name
        if q in self.contracts and self.active != q + ".__init__":
            return self.use_contract(q, args, kw)
        if cls.isdf():
            o = DF(Dom([]), Dom([]), lambda r, c: NAN)
            o.cls = cls
        else:
            o = Inst(cls)
        init = cls.lookup("__init__")
        if init is not None:
            self.call_func(init, [o] + list(args), kw)
        return o

    def use_contract(self, q, args, kw):
        self.used.add(q)
        return self.contracts[q].apply(self, args, kw)

    def call_func(self, f, args, kw):
        q = f.name
        if q in self.contracts and not (self.active == q and self.depth == 0):
            return self.use_contract(q, args, kw)
        self.inlined.add(q)
        if self.depth > 40:
            raise Unsupported("call depth")
        a = f.node.args
        if a.posonlyargs:
            raise Unsupported("positional-only arguments")
        env = Env(f.env, f.mod)
        env.vars["__class__"] = f.cls
        names = [x.arg for x in a.args]
        defaults = [self.eval(d, f.env) for d in a.defaults]
        vals = {}
        for n, d in zip(names[len(names) - len(defaults):], defaults):
            vals[n] = d
        if len(args) > len(names):
            if not a.vararg:
                raise PyRaise("TypeError", "too many arguments")
            vals[a.vararg.arg] = tuple(args[len(names):])
            args = args[:len(names)]
        elif a.vararg:
            vals[a.vararg.arg] = ()
        given = set()
        for n, v in zip(names, args):
            vals[n] = v
            given.add(n)
        extra = {}
        kwonly = {x.arg: d for x, d in zip(a.kwonlyargs, a.kw_defaults)}
        for k, v in kw.items():
            if k in names or k in kwonly:
                if k in given:
                    raise PyRaise("TypeError", "multiple values for " + k)
                vals[k] = v
            else:
                extra[k] = v
        for k, d in kwonly.items():
            if k not in vals:
                if d is None:
                    raise PyRaise("TypeError", "missing argument " + k)
                vals[k] = self.eval(d, f.env)
        if a.kwarg:
            vals[a.kwarg.arg] = PyDict(extra)
        elif extra:
            raise PyRaise("TypeError", "unexpected argument " + list(extra)[0])
        for n in names:
            if n not in vals:
                raise PyRaise("TypeError", "missing argument " + n)
        env.vars.update(vals)
        self.depth += 1
        try:
            if isinstance(f.node, ast.Lambda):
                return self.eval(f.node.body, env)
            try:
                self.block(f.node.body, env)
            except ReturnEx as r:
                return r.v
            return None
        finally:
            self.depth -= 1

    # ---------------------------------------------------------------- statements
    def block(self, body, env):
        for s in body:
            self.stmt(s, env)

    def stmt(self, s, env):
        core.tick()
        m = getattr(self, "st_" + type(s).__name__, None)
        if m is None:
            raise Unsupported("statement {}".format(type(s).__name__))
        m(s, env)

    def st_Pass(self, s, env):
        pass

    def st_Expr(self, s, env):
        if isinstance(s.value, ast.Constant):
            return
        self.eval(s.value, env)

    def st_Import(self, s, env):
        for a in s.names:
            nm = a.asname or a.name.split(".")[0]
            env.vars[nm] = Mod(a.name if a.asname else a.name.split(".")[0])

    def st_ImportFrom(self, s, env):
        self.exec_top(s, env, env.mod)

    def st_Return(self, s, env):
        raise ReturnEx(self.eval(s.value, env) if s.value is not None else None)

    def st_Assign(self, s, env):
        v = self.eval(s.value, env)
        for t in s.targets:
            self.assign(t, v, env)

    def st_AnnAssign(self, s, env):
        if s.value is not None:
            self.assign(s.target, self.eval(s.value, env), env)

    def st_AugAssign(self, s, env):
        op = BINOPS.get(type(s.op))
        load = ast.copy_location(_as_load(s.target), s.target)
        cur = self.eval(load, env)
        v = self.eval(s.value, env)
        if op is None:
            o = {ast.BitAnd: "and", ast.BitOr: "or"}.get(type(s.op))
            if o is None:
                raise Unsupported("augmented operator")
            self.assign(s.target, P.logic(o, cur, v), env)
            return
        if isinstance(cur, SList) and op == "+":
            self.list_extend(cur, v)
            return
        if isinstance(cur, (Series, DF)):
            raise Unsupported("in-place arithmetic on a pandas object")
        self.assign(s.target, P.binop(op, cur, v), env)

    def st_If(self, s, env):
        if self.truth(self.eval(s.test, env)):
            self.block(s.body, env)
        else:
            self.block(s.orelse, env)

    def st_Raise(self, s, env):
        e = s.exc
        name = "Exception"
        if isinstance(e, ast.Call):
            e = e.func
        if isinstance(e, ast.Name):
            name = e.id
        raise PyRaise(name)

    def st_Assert(self, s, env):
        if not self.truth(self.eval(s.test, env)):
            raise PyRaise("AssertionError")

    def st_With(self, s, env):
        for i in s.items:
            v = self.eval(i.context_expr, env)
            if not isinstance(v, SObj) or v.kind != "errstate":
                raise Unsupported("with statement")
        self.block(s.body, env)

    def st_Try(self, s, env):
        if s.finalbody:
            raise Unsupported("finally")
        try:
            self.block(s.body, env)
        except PyRaise as e:
            for h in s.handlers:
                names = []
                if h.type is None:
                    names = None
                elif isinstance(h.type, ast.Name):
                    names = [h.type.id]
                elif isinstance(h.type, ast.Tuple):
                    names = [x.id for x in h.type.elts if isinstance(x, ast.Name)]
                if names is None or e.etype in names or "Exception" in names:
                    self.block(h.body, env)
                    return
            raise
        self.block(s.orelse, env)

    def st_FunctionDef(self, s, env):
        env.vars[s.name] = PyFunc(s, env, env.mod, "<local>." + s.name)

    def st_Break(self, s, env):
        raise BreakEx()

    def st_Continue(self, s, env):
        raise ContinueEx()

    def st_Delete(self, s, env):
        for t in s.targets:
            if isinstance(t, ast.Name):
                env.vars.pop(t.id, None)
            else:
                raise Unsupported("del")

    def st_While(self, s, env):
        n = 0
        while True:
            if cx.__dict__.get("wlog") is None:
                pass
            c = self.eval(s.test, env)
            t = self.tv(c)
            d = t if isinstance(t, bool) else decide(t)
            if d is None:
                raise Unsupported("while loop with a symbolic condition")
            if not d:
                self.block(s.orelse, env)
                return
            n += 1
            if n > 64:
                raise Unsupported("while loop")
            try:
                self.block(s.body, env)
            except BreakEx:
                return
            except ContinueEx:
                pass

    def tv(self, x):
        if x is None:
            return False
        if isinstance(x, bool):
            return x
        if isinstance(x, (int, float)):
            return bool(x)
        if isinstance(x, str):
            return len(x) > 0
        if isinstance(x, PyDict):
            return len(x.d) > 0
        if isinstance(x, (list, tuple)):
            return len(x) > 0
        if isinstance(x, SList):
            n = self.length(x)
            return n > 0 if isinstance(n, int) else simp(zi(n) > 0)
        if isinstance(x, V):
            if x.v is None:
                return True
            return b_or(x.nan, simp(x.v != 0))
        if isz(x):
            return x if z3.is_bool(x) else simp(x != 0)
        if isinstance(x, (Series, DF, Arr, Index)):
            if isinstance(x, Series) or isinstance(x, Arr):
                n = x.dom.size() if not (isinstance(x, Arr) and len(x.doms) > 1) else None
                if n is not None and isinstance(n, int) and n == 1:
                    return P.boolv(P.series_item(Series(x.dom, x.fn)))
            raise PyRaise("ValueError", "truth value of an array")
        if isinstance(x, (PyFunc, PyClass, Inst, Builtin, Bound)):
            return True
        raise Unsupported("truth value of {!r}".format(x))

    def truth(self, x):
        t = self.tv(x)
        return t if isinstance(t, bool) else branch(t)

    # ---------------------------------------------------------------- assignment
    def assign(self, t, v, env):
        if isinstance(t, ast.Name):
            env.vars[t.id] = v
        elif isinstance(t, (ast.Tuple, ast.List)):
            vs = self.unpack(v, len(t.elts))
            for x, y in zip(t.elts, vs):
                self.assign(x, y, env)
        elif isinstance(t, ast.Attribute):
            self.setattr(self.eval(t.value, env), t.attr, v)
        elif isinstance(t, ast.Subscript):
            self.setitem(self.eval(t.value, env), self.eval_index(t.slice, env), v)
        else:
            raise Unsupported("assignment target")

    def unpack(self, v, n):
        if isinstance(v, tuple):
            xs = list(v)
        else:
            xs = as_list(v)
        if xs is None:
            raise Unsupported("unpacking of a symbolic sequence")
        if len(xs) != n:
            raise PyRaise("ValueError", "unpack")
        return xs

    def setattr(self, o, name, v):
        if isinstance(o, Inst):
            m = o.cls.lookup(name)
            if isinstance(m, Prop):
                if m.fset is None:
                    raise PyRaise("AttributeError")
                self.call_func(m.fset, [o, v], {})
                return
            model.note_write(o, "attribute " + name)
            self.attr_guard(o)
            o.attrs[name] = v
            return
        if isinstance(o, DF):
            if o.cls is not None:
                m = o.cls.lookup(name)
                if isinstance(m, Prop):
                    if m.fset is None:
                        raise PyRaise("AttributeError")
                    self.call_func(m.fset, [o, v], {})
                    return
            if name in ("index", "columns"):
                model.structural(o, "relabelling")
                old = o.rows if name == "index" else o.cols
                d, f = (v.dom(), None) if isinstance(v, SymRange) else (P.to_dom(v), None)
                if model.same_shape(d, old):
                    new = Dom([ob.with_(lab=nb.lab) for ob, nb in zip(old.blocks, d.blocks)], d.name)
                    if any(b.lab is None and b.k for b in new.blocks) and len(new.blocks) > 1:
                        raise Unsupported("relabelling")
                else:
                    t = P.transfer(d, d.lab, old)
                    new = Dom([b.with_(lab=(lambda *ps, k=k: t((k, tuple(ps))))) for k, b in enumerate(old.blocks)], d.name)
                if name == "index":
                    o.rows = new
                else:
                    o.cols = new
                return
            # an existing column?
            if any(b.k == 0 and b.lab() == name for b in o.cols.blocks if b.k == 0 and isinstance(b.lab(), str)):
                P.df_setcol(o, name, v)
                return
            model.note_write(o, "attribute " + name)
            self.attr_guard(o)
            o.attrs[name] = v
            return
        if isinstance(o, Series):
            if name == "name":
                o.name = v
                return
            if name == "index":
                model.structural(o, "relabelling")
                d = P.to_dom(v)
                if model.same_shape(d, o.dom):
                    o.dom = Dom([ob.with_(lab=nb.lab) for ob, nb in zip(o.dom.blocks, d.blocks)], d.name)
                else:
                    t = P.transfer(d, d.lab, o.dom)
                    o.dom = Dom([b.with_(lab=(lambda *ps, k=k: t((k, tuple(ps))))) for k, b in enumerate(o.dom.blocks)], d.name)
                return
        if isinstance(o, Index) and name == "name":
            own = getattr(o, "owner", None)
            if own is None or not (v is None or isinstance(v, str)) or getattr(own[0], own[1]) is not o.dom:
                raise Unsupported("index name")
            # other objects that share this index would be renamed too: only names matter there, and only to reset_index
            model.structural(own[0], "index name")
            setattr(own[0], own[1], Dom(o.dom.blocks, v))
            return
        raise Unsupported("attribute assignment on {!r}".format(o))

    def attr_guard(self, o):
        log = cx.__dict__.get("wlog")
        if log is not None and o.stamp <= cx.wlog_stamp:
            raise NeedPeel("attribute assignment inside a summarised loop")

    def setitem(self, o, key, v):
        if isinstance(o, PyDict):
            self.dict_guard(o)
            if not isinstance(key, (str, int, tuple)):
                raise Unsupported("dict key")
            o.d[key] = v
            return
        if isinstance(o, Loc):
            if isinstance(o.obj, DF):
                if o.kind == "at":
                    if not isinstance(key, tuple):
                        raise PyRaise("KeyError")
                    P.df_set_loc(o.obj, key, v)
                elif o.kind == "loc":
                    P.df_set_loc(o.obj, key, v)
                else:
                    P.df_set_iloc(o.obj, key, v)
            elif isinstance(o.obj, Series):
                if o.kind in ("loc", "at"):
                    P.series_set(o.obj, key, v)
                else:
                    P.series_set_iloc(o.obj, key, v)
            else:
                raise Unsupported("indexer assignment")
            return
        if isinstance(o, Series):
            P.series_set(o, key, v)
            return
        if isinstance(o, DF):
            P.df_setcol(o, key, v)
            return
        if isinstance(o, SList):
            if o.tup:
                raise PyRaise("TypeError")
            i = toint(key)
            if not isinstance(i, int) or as_list(o) is None:
                raise Unsupported("list assignment")
            model.structural(o, "list assignment")
            o.parts[i] = ("i", v)
            return
        raise Unsupported("item assignment on {!r}".format(o))

    def dict_guard(self, o):
        if cx.__dict__.get("wlog") is not None:
            if getattr(o, "stamp", 0) <= cx.wlog_stamp and not getattr(o, "inloop", False):
                raise Unsupported("dict mutation inside a summarised loop")

    # ---------------------------------------------------------------- loops
    def st_For(self, s, env):
        it = self.eval(s.iter, env)
        xs = self.iterate(it)
        if isinstance(xs, list):
            broke = False
            for x in xs:
                self.assign(s.target, x, env)
                try:
                    self.block(s.body, env)
                except BreakEx:
                    broke = True
                    break
                except ContinueEx:
                    continue
            if not broke:
                self.block(s.orelse, env)
            return
        if s.orelse:
            raise Unsupported("for/else over a symbolic sequence")
        for seq in xs.parts if isinstance(xs, Chain) else [xs]:
            if isinstance(seq, tuple):
                self.assign(s.target, seq[1], env)
                try:
                    self.block(s.body, env)
                except ContinueEx:
                    pass
                except BreakEx:
                    raise Unsupported("break in a symbolic loop")
            else:
                self.summarise(s, env, seq)

    def iterate(self, it):
        """list of items, a Seq, or a Chain of stretches."""
        if isinstance(it, Seq):
            return [it.at(k) for k in range(it.size)] if isinstance(it.size, int) and it.size <= 12 else it
        if isinstance(it, DF):
            return self.iterate(Index(it.cols))
        if isinstance(it, str):
            return list(it)
        if isinstance(it, PyDict):
            return list(it.d)
        xs = as_list(it)
        if xs is not None:
            return xs
        if isinstance(it, (Series, Index, Arr, SList)):
            d, f = domfn(it)
            if not d.positional():
                raise Unsupported("iteration over a filtered domain")
            parts = []
            for k, b in enumerate(d.blocks):
                if b.k == 0:
                    parts.append(("i", f((k, ()))))
                else:
                    parts.append(Seq(b.sizes[0], lambda p, k=k: f((k, (p,)))))
            if len(parts) == 1 and isinstance(parts[0], Seq):
                return parts[0]
            return Chain(parts)
        if isinstance(it, Chain):
            return it
        raise Unsupported("iteration over {!r}".format(it))

    def summarise(self, s, env, seq):
        Summary(self, s, env, seq).run()

    # ---------------------------------------------------------------- expressions
    def eval(self, e, env):
        core.tick()
        m = getattr(self, "ex_" + type(e).__name__, None)
        if m is None:
            raise Unsupported("expression {}".format(type(e).__name__))
        return m(e, env)

    def ex_Constant(self, e, env):
        if isinstance(e.value, (int, float, str, bool, type(None))):
            return e.value
        raise Unsupported("constant")

    def ex_Name(self, e, env):
        try:
            v = env.get(e.id)
        except KeyError:
            if e.id in BUILTINS:
                return BUILTINS[e.id]
            raise Unsupported("name {}".format(e.id))
        if isinstance(v, tuple) and len(v) == 3 and isinstance(v[0], str) and v[0] == "lazy":
            m = self.load(v[1])
            v = m.vars.get(v[2])
        elif isinstance(v, tuple) and len(v) == 2 and isinstance(v[0], str) and v[0] == "lazymod":
            v = ModEnv(self.load(v[1]))
        if isinstance(v, Poison):
            raise Unsupported("variable {} after a summarised loop".format(e.id))
        return v

    def ex_Tuple(self, e, env):
        return tuple(self.eval(x, env) for x in e.elts)

    def ex_List(self, e, env):
        return SList([("i", self.eval(x, env)) for x in e.elts])

    def ex_Dict(self, e, env):
        d = PyDict()
        d.stamp = Mut.count[0] + 1
        for k, v in zip(e.keys, e.values):
            if k is None:
                o = self.eval(v, env)
                if not isinstance(o, PyDict):
                    raise Unsupported("dict unpacking")
                d.d.update(o.d)
                continue
            kk = self.eval(k, env)
            d.d[kk if isinstance(kk, (str, int, float, bool, type(None))) else HKey(kk)] = self.eval(v, env)
        if any(isinstance(k, HKey) for k in d.d):
            d.d = {(k.v if isinstance(k, HKey) else k): v for k, v in d.d.items()} if False else d.d
            nd = PyDict()
            nd.stamp = d.stamp
            nd.d = KeyedDict(d.d)
            return nd
        return d

    def ex_Set(self, e, env):
        vs = [self.eval(x, env) for x in e.elts]
        return PySet(Dom([Block(()) for _ in vs]), lambda pt: vs[pt[0]])

    def ex_BinOp(self, e, env):
        a, b = self.eval(e.left, env), self.eval(e.right, env)
        if isinstance(e.op, (ast.BitAnd, ast.BitOr)):
            return P.logic("and" if isinstance(e.op, ast.BitAnd) else "or", a, b)
        op = BINOPS.get(type(e.op))
        if op is None:
            raise Unsupported("operator")
        if isinstance(a, str) and op == "%":
            return SStr("fmt", (a, b))
        return P.binop(op, a, b)

    def ex_UnaryOp(self, e, env):
        v = self.eval(e.operand, env)
        if isinstance(e.op, ast.Not):
            t = self.tv(v)
            return (not t) if isinstance(t, bool) else simp(z3.Not(t))
        if isinstance(e.op, ast.USub):
            if P.is_container(v):
                return P.elementwise(core.s_neg, v)
            return core.s_neg(v)
        if isinstance(e.op, ast.UAdd):
            return v
        if isinstance(e.op, ast.Invert):
            return P.lnot(v)
        raise Unsupported("unary operator")

    def ex_BoolOp(self, e, env):
        isand = isinstance(e.op, ast.And)
        v = None
        for i, x in enumerate(e.values):
            v = self.eval(x, env)
            if i == len(e.values) - 1:
                return v
            if self.truth(v) != isand:
                return v
        return v

    def ex_Compare(self, e, env):
        left = self.eval(e.left, env)
        res = None
        for op, r in zip(e.ops, e.comparators):
            right = self.eval(r, env)
            c = self.compare(op, left, right)
            if res is None:
                res = c
            else:
                res = b_and(self.tv(res), self.tv(c))
            left = right
        return res

    def compare(self, op, a, b):
        if isinstance(op, (ast.Is, ast.IsNot)):
            r = (a is b) or (a is None and b is None)
            if isinstance(a, (bool, str)) and isinstance(b, (bool, str)):
                r = a == b
            if (a is None) != (b is None):
                r = False
            elif not (a is None or b is None) and not isinstance(a, (bool, DF, Series, Inst)):
                if is_num(a) and is_num(b):
                    raise Unsupported("identity of numbers")
            return r if isinstance(op, ast.Is) else not r
        if isinstance(op, (ast.In, ast.NotIn)):
            r = self.member(a, b)
            return r if isinstance(op, ast.In) else b_not(r)
        o = CMPS[type(op)]
        if isinstance(a, tuple) and isinstance(b, tuple) and o in ("==", "!="):
            r = len(a) == len(b) and b_and(*[self.tv(P.cmpop("==", x, y)) for x, y in zip(a, b)])
            return r if o == "==" else b_not(r)
        return P.cmpop(o, a, b)

    def member(self, a, b):
        if isinstance(b, str) and isinstance(a, str):
            return a in b
        if isinstance(a, str) and core.is_number_text(b):
            return core.text_test("contains", b, a)
        if isinstance(b, PyDict):
            if isinstance(a, (str, int, float, bool, tuple, type(None))):
                return a in b.d
            return b_or(*[s_eq(a, k) for k in b.d])
        if isinstance(b, (Index,)):
            return P.contains_label(b.dom, a)
        if isinstance(b, Series):
            return P.contains_label(b.dom, a)
        if isinstance(b, DF):
            return P.contains_label(b.cols, a)
        if isinstance(b, PySet):
            d = Dom([Block(q.sizes, (lambda *pp, k=k: b.fn((k, tuple(pp)))), q.guard, q.order) for k, q in enumerate(b.dom.blocks)])
            return P.contains_label(d, a)
        xs = as_list(b)
        if xs is not None:
            return b_or(*[s_eq(a, x) for x in xs])
        if isinstance(b, (P.ValueSet, Arr, SList, Seq)) and len(getattr(b, "doms", (0,))) == 1:
            return P.occurs(b, a)
        raise Unsupported("membership test")

    def ex_IfExp(self, e, env):
        return self.eval(e.body if self.truth(self.eval(e.test, env)) else e.orelse, env)

    def ex_Lambda(self, e, env):
        return PyFunc(e, env, env.mod, "<lambda>")

    def ex_JoinedStr(self, e, env):
        parts = []
        for v in e.values:
            if isinstance(v, ast.Constant):
                parts.append(v.value)
            else:
                x = self.eval(v.value, env)
                if v.format_spec is not None or v.conversion not in (-1, 115):
                    return Opaque("formatted text")
                parts.append(x)
        return fmt_parts(parts)

    def ex_Starred(self, e, env):
        raise Unsupported("starred expression")

    def ex_NamedExpr(self, e, env):
        v = self.eval(e.value, env)
        self.assign(e.target, v, env)
        return v

    def ex_Call(self, e, env):
        if isinstance(e.func, ast.Name) and e.func.id == "super" and not e.args:
            return Super(env.get("__class__"), env.get("self"))
        f = self.eval(e.func, env)
        args = []
        for a in e.args:
            if isinstance(a, ast.Starred):
                v = self.eval(a.value, env)
                xs = list(v) if isinstance(v, tuple) else as_list(v)
                if xs is None:
                    raise Unsupported("argument unpacking")
                args += xs
            elif isinstance(a, ast.GeneratorExp):
                args.append(self.comp(a, env))
            else:
                args.append(self.eval(a, env))
        kw = {}
        for k in e.keywords:
            if k.arg is None:
                v = self.eval(k.value, env)
                if not isinstance(v, PyDict):
                    raise Unsupported("keyword unpacking")
                kw.update(v.d)
            else:
                kw[k.arg] = self.eval(k.value, env)
        return self.call(f, args, kw)

    def ex_ListComp(self, e, env):
        r = self.comp(e, env)
        if isinstance(r, list):
            return SList([("i", x) for x in r])
        if isinstance(r, Chain):
            return SList([("s", p) if isinstance(p, Seq) else p for p in r.parts])
        return SList([("s", r)])

    def ex_GeneratorExp(self, e, env):
        return self.comp(e, env)

    def ex_SetComp(self, e, env):
        r = self.comp(e, env)
        d, f = domfn(SList([("i", x) for x in r]) if isinstance(r, list) else r)
        return PySet(d, f)

    def ex_DictComp(self, e, env):
        if len(e.generators) != 1:
            raise Unsupported("dict comprehension")
        g = e.generators[0]
        src = self.eval(g.iter, env)
        it = self.iterate(src)
        if isinstance(it, list):
            d = PyDict()
            d.stamp = Mut.count[0] + 1
            for x in it:
                en = Env(env, env.mod)
                self.assign(g.target, x, en)
                if not all(self.truth(self.eval(c, en)) for c in g.ifs):
                    continue
                k = self.eval(e.key, en)
                if not isinstance(k, (str, int, float)):
                    raise Unsupported("dict key")
                d.d[k] = self.eval(e.value, en)
            return d
        if isinstance(it, Seq) and isinstance(g.target, ast.Name) and isinstance(e.key, ast.Name) and e.key.id == g.target.id and not g.ifs:
            en = Env(env, env.mod)
            en.vars[g.target.id] = POISON
            v = self.eval(e.value, en)
            return P.DictOver(P.to_dom(src), v)
        raise Unsupported("dict comprehension")

    def comp(self, e, env):
        """List of items, or Seq / Chain, of a comprehension with one symbolic generator at most."""
        return self.comp_gen(e, e.generators, env)

    def comp_gen(self, e, gens, env):
        if not gens:
            return [self.eval(e.elt, env)]
        g = gens[0]
        it = self.iterate(self.eval(g.iter, env))
        if isinstance(it, list):
            out = []
            for x in it:
                en = Env(env, env.mod)
                self.assign(g.target, x, en)
                if not all(self.truth(self.eval(c, en)) for c in g.ifs):
                    continue
                r = self.comp_gen(e, gens[1:], en)
                out.append(r)
            if all(isinstance(r, list) for r in out):
                return [x for r in out for x in r]
            parts = []
            for r in out:
                parts += [("i", x) for x in r] if isinstance(r, list) else (r.parts if isinstance(r, Chain) else [r])
            return Chain(parts)
        if len(gens) > 1:
            raise Unsupported("nested symbolic comprehension")
        if isinstance(it, Chain):
            parts = []
            for p in it.parts:
                if isinstance(p, Seq):
                    parts.append(self.comp_seq(e, g, p, env))
                else:
                    en = Env(env, env.mod)
                    self.assign(g.target, p[1], en)
                    if all(self.truth(self.eval(c, en)) for c in g.ifs):
                        parts.append(("i", self.eval(e.elt, en)))
            return Chain(parts)
        return self.comp_seq(e, g, it, env)

    def comp_seq(self, e, g, seq, env):
        snap = dict(env.vars)

        def item(k, what):
            en = Env(Env(env.parent, env.mod, snap), env.mod)
            def run():
                self.assign(g.target, seq.at(k), en)
                return self.eval(what, en)
            return core.evalm(run)
        if g.ifs:
            k0 = freshint("cs")
            with hyp(k0 >= 0, k0 < zi(seq.size)):
                def cond(k):
                    return b_and(*[self.tv(item(k, c)) for c in g.ifs])
                iv = interval(cond, 0, seq.size)
            if iv is None:
                raise Unsupported("filtered symbolic comprehension")
            L, H = iv
            n = sz(zi(H) - zi(L))
            if not entails(zi(n) >= 0):
                n = z3.If(zi(n) > 0, zi(n), z3.IntVal(0))
            return Seq(n, lambda k: item(sz(zi(k) + zi(L)), e.elt))
        return Seq(seq.size, lambda k: item(k, e.elt))

    # ---------------------------------------------------------------- subscripts
    def eval_index(self, s, env):
        if isinstance(s, ast.Slice):
            f = lambda x: None if x is None else self.eval(x, env)
            return slice(f(s.lower), f(s.upper), f(s.step))
        if isinstance(s, ast.Tuple):
            return tuple(self.eval_index(x, env) for x in s.elts)
        return self.eval(s, env)

    def ex_Subscript(self, e, env):
        o = self.eval(e.value, env)
        k = self.eval_index(e.slice, env)
        return self.getitem(o, k)

    def getitem(self, o, k):
        if isinstance(o, PyDict):
            if isinstance(k, (str, int, float, bool, tuple, type(None))):
                if k not in o.d:
                    raise PyRaise("KeyError")
                return o.d[k]
            if core.is_number_text(k) and k.kind.startswith("slice[-1](") and set(o.d) == set("0123456789"):
                core.trust("the text of a formatted number without a fraction ends in a digit")
                r = o.d["9"]
                for x in "876543210":
                    r = core.ite_val(zb(s_eq(k, x)), o.d[x], r)
                return r
            raise Unsupported("dict lookup")
        if isinstance(o, tuple):
            if isinstance(k, slice):
                return o[slice(*[None if x is None else toint(x) for x in (k.start, k.stop, k.step)])]
            i = toint(k)
            if not isinstance(i, int):
                raise Unsupported("symbolic tuple index")
            try:
                return o[i]
            except IndexError:
                raise PyRaise("IndexError")
        if isinstance(o, str):
            if isinstance(k, slice):
                return o[k]
            return o[toint(k)]
        if core.is_number_text(o) and not o.kind.startswith("slice["):
            if isinstance(k, slice) and k.stop is None and k.step is None and isinstance(k.start, int):
                return SStr("slice[{}:]({})".format(k.start, o.kind), o.parts)
            if isinstance(k, int):
                return SStr("slice[{}]({})".format(k, o.kind), o.parts)
            raise Unsupported("part of a text")
        if isinstance(o, Loc):
            return self.loc_get(o, k)
        if isinstance(o, Series):
            return P.series_getitem(o, k)
        if isinstance(o, DF):
            return P.df_getitem(o, k)
        if isinstance(o, Index):
            return P.index_getitem(o, k)
        if isinstance(o, Arr):
            return P.arr_getitem(o, k)
        if isinstance(o, P.Bag):
            return P.bag_getitem(o, k)
        if isinstance(o, P.GroupBy):
            return P.GroupBy(o.df, SList([("i", x) for x in o.keys]), o.as_index, k)
        if isinstance(o, (SList, Seq)):
            d, f = domfn(o)
            if isinstance(k, slice):
                if k.step == -1 and k.start is None and k.stop is None:
                    nd, back = model.reverse_dom(d)
                elif k.step in (None, 1):
                    lo, hi = model.norm_slice(d.size(), k.start, k.stop)
                    nd, back = model.slice_dom(d, lo, hi)
                else:
                    raise Unsupported("slice step")
                parts = []
                for kk, b in enumerate(nd.blocks):
                    if b.k == 0:
                        parts.append(("i", f(back((kk, ())))))
                    elif isinstance(o, SList) and isinstance(o.parts[back((kk, (0,)))[0]][1], model.Groups) and k.step != -1:
                        g = o.parts[back((kk, (0,)))[0]][1]
                        parts.append(("s", g.part(back((kk, (0,)))[1][0], b.sizes[0])))
                    else:
                        parts.append(("s", Seq(b.sizes[0], lambda p, kk=kk: f(back((kk, (p,)))))))
                return SList(parts)
            xs = as_list(o)
            i = toint(k)
            if xs is not None and isinstance(i, int):
                try:
                    return xs[i]
                except IndexError:
                    raise PyRaise("IndexError")
            return d.at(model_norm(i, d), f)
        raise Unsupported("subscript of {!r}".format(o))

    def loc_get(self, o, k):
        x = o.obj
        if isinstance(x, DF):
            if o.kind in ("iloc", "iat"):
                return P.df_iloc(x, k)
            return P.df_loc(x, k)
        if isinstance(x, Series):
            if o.kind in ("iloc", "iat"):
                return P.series_iloc(x, k)
            if isinstance(k, slice):
                raise Unsupported("label slice")
            return P.series_getitem(x, k)
        raise Unsupported("indexer")

    # ---------------------------------------------------------------- attributes
    def ex_Attribute(self, e, env):
        return self.getattr(self.eval(e.value, env), e.attr)

    def getattr(self, o, name):
        if isinstance(o, Mod):
            return self.mod_attr(o, name)
        if isinstance(o, ModEnv):
            if name in o.env.vars:
                return o.env.vars[name]
            raise Unsupported("module attribute " + name)
        if isinstance(o, Super):
            for c in o.cls.mro()[1:]:
                if name in c.members:
                    m = c.members[name]
                    if isinstance(m, PyFunc):
                        return Bound(m, o.obj)
                    if isinstance(m, Prop):
                        return self.call_func(m.fget, [o.obj], {})
                    if isinstance(m, Static):
                        return m
            if isinstance(o.obj, DF) and name == "__init__":
                def init(data, *a, **kw):
                    d = P.df_from(data, *a, **kw)
                    o.obj.rows, o.obj.cols, o.obj.cell = d.rows, d.cols, d.cell
                return Builtin(init)
            raise Unsupported("super attribute " + name)
        if isinstance(o, Inst) or (isinstance(o, DF) and o.cls is not None):
            if name in o.attrs:
                return o.attrs[name]
            m = o.cls.lookup(name)
            if m is not None:
                if isinstance(m, Prop):
                    return self.call_func(m.fget, [o], {})
                if isinstance(m, PyFunc):
                    return Bound(m, o)
                if isinstance(m, Static):
                    return m
                if isinstance(m, Opaque):
                    raise Unsupported("member " + name)
                return m
            if isinstance(o, Inst):
                if name == "__class__":
                    return o.cls
                raise PyRaise("AttributeError", name)
        if isinstance(o, DF):
            return self.lib_member(o, name, P.DFA, P.DFM)
        if isinstance(o, Series):
            return self.lib_member(o, name, P.SERIES, P.SERIES_M)
        if isinstance(o, Index):
            return self.lib_member(o, name, P.INDEX, P.INDEX_M)
        if isinstance(o, Arr):
            return self.lib_member(o, name, P.ARR, P.ARR_M)
        if isinstance(o, P.Bag):
            return self.lib_member(o, name, P.BAG, P.BAG_M)
        if isinstance(o, P.GroupBy):
            if name in P.GBM:
                return Bound(P.GBM[name], o)
            return P.GroupBy(o.df, SList([("i", x) for x in o.keys]), o.as_index, name)
        if isinstance(o, SList):
            if o.tup:
                raise Unsupported("tuple method " + name)
            if name == "append":
                return Builtin(lambda x: self.list_append(o, x))
            if name == "extend":
                return Builtin(lambda x: self.list_extend(o, x))
            if name == "index":
                return Builtin(lambda x: self.list_index(o, x))
            if name == "copy":
                return Builtin(lambda: SList(o.parts))
            raise Unsupported("list." + name)
        if isinstance(o, PyDict):
            return self.dict_attr(o, name)
        if isinstance(o, (str, SStr)):
            return self.str_attr(o, name)
        if isinstance(o, V) or is_num(o) or isinstance(o, Lab):
            if name == "item":
                return Builtin(lambda: o)
            raise Unsupported("attribute {} of a number".format(name))
        if isinstance(o, SObj):
            return sobj_attr(o, name)
        if isinstance(o, P.Stream):
            if name in P.STREAM_METHODS:
                return Bound(P.STREAM_METHODS[name], o)
            raise Unsupported("RandomState." + name)
        if isinstance(o, PyClass):
            m = o.lookup(name)
            if isinstance(m, Static):
                return m
            if isinstance(m, PyFunc):
                return m
            if name == "__name__":
                return o.name
        if isinstance(o, Builtin) and o.pyname in ("norm", "lognorm") and name in ("ppf", "cdf", "pdf", "sf"):
            return Builtin(lambda q, *a, **kw: P.elementwise(lambda x: dist_fn(o.f(*a, **kw), name, x), q) if P.is_container(q)
                           else dist_fn(o.f(*a, **kw), name, q))
        if isinstance(o, Builtin) and o.pyname == "DataFrame" and name == "from_dict":
            return Builtin(lambda d, orient="columns", **kw: P.df_from(d))
        if isinstance(o, Inst):
            pass
        raise Unsupported("attribute {} of {!r}".format(name, o))

    def lib_member(self, o, name, props, meths):
        if name in props:
            return props[name](o)
        if name in meths:
            return Bound(meths[name], o)
        if name in ("loc", "iloc", "at", "iat"):
            return Loc(o, name)
        if isinstance(o, DF):
            for k, b in enumerate(o.cols.blocks):
                if b.k == 0 and b.lab is not None and isinstance(b.lab(), str) and b.lab() == name:
                    return o.col((k, ()), name)
            if name in o.attrs:
                return o.attrs[name]
        if isinstance(o, Series):
            if name == "name":
                return o.name
            for k, b in enumerate(o.dom.blocks):
                if b.k == 0 and b.lab is not None and isinstance(b.lab(), str) and b.lab() == name:
                    return o.fn((k, ()))
        raise Unsupported("{}.{}".format(type(o).__name__, name))

    def list_append(self, o, x):
        model.note_write(o, "append")
        log = cx.__dict__.get("wlog")
        if o.frozen:
            raise Unsupported("mutation of a shared list")
        if log is not None and o.stamp <= cx.wlog_stamp:
            log.append((o, "append", x))
        o.parts.append(("i", x))

    def list_extend(self, o, x):
        model.note_write(o, "extend")
        log = cx.__dict__.get("wlog")
        if log is not None and o.stamp <= cx.wlog_stamp:
            xs = as_list(x)
            if xs is None:
                raise Unsupported("list extension inside a summarised loop")
            for y in xs:
                self.list_append(o, y)
            return
        if isinstance(x, SList):
            o.parts += x.parts
        else:
            xs = as_list(x)
            if xs is None:
                raise Unsupported("list extension")
            o.parts += [("i", y) for y in xs]

    def list_index(self, o, x):
        d = P.to_dom(o)
        pt = model.find(d, x)
        return d.pos(pt)

    def dict_attr(self, o, name):
        if name == "keys":
            return Builtin(lambda: SList([("i", k) for k in o.d]))
        if name == "values":
            return Builtin(lambda: SList([("i", k) for k in o.d.values()]))
        if name == "items":
            return Builtin(lambda: SList([("i", (k, v)) for k, v in o.d.items()]))
        if name == "get":
            return Builtin(lambda k, d=None: o.d.get(k, d))
        if name == "update":
            def up(x):
                self.dict_guard(o)
                if not isinstance(x, PyDict):
                    raise Unsupported("dict.update")
                o.d.update(x.d)
            return Builtin(up)
        raise Unsupported("dict." + name)

    def str_attr(self, o, name):
        if isinstance(o, str):
            if name == "format":
                return FormatMethod(o)
            if name in ("lower", "upper", "strip", "rstrip", "lstrip", "startswith", "endswith", "replace", "split"):
                def f(*a):
                    a = [tuple(x) if isinstance(x, tuple) else x for x in a]
                    if not all(isinstance(x, (str, tuple)) for x in a):
                        raise Unsupported("str." + name)
                    r = getattr(o, name)(*a)
                    return SList([("i", x) for x in r]) if isinstance(r, list) else r
                return Builtin(f)
            if name == "join":
                def j(xs):
                    l = as_list(xs)
                    if l is None or not all(isinstance(x, str) for x in l):
                        raise Unsupported("join")
                    return o.join(l)
                return Builtin(j)
        else:
            if name == "replace" and o.kind.startswith("fmt:"):
                def rep(a, b):
                    pre = o.kind[4:]
                    if pre == a + "{}" and b == "":
                        return SStr("label", o.parts)
                    raise Unsupported("str.replace")
                return Builtin(rep)
            if name in ("rstrip", "lstrip", "strip") and (o.kind.startswith("fmt:") or o.kind.split("(")[0] in ("rstrip", "lstrip", "strip")):
                return Builtin(lambda *a: SStr("{}({})".format(name, o.kind), o.parts + tuple(a)))
        raise Unsupported("str." + name)

    def mod_attr(self, o, name):
        root = {"np": "numpy", "pd": "pandas"}.get(o.name, o.name)
        return self.libattr(root, name)

    def length(self, x):
        if isinstance(x, (str, tuple)):
            return len(x)
        if isinstance(x, PyDict):
            return len(x.d)
        if isinstance(x, Seq):
            return x.size
        if isinstance(x, SList):
            n = 0
            for k, v in x.parts:
                n = n + (1 if k == "i" else v.size)
            return sz(n)
        if isinstance(x, P.Bag):
            return x.dom.size()
        if isinstance(x, (Series, Arr, Index)):
            return x.dom.size() if not (isinstance(x, Arr) and len(x.doms) == 2) else x.doms[0].size()
        if isinstance(x, DF):
            return x.rows.size()
        raise Unsupported("len")


class HKey:
    def __init__(self, v):
        self.v = v


class KeyedDict(dict):
    """dict whose keys may be symbolic values (used for rename mappings)."""
    def __init__(self, d):
        dict.__init__(self)
        self.pairs = [(k.v if isinstance(k, HKey) else k, v) for k, v in d.items()]

    def items(self):
        return self.pairs

    def __iter__(self):
        return iter([k for k, _ in self.pairs])

    def __len__(self):
        return len(self.pairs)

    def keys(self):
        return [k for k, _ in self.pairs]

    def values(self):
        return [v for _, v in self.pairs]


class ModEnv:
    def __init__(self, env):
        self.env = env


class Chain:
    """Concatenation of concrete items ('i', x) and Seqs."""
    def __init__(self, parts):
        self.parts = parts


class FormatMethod:
    def __init__(self, s):
        self.s = s


class LibOpaque:
    def __init__(self, name):
        self.name = name


def model_norm(i, d):
    return P.norm_pos(i, d)


def fmt_parts(parts):
    if all(isinstance(x, str) for x in parts):
        return "".join(parts)
    if all(isinstance(x, (str, int)) and not isinstance(x, bool) for x in parts):
        return "".join(str(x) for x in parts)
    kind = "".join(x.replace("{", "{{") if isinstance(x, str) else "{}" for x in parts)
    vals = tuple(x for x in parts if not isinstance(x, str))
    if kind == "{}":
        x = vals[0]
        if isinstance(x, Lab) or is_int(x):
            return SStr("label", vals)
    return SStr("fmt:" + kind, vals)


def P_format(s, args):
    """str.format with plain {} fields."""
    out, rest, args = [], s, list(args)
    if "{:" in s:
        return SStr("fmt:" + s, tuple(args)) if not all(isinstance(a, (int, str, float)) for a in args) else s.format(*args)
    if "{{" in s or "}}" in s:
        return Opaque("formatted text")
    while "{}" in rest:
        i = rest.index("{}")
        if rest[:i]:
            out.append(rest[:i])
        x = args.pop(0)
        out.append(x)
        rest = rest[i + 2:]
    if "{" in rest:
        raise Unsupported("format string")
    if rest:
        out.append(rest)
    return fmt_parts(out)


def _as_load(t):
    if isinstance(t, ast.Name):
        return ast.Name(id=t.id, ctx=ast.Load())
    if isinstance(t, ast.Attribute):
        return ast.Attribute(value=t.value, attr=t.attr, ctx=ast.Load())
    return ast.Subscript(value=t.value, slice=t.slice, ctx=ast.Load())


# ------------------------------------------------------------------ loop summaries
def loop_names(body, target):
    """Names assigned in a loop body (not inside nested functions)."""
    out = set()

    class Vis(ast.NodeVisitor):
        def visit_FunctionDef(self, n):
            out.add(n.name)

        def visit_Lambda(self, n):
            pass

        def visit_Name(self, n):
            if isinstance(n.ctx, (ast.Store, ast.Del)):
                out.add(n.id)
    for s in body:
        Vis().visit(s)
    Vis().visit(target)
    return out


class Snapshot:
    """States of all modelled mutable objects."""
    def __init__(self):
        self.st = [(o, o.state()) for o in cx.__dict__.get("registry", [])]

    def restore(self):
        for o, s in self.st:
            o.setstate(s)


class NeedPeel(Unsupported):
    """The loop fills a cache: its first iteration has to be executed on its own."""


class Summary:
    def __init__(self, ip, node, env, seq):
        self.ip, self.node, self.env, self.seq = ip, node, env, seq
        self.N = seq.size

    def run(self):
        N = self.N
        if entails(zi(N) <= 0):
            return
        if not entails(zi(N) > 0):
            if not branch(zi(N) > 0):
                return
        ip, env = self.ip, self.env
        self.names = loop_names(self.node.body, self.node.target)
        self.invariants()
        self.stamp = Mut.count[0]
        for attempt in range(4):
            self.env0 = dict(env.vars)
            self.snap = Snapshot()
            try:
                writes = self.discover()
                break
            except NeedPeel:
                if attempt:
                    raise
                self.snap.restore()
                env.vars.clear()
                env.vars.update(self.env0)
                self.body(0)
                seq, n1 = self.seq, sz(zi(N) - 1)
                return Summary(ip, self.node, env, Seq(n1, lambda k: seq.at(sz(zi(k) + 1)))).run()
            except P.NeedColumn as e:
                self.snap.restore()
                env.vars.clear()
                env.vars.update(self.env0)
                # the first iteration creates the column, so it exists (all missing) before any cell is written
                log, cx.wlog = cx.__dict__.get("wlog"), None
                try:
                    P.enlarge_col(e.df, e.label)
                finally:
                    cx.wlog = log
        else:
            raise Unsupported("loop summary did not settle")
        self.snap.restore()
        env.vars.clear()
        env.vars.update(self.env0)
        self.objs, self.lists, self.accs, self.width = [], [], [], {}
        byobj = {}
        for pc, k, log, names in writes:
            for (o, g, v) in log:
                byobj.setdefault(id(o), (o, []))[1].append((pc, g, v))
        for o, ws in byobj.values():
            if isinstance(o, SList):
                self.lists.append(o)
            else:
                self.objs.append(o)
        for o in self.lists:
            per_path = [sum(1 for (oo, g, v) in log if oo is o) for pc, k, log, names in writes]
            if any(n != per_path[0] for n in per_path):
                raise Unsupported("conditional append in a summarised loop")
            self.width[id(o)] = per_path[0]
        self.kinv = {}
        self.guards = {}
        for o in self.objs:
            self.guards[id(o)] = [(pc, [g for (oo, g, v) in log if oo is o]) for pc, k, log, names in writes]
        self.accumulators(writes)
        self.k0 = writes[0][1]
        self.reexec_cache = {}
        self.recs = {}
        self.uid = cx.__dict__.setdefault("loopuid", 0)
        cx.loopuid += 1
        # final states
        finals = []
        for o in self.objs:
            finals.append((o, self.final_state(o)))
        for o in self.lists:
            init = list(o.parts)
            o_ = o
            w = self.width[id(o)]
            if w == 1:
                finals.append((o, init + [("s", Seq(self.N, lambda k, o_=o_: self.appended(o_, k)))]))
            else:
                finals.append((o, init + [("s", model.Groups(self.N, w, lambda k, r, o_=o_: self.appended(o_, k, r)))]))
        accf = []
        for name, node in self.accs:
            accf.append((name, self.acc_final(name)))
        for o, f in finals:
            if isinstance(o, SList):
                model_log = cx.__dict__.get("wlog")
                if model_log is not None and o.stamp <= cx.wlog_stamp:
                    raise Unsupported("append in nested summarised loops")
                o.parts = f
            else:
                g, v = f
                o.update(g, v, what="loop")
        for n in self.names:
            env.vars[n] = POISON
        for n, f in self.inv.items():
            if self.mutated:      # the frame bound before the loop is written to: nobody may look at it again
                self.env0[n].setstate((None, None, None, {}, None))
            env.vars[n] = f(N)
        for n, v in accf:
            env.vars[n] = v

    # -------- loop invariants of carried frames
    def invariants(self):
        """Loop-carried frame variables whose value before the loop is that of an invariant of the contract at iteration 0."""
        self.inv, self.mutated = {}, False
        for n in sorted(self.names):
            v = self.env.vars.get(n)
            if isinstance(v, DF) and v.cls is None:
                for f in getattr(self.ip.world, "loop_invs", ()):
                    if same_frame(v, f(0)):
                        self.inv[n] = f
                        break

    def preserved(self, k, vars_):
        for n, f in self.inv.items():
            v = vars_.get(n)
            ok = isinstance(v, DF) and same_frame(v, f(sz(zi(k) + 1)))
            if not ok:
                raise Unsupported("the loop invariant of {} is not preserved".format(n))
            ck = getattr(self.ip, "ck", None)
            if ck is not None:
                ck.ob("a loop invariant holds initially and is preserved").add("proved", backend="z3")

    def carry(self, k):
        """Values of the assigned variables at the start of iteration k."""
        for n in self.names:
            if n in self.inv:
                self.env.vars[n] = self.inv[n](k)
                self.env.vars[n].stamp0 = self.env.vars[n].state()
            elif n in self.env0:
                self.env.vars[n] = Carried(n, self.env0[n])

    # -------- discovery
    def body(self, k):
        """Execute the body at iteration k in the current object state; returns (wlog)."""
        ip, env = self.ip, self.env
        ip.assign(self.node.target, self.seq.at(k), env)
        try:
            ip.block(self.node.body, env)
        except ContinueEx:
            pass
        except BreakEx:
            raise Unsupported("break in a summarised loop")
        except ReturnEx:
            raise Unsupported("return in a summarised loop")

    def with_log(self, fn):
        old, olds = cx.__dict__.get("wlog"), cx.__dict__.get("wlog_stamp")
        cx.wlog, cx.wlog_stamp = [], self.stamp
        try:
            fn()
            return cx.wlog
        finally:
            cx.wlog, cx.wlog_stamp = old, olds

    def discover(self):
        k = freshint("it")
        self.disc_k = k
        out = []
        env = self.env

        def run():
            self.snap.restore()
            env.vars.clear()
            env.vars.update(self.env0)
            self.carry(k)
            first = {n: env.vars[n] for n in self.inv}
            log = self.with_log(lambda: self.body(k))
            self.preserved(k, env.vars)
            for x in first.values():
                self.mutated = self.mutated or not all(a is b for a, b in zip(x.state()[:3], x.stamp0[:3]))
            return log, dict(env.vars)
        cx.wensure = []
        with hyp(k >= 0, k < zi(self.N)):
            paths = core.explore(run)
        for pc, r in paths:
            if isinstance(r, PyRaise):
                raise Unsupported("exception {} inside a summarised loop".format(r.etype))
            out.append((pc, k, r[0], r[1]))
        return out

    def accumulators(self, writes):
        """Variables x with x := x + e in every path (e independent of carried variables)."""
        self.accs = []
        for n in sorted(self.names):
            if n not in self.env0 or isinstance(self.env0[n], Poison):
                continue
            used = False
            for pc, k, log, vars_ in writes:
                v = vars_.get(n)
                if isinstance(v, Carried) and v.name == n and v.delta is None:
                    continue
                if isinstance(v, Carried) and v.name == n:
                    used = True
                elif isinstance(v, Carried):
                    raise Unsupported("carried variable")
            if used:
                self.accs.append((n, None))

    def acc_final(self, name):
        init = self.env0[name]

        def delta(k):
            def run(vars_):
                v = vars_.get(name)
                if not isinstance(v, Carried):
                    raise Unsupported("carried variable {} is overwritten".format(name))
                return v.delta if v.delta is not None else 0
            return self.at_iteration(k, run)
        t = aggregate("sum", 0, self.N, lambda k: (True, must_num(delta(k))))
        q = freshint("ac")
        with hyp(q >= 0, q < zi(self.N)):
            d = num(delta(q))
            nan = False
            if d.nan is not False and not entails(z3.Not(zb(d.nan))):
                raise Unsupported("accumulated value may be missing")
        return P.binop("+", init, V(nan, t))

    # -------- which iteration writes a cell
    def writers(self, o, pts):
        """(L, H, cond, unique): the iterations that write the cell are [L, H); some iteration does iff cond; unique: at most one,
        namely L."""
        key = (id(o), tuple((p[0],) + tuple(zi(x).get_id() for x in p[1]) for p in pts), tuple(h.get_id() for h in cx.hyps))
        if key in self.kinv:
            return self.kinv[key][0]

        def g(k):
            conds = []
            for pc, gs in self.guards[id(o)]:
                for gd in gs:
                    # the guards were built at iteration variable disc_k: substitute
                    with hyp(self.disc_k >= 0, self.disc_k < zi(self.N)):
                        with hyp(pc):
                            c = gd(*pts)
                    c = b_and(pc, c)
                    if isz(c):
                        c = core.agg_sub(c, self.disc_k, k) if any_agg(c) else z3.substitute(c, (self.disc_k, zi(k)))
                    conds.append(c)
            return simp(b_or(*conds)) if conds else False
        q = freshint("wq")
        with hyp(q >= 0, q < zi(self.N)):
            gq = g(q)
            v = None
            if isz(gq):
                for e in pinned(gq, q):
                    if entails(z3.Implies(gq, q == zi(e))):
                        v = sz(e)
                        break
        if v is not None:
            c = simp(b_and(simp(zi(v) >= 0), simp(zi(v) < zi(self.N)), simp(z3.substitute(gq, (q, zi(v))))))
            d = c if isinstance(c, bool) else decide(c)
            c = c if d is None else d
            res = (v, sz(zi(v) + 1), c, True)
        else:
            iv = interval(g, 0, self.N)
            if iv is None:
                raise Unsupported("cannot tell which iteration writes a cell")
            L, H = iv
            c = simp(zi(L) < zi(H))
            d = c if isinstance(c, bool) else decide(c)
            res = (L, H, c if d is None else d, entails(zi(H) - zi(L) <= 1))
        self.kinv[key] = (res, pts)
        return res

    # -------- re-execution
    def at_iteration(self, k, extract):
        """Run the body at iteration k (reads of loop-modified objects resolved), return extract(final vars) merged
        over the paths.  extract also sees self.curlog."""
        ip, env = self.ip, self.env
        saved_vars = dict(env.vars)
        outer = Snapshot()
        depth = ip.depth
        ensure = cx.__dict__.get("wlog"), cx.__dict__.get("wlog_stamp")

        def run():
            self.snap.restore()
            env.vars.clear()
            env.vars.update(self.env0)
            self.carry(k)
            for o in self.objs:
                self.install(o, k)
            log = self.with_log(lambda: self.body(k))
            self.curlog = log
            return extract(env.vars)
        try:
            return core.evalm(run)
        finally:
            outer.restore()
            env.vars.clear()
            env.vars.update(saved_vars)
            ip.depth = depth

    def install(self, o, k):
        """State of o at the start of iteration k."""
        st = o.state()
        init = st[2] if isinstance(o, DF) else st[1]

        def cell(*pts):
            L, H, c, uniq = self.writers(o, pts)
            if c is False:
                return init(*pts)
            if not uniq:
                raise Unsupported("a cell rewritten by several iterations is read inside the loop")
            return ite(simp(b_and(c, simp(zi(L) < zi(k)))), lambda: self.rec(o, pts, L, H, k), lambda: init(*pts))
        if isinstance(o, DF):
            o.cell = cell
        else:
            o.fn = cell

    def rec(self, o, pts, L, H, hk):
        """Value of an already written cell: application of the recursive function of this loop and object."""
        shape = tuple((p[0], len(p[1])) for p in pts)
        key = (id(o), shape, tuple(h.get_id() for h in self.base_hyps()))
        if key not in self.recs:
            name = "F{}_{}_{}".format(self.uid, len(self.recs), "loop")
            arity = sum(n for _, n in shape)

            def unflat(args):
                out, i = [], 0
                for b, n in shape:
                    out.append((b, tuple(args[i:i + n])))
                    i += n
                return out

            def ranges(*args):
                ps = unflat(args)
                doms = [o_rows, o_cols] if isinstance(o, DF) else [o_rows]
                r = [d.blocks[p[0]].inrange(p[1]) for d, p in zip(doms, ps)]
                with hyp(*r):
                    L, H, c, uniq = self.writers(o, ps)
                r.append(c)
                return r
            o_rows = o.rows if isinstance(o, DF) else o.dom
            o_cols = o.cols if isinstance(o, DF) else None

            def body(*args):
                ps = unflat(args)
                L, H, c, uniq = self.writers(o, ps)
                return num(self.written(o, sz(L), ps))
            f = core.RecFn(name, arity, body, None, ranges)
            f.measure = lambda *args: self.writers(o, unflat(args))[0]
            f.obj, f.summary = o, self
            f.unflat = unflat
            self.recs[key] = f
        f = self.recs[key]
        return f(*[x for p in pts for x in p[1]])

    def base_hyps(self):
        return []

    def written(self, o, k, pts):
        """Value written to the cell by iteration k (which does write it)."""
        def extract(vars_):
            val = None
            for (oo, g, v) in self.curlog:
                if oo is o:
                    val = (g, v, val)
            # last write wins

            def go(w):
                if w is None:
                    return NAN
                g, v, prev = w
                return ite(g(*pts), lambda: v(*pts), lambda: go(prev))
            return go(val)
        return self.at_iteration(k, extract)

    def final_state(self, o):
        def guard(*pts):
            return self.writers(o, pts)[2]

        def val(*pts):
            L, H, c, uniq = self.writers(o, pts)
            return self.written(o, sz(zi(L)) if uniq else sz(zi(H) - 1), pts)
        return guard, val

    def appended(self, o, k, r=0):
        def extract(vars_):
            xs = [v for (oo, g, v) in self.curlog if oo is o]
            return xs[r]
        return self.at_iteration(k, extract)


def same_frame(a, b):
    """The frames have the same columns, rows and cells (b has one block of rows)."""
    if len(a.cols.blocks) != len(b.cols.blocks) or any(x.k for x in a.cols.blocks + b.cols.blocks):
        return False
    m = {}
    for k, x in enumerate(a.cols.blocks):
        for j, y in enumerate(b.cols.blocks):
            if s_eq(x.lab(), y.lab()) is True:
                m[k] = j
    if sorted(m.values()) != list(range(len(b.cols.blocks))):
        return False
    try:
        x, y = a.rows.single(), b.rows.single()
    except Unsupported:
        return False
    if not entails(zi(x.sizes[0]) == zi(y.sizes[0])):
        return False
    p = freshint("fe")
    with hyp(x.inrange((p,))):
        if not entails(s_eq(a.rows.lab((0, (p,))), b.rows.lab((0, (p,))))):
            return False
        for k, j in m.items():
            u, v = a.cell((0, (p,)), (k, ())), b.cell((0, (p,)), (j, ()))
            if not entails(zb(s_eq(u, v))):
                return False
    return True


def pinned(g, q):
    """Candidate terms e such that g may force q == e."""
    out = []
    stack = [g]
    seen = set()
    while stack:
        x = stack.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        k = x.decl().kind()
        if k in (z3.Z3_OP_AND, z3.Z3_OP_OR, z3.Z3_OP_NOT):
            stack.extend(x.children())
        elif k in (z3.Z3_OP_EQ, z3.Z3_OP_LE, z3.Z3_OP_GE, z3.Z3_OP_LT, z3.Z3_OP_GT) and z3.is_int(x.arg(0)):
            l = model.lin(x.arg(0) - x.arg(1), q)
            if l is not None and l[0] in (1, -1):
                e = z3.simplify(-l[1] if l[0] == 1 else l[1])
                out.append((0 if k == z3.Z3_OP_EQ else 1, e))
                if k != z3.Z3_OP_EQ:
                    out += [(2, z3.simplify(e + 1)), (2, z3.simplify(e - 1))]
    out.sort(key=lambda t: t[0])
    return [e for _, e in out][:8]


def any_agg(c):
    return any(x.get_id() in cx.aggs for x in core.consts_of(c).values())


def must_num(v):
    v = num(v)
    return V(v.nan, v.v) if v.v is not None else v


class Carried:
    """Value of a loop-assigned variable at the start of an iteration: only x + e accumulation is understood."""
    def __init__(self, name, init, delta=None):
        self.name, self.init, self.delta = name, init, delta


_obin = P.binop


def _binop(op, a, b):
    if isinstance(a, Carried) or isinstance(b, Carried):
        if op == "+" and isinstance(a, Carried) and not isinstance(b, Carried):
            return Carried(a.name, a.init, b if a.delta is None else _binop("+", a.delta, b))
        if op == "+" and isinstance(b, Carried):
            return Carried(b.name, b.init, a if b.delta is None else _binop("+", b.delta, a))
        if op == "-" and isinstance(a, Carried) and not isinstance(b, Carried):
            nb = core.s_neg(b)
            return Carried(a.name, a.init, nb if a.delta is None else _binop("+", a.delta, nb))
        raise Unsupported("carried variable")
    return _obin(op, a, b)


P.binop = _binop


def np_flip(x, axis=None):
    if axis is not None or isinstance(x, (DF, Series)) or len(domfn(x)[0].blocks) != 1 or domfn(x)[0].blocks[0].k != 1:
        raise Unsupported("flip")
    return cx.interp.getitem(x if isinstance(x, Arr) else P.np_asarray(x), slice(None, None, -1))


# ------------------------------------------------------------------ builtins and libraries
def _range(*a):
    a = [toint(x) for x in a]
    if len(a) == 1:
        a = [0, a[0], 1]
    if len(a) == 2:
        a = [a[0], a[1], 1]
    if all(isinstance(x, int) for x in a):
        return SList([("i", x) for x in range(*a)]) if abs(a[1] - a[0]) <= 64 else _uns("long range")
    if a[2] not in (1, -1):
        raise Unsupported("range step")
    return SymRange(*a)


def _uns(w):
    raise Unsupported(w)


def to_seqlike(x):
    """list of items, or Seq."""
    r = cx.interp.iterate(x)
    return r


def _enumerate(x, start=0):
    r = to_seqlike(x)
    if isinstance(r, list):
        return SList([("i", (s_bin("+", start, i), v)) for i, v in enumerate(r)])
    if isinstance(r, Seq):
        return Seq(r.size, lambda k: (sz(zi(k) + zi(start)), r.at(k)))
    parts, off = [], start
    for p in r.parts:
        if isinstance(p, Seq):
            parts.append(Seq(p.size, lambda k, p=p, off=off: (sz(zi(k) + zi(off)), p.at(k))))
            off = sz(zi(off) + zi(p.size))
        else:
            parts.append(("i", (off, p[1])))
            off = sz(zi(off) + 1)
    return Chain(parts)


def _zip(*xs):
    rs = [to_seqlike(x) for x in xs]
    if all(isinstance(r, list) for r in rs):
        return SList([("i", t) for t in zip(*rs)])
    if all(isinstance(r, Seq) for r in rs):
        n = rs[0].size
        for r in rs[1:]:
            n = model.zmin(n, r.size)
        return Seq(n, lambda k: tuple(r.at(k) for r in rs))
    if all(isinstance(r, Chain) and len(r.parts) == len(rs[0].parts) for r in rs):
        parts = []
        for ps in zip(*[r.parts for r in rs]):
            if all(isinstance(p, Seq) for p in ps) and all(entails(zi(p.size) == zi(ps[0].size)) for p in ps):
                parts.append(Seq(ps[0].size, lambda k, ps=ps: tuple(p.at(k) for p in ps)))
            elif all(isinstance(p, tuple) for p in ps):
                parts.append(("i", tuple(p[1] for p in ps)))
            else:
                raise Unsupported("zip of mixed sequences")
        return Chain(parts)
    raise Unsupported("zip of mixed sequences")


def _list(x=None):
    if x is None:
        return SList([])
    r = to_seqlike(x)
    if isinstance(r, list):
        return SList([("i", v) for v in r])
    if isinstance(r, Seq):
        return SList([("s", r)])
    return SList([("s", p) if isinstance(p, Seq) else p for p in r.parts])


def _tuple(x=()):
    xs = as_list(x)
    if xs is None:
        raise Unsupported("tuple of a symbolic sequence")
    return tuple(xs)


def _sum(x, start=0):
    r = to_seqlike(x)
    if isinstance(r, list):
        t = start
        for v in r:
            t = P.binop("+", t, v)
        return t
    if isinstance(r, Seq):
        q = freshint("sm")
        with hyp(q >= 0, q < zi(r.size)):
            v = num(r.at(q))
            if not (v.nan is False or core.never(zb(v.nan))):
                raise Unsupported("sum of values that may be missing: {}".format(str(v.nan)[:200]))
        t = aggregate("sum", 0, r.size, lambda w: (True, num(r.at(w))))
        return P.binop("+", V(False, t), start)
    t = start
    for p in r.parts:
        t = P.binop("+", t, _sum(p) if isinstance(p, Seq) else p[1])
    return t


def _anyall(kind):
    def f(x):
        r = to_seqlike(x)
        if isinstance(r, list):
            ts = [cx.interp.tv(v) for v in r]
            return b_or(*ts) if kind == "any" else b_and(*ts)
        d, fn = domfn(r if not isinstance(r, Chain) else SList([("s", p) if isinstance(p, Seq) else p for p in r.parts]))
        return P.red_all(d, fn, kind)
    return f


def _minmax(kind):
    def f(*a, **kw):
        if len(a) > 2:
            return f(f(*a[:2], **kw), *a[2:], **kw)
        if len(a) == 2:
            c = s_cmp("<" if kind == "min" else ">", a[0], a[1])
            if isinstance(c, bool):
                return a[0] if c else a[1]
            return ite_val(c, a[0], a[1])
        xs = as_list(a[0])
        if xs is not None and all(isinstance(x, (int, float)) for x in xs):
            return min(xs) if kind == "min" else max(xs)
        d, fn = domfn(a[0])
        return P.red_ext(kind, d, fn)
    return f


def _isinstance(x, t):
    ts = t if isinstance(t, tuple) else (t,)
    return any(_isinst(x, c) for c in ts)


def _isinst(x, c):
    if isinstance(c, PyClass):
        return isinstance(x, (Inst, DF)) and x.cls is not None and c in x.cls.mro()
    if isinstance(c, Builtin):
        n = c.pyname
        if n == "DataFrame":
            return isinstance(x, DF)
        if n == "Series":
            return isinstance(x, Series)
        if n == "str":
            return isinstance(x, (str, SStr))
        if n == "int":
            return isinstance(x, (int, bool)) or (isz(x) and z3.is_int(x) and not getattr(x, "npint", False))
        if n == "float":
            return isinstance(x, (float, V, Fraction))
        if n == "list":
            return isinstance(x, SList) and not x.tup
        if n == "tuple":
            return isinstance(x, tuple) or isinstance(x, SList) and x.tup
        if n == "dict":
            return isinstance(x, PyDict)
        if n == "bool":
            return isinstance(x, bool)
        if n == "RandomState":
            return isinstance(x, P.Stream)
    if isinstance(c, LibOpaque):
        if c.name == "collections.abc.Sequence":
            return isinstance(x, (SList, tuple, str))
        if c.name == "numpy.ndarray":
            return isinstance(x, Arr)
        if c.name == "numpy.integer":
            return False
        if c.name in ("pandas.Index",):
            return isinstance(x, Index)
    raise Unsupported("isinstance")


def _str(x=""):
    if isinstance(x, str):
        return x
    if isinstance(x, int) and not isinstance(x, bool):
        return str(x)
    return fmt_parts([x]) if isinstance(x, Lab) or is_int(x) else Opaque("text")


def _int(x=0):
    if isinstance(x, SStr) and x.kind == "label":
        return x.parts[0]
    if isinstance(x, str):
        try:
            return int(x)
        except ValueError:
            raise PyRaise("ValueError")
    if isinstance(x, (Lab,)) or is_int(x):
        return x
    if isinstance(x, (float,)):
        return int(x)
    return P.astype_val("int", x)


def _sorted(x, key=None, reverse=False):
    xs = as_list(x)
    if xs is None and not reverse:
        r = to_seqlike(x)
        if isinstance(r, Seq):
            c = model.coef(Block((r.size,)), lambda p: cx.interp.call(key, [r.at(p)], {}) if key is not None else r.at(p), 0)
            if c == 1:
                return SList([("s", r)])
            if c == -1:
                return SList([("s", Seq(r.size, lambda p: r.at(sz(zi(r.size) - 1 - zi(p)))))])
    if xs is None or reverse:
        raise Unsupported("sorted")
    ks = [cx.interp.call(key, [v], {}) if key is not None else v for v in xs]
    if not all(isinstance(k, (int, float, str)) for k in ks):
        raise Unsupported("sorted")
    return SList([("i", v) for _, v in sorted(zip(ks, xs), key=lambda t: t[0])])


def _abs(x):
    if isinstance(x, (int, float)):
        return abs(x)
    if is_int(x):
        return z3.If(zi(x) >= 0, zi(x), -zi(x))
    if P.is_container(x):
        return P.elementwise(lambda v: s_un("abs", v), x)
    return s_un("abs", x)


def _reversed(x):
    r = to_seqlike(x)
    if isinstance(r, list):
        return SList([("i", v) for v in reversed(r)])
    if isinstance(r, Seq):
        n = r.size
        return Seq(n, lambda k: r.at(sz(zi(n) - 1 - zi(k))))
    raise Unsupported("reversed")


def _set(x):
    if isinstance(x, list):
        x = SList([("i", v) for v in x])
    d, f = domfn(x)
    return PySet(d, f)


def _reduce(f, xs, init=None):
    items = as_list(xs) if not isinstance(xs, tuple) else list(xs)
    if items is None:
        raise Unsupported("reduce")
    acc = init
    if acc is None:
        acc, items = items[0], items[1:]
    for x in items:
        acc = cx.interp.call(f, [acc, x], {})
    return acc


def _map(f, *xs):
    rs = [to_seqlike(x) for x in xs]
    if all(isinstance(r, list) for r in rs):
        return SList([("i", cx.interp.call(f, list(t), {})) for t in zip(*rs)])
    if len(rs) == 1 and isinstance(rs[0], Seq):
        return Seq(rs[0].size, lambda k: P.mapcall(f, rs[0].at(k)))
    raise Unsupported("map")


def _product(*xs):
    rs = [to_seqlike(x) for x in xs]
    if all(isinstance(r, list) for r in rs):
        import itertools
        return SList([("i", t) for t in itertools.product(*rs)])
    if len(rs) == 2 and isinstance(rs[0], list):
        parts = []
        second = rs[1]
        sp = second.parts if isinstance(second, Chain) else [second]
        for a in rs[0]:
            for p in sp:
                if isinstance(p, Seq):
                    parts.append(("s", Seq(p.size, lambda k, p=p, a=a: (a, p.at(k)))))
                else:
                    parts.append(("i", (a, p[1])))
        return SList(parts)
    raise Unsupported("itertools.product")


BUILTINS = {
    "range": Builtin(_range, "range"), "len": Builtin(lambda x: cx.interp.length(x), "len"), "enumerate": Builtin(_enumerate),
    "zip": Builtin(_zip), "list": Builtin(_list, "list"), "tuple": Builtin(_tuple, "tuple"), "sum": Builtin(_sum),
    "any": Builtin(_anyall("any")), "all": Builtin(_anyall("all")), "min": Builtin(_minmax("min")), "max": Builtin(_minmax("max")),
    "isinstance": Builtin(_isinstance), "str": Builtin(_str, "str"), "int": Builtin(_int, "int"),
    "float": Builtin(lambda x=0.: num(x) if not isinstance(x, (int, float)) else float(x), "float"),
    "bool": Builtin(lambda x=False: cx.interp.tv(x), "bool"),
    "dict": Builtin(lambda *a, **kw: _mkdict(a, kw), "dict"), "set": Builtin(_set, "set"), "sorted": Builtin(_sorted), "abs": Builtin(_abs),
    "reversed": Builtin(_reversed), "map": Builtin(_map), "object": Builtin(None, "object"),
    "hasattr": Builtin(lambda o, n: _hasattr(o, n)), "setattr": Builtin(lambda o, n, v: cx.interp.setattr(o, n, v)),
    "print": Builtin(lambda *a, **k: None), "round": Builtin(lambda *a: Opaque("round")),
    "slice": Builtin(lambda *a: slice(*(list(a) + [None] * (3 - len(a)))) if len(a) != 1 else slice(None, a[0], None)),
    "True": True, "False": False, "None": None,
}


def _mkdict(a, kw):
    d = PyDict(dict(a[0].d) if a else {})
    d.d.update(kw)
    d.stamp = Mut.count[0] + 1
    return d


def _hasattr(o, n):
    raise Unsupported("hasattr")


def sobj_attr(o, name):
    if o.kind in ("norm", "lognorm"):
        if name in ("ppf", "pdf", "cdf", "sf"):
            def f(q):
                return dist_fn(o, name, q)
            return Builtin(f)
        if name in ("kwds", "args"):
            raise Unsupported("distribution internals")
    if o.kind == "counts" and name == "get":
        return Builtin(lambda k, default=None: P.counts_get(o, k, default))
    if o.kind == "root" and name == "x":
        return o.kw["x"]
    raise Unsupported("attribute {} of {}".format(name, o.kind))


def dist_fn(o, name, q):
    ps = [num(o.kw[k]) for k in sorted(o.kw)]
    x = num(q)
    core.trust("scipy.stats.{}.{} is a function of its parameters (uninterpreted)".format(o.kind, name))
    if any(p.v is None for p in ps) or x.v is None:
        return NAN
    return V(b_or(x.nan, *[p.nan for p in ps]), core.uf(o.kind + "_" + name, len(ps) + 1)(x.v, *[p.v for p in ps]))


def mk_dist(kind, names):
    def f(*a, **kw):
        d = {n: v for n, v in zip(names, a)}
        d.update(kw)
        if set(d) - set(names):
            raise Unsupported("distribution parameters")
        for n in names:
            d.setdefault(n, 0 if n in ("loc",) else 1)
        return SObj(kind, **d)
    return f


def root(f, x0):
    """scipy.optimize.root: some number at which the function vanishes."""
    core.trust("scipy.optimize.root returns a root of the function it is given (existence and convergence assumed)")
    z = V(False, cx.fresh("root", z3.RealSort()))
    r = num(cx.interp.call(f, [z], {}))
    core.add_axiom_local(zb(b_and(b_not(r.nan), simp(r.v == 0))))
    return SObj("root", x=Arr([Dom([Block(())])], lambda pt: z))


def read_csv(*a, **kw):
    """Contents of a file: as the contract says."""
    f = getattr(getattr(cx, "world", None), "read_csv", None)
    if f is None:
        raise Unsupported("read_csv")
    return f(*a, **kw)


def binom(n, k):
    core.trust("scipy.special.binom is a function of its arguments (uninterpreted)")
    n, k = num(n), num(k)
    if n.v is None or k.v is None:
        return NAN
    return V(b_or(n.nan, k.nan), core.uf("binom", 2)(n.v, k.v))


def allclose(a, b, rtol=1e-05, atol=1e-08, equal_nan=False):
    """numpy.allclose, elementwise: |a - b| <= atol + rtol * |b|, false for a missing value."""
    if equal_nan is not False:
        raise Unsupported("allclose")

    def close(x, y):
        x, y = num(x), num(y)
        lim = s_bin("+", num(atol), s_bin("*", num(rtol), s_un("abs", y)))
        return b_and(b_not(x.nan), b_not(y.nan), s_cmp("<=", s_un("abs", s_bin("-", x, y)), lim))
    if P.is_container(a) or P.is_container(b):
        return P.np_all(P.elementwise(close, a, b))
    return close(a, b)


def _el(f):
    return lambda x, **kw: P.elementwise(f, x)


def _bin(op):
    return lambda a, b: P.binop(op, a, b)


def _roll(a, shift=None, **kw):
    d, f = domfn(a)
    bl = d.single()
    n = bl.sizes[0]
    k = toint(shift)
    if not isinstance(k, int) or abs(k) != 1:
        raise Unsupported("np.roll")
    return Arr([model.plain(d)], lambda pt: ite(simp(zi(pt[1][0]) == (n - 1 if k == -1 else 0)), lambda: f((0, (0 if k == -1 else sz(zi(n) - 1),))),
                                                lambda: f((0, (sz(zi(pt[1][0]) - k),)))))


LIB = {
    "pandas.read_csv": read_csv,
    "numpy.nan": NAN, "numpy.NaN": NAN, "numpy.NAN": NAN, "numpy.inf": Opaque("inf"), "numpy.pi": Opaque("pi"),
    "numpy.isnan": P.np_isnan, "pandas.isnull": P.np_isnan, "pandas.isna": P.np_isnan,
    "pandas.notnull": lambda x: P.lnot(P.np_isnan(x)), "pandas.notna": lambda x: P.lnot(P.np_isnan(x)),
    "numpy.where": P.np_where, "numpy.flip": np_flip, "numpy.sort": P.np_sort, "numpy.unique": P.np_unique, "numpy.append": P.np_append, "numpy.cumprod": P.np_cumprod, "numpy.cumsum": P.np_cumsum,
    "numpy.asarray": P.np_asarray, "numpy.array": P.np_asarray, "numpy.sum": P.np_sum, "numpy.min": P.np_min, "numpy.max": P.np_max,
    "numpy.amin": P.np_min, "numpy.amax": P.np_max,
    "numpy.sqrt": _el(lambda x: s_un("sqrt", x)), "numpy.log": _el(lambda x: P.logv(x)), "numpy.exp": _el(lambda x: s_un("exp", x)),
    "numpy.abs": _el(lambda x: _abs(x)), "numpy.absolute": _el(lambda x: _abs(x)), "numpy.floor": _el(lambda x: s_un("floor", x)),
    "numpy.square": _el(lambda x: s_bin("**", x, 2)),
    "numpy.logical_and": lambda a, b: P.logic("and", a, b), "numpy.logical_or": lambda a, b: P.logic("or", a, b),
    "numpy.logical_not": lambda a: P.lnot(a),
    "numpy.all": P.np_all, "numpy.any": P.np_any, "numpy.clip": P.np_clip, "numpy.percentile": P.np_percentile, "numpy.nan_to_num": P.np_nan_to_num,
    "numpy.power": lambda a, b: P.binop("**", a, b), "numpy.multiply": _bin("*"), "numpy.divide": _bin("/"), "numpy.add": _bin("+"),
    "numpy.subtract": _bin("-"), "numpy.true_divide": _bin("/"),
    "numpy.maximum": lambda a, b: P.elementwise(lambda x, y: P.minmax2(x, y, True), a, b),
    "numpy.minimum": lambda a, b: P.elementwise(lambda x, y: P.minmax2(x, y, False), a, b),
    "numpy.tile": P.np_tile, "numpy.divmod": P.np_divmod,
    "numpy.errstate": lambda **kw: SObj("errstate"), "numpy.roll": _roll,
    "numpy.ones": lambda n, **kw: Arr([Dom([Block((n,))])], lambda pt: 1),
    "numpy.zeros": lambda n, **kw: Arr([Dom([Block((n,))])], lambda pt: 0),
    "numpy.arange": lambda *a: (lambda r: Arr([Dom([Block((cx.interp.length(r),))])], lambda pt: domfn(r)[1](pt)) if isinstance(r, SymRange) else P.np_asarray(r))(_range(*a)),
    "numpy.float64": lambda x: num(x), "numpy.int64": lambda x: _int(x),
    "numpy.mean": lambda x, **kw: P.red_mean(*domfn(x), skipna=isinstance(x, Series)),
    "pandas.Series": P.make_series, "pandas.DataFrame": P.df_from, "pandas.melt": P.df_melt, "pandas.concat": P.pd_concat,
    "pandas.merge": lambda l, r, **kw: P.df_merge(l, r, **kw),
    "functools.reduce": _reduce, "functools.partial": lambda f, *a, **kw: Partial(f, a, kw), "itertools.product": _product,
    "scipy.stats.norm": mk_dist("norm", ["loc", "scale"]), "scipy.stats.lognorm": mk_dist("lognorm", ["s", "loc", "scale"]),
    "scipy.stats.gmean": P.gmean, "numpy.random.RandomState": P.Stream, "scipy.optimize.root": lambda f, x0=0, **kw: root(f, x0),
    "numpy.allclose": allclose, "numpy.isclose": lambda a, b, **kw: P.elementwise(lambda x, y: allclose(x, y, **kw), a, b),
    "numpy.random.rand": lambda: V(False, cx.fresh("random", z3.RealSort())), "scipy.special.binom": lambda n, k: P.elementwise(binom, n, k),
}


OWN_LIB = {"pandas.read_csv", "numpy.tile", "numpy.random.RandomState", "numpy.errstate", "functools.partial", "pandas.merge", "pandas.concat"}
for _n in LIB:
    if callable(LIB[_n]) and not isinstance(LIB[_n], type):
        LIB[_n] = P.strict(LIB[_n], own=_n in OWN_LIB or _n.startswith("scipy.stats.") and _n != "scipy.stats.gmean")
