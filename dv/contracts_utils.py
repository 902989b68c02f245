"""Contracts of the dataset loaders.  The file behind a path is an arbitrary table with the columns of the bundled files; reading
the same path gives the same table (assumed contract of pandas.read_csv; the bounded part reads the bundled files)."""
import itertools
import z3
import core
import pdops as P
import interp as I
from core import V, NAN, SStr, PyRaise, cx, simp, b_and, b_or, b_not, zi, zb, hyp
from model import Dom, Block, DF, const_block, freshint, exists
from contracts import contract, summary, one

INT = z3.IntSort()
LRDB = ("loss_key", "grcode", "grname", "ay", "origin", "dev", "incrd_loss", "paid_loss", "train_ind")


class File:
    """M records in file order; text columns hold arbitrary strings (known by number), the others arbitrary whole numbers."""
    def __init__(self, names, text=()):
        self.M, self.names, self.text = z3.Int("M"), names, text
        cx.hyps.append(self.M >= 1)
        self.f = {c: z3.Function("col_" + c, INT, INT) for c in names}
        self.df = DF(Dom([Block((self.M,))]), Dom([const_block(c) for c in names]), lambda r, c: self.at(names[c[0]], one(r)))

    def at(self, c, r):
        x = self.f[c](zi(r))
        return SStr("text", (x,)) if c in self.text else V(False, z3.ToReal(x))

    def copy(self):
        return DF(self.df.rows, self.df.cols, self.df.cell)


@summary("totri")
def s_totri(ip, w, args, kw):
    if getattr(w, "file", None) is None:
        return NotImplemented
    kw = dict(kw)
    names = ["data", "tri_type", "data_format", "data_shape", "origin", "dev", "value"]
    for a, n in zip(args, names):
        kw[n] = a
    t, data = kw.pop("tri_type", "cum"), kw.pop("data")
    defaults = dict(data_format="incr", data_shape="tabular", origin="origin", dev="dev", value="value")
    if any(v != defaults.get(k) for k, v in kw.items()):
        return NotImplemented
    return P.SObj("the triangle defined by", records=data, tri_type=t)


def world(w, names, text, path):
    w.file = f = File(names, text)

    def read_csv(p, sep=",", delimiter=None, **kw):
        if p != path or kw or (delimiter or sep) != ",":
            raise core.Unsupported("read_csv")
        return f.copy()
    w.read_csv = read_csv
    return f


def selected(ck, f, df, keep, value):
    """df holds origin, dev and value of exactly the records of the file with keep(r), in file order, numbered from 0."""
    o = ck.ob("the records are a frame")
    if not isinstance(df, DF):
        o.add("undecided", "got {!r}".format(df))
        return
    o.add("proved")
    ck.goal("columns are origin, dev and value", [b.lab() if b.k == 0 else None for b in df.cols.blocks] == ["origin", "dev", "value"])
    if len(df.cols.blocks) != 3 or len(df.rows.blocks) != 1 or df.rows.blocks[0].k != 1:
        ck.ob("rows").add("undecided", "shape {!r}".format(df.rows))
        return
    b = df.rows.blocks[0]
    ck.goal("every record of the file is a candidate", zi(b.sizes[0]) == zi(f.M))
    ck.ob("rows are numbered from 0 in file order").add("proved" if b.lab is None and b.order in (None, (0,)) else "undecided", "labels {!r} order {!r}".format(b.lab, b.order))
    r = freshint("r")
    with hyp(r >= 0, r < f.M):
        ck.goal("exactly the matching records are kept", zb(b.present([r])) == zb(keep(r)))
        for k, c in enumerate(("origin", "dev", value)):
            ck.value(("origin", "dev", "value")[k] + " of a record", df.cell((0, (r,)), (k, ())), f.at(c, r))


def outcome(ck, res, f, keep, value, tri):
    if tri is None:
        selected(ck, f, res, keep, value)
        return
    ok = isinstance(res, P.SObj) and res.kind == "the triangle defined by"
    ck.ob("the result is the triangle of the records").add("proved" if ok else "undecided", "got {!r}".format(res))
    if ok:
        ck.value("triangle type", res.kw["tri_type"], tri)
        selected(ck, f, res.kw["records"], keep, value)


def _load(tri):
    @contract("_load", "C20", tag=" [{}]".format(tri or "records"))
    def c(w, ck):
        f = world(w, ("origin", "dev", "value", "note"), ("note",), "the path")
        ref = P.PyDict({"other": "another path", "chosen": "the path"})
        st = f.df.state()
        res = ck.call("_load", ["chosen"], dict(dataref=ref, **({"tri_type": tri} if tri else {})))
        outcome(ck, res, f, lambda r: True, "value", tri)


for _t in (None, "cum", "incr"):
    _load(_t)


@contract("_load", "C20", tag=" [unknown dataset or type]")
def c_unknown(w, ck):
    world(w, ("origin", "dev", "value", "note"), ("note",), "the path")
    ref = P.PyDict({"other": "another path", "chosen": "the path"})
    ck.raises("an unknown dataset is rejected with KeyError", lambda: ck.call("_load", ["missing"], dict(dataref=ref)), "KeyError")
    ck.raises("an unknown triangle type is rejected with ValueError",
              lambda: ck.call("_load", ["chosen"], dict(dataref=ref, tri_type="square")), "ValueError")


FILTERS = (("lob", "loss_key"), ("grcode", "grcode"), ("grname", "grname"))


def _lrdb(given, train, loss, tri):
    tag = " [{}; {}; {}{}]".format(", ".join(given) or "no filter", "training" if train else "all", loss, "; " + tri if tri else "")

    @contract("_load_lrdb", "C20", tag=tag)
    def c(w, ck):
        f = world(w, LRDB, ("loss_key", "grname"), "the path")
        ref = P.PyDict({"other": "another path", "lrdb": "the path"})
        want, kw = {}, dict(dataref=ref, train_only=train, loss_type=loss)
        for a, col in FILTERS:
            x = z3.Int("sel_" + a)
            kw[a] = None
            if a in given:
                kw[a] = SStr("text", (x,)) if col in f.text else V(False, z3.ToReal(x))
                want[col] = x
        if tri:
            kw["tri_type"] = tri
        match = lambda r: b_and(*[simp(f.f[c](zi(r)) == x) for c, x in want.items()])
        keep = lambda r: b_and(match(r), simp(f.f["train_ind"](zi(r)) == 1)) if train else match(r)
        some = exists(match, 0, f.M) if want else True
        try:
            res = ck.call("_load_lrdb", [], kw)
        except PyRaise as e:
            ck.goal("an exception is a ValueError", e.etype == "ValueError")
            ck.goal("only an invalid selection is rejected", b_not(some))
            return
        ck.goal("an invalid selection is rejected", some)
        outcome(ck, res, f, keep, {"i": "incrd_loss", "p": "paid_loss"}[loss[0]], tri)


_k = 0
for _g in itertools.product((0, 1), repeat=3):
    for _tr in (True, False):
        _lrdb(tuple(a for (a, c), b in zip(FILTERS, _g) if b), _tr, ("incurred", "paid")[_k % 2], None)
        _k += 1
    _k += 1
_lrdb(("lob", "grcode"), True, "incurred", "cum")
_lrdb(("lob", "grcode"), True, "paid", "incr")


@contract("_load_lrdb", "C20", tag=" [unknown loss or triangle type]")
def c_unknown2(w, ck):
    world(w, LRDB, ("loss_key", "grname"), "the path")
    ref = P.PyDict({"lrdb": "the path"})
    none = dict(lob=None, grcode=None, grname=None, dataref=ref)
    ck.raises("an unknown loss type is rejected with ValueError", lambda: ck.call("_load_lrdb", [], dict(loss_type="reserved", **none)), "ValueError")
    ck.raises("an unknown triangle type is rejected with ValueError", lambda: ck.call("_load_lrdb", [], dict(tri_type="square", **none)), "ValueError")
