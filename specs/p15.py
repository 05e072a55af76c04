"""P15: readers deliver the content of their source, every record once and unchanged.

Ghost: the records of the source are numbered; what a reader returns is a sequence of those numbers, of unbounded length."""
from __future__ import annotations

import types

from .common import *
from .p04 import fa
from dv import maps
from dv.arrays import SymArray
from dv.core import Sym, need
from dv.maps import Seq, SymDict, SymRng

I = z3.IntSort()
B = z3.BoolSort()


def hooked(mod, **hooks):
    """builtins of the module's code for this harness (one process per harness)"""
    d = types.SimpleNamespace(**vars(mod.__dict__["__dv__"]))
    for k, v in hooks.items():
        setattr(d, k, v)
    mod.__dict__["__dv__"] = d


# ---------------------------------------------------------------- pieces of a text
class Piece(Sym):
    """characters [lo, hi) of the text"""
    rep_type = str

    def __init__(self, lo, hi):
        self.lo, self.hi = lo, hi

    def _dv_len(self):
        return SymNum(self.hi - self.lo, "int")

    def _dv_pieces(self, n, k):
        """a list of n pieces of which this is the k-th, for any k"""
        sub = lambda e, i: z3.substitute(e, (k, i))
        return Pieces(n, lambda i: Piece(sub(self.lo, i), sub(self.hi, i)))

    def __bool__(self):
        return Ctx.cur.branch(self.hi > self.lo, "a piece with characters")


class Pieces(Sym):
    rep_type = list

    def __init__(self, n, at):
        self.n, self.at = n, at


class Content(Sym):
    rep_type = str

    def __init__(self, n):
        self.n = n

    def _dv_len(self):
        return SymNum(self.n, "int")

    def __bool__(self):
        return Ctx.cur.branch(self.n > 0, "a text with characters")

    def __getitem__(self, s):
        if not isinstance(s, slice) or s.step is not None:
            Ctx.cur.stop(Unsupported("character of a text"))

        def end(v, d):
            if v is None:
                return d
            e = num_expr(v)
            e = z3.If(e < 0, z3.If(e + self.n < 0, z3.IntVal(0), e + self.n), e)
            return z3.If(e > self.n, self.n, e)
        lo, hi = end(s.start, z3.IntVal(0)), end(s.stop, self.n)
        return Piece(lo, z3.If(hi < lo, lo, hi))


def text_pieces(ctx):
    mod = env().mod("data_readers.text_data")
    C = need(mod, "TextData")
    f = need(C, "_get_data_as_text")
    n, per = ctx.fresh("characters", I), ctx.fresh("per piece", I)
    ctx.assume(z3.And(n >= 0, per >= 1))
    ctx.inputs["characters"], ctx.inputs["per piece"] = SymNum(n, "int"), SymNum(per, "int")
    o = object.__new__(C)
    o._samples_per_line = SymNum(per, "int")
    r = f(o, Content(n))
    ctx.alive()
    if isinstance(r, Pieces):
        ctx.run.cover("pieces")
        k = ctx.fresh("k", I)
        ctx.assume(z3.And(0 <= k, k < r.n))
        a, b = r.at(k), r.at(k + 1)
        ctx.prove("no piece is empty", a.lo < a.hi)
        ctx.prove("no piece is longer than asked for", a.hi - a.lo <= per)
        ctx.prove("all but the last have the length asked for", z3.Implies(k + 1 < r.n, a.hi - a.lo == per))
        ctx.prove("the next piece continues where this one ends", z3.Implies(k + 1 < r.n, b.lo == a.hi))
        ctx.prove("the first piece starts at the beginning", z3.Implies(k == 0, a.lo == 0))
        ctx.prove("the last piece ends at the end", z3.Implies(k == r.n - 1, a.hi == n))
    else:
        ctx.run.cover("no pieces")
        ctx.prove("nothing of an empty text", z3.And(n == 0, num_expr(SymNum(r.n, "int") if isinstance(r, SymArray) else len(r)) == 0))


# ---------------------------------------------------------------- batches
class Records(Sym):
    """numbered records: record k is the number k"""
    rep_type = list

    def __init__(self, n):
        self.n = n

    def _dv_len(self):
        return SymNum(self.n, "int")

    def __getitem__(self, k):
        e = num_expr(k)
        # -1 is no record (the code itself would raise)
        return SymNum(z3.If(z3.And(-self.n <= e, e < self.n), z3.If(e < 0, e + self.n, e), z3.IntVal(-1)), "int")


class Table(Sym):
    def __init__(self, n, rep):
        self.n, self.rep_type = n, rep

    def _dv_len(self):
        return SymNum(self.n, "int")

    @property
    def iloc(self):
        return self

    def __getitem__(self, k):
        if isinstance(k, tuple):
            if len(k) != 2 or k[1] != slice(None):
                Ctx.cur.stop(Unsupported("selection of columns"))
            k = k[0]
        if not isinstance(k, SymArray):
            Ctx.cur.stop(Unsupported("selection of rows"))
        j, c = Ctx.cur.fresh("j", I), Ctx.cur
        c.prove("rows selected exist", z3.Implies(z3.And(0 <= j, j < k.n), z3.And(-self.n <= k._at(j), k._at(j) < self.n)))
        return SymArray(k.n, lambda i: z3.If(k._at(i) < 0, k._at(i) + self.n, k._at(i)), "int", name="rows")


def batch_invariants(loop, vars, slots, i):
    out = []
    p = z3.Int("p!")
    arrs = {k: v for k, v in {**loop.locs0, **vars}.items() if isinstance(v, SymArray)}
    ints = {k: v.e for k, v in loop.locs0.items() if isinstance(v, SymNum) and v.e.sort() == I and z3.is_const(v.e)}
    for sn, s in slots.items():
        if not isinstance(s, Seq):
            continue
        for an, a in arrs.items():
            if i is not None:
                for w, e in ints.items():
                    out.append((f"|{sn}| == min(len({an}), i*{w})", s.n == z3.If(i.e * e <= a.n, i.e * e, a.n)))
            for w, v in vars.items():
                if isinstance(v, (SymNum, int)) and not isinstance(v, bool) and num_expr(v).sort() == I:
                    e = num_expr(v)
                    out.append((f"|{sn}| == min(len({an}), {w})", s.n == z3.If(e <= a.n, e, a.n)))
            out.append((f"{sn} is a prefix of {an}", z3.ForAll(
                [p], z3.Implies(z3.And(0 <= p, p < s.n), z3.Select(s.arr, p) == a._at(p)), patterns=[z3.Select(s.arr, p)])))
    return out


def batches(frame):
    def run(ctx):
        mod = env().mod("data_readers.base_data")
        C = need(mod, "BaseData")
        f = need(C, "get_batch_generator")
        rng = SymRng()
        mod.np = types.SimpleNamespace(random=types.SimpleNamespace(permutation=rng.permutation, default_rng=lambda *a: rng))
        n, size = ctx.fresh("records", I), ctx.fresh("batch size", I)
        ctx.assume(z3.And(n >= 0, size >= 1))
        ctx.inputs["records"], ctx.inputs["batch size"] = SymNum(n, "int"), SymNum(size, "int")
        o = object.__new__(C)
        o._data = Table(n, mod.pd.DataFrame) if frame else Records(n)
        o._data_formats, o._selected_data_format = {}, None
        out = Seq()
        ctx.run.ghosts = {"produced": out}
        for b in f(o, SymNum(size, "int")):
            ctx.alive()
            ctx.run.cover("a batch is produced")
            left = n - out.n
            ctx.prove("batch length: the size asked for, or what is left", b.n == z3.If(size <= left, size, left))
            ctx.prove("no empty batch", b.n >= 1)
            c, d, p = (ctx.fresh(x, I) for x in ("c", "d", "p"))
            x, y = b._at(c), b._at(d)
            inc = z3.And(0 <= c, c < b.n)
            ctx.prove("records of the data", z3.Implies(inc, z3.And(0 <= x, x < n)))
            ctx.prove("no record twice in a batch", z3.Implies(z3.And(inc, 0 <= d, d < b.n, c != d), x != y))
            ctx.prove("no record of an earlier batch again", z3.Implies(z3.And(inc, 0 <= p, p < out.n), z3.Select(out.arr, p) != x))
            out.extend(b)
        ctx.alive()
        ctx.run.cover("exhausted")
        ctx.prove("all records are produced", out.n == n)
    return run


# ---------------------------------------------------------------- JSON lines
class Line(Sym):
    rep_type = str

    def __init__(self, i):
        self.i = i

    def __bool__(self):
        return Ctx.cur.branch(z3.Not(Ctx.cur.run.ghosts["blank"](self.i)), "a line with characters")


class Record(Sym):
    rep_type = object

    def __init__(self, i):
        self.i = i


class Source(Sym):
    """an iterator over numbered lines"""

    def __init__(self, n):
        self.n, self.pos = n, z3.IntVal(0)

    def _dv_content(self):
        return (self.pos.get_id(),)

    def _dv_freeze(self):
        s = Source(self.n)
        s.pos = self.pos
        return s

    def __deepcopy__(self, memo):
        return self._dv_freeze()

    def _dv_havoc(self, loop, path):
        c = Ctx.cur
        self.pos = c.fresh(path + ".position", I)

    def _dv_next(self, *d):
        c = Ctx.cur
        if not c.branch(self.pos < self.n, "another line"):
            if d:
                return d[0]
            raise StopIteration
        i = self.pos
        g = c.run.ghosts
        if "rank" in g:
            c.assume(g["rank"](i + 1) == g["rank"](i) + z3.If(good(i), 1, 0))
        self.pos = i + 1
        return Line(i)

    def _dv_iter_source(self):
        return self


def good(i):
    g = Ctx.cur.run.ghosts
    return z3.And(z3.Not(g["blank"](i)), g["valid"](i))


class Found(Sym):
    """a list of records"""
    rep_type = list

    def __init__(self):
        self.n, self.arr = z3.IntVal(0), z3.K(I, z3.IntVal(-1))

    def append(self, r):
        if not isinstance(r, (Record, Line)):
            Ctx.cur.stop(Unsupported("something else in a list of records"))
        self.arr, self.n = z3.Store(self.arr, self.n, r.i), z3.simplify(self.n + 1)

    def _dv_len(self):
        return SymNum(self.n, "int")

    def __bool__(self):
        return Ctx.cur.branch(self.n > 0, "records were found")

    def _dv_content(self):
        return (self.n.get_id(), self.arr.get_id())

    def copy(self):
        r = Found()
        r.n, r.arr = self.n, self.arr
        return r

    _dv_freeze = copy

    def __deepcopy__(self, memo):
        return self.copy()

    def _dv_havoc(self, loop, path):
        c = Ctx.cur
        self.n, self.arr = c.fresh(path + ".length", I), c.fresh(path + ".at", z3.ArraySort(I, I))


def json_invariants(loop, vars, slots, i):
    g = Ctx.cur.run.ghosts
    if "rank" not in g:
        return []
    q, rank, src = g["q"], g["rank"], g["source"]
    out = [("position within", z3.And(0 <= src.pos, src.pos <= src.n))]
    for n, s in {**slots, **vars}.items():
        if isinstance(s, Found):
            out += [(f"{n}: as many as good lines so far", z3.And(s.n == rank(src.pos), s.n >= 0)),
                    (f"{n}: good line q is at its place", z3.Implies(z3.And(q < src.pos, good(q)), z3.And(rank(q) < s.n, z3.Select(s.arr, rank(q)) == q))),
                    (f"{n}: line q is counted", z3.Implies(q < src.pos, z3.And(rank(q) <= s.n, rank(q) >= 0)))]
    for n, v in vars.items():
        if isinstance(v, (SymNum, int)) and not isinstance(v, bool) and num_expr(v).sort() == I:
            out += [(f"{n} counts lines", z3.And(num_expr(v) >= 0, num_expr(v) <= src.pos)), (f"{n} counts good lines", num_expr(v) >= rank(src.pos))]
    return out


def json_lines(name):
    def run(ctx):
        mod = env().mod("data_readers.data_utils")
        f = need(mod, name)
        n, q = ctx.fresh("lines", I), ctx.fresh("q", I)
        ctx.assume(z3.And(n >= 0, 0 <= q, q < n))
        ctx.inputs["lines"], ctx.inputs["q"] = SymNum(n, "int"), SymNum(q, "int")
        rank = z3.Function("rank", I, I)
        src = Source(n)
        ctx.run.ghosts = {"blank": z3.Function("blank", I, B), "valid": z3.Function("valid", I, B), "rank": rank, "q": q, "source": src}
        ctx.assume(rank(0) == 0)

        def loads(raw, **k):
            if not isinstance(raw, Line):
                Ctx.cur.stop(Unsupported("parsing something else than a line"))
            if Ctx.cur.branch(good(raw.i), "valid JSON"):
                return Record(raw.i)
            raise ValueError("not JSON")
        hooked(mod, list=lambda x=(): Found() if isinstance(x, (tuple, list)) and not x else ctx.stop(Unsupported("list")), mklist=lambda x: Found() if not x else x)
        mod.json = types.SimpleNamespace(loads=loads, JSONDecodeError=ValueError)
        mod.json_to_dataframe = lambda lines, *a, **k: lines
        try:
            r = f(src, None, False)
        except ValueError:
            ctx.alive()
            ctx.run.cover("nothing to read")
            ctx.prove("refused only without a single valid record", rank(src.pos) == 0)
            ctx.prove("refused only after all lines", src.pos == n)
            return
        ctx.alive()
        ctx.run.cover("read")
        ctx.prove("a list of records", isinstance(r, Found))
        ctx.prove("all lines are read", src.pos == n)
        ctx.prove("one record per valid line", r.n == rank(n))
        ctx.prove("each valid line at its place", z3.Implies(good(q), z3.Select(r.arr, rank(q)) == q))
    return run


# ---------------------------------------------------------------- reservoir
class Values(Found):
    """a list of lines that is also changed in place; -1 marks what is not a line"""

    def copy(self):
        r = Values()
        r.n, r.arr = self.n, self.arr
        return r

    _dv_freeze = copy

    def __deepcopy__(self, memo):
        return self.copy()

    def _pos(self, k):
        e = num_expr(k)
        return z3.If(e < 0, e + self.n, e)

    def __getitem__(self, k):
        e = num_expr(k)
        # -1 is no line (the code itself would raise)
        return SymNum(z3.If(z3.And(-self.n <= e, e < self.n), z3.Select(self.arr, self._pos(k)), z3.IntVal(-1)), "int")

    def __setitem__(self, k, v):
        e = self._pos(k)
        Ctx.cur.prove("the position is in the list", z3.And(0 <= e, e < self.n))
        self.arr = z3.Store(self.arr, e, v.i if isinstance(v, Line) else z3.IntVal(-1))


class Index(SymDict):
    """dictionary of positions; an absent key gives a position no list has (the code itself would raise)"""

    def __getitem__(self, k):
        e = num_expr(k)
        return SymNum(z3.If(z3.Select(self.has, e), z3.Select(self.val, e), z3.IntVal(-10 ** 30)), "int")

    def _dv_freeze(self):
        d = Index.__new__(Index)
        d.has, d.val = self.has, self.val
        return d


class Slice(Sym):
    """islice over the source"""

    def __init__(self, src, lo, hi):
        self.src, self.lo, self.hi = src, lo, hi

    def _dv_list(self):
        c = Ctx.cur
        lo, hi = num_expr(self.lo), num_expr(self.hi)
        s = self.src
        v = Values()
        left = s.n - s.pos - lo
        want = hi - lo
        v.n = z3.If(left < 0, z3.IntVal(0), z3.If(want < left, want, left))
        arr = c.fresh("first lines", z3.ArraySort(I, I))
        p = z3.Int("p!")
        start = s.pos + lo
        c.assume(z3.ForAll([p], z3.Implies(z3.And(0 <= p, p < v.n), z3.Select(arr, p) == start + p), patterns=[z3.Select(arr, p)]))
        v.arr = arr
        n = c.fresh("lines kept", I)
        c.assume(n == v.n)
        v.n = n
        s.pos = z3.If(s.pos + hi < s.n, s.pos + hi, s.n)
        return v

    def _dv_next(self, *d):
        c = Ctx.cur
        s, lo, hi = self.src, num_expr(self.lo), num_expr(self.hi)
        c.prove("lines to skip", lo >= 0)
        if not c.branch(z3.And(lo < hi, s.pos + lo < s.n), "a line after those skipped"):
            s.pos = z3.If(s.pos + lo < s.n, s.pos + lo, s.n)
            if d:
                return d[0]
            raise StopIteration
        i = s.pos + lo
        s.pos = i + 1
        return Line(i)


class Draw(Sym):
    """a random number in (0, 1)"""

    def __init__(self, ctx):
        self.e = ctx.fresh("draw", z3.RealSort())

    def __pow__(self, k):
        return SymNum(Ctx.cur.fresh("power", z3.RealSort()), "float")


class Rng(SymRng):
    def random(self):
        return Draw(Ctx.cur)


def reservoir_invariants(loop, vars, slots, i):
    g = Ctx.cur.run.ghosts
    src, m0 = g.get("source"), g.get("asked")
    if m0 is None:
        return []
    p, q = z3.Ints("p! q!")
    allv = {**loop.locs0, **slots, **vars}
    out = [("position within", z3.And(0 <= src.pos, src.pos <= src.n))]
    for dn, d in allv.items():
        if not isinstance(d, SymDict):
            continue
        for vn, v in allv.items():
            if not isinstance(v, Values):
                continue
            m = g["kept"]
            at = lambda x: z3.Select(v.arr, d.total(x))
            rng = z3.And(0 <= p, p < m)
            out += [(f"{dn} into {vn}", z3.ForAll([p], z3.Implies(rng, z3.And(0 <= d.total(p), d.total(p) < v.n, z3.Select(d.has, p))), patterns=[z3.Select(d.val, p)])),
                    (f"{vn} of {dn}: lines read", z3.ForAll([p], z3.Implies(rng, z3.And(0 <= at(p), at(p) < src.pos)), patterns=[z3.Select(d.val, p)])),
                    (f"{dn} distinct", z3.ForAll([p, q], z3.Implies(z3.And(0 <= p, p < q, q < m), z3.And(d.total(p) != d.total(q), at(p) != at(q))),
                                                patterns=[z3.MultiPattern(z3.Select(d.val, p), z3.Select(d.val, q))])),
                    (f"{vn}: at least those kept", v.n >= m),
                    ("all lines kept when there are no more than asked for", z3.Implies(m < m0, src.pos == src.n))]
    return out


def reservoir(ctx):
    mod = env().mod("data_readers.data_utils")
    f = need(mod, "reservoir")
    n, k = ctx.fresh("lines", I), ctx.fresh("asked for", I)
    ctx.assume(z3.And(n >= 0, k >= 1))
    ctx.inputs["lines"], ctx.inputs["asked for"] = SymNum(n, "int"), SymNum(k, "int")
    src = Source(n)
    kept = z3.If(n < k, n, k)
    ctx.run.ghosts = {"source": src, "asked": k, "kept": kept}
    fresh_int = lambda *a: SymNum(_nonneg(ctx), "int")
    mod.floor, mod.log, mod.log1p = fresh_int, lambda x: SymNum(Ctx.cur.fresh("log", z3.RealSort()), "float"), lambda x: SymNum(_negative(), "float")
    mod.rng_utils = types.SimpleNamespace(get_random_number_generator=lambda: Rng())

    def islice(it, *a):
        if not isinstance(it, Source) or len(a) > 2:
            Ctx.cur.stop(Unsupported("slice of something else"))
        return Slice(it, 0, a[0]) if len(a) == 1 else Slice(it, a[0], a[1])
    mod.islice = islice

    def dict_(x=()):
        c = Ctx.cur
        its = getattr(x, "its", None)
        if its is None or len(its) != 2:
            c.stop(Unsupported("dictionary"))
        d = Index()
        size = num_expr(its[0].length)
        p = z3.Int("p!")
        a, b = (num_expr(t.at(SymNum(p, "int"))) for t in its)
        c.prove("positions are paired with themselves", z3.And(z3.ForAll([p], z3.And(a == p, b == p)), num_expr(its[1].length) >= size))
        d.has = c.fresh("paired", z3.ArraySort(I, B))
        c.assume(z3.ForAll([p], z3.Select(d.has, p) == z3.And(0 <= p, p < size), patterns=[z3.Select(d.has, p)]))
        return d
    hooked(mod, dict=dict_, iter=lambda x: x)
    r = f(src, SymNum(k, "int"))
    ctx.alive()
    ctx.run.cover("sampled")
    ctx.prove("as many lines as asked for, or all", r.n == kept)
    a, b = ctx.fresh("a", I), ctx.fresh("b", I)
    ctx.assume(z3.And(0 <= a, a < r.n, 0 <= b, b < r.n, a != b))
    x, y = r._at(a), r._at(b)
    ctx.prove("lines of the file", z3.And(0 <= x, x < n))
    ctx.prove("no line twice", x != y)


def _nonneg(ctx):
    v = Ctx.cur.fresh("skip", I)
    Ctx.cur.assume(v >= 0)
    return v


def _negative():
    v = Ctx.cur.fresh("log1p", z3.RealSort())
    Ctx.cur.assume(v < 0)
    return v


# ---------------------------------------------------------------- buffers
def buffers(ctx):
    import io
    mod = env().mod("data_readers.filepath_or_buffer")
    C = need(mod, "FileOrBufferHandler")
    off = ctx.fresh("offset", I)
    ctx.assume(off >= 0)

    class Log:
        def __init__(self, *a, **k):
            self.pos, self.closed, self.read, self.detached = 0, False, 0, False

        def seek(self, o, whence=0):
            self.pos = o

        def close(self):
            self.closed = True

    class Bytes(Log):
        pass

    class Chars(Log):
        pass

    class Wrapper(Log):
        def __init__(self, b, encoding=None):
            super().__init__()
            self.buffer, self.encoding = b, encoding

        def detach(self):
            self.detached = True
            return self.buffer

        def seek(self, o, whence=0):
            self.buffer.pos = o

        def close(self):
            self.closed = self.buffer.closed = True
    mod.BytesIO, mod.StringIO, mod.TextIOWrapper = Bytes, Chars, Wrapper
    opened = []

    def open_(path, mode="r", encoding=None, **k):
        b = Log()
        b.how = (path, mode, encoding)
        opened.append(b)
        return b
    hooked(mod, open=open_)
    for kind in ("path", Bytes, Chars):
        for mode in ("r", "rb"):
            for seek in (None, SymNum(off, "int")):
                arg = "path" if kind == "path" else kind()
                if kind != "path":
                    arg.pos = SymNum(ctx.fresh("position", I), "int")
                p0 = getattr(arg, "pos", None)
                for raises in (False, True):
                    del opened[:]
                    h = C(arg, mode, encoding="utf-8", seek_offset=seek)
                    try:
                        with h as fh:
                            if kind == "path":
                                ctx.prove("the file asked for is opened as asked for", len(opened) == 1 and fh is opened[0] and fh.how == ("path", mode, "utf-8"))
                                at = fh.pos
                            elif kind is Bytes and mode == "r":
                                ctx.prove("bytes are read as text in the encoding given", isinstance(fh, Wrapper) and fh.buffer is arg and fh.encoding == "utf-8")
                                at = arg.pos
                            else:
                                ctx.prove("the buffer itself is read", fh is arg)
                                at = arg.pos
                            if seek is not None:
                                ctx.prove("reading starts at the offset", num_expr(at) == off)
                            if raises:
                                raise KeyError
                    except KeyError:
                        pass
                    if kind == "path":
                        ctx.prove("the file is closed", opened[0].closed)
                    else:
                        ctx.prove("the caller's buffer stays open, at its start", not arg.closed and num_expr(arg.pos).eq(z3.IntVal(0)))
                        if kind is Bytes and mode == "r":
                            ctx.prove("and is not owned by the wrapper any more", fh.detached)
                        arg.pos = p0
    ctx.run.cover("read")


PROOFS = {"pieces of a text": (text_pieces, {"covers": ["pieces", "no pieces"]}),
          "batches of records": (batches(False), {"loop_specs": [batch_invariants], "covers": ["a batch is produced", "exhausted"]}),
          "batches of rows": (batches(True), {"loop_specs": [batch_invariants], "covers": ["a batch is produced", "exhausted"]}),
          "JSON lines": (json_lines("read_json"), {"loop_specs": [json_invariants], "covers": ["read", "nothing to read"]}),
          "JSON lines to a frame": (json_lines("read_json_df"), {"loop_specs": [json_invariants], "covers": ["read", "nothing to read"]}),
          "sampled lines": (reservoir, {"loop_specs": [reservoir_invariants], "covers": ["sampled"]}),
          "files and buffers": (buffers, {"covers": ["read"]})}
ASSUMPTIONS = ["json.loads: one value per valid line, ValueError otherwise", "random generators draw from the ranges asked for; a permutation of n is one",
               "itertools.islice skips and takes as documented", "floor(log(u) / log1p(-W)) is a non-negative integer for 0 < u, W < 1"]
TRUSTED = []
