"""C08: reassigning parts never leaves stale derived information."""
import itertools

import numpy

from awkward0 import (BitMaskedArray, ChunkedArray, IndexedArray, IndexedMaskedArray, JaggedArray, MaskedArray, ObjectArray, SparseArray, StringArray, Table, UnionArray, VirtualArray)
from awkward0.array.base import AwkwardArray

from ..core import Violation
from ..obs import norm, observe, text
from ..forms import KINDS, make_point

ID = "C08"
RULE = "breadth-first exploration of every reachable state of one array (its parts and everything it has cached) under reads and reassignments of its parts, each state compared with a freshly built array with the same parts; and of every history of an array and its copy up to a depth; an outcome is non-trivial when the observed derived quantities are distinct"
ASSUMPTIONS = ["offsets of an empty jagged array may start anywhere; trailing negative parents are not significant",
               "while the parts are inconsistent, only operations that need the values are required to fail"]
BOUNDS = {"quick": "all reachable states of one array per class; an array and its copy: all histories of up to 4 operations with a reduced alphabet",
          "thorough": "as quick with the full alphabets, histories of an array and its copy up to 5 operations"}

I = numpy.int64


def ints(*x):
    return numpy.array(x, dtype=I)


class Part(object):
    """A candidate value: `make` builds a fresh real value each time."""

    def __init__(self, label, make):
        self.label, self.make = label, make


def P(label, make):
    return Part(label, make)


def arr(*values, **kw):
    dtype = kw.get("dtype", I)
    return P(repr(list(values)), lambda: numpy.array(values, dtype=dtype))


def arr2(values):
    return P(repr(values), lambda: numpy.array(values, dtype=I))


def kind(k, n):
    return P("%s%d" % (k, n), lambda: KINDS[k].build(list(range(n))))


def val(v):
    return P(repr(v), lambda: v)


class Machine(object):
    name = None
    parts = {}          # name -> candidates; the first of each gives the initial array
    derived = {}        # settable name -> function from a candidate to the parts it sets
    reads = {}          # name -> function(array)
    few = None          # names of candidates used when two arrays are explored together: {part: [positions]}
    hows = ("copy", "deepcopy")

    def assign(self, a, name, value, parts):
        setattr(a, name, value)

    def build(self, parts):
        raise NotImplementedError

    def common(self):
        return {"value": observe, "len": len, "shape": lambda a: a.shape, "dtype": lambda a: a.dtype, "type": lambda a: str(a.type), "reversed": lambda a: observe(a[::-1]), "mask": lambda a: observe(a[numpy.arange(len(a)) % 2 == 0]), "first": lambda a: norm(a[0]), "repr": lambda a: str(a)}


class Jagged(Machine):
    name = "jagged"
    parts = {"starts": [arr(0, 0, 2), arr(1, 3)], "stops": [arr(0, 2, 3), arr(2, 4, 5)], "content": [kind("i8", 3), kind("i8", 5), kind("jag", 5)]}
    derived = {"offsets": [arr(0, 1, 1, 3), arr(1, 4)], "counts": [arr(2, 0, 1), arr(3, 1)], "parents": [arr(0, 0, 2), arr(1, -1, 0, 0, 2)]}
    few = {"starts": [0, 1], "stops": [1], "content": [0, 1], "offsets": [1], "counts": [0], "parents": [1]}

    def build(self, parts):
        return JaggedArray(parts["starts"].make(), parts["stops"].make(), parts["content"].make())

    def expand(self, name, part):
        v = part.make().tolist()
        if name == "offsets":
            starts, stops = v[:-1], v[1:]
        elif name == "counts":
            o = list(itertools.accumulate([0] + v))
            starts, stops = o[:-1], o[1:]
        else:
            n = max(v) + 1
            starts = [v.index(i) if i in v else 0 for i in range(n)]
            stops = [s + v.count(i) for i, s in enumerate(starts)]
        return {"starts": arr(*starts), "stops": arr(*stops)}

    def model(self, parts):
        starts, stops = parts["starts"].make().tolist(), parts["stops"].make().tolist()
        content = norm(parts["content"].make())
        if len(stops) < len(starts) or any(b < a or b > len(content) and b != a for a, b in zip(starts, stops)):
            return None
        return [content[a:b] for a, b in zip(starts, stops)]

    reads = {"offsets": lambda a: a.offsets.tolist() if len(a) else len(a.offsets), "counts": lambda a: a.counts.tolist(), "parents": lambda a: strip(a.parents.tolist()), "localindex": lambda a: observe(a.localindex), "starts": lambda a: a.starts.tolist(), "stops": lambda a: a.stops.tolist(), "iter": lambda a: norm(a)}
    only = {"flatten": lambda a: norm(a.flatten()), "sum": lambda a: norm(a.sum()), "plus": lambda a: observe(a + 1), "compact": lambda a: observe(a.compact()), "index": lambda a: observe(a.index), "argmax": lambda a: norm(a.argmax()), "element": lambda a: norm(a[:, :1]), "copy": lambda a: observe(a.copy())}


def strip(x):
    while x and x[-1] < 0:
        x.pop()
    return x


class Masked(Machine):
    name = "masked"
    parts = {"mask": [arr(True, False, False, dtype=bool), arr(False, True, dtype=bool), arr(False, False, True, True, dtype=bool), P("[2, 0, 0]", lambda: ints(2, 0, 0))], "content": [kind("i8", 3), kind("f8", 4), kind("jag", 4), P("[5, 6]", lambda: [5, 6])], "maskedwhen": [val(True), val(False)]}
    few = {"mask": [0, 1], "content": [0, 1], "maskedwhen": [0, 1]}

    def build(self, parts):
        return MaskedArray(parts["mask"].make(), parts["content"].make(), maskedwhen=parts["maskedwhen"].make())

    def model(self, parts):
        mask, content = [bool(x) for x in parts["mask"].make()], norm(parts["content"].make())
        return None if len(mask) > len(content) else [None if m == parts["maskedwhen"].make() else c for m, c in zip(mask, content)]

    reads = {"boolmask": lambda a: a.boolmask().tolist(), "boolmaskT": lambda a: a.boolmask(maskedwhen=True).tolist(), "isunmasked": lambda a: a.isunmasked.tolist(), "iter": lambda a: norm(a)}
    only = {"plus": lambda a: observe(a + 1), "sum": lambda a: norm(a.sum()), "indexed": lambda a: observe(a.indexed()), "copy": lambda a: observe(a.copy())}


class BitMasked(Masked):
    name = "bitmasked"
    parts = {"mask": [arr(0b01100001, dtype=numpy.uint8), arr(0b10000110, 3, dtype=numpy.uint8), arr(dtype=numpy.uint8)], "content": [kind("i8", 3), kind("f8", 8), kind("i8", 10), kind("i8", 0)], "maskedwhen": [val(True), val(False)], "lsborder": [val(False), val(True)]}
    few = {"mask": [0, 1], "content": [0, 1], "maskedwhen": [1], "lsborder": [0, 1]}

    def build(self, parts):
        return BitMaskedArray(parts["mask"].make(), parts["content"].make(), maskedwhen=parts["maskedwhen"].make(), lsborder=parts["lsborder"].make())

    def model(self, parts):
        raw, content = parts["mask"].make().tolist(), norm(parts["content"].make())
        if len(raw) * 8 < len(content):
            return None
        out = []
        for i, c in enumerate(content):
            bit = raw[i // 8] >> (i % 8 if parts["lsborder"].make() else 7 - i % 8) & 1
            out.append(None if bool(bit) == parts["maskedwhen"].make() else c)
        return out


class IndexedMasked(Masked):
    name = "indexedmasked"
    parts = {"mask": [arr(0, -1, 2), arr(1, 1), arr(3, -1, 0, -5), arr(-5, 0)], "content": [kind("i8", 3), kind("f8", 4), kind("jag", 4)], "maskedwhen": [val(-1), val(1), val(-5)]}
    few = {"mask": [0, 1], "content": [0, 1], "maskedwhen": [0, 1]}

    def build(self, parts):
        return IndexedMaskedArray(parts["mask"].make(), parts["content"].make(), maskedwhen=parts["maskedwhen"].make())

    def model(self, parts):
        mask, content, when = parts["mask"].make().tolist(), norm(parts["content"].make()), parts["maskedwhen"].make()
        if any(m != when and not 0 <= m < len(content) for m in mask):
            return None
        return [None if m == when else content[m] for m in mask]

    reads = {"boolmaskT": lambda a: a.boolmask(maskedwhen=True).tolist(), "isunmasked": lambda a: a.isunmasked.tolist(), "iter": lambda a: norm(a)}


class Indexed(Machine):
    name = "indexed"
    parts = {"index": [arr(2, 0), arr(1, 1, 0, 3), arr(), arr2([[0, 1], [2, 0]])], "content": [kind("i8", 3), kind("f8", 4), kind("jag", 5), P("[5, 6]", lambda: [5, 6])]}
    few = {"index": [0, 1], "content": [0, 1]}

    def build(self, parts):
        return IndexedArray(parts["index"].make(), parts["content"].make())

    def model(self, parts):
        content = norm(parts["content"].make())

        def pick(i):
            return [pick(j) for j in i] if isinstance(i, list) else content[i]
        try:
            return pick(parts["index"].make().tolist())
        except IndexError:
            return None

    reads = {"iter": lambda a: norm(a)}
    only = {"plus": lambda a: observe(a + 1), "copy": lambda a: observe(a.copy())}


class IndexedTable(Machine):
    """column assignment through the index uses (and caches) the inverse of the index"""

    name = "indexedtable"
    parts = {"index": [arr(2, 0, 1), arr(1, 2, 0)], "content": [kind("tab", 3)]}
    few = {"index": [0, 1], "content": [0]}

    def build(self, parts):
        return IndexedArray(parts["index"].make(), parts["content"].make())

    def model(self, parts):
        content = norm(parts["content"].make())
        return [content[i] for i in parts["index"].make()]

    @staticmethod
    def through(a):
        a = a.deepcopy() if False else a.copy(content=a.content.copy())
        a["z"] = ints(7, 8, 9)
        return norm(a)

    reads = {"iter": lambda a: norm(a), "assign": lambda a: IndexedTable.through(a), "assign in place": lambda a: inplace(a)}
    only = {}


def inplace(a):
    a["w"] = ints(4, 5, 6)
    out = norm(a["w"])
    del a["w"]
    return out


class Sparse(Machine):
    name = "sparse"
    parts = {"length": [val(4), val(6), val(3)], "index": [arr(1, 2), arr(0, 2, 5), arr(), arr(3, 4)], "content": [kind("i8", 2), kind("f8", 3)], "default": [val(None), val(-1)]}
    few = {"length": [0, 1], "index": [0, 1], "content": [0, 1], "default": [1]}

    def build(self, parts):
        return SparseArray(parts["length"].make(), parts["index"].make(), parts["content"].make(), default=parts["default"].make())

    def model(self, parts):
        index, content, default = parts["index"].make().tolist(), norm(parts["content"].make()), parts["default"].make()
        if len(index) > len(content):
            return None
        zero = default if default is not None else 0.0 if isinstance(content[0], float) else 0
        return [content[index.index(i)] if i in index else zero for i in range(parts["length"].make())]

    reads = {"boolmask": lambda a: a.boolmask().tolist(), "dense": lambda a: observe(a.dense), "iter": lambda a: norm(a), "default": lambda a: norm(a.default)}
    only = {"plus": lambda a: observe(a + 1), "sum": lambda a: norm(a.sum()), "copy": lambda a: observe(a.copy())}


class Union(Machine):
    name = "union"
    parts = {"tags": [arr(0, 1, 0), arr(1, 1), arr(0, 2, 1, 0)], "index": [arr(0, 0, 1), arr(2, 1, 0, 0), arr(1, 0, 3, 2)], "contents": [P("two", lambda: [ints(10, 11), numpy.array([0.5, 1.5, 2.5])]), P("three", lambda: [ints(20, 21, 22), numpy.array([0.25, 0.5]), KINDS["i8"].build([0])]), P("jag", lambda: [KINDS["jag"].build([0, 1]), ints(5, 6, 7)])]}
    few = {"tags": [0, 1], "index": [0, 1], "contents": [0, 2]}

    def build(self, parts):
        return UnionArray(parts["tags"].make(), parts["index"].make(), parts["contents"].make())

    def model(self, parts):
        tags, index, contents = parts["tags"].make().tolist(), parts["index"].make().tolist(), norm(parts["contents"].make())
        if len(index) < len(tags):
            return None
        try:
            return [contents[t][i] for t, i in zip(tags, index)]
        except IndexError:
            return None

    reads = {"issequential": lambda a: a.issequential, "dtype": lambda a: a.dtype, "iter": lambda a: norm(a)}
    only = {"plus": lambda a: observe(a + 1), "copy": lambda a: observe(a.copy())}


class Chunked(Machine):
    """chunksizes are only ever reassigned to what the chunks have (or left to be found out)"""

    name = "chunked"
    parts = {"chunks": [P("3+2", lambda: [ints(1, 2, 3), ints(4, 5)]), P("1+0+3", lambda: [ints(6), ints(), ints(7, 8, 9)]), P("none", lambda: []), P("f2", lambda: [numpy.array([0.5, 1.5])])]}
    few = {"chunks": [0, 1, 3]}

    def build(self, parts):
        return ChunkedArray(parts["chunks"].make())

    def model(self, parts):
        return [y for x in parts["chunks"].make() for y in norm(x)]

    reads = {"len": len, "offsets": lambda a: (len(a), a.offsets.tolist())[1], "type": lambda a: str(a.type), "iter": lambda a: norm(a), "last": lambda a: norm(a[-1]), "first": lambda a: norm(a[0]), "knowtype": lambda a: a.knowtype(0)}
    only = {"plus": lambda a: observe(a + 1), "sum": lambda a: norm(a.sum()), "copy": lambda a: observe(a.copy()), "chunksizes": lambda a: (len(a), list(a.chunksizes))[1], "array": lambda a: norm(numpy.array(a))}


class Rechunked(Machine):
    """chunks replaced in place, with chunksizes reassigned to what they are now"""

    name = "rechunked"
    parts = {"chunks": [P("2+1", lambda: [ints(1, 2), ints(3)]), P("1+2", lambda: [ints(4), ints(5, 6)]), P("0+3", lambda: [ints(), numpy.array([0.5, 1.5, 2.5])]), P("1+1+1", lambda: [ints(7), ints(8), ints(9)])]}
    few = {"chunks": [0, 1, 2]}
    reads = Chunked.reads
    only = Chunked.only

    def build(self, parts):
        chunks = parts["chunks"].make()
        return ChunkedArray(chunks, chunksizes=[len(x) for x in chunks])

    def assign(self, a, name, value, parts):
        sizes = [len(x) for x in value]
        if len(a.chunks) == len(value) and set(str(x.dtype) for x in a.chunks) == set(str(x.dtype) for x in value):
            a.chunks[:] = value
        else:
            a.chunks = value
        a.chunksizes = sizes

    def model(self, parts):
        return [y for x in parts["chunks"].make() for y in norm(x)]


ABSENT = P("absent", lambda: None)


class Columns(Machine):
    """columns of the records inside of another class, set and deleted through it"""

    parts = {"x": [P("ints", lambda: [1, 2, 3]), P("floats", lambda: [0.5, 1.5, 2.5]), P("strings", lambda: ["a", "bc", ""])], "y": [ABSENT, P("ints", lambda: [7, 8, 9]), P("bools", lambda: [True, False, True])]}
    few = {"x": [0, 1], "y": [0, 1]}
    reads = {"iter": lambda a: norm(a), "type": lambda a: str(a.type), "columns": lambda a: list(a.columns), "x": lambda a: observe(a["x"]), "x type": lambda a: str(a["x"].type) if isinstance(a["x"], AwkwardArray) else str(a["x"].dtype)}
    only = {"copy": lambda a: observe(a.copy()), "y": lambda a: observe(a["y"])}
    hows = ("deepcopy",)

    def __init__(self, name, wrap, plain):
        self.name, self.wrap, self.plain = "columns of " + name, wrap, plain
        if name in ("masked", "virtual"):       # what is assigned is masked or virtual, and so are the columns afterwards
            self.reads = dict((k, v) for k, v in self.reads.items() if k != "x type" and (k != "type" or name == "virtual"))

    @staticmethod
    def column(v):
        return StringArray.fromiter(v) if isinstance(v[0], str) else numpy.array(v)

    def rows(self, parts):
        columns = dict((k, p.make()) for k, p in parts.items() if p is not ABSENT)
        return columns

    def build(self, parts):
        t = Table()
        for k, v in sorted(self.rows(parts).items()):
            t[k] = self.column(v)
        return self.wrap(t)

    def model(self, parts):
        columns = self.rows(parts)
        return self.plain([dict((k, v[i]) for k, v in columns.items()) for i in range(3)])

    def assign(self, a, name, value, parts):
        if value is None:
            if name in a.columns:
                del a[name]
        else:
            a[name] = self.wrap(self.column(value))


def produced(t):
    return selected(t, 0, len(t))


def keep(rows):
    return rows


CONTAINERS = {
    "table": (lambda t: t, keep),
    "chunked": (lambda t: ChunkedArray([t[:2], t[2:]]) if not isinstance(t, Table) else ChunkedArray([selected(t, 0, 2), selected(t, 2, 3)]), keep),
    "lists": (lambda t: JaggedArray.fromcounts([2, 0, 1], t), lambda rows: [rows[:2], [], rows[2:]]),
    "objects of a chunked array of lists": (lambda t: ChunkedArray([JaggedArray.fromcounts([2, 0], selected(t, 0, 2)), JaggedArray.fromcounts([1], selected(t, 2, 3))]), lambda rows: [rows[:2], [], rows[2:]]),
    "masked": (lambda t: MaskedArray([False, True, False], t), lambda rows: [rows[0], None, rows[2]]),
    "virtual": (lambda t: VirtualArray(produced, (t,)), keep),
}


def selected(t, start, stop):
    """a part of the rows, but not a view (nothing can be assigned to views)"""
    if isinstance(t, Table):
        out = Table()
        for n in t.columns:
            out[n] = t[n][start:stop]
        return out
    return t[start:stop]


class Object(Machine):
    name = "object"
    parts = {"content": [kind("i8", 3), kind("i8", 2), kind("tab", 2)], "generator": [P("point", lambda: make_point), P("pair", lambda: pair)], "args": [val(()), val((1,))], "kwargs": [val({}), val({"b": 2})]}
    few = {"content": [0, 1], "generator": [0, 1], "args": [0, 1], "kwargs": [0]}

    def build(self, parts):
        return ObjectArray(parts["content"].make(), parts["generator"].make(), args=parts["args"].make(), kwargs=parts["kwargs"].make())

    def model(self, parts):
        try:
            return [norm(parts["generator"].make()(x, *parts["args"].make(), **parts["kwargs"].make())) for x in parts["content"].make()]
        except Exception:
            return None

    reads = {"iter": lambda a: norm(a)}
    only = {"copy": lambda a: observe(a.copy())}


def pair(x, a=0, b=0):
    return (norm(x), a, b)


class String(Machine):
    name = "string"
    parts = {"starts": [arr(0, 2, 4), arr(1, 3)], "stops": [arr(2, 4, 6), arr(3, 6, 6)], "content": [P("abcdef", lambda: numpy.frombuffer(b"abcdef", dtype=numpy.uint8)), P("\u00f6\u00f6\u00f6", lambda: numpy.frombuffer(b"\xc3\xb6" * 3, dtype=numpy.uint8))], "encoding": [val("utf-8"), val("latin-1")]}
    few = {"starts": [0, 1], "stops": [0], "content": [0, 1], "encoding": [0, 1]}

    def build(self, parts):
        return StringArray(parts["starts"].make(), parts["stops"].make(), parts["content"].make(), encoding=parts["encoding"].make())

    def model(self, parts):
        raw = bytes(parts["content"].make())
        return [raw[a:b].decode(parts["encoding"].make(), "replace") for a, b in zip(parts["starts"].make(), parts["stops"].make())]

    reads = {"offsets": lambda a: a.offsets.tolist(), "counts": lambda a: a.counts.tolist(), "parents": lambda a: strip(a.parents.tolist()), "iter": lambda a: norm(a)}
    only = {"copy": lambda a: observe(a.copy()), "concatenate": lambda a: observe(a.concatenate([a]))}


MACHINES = dict((m.name, m()) for m in (Jagged, Masked, BitMasked, IndexedMasked, Indexed, IndexedTable, Sparse, Union, Chunked, Rechunked, Object, String))
for name_ in CONTAINERS:
    MACHINES["columns of " + name_] = Columns(name_, *CONTAINERS[name_])


# ---------------------------------------------------------------- exploration
def canon(x, depth=0):
    """Everything an object holds, including what it caches."""
    if isinstance(x, numpy.ndarray):
        return "%s%r%s" % (x.dtype.str, x.tolist(), "v" if x.base is not None else "")
    if isinstance(x, AwkwardArray):
        return type(x).__name__ + "{" + ",".join("%s=%s" % (k, canon(v, depth + 1)) for k, v in sorted(x.__dict__.items())) + "}"
    if isinstance(x, (list, tuple)):
        return "[" + ",".join(canon(y, depth + 1) for y in x) + "]"
    if isinstance(x, dict):
        return "{" + ",".join("%s:%s" % (k, canon(v, depth + 1)) for k, v in sorted(x.items(), key=str)) + "}"
    if callable(x):
        return getattr(x, "__name__", "callable")
    return repr(x)


def run_read(fn, a):
    try:
        return fn(a)
    except Violation:
        raise
    except Exception:
        return "raises"


def apply(m, a, op, parts):
    """One operation on the real array; returns the model parts after it."""
    kind_, name = op[0], op[1]
    if kind_ == "read":
        run_read(m.reads[name], a)
        return parts
    if name in m.derived:
        part = m.derived[name][op[2]]
        new = m.expand(name, part)
    else:
        part = m.parts[name][op[2]]
        new = {name: part}
    after = dict(parts)
    after.update(new)
    m.assign(a, name, part.make(), parts)
    return after


def initial(m):
    return dict((k, v[0]) for k, v in m.parts.items())


def compare(m, a, parts, ctx, what):
    """a against a freshly built array with the same parts, and against the model."""
    want = m.model(parts)
    shown = dict((k, v.label) for k, v in parts.items())
    if want is None:
        for name in ("iter",) + tuple(m.only):
            fn = m.reads.get(name) or m.only[name]
            if name in ("index", "localindex"):
                continue
            try:
                out = fn(a)
            except Violation:
                raise
            except Exception:
                continue
            if name == "copy" or name == "iter":
                raise Violation("%s: with inconsistent parts %s it still reads %s as %s" % (what, shown, name, text(norm(out))), "inconsistent parts accepted")
        ctx.outcome("inconsistent")
        return
    fresh = m.build(parts)
    got = observe(a)
    if text(got) != text(want):
        raise Violation("%s: value %s with parts %s, expected %s" % (what, text(got), shown, text(want)), "stale value")
    fns = dict(m.common())
    if "type" not in m.reads and isinstance(m, Columns):
        del fns["type"]
    fns.update(m.reads)
    fns.update(m.only)
    seen = []
    for name in sorted(fns):
        x, y = run_read(fns[name], a), run_read(fns[name], fresh)
        tx, ty = text(norm(x)) if not isinstance(x, str) else x, text(norm(y)) if not isinstance(y, str) else y
        seen.append(ty)
        if tx != ty:
            raise Violation("%s: %s is %s with parts %s; a fresh array has %s" % (what, name, tx, shown, ty), "stale " + name)
    ctx.step(len(seen))
    ctx.outcome(text(seen))


def operations(m, few=False):
    ops = [("read", name) for name in sorted(m.reads) if not few or name in ("iter", "offsets", "parents", "counts", "dense", "type", "assign in place")]
    for name in sorted(set(m.parts) | set(m.derived)):
        candidates = m.derived.get(name) or m.parts[name]
        for i in (m.few[name] if few else range(len(candidates))):
            ops.append(("set", name, i))
    return ops


def replay(m, history):
    parts = initial(m)
    a = m.build(parts)
    for op in history:
        parts = apply(m, a, op, parts)
    return a, parts


def parts_text(parts):
    return repr(sorted((k, v.label) for k, v in parts.items()))


def one_case(m, history, ctx):
    a, parts = replay(m, history)
    compare(m, a, parts, ctx, " ".join(map(str, history)))


def explore(m, unit, ctx):
    a, parts = replay(m, ())
    seen = set([canon(a) + parts_text(parts)])
    frontier = [()]
    ctx.case([unit, []], one_case, m, (), ctx)
    ops = operations(m)
    while frontier:
        nxt = []
        for history in frontier:
            for op in ops:
                h = history + (op,)
                try:
                    a, parts = replay(m, h)
                except Exception:
                    ctx.case([unit, h], one_case, m, h, ctx)
                    continue
                ctx.step()
                c = canon(a) + parts_text(parts)
                if c in seen:
                    continue
                seen.add(c)
                ctx.state(m.name + c)
                ctx.case([unit, h], one_case, m, h, ctx)
                nxt.append(h)
                if len(seen) > 60000:
                    raise RuntimeError("state space of %s is larger than expected" % m.name)
        frontier = nxt


def pair_case(m, at, before, after, how, ctx):
    """`before` on a; b = copy of a; then (who, op) steps."""
    a, parts = replay(m, before)
    b = a.copy() if how == "copy" else a.deepcopy() if how == "deepcopy" else a[:]
    both = [(a, parts), (b, dict(parts))]
    for who, op in after:
        x, p = both[who]
        both[who] = (x, apply(m, x, op, p))
    for who in (0, 1):
        compare(m, both[who][0], both[who][1], ctx, "%s after %s, then %s" % (("the original", "the " + how)[who], list(before), list(after)))


def explore_pair(m, first, how, depth, unit, ctx):
    ops = operations(m, few=True)
    sets = [op for op in ops if op[0] == "set"]
    pre = [(), (first,)] if first == ops[0] else [(first,)]
    seen = set()
    for before in pre + ([(first, op) for op in ops] if depth > 4 else []):
        for n in range(1, depth - len(before)):
            for after in itertools.product([(w, op) for w in (0, 1) for op in (ops if n <= 2 else sets)], repeat=n):
                if not any(op[0] == "set" for _, op in after):
                    continue
                key = [unit, [before, after]]
                if ctx.only is None:
                    a, parts = replay(m, before)
                    b = a.copy() if how == "copy" else a.deepcopy() if how == "deepcopy" else a[:]
                    both = [(a, parts), (b, dict(parts))]
                    try:
                        for who, op in after:
                            x, p = both[who]
                            both[who] = (x, apply(m, x, op, p))
                        c = "|".join(canon(x) + parts_text(p) for x, p in both)
                        ctx.step()
                        if c in seen:
                            continue
                        seen.add(c)
                        ctx.state(m.name + c)
                    except Exception:
                        pass
                ctx.case(key, pair_case, m, None, before, after, how, ctx)


def units(tier):
    for name in MACHINES:
        yield ["one", name]
        m = MACHINES[name]
        for how in m.hows:
            for first in operations(m, few=True):
                yield ["pair", name, list(first), how, 4 if tier == "quick" else 5]


def unit_of(case):
    return case[0]


def run_unit(unit, ctx):
    m = MACHINES[unit[1]]
    if unit[0] == "one":
        explore(m, unit, ctx)
    else:
        explore_pair(m, tuple(unit[2]), unit[3], unit[4], unit, ctx)
