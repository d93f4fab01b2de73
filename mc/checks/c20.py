"""C20: serialising and reading back gives the same array."""
import copy
import itertools
import json
import pickle
import zlib

import numpy

import awkward0
from awkward0 import (AppendableArray, BitMaskedArray, ChunkedArray, IndexedArray, IndexedMaskedArray, JaggedArray, MaskedArray, ObjectArray, SparseArray, StringArray, Table, UnionArray, VirtualArray)
from awkward0.array.base import AwkwardArray
from awkward0.persist import deserialize, keys, serialize

from .. import forms, model
from ..core import Violation
from ..forms import KINDS
from ..obs import expect, norm, observe, physical, text
from . import c11, c18

ID = "C20"
RULE = "every array class over every kind of content, every nesting of two containers, every layout of lists and strings, every dtype of an alphabet, views, anonymous and named records, shared and cyclic parts, written to a mapping in 9 ways (names, delimiters, suffixes, compression policies, blobs that keep bytes only), pickled with every protocol and copied with the copy module, and read back; an outcome is non-trivial when its canonical value is distinct"
ASSUMPTIONS = ["methods mixed into an array class are not stored (docs/serialization.adoc has no place for them)",
               "functions defined at the top of a module can be stored if the whitelist has them; others are refused"]
BOUNDS = {"quick": "lengths 0 to 4; 22 content kinds x 12 containers; 12 x 11 nested containers of 6 kinds; 11 list layouts; 32 dtypes; 17 routes",
          "thorough": "lengths 0 to 6; 22 content kinds x 12 containers; 12 x 11 nested containers of 22 kinds; 11 list layouts; 32 dtypes; 17 routes"}

WHITELIST = awkward0.persist.whitelist + [["mc.*"], ["builtins", "len"]]


class Blobs(dict):
    """a storage that keeps bytes and nothing else"""
    def __setitem__(self, name, what):
        dict.__setitem__(self, name, what.tobytes() if isinstance(what, numpy.ndarray) else bytes(what))


def shrink(x):
    return zlib.compress(x)


def grow(x):
    return zlib.decompress(x)


STORED = [
    ("plain", dict, {"compression": None}, ""),
    ("default", dict, {}, ""),
    ("zlib", Blobs, {"compression": zlib.compress}, ""),
    ("everything compressed", Blobs, {"compression": True, "name": "na/me"}, ""),
    ("named", Blobs, {"name": "x", "suffix": ".raw", "schemasuffix": ".json"}, ".json"),
    ("no delimiter", Blobs, {"name": "7", "delimiter": None}, ""),
    ("prefix", dict, {"name": "a", "prefix": "zz-", "delimiter": "::", "compression": [(zlib.compress, ("zlib", "decompress"))]}, ""),
    ("policies", Blobs, {"compression": [{"minsize": 9, "types": [numpy.integer], "contexts": "*.content", "pair": (shrink, ("mc.checks.c20", "grow"))}, {"minsize": 0, "types": numpy.floating, "contexts": ["Table.*", "Chunked*"], "pair": (zlib.compress, ("zlib", "decompress"))}]}, ""),
    ("not compressed", Blobs, {"compression": False, "suffix": "-s"}, ""),
]


def store(a, how):
    name, make, options, schemasuffix = [s for s in STORED if s[0] == how][0]
    storage = make()
    serialize(a, storage, **options)
    where = options.get("name", "") + schemasuffix
    if where not in storage:
        raise Violation("%s: no schema under %r: %s" % (how, where, sorted(storage)))
    expect(sorted(keys(storage, where)), sorted(storage), "keys")
    json.loads(bytes(storage[where]).decode("ascii"))
    return deserialize(storage, where, whitelist=WHITELIST)


def routes(tier=0):
    for s in STORED:
        yield s[0], lambda a, how=s[0]: store(a, how)
    for p in range(pickle.HIGHEST_PROTOCOL + 1):
        yield "pickle %d" % p, lambda a, p=p: pickle.loads(pickle.dumps(a, p))
    yield "copy.copy", copy.copy
    yield "copy.deepcopy", copy.deepcopy


def shape_of(a, depth=0):
    """the classes and dtypes of an array and its parts"""
    if depth > 12:
        return "..."
    if isinstance(a, numpy.ndarray):
        return "%s%r" % (a.dtype, a.shape[1:])
    name = type(a).__name__
    if isinstance(a, Table):
        return "%s(%s%s)" % (name, a.rowname, "".join(" %r=%s" % (n, shape_of(a.contents[n], depth + 1)) for n in a.contents))
    if isinstance(a, UnionArray):
        return "%s(%s)" % (name, ", ".join(shape_of(x, depth + 1) for x in a.contents))
    if isinstance(a, ChunkedArray):
        return "%s(%s)" % (name, ", ".join(shape_of(x, depth + 1) for x in a.chunks if len(x)))
    if isinstance(a, StringArray):
        return "%s(%s %s)" % (name, a.encoding, a.content.dtype)
    if isinstance(a, ObjectArray):
        return "%s(%s %r %r %s)" % (name, a.generator.__name__, a.args, a.kwargs, shape_of(a.content, depth + 1))
    if isinstance(a, VirtualArray):
        return "%s(%s %s %s)" % (name, a.generator.__name__, a.persistentkey, a._type)
    if isinstance(a, AwkwardArray):
        extra = ""
        for k in ("maskedwhen", "lsborder"):
            if hasattr(a, k):
                extra += " %s=%r" % (k, getattr(a, k))
        if isinstance(a, SparseArray):
            extra += " %d %s" % (a.length, text(norm(a._default)))
        return "%s(%s%s)" % (name, shape_of(a.content, depth + 1), extra)
    return name


def trip(make, v, ctx, which=None, use=True, exact=True):
    """an array of value v comes back from everywhere as it is"""
    a = make()
    got = expect(observe(a), v, "before")
    ctx.outcome(got)
    before, shape, t = physical(a), shape_of(a), a.type if isinstance(a, AwkwardArray) else awkward0.type.fromarray(a)
    ctx.state(before)
    for what, go in routes():
        if which is not None and what not in which:
            continue
        ctx.step()
        try:
            b = go(a)
            expect(observe(b), v, "read back")
            if type(b) is not type(a):
                raise Violation("class %s, expected %s" % (type(b).__name__, type(a).__name__), "class")
            if exact and shape_of(b) != shape:
                raise Violation("parts %s, expected %s" % (shape_of(b), shape), "parts " + shape_of(b))
            u = b.type if isinstance(b, AwkwardArray) else awkward0.type.fromarray(b)
            if not u == t or str(u) != str(t):
                raise Violation("type %s, expected %s" % (u, t), "type %s" % u)
            if use and v is not None and what in ("plain", "zlib", "pickle 2", "copy.copy"):
                works(b, v, ctx)
            if what in ("default", "pickle 4"):
                c = go(b)
                expect(observe(c), v, "second time")
                if exact and shape_of(c) != shape:
                    raise Violation("second time: parts %s, expected %s" % (shape_of(c), shape), "parts " + shape_of(c))
            if what == "copy.deepcopy" and isinstance(a, AwkwardArray):
                shared = [x for x in buffers(a, set()) for y in buffers(b, set()) if x.size and y.size and not in_a_virtual(a) and numpy.shares_memory(x, y)]
                if shared:
                    raise Violation("a deepcopy shares memory", "shared memory")
        except Violation as err:
            raise Violation("%s: %s" % (what, err), "%s %s" % (what, getattr(err, "observed", err)))
        if physical(a) != before:
            raise Violation("%s: the array changed" % what, "operand changed")


def in_a_virtual(a):
    return "VirtualArray" in shape_of(a)


def buffers(a, seen):
    if id(a) in seen:
        return []
    seen.add(id(a))
    if isinstance(a, numpy.ndarray):
        return [a]
    if isinstance(a, AwkwardArray):
        return [y for x in a.__dict__.values() for y in buffers(x, seen)]
    if isinstance(a, (list, tuple)):
        return [y for x in a for y in buffers(x, seen)]
    if isinstance(a, dict):
        return [y for x in a.values() for y in buffers(x, seen)]
    return []


def works(b, v, ctx):
    n = len(v)
    for where in (("slice", None, None, -1), ("slice", 1, None, 2), ("mask", [i % 2 == 0 for i in range(n)]), ("take", list(range(n))[::-1]), ("slice", 1, n, None)):
        ctx.step()
        expect(norm(b[model.real(where)]), model.select(v, where), "%s after reading" % (where,))


# ---------------------------------------------------------------- what is enumerated
def hold(holder, make, n):
    if holder == "virtual":
        return VirtualArray(produce, (make(list(range(n))),)), lambda values: values
    return c18.hold(holder, make, n)[:2]


def kind_case(kind, holder, n, ctx):
    make = lambda: hold(holder, lambda ids: KINDS[kind].build(ids), n)[0]
    v = hold(holder, lambda ids: KINDS["i8"].build(ids), n)[1]([KINDS[kind].value(i) for i in range(n)]) if kind != "unum" else observe(make())
    trip(make, v, ctx, use=kind != "unum")


def double_case(kind, outer, inner, n, ctx):
    b, f = hold(inner, lambda ids: KINDS[kind].build(ids), n)
    w = f([KINDS[kind].value(i) for i in range(n)])
    m = len(w)
    if m == 0 and outer in ("jagged gaps", "indexed", "indexedmasked"):
        return
    place = lambda ids: b[numpy.array([i if i >= 0 else 0 for i in ids], dtype=int)] if m else b
    make = lambda: hold(outer, place, m)[0]
    v = hold(outer, lambda ids: KINDS["i8"].build(ids), m)[1](w) if kind != "unum" else observe(make())
    trip(make, v, ctx, which=("plain", "zlib", "named", "policies", "pickle 2", "copy.copy", "copy.deepcopy"), use=kind != "unum")


def layout_case(counts, layout, ctx):
    for kind in ("i8", "tab", "str", "jag"):
        trip(lambda: forms.jagged(counts, layout, kind), forms.jagged_value(counts, kind), ctx, which=("plain", "zlib", "policies", "pickle 2", "copy.copy", "copy.deepcopy"))
    words = [u"", u"a", u"\u00e9", u"one"]
    rows = [words[c] for c in counts]
    for encoding in ("utf-8", "utf-16", "latin-1", None):
        data = [w.encode(encoding or "latin-1") for w in rows]
        starts, stops, ids = forms.jagged_parts(forms.ids_of([len(d) for d in data]), layout)
        flat = b"".join(data)
        content = numpy.array([bytearray(flat)[i] if i >= 0 else 90 for i in ids], dtype=numpy.uint8)
        trip(lambda: StringArray(starts, stops, content, encoding), data if encoding is None else rows, ctx, which=("plain", "zlib", "pickle 2"))


DTYPES = ["?", "i1", "u1", "<i2", ">i2", "<u4", ">u4", "i8", ">i8", "u8", "f2", "<f4", ">f4", "f8", ">f8", "c8", "c16", ">c16", "S3", "U3", ">U3", "M8[ns]", "M8[D]", "m8[s]", "g"]
RECORDS = [[("a", "i4")], [("a", "i4"), ("b", "f8")], [("a", ">i2"), ("b", "S3"), ("c", "?")], [("x", "i8", (2,))], [("p", [("q", "f4"), ("r", "i1")])], [("a", "i4", (2, 3)), ("b", [("c", "U2", (2,))])], [("z", "f8"), ("a", "f8")]]


def dtype_case(dtype, n, ctx):
    dt = numpy.dtype(dtype if isinstance(dtype, str) else [tuple(x) if len(x) == 2 and not isinstance(x[1], list) else tuple([x[0], [tuple(y) for y in x[1]] if isinstance(x[1], list) else x[1]] + [tuple(z) for z in x[2:]]) for x in dtype])
    size = dt.itemsize
    for shape in ((), (2,), (1,), (2, 3), (0,), (2, 0)):
        count = n * int(numpy.prod(shape, dtype=int))
        if dt.kind in "gfc" or dt.names or dt.kind in "?Mm":
            flat = numpy.zeros(count, dtype=dt) if dt.names else numpy.arange(count).astype("i8" if dt.kind in "Mm" else dt).astype(dt)
            if dt.names:
                flat = numpy.frombuffer(bytes(bytearray((i % 2 for i in range(count * size)))), dtype=dt) if count else flat
        else:
            flat = numpy.arange(count).astype(dt)
        base = flat.reshape((n,) + shape)
        for what, a in (("array", base), ("reversed", base[::-1]), ("strided", numpy.repeat(base, 2, axis=0)[::2]), ("Fortran", numpy.asfortranarray(base))):
            for how, go in routes():
                if how.startswith("pickle") or how.startswith("copy"):
                    continue
                ctx.step()
                b = go(a)
                ctx.outcome(physical(numpy.ascontiguousarray(a)))
                if b.dtype != a.dtype or b.shape != a.shape or numpy.ascontiguousarray(a).tobytes() != numpy.ascontiguousarray(b).tobytes():
                    raise Violation("%s %s: %s %s %s, expected %s %s %s" % (how, what, b.dtype, b.shape, b.tolist(), a.dtype, a.shape, a.tolist()), "%s %s" % (b.dtype, b.shape))
        if shape == () or 0 not in shape:
            if n and not dt.names and dt.kind not in "Mm":
                trip(lambda: JaggedArray.fromcounts([0, n, 0], base), [[], norm(base), []], ctx, which=("plain", "zlib", "pickle 2"))
                trip(lambda: Table(x=base, y=numpy.arange(n)), [{"x": norm(base[i]), "y": i} for i in range(n)], ctx, which=("plain", "zlib", "pickle 2"))


def tables(n):
    """(name, make, value)"""
    x, y = numpy.arange(n) + 100, numpy.arange(n) + 0.5
    rows = [{"x": 100 + i, "y": i + 0.5} for i in range(n)]
    yield "plain", lambda: Table(x=x, y=y), rows
    for where in (slice(None, None, -1), slice(1, None), slice(None, None, 2), slice(n, None), slice(-2, 0, -1)):
        yield "view %s" % where, lambda where=where: Table(x=x, y=y)[where], rows[where]
        yield "view of a view %s" % where, lambda where=where: Table(x=x, y=y)[::-1][where], rows[::-1][where]
    for ids in ([], list(range(n))[::-1], [n - 1, 0, 0] if n else []):
        yield "view %s" % ids, lambda ids=ids: Table(x=x, y=y)[numpy.array(ids, dtype=int)], [rows[i] for i in ids]
    yield "anonymous", lambda: Table(x, y), [(100 + i, i + 0.5) for i in range(n)]
    yield "anonymous view", lambda: Table(x, y)[::-1], [(100 + i, i + 0.5) for i in range(n)][::-1]
    yield "named", lambda: Table.named("Point", x=x, y=y), rows
    yield "named view", lambda: Table.named("Point", x=x, y=y)[1:], rows[1:]
    yield "numbered, not anonymous", lambda: Table.named("Row", **{"0": x, "1": y}), [{"0": 100 + i, "1": i + 0.5} for i in range(n)]
    yield "named tuple", lambda: Table.named("tuple", x, y), [(100 + i, i + 0.5) for i in range(n)]
    yield "order", lambda: Table.frompairs([("z", x), ("a", y), ("m m", x)]), [{"z": 100 + i, "a": i + 0.5, "m m": 100 + i} for i in range(n)]
    yield "unicode", lambda: Table.frompairs([(u"\u00e9\u4e2d", x), ("", y), ("a-b/c.d", x)]), [{u"\u00e9\u4e2d": 100 + i, "": i + 0.5, "a-b/c.d": 100 + i} for i in range(n)]
    yield "different lengths", lambda: Table(x=numpy.arange(n + 3) + 100, y=y), rows
    yield "nested", lambda: Table(x=x, t=Table(x, Table(q=y)[::1])), [{"x": 100 + i, "t": (100 + i, {"q": i + 0.5})} for i in range(n)]
    yield "nested view", lambda: Table(x=x, t=Table(x, y)[::-1])[::-1], [{"x": 100 + i, "t": (100 + n - 1 - i, n - i - 0.5)} for i in range(n)][::-1]
    yield "jagged", lambda: Table(x=x, j=JaggedArray.fromcounts([1] * n, Table.named("P", q=y))), [{"x": 100 + i, "j": [{"q": i + 0.5}]} for i in range(n)]

    def assigned():
        t = Table(x=x)
        t["y"] = y
        return t[::-1]
    yield "column set in a view", assigned, rows[::-1]

    def deleted():
        t = Table(x=x, y=y, z=y)
        del t["z"]
        return t[::-1]
    yield "column deleted", deleted, rows[::-1]
    counts = c18.jag_counts(n)
    lists = lambda: JaggedArray.fromcounts(counts, x)
    v = c18.nested([100 + i for i in range(n)], counts)
    yield "pairs", lambda: lists().pairs(), [list(itertools.combinations_with_replacement(r, 2)) for r in v]
    yield "distincts", lambda: lists().distincts()[::-1], [list(itertools.combinations(r, 2)) for r in v][::-1]
    yield "cross", lambda: lists().cross(lists()), [list(itertools.product(r, r)) for r in v]
    yield "zip", lambda: JaggedArray.zip(a=lists(), b=lists()), [[{"a": z, "b": z} for z in r] for r in v]
    yield "zip without names", lambda: JaggedArray.zip(lists(), lists()), [[(z, z) for z in r] for r in v]


def table_case(n, ctx):
    for name, make, v in tables(n):
        try:
            trip(make, v, ctx)
        except Violation as err:
            raise Violation("%s: %s" % (name, err), "%s %s" % (name, getattr(err, "observed", err)))
        t = make()
        if isinstance(t, Table):
            for how, go in routes():
                ctx.step()
                b = go(t)
                expect([b.columns, b.rowname, b.istuple], [t.columns, t.rowname, t.istuple], "%s, %s: columns" % (name, how))
                expect([repr(r) for r in b], [repr(r) for r in t], "%s, %s: rows" % (name, how))


def parametrised(n):
    x = numpy.arange(n) + 100
    v = [100 + i for i in range(n)]
    mask = [i % 3 == 1 for i in range(n)]
    masked = [None if m else y for m, y in zip(mask, v)]
    for when in (True, False):
        yield "masked %s" % when, lambda when=when: MaskedArray(numpy.array(mask, dtype=bool) == when, x, maskedwhen=when), masked
        for order in (True, False):
            yield "bitmasked %s %s" % (when, order), lambda when=when, order=order: BitMaskedArray.fromboolmask(numpy.array(mask, dtype=bool) == when, x, maskedwhen=when, lsborder=order), masked
    for when in (-1, -5, 0, 2 * n, numpy.int64(77)):
        ids = [n - i for i in range(n)] if when != 0 else [n - i for i in range(n)]
        yield "indexedmasked %r" % (when,), lambda when=when, ids=ids: IndexedMaskedArray(numpy.array([when if m else i for m, i in zip(mask, ids)], dtype=int), numpy.array([-1] + v[::-1]), maskedwhen=when), masked
    where = [i for i in range(n) if i % 2]
    for default in (None, 0, 7, -1.5, float("nan"), float("inf"), 2j, True, numpy.int8(5), numpy.float32(0.5), numpy.float64("nan"), "text", b"bytes"):
        content = numpy.array([100 + i for i in where], dtype="f8" if isinstance(default, (float, numpy.floating)) else "c16" if isinstance(default, complex) else "i8")
        yield "sparse %r" % (default,), lambda default=default, content=content: SparseArray(n, where, content, default=default), [norm(content[where.index(i)] if i in where else 0 if default is None else default) for i in range(n)]
    yield "sparse of lists", lambda: SparseArray(n, where, JaggedArray.fromcounts([2] * len(where), numpy.arange(2 * len(where)))), [[2 * where.index(i), 2 * where.index(i) + 1] if i in where else [] for i in range(n)]
    yield "indexed 2d", lambda: IndexedArray(numpy.arange(2 * n)[::-1].reshape(n, 2), numpy.arange(2 * n) + 100), [[99 + 2 * n - 2 * i, 98 + 2 * n - 2 * i] for i in range(n)]
    for args, kwargs in (((), {}), ((1,), {}), (("a", None), {"k": 2.5}), ((b"x",), {}), (((1, 2),), {}), (([1, [2]],), {"d": {"e": 1}}), ((1j,), {"n": float("nan")}), ((numpy.float32(0.5),), {}), ((True,), {"z": numpy.int64(3)}), ((u"\u00e9",), {}), (({1: 2},), {}), ((len,), {}), ((numpy.arange(3),), {}), ((numpy.arange(3), numpy.ones(2)), {"a": numpy.arange(4), "b": [numpy.zeros(2), numpy.arange(5)], "c": {"d": numpy.arange(6), "e": numpy.ones(1)}, "f": numpy.arange(2), "g": numpy.ones((2, 2))}), ((numpy.dtype("i4"),), {})):
        yield "object %r %r" % (args, kwargs), lambda args=args, kwargs=kwargs: ObjectArray(x, remember, args, kwargs), [remember(y, *args, **kwargs) for y in v]
        yield "virtual %r %r" % (args, kwargs), lambda args=args, kwargs=kwargs: VirtualArray(produce, (x,) + args, kwargs), [100 + i for i in range(n)]
    for used in range(n + 1):
        def appendable(used=used):
            a = AppendableArray(2, "i8")
            a.extend(x[:used])
            return a
        yield "appendable %d" % used, appendable, v[:used]
    for chunks in itertools.product((0, 1, 2), repeat=3):
        bounds = [0] + list(itertools.accumulate(chunks))
        if bounds[-1] == n:
            for kind in ("i8", "f8", "jag", "tab", "2d", "str"):
                yield "chunks %s of %s" % (chunks, kind), lambda kind=kind, bounds=bounds: ChunkedArray([KINDS[kind].build(list(range(i, j))) for i, j in zip(bounds[:-1], bounds[1:])]), [KINDS[kind].value(i) for i in range(n)]
    if n == 0:
        yield "no chunks", lambda: ChunkedArray([]), []
    for tags in itertools.product((0, 1), repeat=n):
        for seq in (True, False, "gaps", "late"):
            index = [tags[:i].count(t) for i, t in enumerate(tags)]
            if seq is False:
                index = [2 - i if i < 3 else i for i in index]
            elif seq is not True:
                index = [2 * i if seq == "gaps" else i + 1 for i in index]
            c = [numpy.arange(2 * n + 3) * 1.5, JaggedArray.fromcounts([1] * (2 * n + 3), numpy.arange(2 * n + 3))]
            yield "union %s %s" % (tags, seq), lambda tags=tags, index=index, c=c: UnionArray(numpy.array(tags, dtype=numpy.uint8), numpy.array(index, dtype=int), c), [1.5 * i if t == 0 else [i] for t, i in zip(tags, index)]


class Kept(object):
    def __init__(self, *data):
        self.data = text(norm(list(data)))

    def __eq__(self, other):
        return type(other) is Kept and self.data == other.data

    def __hash__(self):
        return hash(self.data)

    def __repr__(self):
        return "Kept" + self.data


def remember(x, *args, **kwargs):
    return Kept(x, [a.__name__ if callable(a) else str(a) if isinstance(a, numpy.dtype) else a for a in args], sorted(kwargs.items()))


def produce(x, *args, **kwargs):
    return x


def parameters_case(n, ctx):
    for name, make, v in parametrised(n):
        try:
            trip(make, v, ctx, exact=not name.startswith("object") and not name.startswith("no chunks"), use=not name.startswith("appendable"))
        except Violation as err:
            raise Violation("%s: %s" % (name, err), "%s %s" % (name, getattr(err, "observed", err)))


def appendable_case(used, more, ctx):
    """an appendable array can be appended to after reading"""
    for chunk in (1, 2, 3):
        for how, go in routes():
            ctx.step()
            a = AppendableArray((chunk,), "f8")
            a.extend([float(i) for i in range(used)])
            b = go(a)
            expect([b.chunkshape, str(b.dtype)], [a.chunkshape, str(a.dtype)], how)
            for i in range(more):
                b.append(100.5 + i)
                expect(observe(b), [float(k) for k in range(used)] + [100.5 + k for k in range(i + 1)], "%s, appended to" % how)
            b.extend([7.0, 8.0, 9.0])
            expect(observe(b), [float(k) for k in range(used)] + [100.5 + k for k in range(more)] + [7.0, 8.0, 9.0], "%s, extended" % how)
            expect(observe(a), [float(k) for k in range(used)], "the original")


# ---------------------------------------------------------------- virtual arrays
COUNT = [0]


def make_table(n):
    COUNT[0] += 1
    return Table(x=numpy.arange(n) + 100, y=numpy.arange(n) + 0.5)


def make_lists(n):
    COUNT[0] += 1
    return JaggedArray.fromcounts(c18.jag_counts(n), numpy.arange(n))


def virtual_case(n, ctx):
    rows = [{"x": 100 + i, "y": i + 0.5} for i in range(n)]
    lists = c18.nested(list(range(n)), c18.jag_counts(n))
    types = {make_table: awkward0.type.fromarray(make_table(n)), make_lists: awkward0.type.fromarray(make_lists(n))}
    for gen, v in ((make_table, rows), (make_lists, lists)):
        for persist in (True, False):
            for typed in (False, True):
                for materialized in (False, True):
                    for key in (None, "akey"):
                        for cached in (False, True):
                            for how, go in routes():
                                ctx.step()
                                cache = {} if cached else None
                                if cached and not hasattr(cache, "x") and how.startswith(("pickle", "copy")):
                                    pass
                                a = VirtualArray(gen, (n,), cache=cache, persistentkey=key, type=types[gen] if typed else None, persistvirtual=persist)
                                if materialized:
                                    a.materialize()
                                COUNT[0] = 0
                                b = go(a)
                                expect(COUNT[0] if how != "copy.deepcopy" else min(COUNT[0], 0 if persist or materialized else 1), 0 if persist or materialized else 1, "%s: generator called (%s, %s, %s, %s)" % (how, typed, materialized, key, cached))
                                if persist:
                                    expect([type(b).__name__, b.persistentkey, b.ismaterialized, b._type is not None], ["VirtualArray", key, False, typed], how)
                                    if typed:
                                        expect([b.type == a.type, len(b), b.ismaterialized], [True, len(v), False], how)
                                elif isinstance(b, VirtualArray):
                                    raise Violation("%s: a %s, though persistvirtual=False" % (how, type(b).__name__))
                                expect(observe(b), v, how)
                                expect(observe(a), v, "the original after " + how)
    for program in itertools.product(("set z", "set x", "del x", "del z", "set list"), repeat=2):
        for materialized in (False, True):
            for persist in (True, False):
                a, r = VirtualArray(make_table, (n,), persistvirtual=persist), [dict(x) for x in rows]
                if materialized:
                    a.materialize()
                try:
                    for step in program:
                        if step == "set z":
                            a["z"] = numpy.arange(n) * 3
                            for i, x in enumerate(r):
                                x["z"] = 3 * i
                        elif step == "set x":
                            a["x"] = numpy.arange(n) * 5
                            for i, x in enumerate(r):
                                x["x"] = 5 * i
                        elif step == "set list":
                            a[["z", "w"]] = Table(q=numpy.arange(n), r=numpy.arange(n) + 1)
                            for i, x in enumerate(r):
                                x["z"], x["w"] = i, i + 1
                        else:
                            name = step[-1]
                            if n == 0 or name in r[0]:
                                del a[name]
                                for x in r:
                                    del x[name]
                except KeyError:
                    if n:
                        raise
                    continue
                if n == 0:
                    continue
                expect(observe(a), r, "%s before" % (program,))
                for how, go in routes():
                    ctx.step()
                    b = go(a)
                    expect(observe(b), r, "%s, columns changed by %s" % (how, program))
                    if persist:
                        expect(type(b).__name__, "VirtualArray", how)


# ---------------------------------------------------------------- shared and cyclic parts
def tree_case(parents, ctx):
    """nodes that hold lists of nodes: every tree, from the parents of its nodes"""
    n = len(parents) + 1
    children = [[c + 1 for c, p in enumerate(parents) if p == i] for i in range(n)]
    order = sorted(range(1, n), key=lambda c: parents[c - 1])
    # breadth first: number the nodes so that every list of children is contiguous
    numbering, queue = [0], [0]
    while queue:
        cs = children[queue.pop(0)]
        numbering += cs
        queue += cs
    name = dict((node, i) for i, node in enumerate(numbering))
    kids = [[name[c] for c in children[node]] for node in numbering]
    starts, stops, at = [], [], 1
    for k in kids:
        starts.append(at if k else 0)
        stops.append(at + len(k) if k else 0)
        at += len(k)
    offsets = [1]
    for k in kids:
        offsets.append(offsets[-1] + len(k))

    def value(i):
        return [value(c) for c in kids[i]]

    def record(i):
        return {"label": 10 * i, "children": [record(c) for c in kids[i]]}

    def bare(s, e):
        a = JaggedArray(s, e, [])
        a.content = a
        return a

    def labelled(s, e, wrap=lambda x: x):
        t = Table(label=10 * numpy.arange(n))
        t["children"] = wrap(JaggedArray(s, e, t))
        return t

    forests = [("bare", lambda: bare(starts, stops), [value(i) for i in range(n)])]
    forests.append(("bare, by offsets", lambda: bare(numpy.array(offsets)[:-1], numpy.array(offsets)[1:]), [value(i) for i in range(n)]))
    forests.append(("indexed", lambda: IndexedArray(numpy.arange(n)[::-1], bare(starts, stops)), [value(i) for i in range(n)][::-1]))
    forests.append(("labelled", lambda: labelled(starts, stops), [record(i) for i in range(n)]))
    forests.append(("labelled, by offsets", lambda: labelled(numpy.array(offsets)[:-1], numpy.array(offsets)[1:]), [record(i) for i in range(n)]))
    forests.append(("labelled and indexed", lambda: labelled(starts, stops, lambda j: IndexedArray(numpy.arange(n), j)), [record(i) for i in range(n)]))
    forests.append(("labelled and masked", lambda: labelled(starts, stops, lambda j: MaskedArray(numpy.zeros(n, dtype=bool), j)), [record(i) for i in range(n)]))
    for what, make, v in forests:
        a = make()
        ctx.outcome(expect(norm(a), v, what))
        for how, go in routes():
            ctx.step()
            try:
                b = go(a)
                expect(norm(b), v, "%s, %s" % (what, how))
            except RecursionError:
                raise Violation("%s, %s: infinite recursion" % (what, how), "infinite recursion")
            expect([norm(b[i]) for i in range(n)], v, "%s, %s: one at a time" % (what, how))


def shared_case(n, ctx):
    """the same array in two places is one array after reading"""
    x = numpy.arange(n) + 100
    j = JaggedArray.fromcounts([1] * n, x)
    for what, part, v in (("numpy", x, list(range(100, 100 + n))), ("lists", j, [[100 + i] for i in range(n)]), ("masked", MaskedArray(numpy.zeros(n, dtype=bool), x), list(range(100, 100 + n))), ("table", Table(q=x), [{"q": 100 + i} for i in range(n)])):
        wholes = [("table", Table(a=part, b=part), [{"a": y, "b": y} for y in v], lambda t: (t.contents["a"], t.contents["b"])),
                  ("chunks", ChunkedArray([part, part]), v + v, lambda c: tuple(c.chunks) if n else (0, 0)),
                  ("union", UnionArray.fromtags([0] * n + [1] * n, [part, part]), v + v, lambda u: tuple(u.contents))]
        for name, whole, want, get in wholes:
            for how, go in routes():
                ctx.step()
                b = go(whole)
                expect(observe(b), want, "%s of %s, %s" % (name, what, how))
                p, q = [y.array if isinstance(y, VirtualArray) else y for y in get(b)]
                if p is not q:
                    raise Violation("%s of %s, %s: shared parts are no longer shared" % (name, what, how), "not shared")
        # a virtual array that is stored as an array, next to that array
        for first in (True, False):
            virtual = VirtualArray(produce, (part,), persistvirtual=False)
            whole = Table.frompairs([("a", part), ("b", virtual)] if first else [("b", virtual), ("a", part)])
            for how, go in routes():
                ctx.step()
                expect(observe(go(whole)), [{"a": y, "b": y} for y in v] if first else [{"b": y, "a": y} for y in v], "virtual %s, %s" % (what, how))


def refused_case(ctx):
    """what can't be stored is refused with an error"""
    def local(x):
        return x
    for what, a in (("a lambda", ObjectArray([1, 2], lambda x: x)), ("a local function", ObjectArray([1, 2], local)), ("a virtual lambda", VirtualArray(lambda: numpy.arange(3)))):
        for how, go in routes():
            ctx.step()
            try:
                b = go(a)
            except Exception:
                continue
            raise Violation("%s, %s: stored as %s" % (what, how, shape_of(b)))
    # two arrays in one storage
    for one, two in itertools.product(list(KINDS), repeat=2):
        storage = {}
        ctx.step()
        serialize(KINDS[one].build([0, 1, 2]), storage, name="one")
        serialize(KINDS[two].build([2, 1]), storage, name="two")
        for name in ("one", "two", "one"):
            b = deserialize(storage, name, whitelist=WHITELIST)
            expect(observe(b), observe(KINDS[one].build([0, 1, 2]) if name == "one" else KINDS[two].build([2, 1])), "two in one storage")


def units(tier):
    q = tier == "quick"
    top = 5 if q else 7
    for kind in KINDS:
        for holder in c18.HOLDERS:
            for n in range(top):
                yield ["kind", kind, holder, n]
    for outer in c18.HOLDERS:
        for inner in c18.HOLDERS[1:]:
            for kind in ("i8", "tabview", "str", "mask", "jag", "uni") if q else KINDS:
                yield ["double", kind, outer, inner, 4 if q else 5]
    for layout in forms.LAYOUTS:
        yield ["layouts", layout, 3 if q else 4]
    for dtype in DTYPES + RECORDS:
        for n in (0, 1, 3):
            yield ["dtype", dtype, n]
    for n in range(top):
        yield ["table", n]
        yield ["parameters", n]
        yield ["virtual", n]
        yield ["shared", n]
    for used in range(5):
        for more in range(4):
            yield ["appendable", used, more]
    for n in range(5 if q else 6):
        yield ["trees", n]
    yield ["refused"]


def unit_of(case):
    return case[0]


def run_unit(unit, ctx):
    op = unit[0]
    if op == "kind":
        ctx.case([unit], kind_case, unit[1], unit[2], unit[3], ctx)
    elif op == "double":
        ctx.case([unit], double_case, unit[1], unit[2], unit[3], unit[4], ctx)
    elif op == "layouts":
        for counts in forms.count_vectors(unit[2], 3):
            ctx.case([unit, counts], layout_case, counts, unit[1], ctx)
    elif op == "dtype":
        ctx.case([unit], dtype_case, unit[1], unit[2], ctx)
    elif op == "trees":
        for parents in itertools.product(*[range(i + 1) for i in range(unit[1])]):
            ctx.case([unit, parents], tree_case, list(parents), ctx)
    elif op == "appendable":
        ctx.case([unit], appendable_case, unit[1], unit[2], ctx)
    else:
        f = {"table": table_case, "parameters": parameters_case, "virtual": virtual_case, "shared": shared_case}
        if op == "refused":
            ctx.case([unit], refused_case, ctx)
        else:
            ctx.case([unit], f[op], unit[1], ctx)
