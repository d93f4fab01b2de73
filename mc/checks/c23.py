"""C23: Arrow and Parquet conversions preserve every value and null."""
import io
import itertools
import os
import shutil
import tempfile

import numpy
import pyarrow
import pyarrow.parquet

import awkward0
from awkward0 import (BitMaskedArray, ChunkedArray, IndexedArray, IndexedMaskedArray, JaggedArray, MaskedArray, SparseArray, StringArray, Table, UnionArray, VirtualArray, fromarrow, fromparquet, toarrow, toparquet)

from .. import forms
from ..core import Violation
from ..forms import KINDS
from ..obs import expect, norm, observe, physical, text
from . import c18

ID = "C23"
RULE = "Arrow arrays of every type of a grammar with every assignment of values and nulls to short arrays and every pattern of nulls of a family on arrays longer than a byte of mask, every slice and slice of a slice of them, parts that are slices themselves, every division of tables into chunks; awkward arrays of every class over every kind of content converted to Arrow and to Parquet and back; an outcome is non-trivial when its canonical value is distinct"
ASSUMPTIONS = ["pyarrow's to_pylist() is right about Arrow arrays",
               "Arrow types without a counterpart, chunked arrays inside other arrays, two-dimensional contents, and what pyarrow can't write to Parquet (unions, dictionaries of lists or records) are refused with an error",
               "Arrow tables have no missing rows: a missing row becomes one of missing values, and objects become their contents"]
BOUNDS = {"quick": "54 types of up to 3 levels, all arrays of length 0 to 3 of 3 values, all slices and slices of slices; 24 patterns of nulls on length 19, all slices; tables of 4 rows and 2 columns with all divisions; 22 kinds x 12 containers x lengths 0 to 4, nested containers of 5 kinds",
          "thorough": "types of up to 3 levels with all pairs of members, arrays of length 0 to 4; patterns of nulls on lengths 7 to 19; tables of 5 rows; nested containers of 22 kinds"}

# ---------------------------------------------------------------- Arrow types
LEAVES = ["int64", "double", "bool", "string", "binary", "int8", "uint16", "float", "large_string", "large_binary", "halffloat", "uint64", "int32"]


def tpe(t):
    if isinstance(t, str):
        return {"int64": pyarrow.int64(), "double": pyarrow.float64(), "bool": pyarrow.bool_(), "string": pyarrow.string(), "binary": pyarrow.binary(), "int8": pyarrow.int8(), "uint16": pyarrow.uint16(), "float": pyarrow.float32(), "large_string": pyarrow.large_string(), "large_binary": pyarrow.large_binary(), "halffloat": pyarrow.float16(), "uint64": pyarrow.uint64(), "int32": pyarrow.int32()}[t]
    head, args = t[0], t[1:]
    if head == "list":
        return pyarrow.list_(tpe(args[0]))
    if head == "large_list":
        return pyarrow.large_list(tpe(args[0]))
    if head == "struct":
        return pyarrow.struct([(n, tpe(x)) for n, x in zip("abc", args)])
    if head == "dictionary":
        return pyarrow.dictionary(getattr(pyarrow, args[0])(), tpe(args[1]))
    raise ValueError(t)


def domain(t):
    """three values, one of them null"""
    if isinstance(t, str):
        return [None] + {"int64": [1, -2], "double": [0.5, float("nan")], "bool": [True, False], "string": [u"", u"\u00e9x"], "binary": [b"", b"\xffx\x00"], "int8": [1, -128], "uint16": [0, 65535], "float": [0.5, -1.0], "large_string": [u"", u"\u00e9x"], "large_binary": [b"a", b""], "halffloat": [numpy.float16(0.5), numpy.float16(2)], "uint64": [2**64 - 1, 0], "int32": [-1, 7]}[t]
    head, args = t[0], t[1:]
    if head in ("list", "large_list"):
        x = domain(args[0])
        return [None, [], [x[1], x[0], x[2]]]
    if head in ("struct", "union", "sparse"):
        ds = [domain(x) for x in args]
        if head == "struct":
            return [None] + [dict(zip("abc", v)) for v in ([d[1 + i % 2] for i, d in enumerate(ds)], [d[(2 * i + 2) % 3] for i, d in enumerate(ds)])]
        return [(0, ds[0][1]), (1, ds[1][2]), (1, ds[1][0])]
    if head == "dictionary":
        return domain(args[1])
    raise ValueError(t)


def build(t, values):
    if not isinstance(t, str):
        if t[0] in ("union", "sparse"):
            tags = pyarrow.array([v[0] for v in values], pyarrow.int8())
            if t[0] == "sparse":
                return pyarrow.UnionArray.from_sparse(tags, [build(x, [v[1] if v[0] == i else domain(x)[1] for v in values]) for i, x in enumerate(t[1:])])
            members = [[v[1] for v in values if v[0] == i] for i in range(len(t) - 1)]
            seen, offsets = [0] * len(members), []
            for v in values:
                offsets.append(seen[v[0]])
                seen[v[0]] += 1
            return pyarrow.UnionArray.from_dense(tags, pyarrow.array(offsets, pyarrow.int32()), [build(x, m) for x, m in zip(t[1:], members)])
        if t[0] == "dictionary":
            distinct = []
            for v in values:
                if v is not None and v not in distinct:
                    distinct.append(v)
            return pyarrow.DictionaryArray.from_arrays(pyarrow.array([None if v is None else distinct.index(v) for v in values], getattr(pyarrow, t[1])()), build(t[2], distinct))
        null = numpy.array([v is None for v in values], dtype=bool)
        valid = None if not null.any() else pyarrow.py_buffer(numpy.packbits(~null, bitorder="little"))
        if t[0] == "struct":
            contents = [build(x, [None if v is None else v[n] for v in values]) if x[0] not in ("union", "sparse") else build(x, [domain(x)[0] if v is None else v[n] for v in values]) for n, x in zip("abc", t[1:])]
            return pyarrow.Array.from_buffers(pyarrow.struct([(n, x.type) for n, x in zip("abc", contents)]), len(values), [valid], children=contents)
        if t[0] in ("list", "large_list"):
            # missing lists have contents that must not be seen
            lists = [domain(t)[2][:2] if v is None else v for v in values]
            content = build(t[1], [y for x in lists for y in x])
            offsets = numpy.cumsum([0] + [len(x) for x in lists]).astype("i4" if t[0] == "list" else "i8")
            return pyarrow.Array.from_buffers(getattr(pyarrow, t[0] if t[0] != "list" else "list_")(content.type), len(values), [valid, pyarrow.py_buffer(offsets)], children=[content])
    return pyarrow.array(values, tpe(t))


def composites(inner):
    for x in inner:
        yield ("list", x)
    for x, y in zip(inner, inner[1:] + inner[:1]):
        yield ("struct", x, y)
        yield ("union", x, y)
        yield ("sparse", y, x)


def types(tier):
    out = list(LEAVES)
    out += [("dictionary", i, x) for i, x in zip(["int8", "uint8", "int32", "int64", "int16"], ["string", "double", "binary", "int64", "large_string"])]
    out += list(composites(["int64", "bool", "string", "double"]))
    out += [("large_list", "string"), ("large_list", ("struct", "int8", "bool")), ("struct", "bool"), ("struct", "int64", "string", "bool")]
    two = [("list", "int64"), ("struct", "bool", "string"), ("union", "int64", "string"), ("sparse", "bool", "double"), ("dictionary", "int8", "string"), ("large_list", "bool"), ("list", "string")]
    out += list(composites(two))
    out += [("dictionary", "int8", ("list", "int64")), ("dictionary", "int8", ("struct", "string", "bool"))]
    if tier == "thorough":
        out += [(h, x, y) for h in ("struct", "union", "sparse") for x in two + LEAVES[:5] for y in two + LEAVES[:5]]
        out += list(composites([("list", x) for x in two] + [("struct", x, "string") for x in two] + [("union", "bool", x) for x in two]))
    seen = []
    for t in out:
        if t not in seen:
            seen.append(t)
    return seen


def expected(x):
    return norm(x.to_pylist())


def read(x, want, what, ctx):
    """an Arrow array of value want is converted"""
    ctx.step()
    a = fromarrow(x)
    got = expect(observe(a), want, what)
    if len(a) != len(want):
        raise Violation("%s: length %d, expected %d" % (what, len(a), len(want)), "length")
    return a, got


def sub(n):
    for i in range(n + 1):
        for j in range(i, n + 1):
            yield i, j


def back(a, want, ctx, what):
    ctx.step()
    want = rows_of(a, want)
    y = toarrow(a)
    expect(expected(y), want, "%s: converted back" % what)
    expect(observe(fromarrow(y)), want, "%s: converted twice" % what)


def array_case(t, values, ctx):
    x = build(t, values)
    whole = expected(x)
    expect(whole, norm([v[1] if isinstance(v, tuple) else v for v in values]) if t[0] in ("union", "sparse") else norm(values), "harness") if not has_union(t) else None
    n = len(values)
    a, got = read(x, whole, "whole", ctx)
    ctx.outcome(got)
    ctx.state(physical(a))
    back(a, whole, ctx, "whole")
    for i, j in sub(n):
        s = x[i:j]
        b, _ = read(s, whole[i:j], "slice %d:%d" % (i, j), ctx)
        if (i, j) in ((1, n), (0, n - 1), (1, n - 1)):
            back(b, whole[i:j], ctx, "slice %d:%d" % (i, j))
            expect(norm(b[::-1]), whole[i:j][::-1], "reversed slice")
        for k, l in sub(j - i):
            if k or l != j - i:
                read(s[k:l], whole[i:j][k:l], "slice %d:%d of slice %d:%d" % (k, l, i, j), ctx)


def has_union(t):
    return not isinstance(t, str) and (t[0] in ("union", "sparse") or any(has_union(x) for x in t[1:]))


# ---------------------------------------------------------------- longer than a byte of mask
BITS = ["int64", "bool", "string", "double", ("list", "int64"), ("struct", "bool", "string"), ("dictionary", "int8", "string"), ("list", "bool"), ("struct", ("list", "bool"), "int64"), ("list", ("struct", "bool", "int64"))]


def patterns(n):
    yield "none", lambda i: False
    yield "all", lambda i: True
    for k in (2, 3, 5, 7, 8, 9):
        yield "every %d" % k, lambda i, k=k: i % k == 0
    for k in range(0, n, 1):
        yield "only %d" % k, lambda i, k=k: i == k


def bits_case(t, n, pattern, ctx):
    null = dict(patterns(n))[pattern]
    d = domain(t)
    x = build(t, [None if null(i) else d[1 + i * (i + 1) // 2 % 2] for i in range(n)])
    whole = expected(x)
    a, got = read(x, whole, "whole", ctx)
    ctx.outcome(got)
    back(a, whole, ctx, "whole")
    for i, j in sub(n):
        ctx.step()
        expect(fromarrow(x[i:j]).tolist(), whole[i:j], "slice %d:%d" % (i, j))
        if j == n or i + 9 == j:
            y = x[i:j]
            if t[0] == "list" and len(y):
                # the content by itself
                expect(norm(fromarrow(y.flatten())), norm(y.flatten().to_pylist()), "flattened slice %d:%d" % (i, j))
            if t[0] == "struct":
                for k in range(2):
                    expect(norm(fromarrow(y.field(k))), norm(y.field(k).to_pylist()), "field of slice %d:%d" % (i, j))
            b = fromarrow(y)
            z = toarrow(b)
            expect(expected(z), rows_of(b, whole[i:j]), "slice %d:%d converted back" % (i, j))


# ---------------------------------------------------------------- made of slices
def parts_cases():
    for t in ("int64", "bool", "string", "double", ("list", "int64"), ("struct", "bool", "string"), ("dictionary", "int8", "string"), ("union", "int64", "string")):
        yield t


def parts_case(t, ctx):
    d = domain(t)
    c = build(t, [d[(i * i + i // 3) % 3] for i in range(12)])
    o = pyarrow.array([u"%d" % i if i % 4 else None for i in range(20)])
    for i in (0, 1, 3, 8):
        for n in (0, 1, 3, 4):
            y, z = c[i:i + n], o[i + n // 2:][:n]
            made = [("struct", pyarrow.StructArray.from_arrays([y, z], ["a", "b"]))]
            for offsets in itertools.product(range(n + 1), repeat=3):
                if list(offsets) == sorted(offsets):
                    made.append(("list %s" % (offsets,), pyarrow.ListArray.from_arrays(pyarrow.array(offsets, pyarrow.int32()), y)))
                    made.append(("missing list %s" % (offsets,), pyarrow.ListArray.from_arrays(pyarrow.array([offsets[0], None, offsets[2]], pyarrow.int32()), y)))
                    made.append(("large list %s" % (offsets,), pyarrow.LargeListArray.from_arrays(pyarrow.array((9,) + offsets, pyarrow.int64())[1:], y)))
            if n:
                for index in itertools.product([None, 0, n - 1], repeat=3):
                    if t != ("dictionary", "int8", "string") and t[0] != "union":
                        made.append(("dictionary %s" % (index,), pyarrow.DictionaryArray.from_arrays(pyarrow.array((0,) + index, pyarrow.int8())[1:], y)))
                        made.append(("dictionary %s" % (index,), pyarrow.DictionaryArray.from_arrays(pyarrow.array((0,) + index, pyarrow.uint16())[1:], y)))
                for tags in itertools.product([0, 1], repeat=3):
                    made.append(("dense %s" % (tags,), pyarrow.UnionArray.from_dense(pyarrow.array((0,) + tags, pyarrow.int8())[1:], pyarrow.array([0, 0, n - 1, n // 2], pyarrow.int32())[1:], [y, z])))
                    if n == 3:
                        made.append(("sparse %s" % (tags,), pyarrow.UnionArray.from_sparse(pyarrow.array(tags, pyarrow.int8()), [y, z])))
                    for codes in ([5, 2], [1, 0]):
                        made.append(("codes %s %s" % (codes, tags), pyarrow.UnionArray.from_dense(pyarrow.array([codes[k] for k in tags], pyarrow.int8()), pyarrow.array([0, n - 1, n // 2], pyarrow.int32()), [y, z], ["p", "q"], codes)))
                        if n == 3:
                            made.append(("sparse codes %s %s" % (codes, tags), pyarrow.UnionArray.from_sparse(pyarrow.array([codes[k] for k in tags], pyarrow.int8()), [y, z], ["p", "q"], codes)))
            for what, x in made:
                whole = expected(x)
                for k, l in [(0, len(x))] + [(1, len(x)), (0, len(x) - 1), (1, 2), (2, 2)] * (len(x) > 2):
                    a, got = read(x[k:l], whole[k:l], "%s of %d:%d, slice %d:%d" % (what, i, i + n, k, l), ctx)
                    back(a, whole[k:l], ctx, what)
                    ctx.outcome(got)


# ---------------------------------------------------------------- tables and chunks
def divisions(n):
    for bits in itertools.product([False, True], repeat=max(n - 1, 0)):
        out, start = [], 0
        for i, b in enumerate(bits):
            if b:
                out.append((start, i + 1))
                start = i + 1
        yield out + [(start, n)]


def chunked(x, division, empties):
    chunks = [x[i:j] for i, j in division]
    if empties == 1:
        chunks = [x[0:0]] + chunks
    elif empties == 2:
        chunks = [y for c in chunks for y in (c, x[1:1])]
    return pyarrow.chunked_array(chunks, type=x.type)


COLUMNS = ["int64", "bool", "string", ("list", "bool"), ("struct", "bool", "string"), ("dictionary", "int8", "string")]


def table_case(t, u, n, division, ctx):
    xs = []
    for k, s in enumerate((t, u)):
        d = domain(s)
        xs.append(build(s, [d[(i + k) % 3] for i in range(n + 2)])[1:n + 1])
    division = [tuple(x) for x in division]
    wants = [expected(x) for x in xs]
    for empties in (0, 1, 2):
        c = chunked(xs[0], division, empties)
        a, got = read(c, wants[0], "chunked array", ctx)
        ctx.outcome(got)
        for i, j in sub(n):
            read(c[i:j], wants[0][i:j], "slice of a chunked array", ctx)
    rows = [dict(zip("pq", r)) for r in zip(*wants)]
    batch = pyarrow.RecordBatch.from_arrays(xs, ["p", "q"])
    for i, j in sub(n):
        read(batch[i:j], rows[i:j], "slice %d:%d of a batch" % (i, j), ctx)
    for other in divisions(n):
        tab = pyarrow.Table.from_arrays([chunked(xs[0], division, 0), chunked(xs[1], other, 1)], ["p", "q"])
        a, got = read(tab, rows, "table", ctx)
        ctx.outcome(got)
        for i, j in sub(n):
            read(tab[i:j], rows[i:j], "slice %d:%d of a table" % (i, j), ctx)
        if n:
            back(a, rows, ctx, "table")


def refused_case(ctx):
    """types without a counterpart are refused, not misread"""
    import datetime
    import decimal
    day, now = datetime.date(2020, 2, 3), datetime.datetime(2020, 2, 3, 4, 5, 6)
    for x in (pyarrow.array([day, None]), pyarrow.array([None, None]), pyarrow.array([decimal.Decimal("1.5"), None]), pyarrow.array([b"ab", None], pyarrow.binary(2)), pyarrow.array([[1, 2], None], pyarrow.list_(pyarrow.int64(), 2)), pyarrow.array([[(1, 2)], None], pyarrow.map_(pyarrow.int64(), pyarrow.int64())),
              pyarrow.array([now.time(), None]), pyarrow.array([now, None], pyarrow.timestamp("us", tz="UTC")), pyarrow.array([[None], []]), pyarrow.array([{"a": day}])):
        for y in (x, x[1:], x[:1], x[2:]):
            ctx.step()
            try:
                got = norm(fromarrow(y))
            except Exception:
                ctx.outcome("refused %s" % y.type)
            else:
                expect(got, norm(y.to_pylist()), str(y.type))
    for unit in ("s", "ms", "us", "ns"):
        for t in (pyarrow.timestamp(unit), pyarrow.duration(unit)):
            x = pyarrow.array([0, None, 5, -7, 11, None, 3, 2, 1, 0], t)
            for i, j in sub(10):
                ctx.step()
                got = [None if y is None else (int(y.astype("i8")), y.dtype.str) for y in fromarrow(x[i:j])]
                want = [None if y is None else (y, "<%s8[%s]" % ("M" if t == pyarrow.timestamp(unit) else "m", unit)) for y in x[i:j].cast(pyarrow.int64()).to_pylist()]
                expect(got, want, "%s %d:%d" % (t, i, j))
    for junk in (None, 3, [1], numpy.arange(3), pyarrow.int64(), pyarrow.schema([])):
        try:
            fromarrow(junk)
        except Exception:
            ctx.outcome("refused")
        else:
            raise Violation("fromarrow(%r) didn't fail" % (junk,), "no error")
    for name in ("a.b", "", "a b", u"\u00e9", "0", "list", "item"):
        x = pyarrow.Table.from_arrays([pyarrow.array([1, None]), pyarrow.array([u"x", u"y"])], [name, "z"])
        read(x, [{name: 1, "z": u"x"}, {name: None, "z": u"y"}], "column %r" % name, ctx)


# ---------------------------------------------------------------- awkward arrays
def arrowed(v):
    if isinstance(v, forms.Point):
        return v.v
    if isinstance(v, tuple):
        return dict((str(i), arrowed(x)) for i, x in enumerate(v))
    if isinstance(v, dict):
        return dict((n, arrowed(x)) for n, x in v.items())
    if isinstance(v, list):
        return [arrowed(x) for x in v]
    return v


def rows_of(a, v):
    """missing rows of a table are rows of missing values"""
    if isinstance(a, MaskedArray) and isinstance(a.content, Table):
        return [dict((n, None) for n in a.content.columns) if x is None else x for x in v]
    if isinstance(a, ChunkedArray):
        return [y for c, k in zip(a.chunks, range(10**6)) for y in rows_of(c, norm(c) if False else v[sum(len(d) for d in a.chunks[:k]):sum(len(d) for d in a.chunks[:k + 1])])]
    return v


def contains(a, cls, top=True, seen=None):
    """classes of the parts, other than the chunks of the outermost array"""
    if isinstance(a, numpy.ndarray):
        return cls is numpy.ndarray and a.ndim > 1
    if cls == "sparse" and isinstance(a, SparseArray) and not isinstance(a.content, numpy.ndarray):
        return True
    if isinstance(a, ChunkedArray):
        return (cls is ChunkedArray and not top) or any(contains(x, cls, isinstance(x, ChunkedArray)) for x in a.chunks)
    if cls is ChunkedArray and not top and isinstance(a, cls):
        return True
    if isinstance(a, VirtualArray):
        return contains(a.array, cls, False)
    if isinstance(a, StringArray):
        return False
    if isinstance(a, UnionArray):
        return any(contains(x, cls, False) for x in a.contents)
    if isinstance(a, Table):
        return any(contains(x, cls, False) for x in a.contents.values())
    return contains(a.content, cls, False)


def awk_case(make, v, ctx, parquet=None):
    a = make()
    expect(observe(a), norm(v), "harness")
    want = norm(rows_of(a, arrowed(v)))
    before = physical(a)
    ctx.state(before)
    bad = contains(a, ChunkedArray) or contains(a, numpy.ndarray) or contains(a, "sparse")
    if isinstance(a, ChunkedArray) and not bad:
        schemas = [str(x.schema if isinstance(x, pyarrow.Table) else x.type) for x in map(toarrow, a.chunks)]
        bad = len(set(schemas)) > 1
    ctx.step()
    try:
        x = toarrow(a)
    except Exception as err:
        if bad or (isinstance(a, ChunkedArray) and len(a.chunks) == 0):
            ctx.outcome("refused")
            if physical(a) != before:
                raise Violation("the array changed", "operand changed")
            return
        raise
    got = plain(x)
    ctx.outcome(expect(got, want, "in Arrow"))
    if physical(a) != before:
        raise Violation("the array changed", "operand changed")
    b = fromarrow(x)
    expect(nameless(x, observe(b)), want, "from Arrow")
    for i, j in [(1, None), (None, -1), (1, 3)]:
        ctx.step()
        expect(nameless(x, observe(fromarrow(x[slice(i, j)] if not isinstance(x, pyarrow.Table) else x.slice(i or 0, max(0, len(want[slice(i, j)])))))), want[slice(i, j)], "from a slice of the Arrow array")
    if parquet is not None:
        writes(make, x, want, parquet, ctx)


def plain(x):
    return nameless(x, norm(x.to_pylist()))


def nameless(x, v):
    if isinstance(x, pyarrow.Table) and x.schema.names == [""]:
        return [r[""] for r in v]
    return v


def writes(make, x, want, path, ctx):
    # what pyarrow can't write at all isn't asked for
    y = x if isinstance(x, pyarrow.Table) else pyarrow.Table.from_arrays([x], [""])
    try:
        pyarrow.parquet.write_table(y, io.BytesIO())
        direct = True
    except Exception:
        direct = False
    ctx.step()
    if os.path.exists(path):
        os.remove(path)
    try:
        toparquet(path, make())
    except Exception:
        if direct:
            raise
        ctx.outcome("not written")
        return
    for cache in (None, {}):
        ctx.step()
        a = fromparquet(path, cache=cache)
        expect(observe(a), want, "from Parquet")
        expect(norm(a[::-1]), want[::-1], "from Parquet, reversed")
        if len(want):
            fresh = fromparquet(path, cache=cache)
            expect(norm(fresh[len(want) - 1]), want[-1], "last one from Parquet")
        names = sorted(set(n for r in want for n in r)) if isinstance(x, pyarrow.Table) and x.schema.names != [""] else []
        for n in names:
            expect(norm(fromparquet(path)[n]), [r[n] for r in want], "column from Parquet")


def kind_case(kind, holder, n, ctx, path):
    make = lambda: c18.hold(holder, lambda ids: KINDS[kind].build(ids), n)[0]
    awk_case(make, value_of(make, kind, holder, n), ctx, path)


def value_of(make, kind, holder, n):
    return c18.hold(holder, lambda ids: KINDS["i8"].build(ids), n)[1]([KINDS[kind].value(i) for i in range(n)]) if kind != "unum" else norm(make())


def column_case(kind, holder, n, ctx, path):
    """as columns of a table, beside others"""
    def make():
        c = c18.hold(holder, lambda ids: KINDS[kind].build(ids), n)[0]
        return Table(i=numpy.arange(len(c)), c=c)
    v = value_of(lambda: make()["c"], kind, holder, n)
    rows = [{"i": i, "c": x} for i, x in enumerate(v)]
    awk_case(make, rows, ctx, path)
    awk_case(lambda: make()[::-1], rows[::-1], ctx)
    awk_case(lambda: make()[1:], rows[1:], ctx, path)
    k = len(v)
    mask = [i % 2 == 0 for i in range(k)]
    awk_case(lambda: MaskedArray(numpy.array(mask, dtype=bool), make()), [None if m else r for m, r in zip(mask, rows)], ctx)
    awk_case(lambda: JaggedArray.fromcounts([k, 0], make()), [rows, []], ctx)
    awk_case(lambda: JaggedArray.fromcounts([k, 0], MaskedArray(numpy.array(mask, dtype=bool), make())), [[None if m else r for m, r in zip(mask, rows)], []], ctx)
    awk_case(lambda: Table(t=MaskedArray(numpy.array(mask, dtype=bool), make())), [{"t": None if m else r} for m, r in zip(mask, rows)], ctx)


def double_case(kind, outer, inner, n, ctx, path):
    b, f = c18.hold(inner, lambda ids: KINDS[kind].build(ids), n)
    w = f([KINDS[kind].value(i) for i in range(n)])
    m = len(w)
    if m == 0 and outer in ("jagged gaps", "indexed", "indexedmasked"):
        return
    place = lambda ids: b[numpy.array([i if i >= 0 else 0 for i in ids], dtype=int)] if m else b
    make = lambda: c18.hold(outer, place, m)[0]
    v = c18.hold(outer, lambda ids: KINDS["i8"].build(ids), m)[1](w) if kind != "unum" else norm(make())
    awk_case(make, v, ctx, path)


def odd_cases():
    """(name, make, value)"""
    ints = numpy.arange(5) * 11
    yield "longer content", lambda: MaskedArray(numpy.array([True, False, False]), ints[:3]), [None, 11, 22]
    yield "out of range index", lambda: IndexedMaskedArray(numpy.array([99, 1, 99, 0]), ints, maskedwhen=99), [None, 11, None, 0]
    yield "other index", lambda: IndexedMaskedArray(numpy.array([2, 1, 2, 0]), ints, maskedwhen=2), [None, 11, None, 0]
    yield "nothing to index", lambda: IndexedMaskedArray(numpy.array([-1, -1]), ints[:0]), [None, None]
    yield "nothing to index in strings", lambda: IndexedMaskedArray(numpy.array([-1, -1]), StringArray.fromiter([])), [None, None]
    t = lambda: Table(x=ints, y=StringArray.fromiter(["a", "bb", "", "c", "d"]))
    rows = [{"x": 11 * i, "y": ["a", "bb", "", "c", "d"][i]} for i in range(5)]
    yield "index of a table", lambda: IndexedMaskedArray(numpy.array([4, -1, 0, 0]), t()), [rows[4], None, rows[0], rows[0]]
    yield "index of nothing in a table", lambda: IndexedMaskedArray(numpy.array([-1, -1]), t()[:0]), [None, None]
    yield "masked table view", lambda: MaskedArray(numpy.array([True, False]), t()[1:3]), [None, rows[2]]
    yield "empty masked table", lambda: MaskedArray(numpy.array([], dtype=bool), t()[:0]), []
    yield "bitmasked table", lambda: BitMaskedArray.fromboolmask(numpy.array([True, False, True, False, False]), t()), [None, rows[1], None, rows[3], rows[4]]
    yield "longer column", lambda: Table(x=numpy.arange(7) * 11, y=StringArray.fromiter(["a", "bb", "", "c", "d"])), rows
    yield "longer column in a list", lambda: JaggedArray.fromcounts([2, 3], Table(x=numpy.arange(7) * 11, y=StringArray.fromiter(["a", "bb", "", "c", "d"]))), [rows[:2], rows[2:]]
    u = lambda: UnionArray(numpy.array([0, 1, 0, 1, 1]), numpy.array([0, 1, 0, 1, 0]), [ints, StringArray.fromiter(["a", "bb"])])
    uv = [0, "bb", 0, "bb", "a"]
    yield "union with repeats", u, uv
    for mask in ([True, False, False, False, False], [False, True, False, False, True], [False] * 5, [True] * 5):
        yield "masked union with repeats %s" % mask, lambda mask=mask: MaskedArray(numpy.array(mask), u()), [None if m else x for m, x in zip(mask, uv)]
        yield "masked strings %s" % mask, lambda mask=mask: MaskedArray(numpy.array(mask), StringArray.fromiter(["a", "", "cc", "d", "e"])), [None if m else x for m, x in zip(mask, ["a", "", "cc", "d", "e"])]
        yield "masked bytes %s" % mask, lambda mask=mask: MaskedArray(numpy.array(mask), StringArray.fromiter([b"a", b"", b"cc", b"d", b"e"], encoding=None)), [None if m else x for m, x in zip(mask, [b"a", b"", b"cc", b"d", b"e"])]
        yield "masked dictionary %s" % mask, lambda mask=mask: MaskedArray(numpy.array(mask), IndexedArray([4, 0, 0, 2, 1], t())), None
        yield "masked lists of masked %s" % mask, lambda mask=mask: MaskedArray(numpy.array(mask), JaggedArray.fromcounts([1, 0, 2, 1, 1], MaskedArray(numpy.array(mask), ints))), None
        yield "mask of a mask %s" % mask, lambda mask=mask: MaskedArray(numpy.array(mask), MaskedArray(numpy.array(mask[::-1]), ints)), None
        yield "masked view %s" % mask, lambda mask=mask: MaskedArray(numpy.array(mask), t()[::-1]), None
    yield "latin-1", lambda: StringArray.fromiter([u"\u00e9"], encoding="latin-1"), "refused"
    yield "utf8", lambda: StringArray.fromiter([u"\u00e9", u""], encoding="utf8"), [u"\u00e9", u""]
    for dtype in ("?", "i1", "u1", "i2", "u2", "i4", "u4", "i8", "u8", "f2", "f4", "f8", "U3", "S3", ">i4", ">f8"):
        x = numpy.arange(4).astype(dtype)
        yield "numpy %s" % dtype, lambda x=x: x, "numpy"
        yield "numpy reversed %s" % dtype, lambda x=x: x[::-1], "numpy"
        yield "masked numpy %s" % dtype, lambda x=x: MaskedArray(numpy.array([True, False, False, True]), x[::-1]), "numpy"
    yield "nan", lambda: numpy.array([float("nan"), 1.0]), [float("nan"), 1.0]
    yield "masked nan", lambda: MaskedArray([False, True, False], numpy.array([float("nan"), float("nan"), 1.0])), [float("nan"), None, 1.0]
    yield "named", lambda: Table.named("Point", x=ints, y=ints), [{"x": 11 * i, "y": 11 * i} for i in range(5)]
    yield "anonymous", lambda: Table(ints, ints + 1), [(11 * i, 11 * i + 1) for i in range(5)]
    yield "no chunks", lambda: ChunkedArray([]), []
    yield "different chunks", lambda: ChunkedArray([t()[:2], t()[2:], t()[:0]]), rows
    yield "chunks of views", lambda: ChunkedArray([t()[::-1], MaskedArray(numpy.array([False, True]), t()[:2])]), None


def odd_case(name, ctx, path):
    for what, make, v in odd_cases():
        if what != name:
            continue
        if isinstance(v, str):
            a = make()
            w = norm(a)
            if isinstance(a, numpy.ndarray):
                ctx.step()
                try:
                    x = toarrow(a)
                except Exception:
                    if a.dtype.byteorder == ">":
                        return ctx.outcome("refused")
                    raise
                expect(norm(x.to_pylist()), w, "numpy")
                expect(norm(fromarrow(x)), w, "numpy back")
                writes(make, x, w, path, ctx)
            elif v == "refused" or a.content.dtype.byteorder == ">":
                try:
                    x = toarrow(a)
                except Exception:
                    return ctx.outcome("refused")
                expect(norm(x.to_pylist()), w, "converted")
            else:
                awk_case(make, w, ctx, path)
        else:
            awk_case(make, norm(make()) if v is None else v, ctx, path)


# ---------------------------------------------------------------- Parquet written by others
def file_case(t, u, n, size, ctx, path):
    cols = []
    for k, s in enumerate((t, u)):
        d = domain(s)
        cols.append(build(s, [d[(i + k) % 3] for i in range(n)]))
    tab = pyarrow.Table.from_arrays(cols, ["p", "q"])
    try:
        pyarrow.parquet.write_table(tab, path, row_group_size=size)
    except pyarrow.ArrowNotImplementedError:
        return
    rows = [dict(zip("pq", r)) for r in zip(*[expected(c) for c in cols])]
    for cache in (None, {}):
        ctx.step()
        a = fromparquet(path, cache=cache)
        ctx.outcome(expect(observe(a), rows, "groups of %d" % size))
        b = fromparquet(path, cache=cache)
        for i, j in sub(n):
            expect(norm(b[i:j]["q"]), [r["q"] for r in rows[i:j]], "q of %d:%d" % (i, j))
            expect(norm(b[i:j]), rows[i:j], "%d:%d" % (i, j))
    if size < n:
        nonull = pyarrow.Table.from_arrays([pyarrow.array(range(n)), cols[1]], schema=pyarrow.schema([pyarrow.field("p", pyarrow.int64(), False), pyarrow.field("q", cols[1].type)]))
        pyarrow.parquet.write_table(nonull, path, row_group_size=size)
        expect(observe(fromparquet(path)), [{"p": i, "q": r["q"]} for i, r in enumerate(rows)], "never null")


def iterator_case(n, ctx, path):
    """several arrays written one after the other"""
    t = Table(x=numpy.arange(5), y=StringArray.fromiter(["a", "bb", "", "c", "d"]), z=MaskedArray([True, False, True, False, False], numpy.arange(5) * 0.5))
    rows = norm(t)
    for division in divisions(n):
        for what, make in (("generator", lambda: (t[i:j] for i, j in division)), ("list", lambda: [t[i:j] for i, j in division]), ("chunked", lambda: ChunkedArray([t[i:j] for i, j in division]))):
            ctx.step()
            toparquet(path, make())
            ctx.outcome(expect(observe(fromparquet(path)), rows[:n], what))
    for what, make in (("nothing", lambda: iter([])), ("no list", lambda: []), ("number", lambda: 5), ("numbers", lambda: [3, 4]), ("different", lambda: [t, numpy.arange(3)]), ("not an array", lambda: [t, 3])):
        try:
            toparquet(path, make())
        except Exception:
            ctx.outcome("refused " + what)
        else:
            raise Violation("writing %s didn't fail" % what, "no error")
    # the file of what failed halfway isn't in the way of another
    toparquet(path, t)
    expect(observe(fromparquet(path)), rows, "afterwards")


# ---------------------------------------------------------------- what is enumerated
def units(tier):
    deep = tier == "thorough"
    for t in types(tier):
        yield ["array", t, 4 if deep else 3]
    for t in BITS:
        for n in range(7, 20) if deep else (19,):
            yield ["bits", t, n]
    for t in parts_cases():
        yield ["parts", t]
    for t in COLUMNS:
        yield ["table", t, 5 if deep else 4]
        for u in COLUMNS + LEAVES + [("struct", ("list", "bool"), "int64"), ("list", ("struct", "bool", "int64"))]:
            if deep or isinstance(u, tuple) or t in ("int64", "string"):
                yield ["file", t, u]
    yield ["refused"]
    for k in KINDS:
        yield ["kind", k]
    for k in (sorted(KINDS) if tier == "thorough" else ["i8", "str", "tabview", "mask", "jag"]):
        for h in c18.HOLDERS[1:]:
            yield ["double", k, h]
    yield ["odd"]
    yield ["iterator"]


def unit_of(case):
    return case[0]


def run_unit(unit, ctx):
    path = tempfile.mkdtemp(prefix="c23-")
    try:
        run(unit, ctx, os.path.join(path, "file.parquet"))
    finally:
        shutil.rmtree(path)


def tup(t):
    return t if isinstance(t, str) else tuple(tup(x) for x in t)


def run(unit, ctx, path):
    what = unit[0]
    if what == "array":
        t = tup(unit[1])
        for n in range(unit[2] + 1):
            for values in itertools.product(range(3), repeat=n):
                ctx.case([unit, list(values)], lambda: array_case(t, [domain(t)[i] for i in values], ctx))
    elif what == "bits":
        for p, _ in patterns(unit[2]):
            ctx.case([unit, p], bits_case, tup(unit[1]), unit[2], p, ctx)
    elif what == "parts":
        ctx.case([unit], parts_case, tup(unit[1]), ctx)
    elif what == "table":
        for u in COLUMNS:
            for n in (0, 1, 2, unit[2]):
                for d in divisions(n):
                    ctx.case([unit, u, n, d], table_case, tup(unit[1]), u, n, d, ctx)
    elif what == "file":
        for n in (0, 1, 4, 9):
            for size in (1, 2, 3, 100):
                if size == 1 or size < n or size == 100:
                    ctx.case([unit, n, size], file_case, tup(unit[1]), tup(unit[2]), n, size, ctx, path)
    elif what == "refused":
        ctx.case([unit], refused_case, ctx)
    elif what == "kind":
        for h in c18.HOLDERS:
            for n in range(5):
                ctx.case([unit, h, n], kind_case, unit[1], h, n, ctx, path)
                ctx.case([unit, "column", h, n], column_case, unit[1], h, n, ctx, path)
    elif what == "double":
        for h in c18.HOLDERS[1:]:
            for n in (0, 1, 3, 4):
                ctx.case([unit, h, n], double_case, unit[1], unit[2], h, n, ctx, path)
    elif what == "odd":
        for name, _, _ in odd_cases():
            ctx.case([unit, name], odd_case, name, ctx, path)
    elif what == "iterator":
        for n in (1, 2, 3, 5):
            ctx.case([unit, n], iterator_case, n, ctx, path)
