"""C26: structures that point outside their data are refused, the others are accepted."""
import itertools

import numpy

import awkward0
from awkward0 import (BitMaskedArray, ChunkedArray, IndexedArray, IndexedMaskedArray, JaggedArray, MaskedArray, SparseArray, StringArray, Table, UnionArray, VirtualArray)
from awkward0.array.base import AwkwardArray
from awkward0.type import ArrayType

from .. import ops
from ..core import Violation
from ..obs import expect, norm, observe, physical, text

ID = "C26"
RULE = "parts that satisfy the conditions of docs/classes.adoc give an array with the value they mean; for parts that don't, constructing the array, or else every use of it (each one the first use), raises an error; the same after assigning the parts one by one to an array that was already used, and through copy(part=...)"
ASSUMPTIONS = [
    "an empty list may lie anywhere; lengths are those of the documentation (stops may be longer than starts, contents longer than what is used)",
    "a negative mask-index other than maskedwhen is refused (the documentation says any negative value means missing, the implementation has one maskedwhen)",
    "a mask of a MaskedArray of any type is converted to booleans; unions check the index of each tag against its own content",
    "parts of a nested array are checked when an element in it is first used",
    "the types of the chunks of a ChunkedArray are compared as they become known, so using one with chunks of different types may work",
]
BOUNDS = {
    "quick": "JaggedArray and StringArray with up to 2 lists and starts, stops of -1..3 (5 dtypes, stops longer or shorter, 2-dimensional), offsets up to 4, counts and parents up to 3; masks, indexes, tags and mask-indexes up to 3 elements of -2..3; contents of length 0..3 in 6 classes; 14 first uses; every assignment of another part after a use",
    "thorough": "three lists, and starts and stops of -1..4",
}

# ---------------------------------------------------------------- contents of a given length
NUMBERS = [100, 101, 102, 103, 104, 105, 106, 107]
CONTENTS = {
    "numpy": (lambda n: numpy.array(NUMBERS[:n], dtype="i8"), lambda i: NUMBERS[i]),
    "table": (lambda n: Table(x=numpy.array(NUMBERS[:n], dtype="i8"), y=numpy.arange(n + 2)), lambda i: {"x": NUMBERS[i], "y": i}),
    "jagged": (lambda n: JaggedArray(numpy.zeros(n, dtype=int), numpy.ones(n + 1, dtype=int), numpy.array(NUMBERS)), lambda i: [NUMBERS[0]]),
    "union": (lambda n: UnionArray(numpy.zeros(n, dtype="u1"), numpy.arange(n + 2), [numpy.array(NUMBERS)]), lambda i: NUMBERS[i]),
    "virtual": (lambda n: VirtualArray(ops.produce, (numpy.array(NUMBERS[:n], dtype="i8"),)), lambda i: NUMBERS[i]),
    "masked": (lambda n: MaskedArray(numpy.zeros(n, dtype=bool), numpy.array(NUMBERS, dtype="i8")), lambda i: NUMBERS[i]),
}


class Invalid(Exception):
    pass


class Unspecified(Exception):
    pass


def require(condition):
    if not condition:
        raise Invalid()


def isint(dtype):
    return numpy.dtype(dtype).kind in "iu"


# each class: names of its parts, function to construct it, value of the parts (raising Invalid)
def jagged_value(starts, stops, content):
    kind, n = content
    get = CONTENTS[kind][1]
    (sd, s), (td, t) = starts, stops
    require(isint(sd) and isint(td))
    s, t = numpy.array(s, dtype="i8"), numpy.array(t, dtype="i8")
    require((s >= 0).all() and (t >= 0).all())
    require(len(s) <= len(t) and s.shape[1:] == t.shape[1:])

    def one(a, b):
        if numpy.ndim(a):
            return [one(x, y) for x, y in zip(a, b)]
        require(a <= b and (a == b or b <= n))
        return [get(i) for i in range(a, b)]
    return [one(a, b) for a, b in zip(s, t)]


def array(x):
    dtype, values = x
    return numpy.array(values, dtype=dtype)


def content_of(x):
    return CONTENTS[x[0]][0](x[1])


def string_value(starts, stops, content):
    out = jagged_value(starts, stops, ("numpy", content))
    return [u"".join(chr(y) for y in x) for x in out]


def offsets_value(offsets, content):
    d, o = offsets
    require(isint(d) and len(o) > 0)
    return jagged_value((d, o[:-1]), (d, o[1:]), content)


def counts_value(counts, content):
    d, c = counts
    require(isint(d) and all(x >= 0 for x in c))
    o = [0]
    for x in c:
        o.append(o[-1] + x)
    return jagged_value(("i8", o[:-1]), ("i8", o[1:]), content)


def masked_value(mask, content, maskedwhen):
    require(len(mask) <= content[1])
    return [None if m == maskedwhen else CONTENTS[content[0]][1](i) for i, m in enumerate(mask)]


def bits_value(mask, content, maskedwhen):
    require(len(mask) * 8 >= content[1])
    bits = numpy.unpackbits(numpy.array(mask, dtype="u1"))
    return [None if bool(bits[i]) == maskedwhen else CONTENTS[content[0]][1](i % 8) for i in range(content[1])]


def indexedmasked_value(mask, content, maskedwhen):
    d, m = mask
    require(isint(d))
    for x in m:
        require(x == maskedwhen or 0 <= x < content[1])
    return [None if x == maskedwhen else CONTENTS[content[0]][1](x) for x in m]


def indexed_value(index, content):
    d, x = index
    require(isint(d))
    x = numpy.array(x, dtype="i8")
    require((x >= 0).all() and (x < content[1]).all())

    def one(i):
        return [one(j) for j in i] if numpy.ndim(i) else CONTENTS[content[0]][1](i)
    return [one(i) for i in x]


def sparse_value(length, index, content):
    d, x = index
    require(isint(d))
    require(length >= 0 and all(i >= 0 for i in x) and list(x) == sorted(x) and len(x) <= content[1])
    out = [0] * length
    for k, i in reversed(list(enumerate(x))):
        if i < length:
            out[i] = CONTENTS[content[0]][1](k)
    return out


def union_value(tags, index, contents):
    (td, t), (xd, x) = tags, index
    require(isint(td) and isint(xd) and all(i >= 0 for i in t) and all(i >= 0 for i in x) and len(t) <= len(x) and len(contents) > 0)
    for i, j in zip(t, x):
        require(i < len(contents))
        require(j < contents[i][1])
    return [CONTENTS[contents[i][0]][1](j) for i, j in zip(t, x)]


def chunked_value(chunks, chunksizes):
    require(len(chunksizes) <= len(chunks))
    for c, s in zip(chunks, chunksizes):
        require(c[1] == s)
    if len(set(c[0] for c in chunks if c[1])) > 1:
        raise Unspecified()
    return [CONTENTS[c[0]][1](i) for c in chunks for i in range(c[1])]


def virtual_value(type, content):
    if type is not None:
        require(type == (content[1], content[0]))
    return [CONTENTS[content[0]][1](i) for i in range(content[1])]


def typed(x):
    return None if x is None else ArrayType(x[0], awkward0.type.fromarray(CONTENTS[x[1]][0](1)).to)


CLASSES = {
    "jagged": (("starts", "stops", "content"), JaggedArray, jagged_value, (array, array, content_of)),
    "string": (("starts", "stops", "content"), StringArray, string_value, (array, array, lambda n: numpy.array(NUMBERS[:n], dtype="u1"))),
    "offsets": (("offsets", "content"), JaggedArray.fromoffsets, offsets_value, (array, content_of)),
    "counts": (("counts", "content"), JaggedArray.fromcounts, counts_value, (array, content_of)),
    "masked": (("mask", "content", "maskedwhen"), MaskedArray, masked_value, (lambda x: numpy.array(x, dtype=bool), content_of, bool)),
    "bitmasked": (("mask", "content", "maskedwhen"), BitMaskedArray, bits_value, (lambda x: numpy.array(x, dtype="u1"), lambda x: numpy.array([NUMBERS[i % 8] for i in range(x[1])], dtype="i8"), bool)),
    "indexedmasked": (("mask", "content", "maskedwhen"), IndexedMaskedArray, indexedmasked_value, (array, content_of, int)),
    "indexed": (("index", "content"), IndexedArray, indexed_value, (array, content_of)),
    "sparse": (("length", "index", "content"), SparseArray, sparse_value, (int, array, content_of)),
    "union": (("tags", "index", "contents"), UnionArray, union_value, (array, array, lambda x: [content_of(y) for y in x])),
    "chunked": (("chunks", "chunksizes"), ChunkedArray, chunked_value, (lambda x: [content_of(y) for y in x], list)),
    "virtual": (("type", "content"), lambda type, content: VirtualArray(ops.produce, (content,), type=type), virtual_value, (typed, content_of)),
}


# ---------------------------------------------------------------- enumeration of the parts
def tuples(values, upto, least=0):
    for n in range(least, upto + 1):
        for x in itertools.product(values, repeat=n):
            yield x


NUMPY = [("numpy", n) for n in range(4)]
ALL = [(k, n) for k in sorted(CONTENTS) for n in range(3)]


def parts(name, shape, deep):
    low, high = -1, 4 if deep else 3
    V = range(low, high + 1)
    if name in ("jagged", "string"):
        contents = [1, 2, 3] if name == "string" else ALL if shape == "classes" else NUMPY
        if shape == "one":
            for s in V:
                for t in V:
                    for c in contents:
                        for d in ("i8", "i4", "i1", "f8", "?"):
                            yield (d, (s,)), ("i8", (t,)), c
                            yield ("i8", (s,)), (d, (t,)), c
                        if s >= 0 and t >= 0:
                            yield ("u1", (s,)), ("u8", (t,)), c
        elif shape == "two":
            for s in itertools.product(V, repeat=2):
                for t in itertools.product(V, repeat=2):
                    for c in contents[1:]:
                        yield ("i8", s), ("i8", t), c
        elif shape == "three":
            for s in itertools.product(range(-1, 3), repeat=3):
                for t in itertools.product(range(4), repeat=3):
                    yield ("i8", s), ("i8", t), contents[-1]
        elif shape == "lengths":
            for n in range(3):
                for m in range(4):
                    if n != m:
                        for s in itertools.product((0, 1), repeat=n):
                            for t in itertools.product((0, 1, 2, 3), repeat=m):
                                yield ("i8", s), ("i8", t), contents[-2]
        elif shape == "classes":
            for s in itertools.product((0, 1, 2), repeat=2):
                for t in itertools.product((1, 2, 3), repeat=2):
                    for c in contents:
                        yield ("i8", s), ("i8", t), c
        elif shape == "dimensions":
            for s in itertools.product((0, 1, 2), repeat=2):
                for t in itertools.product((0, 1, 2, 3), repeat=2):
                    for ss in ((s,), ((s[0],), (s[1],))):
                        for tt in ((t,), ((t[0],), (t[1],)), t):
                            yield ("i8", ss), ("i8", tt), contents[-2]
    elif name == "offsets":
        for d in ("i8", "u4", "f8"):
            for o in tuples(V, 4 if d == "i8" else 2):
                if d != "u4" or all(x >= 0 for x in o):
                    for c in NUMPY if len(o) < 4 else NUMPY[2:]:
                        yield (d, o), c
    elif name == "counts":
        for d in ("i8", "u1", "f8"):
            for o in tuples(range(-1, 3), 3):
                if d != "u1" or all(x >= 0 for x in o):
                    for c in NUMPY:
                        yield (d, o), c
    elif name == "masked":
        for m in tuples((False, True), 3):
            for c in [(k, n) for k in sorted(CONTENTS) for n in range(4)]:
                for when in (True, False):
                    yield m, c, when
    elif name == "bitmasked":
        for m in tuples((0, 255, 0b10010110), 2):
            for n in (0, 1, 7, 8, 9, 16, 17):
                for when in (True, False):
                    yield m, ("numpy", n), when
    elif name == "indexedmasked":
        for d in ("i8", "i2", "f8"):
            for m in tuples(range(-2, 4), 3 if d == "i8" else 1):
                for c in ALL if len(m) < 2 else NUMPY:
                    for when in (-1, 1, 5, -2):
                        yield (d, m), c, when
    elif name == "indexed":
        for d in ("i8", "u1", "i2", "f8", "?"):
            for x in tuples(range(-1, 4), 3 if d == "i8" else 1):
                if d != "u1" or all(i >= 0 for i in x):
                    for c in ALL if len(x) < 3 else NUMPY:
                        yield (d, x), c
        for x in itertools.product(range(-1, 4), repeat=2):
            for c in NUMPY:
                yield ("i8", (x,)), c
                yield ("i8", ((x[0],), (x[1],))), c
    elif name == "sparse":
        for length in range(-1, 4):
            for d in ("i8", "u1", "f8"):
                for x in tuples(range(-1, 4), 3 if d == "i8" else 1):
                    if d != "u1" or all(i >= 0 for i in x):
                        for c in NUMPY:
                            yield length, (d, x), c
    elif name == "union":
        for td, xd in (("u1", "i8"), ("i8", "i8"), ("f8", "i8"), ("i8", "f8")):
            for t in tuples(range(-1 if td != "u1" else 0, 3), 2):
                for x in tuples(range(-1, 3), 2 if td == "u1" or len(t) < 2 else 1):
                    for c in ((("numpy", 2),), (("numpy", 1), ("numpy", 2)), (("table", 1), ("jagged", 2)), (("virtual", 0), ("masked", 1))):
                        yield (td, t), (xd, x), c
        for t in tuples((0, 1), 2):
            for x in tuples((0, 1), 3, 3):
                yield ("u1", t), ("i8", x), (("numpy", 1), ("numpy", 2))
        yield ("u1", ()), ("i8", ()), ()
    elif name == "chunked":
        kinds = [("numpy", 0), ("numpy", 1), ("numpy", 2), ("jagged", 1), ("table", 2)]
        for chunks in tuples(kinds, 2):
            for sizes in tuples((0, 1, 2, 3), 3):
                yield chunks, sizes
    elif name == "virtual":
        for t in [None] + [(n, k) for n in range(4) for k in ("numpy", "jagged", "table")]:
            for c in [(k, n) for n in range(3) for k in ("numpy", "jagged", "table")]:
                yield t, c


SHAPES = {"jagged": ["one", "two", "lengths", "classes", "dimensions"], "string": ["one", "two", "lengths"]}


# ---------------------------------------------------------------- uses
def mask_of(a):
    return numpy.ones(len(a), dtype=bool)


USES = {
    "tolist": lambda a: a.tolist(),
    "iterate": lambda a: [norm(x) for x in a],
    "first": lambda a: norm(a[0]),
    "last": lambda a: norm(a[-1]),
    "slice": lambda a: norm(a[:]),
    "one": lambda a: norm(a[:1]),
    "reversed": lambda a: norm(a[::-1]),
    "mask": lambda a: norm(a[mask_of(a)]),
    "take": lambda a: norm(a[numpy.arange(len(a))]),
    "take first": lambda a: norm(a[[0]]),
    "add": lambda a: norm(a + 1),
    "reduce": lambda a: norm(a.sum()),
    "flatten": lambda a: norm(a.flatten()),
    "in a table": lambda a: norm(Table(x=a)["x"]),
    "concatenate": lambda a: norm(a.concatenate([a])),
    "printed": lambda a: a.tolist() and str(a),
    "serialized": lambda a: norm(ops.roundtrip(a)),
}
ALWAYS = ("tolist", "iterate", "first", "last", "slice", "reversed", "mask", "take", "in a table")
# what may still work because it doesn't look at the structure: nothing


def characters_case(n, ctx):
    """the characters of strings are bytes: Python objects would be read as their addresses"""
    class Other(object):
        pass
    for elements in (["a", "b", "c"], [1, 2, 3], [None, None, None], [Other(), Other(), Other()], [b"a", b"b", b"c"]):
        content = numpy.empty(n, dtype=object)
        content[:] = elements[:n]
        for encoding in ("utf-8", "ascii", None):
            for made in (lambda: StringArray(numpy.arange(n), numpy.arange(1, n + 1), content, encoding=encoding), lambda: StringArray.fromcounts([n], content, encoding=encoding), lambda: StringArray.fromoffsets([0, n], content, encoding=encoding), lambda: StringArray.fromjagged(JaggedArray.fromcounts([n], content), encoding=encoding),
                         lambda: StringArray(numpy.arange(n), numpy.arange(1, n + 1), IndexedArray(numpy.arange(n), content), encoding=encoding)):
                for use in (lambda a: a.tolist(), lambda a: [x for x in a], lambda a: a[0], lambda a: a[-1], lambda a: a[:].tolist(), lambda a: a[numpy.array([True] + [False] * (len(a) - 1))].tolist(), lambda a: JaggedArray.fromcounts([len(a)], a).tolist(), lambda a: Table(x=a)[0]["x"]):
                    ctx.step()
                    try:
                        out = use(made())
                    except Exception as err:
                        ctx.outcome("characters: " + type(err).__name__)
                    else:
                        raise Violation("strings with Python objects for characters read %s" % text(norm(out)))


def units(tier):
    for n in (1, 2, 3):
        yield ["characters", n]
    for name in sorted(CLASSES):
        for shape in SHAPES.get(name, ["all"]) + (["three"] if tier == "thorough" and name in SHAPES else []):
            yield ["parts", name, shape, tier == "thorough"]
        if name not in ("virtual", "offsets", "counts"):
            yield ["assign", name, tier == "thorough"]
        if name not in ("string", "bitmasked", "virtual"):
            yield ["nested", name]


def unit_of(case):
    return case[0]


def run_unit(unit, ctx):
    if unit[0] == "characters":
        ctx.case([unit], characters_case, unit[1], ctx)
    elif unit[0] == "parts":
        for p in parts(unit[1], unit[2], unit[3]):
            ctx.case([unit, p], constructed, unit[1], p, ctx)
    elif unit[0] == "assign":
        chosen = sample(unit[1], unit[2])
        for p in chosen:
            if valid(unit[1], p):
                for k in range(len(CLASSES[unit[1]][0])):
                    for v in sorted(set(q[k] for q in chosen), key=repr):
                        for how in ("assign", "copy"):
                            ctx.case([unit, p, k, v, how], assigned, unit[1], p, k, v, how, ctx)
    elif unit[0] == "nested":
        for p in sample(unit[1], False):
            for wrapper in sorted(NESTS):
                ctx.case([unit, p, wrapper], nested, unit[1], p, wrapper, ctx)


def sample(name, deep):
    """fewer structures, to be combined with each other"""
    out = []
    for i, p in enumerate(parts(name, SHAPES.get(name, ["all"])[-1 if name == "string" else 1 if name == "jagged" else 0], False)):
        out.append(p)
    step = max(1, len(out) // (60 if not deep else 200))
    if name in ("jagged", "string"):
        values = [0, 1, 2]
        out = [(("i8", s), ("i8", t), c) for s in ((0, 1), (1, 0), (0, 0), (2, 0), (0,), (3, 3)) for t in ((1, 2), (2, 1), (2, 2), (1, 3), (0, 1), (1,), (1, 2, 3), (3, 3)) for c in ((1, 2, 3) if name == "string" else NUMPY[1:])]
        return out
    if name == "union":
        return [(("u1", t), ("i8", x), c) for t in ((0, 1), (0, 0), (1,), (2, 0), ()) for x in ((0, 0), (0, 1), (1, 0), (0,), (2, 2, 0)) for c in ((("numpy", 2),), (("numpy", 1), ("numpy", 2)), (("numpy", 0), ("numpy", 3)))]
    return out[::step]


def valid(name, p):
    try:
        CLASSES[name][2](*p)
    except (Invalid, Unspecified):
        return False
    return True


def build(name, p):
    names, cls, value, convert = CLASSES[name]
    return cls(*[f(x) for f, x in zip(convert, p)])


def constructed(name, p, ctx):
    try:
        want = CLASSES[name][2](*p)
    except Invalid:
        refused(lambda: build(name, p), name, p, ctx)
        return
    except Unspecified:
        return
    a = build(name, p)
    ctx.state(physical(a) if name != "virtual" else repr(p))
    ctx.step()
    expect(norm(a.tolist()), norm(want), "value")
    ctx.outcome(expect(norm(build(name, p)), norm(want), "value"))
    if len(want):
        expect(norm(build(name, p)[-1]), norm(want[-1]), "last")


def uses(name, p):
    names = list(ALWAYS)
    if name in ("jagged", "offsets", "counts"):
        names += ["add", "reduce", "flatten", "one", "take first", "concatenate", "serialized"]
    elif name in ("indexed", "masked", "indexedmasked", "union", "string"):
        names += ["one", "take first"]
        if name != "string":
            names += ["add", "reduce"]
    if name == "chunked":
        names = ["tolist", "iterate", "last", "reversed", "mask", "take"]     # the first chunks can be used without the others
    return names


def refused(make, name, p, ctx):
    try:
        make()
    except Exception as err:
        ctx.step()
        ctx.outcome("construct: " + type(err).__name__)
        return
    for use in uses(name, p):
        a = make()
        ctx.step()
        try:
            out = USES[use](a)
        except Exception as err:
            ctx.outcome(use + ": " + type(err).__name__)
        else:
            raise Violation("invalid %s %r gives %s: %s" % (name, p, use, text(norm(out))))


def assigned(name, p, k, v, how, ctx):
    names, cls, value, convert = CLASSES[name]
    q = tuple(v if i == k else x for i, x in enumerate(p))
    if name == "chunked" and k == 0:
        q = (v, ())          # new chunks, whose sizes are not known yet

    def make():
        a = build(name, p)
        norm(a)
        a[:]
        if how == "assign":
            setattr(a, names[k], convert[k](v))
        else:
            a = a.copy(**{names[k]: convert[k](v)})
        return a
    try:
        want = value(*q)
    except Invalid:
        refused(make, name, q, ctx)
        return
    except Unspecified:
        return
    ctx.step()
    ctx.outcome(expect(norm(make()), norm(want), "value after assigning %s" % names[k]))


NESTS = {
    "list": lambda a, n: JaggedArray([0], [n], a),
    "lists": lambda a, n: JaggedArray(numpy.arange(n), numpy.arange(n) + 1, a),
    "index": lambda a, n: IndexedArray(numpy.arange(n), a),
    "mask": lambda a, n: MaskedArray(numpy.zeros(n, dtype=bool), a),
    "mask-index": lambda a, n: IndexedMaskedArray(numpy.arange(n), a),
    "column": lambda a, n: Table(x=a, y=numpy.arange(n)),
    "view": lambda a, n: Table(x=a, y=numpy.arange(n))[:],
    "chunks": lambda a, n: ChunkedArray([a]),
    "union": lambda a, n: UnionArray(numpy.zeros(n, dtype="u1"), numpy.arange(n), [a]),
    "sparse": lambda a, n: SparseArray(n, numpy.arange(n), a),
    "virtual": lambda a, n: VirtualArray(ops.produce, (a,)),
}


def nested(name, p, wrapper, ctx):
    try:
        CLASSES[name][2](*p)
        return
    except Unspecified:
        return
    except Invalid:
        pass
    try:
        a = build(name, p)
        n = len(a)
    except Exception:
        return
    if n == 0:
        return
    ctx.step()
    for use in (lambda b: b.tolist(), lambda b: [norm(x) for x in b], lambda b: norm(b[-1]), lambda b: norm(b[::-1])):
        try:
            b = NESTS[wrapper](build(name, p), n)
            out = use(b)
        except Exception as err:
            ctx.outcome(type(err).__name__)
        else:
            raise Violation("an invalid %s %r in %s gives %s" % (name, p, wrapper, text(norm(out))))
