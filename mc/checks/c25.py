"""C25: operations leave their inputs alone; copies are independent."""
import itertools

import numpy

import awkward0
from awkward0 import (AppendableArray, BitMaskedArray, ChunkedArray, IndexedArray, IndexedMaskedArray, JaggedArray, MaskedArray, ObjectArray, SparseArray, StringArray, Table, UnionArray, VirtualArray)
from awkward0.array.base import AwkwardArray

from .. import forms, ops
from ..core import Violation
from ..obs import expect, norm, observe, physical, text

ID = "C25"
RULE = "after any operation, successful or refused, every array, index, mask and list of arrays it was given has the same parts with the same bytes (including memory it doesn't select) and the same counts, offsets and parents; no leaf of a deepcopy shares memory with the original, and no assignment to any part of one changes the other; assignments to the parts of a copy don't change the original, and its leaves are the same memory"
ASSUMPTIONS = [
    "filling caches (counts, offsets, parents, materialised virtual arrays, known chunk sizes and types) isn't a change, but what is in them is compared with a newly made array",
    "a shallow copy shares its content, so columns of a Table inside it are shared; those of a Table itself are not",
]
BOUNDS = {
    "quick": "21 values x each of their parts in every representation (10 wrappers, 7 list layouts, table views, Numpy strides) x 137 operations; indexes, masks and lists of 9 layouts given to selections of each representation; copies and deepcopies of each, times every assignment of each part",
    "thorough": "the same for two parts in other representations at once",
}


# ---------------------------------------------------------------- observation
def parts(x, seen=None):
    """all Numpy arrays and awkward arrays reachable from x"""
    seen = {} if seen is None else seen
    if id(x) in seen:
        return
    if isinstance(x, numpy.ndarray):
        seen[id(x)] = x
        yield x
    elif isinstance(x, AwkwardArray):
        seen[id(x)] = x
        yield x
        for k in sorted(x.__dict__):
            if k in ("_cache", "_counts", "_parents", "_offsets", "_inverse", "_nestedcross", "_array", "_base"):
                continue
            if isinstance(x, VirtualArray) and k in ("_args", "_kwargs"):
                continue                # belong to the generator
            for y in parts(x.__dict__[k], seen):
                yield y
    elif isinstance(x, dict):
        for k in x:
            for y in parts(x[k], seen):
                yield y
    elif isinstance(x, (list, tuple)):
        for z in x:
            for y in parts(z, seen):
                yield y


DERIVED = ("_counts", "_parents", "_offsets", "_inverse")


def derived(x):
    """the arrays that parts of x have computed"""
    return [y.__dict__[k] for y in parts(x) if isinstance(y, AwkwardArray) for k in DERIVED if isinstance(y.__dict__.get(k), numpy.ndarray)]


def prime(x):
    """computes everything that the parts of x can compute"""
    for y in list(parts(x)):
        if isinstance(y, AwkwardArray):
            for k in DERIVED:
                try:
                    getattr(y, k[1:])
                except (AttributeError, ValueError, TypeError, NotImplementedError):
                    pass                # no such thing


def leaves(x):
    return [y for y in parts(x) if isinstance(y, numpy.ndarray)]


def root(x):
    while isinstance(x.base, numpy.ndarray):
        x = x.base
    return x


def snapshot(x):
    if isinstance(x, AppendableArray):
        return physical(x), []          # appending to another array may write after the end of this one
    return physical(x), [root(y).tobytes() for y in leaves(x)]


def caches(x):
    out = []
    for y in parts(x):
        if isinstance(y, JaggedArray):
            starts, stops = numpy.array(y._starts), numpy.array(y._stops)
            if y._counts is not None and not numpy.array_equal(y._counts, stops[:len(starts)] - starts):
                raise Violation("cached counts of a part are wrong: %r" % (y._counts,))
            if y._offsets is not None and len(starts.shape) == 1 and len(y._offsets) > 1 and not (numpy.array_equal(y._offsets[:-1], starts) and numpy.array_equal(y._offsets[1:], stops[:len(starts)])):
                raise Violation("cached offsets of a part are wrong: %r" % (y._offsets,))
            if y._parents is not None and len(starts.shape) == 1:
                ranges = [range(a, b) for a, b in zip(starts, stops)]
                disjoint = len(set(i for r in ranges for i in r)) == sum(len(r) for r in ranges)    # a repeated list has no parents
                for i, (a, b) in enumerate(zip(starts, stops) if disjoint else ()):
                    if not (y._parents[a:b] == i).all():
                        raise Violation("cached parents of a part are wrong: %r" % (y._parents,))


def same(before, x, what):
    now = snapshot(x)
    if now[0] != before[0]:
        raise Violation("%s changed from %s to %s" % (what, before[0][:300], now[0][:300]))
    if now[1] != before[1]:
        raise Violation("memory of %s changed" % what)
    caches(x)


# ---------------------------------------------------------------- units
def single(tree):
    return [(p, how) for p, kind in ops.nodes(ops.TREES[tree]) for how in ops.options(kind)]


def units(tier):
    for t in ops.TREES:
        yield ["ops", t]
        yield ["copy", t]
        yield ["given", t]
        yield ["indexplans", t]
    for kind in forms.LAYOUTS:
        yield ["index", kind]
    yield ["special"]
    if tier == "thorough":
        for t in ops.TREES:
            for i in range(len(single(t))):
                yield ["pair", t, i]


def unit_of(case):
    return case[0]


def run_unit(unit, ctx):
    if unit[0] == "ops":
        for plan in [()] + [(x,) for x in single(unit[1])]:
            for name in ops.OPS:
                ctx.case([unit, plan, name], one, unit[1], plan, name, ctx)
    elif unit[0] == "pair":
        plans = single(unit[1])
        for j, other in enumerate(plans):
            if other[0] == plans[unit[2]][0] or j >= unit[2]:
                for name in ops.OPS:
                    ctx.case([unit, (plans[unit[2]], other), name], one, unit[1], (plans[unit[2]], other), name, ctx)
    elif unit[0] == "copy":
        for plan in [()] + [(x,) for x in single(unit[1])]:
            for how in ("copy", "deepcopy"):
                ctx.case([unit, plan, how], copied, unit[1], plan, how, ctx)
    elif unit[0] == "given":
        for plan in [()] + [(x,) for x in single(unit[1])]:
            for name in GIVEN:
                ctx.case([unit, plan, name], given, unit[1], plan, name, ctx)
    elif unit[0] == "index":
        for tree in ops.TREES:
            for name in INDEXES:
                ctx.case([unit, tree, name], indexed, unit[1], tree, (), name, ctx)
    elif unit[0] == "indexplans":
        for plan in single(unit[1]):
            for name in INDEXES:
                ctx.case([unit, plan, name], indexed, "offsets", unit[1], (plan,), name, ctx)
    elif unit[0] == "special":
        for name in sorted(SPECIAL):
            for how in ("copy", "deepcopy"):
                ctx.case([unit, name, how], special, name, how, ctx)


def one(tree, plan, name, ctx):
    t = ops.TREES[tree]
    a, r = ops.make(t, plan), ops.make(t)
    before = snapshot(a), snapshot(r)
    ctx.state(before[0][0])
    ctx.step()
    try:
        norm(ops.OPS[name](a, r))
        ctx.outcome("done")
    except Exception as err:
        ctx.outcome(type(err).__name__)
    same(before[0], a, "the array")
    same(before[1], r, "the other array")
    expect(norm(a), norm(ops.value(t)), "array afterwards")


# arrays given to other arrays, to constructors and to functions
def table_of(a):
    t = Table(p=numpy.arange(len(a)))
    t["q"] = a
    t["q", ] if False else None
    return t


GIVEN = {
    "column": table_of,
    "columns": lambda a: Table(p=a, q=a)[["q", "p"]].zeros_like(),
    "column of a view": lambda a: Table(p=a, q=numpy.arange(len(a)))[1:][::-1].tolist(),
    "content": lambda a: JaggedArray.fromcounts([1, len(a) - 1] if len(a) else [0], a).sum(),
    "content sorted": lambda a: JaggedArray.fromcounts([1, len(a) - 1] if len(a) else [0], a).argsort(),
    "content padded": lambda a: JaggedArray.fromcounts([1, len(a) - 1] if len(a) else [0], a).pad(3),
    "content of a mask": lambda a: MaskedArray(numpy.arange(len(a)) % 2 == 0, a).fillna(0),
    "content of a mask reduced": lambda a: MaskedArray(numpy.arange(len(a)) % 2 == 0, a).sum(),
    "content of an index": lambda a: IndexedArray(numpy.arange(len(a))[::-1].copy(), a).compact() if False else IndexedArray(numpy.arange(len(a))[::-1].copy(), a)[:].tolist(),
    "content of a sparse array": lambda a: SparseArray(2 * len(a), numpy.arange(len(a)) * 2, a).dense,
    "contents of a union": lambda a: UnionArray(numpy.arange(len(a)) % 2, numpy.arange(len(a)), [a, a]) + 1,
    "contents of a union, simplified": lambda a: UnionArray(numpy.zeros(len(a), dtype=int), numpy.arange(len(a)), [a]).tolist(),
    "chunks": lambda a: ChunkedArray([a, a])[1:].tolist(),
    "concatenated": lambda a: AwkwardArray.concatenate([a, a]),
    "concatenated in lists": lambda a: AwkwardArray.concatenate([a, a], axis=1),
    "zipped": lambda a: JaggedArray.zip(a, a, x=a),
    "iterated": lambda a: awkward0.fromiter(a),
    "serialized": lambda a: ops.roundtrip(a),
    "to Arrow": lambda a: awkward0.toarrow(a),
    "to Pandas": lambda a: awkward0.topandas(a) if isinstance(a, Table) else None,
    "flattened to Pandas": lambda a: awkward0.topandas(a, flatten=True) if isinstance(a, Table) else None,
    "printed": lambda a: (str(a), repr(a)),
    "typed": lambda a: (str(a.type), a.layout, a.nbytes) if isinstance(a, AwkwardArray) else None,
    "where": lambda a: numpy.where(numpy.arange(len(a)) % 2 == 0, a, 0),
    "modified copy": lambda a: a.copy().__setitem__("new", numpy.arange(len(a))) if isinstance(a, Table) and a._view is None else None,
    "structure1d": lambda a: a.structure1d(),
    "unary out": lambda a: numpy.negative(a, a),
    "iadd": lambda a: exec("a += 1", {"a": a.copy()}) if isinstance(a, AwkwardArray) else None,
}


def given(tree, plan, name, ctx):
    a = ops.make(ops.TREES[tree], plan)
    if isinstance(a, numpy.ndarray) and name == "unary out":
        return
    before = snapshot(a)
    ctx.state(before[0])
    ctx.step()
    try:
        norm(GIVEN[name](a))
        ctx.outcome("done")
    except Exception as err:
        ctx.outcome(type(err).__name__)
    same(before, a, "the array")
    expect(norm(a), norm(ops.value(ops.TREES[tree])), "array afterwards")


# ---------------------------------------------------------------- indexes
def wide(values, dtype="i8"):
    return numpy.array(values, dtype=dtype)


INDEXES = {
    "negative": lambda n, jag: wide([-1, 0, -n] if n else []),
    "negative i1": lambda n, jag: wide([-1, 0, -n] if n else [], "i1"),
    "unsigned": lambda n, jag: wide(list(range(n)), "u1"),
    "strided": lambda n, jag: numpy.arange(2 * n)[::2] // 2,
    "mask": lambda n, jag: numpy.arange(n) % 2 == 0,
    "list": lambda n, jag: [n - 1, 0] if n else [],
    "list of bool": lambda n, jag: [i % 2 == 1 for i in range(n)],
    "indexed": lambda n, jag: IndexedArray(numpy.arange(n)[::-1].copy(), numpy.arange(-n, 0)),
    "masked": lambda n, jag: MaskedArray(numpy.arange(n) % 2 == 0, numpy.arange(-n, 0)),
    "indexedmasked": lambda n, jag: IndexedMaskedArray(wide([-1] + list(range(n))[1:]) if n else wide([]), numpy.arange(-n, 0)),
    "chunked": lambda n, jag: ChunkedArray([numpy.arange(-n, 0)[:1], numpy.arange(-n, 0)[1:]]),
    "chunked mask": lambda n, jag: ChunkedArray([(numpy.arange(n) % 2 == 0)[:1], (numpy.arange(n) % 2 == 0)[1:]]),
    "jagged": lambda n, jag: jag([-1, 0, -1, 0, -1, 0, -1, 0]),
    "jagged i1": lambda n, jag: jag(numpy.array([-1, 0, -1, 0, -1, 0, -1, 0], dtype="i1")),
    "jagged mask": lambda n, jag: jag([True, False, False, True, True, False, False, True]),
    "jagged indexed": lambda n, jag: jag(IndexedArray([7, 6, 5, 4, 3, 2, 1, 0], numpy.array([-1, 0, -1, 0, -1, 0, -1, 0]))),
    "tuple": lambda n, jag: (slice(None), -1),
    "tuple of arrays": lambda n, jag: (wide([-1, 0] if n else []), wide([-1, 0] if n else [])),
    "nested jagged": lambda n, jag: JaggedArray.fromcounts([n], jag([-1, 0, -1, 0, -1, 0, -1, 0])),
    "names": lambda n, jag: ["x"],
}


def indexed(layout, tree, plan, name, ctx):
    t = ops.TREES[tree]
    a = ops.make(t, plan)
    counts = t[1] if t[0] == "list" else (1,) * len(a)

    def jag(content):
        content = content if isinstance(content, AwkwardArray) else numpy.array(content)
        starts, stops, ids = forms.jagged_parts(forms.ids_of(counts), layout)
        ids = [i if i >= 0 else 0 for i in ids]
        return JaggedArray(starts, stops, content[numpy.array(ids, dtype=int)])
    where = INDEXES[name](len(a), jag)
    before = snapshot(a), snapshot(where), text(norm(where)) if not isinstance(where, tuple) else None
    ctx.state(before[0][0])
    ctx.step()
    try:
        norm(a[where])
        ctx.outcome("done")
    except Exception as err:
        ctx.outcome(type(err).__name__)
    same(before[0], a, "the array")
    same(before[1], where, "the index")
    if before[2] is not None and text(norm(where)) != before[2]:
        raise Violation("the index was %s, now %s" % (before[2], text(norm(where))))


# ---------------------------------------------------------------- copies
def turned(x):
    return x[::-1]


def assignments(a):
    """(name, function of an array of this class that assigns something else to one of its parts)"""
    out = []

    def add(attr, value):
        def assign(x):
            setattr(x, attr, value(x))
        out.append((attr, assign))
    if isinstance(a, StringArray):
        add("encoding", lambda x: None)
        add("content", lambda x: numpy.array(x.content)[::-1].copy())
        add("starts", lambda x: x.stops.copy())
    elif isinstance(a, JaggedArray):
        add("starts", lambda x: x.stops.copy())
        add("stops", lambda x: x.starts.copy())
        add("offsets", lambda x: numpy.zeros(len(x) + 1, dtype=int))
        add("counts", lambda x: numpy.zeros(len(x), dtype=int))
        add("content", lambda x: turned(x.content))
    elif isinstance(a, IndexedMaskedArray):
        add("mask", lambda x: numpy.full(len(x), -1))
        add("content", lambda x: turned(x.content))
    elif isinstance(a, BitMaskedArray):
        add("mask", lambda x: ~x.mask)
        add("content", lambda x: turned(x.content))
        add("maskedwhen", lambda x: not x.maskedwhen)
        add("lsborder", lambda x: not x.lsborder)
    elif isinstance(a, MaskedArray):
        add("mask", lambda x: ~numpy.array(x.mask))
        add("content", lambda x: turned(x.content))
        add("maskedwhen", lambda x: not x.maskedwhen)
    elif isinstance(a, SparseArray):
        add("index", lambda x: x.index.copy() + 1)
        add("length", lambda x: x.length + 5)
        add("content", lambda x: turned(x.content))
        add("default", lambda x: 17)
    elif isinstance(a, IndexedArray):
        add("index", lambda x: x.index[::-1].copy())
        add("content", lambda x: turned(x.content))
    elif isinstance(a, UnionArray):
        add("tags", lambda x: numpy.zeros(len(x), dtype="u1"))
        add("index", lambda x: x.index[::-1].copy())
        add("contents", lambda x: [turned(y) for y in x.contents])
        out.append(("contents[0]", lambda x: x.contents.__setitem__(0, turned(x.contents[0]))))
        out.append(("contents.append", lambda x: x.contents.append(numpy.arange(3))))
    elif isinstance(a, AppendableArray):
        add("chunks", lambda x: [turned(y) for y in x.chunks])
        out.append(("append", lambda x: x.append(x[0])))
        out.append(("extend", lambda x: x.extend(numpy.repeat(x[:1], 5, axis=0))))
    elif isinstance(a, ChunkedArray):
        add("chunks", lambda x: [turned(y) for y in x.chunks])
        out.append(("chunks[0]", lambda x: x.chunks.__setitem__(0, turned(x.chunks[0]))))
        out.append(("chunks.append", lambda x: x.chunks.append(x.chunks[0])))
    elif isinstance(a, ObjectArray):
        add("content", lambda x: turned(x.content))
        add("generator", lambda x: str)
        add("args", lambda x: (1, 2))
        add("kwargs", lambda x: {"more": 1})
    elif isinstance(a, VirtualArray):
        add("generator", lambda x: ops.make)
        add("args", lambda x: (ops.TREES["ints"],))
        add("kwargs", lambda x: {"plan": ()})
        add("persistentkey", lambda x: "other")
        add("nbytes", lambda x: 12345)
        add("cache", lambda x: {})
        add("persistvirtual", lambda x: not x.persistvirtual)
    elif isinstance(a, Table):
        def same_length(x):
            return numpy.arange(len(x)) + 1000
        add("rowname", lambda x: "Other")
        out.append(("[new]", lambda x: x.__setitem__("new", same_length(x))))
        out.append(("[x]", lambda x: x.__setitem__(x.columns[0], same_length(x))))
        out.append(("del", lambda x: x.__delitem__(x.columns[0])))
        out.append(("contents[new]", lambda x: x.contents.__setitem__("new", same_length(x))))
        out.append(("contents.pop", lambda x: x.contents.popitem()))
    return out


def overwrite(x):
    """another value in every element of a Numpy array"""
    try:
        x.flags.writeable = True
    except ValueError:
        return False
    if x.dtype.kind == "b":
        x[...] = ~x
    elif x.dtype.kind in "iu":
        x[...] = x ^ 1
    elif x.dtype.kind == "f":
        x[...] = numpy.where(numpy.isnan(x), 1, numpy.nan)
    else:
        return False
    return True


def copied(tree, plan, how, ctx):
    t = ops.TREES[tree]
    check_copy(lambda: ops.make(t, plan), how, ctx)


def nodes(x):
    return [y for y in parts(x) if isinstance(y, AwkwardArray)]


def check_copy(make, how, ctx):
    a = make()
    if isinstance(a, numpy.ndarray):
        return
    before = snapshot(a)
    c = getattr(a, how)()
    ctx.state(before[0])
    same(before, a, "the original")
    if type(c) is not type(a):
        raise Violation("%s of a %s is a %s" % (how, type(a).__name__, type(c).__name__))
    expect(norm(c), norm(a), how)
    mine, theirs = leaves(a), leaves(c)
    if how == "deepcopy":
        for x in mine:
            for y in theirs:
                if numpy.may_share_memory(root(x), root(y)):
                    raise Violation("the deepcopy shares memory: %s" % physical(x))
        for x in nodes(a):
            if any(x is y for y in nodes(c)):
                raise Violation("the deepcopy shares a part: %s" % physical(x))
        prime(a)
        c = a.deepcopy()
        caches(c)
        for x in mine + derived(a):
            for y in leaves(c) + derived(c):
                if numpy.may_share_memory(root(x), root(y)):
                    raise Violation("the deepcopy shares what was computed: %s" % physical(x))
    else:
        if len(mine) != len(theirs) or any(x.size and not numpy.shares_memory(x, y) for x, y in zip(mine, theirs)):
            raise Violation("the copy doesn't share its content: %s, %s" % (physical(a), physical(c)))

    # assignments to the parts of one leave the other alone
    number = len(nodes(a)) if how == "deepcopy" else 1
    for k in range(number):
        for name, _ in assignments(nodes(a)[k]):
            for direction in (0, 1):
                pair = make()
                pair = (pair, getattr(pair, how)())
                target, other = (pair[1], pair[0]) if direction == 0 else pair
                unchanged, value = snapshot(other), text(norm(other))
                if k >= len(nodes(target)):
                    continue            # only one of two views is the same object twice
                node = nodes(target)[k]
                ctx.step()
                try:
                    dict(assignments(node))[name](node)
                    norm(target)
                except Exception as err:
                    ctx.outcome("%s %s" % (name, type(err).__name__))
                else:
                    ctx.outcome("%s" % name)
                same(unchanged, other, "the original" if direction == 0 else "the " + how)
                if text(norm(other)) != value:
                    raise Violation("assigning %s changed the other from %s to %s" % (name, value, text(norm(other))))
    if how == "deepcopy":
        for i in range(len(mine)):
            for direction in (0, 1):
                pair = make()
                pair = (pair, pair.deepcopy())
                target, other = (pair[1], pair[0]) if direction == 0 else pair
                unchanged = snapshot(other)
                if i < len(leaves(target)) and overwrite(root(leaves(target)[i])):
                    ctx.step()
                    same(unchanged, other, "the other after overwriting a leaf")


# ---------------------------------------------------------------- classes the trees don't have
class Point(object):
    def __init__(self, x):
        self.x = x

    def __eq__(self, other):
        return type(other) is Point and self.x == other.x

    def __repr__(self):
        return "Point(%r)" % (self.x,)


def appendable():
    a = AppendableArray(4, numpy.float64)
    for x in (1.5, 2.5, 3.5):
        a.append(x)
    return a


def appendable2d():
    a = AppendableArray((2, 3), numpy.int64)
    a.append([1, 2, 3])
    return a


def objects():
    return ObjectArray(numpy.array([3, 1, 4]), Point)


SPECIAL = {
    "table of one column": lambda: Table(x=numpy.arange(3)),
    "view of one column": lambda: Table(x=numpy.arange(3))[1:],
    "backward view of one column": lambda: Table(x=numpy.arange(3))[::-1],
    "selected rows of one column": lambda: Table(x=numpy.arange(3))[[2, 0]],
    "view of a column subset": lambda: Table(x=numpy.arange(3), y=numpy.arange(3) * 1.5)[["y"]][:2],
    "view of tables in a table": lambda: Table(y=Table(z=numpy.arange(3)))[1:],
    "empty table": lambda: Table(),
    "appendable": appendable,
    "appendable 2d": appendable2d,
    "objects": objects,
    "objects of lists": lambda: ObjectArray(JaggedArray.fromcounts([2, 0, 1], numpy.array([3, 1, 4])), lambda x: Point(x.tolist())),
    "lists of objects": lambda: JaggedArray.fromcounts([2, 0, 1], objects()),
    "2d lists": lambda: JaggedArray(numpy.array([[0, 2], [2, 3]]), numpy.array([[2, 2], [3, 5]]), numpy.arange(5)),
    "2d content": lambda: JaggedArray.fromcounts([2, 0, 1], numpy.arange(6).reshape(3, 2)),
    "2d index": lambda: IndexedArray(numpy.array([[0, 1], [2, 0]]), numpy.arange(3) * 1.5),
    "table in a table": lambda: Table(x=numpy.arange(3), y=Table(z=numpy.arange(3), w=JaggedArray.fromcounts([2, 0, 1], numpy.arange(3)))),
    "same column twice": lambda: (lambda c: Table(x=c, y=c))(numpy.arange(3)),
    "shared content": lambda: (lambda c: Table(x=JaggedArray.fromcounts([1, 2], c), y=JaggedArray.fromcounts([2, 1], c)))(Table(z=numpy.arange(3))),
    "chunked virtual": lambda: ChunkedArray([VirtualArray(ops.produce, (numpy.arange(3),)), VirtualArray(ops.produce, (numpy.arange(2),))]),
    "string mask": lambda: MaskedArray([True, False], StringArray.fromiter(["one", "two"])),
    "bitmasked lsb": lambda: BitMaskedArray.fromboolmask([True, False, False], numpy.arange(3), lsborder=True),
    "union of lists": lambda: UnionArray.fromtags([0, 1, 0], [numpy.arange(2), JaggedArray.fromcounts([2], numpy.arange(2))]),
}


def special(name, how, ctx):
    check_copy(SPECIAL[name], how, ctx)
