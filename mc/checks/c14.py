"""C14: indexed and sparse arrays look like the dense array they stand for."""
import itertools
import operator

import numpy

from awkward0 import IndexedArray, JaggedArray, SparseArray, Table
from awkward0.array.base import AwkwardArray

from .. import forms, model, ops
from ..core import Violation
from ..forms import KINDS
from ..obs import expect, expect_error, norm, observe, physical, text
from . import c04, c05, c11

ID = "C14"
RULE = "every index vector up to the bound into every content (repeats, any order, unused content), and every set of stored positions of every sparse length (with repeated and out-of-range positions and longer content), x kinds of content x every selection of an alphabet, chains of two selections, operators, reducers and structural operations; an outcome is non-trivial when its canonical value is distinct"
ASSUMPTIONS = ["boolmask and ismasked of a sparse array tell which elements are stored, as its own documentation has it, and are compared with that",
               "a sparse array of a content class without a dense form may refuse operators, but not give a wrong value",
               "of several stored elements with the same position the first counts"]
BOUNDS = {"quick": "indexes up to 3 entries into 3 elements (18 content kinds), 4 entries into 3 for integers; sparse lengths up to 5 with every set of stored positions",
          "thorough": "indexes up to 4 entries into 4 elements, sparse lengths up to 7"}

CONTENTS = ("i8", "f8", "bool", "2d", "i4strided", "jag", "jagc", "tab", "tabview", "str", "mask", "imask", "idx", "sparse", "uni", "obj", "vrt", "chk")
DTYPES = (numpy.int64, numpy.uint8, numpy.int32)


def indexed(index, m, kind, dtype=numpy.int64):
    return IndexedArray(numpy.array(index, dtype=dtype), KINDS[kind].build(list(range(m))))


def shuffled(index, m, kind):
    """the same array of the same elements (ids 0, 1, 2...) for kinds whose battery expects consecutive ids"""
    n = len(index)
    ids = [-1] * m
    for k, i in enumerate(index):
        ids[i] = k
    return IndexedArray(numpy.array(index, dtype=numpy.int64), KINDS[kind].build(ids))


# ---------------------------------------------------------------- indexed arrays
def select_case(index, m, kind, ctx, every=False):
    before = keep = numpy.array(index, dtype=numpy.int64)
    keep = before.copy()
    a = IndexedArray(before, KINDS[kind].build(list(range(m))))
    v = [KINDS[kind].value(i) for i in index]
    n = len(v)
    expect(observe(a), v, "array")
    if every:
        for where in c11.alphabet(n, True):
            c11.one(a, v, where, ctx, c11.chains if where[0] != "int" else ())
    else:
        c11.selections(a, v, kind, ctx)
    expect(norm(before), norm(keep), "the user's index")
    for dtype in DTYPES[1:]:
        b = indexed(index, m, kind, dtype)
        expect(observe(b), v, "index of type %s" % numpy.dtype(dtype))
        expect(observe(b[::-1], deep=False), v[::-1], "reversed, index of type %s" % numpy.dtype(dtype))
    for w, want in ((a.copy(), v), (a.deepcopy(), v), (IndexedArray(numpy.arange(n), a), v), (IndexedArray(numpy.arange(n)[::-1], a), v[::-1])):
        expect(observe(w), want, "copy or double index")
    c = a.concatenate([a[:1] if isinstance(a[:1], IndexedArray) else indexed(index[:1], m, kind), a]) if m and kind != "sparse" else None
    if c is not None and kind != "sparse":
        expect(observe(c), v + v[:1] + v, "concatenate")
    if kind in ("i8", "f8"):
        expect(norm(numpy.array(a)), v, "as a Numpy array") if n else None
    if m and n:
        for bad in (m, m + 1):
            b = IndexedArray(numpy.array(list(index[:-1]) + [bad]), KINDS[kind].build(list(range(m))))
            ctx.step()
            expect_error(lambda: observe(b), "index %d into %d elements" % (bad, m))
            expect_error(lambda: observe(b[:]), "index %d into %d elements" % (bad, m))


def multi_case(shape, m, kind, ctx):
    """an index with two dimensions"""
    for flat in itertools.product(range(m), repeat=shape[0] * shape[1]):
        index = numpy.array(flat, dtype=numpy.int64).reshape(shape)
        a = IndexedArray(index, KINDS[kind].build(list(range(m))))
        v = [[KINDS[kind].value(int(i)) for i in row] for row in index]
        ctx.step(5)
        ctx.state(physical(a))
        expect([norm(a[i]) for i in range(len(a))], v, "rows")
        for i in range(-shape[0], shape[0]):
            for j in range(-shape[1], shape[1]):
                expect(norm(a[i, j]), v[i][j], "[%d, %d]" % (i, j))
        expect(norm(a[:, 0]), [r[0] for r in v], "[:, 0]")
        if kind == "i8":
            expect(norm(a[::-1]), v[::-1], "[::-1]")
            expect(norm(a[:, ::-1]), [r[::-1] for r in v], "[:, ::-1]")
            expect(norm(a + 1), c04.apply(operator.add, v, 1), "+ 1")


def ops_case(index, m, kind, ctx):
    """operators, reducers...: consecutive elements stored in the order of the index"""
    n = len(index)
    v = [KINDS[kind].value(i) for i in range(n)]
    c11.battery(lambda: shuffled(index, m, kind), v, kind, ctx, m > 0, False)


def repeat_case(index, m, ctx):
    """the same with repeated elements, for numbers and lists"""
    for kind in ("i8", "f8", "jag", "tab"):
        v = [KINDS[kind].value(i) for i in index]
        a = lambda: indexed(index, m, kind)
        ctx.step(3)
        c11.check(ctx, a() * 2, c04.apply(operator.mul, v, 2), "* 2")
        c11.check(ctx, a() - a(), c04.apply(operator.sub, v, v), "a - a")
        if index:
            for name in c05.REDUCERS:
                ctx.step()
                got = getattr(a(), name)()
                c05.agree(observe(got, deep=False) if isinstance(got, (AwkwardArray, numpy.ndarray)) else norm(got), c11.whole(v, name, kind), name, name not in ("mean", "var", "std"))
        if kind == "jag":
            c11.check(ctx, a().counts, [len(x) for x in v], "counts")
            c11.check(ctx, a().flatten(), [y for x in v for y in x], "flatten")
            c11.check(ctx, a().pad(2), [x + [None] * (2 - len(x)) for x in v], "pad")
            c11.check(ctx, a().argmax(), [[len(x) - 1] if x else [] for x in v], "argmax")
            c11.check(ctx, a()[a().argmax()] if hasattr(a(), "argmax") else None, [x[-1:] for x in v], "a[argmax]")
            j = forms.jagged_from_rows(v, "reversed", int)
            c11.check(ctx, a() + j, c04.apply(operator.add, v, v), "indexed lists + lists")
            c11.check(ctx, j - a(), c04.apply(operator.sub, v, v), "lists - indexed lists")


# ---------------------------------------------------------------- sparse arrays
SPARSE_KINDS = ("i8", "f8", "bool", "2d", "jag", "tab", "obj", "str", "mask")


def default_of(kind, default):
    if default is not None:
        return default
    return {"i8": 0, "f8": 0.0, "bool": False, "2d": [0, 0], "jag": [], "tab": {"x": 0, "y": 0.0}, "obj": None, "str": "", "mask": None}[kind]


def sparse(length, positions, kind, default=None, extra=0, dtype=numpy.int64):
    ids = list(range(len(positions))) + [-1] * extra
    return SparseArray(length, numpy.array(positions, dtype=dtype), KINDS[kind].build(ids), default)


def dense(length, positions, kind, default=None):
    d = default_of(kind, default)
    out = [d] * length
    for k in range(len(positions) - 1, -1, -1):
        if positions[k] < length:
            out[positions[k]] = KINDS[kind].value(k)
    return out


def sparse_case(length, positions, kind, default, extra, ctx, every=False):
    d = None if default is None else numpy.array(default) if isinstance(default, list) else default
    make = lambda: sparse(length, positions, kind, d, extra)
    a, v = make(), dense(length, positions, kind, default)
    n = length
    before = physical(a)
    ctx.state(before)
    ctx.step(4)
    ctx.outcome(expect(observe(a), v, "array"))
    expect(len(a), n, "len")
    expect(norm(a.default), default_of(kind, default), "default")
    for k, where in enumerate(c11.alphabet(n, True) if every else c11.fewer(n)):
        c11.one(a, v, where, ctx, c11.chains if where[0] != "int" and (k % 3 == 0) else ())
    stored = [i in positions for i in range(n)]
    expect(norm(a.boolmask()), stored, "boolmask")
    expect(norm(a.boolmask(maskedwhen=False)), [not x for x in stored], "boolmask(maskedwhen=False)")
    c11.check(ctx, a.copy(), v, "copy")
    c11.check(ctx, a.deepcopy(), v, "deepcopy")
    if kind in ("i8", "f8", "bool", "2d", "jag", "tab"):
        c11.check(ctx, make().dense, v, "dense")
        other = dense(length, [p for p in range(length) if p % 2], "i8")
        mask = sparse(length, [p for p in range(length) if p % 2], "bool")
        keep = dense(length, [p for p in range(length) if p % 2], "bool")
        c11.check(ctx, make()[mask], [x for x, m in zip(v, keep) if m], "sparse mask")
    if kind in ("i8", "f8", "bool") and n:
        c11.check(ctx, numpy.array(make()), v, "as a Numpy array")
    if kind == "2d":
        for where in c11.tuples(n, kind):
            c11.one(a, v, where, ctx)
    if kind == "jag" and n:
        c11.check(ctx, make().counts, [len(x) for x in v], "counts")
        c11.check(ctx, make().flatten(), [y for x in v for y in x], "flatten")
        c11.check(ctx, make() + 1, c04.apply(operator.add, v, 1), "+ 1")
        c11.check(ctx, make() + make(), c04.apply(operator.add, v, v), "a + a")
        c11.check(ctx, make().pad(2), [x + [None] * (2 - len(x)) for x in v], "pad")
        for name in c05.REDUCERS:
            ctx.step()
            c05.agree(observe(getattr(make(), name)(), deep=False), [c05.reduce(x, name, "i8") for x in v], name, name not in ("mean", "var", "std"))
    if kind in ("i8", "f8", "bool", "2d"):
        with numpy.errstate(all="ignore"):
            c11.check(ctx, make() * 2, c04.apply(operator.mul, v, 2), "* 2")
            c11.check(ctx, 1 - make(), c04.apply(operator.sub, 1, v), "1 -")
            c11.check(ctx, make() == make(), c04.apply(operator.eq, v, v), "a == a")
            if kind != "2d":
                per = list(range(5, 5 + n))
                c11.check(ctx, numpy.array(per, dtype=int) + make(), c04.apply(operator.add, per, v), "one per element +")
                c11.check(ctx, make() + sparse(length, [p for p in range(length) if p % 2], "i8"), c04.apply(operator.add, v, other), "sparse + sparse")
                for name in c05.REDUCERS:
                    ctx.step()
                    c05.agree(norm(getattr(make(), name)()), c05.reduce(v, name, kind), name, name not in ("mean", "var", "std"))
                if n and kind == "i8":
                    expect(norm(make().argmax()), v.index(max(v)), "argmax")
                    expect(norm(make().argmin()), v.index(min(v)), "argmin")
            expect(norm(make().counts), [2 if kind == "2d" else -1] * n, "counts")
            expect(norm(make().regular()), v, "regular")
            if kind == "2d":
                expect(norm(make().flatten()), [y for x in v for y in x], "flatten")
            else:
                c11.check(ctx, make().zeros_like(), [type(x)(0) for x in dense(length, positions, kind)], "zeros_like") if default is None else None
                c11.check(ctx, make().ones_like(), [type(x)(1) for x in v], "ones_like")
            c11.check(ctx, make().astype(complex), c04.apply(numpy.add, v, 0j), "astype") if kind == "i8" and default is None else None
            try:
                c11.check(ctx, make().concatenate([make()]), v + v, "concatenate")
            except NotImplementedError:     # documented by its error message
                pass
            c11.check(ctx, make().fillna(7), [7.0 if x != x else x for x in v], "fillna") if kind != "2d" else None
    if kind == "tab":
        expect(norm(a.columns), ["x", "y"], "columns")
        for c in ("x", "y"):
            c11.check(ctx, make()[c], [r[c] for r in v], "column")
            c11.check(ctx, make()[::-1][c], [r[c] for r in v][::-1], "column of reversed")
            c11.check(ctx, make()[c][::2], [r[c] for r in v][::2], "selection of a column")
            c11.check(ctx, make()[c] + 1, [r[c] + 1 for r in v], "column + 1")
        if n:
            for name in ("sum", "max", "count", "any"):
                ctx.step()
                c05.agree(norm(getattr(make(), name)()), {"x": c05.reduce([r["x"] for r in v], name, "i8"), "y": c05.reduce([r["y"] for r in v], name, "f8")}, name, True)
    if physical(a) != before:
        raise Violation("the array changed", "operand changed")
    if extra == 0 and positions:
        b = SparseArray(length, numpy.array(positions), KINDS[kind].build(list(range(len(positions) - 1))), d)
        expect_error(lambda: observe(b), "more positions than content")


def stored_case(length, positions, ctx):
    """a selection stores what was stored in the selected positions"""
    a = sparse(length, positions, "i8")
    stored = {p: KINDS["i8"].value(k) for k, p in enumerate(positions)}
    bounds = [None] + list(range(-length - 1, length + 2))
    for start, stop, step in itertools.product(bounds, bounds, (None, 1, 2, -1, -2)):
        where = slice(start, stop, step)
        ctx.step()
        b = a[where]
        chosen = list(range(length))[where]
        want = [(k, stored[p]) for k, p in enumerate(chosen) if p in stored]
        got = sorted(zip(norm(b.index), norm(b.content)))
        if len(b) != len(chosen) or got != sorted((norm(k), norm(x)) for k, x in want):
            raise Violation("[%s] of %s stores %s, expected %s" % (where, stored, text(got), text(want)), "stored elements")
        ctx.outcome(text(got))


def full_case(kind, n, wraps, ctx):
    """a sparse array of which every element is stored needs no default"""
    a = KINDS[kind].build(list(range(n)))
    for how in wraps:
        a = ops.wrap(how, a)
    v = [KINDS[kind].value(i) for i in range(n)]
    for length in range(n + 1):
        s = SparseArray(length, numpy.arange(n), a)
        c11.check(ctx, s, v[:length], "sparse of length %d" % length)
        c11.check(ctx, s[::-1], v[:length][::-1], "sparse of length %d, reversed" % length) if kind != "vrt" else None
    ctx.state("%s %d %s" % (kind, n, wraps))


def holes_case(kind, length, positions, wraps, ctx):
    """the elements that are not stored are the default of the stored ones, however these are represented"""
    a = KINDS[kind].build(list(range(len(positions))))
    for how in wraps:
        a = ops.wrap(how, a)
    d = None if any("masked" in how for how in wraps) else default_of(kind, None)
    v = [d] * length
    for k, p in enumerate(positions):
        v[p] = KINDS[kind].value(k)
    s = lambda: SparseArray(length, positions, a)
    ctx.state("%s %d %s %s" % (kind, length, positions, wraps))
    for what, got, want in (("all", s, v), ("reversed", lambda: s()[::-1], v[::-1]), ("[1:]", lambda: s()[1:], v[1:]), ("in a list", lambda: JaggedArray.fromcounts([length, 0], s()), [v, []]), ("indexed", lambda: IndexedArray(numpy.arange(length), s()), v), ("mask", lambda: s()[numpy.array([i % 2 == 0 for i in range(length)], dtype=bool)], v[::2]), ("take", lambda: s()[numpy.array([0] + list(range(length))[::-1] if length else [], dtype=int)], v[:1] + v[::-1])):
        ctx.step()
        ctx.outcome(expect(observe(got()), want, what))
    for i in range(length):
        expect(norm(s()[i]), v[i], "[%d]" % i)


def concatenated_case(indexes, sizes, kind, ctx):
    """concatenating arrays of any index into any content, including contents of which nothing is used"""
    arrays, v, first = [], [], 0
    for index, m in zip(indexes, sizes):
        ids = list(range(first, first + m))
        arrays.append(IndexedArray(numpy.array(index, dtype=numpy.int64), KINDS[kind].build(ids)))
        v += [KINDS[kind].value(ids[i]) for i in index]
        first += m
    ctx.state("%s %s %s" % (indexes, sizes, kind))
    keep = [physical(x) for x in arrays]
    c11.check(ctx, IndexedArray.concatenate(arrays), v, "concatenate")
    c11.check(ctx, arrays[0].concatenate(arrays[1:]), v, "concatenate to the first")
    c11.check(ctx, numpy.concatenate(arrays), v, "numpy.concatenate") if hasattr(IndexedArray, "__array_function__") else None
    if [physical(x) for x in arrays] != keep:
        raise Violation("the arrays changed", "operand changed")


def column_case(length, positions, ctx):
    """columns of a sparse table: only stored rows can hold something"""
    a = sparse(length, positions, "tab")
    v = dense(length, positions, "tab")
    new = [7 * i + 1 if i in positions else 0 for i in range(length)]
    if not length:
        return
    ctx.step(3)
    a["z"] = numpy.array(new)
    want = [dict(r, z=x) for r, x in zip(v, new)]
    ctx.outcome(expect(observe(a), want, "after assigning a column"))
    expect(norm(a["z"]), new, "assigned column")
    if len(positions) < length:
        expect_error(lambda: a.__setitem__("w", numpy.arange(length) + 1), "assigning values where nothing is stored")
    expect_error(lambda: a.__setitem__("w", numpy.zeros(length + 1)), "assigning a longer column")
    expect(observe(a), want, "after a refused assignment")
    del a["x"]
    expect(observe(a), [dict(y=r["y"], z=r["z"]) for r in want], "after deleting a column")


def units(tier):
    q = tier == "quick"
    most, content = (3, 3) if q else (4, 4)
    for kind in CONTENTS:
        for m in range(content + 1):
            for n in range(most + 1):
                yield ["indexed", kind, m, n]
    for m in range(content + 1):
        for n in range(content + (2 if q else 1)):
            yield ["indexedevery", m, n]
            yield ["repeat", m, n]
    for kind in ("i8", "jag", "tab", "str", "mask") if q else CONTENTS:
        if kind != "sparse":
            yield ["concatenated", kind, 2, 2]
            yield ["concatenated", kind, 3, 1]
    for kind in CONTENTS:
        yield ["full", kind]
    for kind in ("i8", "f8", "bool", "2d", "jag", "tab", "str", "obj", "mask"):
        for length in (2, 3):
            yield ["holes", kind, length]
    for length in range(5 if q else 7):
        yield ["stored", length]
    for shape in ((0, 2), (1, 2), (2, 1), (2, 2), (3, 1), (1, 3)):
        for kind in ("i8", "jag", "tab", "str"):
            yield ["multi", shape, kind]
    for length in range(6 if q else 8):
        for kind in SPARSE_KINDS:
            yield ["sparse", length, kind]
        yield ["column", length]


def unit_of(case):
    return case[0]


def run_unit(unit, ctx):
    op = unit[0]
    if op == "indexed":
        _, kind, m, n = unit
        for index in itertools.product(range(m), repeat=n):
            if len(set(index)) == len(index):
                ctx.case([unit, "ops", list(index)], ops_case, index, m, kind, ctx)
            ctx.case([unit, "select", list(index)], select_case, index, m, kind, ctx)
    elif op == "indexedevery":
        for index in itertools.product(range(unit[1]), repeat=unit[2]):
            ctx.case([unit, list(index)], select_case, index, unit[1], "i8", ctx, True)
    elif op == "repeat":
        for index in itertools.product(range(unit[1]), repeat=unit[2]):
            ctx.case([unit, list(index)], repeat_case, index, unit[1], ctx)
    elif op == "concatenated":
        _, kind, k, most = unit
        each = [(list(index), m) for m in range(3) for n in range(most + 1) for index in itertools.product(range(m), repeat=n)]
        for parts in itertools.product(each, repeat=k):
            ctx.case([unit, [list(p) for p in parts]], concatenated_case, [p[0] for p in parts], [p[1] for p in parts], kind, ctx)
    elif op == "full":
        for n in (0, 2):
            for wraps in [()] + [(w,) for w in ops.WRAPPERS] + list(itertools.product(ops.WRAPPERS, repeat=2)):
                ctx.case([unit, n, list(wraps)], full_case, unit[1], n, wraps, ctx)
    elif op == "holes":
        for k in (1, 2):
            for positions in itertools.combinations(range(unit[2]), k):
                for wraps in [()] + [(w,) for w in ops.WRAPPERS] + list(itertools.product(ops.WRAPPERS, repeat=2)):
                    ctx.case([unit, list(positions), list(wraps)], holes_case, unit[1], unit[2], list(positions), wraps, ctx)
    elif op == "stored":
        for k in range(unit[1] + 1):
            for positions in itertools.combinations(range(unit[1]), k):
                ctx.case([unit, list(positions)], stored_case, unit[1], list(positions), ctx)
    elif op == "multi":
        ctx.case([unit], multi_case, tuple(unit[1]), 3, unit[2], ctx)
    elif op == "sparse":
        _, length, kind = unit
        for k in range(length + 1):
            for positions in itertools.combinations(range(length), k):
                ctx.case([unit, list(positions), None, 0], sparse_case, length, list(positions), kind, None, 0, ctx, kind == "i8" and length <= 4)
                if kind in ("i8", "f8", "bool", "2d"):
                    default = {"i8": 5, "f8": 2.5, "bool": True, "2d": [8, 9]}[kind]
                    ctx.case([unit, list(positions), default, 2], sparse_case, length, list(positions), kind, default, 2, ctx)
                else:
                    ctx.case([unit, list(positions), None, 2], sparse_case, length, list(positions), kind, None, 2, ctx)
        if kind in ("i8", "2d", "jag"):
            # positions beyond the length, and repeated ones
            for k in range(4):
                for positions in itertools.combinations_with_replacement(range(min(length, 3) + 2), k):
                    if len(set(positions)) < k or any(p >= length for p in positions):
                        ctx.case([unit, list(positions), "odd"], sparse_case, length, list(positions), kind, None, k % 2, ctx)
    elif op == "column":
        for k in range(unit[1] + 1):
            for positions in itertools.combinations(range(unit[1]), k):
                ctx.case([unit, list(positions)], column_case, unit[1], list(positions), ctx)
