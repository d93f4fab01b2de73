"""C15: a union array yields each element from the branch its tag names."""
import itertools
import operator

import numpy

import awkward0

from awkward0 import JaggedArray, Table, UnionArray
from awkward0.array.base import AwkwardArray

from .. import forms, model
from ..core import Violation
from ..forms import KINDS
from ..obs import expect, expect_error, norm, observe, physical, text
from . import c04, c05, c11

ID = "C15"
RULE = "every tag vector up to the bound over every combination of branches, with every assignment of indexes into two elements per branch (and sequential, reversed and excess indexes for longer vectors), x every selection of an alphabet, chains of two selections, operators with every kind of operand, reducers, counts, padding and columns; every pair of tag vectors for binary operations; an outcome is non-trivial when its canonical value is distinct"
ASSUMPTIONS = ["operations that UnionArray does not implement raise (flatten, the combinatorics, argmin, argmax)",
               "a reducer of a union of numbers works in the common Numpy type of the branches in use",
               "columns can be selected when every branch in use has them"]
BOUNDS = {"quick": "up to 3 elements with every index assignment, 4 elements with 3 index layouts, 13 combinations of 1 to 3 branches",
          "thorough": "up to 4 elements with every index assignment, 5 elements with 3 index layouts, 13 combinations"}

COMBOS = [("i8", "f8"), ("i8", "jag"), ("jag", "str"), ("tab", "i8"), ("tab", "tabview"), ("f8", "bool"), ("jag", "jagc"), ("2d", "2d"), ("2d", "jag"), ("obj", "i8"), ("uni", "f8"), ("mask", "chk"), ("vrt", "idx"), ("i8",), ("i8", "f8", "jag"), ("f8", "tab", "str")]
NUMBERS = ("i8", "f8", "bool", "i4strided", "chk", "vrt", "idx")


def ident(branch, k):
    return 4 * branch + k


def build(combo, tags, index, junk=False):
    """contents hold the elements that index reaches, and one more (not reached) when junk"""
    contents = []
    for b, kind in enumerate(combo):
        top = max([j for t, j in zip(tags, index) if t == b] + [-1]) + 1
        if junk == "full":
            top = max(top, 2)
        contents.append(KINDS[kind].build([ident(b, k) for k in range(top)] + ([-1] if junk else [])))
    index = list(index) + ([0, 5] if junk else [])
    return UnionArray(numpy.array(tags, dtype=numpy.uint8), numpy.array(index, dtype=numpy.int64), contents)


def value(combo, tags, index):
    return [KINDS[combo[t]].value(ident(t, j)) for t, j in zip(tags, index)]


def indexes(tags, every):
    if every:
        for index in itertools.product(range(2), repeat=len(tags)):
            yield list(index)
        return
    seen = {}
    sequential = []
    for t in tags:
        sequential.append(seen.get(t, 0))
        seen[t] = sequential[-1] + 1
    yield sequential
    yield [seen[t] - 1 - i for t, i in zip(tags, sequential)]
    yield [1] * len(tags)


def kinds_used(combo, tags):
    return [combo[t] for t in sorted(set(tags))]


def scalar_op(f, v, w):
    """f applied to elements; lists elementwise; w a scalar, or one value per element"""
    return c04.apply(f, v, w)


def select_case(combo, tags, index, junk, ctx, every=False):
    fresh = lambda: build(combo, tags, index, junk)
    a, v = fresh(), value(combo, tags, index)
    n = len(v)
    before = physical(a)
    ctx.state(before)
    ctx.outcome(expect(observe(a), v, "array"))
    expect(len(a), n, "len")
    for k, where in enumerate(c11.alphabet(n, True) if every else c11.fewer(n)):
        c11.one(a, v, where, ctx, c11.chains if where[0] != "int" and k % 2 == 0 else ())
    used = set(combo) if every else set(kinds_used(combo, tags))
    if used and used <= set(("jag", "jagc", "2d")):
        for where in c11.tuples(n, "2d" if used == {"2d"} else "jag"):
            c11.one(a, v, where, ctx)
    for w, want, what in ((a.copy(), v, "copy"), (a.deepcopy(), v, "deepcopy"), (UnionArray.fromtags(numpy.zeros(n, dtype=numpy.uint8), [a]) if n else a, v, "union of the union")):
        c11.check(ctx, w, want, what)
    c11.check(ctx, a.concatenate([fresh()]), v + v, "concatenate")
    c11.check(ctx, a[::-1].concatenate([a]), v[::-1] + v, "concatenate reversed") if isinstance(a[::-1], UnionArray) else None
    if physical(a) != before:
        raise Violation("the array changed", "operand changed")


def numeric(x):
    return isinstance(x, (int, float)) or isinstance(x, list) and all(numeric(y) for y in x)


def ops_case(combo, tags, index, junk, ctx):
    fresh = lambda: build(combo, tags, index, junk)
    a, v = fresh(), value(combo, tags, index)
    n = len(v)
    before = physical(a)
    used = kinds_used(combo, tags) if tags else list(combo)
    with numpy.errstate(all="ignore"):
        if all(k in NUMBERS + ("jag", "jagc", "2d", "uni") for k in used):
            boolean = any(k == "bool" for k in used)
            per = list(range(5, 5 + n))
            c11.check(ctx, fresh() * 2, c04.apply(operator.mul, v, 2), "* 2")
            c11.check(ctx, 1.5 - fresh(), c04.apply(operator.sub, 1.5, v), "1.5 -")
            c11.check(ctx, fresh() + fresh(), c04.apply(operator.add, v, v), "a + a")
            c11.check(ctx, fresh() == fresh(), c04.apply(operator.eq, v, v), "a == a")
            c11.check(ctx, fresh() > 101, c04.apply(operator.gt, v, 101), "> 101")
            c11.check(ctx, numpy.maximum(fresh(), 101), c04.apply(numpy.maximum, v, 101), "maximum")
            c11.check(ctx, abs(fresh()), c04.apply(operator.abs, v), "abs") if not boolean else None
            if not any(k == "uni" for k in used) or True:
                c11.check(ctx, fresh() + numpy.array(3), c04.apply(operator.add, v, 3), "+ array(3)")
            if "2d" not in used:
                c11.check(ctx, fresh() + numpy.array(per, dtype=int), c04.apply(operator.add, v, per), "+ one per element")
                c11.check(ctx, numpy.array(per, dtype=int) - fresh(), c04.apply(operator.sub, per, v), "one per element -") if not boolean else None
                if n:
                    c11.check(ctx, fresh() + per, c04.apply(operator.add, v, per), "+ list")
                    c11.check(ctx, fresh() * JaggedArray.fromcounts([1] * n, numpy.array(per, dtype=int)) if all(not isinstance(x, list) for x in v) else fresh(), [[x * p] for x, p in zip(v, per)] if all(not isinstance(x, list) for x in v) else v, "* lists")
            if "bool" not in used and "2d" not in used and n:
                got = numpy.divmod(fresh(), 7)
                expect(isinstance(got, tuple) and len(got), 2, "two results of divmod")
                c11.check(ctx, got[0], c04.apply(numpy.floor_divide, v, 7), "divmod 0")
                c11.check(ctx, got[1], c04.apply(numpy.remainder, v, 7), "divmod 1")
            for bad in (n + 1, n - 1, n + 2):
                if bad > 1 and n > 1:
                    ctx.step(2)
                    expect_error(lambda: observe(fresh() + numpy.arange(bad)), "operand of length %d" % bad)
                    expect_error(lambda: observe(numpy.arange(bad) + fresh()), "operand of length %d" % bad)
        if tags and all(k in NUMBERS for k in used):
            dtype = "f8" if "f8" in used else "bool" if set(used) == {"bool"} else "i8"
            flat = [float(x) for x in v] if dtype == "f8" else v
            for name in c05.REDUCERS:
                ctx.step()
                c05.agree(norm(getattr(fresh(), name)()), c05.reduce(flat, name, dtype), name, name not in ("mean", "var", "std", "prod"))
        if used and all(k in ("jag", "jagc") for k in used) and set(combo) <= {"jag", "jagc"}:
            c11.check(ctx, fresh().pad(2), [x + [None] * (2 - len(x)) for x in v], "pad")
            c11.check(ctx, fresh().pad(1, clip=True), [(x + [None])[:1] for x in v], "pad clip")
    counted = [-1 if not isinstance(x, list) else len(x) for x in v]
    if all(k in ("i8", "f8", "bool", "jag", "jagc", "2d", "tab", "tabview") for k in combo) and n:
        c11.check(ctx, fresh().counts, counted, "counts")
    if all(k in ("i8", "f8", "bool", "jag", "mask", "chk", "tab", "str", "idx", "2d", "jagc", "tabview") for k in combo):
        ctx.step()
        expect(norm(fresh().boolmask()), [x is None for x in v], "boolmask")
        expect(norm(fresh().isunmasked), [x is not None for x in v], "isunmasked")
    if set(combo) <= {"i8", "f8", "mask"} and n:
        c11.check(ctx, fresh().fillna(7), [(7.0 if isinstance(x, float) else 7) if x is None or x != x else x for x in v], "fillna")
    if set(combo) == {"2d"} and n:
        c11.check(ctx, fresh().regular(), v, "regular")
    if set(combo) <= {"i8", "f8"}:
        expect([x == complex(y) or y != y for x, y in zip(norm(fresh().astype(complex)), v)], [True] * n, "astype")
        if n:
            expect(norm(numpy.array(fresh(), dtype=float)), [float(x) for x in v], "as a Numpy array")
    if used and all(k in ("tab", "tabview") for k in used):
        for name in ("x", "y"):
            col = [r[name] for r in v]
            for what, got, want in (("column", lambda: a[name], col), ("column of reversed", lambda: a[::-1][name], col[::-1]), ("reversed column", lambda: a[name][::-1], col[::-1]), ("column of a selection", lambda: a[numpy.arange(n)[::-1]][name], col[::-1]), ("column of masked", lambda: a[numpy.arange(n) % 2 == 0][name], col[::2]), ("column + 1", lambda: a[name] + 1, [x + 1 for x in col])):
                c11.check(ctx, got(), want, what)
        c11.check(ctx, a[["y"]], [{"y": r["y"]} for r in v], "list of columns")
        c11.check(ctx, a[["y", "x"]], v, "all columns")
        expect_error(lambda: observe(a["nope"]), "absent column")
    elif tags and any(k in ("tab", "tabview") for k in used):
        expect_error(lambda: observe(a["x"]), "column of a branch without columns")
    if physical(a) != before:
        raise Violation("the array changed", "operand changed")


def binary_case(combo1, tags1, combo2, tags2, ctx):
    (index1, index2) = list(indexes(tags1, False))[1], list(indexes(tags2, False))[0]
    a, b = build(combo1, tags1, index1, True), build(combo2, tags2, index2, "full")
    v, w = value(combo1, tags1, index1), value(combo2, tags2, index2)
    before = physical([a, b])
    ctx.state(before)
    c11.check(ctx, a + b, c04.apply(operator.add, v, w), "union + union")
    c11.check(ctx, b - a, c04.apply(operator.sub, w, v), "union - union")
    c11.check(ctx, (a + b)[::-1], c04.apply(operator.add, v, w)[::-1], "union + union, reversed")
    c11.check(ctx, a + b + a, c04.apply(operator.add, c04.apply(operator.add, v, w), v), "sum of three")
    c11.check(ctx, (a * 2)[numpy.arange(len(v)) % 2 == 0], c04.apply(operator.mul, v, 2)[::2], "masked product")
    j = JaggedArray.fromcounts([1] * len(v), b)
    c11.check(ctx, j, [[x] for x in w], "lists of the union")
    c11.check(ctx, j[::-1], [[x] for x in w][::-1], "lists of the union, reversed")
    if not any(isinstance(x, list) for x in v + w):
        c11.check(ctx, j + 1, [[x + 1] for x in w], "lists of the union + 1")
    if physical([a, b]) != before:
        raise Violation("an operand changed", "operand changed")


def fromtags_case(tags, ctx):
    sizes = [sum(1 for t in tags if t == b) for b in range(3)]
    contents = [KINDS["i8"].build([ident(0, k) for k in range(sizes[0])]), KINDS["jag"].build([ident(1, k) for k in range(sizes[1])]), KINDS["str"].build([ident(2, k) for k in range(sizes[2])])]
    combo = ("i8", "jag", "str")
    index = list(indexes(tags, False))[0]
    for t in (list(tags), numpy.array(tags, dtype=numpy.int64), numpy.array(tags, dtype=numpy.uint8)):
        a = UnionArray.fromtags(t, contents)
        c11.check(ctx, a, value(combo, tags, index), "fromtags")
        c11.check(ctx, a[::-1], value(combo, tags, index)[::-1], "fromtags, reversed")
        expect(a.issequential, True, "issequential")
    for b in range(3):
        if sizes[b]:
            short = list(contents)
            short[b] = short[b][:sizes[b] - 1]
            expect_error(lambda: observe(UnionArray.fromtags(list(tags), short)), "fewer elements than tags")


def multi_case(shape, combo, ctx):
    """tags with two dimensions"""
    for flat in itertools.product(range(len(combo)), repeat=shape[0] * shape[1]):
        index = list(indexes(flat, False))[0]
        a = UnionArray(numpy.array(flat, dtype=numpy.uint8).reshape(shape), numpy.array(index).reshape(shape), [KINDS[k].build([ident(b, i) for i in range(len(flat))]) for b, k in enumerate(combo)])
        v = value(combo, flat, index)
        v = [v[i * shape[1]:(i + 1) * shape[1]] for i in range(shape[0])]
        ctx.step(4)
        ctx.state(physical(a))
        expect([norm(a[i]) for i in range(len(a))], v, "rows")
        for i in range(-shape[0], shape[0]):
            for j in range(-shape[1], shape[1]):
                expect(norm(a[i, j]), v[i][j], "[%d, %d]" % (i, j))
        expect(norm(a[:, 0]), [r[0] for r in v], "[:, 0]")
        expect(norm(a[::-1][0]), v[-1], "[::-1][0]")
        expect(norm(a[:, ::-1][0]), v[0][::-1], "[:, ::-1][0]")


def many_case(n, ctx):
    """many contents, made by concatenating"""
    arrays = [KINDS["i8"].build([i]) if i % 2 else KINDS["jag"].build([i % 3]) for i in range(n)]
    v = [KINDS["i8"].value(i) if i % 2 else KINDS["jag"].value(i % 3) for i in range(n)]
    a = awkward0.concatenate(arrays)
    c11.check(ctx, a, v, "concatenate")
    c11.check(ctx, a[::-1], v[::-1], "concatenate, reversed")
    c11.check(ctx, a.concatenate([a]), v + v, "concatenated twice")


# ---------------------------------------------------------------- types of numbers
TYPES = ("bool", "int8", "uint8", "int16", "uint16", "int32", "uint32", "int64", "uint64", "float16", "float32", "float64", "complex64", "complex128")


def extremes(t):
    d = numpy.dtype(t)
    if d.kind in "iu":
        return numpy.array([numpy.iinfo(d).min, numpy.iinfo(d).max, 7], dtype=d)
    if d.kind == "f":
        return numpy.array([-numpy.finfo(d).max, 0.5, -0.0], dtype=d)
    return numpy.array([False, True, True] if d.kind == "b" else [1 + 2j, 0.5, -1j], dtype=d)


def types_case(types, ctx):
    """as a Numpy array, the union holds every number of its branches: exactly, or as Numpy's common type of them can"""
    contents = [extremes(t) for t in types]
    tags = numpy.array([b for i in range(3) for b in range(len(types))], dtype=numpy.uint8)
    a = UnionArray.fromtags(tags, contents)
    v = [contents[b][i] for i in range(3) for b in range(len(types))]
    common = numpy.result_type(*types)
    ctx.state(text(types))
    expect(norm(a), norm([x.item() for x in v]), "array")
    got = numpy.array(a)
    ctx.step(4)
    ctx.outcome(str(got.dtype))
    if got.dtype != a.dtype:
        raise Violation("dtype %s, as a Numpy array %s" % (a.dtype, got.dtype), "dtype %s" % a.dtype)
    for x, y in zip(v, got.tolist()):
        if not (y == x.item() or y == common.type(x).item()):
            raise Violation("%s of %s became %s in %s" % (x, x.dtype, y, got.dtype), "%s -> %s" % (x.dtype, got.dtype))
    for f in (lambda: a[::-1], lambda: a[tags == tags[0]], lambda: a.deepcopy()):
        b = f()
        if isinstance(b, UnionArray) and b.dtype != a.dtype:
            raise Violation("dtype %s, of a selection %s" % (a.dtype, b.dtype), "dtype of a selection")
    if common.kind in "iu" and "bool" not in types or common == numpy.float64 and "uint64" not in types:
        big = [x.item() for x in v]
        expect(norm(a.max()), norm(common.type(max(big))), "max")
        expect(norm(a.min()), norm(common.type(min(big))), "min")


def units(tier):
    q = tier == "quick"
    most = 3 if q else 4
    for combo in COMBOS:
        for n in range(most + 2):
            if n <= most or len(combo) <= 2:
                yield ["one", list(combo), n, n <= most]
    for n in range(5 if q else 6):
        yield ["every", n]
        yield ["fromtags", n]
        for pair in ((("i8", "f8"), ("f8", "i8")), (("i8", "jag"), ("f8", "i8")), (("i8", "f8", "bool"), ("i4strided", "f8")), (("chk", "f8"), ("jag", "i8"))):
            yield ["binary", [list(p) for p in pair], n]
    for n in (2, 128, 255, 256, 257, 300):
        yield ["many", n]
    for first in TYPES:
        yield ["types", first]
    for shape in ((1, 2), (2, 1), (2, 2), (3, 1), (1, 3)):
        for combo in (("i8", "f8"), ("i8", "jag"), ("tab", "str")):
            yield ["multi", list(shape), list(combo)]


def unit_of(case):
    return case[0]


def run_unit(unit, ctx):
    op = unit[0]
    if op == "one":
        combo, n = tuple(unit[1]), unit[2]
        for tags in itertools.product(range(len(combo)), repeat=n):
            for k, index in enumerate(indexes(tags, unit[3] and len(combo) < 3)):
                junk = (False, True, "full")[k % 3]
                ctx.case([unit, "select", list(tags), index], select_case, combo, list(tags), index, junk, ctx)
                ctx.case([unit, "ops", list(tags), index], ops_case, combo, list(tags), index, junk, ctx)
    elif op == "types":
        for second in TYPES:
            ctx.case([unit, second], types_case, [unit[1], second], ctx)
            for third in TYPES:
                ctx.case([unit, second, third], types_case, [unit[1], second, third], ctx)
    elif op == "every":
        for combo in (("i8", "f8"), ("str", "i8")):
            for tags in itertools.product(range(2), repeat=unit[1]):
                for k, index in enumerate(indexes(tags, unit[1] < 3)):
                    ctx.case([unit, list(combo), list(tags), index], select_case, combo, list(tags), index, (False, True)[k % 2], ctx, True)
    elif op == "fromtags":
        for tags in itertools.product(range(3), repeat=unit[1]):
            ctx.case([unit, list(tags)], fromtags_case, tags, ctx)
    elif op == "binary":
        c1, c2 = tuple(unit[1][0]), tuple(unit[1][1])
        for t1 in itertools.product(range(len(c1)), repeat=unit[2]):
            for t2 in itertools.product(range(len(c2)), repeat=unit[2]):
                ctx.case([unit, list(t1), list(t2)], binary_case, c1, list(t1), c2, list(t2), ctx)
    elif op == "multi":
        ctx.case([unit], multi_case, tuple(unit[1]), tuple(unit[2]), ctx)
    elif op == "many":
        ctx.case([unit], many_case, unit[1], ctx)
