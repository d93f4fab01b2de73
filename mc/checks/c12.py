"""C12: an appendable array holds exactly what was appended."""
import itertools
import operator

import numpy

from awkward0 import AppendableArray, ChunkedArray
from awkward0.array.base import AwkwardArray

from .. import model
from ..core import Violation
from ..obs import expect, expect_error, norm, observe, physical, text
from . import c04, c05

ID = "C12"
RULE = "every sequence up to the bound of append, extend (0, 1, 2, 5 values, from lists, arrays and the array itself), copying and continuing on the copy or on the original, and slicing and continuing on the slice; after every step every reading operation of an alphabet is compared with a list, and all results taken earlier are compared again at the end; an outcome is non-trivial when its canonical value is distinct"
ASSUMPTIONS = ["a copy or a selection of an appendable array is independent of later appends to the original, and the other way round"]
BOUNDS = {"quick": "histories of up to 4 steps, chunk sizes 1 to 3, 3 dtypes, flat and two-dimensional elements, empty and pre-filled",
          "thorough": "histories of up to 6 steps, chunk sizes 1 to 4, 3 dtypes, flat and two-dimensional elements, empty and pre-filled"}

STEPS = ["append", "extend0", "extend1", "extend2", "extend5", "extendarray", "extendself", "copy", "slice"]


class World(object):
    def __init__(self, chunk, dtype, wide, prefill):
        self.dtype, self.wide, self.count = dtype, wide, 0
        self.taken = []
        self.value = []
        shape = (chunk, 2) if wide else chunk
        if prefill:
            chunks = [self.array(self.next(2)), self.array(self.next(1))]
            self.value = [x for c in chunks for x in norm(c)]
            self.a = AppendableArray(shape, dtype, chunks)
        else:
            self.a = AppendableArray(shape, dtype)

    def one(self):
        self.count += 1
        k = self.count
        v = {"f8": k + 0.25, "i8": k, "bool": k % 3 == 0}[self.dtype]
        return [v, {"f8": -v if self.dtype == "f8" else 0, "i8": -k, "bool": k % 2 == 0}[self.dtype]] if self.wide else v

    def next(self, n):
        return [self.one() for _ in range(n)]

    def array(self, values):
        return numpy.array(values, dtype=self.dtype).reshape((len(values), 2) if self.wide else (len(values),))


def readers(world):
    """(name, function of the array, function of the list) of reads that give a new result"""
    n = len(world.value)
    v = world.value
    out = []

    def sel(where):
        out.append((str(where), lambda a, w=model.real(where): a[w], lambda v, w=where: model.select(v, w)))

    for where in [("slice", None, None, None), ("slice", None, None, -1), ("slice", 1, None, 2), ("slice", -2, None, None), ("slice", None, n + 2, None), ("slice", n, None, None), ("slice", n - 1, n + 4, None), ("slice", None, None, -2), ("slice", 0, n, 3), ("slice", n + 1, None, -1),
                  ("mask", [i % 2 == 0 for i in range(n)]), ("mask", [True] * n), ("mask", [True] * (n + 1)), ("take", list(range(n))), ("take", list(range(-n, 0))[::-1]), ("take", [n - 1, 0] if n else []), ("take", [n]), ("take", [-n - 1]), ("int", n), ("int", -n - 1), ("int", n - 1), ("int", -1), ("int", 0)]:
        sel(where)
    if world.wide:
        for where in [("tuple", [("slice", None, None, None), ("int", 0)]), ("tuple", [("slice", None, None, -1), ("slice", None, 1, None)]), ("tuple", [("take", list(range(n))), ("int", 1)]), ("tuple", [("mask", [i % 2 == 1 for i in range(n)]), ("int", 1)])]:
            sel(where)
    with_ops = world.dtype != "bool"
    out.append(("copy", lambda a: a.copy(), lambda v: list(v)))
    out.append(("deepcopy", lambda a: a.deepcopy(), lambda v: list(v)))
    out.append(("concatenate", lambda a: a.concatenate([a]), lambda v: v + v))
    out.append(("as ChunkedArray", lambda a: ChunkedArray([a, a[:1]]), lambda v: v + v[:1]))
    if with_ops:
        out.append(("+ 1", lambda a: a + 1, lambda v: c04.apply(operator.add, v, 1)))
        out.append(("a * a", lambda a: a * a, lambda v: c04.apply(operator.mul, v, v)))
        out.append(("2 <", lambda a: 2 < a, lambda v: c04.apply(operator.lt, 2, v)))
        if not world.wide:
            out.append(("+ array", lambda a: a + numpy.arange(n), lambda v: c04.apply(operator.add, v, list(range(n)))))
            out.append(("array -", lambda a: numpy.arange(n) - a, lambda v: c04.apply(operator.sub, list(range(n)), v)))
        out.append(("astype", lambda a: a.astype(complex), lambda v: c04.apply(numpy.add, v, 0j)))
    if n:
        out.append(("numpy.array", lambda a: numpy.array(a), lambda v: list(v)))
        out.append(("fillna", lambda a: a.fillna(0), lambda v: list(v)))
    out.append(("zeros_like", lambda a: a.zeros_like(), lambda v: blank(v, 0)))
    out.append(("ones_like", lambda a: a.ones_like(), lambda v: blank(v, 1)))
    return out


def blank(v, x):
    return [blank(y, x) if isinstance(y, list) else type(y)(x) for y in v]


def read(world, ctx):
    a, v = world.a, world.value
    n = len(v)
    ctx.step(6)
    ctx.outcome(expect(observe(a), v, "array"))
    expect(len(a), n, "len")
    expect(norm(a.offsets[-1]), n, "last offset")
    if sum(a.chunksizes) != n or any(c > len(x) for c, x in zip(a.chunksizes, a.chunks)):
        raise Violation("chunk sizes %s for %d elements" % (a.chunksizes, n))
    expect(tuple(a.shape), (n, 2) if world.wide else (n,), "shape")
    expect(norm(a.counts), [2 if world.wide else -1] * n, "counts")
    expect(norm(a.ismasked), [False] * n, "ismasked")
    for name, f, g in readers(world):
        ctx.step()
        try:
            want = g(v)
        except model.ModelError:
            expect_error(lambda: observe(f(a)), name)
            continue
        got = f(a)
        expect(observe(got, deep=False) if isinstance(got, AwkwardArray) else norm(got), want, name)
        if isinstance(got, (AwkwardArray, numpy.ndarray)) and name != "as ChunkedArray":     # that one contains the array itself
            world.taken.append((name, got, want, len(world.taken)))
    if not world.wide:
        for name in c05.REDUCERS:
            ctx.step()
            ctx.outcome(c05.agree(norm(getattr(a, name)()), c05.reduce(v, name, world.dtype), name, name not in ("mean", "var", "std") and (name != "prod" or world.dtype != "f8")))
        if n and world.dtype == "i8":
            expect(norm(a.argmax()), n - 1 if v == sorted(v) and len(set(v)) == n else v.index(max(v)), "argmax")
    elif n:
        expect(norm(a.flatten()), [y for x in v for y in x], "flatten")
        expect(norm(a.regular()), v, "regular")


def step(world, op):
    a = world.a
    if op == "append":
        x = world.one()
        a.append(x)
        world.value = world.value + [x]
    elif op in ("extend0", "extend1", "extend2", "extend5"):
        xs = world.next(int(op[-1]))
        a.extend(xs)
        world.value = world.value + xs
    elif op == "extendarray":
        xs = world.next(3)
        a.extend(world.array(xs)[::-1])
        world.value = world.value + xs[::-1]
    elif op == "extendself":
        a.extend(a)
        world.value = world.value + world.value
    elif op == "copy":
        other = a.copy()
        other.append(world.one())
        world.taken.append(("copy that was appended to", other, world.value + [norm(other[-1])], -1))
        world.a = a.copy()
        a.append(world.one())
        world.taken.append(("original of a copy", a, world.value + [norm(a[-1])], -1))
    elif op == "slice":
        out = a[1:]
        if not isinstance(out, AppendableArray):
            raise Violation("a slice of an AppendableArray is a %s" % type(out).__name__)
        x = world.one()
        a.append(x)
        world.taken.append(("original of a slice", a, world.value + [x], -1))
        world.a, world.value = out, world.value[1:]


def history_case(chunk, dtype, wide, prefill, history, ctx):
    world = World(chunk, dtype, wide, prefill)
    for k, op in enumerate(history):
        step(world, op)
        ctx.step()
        # every prefix is a history of its own; read after the last step and, to have earlier results around, after the first
        if k == 0 or k == len(history) - 1:
            read(world, ctx)
    if not history:
        read(world, ctx)
    ctx.state(physical_used(world.a))
    for name, got, want, _ in world.taken:
        ctx.step()
        expect(observe(got, deep=False) if isinstance(got, AwkwardArray) else norm(got), want, "result of %s taken earlier" % name)


def physical_used(a):
    return "%s %s" % (a.chunksizes, [len(x) for x in a.chunks])


def grow_case(chunk, ctx):
    """one long sequence with every element checked after every append"""
    a, v = AppendableArray(chunk, "i8"), []
    for i in range(3 * chunk + 2):
        a.append(i)
        v.append(i)
        ctx.step()
        expect(norm(a), v, "after %d appends" % (i + 1))
        for k in range(-len(v), len(v)):
            expect(norm(a[k]), v[k], "[%d]" % k)
        expect(norm(a[::-1]), v[::-1], "reversed")
    for bad in (lambda: a.append("x"), lambda: a.append([1, 2]), lambda: a.extend(["x"])):
        ctx.step()
        expect_error(bad, "appending something of another type")
        expect(observe(a), v, "after a refused append")
        expect(norm(a.sum()), sum(v), "sum after a refused append")
    a.append(77)
    expect(observe(a), v + [77], "append after a refused append")


def units(tier):
    q = tier == "quick"
    depth = 4 if q else 6
    for chunk in (1, 2, 3) if q else (1, 2, 3, 4):
        for dtype, wide, prefill in (("i8", False, False), ("f8", True, False), ("i8", True, True), ("bool", False, True), ("f8", False, True)):
            d = depth if dtype == "i8" and not wide else depth - 1
            for first in STEPS:
                for second in STEPS:
                    yield ["history", chunk, dtype, wide, prefill, d, first, second]
            yield ["short", chunk, dtype, wide, prefill]
    for chunk in range(1, 7):
        yield ["grow", chunk]


def unit_of(case):
    return case[0]


def run_unit(unit, ctx):
    if unit[0] == "grow":
        ctx.case([unit], grow_case, unit[1], ctx)
    elif unit[0] == "short":
        for history in [()] + [(s,) for s in STEPS]:
            ctx.case([unit, list(history)], history_case, unit[1], unit[2], unit[3], unit[4], history, ctx)
    else:
        chunk, dtype, wide, prefill, depth, first, second = unit[1:]
        for d in range(depth - 1):
            for rest in itertools.product(STEPS, repeat=d):
                ctx.case([unit, list(rest)], history_case, chunk, dtype, wide, prefill, (first, second) + rest, ctx)
