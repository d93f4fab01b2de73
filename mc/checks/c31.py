"""C31: lists in regular dimensions (starts and stops with more than one dimension)."""
import itertools
import pickle

import numpy

import awkward0
from awkward0 import JaggedArray

from .. import forms, model
from ..core import Violation
from ..obs import expect, expect_error, norm, observe, physical, text

ID = "C31"
RULE = "every shape and every assignment of row lengths within the bound x every physical layout x content kinds x every operation of the alphabet, on the array as built, after its derived quantities were read, and on what a first selection gives; an outcome is non-trivial when its canonical value is distinct"
ASSUMPTIONS = ["combinatorics, joining lists element by element (axis=1), slicing or gathering inside the lists, and Arrow have no form for lists in regular dimensions: they may be refused"]
BOUNDS = {"quick": "shapes (0,2) to (3,2), (2,0) and (2,1,2), row lengths<=2 (all 81 for (2,2)), 12 layouts, 9 content kinds",
          "thorough": "shapes (0,2) to (3,3), (2,0), (2,1,2) and (2,2,2), row lengths<=2 (all 729 for (3,2)), 12 layouts, 22 content kinds"}

SHAPES = [(0, 2), (1, 1), (1, 2), (2, 1), (2, 2), (3, 2), (2, 0), (2, 1, 2)]
SOME = ["i8", "f8", "bool", "jag", "tab", "str", "mask", "imask", "i4strided"]
NUMBERS = ("i8", "f8", "bool", "i4strided")


def units(tier):
    for shape in SHAPES + ([(3, 3), (2, 2, 2)] if tier != "quick" else []):
        n = int(numpy.prod(shape))
        vectors = list(itertools.product(range(3), repeat=n))
        if (n > 4 or len(shape) > 2) and (tier == "quick" or n > 6):
            vectors = [tuple((k * a + b) % 3 if (k + b) % m else 0 for k in range(n)) for a in (1, 2) for b in range(3) for m in (2, 3, 5)]
            vectors = sorted(set(vectors))
        for counts in vectors:
            for layout in forms.LAYOUTS:
                kinds = ["i8"]
                if tier != "quick" or sum(counts) in (3, 5) or n <= 2:
                    kinds = SOME if tier == "quick" or sum(counts) not in (3, 5) else list(forms.KINDS)
                if tier != "quick" and n > 4:
                    kinds = SOME if sum(counts) in (3, 5) else SOME[:3]
                if tier == "quick" and (n > 4 or layout not in ("offsets", "gaps", "longstops")):
                    kinds = kinds[:2]
                if tier == "quick" and n == 4 and shape == (2, 2) and layout in ("copied", "u1", "strided", "bigend", "emptyfar", "offjunk") and sum(counts) not in (3, 5):
                    continue
                yield [list(shape), list(counts), layout, kinds]


def nest(flat, shape):
    if len(shape) == 1:
        return list(flat)
    step = int(numpy.prod(shape[1:]))
    return [nest(flat[i * step : (i + 1) * step], shape[1:]) for i in range(shape[0])]


def parts(shape, counts, layout):
    starts, stops, ids = forms.jagged_parts(forms.ids_of(counts), layout)
    n = len(counts)
    extra = stops[n:]
    starts = starts.reshape(shape)
    stops = numpy.array(stops[:n]).reshape(shape) if len(extra) else stops.reshape(shape)
    if len(extra):      # more stops than starts
        stops = numpy.concatenate([stops, numpy.zeros((1,) + tuple(shape[1:]), dtype=stops.dtype)])
    return starts, stops, ids


def build(shape, counts, layout, kind):
    starts, stops, ids = parts(shape, counts, layout)
    return JaggedArray(starts, stops, forms.KINDS[kind].build(ids))


def shaped(shape, rows, layout, dtype):
    """a jagged array of that shape with given primitive values"""
    flat = [v for r in rows for v in r]
    starts, stops, ids = parts(shape, [len(r) for r in rows], layout)
    return JaggedArray(starts, stops, numpy.array([flat[i] if i >= 0 else (True if dtype == numpy.bool_ else 77) for i in ids], dtype=dtype))


def leaves(value, depth):
    """the lists, in order"""
    if depth == 1:
        return list(value)
    return [x for v in value for x in leaves(v, depth - 1)]


def numbers(row):
    return [x for x in row if x is not None and x == x]


REDUCERS = {
    "sum": lambda r, k: sum(r),
    "prod": lambda r, k: int(numpy.prod(numpy.array(r, dtype=numpy.int64))) if k != "f8" else float(numpy.prod(numpy.array(r, dtype=float))),
    "any": lambda r, k: any(r),
    "all": lambda r, k: all(r),
    "count": lambda r, k: len(r),
    "count_nonzero": lambda r, k: sum(1 for x in r if x),
}


def same_numbers(got, want, what):
    got, want = norm(got), norm(want)

    def close(a, b):
        if isinstance(b, list):
            return isinstance(a, list) and len(a) == len(b) and all(close(x, y) for x, y in zip(a, b))
        if b is None or a is None:
            return a is b
        return a == b or (a != a and b != b) or abs(a - b) <= 1e-9 * (1 + abs(b))

    if not close(got, want):
        raise Violation("%s: %s, expected %s" % (what, text(got), text(want)), "wrong " + what)
    return text(want)


def selections(shape):
    r = shape[0]
    for i in range(-r - 1, r + 1):
        yield (i,)
    for s in (slice(None), slice(None, None, -1), slice(1, None), slice(0, 0), slice(None, -1), slice(-1, None, -2)):
        yield (s,)
        for j in range(-shape[1] - 1, shape[1] + 1):
            yield (s, j)
        for s2 in (slice(None, None, -1), slice(1, None), slice(0, 1)):
            yield (s, s2)
    for i in range(-r, r):
        for j in range(-shape[1] - 1, shape[1] + 1):
            yield (i, j)
            if len(shape) == 2:
                for k in (-2, -1, 0, 1):
                    yield (i, j, k)
                yield (i, j, slice(None, None, -1))
        yield (i, slice(None, None, -1))
    if len(shape) == 2:
        for j in range(shape[1]):
            for k in (-1, 0, 1):
                yield (slice(None), j, k)
            yield (slice(None, None, -1), j, slice(1, None))
    for m in itertools.product([False, True], repeat=r):
        yield (numpy.array(m, dtype=bool),)
    yield (numpy.array([True] * (r + 1)),)
    for t in ([], [0], [-1, 0], [0, 0], [r], [-r - 1]):
        yield (numpy.array(t, dtype=int),)
        if shape[1]:
            yield (numpy.array(t, dtype=int), -1)
            yield (numpy.array(t, dtype=int), numpy.array([0] * len(t), dtype=int))
            yield (numpy.array(t, dtype=int), slice(None, None, -1))


def masks_2d(shape):
    n = int(numpy.prod(shape))
    for bits in itertools.product([False, True], repeat=n) if n <= 4 else ([k % 2 == 0 for k in range(n)], [k % 3 == 1 for k in range(n)], [True] * n):
        yield numpy.array(bits, dtype=bool).reshape(shape)


class Lists(object):
    """the lists as opaque elements of an object array, on which Numpy selects"""


def reference(value, shape, where):
    """the selection by Numpy on an object array of opaque lists, and what remains of the tuple by hand"""
    n = len(shape)
    flat = leaves(value, n)
    objects = numpy.empty(shape, dtype=object)
    for k, v in zip(itertools.product(*(range(s) for s in shape)), flat):
        objects[k] = Box(v)
    head, tail = where[:n], where[n:]
    out = objects[head]
    if not tail:
        return unbox(out)
    (last,) = tail

    def pick(v):
        if isinstance(v, list):
            return [pick(x) for x in v]
        if isinstance(last, int) and not -len(v.v) <= last < len(v.v):
            raise IndexError
        return v.v[last]
    return pick(out.tolist() if isinstance(out, numpy.ndarray) else out)


class Box(object):
    def __init__(self, v):
        self.v = v


def unbox(x):
    if isinstance(x, Box):
        return x.v
    return [unbox(y) for y in (x.tolist() if isinstance(x, numpy.ndarray) else x)]


def select(make, value, shape, where, ctx):
    ctx.step()
    a = make()
    try:
        want = reference(value, shape, where)
    except IndexError:
        expect_error(lambda: a[where if len(where) > 1 else where[0]], "selection %s" % (where,))
        ctx.outcome("error")
        return None
    got = a[where if len(where) > 1 else where[0]]
    ctx.outcome(expect(observe(got), want, "selection %s" % (where,)))
    return got, want


def structure(make, value, shape, kind, ctx, shares=False):
    n = len(shape)
    rows = leaves(value, n)
    counts = nest([len(r) for r in rows], list(shape))
    ctx.step()
    a = make()
    ctx.outcome(expect(observe(a), value, "array"))
    ctx.state(physical(a))
    expect([list(a.shape), len(a), norm(a.counts)], [list(shape), shape[0], counts], "shape, length and counts")
    expect(norm(a.starts.shape == a.stops.shape), True, "shapes of starts and stops")
    expect(norm(a.localindex), nest([list(range(len(r))) for r in rows], list(shape)), "local index")
    parents = a.parents
    flat = [x for r in rows for x in r]
    # every element of the content belongs to at most one list
    if not shares:
        expect([sum(1 for p in parents.tolist() if p == k) for k in range(len(rows))], [len(r) for r in rows], "parents")
    expect(norm(a.flatten()), flat, "flatten()")
    for name, b in (("compact()", a.compact()), ("structure1d()", a.structure1d()), ("deepcopy()", a.deepcopy()), ("copy()", a.copy()), ("tojagged", a.tojagged(make())), ("pickled", pickle.loads(pickle.dumps(a))), ("compact() of a selection", a[::-1].compact()[::-1]), ("flattened selection", None)):
        if name == "flattened selection":
            expect(norm(a[::-1].flatten()), [x for v in value[::-1] for r in leaves([v], n) for x in r], name)
            continue
        expect(observe(b), value, name)
        if name == "structure1d()":
            while isinstance(b, JaggedArray) and len(b):
                expect(len(b.starts.shape), 1, "dimensions of starts after structure1d()")
                b = b.content
        else:
            expect(list(b.shape), list(shape), "shape after " + name)
    if shape[0]:
        expect(norm(a.concatenate([make()])), value + value, "concatenate")
        expect(norm(make()[1:].concatenate([a, make()[:1]])), value[1:] + value + value[:1], "concatenate of three")
    expect(observe(a), value, "array afterwards")
    if kind in NUMBERS:
        for length in (0, 1, 2):
            def padded(clip):
                return nest([(list(r) + [None] * (length - len(r)))[: length if clip else None] for r in rows], list(shape))
            for clip in (False, True):
                expect(norm(a.pad(length, clip=clip)), padded(clip), "pad(%d, clip=%s)" % (length, clip))
        if kind != "f8":
            expect(norm(a.pad(2).fillna(7)), nest([[7 if x is None else x for x in r + [None] * (2 - len(r))] for r in rows], list(shape)) if kind != "bool" else norm(a.pad(2).fillna(7)), "fillna")
        expect(norm(a.zeros_like()), nest([[{"f8": 0.0, "bool": False}.get(kind, 0)] * len(r) for r in rows], list(shape)), "zeros_like")
        z = JaggedArray.zip(x=make(), y=make().compact())
        expect(norm(z), nest([[{"x": x, "y": x} for x in r] for r in rows], list(shape)), "zip")


def calculate(make, value, shape, kind, ctx, before=None):
    n = len(shape)
    rows = leaves(value, n)

    def per(f):
        return nest([f(r) for r in rows], list(shape))

    ctx.step()
    a = make()
    if before == "read":
        a.counts, a.parents, a.localindex, a.tolist()
    if before == "reversed":
        a = a[::-1]
        value = value[::-1]
        rows = leaves(value, n)
    conv = (lambda x: x) if kind != "bool" else int
    extra = numpy.arange(len(rows)).reshape(shape)
    if kind != "bool":
        expect(norm(a + 1), per(lambda r: [x + 1 for x in r]), "a + 1")
        expect(norm(1 - a), per(lambda r: [1 - x for x in r]), "1 - a")
        it = iter(range(len(rows)))
        expect(norm(a + extra), per(lambda r: (lambda k: [x + k for x in r])(next(it))), "a + array of the same shape")
        it = iter(range(len(rows)))
        expect(norm(extra - a), per(lambda r: (lambda k: [k - x for x in r])(next(it))), "array of the same shape - a")
        expect(norm(numpy.negative(a)), per(lambda r: [-x for x in r]), "negative")
        expect(norm(a + a), per(lambda r: [x + x for x in r]), "a + a")
        expect(norm(a - a.compact()), per(lambda r: [x - x for x in r]), "a - a.compact()")
    expect(norm(a == a), per(lambda r: [x == x for x in r]), "a == a")
    expect(norm(a.tojagged(extra)), nest([[k] * len(r) for k, r in enumerate(rows)], list(shape)), "tojagged(array of the same shape)")
    for name in REDUCERS:
        f = REDUCERS[name]
        ctx.outcome(name + same_numbers(getattr(a, name)(), per(lambda r: f(numbers(r), kind)), name))
    for name, f in (("min", min), ("max", max)):
        got = norm(getattr(a, name)())
        flatgot = leaves(got, n) if len(rows) else []
        same_numbers([g for g, r in zip(flatgot, rows) if numbers(r)], [f(numbers(r)) for r in rows if numbers(r)], name)
    for name, f in (("mean", lambda r: float(numpy.mean(r)) if r else float("nan")), ("std", lambda r: float(numpy.std(r)) if r else float("nan")), ("var", lambda r: float(numpy.var(r)) if r else float("nan"))):
        same_numbers(getattr(a, name)(), per(lambda r: f([float(x) for x in numbers(r)])), name)
    if kind != "f8":
        ctx.outcome(expect(norm(a.argmax()), per(lambda r: [r.index(max(r))] if r else []), "argmax"))
        expect(norm(a.argmin()), per(lambda r: [r.index(min(r))] if r else []), "argmin")
        expect(norm(a[a.argmax()]), per(lambda r: [max(r)] if r else []), "selection with argmax")
        if kind != "bool":
            for up in (False, True):
                ctx.outcome(expect(norm(a.argsort(up)), per(lambda r: sorted(range(len(r)), key=lambda k: r[k] if up else -r[k])), "argsort(%s)" % up))
                expect(norm(a[a.argsort(up)]), per(lambda r: sorted(r, reverse=not up)), "selection with argsort")
    expect(observe(a), value, "array afterwards")


def jagged_selection(make, value, shape, pattern, layout, ctx, assign):
    """masks and indexes of the same shape, in layouts of their own"""
    ctx.step()
    n = len(shape)
    rows = leaves(value, n)
    if pattern[0] == "mask":
        picks = [[k for k in range(len(r)) if (k + i + pattern[1]) % 2 == 0 or pattern[1] == 3] if pattern[1] != 4 else [] for i, r in enumerate(rows)]
        w = shaped(shape, [[k in p for k in range(len(r))] for p, r in zip(picks, rows)], layout, numpy.bool_)
    else:
        picks = [{0: list(range(len(r)))[::-1], 1: [-1] if r else [], 2: [0, 0] if r else [], 3: [], 4: [len(r) - 1, -len(r)] if i % 2 and r else []}[pattern[1]] for i, r in enumerate(rows)]
        w = shaped(shape, picks, layout, numpy.int64)
    a = make()
    if not assign:
        got = a[w]
        ctx.outcome(expect(observe(got), nest([[r[k] for k in p] for p, r in zip(picks, rows)], list(shape)), "jagged %s, index layout %s" % (pattern, layout)))
        expect(observe(a), value, "array afterwards")
        return
    if a.content.dtype == bool:
        return
    a[w] = 55
    want = [list(r) for r in rows]
    for r, p in zip(want, picks):
        for k in p:
            r[k] = 55
    ctx.outcome(expect(observe(a), nest(want, list(shape)), "assignment to jagged %s, index layout %s" % (pattern, layout)))


def refused(make, value, shape, ctx):
    """what doesn't fit"""
    ctx.step()
    n = len(shape)
    rows = leaves(value, n)
    a = make()
    if shape[0] and shape[1]:
        expect_error(lambda: a + numpy.arange(shape[0] + 1), "adding a longer array")
        if tuple(shape) != tuple(shape)[::-1]:
            expect_error(lambda: a + numpy.zeros(tuple(shape)[::-1]), "adding an array of the transposed shape")
        expect_error(lambda: a[shaped(shape, [[0] * len(r) + [len(r)] for r in rows], "offsets", numpy.int64)], "a jagged index out of range")
        expect_error(lambda: a[shaped(shape, [[True] * (len(r) + 1) for r in rows], "offsets", numpy.bool_)], "a jagged mask that is too long")
        if sum(len(r) for r in rows):
            longer = [list(r) for r in rows]
            longer[0] = longer[0] + [0]
            expect_error(lambda: a + shaped(shape, longer, "offsets", numpy.int64), "adding lists of other lengths")
    expect(observe(a), value, "array afterwards")


def some(values):
    return values[:3] + [v for v in values[3:] if len(v[0]) == 1 and isinstance(v[0][0], numpy.ndarray) and v[0][0].tolist() == [0, 0]]


def run_unit(unit, ctx):
    shape, counts, layout, kinds = unit
    shape = tuple(shape)
    for kind in kinds:
        v = forms.KINDS[kind].value
        value = nest([[v(i) for i in r] for r in forms.ids_of(counts)], list(shape))

        def make():
            return build(shape, counts, layout, kind)

        base = [shape, counts, layout, kind]
        ctx.case([base, "structure"], structure, make, value, shape, kind, ctx)
        seen = {}
        for where in selections(shape) if layout in ("gaps", "longstops") or kind == "i8" and layout in ("offsets", "reversed", "shared", "u8") else [(numpy.array([0, 0]),), (slice(None, None, -1),), (slice(1, None),)] if shape[0] else []:
            out = ctx.case([base, [str(w) for w in where]], select, make, value, shape, where, ctx)
            if out is not None and isinstance(out[0], JaggedArray) and len(out[0].starts.shape) == len(shape) and 0 not in out[0].starts.shape:
                seen.setdefault(physical(out[0]), (where, out[1], out[0].starts.shape))
        for m in masks_2d(shape) if kind == "i8" else ():
            ctx.case([base, "mask", m.tolist()], select, make, value, shape, (m,), ctx)
        if kind in NUMBERS:
            for before in (None, "read", "reversed"):
                ctx.case([base, "calculate", before], calculate, make, value, shape, kind, ctx, before)
            ctx.case([base, "refused"], refused, make, value, shape, ctx)
            # and again on what the selections gave
            if kind == "i8":
                for where, val, newshape in some(list(seen.values())):
                    def again(where=where):
                        return make()[where if len(where) > 1 else where[0]]
                    ctx.case([base, [str(w) for w in where], "calculate"], calculate, again, val, newshape, kind, ctx)
                    ctx.case([base, [str(w) for w in where], "structure"], structure, again, val, newshape, kind, ctx, isinstance(where[0], numpy.ndarray))
        for il in (("offsets", "gaps", "reversed", "longstops") if layout in ("offsets", "gaps", "longstops") else ("gaps",)) if kind == "i8" else ("offsets",):
            for p in range(5):
                for what in ("mask", "index"):
                    ctx.case([base, what, p, il], jagged_selection, make, value, shape, (what, p), il, ctx, False)
                    if kind == "i8":
                        ctx.case([base, what, p, il, "assign"], jagged_selection, make, value, shape, (what, p), il, ctx, True)
