"""C18: object arrays and mixed-in methods see the right data everywhere."""
import itertools
import operator

import numpy

import awkward0
from awkward0 import (BitMaskedArray, ChunkedArray, IndexedArray, IndexedMaskedArray, JaggedArray, MaskedArray, Methods, ObjectArray, SparseArray, Table, UnionArray, VirtualArray)
from awkward0.array.base import AwkwardArray

from .. import forms, model
from ..core import Violation
from ..forms import KINDS
from ..obs import expect, expect_error, norm, observe, physical, text
from . import c04, c11

ID = "C18"
RULE = "every kind of content x generators with and without arguments x every length up to the bound x selections, chains, tuples, operators, copies, concatenation; every container class holding objects; arrays of records with mixed-in methods in every nesting of two containers x every selection of an alphabet and chains of three selections, jagged masks, arithmetic, concatenation, column selection: the methods have to be there and act on the selected data; an outcome is non-trivial when its canonical value is distinct"
ASSUMPTIONS = ["arithmetic gives the methods that the elements have (methods of a container whose elements have none are not transferred)",
               "the documented dims parameter of ObjectArray does not exist in this version"]
BOUNDS = {"quick": "up to 4 objects, 18 content kinds, 3 generators; 13 containers, 3 method classes, chains of 3 selections",
          "thorough": "up to 6 objects, 18 content kinds, 3 generators; pairs of 13 containers, chains of 3 selections"}

CONTENTS = ("i8", "f8", "bool", "2d", "i4strided", "jag", "jagc", "tab", "tabview", "str", "mask", "imask", "idx", "sparse", "uni", "obj", "vrt", "chk")


class Made(object):
    """what a generator made: remembers exactly what it was given"""
    def __init__(self, x, *args, **kwargs):
        self.data = (text(norm(x)), text(norm(list(args))), text(norm(kwargs)))

    def __eq__(self, other):
        return type(other) is Made and self.data == other.data

    def __ne__(self, other):
        return not self == other

    def __hash__(self):
        return hash(self.data)

    def __repr__(self):
        return "Made%r" % (self.data,)


def double(x, k=2):
    """makes lists, so that a tuple has something to select from"""
    return numpy.array([7, k, 9])


GENS = [(Made, (), {}), (Made, (1, "x"), {}), (Made, (5,), {"flag": True})]


def build(kind, ids, gen):
    g, args, kwargs = gen
    return ObjectArray(KINDS[kind].build(list(ids)), g, args, kwargs)


def value(kind, ids, gen):
    g, args, kwargs = gen
    return [g(KINDS[kind].value(i), *args, **kwargs) for i in ids]


def object_case(kind, n, gen, ctx):
    ids = list(range(n))
    a, v = build(kind, ids, gen), value(kind, ids, gen)
    ctx.outcome(expect(observe(a), v, "array"))
    c11.selections(a, v, "obj", ctx)
    before = physical(a)
    for where in c11.fewer(n)[::3]:
        if where[0] == "int":
            continue
        got = a[model.real(where)] if not (where[0] == "take" and any(not -n <= i < n for i in where[1]) or where[0] == "mask" and len(where[1]) != n) else a
        if not isinstance(got, ObjectArray):
            raise Violation("%s gives a %s" % (where, type(got).__name__))
        expect([got.generator is gen[0], got.args, got.kwargs], [True, gen[1], gen[2]], "generator and arguments of %s" % (where,))
    c11.check(ctx, a.copy(), v, "copy")
    c11.check(ctx, a.deepcopy(), v, "deepcopy")
    c11.check(ctx, a.copy(args=(9,)), [Made(KINDS[kind].value(i), 9, **gen[2]) for i in ids], "copy with other arguments")
    c11.check(ctx, a.copy(kwargs={"z": 1}), [Made(KINDS[kind].value(i), *gen[1], z=1) for i in ids], "copy with other keyword arguments")
    c11.check(ctx, a.copy(content=KINDS[kind].build(ids[::-1])), v[::-1], "copy with another content")
    c11.check(ctx, a.copy(generator=lambda x, *b, **c: 5), [5] * n, "copy with another generator")
    b = a.copy()
    b.args = 3
    expect(b.args, (3,), "args")
    c11.check(ctx, b, [Made(KINDS[kind].value(i), 3, **gen[2]) for i in ids], "reassigned argument")
    c11.check(ctx, a, v, "the original of the copies")
    for other in GENS if kind != "sparse" else ():
        ctx.step()
        c11.check(ctx, a.concatenate([build(kind, ids[::-1], other)]), v + value(kind, ids[::-1], other), "concatenate")
        c11.check(ctx, a.concatenate([build(kind, ids[::-1], other), a])[::-1], (v + value(kind, ids[::-1], other) + v)[::-1], "concatenate three, reversed")
    if kind not in ("uni", "sparse"):
        c11.check(ctx, a.boolmask(), [KINDS[kind].value(i) is None for i in ids], "boolmask")
    if n:
        expect(list(numpy.array(a)) if n else [], v, "as a Numpy array of objects")
    g = gen[0]
    made = lambda xs: [g(x, *gen[1], **gen[2]) for x in xs]
    with numpy.errstate(all="ignore"):
        if kind in c04.NUMERIC or kind in ("jag", "jagc"):
            x = [KINDS[kind].value(i) for i in ids]
            content = KINDS[kind].build(ids)
            c11.check(ctx, a + 1, made(c04.apply(operator.add, x, 1)), "+ 1")
            c11.check(ctx, 2 * a, made(c04.apply(operator.mul, 2, x)), "2 *")
            c11.check(ctx, a + a, made(c04.apply(operator.add, x, x)), "a + a")
            c11.check(ctx, (a + a)[::-1], made(c04.apply(operator.add, x, x))[::-1], "a + a, reversed")
            if kind not in ("tab", "tabview"):
                c11.check(ctx, a == a, c04.apply(operator.eq, x, x), "==")
                c11.check(ctx, a < 101, c04.apply(operator.lt, x, 101), "<")
            if kind not in ("bool",):
                got = numpy.divmod(a, 7)
                expect(isinstance(got, tuple) and len(got), 2, "divmod")
                c11.check(ctx, got[0], made(c04.apply(numpy.floor_divide, x, 7)), "divmod, quotient")
                c11.check(ctx, got[1], made(c04.apply(numpy.remainder, x, 7)), "divmod, remainder")
    if kind in ("tab", "tabview"):
        for name in ("x", "y"):
            c11.check(ctx, a[name], [KINDS[kind].value(i)[name] for i in ids], "column")
            c11.check(ctx, a[::-1][name], [KINDS[kind].value(i)[name] for i in ids][::-1], "column of reversed")
    if kind in ("jag", "jagc", "2d"):
        x = [KINDS[kind].value(i) for i in ids]
        c11.check(ctx, a.counts, [len(y) for y in x], "counts")
        c11.check(ctx, a.flatten(), made([z for y in x for z in y]), "flatten")
    if physical(a) != before:
        raise Violation("the array changed", "operand changed")
    lists = ObjectArray(KINDS[kind].build(ids), double, (8,))
    for where in (slice(None), slice(None, None, -1), numpy.arange(n)):
        ctx.step()
        expect(norm(lists[where, 1]), [8] * n, "elements of the objects")
        expect(norm(lists[where, ::2]), [[7, 9]] * n, "parts of the objects")
    for i in range(n):
        expect(norm(lists[i, 1]), 8, "element of an object")
        expect(norm(lists[i, 1:]), [8, 9], "part of an object")
    for bad in (3, None, "x"):
        expect_error(lambda: ObjectArray(KINDS[kind].build(ids), bad), "a generator that cannot be called")
    expect_error(lambda: ObjectArray(KINDS[kind].build(ids), Made, (), 5), "keyword arguments that are no dict")
    kw = {"flag": 1}
    c = ObjectArray(KINDS[kind].build(ids), Made, (), kw)
    kw["flag"] = 2
    c11.check(ctx, c, [Made(KINDS[kind].value(i), flag=1) for i in ids], "the dict given is copied")


# ---------------------------------------------------------------- containers
def jag_counts(n):
    return [n - n // 2, 0, n // 2]


def nested(flat, counts):
    out, at = [], 0
    for c in counts:
        out.append(list(flat[at:at + c]))
        at += c
    return out


def hold(name, make, n, cls=lambda c: c):
    """(array, model function) of a container around elements made by make(ids); cls mixes methods in"""
    ids = list(range(n))
    if name == "plain":
        return make(ids), lambda v: list(v)
    if name == "jagged":
        return cls(JaggedArray).fromcounts(jag_counts(n), make(ids)), lambda v: nested(v, jag_counts(n))
    if name == "jagged gaps":
        starts, stops, stored = forms.jagged_parts(forms.ids_of(jag_counts(n)), "gaps")
        return cls(JaggedArray)(starts, stops, make(stored)), lambda v: nested(v, jag_counts(n))
    if name == "jagged reversed":
        starts, stops, stored = forms.jagged_parts(forms.ids_of(jag_counts(n)), "reversed")
        return cls(JaggedArray)(starts, stops, make(stored)), lambda v: nested(v, jag_counts(n))
    mask = [i % 3 == 1 for i in ids]
    masked = lambda v: [None if m else x for x, m in zip(v, mask)]
    if name == "masked":
        return cls(MaskedArray)(numpy.array(mask, dtype=bool), make(ids)), masked
    if name == "bitmasked":
        return cls(BitMaskedArray).fromboolmask(numpy.array(mask, dtype=bool), make(ids)), masked
    if name == "indexedmasked":
        return cls(IndexedMaskedArray)(numpy.array([-1 if m else n - i for i, m in enumerate(mask)], dtype=int), make([-1] + ids[::-1])), masked
    if name == "indexed":
        return cls(IndexedArray)(numpy.arange(n, 0, -1), make([-1] + ids[::-1])), lambda v: list(v)
    if name == "sparse":
        return cls(SparseArray)(n, numpy.arange(n), make(ids)), lambda v: list(v)
    if name == "chunked":
        return cls(ChunkedArray)([make(ids[:1]), make([]), make(ids[1:])]), lambda v: list(v)
    if name == "virtual":
        return cls(VirtualArray)(lambda: make(ids)), lambda v: list(v)
    if name == "union":
        return cls(UnionArray)(numpy.array([i % 2 for i in ids], dtype=numpy.uint8), numpy.array([i // 2 for i in ids], dtype=int), [make(ids[::2]), make(ids[1::2])]), lambda v: list(v)
    raise ValueError(name)


HOLDERS = ["plain", "jagged", "jagged gaps", "jagged reversed", "masked", "bitmasked", "indexedmasked", "indexed", "sparse", "chunked", "virtual", "union"]


def holder_case(name, kind, n, gen, ctx):
    """containers of objects"""
    make = lambda ids: build(kind, ids, gen)
    a, f = hold(name, make, n)
    v = f(value(kind, range(n), gen))
    ctx.outcome(expect(observe(a), v, name))
    c11.selections(a, v, "obj", ctx)
    m = len(v)
    if name.startswith("jagged"):
        c11.check(ctx, a.flatten(), [y for x in v for y in x], "flatten")
        c11.check(ctx, a.pad(2), [x + [None] * (2 - len(x)) for x in v], "pad")
        c11.check(ctx, a.pairs().i1, [[y for _, y in itertools.combinations_with_replacement(x, 2)] for x in v], "second of pairs")
        c11.check(ctx, a.distincts(), [list(itertools.combinations(x, 2)) for x in v], "distincts")
        c11.check(ctx, a.cross(a), [list(itertools.product(x, x)) for x in v], "cross")
        c11.check(ctx, a.choose(2), [list(itertools.combinations(x, 2)) for x in v], "choose")
        if kind != "sparse":
            c11.check(ctx, a.concatenate([a]), v + v, "concatenate")
        for bits in itertools.product([False, True], repeat=n) if n < 4 else ([i % 2 == 0 for i in range(n)],):
            jm = nested(bits, jag_counts(n))
            mask = JaggedArray.fromcounts(jag_counts(n), numpy.array(bits, dtype=bool))
            c11.check(ctx, a[mask], [[y for y, k in zip(x, b) if k] for x, b in zip(v, jm)], "jagged mask")
        for t in c11.tuples(m, "jag"):
            c11.one(a, v, t, ctx)
    elif name not in ("sparse", "bitmasked") and kind != "sparse":
        c11.check(ctx, a.concatenate([a]), v + v, "concatenate")
    t = Table(o=a, i=numpy.arange(m))
    c11.check(ctx, t, [{"o": x, "i": i} for i, x in enumerate(v)], "table")
    c11.check(ctx, t[::-1]["o"], v[::-1], "column of a view")
    if n:
        expect(norm(t[m - 1]["o"]), v[-1], "field of a row")


# ---------------------------------------------------------------- methods
class Vec(object):
    def __init__(self, x, y):
        self.x, self.y = int(x), float(y)

    def __eq__(self, other):
        return type(other) is Vec and (self.x, self.y) == (other.x, other.y)

    def __ne__(self, other):
        return not self == other

    def __hash__(self):
        return hash((self.x, self.y))

    def __repr__(self):
        return "Vec(%d, %r)" % (self.x, self.y)


class VecMethods(Methods):
    @property
    def first(self):
        return self["x"]

    def weight(self, k=3):
        return self["x"] * k + self["y"]


class ColumnMethods(Methods):
    def thrice(self):
        return self * 3


class VecArray(VecMethods, ObjectArray):
    def __init__(self, x, y):
        ObjectArray.__init__(self, Table(x=x, y=y), lambda row: Vec(row["x"], row["y"]))


VecTable = Methods.mixin(VecMethods, Table)
ColumnArray = Methods.mixin(ColumnMethods, MaskedArray)


def mixed(c):
    return Methods.mixin(VecMethods, c)


def xs(ids):
    return numpy.array([100 + i if i >= 0 else -999 for i in ids], dtype=int)


def ys(ids):
    return numpy.array([i + 0.5 if i >= 0 else -999 for i in ids], dtype=float)


def vec_objects(ids):
    return VecArray(xs(ids), ys(ids))


def vec_table(ids):
    return VecTable(x=xs(ids), y=ys(ids))


def vec_view(ids):
    rev = [-1] + list(ids)[::-1]
    return VecTable(x=xs(rev), y=ys(rev))[:0:-1]


def vec_columns(ids):
    """a column has methods of its own"""
    return VecTable(x=ColumnArray(numpy.zeros(len(ids), dtype=bool), xs(ids)), y=ys(ids))


MAKERS = {"objects": (vec_objects, Vec), "table": (vec_table, dict), "view": (vec_view, dict), "columns": (vec_columns, dict)}


def record(i, kind):
    return Vec(100 + i, i + 0.5) if kind is Vec else {"x": 100 + i, "y": i + 0.5}


def each(f, v):
    """f applied to the records of v"""
    if isinstance(v, list):
        return [each(f, x) for x in v]
    if isinstance(v, tuple):
        return tuple(each(f, x) for x in v)
    return None if v is None else f(v)


def get(r, name):
    return getattr(r, name) if isinstance(r, Vec) else r[name]


def alive(a, v, ctx, what, columns=False):
    """a has the methods, and they act on v"""
    ctx.step(3)
    ctx.outcome(expect(observe(a, deep=False), v, what))
    if not isinstance(a, VecMethods):
        raise Violation("%s: a %s has lost its methods" % (what, type(a).__name__))
    expect(norm(a.first), each(lambda r: get(r, "x"), v), what + ": property")
    expect(norm(a.weight()), each(lambda r: get(r, "x") * 3 + get(r, "y"), v), what + ": method")
    expect(norm(a.weight(k=2)), each(lambda r: get(r, "x") * 2 + get(r, "y"), v), what + ": method with an argument")
    if isinstance(a["y"], VecMethods):
        raise Violation("%s: a column has the methods of the records" % what)
    if columns:
        if not isinstance(a["x"], ColumnMethods):
            raise Violation("%s: the column has lost its methods" % what)
        expect(norm(a["x"].thrice()), each(lambda r: 3 * get(r, "x"), v), what + ": method of the column")


def chain_of(n):
    return [("slice", None, None, -1), ("slice", 1, None, None), ("mask", [i % 2 == 0 for i in range(n)]), ("take", list(range(n))[::-1]), ("take", [n - 1, 0] if n else []), ("slice", None, None, 2), ("mask", [False] * n)]


def methods_case(maker, name, n, how, ctx):
    make, kind = MAKERS[maker]
    a, f = hold(name, make, n, mixed)
    v = f([record(i, kind) for i in range(n)])
    columns = maker == "columns" and name not in ("virtual", "union")
    m = len(v)
    before = physical(a)
    ctx.state(before)
    alive(a, v, ctx, name, columns)
    if how == "select":
        wheres = c11.fewer(m) if n < 3 else [w for w in c11.fewer(m) if w[0] != "slice"] + c11.fewer(m)[::7]
        for where in wheres:
            if where[0] == "int":
                continue
            try:
                want = model.select(v, where)
            except model.ModelError:
                continue
            alive(a[model.real(where)], want, ctx, str(where), columns)
        for depth in (2, 3):
            for path in itertools.product(range(7), repeat=depth):
                if depth == 3 and len(set(path)) < 3:
                    continue
                b, w, what = a, v, ""
                for p in path:
                    where = chain_of(len(w))[p]
                    b, w, what = b[model.real(where)], model.select(w, where), what + " " + str(where)
                if depth == 2 or len(w) > 1:
                    alive(b, w, ctx, what, columns)
        if name.startswith("jagged"):
            for i in range(m):
                alive(a[i], v[i], ctx, "list %d" % i, columns)
                alive(a[i][::-1], v[i][::-1], ctx, "list %d, reversed" % i, columns)
            for bits in itertools.product([False, True], repeat=n) if n < 5 else ([i % 2 == 0 for i in range(n)],):
                mask = JaggedArray.fromcounts(jag_counts(n), numpy.array(bits, dtype=bool))
                w = [[y for y, k in zip(x, b) if k] for x, b in zip(v, nested(bits, jag_counts(n)))]
                alive(a[mask], w, ctx, "jagged mask", columns)
                alive(a[mask][::-1], w[::-1], ctx, "jagged mask, reversed", columns)
            alive(a[a["x"] > 100], [[r for r in x if get(r, "x") > 100] for x in v], ctx, "cut", columns)
            alive(a[a.weight() < 304], [[r for r in x if get(r, "x") * 3 + get(r, "y") < 304] for x in v], ctx, "cut on a method", columns)
            alive(a[a["x"].argmax()], [x[-1:] for x in v], ctx, "argmax", columns)
            alive(a[:, ::-1], [x[::-1] for x in v], ctx, "lists reversed", columns)
            alive(a[:, :1], [x[:1] for x in v], ctx, "first of the lists", columns)
            alive(a[a.counts > 0][:, 0], [x[0] for x in v if x], ctx, "firsts", columns)
            alive(a[a.counts > 0, 0], [x[0] for x in v if x], ctx, "firsts, at once", columns)
    else:
        for what, got in (("copy", a.copy()), ("deepcopy", a.deepcopy())):
            alive(got, v, ctx, what, columns)
        if name not in ("sparse", "bitmasked", "union"):
            try:
                got = a.concatenate([a]), a.concatenate([a[::-1]])
            except NotImplementedError:
                pass
            else:
                c11.check(ctx, got[0], v + v, "concatenate")
                c11.check(ctx, got[1], v + v[::-1], "concatenate with reversed")
                if name == "plain" or name.startswith("jagged") or name in ("masked", "indexedmasked"):
                    alive(got[0], v + v, ctx, "concatenate", False)
        if name.startswith("jagged"):
            alive(a.flatten(), [y for x in v for y in x], ctx, "flatten", columns)
            alive(a.flatten()[::-1], [y for x in v for y in x][::-1], ctx, "flatten, reversed", columns)
            if maker in ("table", "view"):
                c11.check(ctx, awkward0.concatenate([a, a], axis=1), [x + x for x in v], "concatenate, axis=1")
            alive(a.compact(), v, ctx, "compact", columns)
            p = a.pairs()
            alive(p.i0, [[y for y, _ in itertools.combinations_with_replacement(x, 2)] for x in v], ctx, "first of pairs", columns)
            alive(p.i1[::-1], [[y for _, y in itertools.combinations_with_replacement(x, 2)] for x in v][::-1], ctx, "second of pairs, reversed", columns)
            alive(a.cross(a).i1, [[y for _ in x for y in x] for x in v], ctx, "second of cross", columns)
            nest = a.cross(a, nested=True)
            alive(nest.i1, [[[y for y in x] for _ in x] for x in v], ctx, "second of nested cross", columns)
            alive(a.distincts()[::-1].i0, [[y for y, _ in itertools.combinations(x, 2)] for x in v][::-1], ctx, "first of distincts, reversed", columns)
            alive(a.pad(2), [x + [None] * (2 - len(x)) for x in v], ctx, "pad", False) if False else None
            # records cut on pairs
            cut = p.i0["x"] < p.i1["x"]
            alive(p[cut].i1, [[z for y, z in itertools.combinations(x, 2)] for x in v], ctx, "second of cut pairs", columns)
        plus = lambda r, k: Vec(r.x + k, r.y + k) if isinstance(r, Vec) else {"x": r["x"] + k, "y": r["y"] + k}
        if n and name != "union" and not (name == "sparse" and kind is Vec):
            alive(a + 1, each(lambda r: plus(r, 1), v), ctx, "+ 1", False)
            alive((1 + a)[::-1], each(lambda r: plus(r, 1), v)[::-1], ctx, "1 +, reversed", False)
            alive(a[::-1] + 1, each(lambda r: plus(r, 1), v)[::-1], ctx, "reversed + 1", False)
            twice = lambda r: Vec(2 * r.x, 2 * r.y) if isinstance(r, Vec) else {"x": 2 * r["x"], "y": 2 * r["y"]}
            alive(a + a, each(twice, v), ctx, "a + a", False)
            if name.startswith("jagged"):
                per = [10, 20, 30]
                alive(a + numpy.array(per), [[plus(r, k) for r in x] for x, k in zip(v, per)], ctx, "+ one per list", False)
        if name not in ("virtual", "union", "chunked"):
            b = a.copy(content=a.content.copy()) if name != "plain" else a.copy()
            if maker in ("table", "columns") and name == "plain":
                b["z"] = numpy.arange(n)
                alive(b, [dict(r, z=i) for i, r in enumerate(v)], ctx, "with a new column", columns)
                alive(b[["y", "x"]], v, ctx, "columns", columns)
        zero = lambda r: Vec(0, 0.0) if isinstance(r, Vec) else {"x": 0, "y": 0.0}
        one = lambda r: Vec(1, 1.0) if isinstance(r, Vec) else {"x": 1, "y": 1.0}
        if name not in ("virtual", "sparse") and n:
            alive(a.zeros_like(), each(zero, v), ctx, "zeros_like", False)
            alive(a.ones_like(), each(one, v), ctx, "ones_like", False)
        outer = JaggedArray.fromcounts([1] * m, a)
        expect(norm(outer[::-1].flatten().first), each(lambda r: get(r, "x"), v)[::-1], "inside lists")
        for i in range(m):
            alive(outer[i], [v[i]], ctx, "inside lists, list %d" % i, columns)
    if physical(a) != before:
        raise Violation("the array changed", "operand changed")


def double_case(maker, outer, inner, n, ctx):
    """two containers around the records"""
    make, kind = MAKERS[maker]
    b, f = hold(inner, make, n, mixed)
    w = f([record(i, kind) for i in range(n)])
    m = len(w)
    place = lambda ids: b[numpy.array([i if i >= 0 else 0 for i in ids], dtype=int)] if m else b
    if outer == "sparse" and (inner in ("union", "chunked", "sparse") or kind is Vec):
        return    # cannot be made dense, which operators need
    if m == 0 and outer in ("jagged gaps", "indexed", "indexedmasked"):
        return
    a, g = hold(outer, place, m, mixed)
    v = g(w)
    ctx.state(physical(a))
    alive(a, v, ctx, outer + " of " + inner)
    k = len(v)
    for where in chain_of(k):
        alive(a[model.real(where)], model.select(v, where), ctx, str(where))
    if k and outer not in ("union",) and inner != "union":
        plus = lambda r: Vec(r.x + 1, r.y + 1) if isinstance(r, Vec) else {"x": r["x"] + 1, "y": r["y"] + 1}
        alive(a + 1, each(plus, v), ctx, "+ 1")


def with_args(x, *args, **kwargs):
    return ("made", norm(x), args, tuple(sorted(kwargs.items())))


def args_case(n, args, kwargs, content, ctx):
    """further arguments of the generator are kept by everything that makes objects of the same class"""
    make = {"numbers": lambda ids: numpy.array(ids, dtype=int), "lists": lambda ids: JaggedArray.fromcounts([2] * len(ids), numpy.repeat(numpy.array(ids, dtype=int), 2)), "table": lambda ids: Table(x=numpy.array(ids, dtype=int))}[content]
    el = {"numbers": lambda i: i, "lists": lambda i: [i, i], "table": lambda i: {"x": i}}[content]
    kw = dict(kwargs)
    a = ObjectArray(make(list(range(5, 5 + n))), with_args, tuple(args), kw)
    obj = lambda i: with_args(el(i), *args, **dict(kwargs))
    v = list(range(5, 5 + n))

    def same(x, ids, what):
        ctx.step()
        got = [tuple(y) if isinstance(y, tuple) else y for y in x]
        want = [obj(i) for i in ids]
        if got != want or [x[i] for i in range(len(x))] != want or x.tolist() != want:
            raise Violation("%s: %s, expected %s" % (what, got, want), what)
    same(a, v, "array")
    for where in chain_of(n):
        got = a[model.real(where)]
        if isinstance(got, ObjectArray):
            same(got, model.select(v, where), "selection %s" % (where,))
    same(a.copy(), v, "copy")
    same(a.deepcopy(), v, "deepcopy")
    same(a.concatenate([a[::-1]]), v + v[::-1], "concatenate")
    same(a.copy(content=make(v[::-1])), v[::-1], "copy with another content")
    if content != "lists" or True:
        same(a.zeros_like(), [0] * n, "zeros_like")
        same(a.ones_like(), [1] * n, "ones_like")
    e = a.empty_like()
    if (e._generator, e._args, e._kwargs) != (a._generator, a._args, a._kwargs) or len(e) not in (0, n):
        raise Violation("empty_like: %s %s" % (e._args, e._kwargs), "empty_like")
    for what, o in (("zeros_like", a.zeros_like(generator=with_args, args=("new",))), ("ones_like", a.ones_like(args=("new",)))):
        ctx.step()
        want = [with_args(el({"zeros_like": 0, "ones_like": 1}[what]), "new", **dict(kwargs))] * n
        if list(o) != want:
            raise Violation("%s with other arguments: %s, expected %s" % (what, list(o), want), what)
    inner = JaggedArray.fromcounts([n, 0], a)
    same(inner.flatten(), v, "flatten")
    same(inner[0], v, "list of objects")
    same(MaskedArray([False] * n, a)[:], v, "masked") if n else None
    ctx.outcome(text([n, args, kwargs, content]))


def mixin_case(ctx):
    """the classes that mixin and maybemixin make"""
    for base in (JaggedArray, MaskedArray, IndexedArray, ChunkedArray, Table, ObjectArray, UnionArray, SparseArray, BitMaskedArray, IndexedMaskedArray, VirtualArray):
        ctx.step()
        c = Methods.mixin(VecMethods, base)
        if not (issubclass(c, VecMethods) and issubclass(c, base)) or c.__mro__.index(VecMethods) > c.__mro__.index(base):
            raise Violation("mixin of %s" % base.__name__)
        for other in (JaggedArray, MaskedArray, Table, ChunkedArray):
            d = Methods.maybemixin(c, other)
            if not (issubclass(d, VecMethods) and issubclass(d, other)) or other is not base and issubclass(d, base) and not issubclass(other, base):
                raise Violation("maybemixin of %s to %s" % (base.__name__, other.__name__))
            if Methods.maybemixin(base, other) is not other:
                raise Violation("maybemixin without methods")
    d = Methods.maybemixin(VecArray, JaggedArray)
    if not (issubclass(d, VecMethods) and issubclass(d, JaggedArray)):
        raise Violation("maybemixin of VecArray")


def units(tier):
    q = tier == "quick"
    yield ["mixin"]
    for n in range(4 if q else 6):
        yield ["args", n]
    for kind in CONTENTS:
        for g in range(len(GENS)):
            for n in range(5 if q else 7):
                yield ["object", kind, n, g]
        for name in HOLDERS[1:]:
            for n in (0, 1, 2, 4) if q else range(7):
                yield ["holder", kind, name, n, n % 3]
    for maker in MAKERS:
        for name in HOLDERS:
            for n in (0, 1, 3, 4) if q else range(7):
                yield ["methods", maker, name, n, "select"]
                yield ["methods", maker, name, n, "other"]
            for inner in HOLDERS[1:]:
                for n in (2, 4) if q else range(1, 7):
                    yield ["double", maker, name, inner, n]


def unit_of(case):
    return case[0]


def run_unit(unit, ctx):
    op = unit[0]
    if op == "object":
        ctx.case([unit], object_case, unit[1], unit[2], GENS[unit[3]], ctx)
    elif op == "holder":
        ctx.case([unit], holder_case, unit[2], unit[1], unit[3], GENS[unit[4]], ctx)
    elif op == "methods":
        ctx.case([unit], methods_case, unit[1], unit[2], unit[3], unit[4], ctx)
    elif op == "double":
        ctx.case([unit], double_case, unit[1], unit[2], unit[3], unit[4], ctx)
    elif op == "args":
        for content in ("numbers", "lists", "table"):
            for args in ((), (7,), (7, "x")):
                for kwargs in ((), (("k", 1),), (("k", 1), ("l", None))):
                    ctx.case([unit, content, list(args), [list(x) for x in kwargs]], args_case, unit[1], args, kwargs, content, ctx)
    elif op == "mixin":
        ctx.case([unit], mixin_case, ctx)
