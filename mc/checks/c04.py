"""C04: universal functions of jagged arrays."""
import itertools
import operator

import numpy

from awkward0 import JaggedArray, Table

from .. import forms
from ..core import Violation
from ..obs import expect, expect_error, norm, observe, physical, text

ID = "C04"
RULE = "every (row-count vector, layout, content kind) x every operator class x every operand (scalar, one value per row, nested list, jagged array in every layout, in both orders); an outcome is non-trivial when its canonical value is distinct"
ASSUMPTIONS = ["the reference applies the same Numpy function to Numpy scalars, element by element",
               "a content with a regular second dimension is combined with scalars and with itself only: how Numpy's trailing-dimension rule and row broadcasting combine is not specified"]
BOUNDS = {"quick": "rows<=3, row lengths<=2 and selected vectors; 11 layouts; 19 content kinds; all layout pairs",
          "thorough": "rows<=4, row lengths<=3; 11 layouts; 19 content kinds; all layout pairs and kind pairs"}


class Mismatch(Exception):
    pass


def scalar(x):
    if isinstance(x, bool):
        return numpy.bool_(x)
    if isinstance(x, int):
        return numpy.int64(x)
    if isinstance(x, float):
        return numpy.float64(x)
    return x


def apply(f, *args):
    """Element-wise reference with row broadcasting."""
    if any(a is None for a in args):
        return None
    lists = [a for a in args if isinstance(a, list)]
    if lists:
        n = len(lists[0])
        if any(len(a) != n for a in lists):
            raise Mismatch
        return [apply(f, *[a[i] if isinstance(a, list) else a for a in args]) for i in range(n)]
    dicts = [a for a in args if isinstance(a, dict)]
    if dicts:
        if any(set(a) != set(dicts[0]) for a in dicts):
            raise Mismatch
        out = dict((k, apply(f, *[a[k] if isinstance(a, dict) else a for a in args])) for k in dicts[0])
        if f in EVERY:
            return all(out.values())
        if f in SOME:
            return any(out.values())
        return out
    return norm(f(*[scalar(a) for a in args]))


# a comparison of tables compares whole records
EVERY = (numpy.less, numpy.less_equal, numpy.greater, numpy.greater_equal, numpy.equal, operator.eq, operator.lt, operator.le, operator.gt, operator.ge)
SOME = (numpy.not_equal, operator.ne)


def spread(row, value):
    """a missing row value makes every element of the row missing"""
    return [blank(v) if x is None else x for x, v in zip(row, value)]


def blank(v):
    return [blank(x) for x in v] if isinstance(v, list) else None


def part(v, i):
    if isinstance(v, list):
        return [part(x, i) for x in v]
    if isinstance(v, dict):
        return dict((k, part(x, i)) for k, x in v.items())
    return v[i] if v is not None else None


def tuples(f, *args):
    """apply for a function with several results, which stay together as a tuple"""
    if any(a is None for a in args):
        return None
    lists = [a for a in args if isinstance(a, list)]
    if lists:
        n = len(lists[0])
        if any(len(a) != n for a in lists):
            raise Mismatch
        return [tuples(f, *[a[i] if isinstance(a, list) else a for a in args]) for i in range(n)]
    dicts = [a for a in args if isinstance(a, dict)]
    if dicts:
        return dict((k, tuples(f, *[a[k] if isinstance(a, dict) else a for a in args])) for k in dicts[0])
    return tuple(norm(x) for x in f(*[scalar(a) for a in args]))


UNARY = {"negative": numpy.negative, "absolute": numpy.absolute, "sqrt": numpy.sqrt, "isnan": numpy.isnan, "square": numpy.square, "op-neg": operator.neg, "op-abs": operator.abs, "op-pos": operator.pos}
BINARY = {"add": numpy.add, "subtract": numpy.subtract, "multiply": numpy.multiply, "true_divide": numpy.true_divide, "floor_divide": numpy.floor_divide, "remainder": numpy.remainder,
          "less": numpy.less, "equal": numpy.equal, "maximum": numpy.maximum, "arctan2": numpy.arctan2}
OPS = {"+": operator.add, "-": operator.sub, "*": operator.mul, "/": operator.truediv, "//": operator.floordiv, "%": operator.mod, "**": operator.pow,
       "==": operator.eq, "!=": operator.ne, "<": operator.lt, "<=": operator.le, ">": operator.gt, ">=": operator.ge}
LOGIC = {"&": operator.and_, "|": operator.or_, "^": operator.xor, "logical_and": numpy.logical_and, "logical_or": numpy.logical_or}
MULTI1 = {"modf": numpy.modf, "frexp": numpy.frexp}
MULTI2 = {"divmod": numpy.divmod, "op-divmod": divmod}

NUMERIC = ("i8", "f8", "i4strided", "jag", "jagc", "tab", "tabview", "mask", "maskF", "imask", "bmask", "bmaskMF", "idx", "sparse", "chk", "uni", "vrt", "vrtcache")
SIMPLE = ("add", "subtract", "less", "-", "<=", "/")
VECS = [[], [0], [2], [0, 0], [1, 2], [2, 2], [2, 0, 1], [0, 1, 0], [3, 1, 2]]
FEWLAYOUTS = ("offsets", "offjunk", "gaps", "reversed", "longstops", "emptyfar")


def units(tier):
    vecs = VECS if tier == "quick" else list(forms.count_vectors(3, 3)) + [v for v in forms.count_vectors(4, 2) if len(v) == 4]
    for v in vecs:
        for layout in forms.LAYOUTS:
            for kind in NUMERIC + ("bool", "2d"):
                if kind in ("i8", "jag", "mask") or layout in FEWLAYOUTS or (tier != "quick" and len(v) < 4):
                    yield ["one", v, layout, kind]
    if tier == "quick":
        for v in forms.count_vectors(3, 2):
            if v not in VECS:
                for layout in forms.LAYOUTS:
                    yield ["one", v, layout, "i8"]
    for layout in forms.LAYOUTS:
        for layout2 in forms.LAYOUTS:
            yield ["two", layout, layout2, tier]


def unit_of(case):
    return case[0]


def run(ctx, f, reals, models, what, multi=False):
    ctx.step()
    try:
        want = (tuples if multi else apply)(f, *models)
    except Mismatch:
        expect_error(lambda: f(*reals), what)
        return
    got = f(*reals)
    if multi:
        if not isinstance(got, tuple):
            raise Violation("%s does not give a tuple" % what)
        for i, g in enumerate(got):
            ctx.outcome(expect(observe(g), part(want, i), "%s output %d" % (what, i)))
    else:
        ctx.outcome(expect(observe(got), want, what))
        if len(ctx.states) < 100000:
            ctx.state(physical(got))


def one(v, layout, kind, group, ctx):
    a = forms.jagged(v, layout, kind)
    value = forms.jagged_value(v, kind)
    before = physical(a)
    n = len(v)
    if kind == "bool":
        run(ctx, operator.invert, [a], [value], "~a")
        run(ctx, numpy.logical_not, [a], [value], "logical_not")
        for name, f in LOGIC.items():
            run(ctx, f, [a, True], [value, True], "a %s True" % name)
            run(ctx, f, [False, a], [value, False][::-1], "False %s a" % name)
            row = [i % 2 == 0 for i in range(n)]
            run(ctx, f, [a, numpy.array(row, dtype=bool)], [value, row], "a %s row" % name)
            run(ctx, f, [numpy.array(row, dtype=bool), a], [row, value], "row %s a" % name)
            run(ctx, f, [a, a], [value, value], "a %s a" % name)
    elif group == "unary":
        for name, f in UNARY.items():
            run(ctx, f, [a], [value], name)
        if kind not in ("bmask", "bmaskMF", "uni"):
            for name, f in MULTI1.items():
                run(ctx, f, [a], [value], name, True)
    elif group == "scalar":
        for name, f in itertools.chain(BINARY.items(), OPS.items()):
            for s in (2, 2.5, numpy.float64(3), numpy.int64(3)):
                if name == "**" and s != 2:
                    continue
                run(ctx, f, [a, s], [value, norm(s)], "a %s %r" % (name, s))
                if name != "**":
                    run(ctx, f, [s, a], [norm(s), value], "%r %s a" % (s, name))
        for name, f in MULTI2.items():
            if kind in ("bmask", "bmaskMF", "uni"):
                continue
            run(ctx, f, [a, 3], [value, 3], name, True)
            run(ctx, f, [300, a], [300, value], name, True)
    elif group == "row":
        for name, f in itertools.chain(BINARY.items(), OPS.items()):
            if name == "**":
                continue
            row = [i + 1 for i in range(n)]
            run(ctx, f, [a, numpy.array(row)], [value, row], "a %s one value per row" % name)
            run(ctx, f, [numpy.array(row), a], [row, value], "one value per row %s a" % name)
            if name in SIMPLE:
                for bad in (row + [7], row[:-1]):
                    if len(bad) != n:
                        run(ctx, f, [a, numpy.array(bad, dtype=int)], [value, bad], "a %s %d values for %d rows" % (name, len(bad), n))
                rowf = [i + 0.5 for i in range(n)]
                if n:
                    run(ctx, f, [a, rowf], [value, rowf], "a %s list" % name)
                for k in ("mask", "imask", "idx", "chk", "vrt", "sparse"):
                    if kind in ("i8", "f8", "jag"):
                        x = forms.KINDS[k].build(list(range(n)))
                        xv = [forms.KINDS[k].value(i) for i in range(n)]
                        run(ctx, f, [a, x], [value, spread(xv, value)], "a %s %s per row" % (name, k))
                        run(ctx, f, [x, a], [xv, value], "%s per row %s a" % (k, name))
        if kind == "i8" and n:
            nested = [[10 * i + k for k in range(c)] for i, c in enumerate(v)]
            for name in SIMPLE:
                f = BINARY.get(name) or OPS[name]
                run(ctx, f, [a, nested], [value, nested], "a %s nested list" % name) if any(v) else None
                bad = [r + [1] for r in nested]
                run(ctx, f, [a, bad], [value, bad], "a %s nested list of other lengths" % name)
    elif group == "self":
        for name, f in itertools.chain(BINARY.items(), OPS.items()):
            if name != "**":
                run(ctx, f, [a, a], [value, value], "a %s a" % name)
    elif group == "chain":
        x, xv = a, value
        for name, f, s in (("*", operator.mul, 2), ("-", operator.sub, 1), ("//", operator.floordiv, 3)):
            xv = apply(f, xv, s)
            x = f(x, s)
            expect(observe(x), xv, "after %s %d" % (name, s))
            ctx.step()
        for where in (slice(None, None, -1), slice(1, None), numpy.arange(n)[::-1]):
            y = a[where]
            yv = [value[i] for i in range(n)[where]] if isinstance(where, slice) else value[::-1]
            run(ctx, operator.add, [y, y], [yv, yv], "selected + selected")
            run(ctx, operator.sub, [y, numpy.arange(len(yv))], [yv, list(range(len(yv)))], "selected - one value per row") if kind != "2d" else None
            if len(set(v)) <= 1 and kind in ("i8", "tab", "mask") and len(yv) == n:
                run(ctx, operator.sub, [y, a], [yv, value], "selected - original")
    if physical(a) != before:
        raise Violation("an operator changed its operand:\n%s\n%s" % (before, physical(a)), "operand changed")


SAMES = [[], [0], [2], [0, 0], [1, 2], [2, 0, 1], [0, 1, 0], [3, 1]]
KPAIRS = [("i8", "i8"), ("i8", "f8"), ("jag", "jag"), ("jag", "i8"), ("i8", "jagc"), ("tab", "tab"), ("tab", "i8"), ("i8", "tabview"), ("mask", "i8"), ("i8", "imask"), ("maskF", "bmask"), ("idx", "i8"), ("chk", "i8"), ("i8", "vrt"), ("mask", "imask"), ("jag", "jagc"), ("sparse", "i8"), ("uni", "i8"), ("i8", "uni")]


def two(arg, layout, layout2, ctx):
    v1, k1, v2, k2 = arg
    a, b = forms.jagged(v1, layout, k1), forms.jagged(v2, layout2, k2)
    x, y = forms.jagged_value(v1, k1), forms.jagged_value(v2, k2)
    before = physical(a), physical(b)
    if v1 != v2:
        for name, f in (("+", operator.add), ("<", operator.lt)):
            run(ctx, f, [a, b], [x, y], "%s of different row lengths" % name)
    else:
        for name in ("add", "subtract", "less", "/", "==", "//"):
            f = BINARY.get(name) or OPS[name]
            run(ctx, f, [a, b], [x, y], name)
            run(ctx, f, [b, a], [y, x], name + " the other way round")
    if (physical(a), physical(b)) != before:
        raise Violation("an operator changed an operand", "operand changed")


def mixed(v, layout, layout2, ctx):
    """nested structures whose inner lists differ"""
    a = forms.jagged(v, layout, "jag")
    x = forms.jagged_value(v, "jag")
    flat = [y for r in x for y in r]
    if not flat:
        return
    bad = [list(y) for y in flat]
    bad[-1] = bad[-1] + [1]
    b = JaggedArray.fromcounts(v, JaggedArray.fromiter(bad))
    run(ctx, operator.add, [a, b], [x, norm(b)], "different inner lengths")
    run(ctx, operator.add, [b, a], [norm(b), x], "different inner lengths")
    # where-like chain of three
    c = forms.jagged(v, layout2, "i8")
    cv = forms.jagged_value(v, "i8")
    run(ctx, lambda p, q: p * 2 + q, [a, c], [x, cv], "a*2+c")
    run(ctx, lambda p, q: q - p, [a, c], [x, cv], "c-a")


def run_unit(unit, ctx):
    if unit[0] == "one":
        _, v, layout, kind = unit
        groups = ["unary", "scalar", "row", "self", "chain"]
        if kind == "bool":
            groups = ["all"]
        elif kind == "2d":
            groups = ["unary", "scalar", "self"] if v else ["unary", "self"]
        for g in groups:
            ctx.case([unit, g], one, v, layout, kind, g, ctx)
        return
    _, l1, l2, tier = unit
    for v1 in SAMES:
        for v2 in SAMES + [[1], [2, 1], [0, 3], [1, 1, 1], [0, 3, 0], []]:
            if v1 == v2:
                for k1, k2 in KPAIRS:
                    ctx.case([unit, [v1, k1, v2, k2]], two, [v1, k1, v2, k2], l1, l2, ctx)
            else:
                for k1, k2 in [("i8", "i8"), ("jag", "i8"), ("tab", "i8")]:
                    ctx.case([unit, [v1, k1, v2, k2]], two, [v1, k1, v2, k2], l1, l2, ctx)
        ctx.case([unit, "mixed", v1], mixed, v1, l1, l2, ctx)
