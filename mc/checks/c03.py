"""C03: structure-changing operations on jagged arrays."""
import itertools

import numpy

from awkward0 import JaggedArray

from .. import forms, model
from ..core import Violation
from ..obs import expect, expect_error, norm, observe, physical, text

ID = "C03"
RULE = "every (row-count vector, layout, content kind) within the bound x every structural operation with every argument of its alphabet; binary operations over every pair of layouts; an outcome is non-trivial when its canonical value is distinct"
ASSUMPTIONS = ["operations a content kind does not define (padding strings by axis 1, zipping objects with different lengths) are not in the alphabet",
               "concatenation with axis=1 is defined for primitive, table and object-table content only; others must raise NotImplementedError"]
BOUNDS = {"quick": "rows<=3, row lengths<=2 and selected longer ones; 11 layouts, 22 content kinds; pairs of layouts for binary operations",
          "thorough": "rows<=4, row lengths<=3; 11 layouts, 22 content kinds; all pairs of layouts for binary operations"}

VECS = [[], [0], [2], [0, 0], [1, 2], [2, 2], [2, 0, 1], [0, 1, 0], [3, 1, 2]]
PRIMITIVE = ("i8", "f8", "bool", "i4strided")
NESTED = ("jag", "jagc", "2d")
DECLINED = ("bmask", "bmaskMF", "sparse")      # their concatenation is documented in the code as not implemented
MASKED = ("mask", "maskF", "imask", "bmask", "bmaskMF")


def units(tier):
    if tier == "quick":
        for v in VECS:
            for layout in forms.LAYOUTS:
                for kind in forms.KINDS:
                    if kind in ("i8", "jag", "mask") or layout not in ("u1", "u8", "strided", "copied", "shared", "bigend"):
                        yield ["one", v, layout, kind]
        for v in forms.count_vectors(3, 2):
            if v not in VECS:
                for layout in forms.LAYOUTS:
                    yield ["one", v, layout, "i8"]
    else:
        for v in itertools.chain(forms.count_vectors(3, 3), (x for x in forms.count_vectors(4, 2) if len(x) == 4)):
            for layout in forms.LAYOUTS:
                for kind in forms.KINDS:
                    if len(v) < 4 or kind in ("i8", "jag", "mask", "tab"):
                        yield ["one", v, layout, kind]
    for layout in forms.LAYOUTS:
        for layout2 in forms.LAYOUTS:
            yield ["two", layout, layout2, tier]


def unit_of(case):
    return case[0]


def inner(kind):
    return forms.KINDS[kind].value


def check(ctx, got, want, what):
    ctx.step()
    ctx.outcome(expect(observe(got), want, what))
    if len(ctx.states) < 200000:
        ctx.state(physical(got))


def one(op, arg, v, layout, kind, ctx):
    a = forms.jagged(v, layout, kind)
    value = forms.jagged_value(v, kind)
    before = physical(a)
    flat = [x for r in value for x in r]
    if op == "flatten":
        if arg == 0:
            check(ctx, a.flatten(), flat, "flatten()")
        elif kind in NESTED:
            check(ctx, a.flatten(axis=1), [[y for x in r for y in x] for r in value], "flatten(axis=1)")
        elif flat:
            expect_error(lambda: a.flatten(axis=1), "flatten(axis=1) of numbers")
    elif op == "pad":
        n, clip, maskedwhen, axis = arg
        mw = numpy.ma.masked if maskedwhen == "ma" else maskedwhen

        def padded(r):
            return (r[:n] if clip else r) + [None] * (n - len(r))
        want = [padded(r) for r in value] if axis == 0 else [[padded(x) for x in r] for r in value]
        got = a.pad(n, maskedwhen=mw, clip=clip, axis=axis)
        check(ctx, got, want, "pad%s" % (tuple(arg),))
        check(ctx, got.flatten(), [x for r in want for x in r], "pad%s then flatten" % (tuple(arg),))
        if axis == 0 and kind in PRIMITIVE and kind != "bool":
            seven = 7.0 if kind == "f8" else 7
            filled = [[seven if x is None or x != x else x for x in r] for r in want]
            check(ctx, got.fillna(7), filled, "pad%s then fillna(7)" % (tuple(arg),))
            check(ctx, got, want, "pad%s after fillna(7) of it" % (tuple(arg),))
            if clip and len(v):
                check(ctx, got.fillna(7).regular(), filled, "pad%s then fillna(7) then regular()" % (tuple(arg),))
    elif op == "fillna":
        got = a.fillna(arg)
        w = float(arg) if kind == "f8" else arg
        check(ctx, got, [[w if x is None or x != x else x for x in r] for r in value], "fillna(%r)" % arg)
        check(ctx, a, value, "the array after fillna")
    elif op == "compact":
        got = a.compact()
        check(ctx, got, value, "compact()")
        if not got.iscompact:
            raise Violation("compact() is not compact")
        if a.iscompact:
            expect([norm(a.content[x:y]) for x, y in zip(norm(a.offsets)[:-1], norm(a.offsets)[1:])], value, "rows between the offsets of a compact array")
        check(ctx, got.compact(), value, "compact() twice")
    elif op == "regular":
        if len(set(v)) <= 1 and (kind != "jag" and kind != "jagc" or len(set(len(x) for x in flat)) <= 1):
            got = a.regular()
            if type(got) is not numpy.ndarray:
                raise Violation("regular() gives a %s" % type(got).__name__, "regular type")
            if len(v):
                check(ctx, got, value, "regular()")
            else:
                check(ctx, got, [], "regular()")
        else:
            ctx.step()
            expect_error(a.regular, "regular() of irregular data")
    elif op == "structure1d":
        check(ctx, a.structure1d(), value, "structure1d()")
    elif op == "deepcopy":
        check(ctx, a.deepcopy(), value, "deepcopy()")
    elif op == "like":
        if arg == "zeros":
            got, w = a.zeros_like(), 0
        elif arg == "ones":
            got, w = a.ones_like(), 1
        else:
            got = a.empty_like()
            expect(norm(got.counts), v, "counts of empty_like()")
            return
        check(ctx, got, [[[w, w] if kind == "2d" else bool(w) if kind == "bool" else float(w) if kind == "f8" else w for x in r] for r in value], arg + "_like()")
    elif op == "select-then":
        where, second = arg
        try:
            sub = model.select(value, where)
        except model.ModelError:
            return
        b = a[model.real(where)]
        if second == "flatten":
            check(ctx, b.flatten(), [x for r in sub for x in r], "%s then flatten()" % (where,))
        elif second == "pad":
            check(ctx, b.pad(2), [r + [None] * (2 - len(r)) for r in sub], "%s then pad(2)" % (where,))
        elif second == "padclip":
            check(ctx, b.pad(1, clip=True), [(r + [None])[:1] for r in sub], "%s then pad(1, clip=True)" % (where,))
        elif second == "concat":
            if kind in DECLINED:
                try:
                    b.concatenate([a])
                except NotImplementedError:
                    ctx.count("declined")
                    return
            check(ctx, b.concatenate([a]), sub + value, "%s then concatenate([original])" % (where,))
            check(ctx, a.concatenate([b, b]), value + sub + sub, "concatenate([selected, selected])")
        elif second == "compact":
            check(ctx, b.compact(), sub, "%s then compact()" % (where,))
        elif second == "zip":
            check(ctx, JaggedArray.zip(x=b, y=b), [[{"x": x, "y": x} for x in r] for r in sub], "%s then zip with itself" % (where,))
    check(ctx, a, value, "the array after %s" % op)
    if physical(a) != before:
        raise Violation("%s changed the parts of its operand:\n%s\n%s" % (op, before, physical(a)), "operand changed")


def ops_one(v, layout, kind, tier):
    yield "flatten", 0
    if kind in PRIMITIVE or kind in NESTED:
        yield "flatten", 1
    top = max(v + [0])
    for n in range(top + 2):
        for clip in (False, True):
            for mw in (True, False) + (("ma",) if kind in PRIMITIVE else ()):
                yield "pad", [n, clip, mw, 0]
                if kind in NESTED and (mw is True or tier != "quick") and (mw != "ma"):
                    yield "pad", [n, clip, mw, 1]
    if kind in ("f8", "i8", "mask", "maskF", "imask", "bmask", "bmaskMF"):
        yield "fillna", 7
    yield "compact", None
    if kind in PRIMITIVE + NESTED:
        yield "regular", None
    if kind in PRIMITIVE + NESTED:
        yield "structure1d", None
    yield "deepcopy", None
    if kind in PRIMITIVE + ("2d",):
        for w in ("zeros", "ones", "empty"):
            yield "like", w
    n = len(v)
    wheres = [("slice", None, None, -1), ("slice", 1, None, None), ("slice", None, None, 2), ("slice", 0, 0, None), ("mask", [i % 2 == 0 for i in range(n)]), ("take", ([n - 1, 0, n - 1] if n else [])),
              ("tuple", [("slice", None, None, None), ("slice", None, None, -1)]), ("tuple", [("slice", None, None, None), ("slice", 1, None, None)])]
    for w in wheres:
        if w[0] == "tuple" and kind == "2d":
            continue
        for second in ("flatten", "pad", "padclip", "concat", "compact", "zip"):
            yield "select-then", [w, second]


PAIRS = [([1, 2], [0, 1]), ([2, 0, 1], [1, 2]), ([], [1, 2]), ([1, 2], []), ([0, 0], [2, 1, 0]), ([0, 2], [0, 1]), ([], []), ([1], [0]), ([0], [0])]
SAMES = [[], [0], [2], [0, 0], [1, 2], [2, 0, 1], [0, 1, 0], [3, 1]]


def two(op, arg, layout, layout2, ctx):
    if op == "concat":
        v1, k1, v2, k2 = arg
        a, b = forms.jagged(v1, layout, k1), forms.jagged(v2, layout2, k2)
        x, y = forms.jagged_value(v1, k1), forms.jagged_value(v2, k2)
        before = physical(a), physical(b)
        if k1 in DECLINED and k2 in DECLINED:
            try:
                a.concatenate([b])
            except NotImplementedError:
                ctx.count("declined")
                return
        if (k1, k2) == ("i8", "f8"):
            x = [[float(e) for e in r] for r in x]
        check(ctx, a.concatenate([b]), x + y, "concatenate")
        check(ctx, JaggedArray.concatenate([b, a, b]), y + x + y, "JaggedArray.concatenate")
        check(ctx, a.concatenate([b])[::-1], (x + y)[::-1], "concatenate then reverse")
        check(ctx, a.concatenate([b]).flatten(), [e for r in x + y for e in r], "concatenate then flatten")
        if arg[0] == [1, 2] and k1 == k2 == "i8":     # more content than a small integer type can count
            big = [JaggedArray(d.starts, d.stops, numpy.concatenate([d.content, numpy.full(250, 5)])) for d in (a, b)]
            check(ctx, JaggedArray.concatenate(big + big), x + y + x + y, "concatenate with much content")
    elif op == "concat1":
        v1, k1, v2, k2 = arg
        a, b = forms.jagged(v1, layout, k1), forms.jagged(v2, layout2, k2)
        x, y = forms.jagged_value(v1, k1), forms.jagged_value(v2, k2)
        before = physical(a), physical(b)
        if len(x) != len(y):
            expect_error(lambda: a.concatenate([b], axis=1), "concatenate axis=1 of different lengths")
        else:
            if k1 != k2 and "f8" in (k1, k2):
                if not any(v1) or not any(v2):
                    ctx.count("untyped")      # without any element of one kind its dtype need not take part
                    return
                x, y = [[float(e) for e in r] for r in x], [[float(e) for e in r] for r in y]
            check(ctx, a.concatenate([b], axis=1), [r + s for r, s in zip(x, y)], "concatenate(axis=1)")
            check(ctx, JaggedArray.concatenate([b, a, b], axis=1), [s + r + s for r, s in zip(x, y)], "three arrays with axis=1")
    elif op == "tojagged":
        v, k1, k2, v2 = arg
        a, b = forms.jagged(v, layout, k1), forms.jagged(v2, layout2, k2)
        x, y = forms.jagged_value(v, k1), forms.jagged_value(v2, k2)
        before = physical(a), physical(b)
        if v != v2:
            expect_error(lambda: a.tojagged(b), "tojagged of different counts")
        else:
            got = a.tojagged(b)
            check(ctx, got, y, "tojagged(jagged)")
            expect(norm(got.starts), norm(a.starts), "starts after tojagged")
            check(ctx, a._tojagged(b.starts, b.stops), x, "fit into the other's starts and stops")
            row = numpy.arange(len(v)) * 10
            check(ctx, a.tojagged(row), [[10 * i] * len(r) for i, r in enumerate(x)], "tojagged(flat)")
            check(ctx, a.tojagged(5), [[5] * len(r) for i, r in enumerate(x)], "tojagged(scalar)")
            check(ctx, a.tojagged([10 * i for i in range(len(v))]), [[10 * i] * len(r) for i, r in enumerate(x)], "tojagged(list)") if len(v) else None
            for kind in ("jagc", "tab", "mask", "str", "obj"):
                ids = list(range(len(v)))
                check(ctx, a.tojagged(forms.KINDS[kind].build(ids)), [[forms.KINDS[kind].value(i)] * len(r) for i, r in enumerate(x)], "tojagged(%s)" % kind) if kind != "jagc" else None
            if len(v) != 1:
                expect_error(lambda: a.tojagged(numpy.arange(len(v) + 1 + (len(v) == 0))), "tojagged of a flat array with another length") if sum(v) else None
    elif op == "zip":
        v, k1, k2 = arg
        a, b = forms.jagged(v, layout, k1), forms.jagged(v, layout2, k2)
        x, y = forms.jagged_value(v, k1), forms.jagged_value(v, k2)
        before = physical(a), physical(b)
        rec = [[{"x": p, "y": q} for p, q in zip(r, s)] for r, s in zip(x, y)]
        tup = [[(p, q) for p, q in zip(r, s)] for r, s in zip(x, y)]
        check(ctx, JaggedArray.zip(x=a, y=b), rec, "zip(x=, y=)")
        check(ctx, JaggedArray.zip({"x": a, "y": b}), rec, "zip(dict)")
        check(ctx, a.zip(b), tup, "instance zip")
        check(ctx, JaggedArray.zip(a, b), tup, "class zip")
        z = a.zip(b)
        u, w = z.unzip()
        check(ctx, u, x, "unzip left")
        check(ctx, w, y, "unzip right")
        check(ctx, z[::-1], tup[::-1], "zip reversed")
        check(ctx, z["1"], y, "column of zip")
        flat = numpy.arange(len(v)) * 10
        check(ctx, a.zip(flat), [[(p, 10 * i) for p in r] for i, r in enumerate(x)], "zip with one number per row")
        check(ctx, JaggedArray.zip(x=flat, y=a), [[{"x": 10 * i, "y": p} for p in r] for i, r in enumerate(x)], "zip(x=flat, y=)")
        check(ctx, a.zip(7), [[(p, 7) for p in r] for i, r in enumerate(x)], "zip with a number")
        check(ctx, JaggedArray.zip(x=a, y=7), [[{"x": p, "y": 7} for p in r] for i, r in enumerate(x)], "zip(y=number)")
        check(ctx, JaggedArray.zip({"x": a, "y": 7}), [[{"x": p, "y": 7} for p in r] for i, r in enumerate(x)], "zip({y: number})")
        check(ctx, JaggedArray.zip(7, a), [[(7, p) for p in r] for i, r in enumerate(x)], "zip(number, a)")
        d = {"x": a, "y": b}
        JaggedArray.zip(d)
        if d["x"] is not a or d["y"] is not b:
            raise Violation("zip(dict) replaced the entries of the dict", "dict changed")
    elif op == "zipbad":
        v1, v2 = arg
        a, b = forms.jagged(v1, layout, "i8"), forms.jagged(v2, layout2, "i8")
        before = physical(a), physical(b)
        ctx.step(2)
        expect_error(lambda: a.zip(b), "zip of different counts")
        expect_error(lambda: JaggedArray.zip(x=a, y=b), "zip of different counts")
    if (physical(a), physical(b)) != before:
        raise Violation("%s changed the parts of an operand" % op, "operand changed")


def run_unit(unit, ctx):
    if unit[0] == "one":
        _, v, layout, kind = unit
        for op, arg in ops_one(v, layout, kind, "quick"):
            ctx.case([unit, op, arg], one, op, arg, v, layout, kind, ctx)
        return
    _, l1, l2, tier = unit
    kinds = list(forms.KINDS)
    for v1, v2 in PAIRS:
        for k1 in kinds:
            if l1 == l2 or k1 in ("i8", "jag", "mask", "tab"):
                ctx.case([unit, "concat", [v1, k1, v2, k1]], two, "concat", [v1, k1, v2, k1], l1, l2, ctx)
        for k1, k2 in [("i8", "jag"), ("tab", "i8"), ("mask", "str"), ("i8", "f8")]:
            ctx.case([unit, "concat", [v1, k1, v2, k2]], two, "concat", [v1, k1, v2, k2], l1, l2, ctx)
    for v1 in SAMES:
        for v2 in SAMES + [[1], [2, 1], [0, 3, 0]]:
            if len(v1) == len(v2) or (v1 == [2, 0, 1] and l1 == l2):
                for k1, k2 in [("i8", "i8"), ("f8", "f8"), ("bool", "bool"), ("tab", "tab"), ("i8", "f8"), ("i4strided", "i8")]:
                    ctx.case([unit, "concat1", [v1, k1, v2, k2]], two, "concat1", [v1, k1, v2, k2], l1, l2, ctx)
            if len(v1) == len(v2):
                if v1 != v2:
                    ctx.case([unit, "zipbad", [v1, v2]], two, "zipbad", [v1, v2], l1, l2, ctx)
                for k2 in (kinds if v1 == v2 and (l1 == l2 or tier != "quick") else ["i8", "jag", "tab", "mask"]):
                    ctx.case([unit, "tojagged", [v1, "i8", k2, v2]], two, "tojagged", [v1, "i8", k2, v2], l1, l2, ctx)
        for k1 in kinds:
            if l1 == l2 or tier != "quick" or k1 in ("i8", "jag", "tab"):
                ctx.case([unit, "zip", [v1, k1, "i8"]], two, "zip", [v1, k1, "i8"], l1, l2, ctx)
                ctx.case([unit, "zip", [v1, "f8", k1]], two, "zip", [v1, "f8", k1], l1, l2, ctx)
