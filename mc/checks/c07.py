"""C07: argmin, argmax and argsort."""
import itertools
import math

import numpy

from awkward0 import ChunkedArray, IndexedArray, JaggedArray, MaskedArray, VirtualArray

from .. import forms
from ..core import Violation
from ..obs import expect, norm, observe, physical, text

ID = "C07"
RULE = "every assignment of alphabet values (ties, NaN, infinities, extremes) to every jagged structure, in every layout, for argmin, argmax and argsort in both directions; every mask over small structures; nested and flat arrays; an outcome is non-trivial when its canonical value is distinct"
ASSUMPTIONS = ["the order of equal elements in argsort is not constrained; NaN elements come last in both directions, as the code documents",
               "a row in which every element is NaN or missing has no minimum, like an empty row"]
BOUNDS = {"quick": "structures with <=4 rows and <=4 elements, alphabets of 3 to 5 values, 11 layouts up to 2 elements and a rotation of 5 beyond; rows up to 8 elements with two values",
          "thorough": "structures with <=4 rows and <=5 elements, alphabets of 3 to 5 values, 11 layouts up to 2 elements and a rotation of 5 beyond; rows up to 11 elements"}

ALPHABET = {"i8": [0, 1, -2**63, 2**63 - 1], "u1": [0, 1, 255], "bool": [False, True], "f8": [0.0, -1.5, math.nan, math.inf, -math.inf]}
SMALL = {"i8": [0, 1, 2], "u1": [0, 255], "bool": [False, True], "f8": [0.0, 1.5, math.nan]}
NP = {"i8": numpy.int64, "u1": numpy.uint8, "bool": numpy.bool_, "f8": numpy.float64}
FEW = ("offsets", "gaps", "reversed", "longstops", "emptyfar")


def units(tier):
    cap = 4 if tier == "quick" else 5
    for v in forms.count_vectors(4, cap):
        if sum(v) <= cap:
            for dtype in ("i8", "f8", "bool", "u1"):
                yield ["values", v, dtype, tier]
            yield ["masked", v]
            yield ["nested", v]
    for n in range(5, 9 if tier == "quick" else 12):
        yield ["long", n]
    for n in range(1, 6 if tier == "quick" else 8):
        yield ["flat", n]
    for v in ([], [0], [0, 0], [2], [2, 0, 3], [0, 3, 0], [1, 1, 2], [4, 4]):
        for layout in forms.LAYOUTS:
            for kind in ("i8", "f8", "i4strided", "jag", "jagc", "mask", "maskF", "imask", "bmask", "bmaskMF", "idx", "sparse", "chk", "vrt"):
                yield ["kind", v, layout, kind]


def unit_of(case):
    return case[0]


def real(x):
    return x is not None and x == x


def arg(row, best):
    v = [x for x in row if real(x)]
    return [row.index(best(v))] if v else []


def check_sort(row, order, ascending, what):
    order = list(order)
    keep = [i for i, x in enumerate(row) if x is not None]
    if sorted(order) != keep:
        raise Violation("%s: argsort(ascending=%r) of %s gives %s, not a permutation of %s" % (what, ascending, text(row), order, keep), "not a permutation")
    got = [row[i] for i in order]
    nums = [x for x in got if x == x]
    if got[: len(nums)] != nums:
        raise Violation("%s: NaN is not last: %s" % (what, text(got)), "NaN not last")
    if nums != sorted(nums, reverse=not ascending):
        raise Violation("%s: argsort(ascending=%r) of %s gives %s" % (what, ascending, text(row), order), "not sorted")


def check(a, value, ctx, what, sorting=True):
    before = physical(a)
    ctx.step(4)
    ctx.outcome(text(value))
    for name, best in (("argmin", min), ("argmax", max)):
        got = getattr(a, name)()
        if not isinstance(got, JaggedArray):
            raise Violation("%s %s is a %s" % (what, name, type(got).__name__))
        expect(observe(got), [arg(r, best) for r in value], "%s %s of %s" % (what, name, text(value)))
        expect(observe(a[got], deep=False), [[r[i] for i in arg(r, best)] for r in value], "%s selecting with %s" % (what, name))
    for ascending in (True, False) if sorting else ():
        order = a.argsort(ascending=ascending)
        got = observe(order)
        if len(got) != len(value):
            raise Violation("%s: argsort has %d rows for %d" % (what, len(got), len(value)))
        for row, o in zip(value, got):
            check_sort(row, o, ascending, what)
        expect(observe(a[order], deep=False), [[r[i] for i in o] for r, o in zip(value, got)], "%s selecting with argsort" % what)
    if physical(a) != before:
        raise Violation("%s: operand changed" % what, "operand changed")


ALPHABET_POS = dict((text(x), i) for i, x in enumerate([0, 1, 2, 255, -2**63, 2**63 - 1, False, True, 0.0, 1.5, -1.5, math.nan, math.inf, -math.inf]))


def hash_of(v):
    return sum((i + 1) * c for i, c in enumerate(v)) + len(v)


def values_case(v, dtype, values, tier, ctx):
    it = iter(values)
    value = [[next(it) for _ in range(c)] for c in v]
    if sum(v) <= 2 and len(v) <= 3:
        layouts = forms.LAYOUTS if dtype == "i8" else FEW
    else:
        k = hash_of(v) + sum((i + 1) * ALPHABET_POS[text(x)] for i, x in enumerate(values))
        layouts = [FEW[k % 5]]
    for layout in layouts:
        a = forms.jagged_from_rows(value, layout, NP[dtype])
        ctx.state(physical(a))
        check(a, value, ctx, layout)
    if dtype == "i8" and sum(v) <= 3:
        check(forms.jagged_from_rows(value[::-1], "gaps", NP[dtype])[::-1], value, ctx, "reversed selection")
        a = forms.jagged_from_rows(value, "offsets", NP[dtype])
        expect(observe(a.argsort()), observe(a.argsort(ascending=False)), "default direction")


def masked_case(v, mask, ctx):
    it = iter(mask)
    ids = iter(range(100))
    value = [[None if next(it) else (next(ids) * 3) % 4 for _ in range(c)] for c in v]
    flat = [x for r in value for x in r]
    content = numpy.array([-50 if x is None else x for x in flat], dtype=numpy.int64)
    for hidden in (-50, 50):
        c = content.copy()
        c[[i for i, x in enumerate(flat) if x is None]] = hidden
        for a in (JaggedArray.fromcounts(v, MaskedArray(numpy.array(mask, dtype=bool), c)), JaggedArray.fromcounts(v, MaskedArray(numpy.array(mask, dtype=bool), c).indexed())):
            check(a, value, ctx, "masked (hidden %d)" % hidden)


def nested_case(v, cut, ctx):
    values = [(7 * i) % 5 for i in range(sum(v))]
    it = iter(values)
    value = [[next(it) for _ in range(c)] for c in v]
    for layout in FEW:
        inner = forms.jagged_from_rows(value, layout, numpy.int64)
        a = JaggedArray.fromcounts([cut, 0, len(v) - cut], inner)
        model = [value[:cut], [], value[cut:]]
        ctx.step(3)
        for name, best in (("argmin", min), ("argmax", max)):
            expect(observe(getattr(a, name)()), [[arg(r, best) for r in x] for x in model], "nested " + name)
        got = observe(a.argsort(ascending=True))
        for x, o in zip(model, got):
            if len(x) != len(o):
                raise Violation("nested argsort: %s" % text(got))
            for r, p in zip(x, o):
                check_sort(r, p, True, "nested")


def long_case(n, bits, ctx):
    values = [bits >> i & 1 for i in range(n)]
    for cut in (0, 2, n - 1):
        check(forms.jagged_from_rows([values[:cut], values[cut:]], "offsets", numpy.int64), [values[:cut], values[cut:]], ctx, "long")


def flat_case(n, values, ctx):
    base = numpy.array(values)
    want = {"argmin": values.index(min(values)), "argmax": values.index(max(values))}
    forms_ = {"idx": IndexedArray(numpy.arange(n)[::-1].copy(), base[::-1].copy()), "vrt": VirtualArray(forms._produce, (base,))}
    for cut in range(n + 1):
        for cut2 in range(cut, n + 1):
            forms_["chunks %d %d" % (cut, cut2)] = ChunkedArray([base[:cut], base[cut:cut2], base[cut2:]])
    for mask in itertools.product((False, True), repeat=n):
        if not all(mask):
            keep = [x for x, m in zip(values, mask) if not m]
            where = dict((name, next(i for i, (x, m) in enumerate(zip(values, mask)) if not m and x == best(keep))) for name, best in (("argmin", min), ("argmax", max)))
            for a in (MaskedArray(numpy.array(mask), base), MaskedArray(numpy.array(mask), base).indexed()):
                for name in want:
                    ctx.step()
                    expect(norm(getattr(a, name)()), where[name], "flat masked %s of %s under %s" % (name, values, list(mask)))
    for k, a in forms_.items():
        for name in want:
            ctx.step()
            expect(norm(getattr(a, name)()), want[name], "flat %s %s" % (k, name))


def kind_case(v, layout, kind, ctx):
    a = forms.jagged(v, layout, kind)
    value = forms.jagged_value(v, kind)
    ctx.state(physical(a))
    if kind in ("jag", "jagc"):
        for name, best in (("argmin", min), ("argmax", max)):
            ctx.step()
            expect(observe(getattr(a, name)()), [[arg(r, best) for r in x] for x in value], name)
    else:
        check(a, value, ctx, kind)


def run_unit(unit, ctx):
    op = unit[0]
    if op == "values":
        _, v, dtype, tier = unit
        alphabet = ALPHABET[dtype] if sum(v) <= (3 if tier == "quick" else 4) else SMALL[dtype]
        for values in itertools.product(alphabet, repeat=sum(v)):
            ctx.case([unit, [text(x) for x in values]], values_case, v, dtype, values, tier, ctx)
    elif op == "masked":
        for mask in itertools.product((False, True), repeat=sum(unit[1])):
            ctx.case([unit, list(mask)], masked_case, unit[1], mask, ctx)
    elif op == "nested":
        for cut in range(len(unit[1]) + 1):
            ctx.case([unit, cut], nested_case, unit[1], cut, ctx)
    elif op == "long":
        for bits in range(2 ** unit[1]):
            ctx.case([unit, bits], long_case, unit[1], bits, ctx)
    elif op == "flat":
        for values in itertools.product((0, 1, 2), repeat=unit[1]):
            ctx.case([unit, list(values)], flat_case, unit[1], list(values), ctx)
    else:
        ctx.case([unit, "all"], kind_case, unit[1], unit[2], unit[3], ctx)
