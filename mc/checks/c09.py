"""C09: missing values stay exactly where they are."""
import itertools

import numpy

from awkward0 import BitMaskedArray, IndexedMaskedArray, MaskedArray

from .. import forms, model
from ..core import Violation
from ..forms import KINDS
from ..obs import expect, expect_error, norm, observe, physical, text

ID = "C09"
RULE = "every mask up to the bound in every encoding, sense and bit order, times every selection of a systematic alphabet and pairs of selections, conversions between the encodings, and every kind of content; an outcome is non-trivial when its canonical value is distinct"
ASSUMPTIONS = ["fillna also replaces NaN, as it does for arrays that are not masked",
               "subscripting beyond a missing element is an error"]
BOUNDS = {"quick": "masks of up to 4 elements with every slice, mask and integer selection; up to 9 elements with a set of selections; lengths 15 to 17 with one or two missing; 17 kinds of content",
          "thorough": "masks of up to 5 elements with every slice, mask and integer selection; up to 12 elements with a set of selections; lengths up to 33 with one or two missing"}

HIDDEN = -12345


# ---------------------------------------------------------------- encodings
def raw_bits(bits, lsborder, pad=False):
    raw = [255 * pad] * ((len(bits) + 7) // 8)
    for i, b in enumerate(bits):
        weight = 1 << (i % 8) if lsborder else 128 >> (i % 8)
        if b:
            raw[i // 8] |= weight
        else:
            raw[i // 8] &= ~weight & 255
    return numpy.array(raw, dtype=numpy.uint8)


def content_of(kind, mask, extra=()):
    """content with unreachable junk under the missing elements"""
    return KINDS[kind].build([-1 if m else i for i, m in enumerate(mask)] + list(extra))


def enc_byte(mask, kind, when, extra=()):
    return MaskedArray(numpy.array([m == when for m in mask], dtype=bool), content_of(kind, mask, extra), maskedwhen=when)


def enc_bit(mask, kind, when, ls, pad=False):
    return BitMaskedArray(raw_bits([m == when for m in mask], ls, pad), content_of(kind, mask), maskedwhen=when, lsborder=ls)


def enc_index(mask, kind, order, when=-1):
    keep = [i for i, m in enumerate(mask) if not m]
    stored = {"same": list(range(len(mask))), "dense": keep, "reversed": [-1] + keep[::-1] + [-1]}[order]
    where = dict((i, p) for p, i in enumerate(stored) if i >= 0)
    index = [when if m else where[i] for i, m in enumerate(mask)]
    return IndexedMaskedArray(numpy.array(index, dtype=numpy.int64), KINDS[kind].build(stored if order != "same" else [-1 if m else i for i, m in enumerate(mask)]), maskedwhen=when)


ENCODINGS = {
    "byteT": lambda m, k: enc_byte(m, k, True),
    "byteF": lambda m, k: enc_byte(m, k, False),
    "byteTlong": lambda m, k: enc_byte(m, k, True, (-1, 3)),
    "byteFlong": lambda m, k: enc_byte(m, k, False, (-1,)),
    "bitTl": lambda m, k: enc_bit(m, k, True, True),
    "bitTm": lambda m, k: enc_bit(m, k, True, False),
    "bitFl": lambda m, k: enc_bit(m, k, False, True, True),
    "bitFm": lambda m, k: enc_bit(m, k, False, False),
    "bitTmpad": lambda m, k: enc_bit(m, k, True, False, True),
    "index": lambda m, k: enc_index(m, k, "same"),
    "indexdense": lambda m, k: enc_index(m, k, "dense"),
    "indexrev": lambda m, k: enc_index(m, k, "reversed"),
    "index-7": lambda m, k: enc_index(m, k, "reversed", -7),
    "index99": lambda m, k: enc_index(m, k, "dense", 99),
}
CONTENTS = ("i8", "f8", "bool", "2d", "i4strided", "jag", "jagc", "tab", "tabview", "str", "idx", "sparse", "chk", "uni", "obj", "vrt", "mask")


def value_of(mask, kind):
    return [None if m else KINDS[kind].value(i) for i, m in enumerate(mask)]


# ---------------------------------------------------------------- checks
def metadata(a, value, ctx, what, fill=True, filler=7):
    missing = [x is None for x in value]
    ctx.step(6)
    expect(norm(a.boolmask(maskedwhen=True)), missing, what + " boolmask(True)")
    expect(norm(a.boolmask(maskedwhen=False)), [not m for m in missing], what + " boolmask(False)")
    expect(norm(a.ismasked), missing, what + " ismasked")
    expect(norm(a.isunmasked), [not m for m in missing], what + " isunmasked")
    if not isinstance(a, IndexedMaskedArray):
        expect(norm(a.boolmask()), [m == a.maskedwhen for m in missing], what + " boolmask()")
    expect(observe(a.indexed()), value, what + " indexed()")
    expect(observe(a.copy()), value, what + " copy()")
    expect(observe(a[a.isunmasked]), [x for x in value if x is not None], what + " the unmasked elements")
    if fill:
        expect(norm(a.fillna(7)), [filler if x is None or x != x else x for x in value], what + " fillna")


def select_case(mask, kind, enc, ops, ctx):
    a = ENCODINGS[enc](mask, kind)
    value = value_of(mask, kind)
    before = physical(a)
    ctx.state(before)
    expect(observe(a), value, "array")
    metadata(a, value, ctx, "array", kind in ("i8", "f8", "bool", "i4strided"), 7.0 if kind == "f8" else 7)
    for where in ops:
        one(a, value, where, ctx)
    if physical(a) != before:
        raise Violation("the array changed", "operand changed")


def one(a, value, where, ctx, chain=()):
    ctx.step()
    what = str(where)
    try:
        want = model.select(value, where)
    except model.ModelError:
        expect_error(lambda: observe(a[model.real(where)]), what)
        return
    got = a[model.real(where)]
    out = observe(got, deep=isinstance(want, list) and len(want) < 6)
    ctx.outcome(expect(out, want, what))
    if isinstance(want, list) and isinstance(got, MaskedArray) and where[0] != "tuple":
        ctx.state(physical(got))
        if not isinstance(a.content, MaskedArray):
            expect(norm(got.boolmask(maskedwhen=True)), [x is None for x in want], what + " boolmask")
        for then in chain:
            ctx.step()
            expect(observe(got[model.real(then)], deep=False), model.select(want, then), "%s then %s" % (what, then))


def alphabet(n, every=True):
    ops = [("int", i) for i in range(-n - 2, n + 2)]
    if every:
        ops += list(model.slices(n))
    else:
        ops += [("slice", a, b, c) for a in (None, 1, -2, n) for b in (None, n - 1, -1, 1) for c in (None, 3, -1, -2)]
    if every:
        ops += list(model.masks(n)) + list(model.takes(n, 2))
        ops += [("mask", [True] * (n + 1)), ("take", list(range(n)) * 2)]
    else:
        ops += [("mask", [i % 2 == 0 for i in range(n)]), ("mask", [i % 3 != 0 for i in range(n)]), ("mask", [True] * n), ("mask", [False] * n), ("take", list(range(n))[::-1]), ("take", [-1, 0, n // 2] if n else []), ("take", list(range(-n, 0))), ("take", [n]), ("take", [-n - 1]), ("take", [])]
    return ops


def chain_case(mask, enc, ctx):
    a = ENCODINGS[enc](mask, "i8")
    value = value_of(mask, "i8")
    n = len(mask)
    for where in alphabet(n, False):
        if where[0] == "int":
            continue
        try:
            m = len(model.select(value, where))
        except model.ModelError:
            continue
        then = [("slice", None, None, -1), ("slice", 1, None, None), ("mask", [i % 2 == 1 for i in range(m)]), ("take", list(range(-m, 0))[::-1]), ("slice", None, -1, 2)]
        one(a, value, where, ctx, then)


def model_tuples(n):
    return tuple(("tuple", [head, tail]) for head in (("slice", None, None, -1), ("slice", n - 1, None, None), ("take", [n - 1])) for tail in (("slice", None, 1, None), ("slice", None, None, 2)) if n)


def kind_case(mask, kind, enc, ctx):
    a = ENCODINGS[enc](mask, kind)
    value = value_of(mask, kind)
    n = len(mask)
    ctx.state(physical(a))
    before = physical(a)
    expect(observe(a), value, "array")
    if kind != "mask":
        metadata(a, value, ctx, "array", False)
    for where in alphabet(n, False) + list(model.masks(n)):
        one(a, value, where, ctx, [("slice", None, None, -1), ("take", [])] if where[0] != "int" else ())
    if kind in ("tab", "tabview"):
        for name in ("x", "y"):
            expect(observe(a[name]), [None if r is None else r[name] for r in value], "column")
            expect(observe(a[name][::-1]), [None if r is None else r[name] for r in value][::-1], "column reversed")
            expect(observe(a[::-1][name]), [None if r is None else r[name] for r in value][::-1], "reversed column")
        expect(observe(a[["y"]]), [None if r is None else {"y": r["y"]} for r in value], "columns")
    if kind in ("jag", "jagc", "2d"):
        for where in model_tuples(n) + (("tuple", [("slice", None, None, None), ("int", 0)]), ("tuple", [("int", 0), ("int", 0)]), ("tuple", [("slice", 1, None, None), ("slice", None, None, -1)]), ("tuple", [("mask", [x is not None for x in value]), ("slice", 1, None, None)]), ("tuple", [("take", [i for i, x in enumerate(value) if x is not None][::-1]), ("slice", None, 1, None)]), ("tuple", [("slice", 0, 0, None), ("int", 0)])):
            one(a, value, where, ctx)
        expect(norm(a.counts), [-1 if x is None else len(x) for x in value], "counts")
    elif kind in ("i8", "f8", "tab", "str"):
        expect(norm(a.counts), [-1 if x is None else len(x) if kind == "str" and False else (len(x.encode("utf-8")) if kind == "str" else -1) for x in value], "counts")
    if physical(a) != before:
        raise Violation("the array changed", "operand changed")


def convert_case(mask, ctx):
    """constructors and static conversions"""
    n = len(mask)
    ctx.step(4)
    value = value_of(mask, "i8")
    for ls in (False, True):
        bits = BitMaskedArray.bool2bit(numpy.array(mask, dtype=bool), lsborder=ls)
        expect(norm(bits), norm(raw_bits(mask, ls)), "bool2bit lsborder=%r" % ls)
        expect(norm(BitMaskedArray.bit2bool(raw_bits(mask, ls, True), lsborder=ls))[:n], list(mask), "bit2bool lsborder=%r" % ls)
        expect(norm(BitMaskedArray.bool2bit(numpy.array(mask, dtype=numpy.int8) * 3, lsborder=ls)), norm(raw_bits(mask, ls)), "bool2bit of integers")
        for when in (False, True):
            a = BitMaskedArray.fromboolmask([m == when for m in mask], content_of("i8", mask), maskedwhen=when, lsborder=ls)
            expect(observe(a), value, "fromboolmask")
            if not any(mask):
                expect(observe(BitMaskedArray.fromcontent(content_of("i8", mask), maskedwhen=when, lsborder=ls)), value, "BitMaskedArray.fromcontent")
            # a change of sense or bit order through copy
            other = a.copy(mask=raw_bits([m != when for m in mask], not ls), maskedwhen=not when, lsborder=not ls)
            expect(observe(other), value, "copy with the opposite conventions")
            expect(observe(a), value, "after copy")
    if not any(mask):
        for when in (False, True):
            expect(observe(MaskedArray.fromcontent(content_of("i8", mask), maskedwhen=when)), value, "MaskedArray.fromcontent")
        expect(observe(IndexedMaskedArray.fromcontent(content_of("i8", mask))), value, "IndexedMaskedArray.fromcontent")
    for when in (False, True):
        expect(observe(MaskedArray([int(m == when) * 2 for m in mask], content_of("i8", mask), maskedwhen=when)), value, "mask of integers")
        for k in range(3):
            for t, some in ((numpy.int8, (-1, 2, -128)), (numpy.int64, (-1, 2 ** 40, 256)), (numpy.uint8, (255, 1, 128)), (numpy.float64, (-0.5, 0.25, 3.0))):
                odd = numpy.array([some[(i + k) % 3] if m == when else 0 for i, m in enumerate(mask)], dtype=t)
                expect(observe(MaskedArray(odd, content_of("i8", mask), maskedwhen=when)), value, "mask of %s" % numpy.dtype(t))
                for ls in (False, True):
                    expect(norm(BitMaskedArray.bool2bit(odd, lsborder=ls)), norm(raw_bits([m == when for m in mask], ls)), "bool2bit of %s" % numpy.dtype(t))
                    expect(observe(BitMaskedArray.fromboolmask(odd, content_of("i8", mask), maskedwhen=when, lsborder=ls)), value, "fromboolmask of %s" % numpy.dtype(t))
        expect(observe(MaskedArray([m == when for m in mask], content_of("i8", mask).tolist(), maskedwhen=when)), value, "Python lists")
    expect(observe(IndexedMaskedArray([-1 if m else i for i, m in enumerate(mask)], content_of("i8", mask).tolist())), value, "Python lists")
    for enc in ENCODINGS:
        a = ENCODINGS[enc](mask, "i8")
        for like, fill in (("zeros_like", 0), ("ones_like", 1)):
            expect(observe(getattr(a, like)()), [None if m else fill for m in mask], "%s of %s" % (like, enc))
        expect([x is None for x in observe(a.empty_like())], list(mask), "empty_like of " + enc)
        expect(observe(a.deepcopy()), value, "deepcopy of " + enc)
        expect(len(a), n, "len")


def sparse_masks(n):
    yield [False] * n
    yield [True] * n
    for i in range(n):
        yield [j == i for j in range(n)]
        yield [j != i for j in range(n)]
        for k in range(i):
            yield [j in (i, k) for j in range(n)]


def units(tier):
    small, mid = (4, 9) if tier == "quick" else (5, 12)
    for n in range(small + 1):
        for enc in sorted(ENCODINGS):
            yield ["all", n, enc]
    for n in range(mid + 1):
        for enc in sorted(ENCODINGS):
            if n > small and (n <= 6 or enc.startswith("bit")):
                yield ["some", n, enc]
        yield ["convert", n]
    for n in (15, 16, 17) + ((24, 25, 32, 33) if tier == "thorough" else ()):
        for enc in ("bitTl", "bitTm", "bitFl", "bitFm", "byteF", "indexrev"):
            yield ["sparse", n, enc]
        yield ["convert sparse", n]
    for n in range(5):
        for enc in sorted(ENCODINGS):
            yield ["chain", n, enc]
    for n in range(5 if tier == "quick" else 6):
        for kind in CONTENTS:
            for enc in sorted(ENCODINGS):
                yield ["kind", n, kind, enc]


def unit_of(case):
    return case[0]


def run_unit(unit, ctx):
    op, n = unit[0], unit[1]
    if op in ("all", "some"):
        ops = alphabet(n, op == "all")
        for mask in itertools.product((False, True), repeat=n):
            ctx.case([unit, list(mask)], select_case, mask, "i8" if n != 3 else "f8", unit[2], ops, ctx)
    elif op == "sparse":
        ops = alphabet(n, False)
        for mask in sparse_masks(n):
            ctx.case([unit, list(mask)], select_case, mask, "i8", unit[2], ops, ctx)
    elif op == "chain":
        for mask in itertools.product((False, True), repeat=n):
            ctx.case([unit, list(mask)], chain_case, mask, unit[2], ctx)
    elif op == "convert":
        for mask in itertools.product((False, True), repeat=n):
            ctx.case([unit, list(mask)], convert_case, mask, ctx)
    elif op == "convert sparse":
        for mask in sparse_masks(n):
            ctx.case([unit, list(mask)], convert_case, mask, ctx)
    else:
        for mask in itertools.product((False, True), repeat=n):
            ctx.case([unit, list(mask)], kind_case, mask, unit[2], unit[3], ctx)
