"""C10: missing values propagate through computation and are left out of reductions."""
import itertools
import operator

import numpy

from awkward0 import BitMaskedArray, IndexedMaskedArray, JaggedArray, MaskedArray, Table
from awkward0.array.base import AwkwardArray

from .. import forms
from ..core import Violation
from ..obs import expect, expect_error, norm, observe, physical, text
from . import c04, c05
from .c09 import raw_bits

ID = "C10"
RULE = "every mask, and every pair of masks for binary operations, in every encoding and pair of encodings, x operators, reducers, concatenation, flattening and row-wise operations; the values hidden under the masks are varied and must not matter; an outcome is non-trivial when its canonical value is distinct"
ASSUMPTIONS = ["the reference computes with the present elements only, applying the same Numpy function to Numpy scalars",
               "flatten keeps a missing list as one missing element, as README.rst says",
               "a missing per-row operand of a jagged array makes that row missing, or all its elements, depending on which operand decides the result's class"]
BOUNDS = {"quick": "masks of up to 4 elements for one operand, up to 3 for two; 12 encodings, all pairs; 3 hidden values; rows<=3 for masked rows",
          "thorough": "masks of up to 6 elements for one operand, up to 4 for two; 12 encodings, all pairs; 3 hidden values; rows<=4"}

VALUES = {"i8": [3, -2, 0, 7, 5, -1], "f8": [1.5, float("nan"), -2.25, 0.0, 4.0, float("inf")], "bool": [True, False, False, True, True, False]}
HIDDEN = {"i8": [-12345, 0, 2**62], "f8": [float("nan"), 1e300, 0.0], "bool": [True, False, True]}


def encode(enc, mask, present, build, hidden):
    """mask: missing or not; present[i] the logical element; build(list of elements or hidden) -> content"""
    full = [hidden if m else v for m, v in zip(mask, present)]
    if enc[:4] == "byte":
        when = enc[4] == "T"
        extra = [hidden, hidden] if enc[5:] == "long" else []
        return MaskedArray(numpy.array([m == when for m in mask], dtype=bool), build(full + extra), maskedwhen=when)
    if enc[:3] == "bit":
        when, ls = enc[3] == "T", enc[4] == "l"
        return BitMaskedArray(raw_bits([m == when for m in mask], ls, when), build(full), maskedwhen=when, lsborder=ls)
    when = int(enc[6:] or -1)
    keep = [i for i, m in enumerate(mask) if not m]
    order = keep[::-1]
    where = dict((i, p + 1) for p, i in enumerate(order))
    return IndexedMaskedArray(numpy.array([when if m else where[i] for i, m in enumerate(mask)], dtype=numpy.int64), build([hidden] + [present[i] for i in order] + [hidden]), maskedwhen=when)


ENCODINGS = ["byteT", "byteF", "byteTlong", "byteFlong", "bitTl", "bitTm", "bitFl", "bitFm", "index:", "index:-7", "index:99"]


def flat(enc, mask, dtype, hidden, roll=0):
    vals = (VALUES[dtype] * 3)[roll:]
    return encode(enc, mask, vals[:len(mask)], lambda v: numpy.array(v, dtype=dtype), HIDDEN[dtype][hidden])


def value(mask, dtype, roll=0):
    vals = (VALUES[dtype] * 3)[roll:]
    return [None if m else vals[i] for i, m in enumerate(mask)]


def outcome(ctx, got, want, what):
    ctx.step()
    ctx.outcome(expect(observe(got) if isinstance(got, (AwkwardArray, numpy.ndarray)) else norm(got), want, what))


def same(before, arrays, what):
    for b, a in zip(before, arrays):
        if physical(a) != b:
            raise Violation(what + ": an operand changed", "operand changed")


UNARY = {"negative": numpy.negative, "absolute": numpy.absolute, "square": numpy.square, "isnan": numpy.isnan, "op-": operator.neg, "op+": operator.pos}
SCALAR = {"add": numpy.add, "true_divide": numpy.true_divide, "less": numpy.less, "maximum": numpy.maximum, "power": numpy.multiply}
OPS = {"+": operator.add, "-": operator.sub, "*": operator.mul, "//": operator.floordiv, "==": operator.eq, "!=": operator.ne, "<": operator.lt, ">=": operator.ge}
BINARY = {"add": numpy.add, "subtract": numpy.subtract, "less": numpy.less}


def unary_case(mask, enc, dtype, hidden, ctx):
    a = flat(enc, mask, dtype, hidden)
    v = value(mask, dtype)
    ctx.state(physical(a))
    before = [physical(a)]
    with numpy.errstate(all="ignore"):
        for name in sorted(UNARY):
            if dtype == "bool" and name in ("negative", "op-", "square", "op+"):
                continue
            outcome(ctx, UNARY[name](a), c04.apply(UNARY[name], v), name)
        if dtype == "bool":
            outcome(ctx, ~a, c04.apply(operator.invert, v), "~")
            outcome(ctx, numpy.logical_not(a), c04.apply(numpy.logical_not, v), "logical_not")
            for s in (True, False):
                outcome(ctx, a & s, c04.apply(operator.and_, v, s), "&")
                outcome(ctx, s | a, c04.apply(operator.or_, v, s), "|")
        else:
            for s in (2, -1.5, numpy.float64(2), numpy.array(3)):
                sv = s if type(s) in (int, float) else s.item()
                for name in sorted(SCALAR):
                    outcome(ctx, SCALAR[name](a, s), c04.apply(SCALAR[name], v, sv), name)
                    outcome(ctx, SCALAR[name](s, a), c04.apply(SCALAR[name], sv, v), name + " reversed")
            for name in sorted(OPS):
                outcome(ctx, OPS[name](a, 2), c04.apply(OPS[name], v, 2), name)
                if type(2) is int:
                    outcome(ctx, OPS[name](2, a), c04.apply(OPS[name], 2, v), name + " reversed")
            if dtype == "f8":
                parts = numpy.modf(a)
                for i in range(2):
                    outcome(ctx, parts[i], c04.part(c04.tuples(numpy.modf, v), i), "modf[%d]" % i)
        # one value per element
        plain = numpy.array((VALUES[dtype] * 3)[2:2 + len(mask)], dtype=dtype)
        pv = norm(plain)
        if dtype != "bool":
            for name in sorted(BINARY):
                outcome(ctx, BINARY[name](a, plain), c04.apply(BINARY[name], v, pv), name + " with an array")
                outcome(ctx, BINARY[name](plain, a), c04.apply(BINARY[name], pv, v), name + " with an array, reversed")
            outcome(ctx, numpy.add(a, pv), c04.apply(numpy.add, v, pv), "with a list")
            outcome(ctx, numpy.subtract(pv, a), c04.apply(numpy.subtract, pv, v), "with a list, reversed")
            for bad in (numpy.arange(len(mask) + 1), numpy.arange(max(len(mask) - 1, 0)) if len(mask) > 2 else None):
                if bad is not None and len(bad) != 1:
                    expect_error(lambda: observe(a + bad), "wrong length")
                    expect_error(lambda: observe(bad + a), "wrong length")
    same(before, [a], "ufunc")


def reduce_case(mask, enc, dtype, hidden, ctx):
    a = flat(enc, mask, dtype, hidden)
    v = value(mask, dtype)
    before = [physical(a)]
    ctx.state(before[0])
    with numpy.errstate(all="ignore"):
        for name in c05.REDUCERS:
            ctx.step()
            if dtype == "f8" and name in ("mean", "var", "std") and float("inf") in v:
                continue
            ctx.outcome(c05.agree(norm(getattr(a, name)()), c05.reduce(v, name, dtype), name, name not in ("mean", "var", "std")))
        here = [(x, i) for i, x in enumerate(v) if x is not None]
        ctx.step(2)
        if here and dtype != "f8":
            expect(norm(a.argmin()), min(here, key=lambda p: (p[0], p[1]))[1], "argmin")
            expect(norm(a.argmax()), min(here, key=lambda p: (-p[0], p[1]))[1], "argmax")
    outcome(ctx, a.counts, [-1] * len(mask), "counts")
    same(before, [a], "reducer")


def two_case(m1, m2, e1, e2, dtype, hidden, ctx):
    a, b = flat(e1, m1, dtype, hidden), flat(e2, m2, "i8", (hidden + 1) % 3, 1)
    va, vb = value(m1, dtype), value(m2, "i8", 1)
    before = [physical(a), physical(b)]
    ctx.state(" | ".join(before))
    with numpy.errstate(all="ignore"):
        for name in sorted(BINARY):
            outcome(ctx, BINARY[name](a, b), c04.apply(BINARY[name], va, vb), name)
        outcome(ctx, b >= a, c04.apply(operator.ge, vb, va), ">=")
        outcome(ctx, (a + b) * a, c04.apply(operator.mul, c04.apply(operator.add, va, vb), va), "(a + b)*a")
        outcome(ctx, numpy.where(numpy.array([x is None for x in va]), 0, 1) + b, c04.apply(operator.add, [0 if x is None else 1 for x in va], vb), "array + b")
        parts = numpy.divmod(a, b)
        for i in range(2):
            outcome(ctx, parts[i], c04.part(c04.tuples(numpy.divmod, va, vb), i), "divmod[%d]" % i)
    same(before, [a, b], "ufunc")


def lengths_case(n1, n2, e1, e2, ctx):
    a, b = flat(e1, [False] * n1, "i8", 0), flat(e2, [True] * n2, "i8", 0)
    ctx.step(2)
    expect_error(lambda: observe(a + b), "operands of different lengths")
    expect_error(lambda: observe(b * a), "operands of different lengths")


def join_case(m1, m2, e1, e2, ctx):
    a, b = flat(e1, m1, "i8", 0), flat(e2, m2, "i8", 1, 1)
    va, vb = value(m1, "i8"), value(m2, "i8", 1)
    before = [physical(a), physical(b)]
    ctx.step()
    if (e1[:3] == "bit") and (e2[:3] == "bit"):
        try:
            out = a.concatenate([b])
        except NotImplementedError:
            return
    else:
        out = a.concatenate([b])
    outcome(ctx, out, va + vb, "concatenate")
    if e1[:3] != "bit" and e2[:3] != "bit":
        outcome(ctx, AwkwardArray.concatenate([b, a, b]), vb + va + vb, "concatenate three")
        if type(a) is type(b):
            outcome(ctx, out + 1, c04.apply(operator.add, va + vb, 1), "concatenate, then add")
            ctx.outcome(c05.agree(norm(out.sum()), c05.reduce(va + vb, "sum", "i8"), "concatenate, then sum", True))
    same(before, [a, b], "concatenate")


# ---------------------------------------------------------------- masked rows
INNER = [[], [1], [2, 3], [-4, 5, 0], [6]]


def jag_build(rows, layout, masked=False):
    flatvals = [x for r in rows for x in r]
    counts = [len(r) for r in rows]
    starts, stops, ids = forms.jagged_parts(forms.ids_of(counts), layout)
    if not masked:
        return JaggedArray(starts, stops, numpy.array([flatvals[i] if i >= 0 else 999 for i in ids], dtype=numpy.int64))
    data = numpy.array([999 if i < 0 or flatvals[i] is None else flatvals[i] for i in ids], dtype=numpy.int64)
    return JaggedArray(starts, stops, MaskedArray(numpy.array([i >= 0 and flatvals[i] is None for i in ids], dtype=bool), data))


def rows_case(mask, pick, enc, layout, ctx):
    """masked array of lists"""
    n = len(mask)
    present = [INNER[(i + pick) % 5] for i in range(n)]
    junk = [11, 12, 13] if pick % 2 else []
    a = encode(enc, mask, present, lambda rows: jag_build(rows, layout), junk)
    v = [None if m else r for m, r in zip(mask, present)]
    before = [physical(a)]
    ctx.state(before[0])
    outcome(ctx, a, v, "array")
    outcome(ctx, a + 1, c04.apply(operator.add, v, 1), "+ 1")
    outcome(ctx, 10 - a, c04.apply(operator.sub, 10, v), "10 -")
    per = numpy.arange(n) * 10
    outcome(ctx, a + per, c04.apply(operator.add, v, norm(per)), "+ one value per row")
    outcome(ctx, a * a, c04.apply(operator.mul, v, v), "a*a")
    # in every other encoding
    other = encode("index:" if enc[0] == "b" else "byteF", mask, present, lambda rows: jag_build(rows, "gaps"), [21])
    outcome(ctx, a + other, c04.apply(operator.add, v, v), "a + other encoding")
    outcome(ctx, other < a, c04.apply(operator.lt, v, v), "other encoding < a")
    outcome(ctx, a.counts, [-1 if r is None else len(r) for r in v], "counts")
    outcome(ctx, a.flatten(), [x for r in v for x in ([None] if r is None else r)], "flatten")
    for name in c05.REDUCERS:
        ctx.step()
        ctx.outcome(c05.agree(observe(getattr(a, name)()), [None if r is None else c05.reduce(r, name, "i8") for r in v], name, name not in ("mean", "var", "std")))
    outcome(ctx, a.argmin(), [None if r is None else c07arg(r, min) for r in v], "argmin")
    outcome(ctx, a.argmax(), [None if r is None else c07arg(r, max) for r in v], "argmax")
    outcome(ctx, a.pad(2), [None if r is None else r + [None] * (2 - len(r)) for r in v], "pad")
    outcome(ctx, a.pad(1, clip=True), [None if r is None else (r + [None])[:1] for r in v], "pad clip")
    outcome(ctx, a.pairs(), [None if r is None else list(itertools.combinations_with_replacement(r, 2)) for r in v], "pairs")
    outcome(ctx, a.distincts(), [None if r is None else list(itertools.combinations(r, 2)) for r in v], "distincts")
    outcome(ctx, a.argdistincts(), [None if r is None else list(itertools.combinations(range(len(r)), 2)) for r in v], "argdistincts")
    outcome(ctx, a.choose(2), [None if r is None else [tuple(r[i] for i in c) for c in sorted(itertools.combinations(range(len(r)), 2), key=lambda c: c[::-1])] for r in v], "choose")
    partner = jag_build([[7] * (i % 3) for i in range(n)], "offjunk")
    pv = [[7] * (i % 3) for i in range(n)]
    outcome(ctx, a.cross(partner), [None if r is None else list(itertools.product(r, q)) for r, q in zip(v, pv)], "cross")
    keep = [r for r in v if r is not None]
    outcome(ctx, a[a.isunmasked].flatten(), [x for r in keep for x in r], "unmasked, flattened")
    same(before, [a], "rows")


def c07arg(row, best):
    if not row:
        return []
    return [row.index(best(row))]


def masked_rows_units(tier):
    for n in range(4 if tier == "quick" else 5):
        for mask in itertools.product((False, True), repeat=n):
            yield list(mask)


def elements_case(counts, mask, layout, enc, hidden, ctx):
    """jagged array with masked content"""
    total = sum(counts)
    vals = (VALUES["i8"] * 3)[:total]
    starts, stops, ids = forms.jagged_parts(forms.ids_of(counts), layout)
    content = encode(enc, [i < 0 and bool(hidden % 2) or i >= 0 and mask[i] for i in ids], [vals[i] if i >= 0 else 77 for i in ids], lambda v: numpy.array(v, dtype=numpy.int64), HIDDEN["i8"][hidden])
    a = JaggedArray(starts, stops, content)
    v = [[None if mask[i] else vals[i] for i in r] for r in forms.ids_of(counts)]
    before = [physical(a)]
    ctx.state(before[0])
    outcome(ctx, a, v, "array")
    for name in c05.REDUCERS:
        ctx.step()
        ctx.outcome(c05.agree(observe(getattr(a, name)()), [c05.reduce(r, name, "i8") for r in v], name, name not in ("mean", "var", "std")))
    per = numpy.arange(len(counts)) * 10
    outcome(ctx, a + per, c04.apply(operator.add, v, norm(per)), "+ one value per row")
    outcome(ctx, per - a, c04.apply(operator.sub, norm(per), v), "one value per row -")
    outcome(ctx, a * a, c04.apply(operator.mul, v, v), "a*a")
    plain = jag_build([[5] * c for c in counts], "reversed")
    pv = [[5] * c for c in counts]
    outcome(ctx, a + plain, c04.apply(operator.add, v, pv), "+ plain")
    outcome(ctx, plain < a, c04.apply(operator.lt, pv, v), "plain <")
    outcome(ctx, a.flatten(), [x for r in v for x in r], "flatten")
    outcome(ctx, a.counts, [len(r) for r in v], "counts")
    outcome(ctx, a.fillna(-1), [[-1 if x is None else x for x in r] for r in v], "fillna")
    outcome(ctx, a.pad(2).fillna(-9), [[-9 if x is None else x for x in r] + [-9] * (2 - len(r)) for r in v], "pad, then fillna")
    good = JaggedArray(a.starts, a.stops, content.isunmasked)
    outcome(ctx, a[good], [[x for x in r if x is not None] for r in v], "selecting what is present")
    outcome(ctx, a[good].sum(), [sum(x for x in r if x is not None) for r in v], "selecting what is present, then sum")
    outcome(ctx, a[::-1].sum(), [sum(x for x in r if x is not None) for r in v][::-1], "reversed sum")
    if counts and enc[:3] != "bit":
        outcome(ctx, a.concatenate([a]), v + v, "concatenate")
    same(before, [a], "elements")


def table_case(mask1, mask2, e1, e2, ctx):
    n = len(mask1)
    x, y = flat(e1, mask1, "i8", 0), flat(e2, mask2, "f8", 1, 2)
    vx, vy = value(mask1, "i8"), value(mask2, "f8", 2)
    t = Table(x=x, y=y)
    rows = [{"x": a, "y": b} for a, b in zip(vx, vy)]
    before = [physical(t)]
    ctx.state(before[0])
    with numpy.errstate(all="ignore"):
        outcome(ctx, t, rows, "table")
        outcome(ctx, t + 1, c04.apply(operator.add, rows, 1), "+ 1")
        outcome(ctx, t.x + t.y, c04.apply(operator.add, vx, vy), "x + y")
        outcome(ctx, t[::-1], rows[::-1], "reversed")
        for name in ("sum", "count", "any", "prod"):
            ctx.step()
            got = getattr(t, name)()
            c05.agree(norm(got), {"x": c05.reduce(vx, name, "i8"), "y": c05.reduce(vy, name, "f8")}, name, True)
        t2 = Table(x=flat(e2, mask2, "i8", 1), y=numpy.arange(n))
        outcome(ctx, t + t2, [{"x": c04.apply(operator.add, a, b), "y": c04.apply(operator.add, c, i)} for i, (a, b, c) in enumerate(zip(vx, value(mask2, "i8"), vy))], "table + table")
        outcome(ctx, numpy.negative(t)["x"], c04.apply(operator.neg, vx), "negative")
    same(before, [t], "table")
    # masked rows of a table
    m = encode(e1, mask1, list(range(n)), lambda ids: Table(x=numpy.array([i * 3 for i in ids], dtype=numpy.int64), y=numpy.array(ids, dtype=float) / 2), 99)
    mv = [None if b else {"x": i * 3, "y": i / 2.0} for i, b in enumerate(mask1)]
    ctx.state(physical(m))
    before = [physical(m)]
    outcome(ctx, m, mv, "masked rows")
    outcome(ctx, m + 1, c04.apply(operator.add, mv, 1), "masked rows + 1")
    outcome(ctx, m["x"] * 2, [None if r is None else r["x"] * 2 for r in mv], "column * 2")
    outcome(ctx, m.x + m.y, [None if r is None else r["x"] + r["y"] for r in mv], "column + column")
    here = [r for r in mv if r is not None]
    for name in ("sum", "count", "max"):
        ctx.step()
        c05.agree(norm(getattr(m, name)()), {"x": c05.reduce([r["x"] for r in here], name, "i8"), "y": c05.reduce([r["y"] for r in here], name, "f8")}, name + " of masked rows", True)
    same(before, [m], "masked rows")


PAIRS = [(a, b) for a in ("byteT", "byteFlong", "bitTl", "bitFm", "index:", "index:-7") for b in ("byteF", "byteTlong", "bitTm", "bitFl", "index:", "index:99")]


def units(tier):
    q = tier == "quick"
    for n in range(5 if q else 7):
        for enc in ENCODINGS:
            yield ["unary", n, enc]
            yield ["reduce", n, enc]
    for n in range(4 if q else 5):
        for e1 in ENCODINGS:
            for e2 in ENCODINGS:
                yield ["two", n, e1, e2]
    for e1 in ENCODINGS:
        for e2 in ENCODINGS:
            yield ["join", 2 if q else 3, e1, e2]
            yield ["lengths", e1, e2]
    for mask in masked_rows_units(tier):
        for enc in ENCODINGS:
            yield ["rows", mask, enc]
    for counts in forms.count_vectors(3, 2) if q else forms.count_vectors(3, 3):
        if sum(counts) <= (4 if q else 6):
            for layout in ("offsets", "gaps", "reversed", "offjunk", "longstops", "emptyfar"):
                yield ["elements", counts, layout, q]
    for n in range(4 if q else 5):
        for e1, e2 in PAIRS:
            yield ["table", n, e1, e2]


def unit_of(case):
    return case[0]


def run_unit(unit, ctx):
    op = unit[0]
    if op in ("unary", "reduce"):
        for mask in itertools.product((False, True), repeat=unit[1]):
            for dtype in ("i8", "f8", "bool"):
                for hidden in range(3):
                    if dtype == "bool" and hidden == 2:
                        continue
                    ctx.case([unit, list(mask), dtype, hidden], unary_case if op == "unary" else reduce_case, mask, unit[2], dtype, hidden, ctx)
    elif op == "two":
        for m1 in itertools.product((False, True), repeat=unit[1]):
            for m2 in itertools.product((False, True), repeat=unit[1]):
                for dtype, hidden in (("i8", 0), ("f8", 1)):
                    ctx.case([unit, list(m1), list(m2), dtype], two_case, m1, m2, unit[2], unit[3], dtype, hidden, ctx)
    elif op == "lengths":
        for n1, n2 in ((2, 3), (3, 2), (0, 2), (2, 0)):
            ctx.case([unit, n1, n2], lengths_case, n1, n2, unit[1], unit[2], ctx)
    elif op == "join":
        for n1 in range(unit[1] + 1):
            for n2 in range(unit[1] + 1):
                for m1 in itertools.product((False, True), repeat=n1):
                    for m2 in itertools.product((False, True), repeat=n2):
                        ctx.case([unit, list(m1), list(m2)], join_case, m1, m2, unit[2], unit[3], ctx)
    elif op == "rows":
        for layout in ("offsets", "gaps", "reversed", "emptyfar"):
            for pick in range(5):
                ctx.case([unit, layout, pick], rows_case, unit[1], pick, unit[2], layout, ctx)
    elif op == "elements":
        counts, layout, q = unit[1:]
        for mask in itertools.product((False, True), repeat=sum(counts)):
            for enc in ("byteT", "byteF", "bitTl", "bitFm", "index:", "index:-7"):
                ctx.case([unit, list(mask), enc], elements_case, counts, mask, layout, enc, sum(mask) % 3, ctx)
    elif op == "table":
        for m1 in itertools.product((False, True), repeat=unit[1]):
            for m2 in itertools.product((False, True), repeat=unit[1]):
                ctx.case([unit, list(m1), list(m2)], table_case, m1, m2, unit[2], unit[3], ctx)
