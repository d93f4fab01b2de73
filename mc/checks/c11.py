"""C11: a chunked array behaves as the concatenation of its chunks."""
import itertools
import operator

import numpy

from awkward0 import ChunkedArray, JaggedArray, VirtualArray
from awkward0.array.base import AwkwardArray

from .. import forms, model
from ..core import Violation
from ..forms import KINDS
from ..obs import expect, expect_error, norm, observe, physical, text
from . import c04, c05

ID = "C11"
RULE = "every way of cutting arrays up to the bound into chunks (empty chunks included), with chunk sizes declared or discovered, x every kind of content x every selection of an alphabet, chains of two selections, operators, reducers and structural operations; pairs of cuts for binary operations; an outcome is non-trivial when its canonical value is distinct"
ASSUMPTIONS = ["operands with different chunk sizes may be refused; if they are not, the result has to be right",
               "flatten of an array that is not jagged is not asked of chunks that have no lists"]
BOUNDS = {"quick": "up to 4 elements in up to 4 chunks for every selection and content kind, 6 elements in up to 4 chunks for a set of selections; 18 content kinds",
          "thorough": "up to 5 elements in up to 5 chunks for every selection, 7 elements for a set of selections; 18 content kinds"}

CONTENTS = ("i8", "f8", "bool", "2d", "i4strided", "jag", "jagc", "tab", "tabview", "str", "mask", "imask", "idx", "sparse", "uni", "obj", "vrt", "chk")
SIZES = ("declared", "discovered", "partly")


def cuts(n, most):
    """every sequence of chunk sizes with sum n"""
    def rec(left, k):
        if k == 1:
            yield [left]
            return
        for a in range(left + 1):
            for rest in rec(left - a, k - 1):
                yield [a] + rest
    if n == 0:
        yield []
    for k in range(1, most + 1):
        for c in rec(n, k):
            yield c


def build(sizes, kind, how="discovered", roll=0):
    ids = list(range(roll, roll + sum(sizes)))
    chunks, at = [], 0
    for s in sizes:
        chunks.append(KINDS[kind].build(ids[at:at + s]))
        at += s
    if how == "declared":
        return ChunkedArray(chunks, list(sizes))
    if how == "partly":
        return ChunkedArray(chunks, list(sizes)[:(len(sizes) + 1) // 2])
    return ChunkedArray(chunks)


def value(sizes, kind, roll=0):
    return [KINDS[kind].value(i) for i in range(roll, roll + sum(sizes))]


def one(a, v, where, ctx, chain=(), columns=()):
    ctx.step()
    what = str(where)
    try:
        want = model.select(v, where)
    except model.ModelError:
        expect_error(lambda: observe(a[model.real(where)]), what)
        return
    got = a[model.real(where)]
    ctx.outcome(expect(observe(got, deep=False), want, what))
    if isinstance(want, list) and where[0] != "tuple":
        if len(got) != len(want):
            raise Violation("%s has len() %d, expected %d" % (what, len(got), len(want)))
        for then in chain(len(want)) if callable(chain) else chain:
            ctx.step()
            try:
                want2 = model.select(want, then)
            except model.ModelError:
                expect_error(lambda: observe(got[model.real(then)]), "%s then %s" % (what, then))
                continue
            expect(observe(got[model.real(then)], deep=False), want2, "%s then %s" % (what, then))


def fewer(n):
    ops = [w for w in alphabet(n, False) if w[0] != "slice"]
    return ops + [("slice", a, b, c) for a in (None, 1, n - 1, -1, -n - 1) for b in (None, 1, n - 1, -2, n + 1) for c in (None, 2, -1, -2)]


def alphabet(n, every):
    ops = [("int", i) for i in range(-n - 2, n + 2)]
    if every:
        ops += list(model.slices(n, (None, 2, 3, -1, -2)))
        ops += list(model.masks(n)) + list(model.takes(n, 2))
    else:
        ops += [("slice", a, b, c) for a in (None, 0, 1, 2, n - 1, n + 1, -1, -2, -n - 1) for b in (None, 0, 1, n - 1, n + 1, -1, -2, -n - 1) for c in (None, 2, 3, -1, -2, -3)]
        ops += [("mask", [i % 2 == 0 for i in range(n)]), ("mask", [i % 3 != 0 for i in range(n)]), ("mask", [False] * n), ("mask", [i == n - 1 for i in range(n)])]
    ops += [("mask", [True] * (n + 1)), ("mask", [True] * max(n - 1, 0)) if n != 1 else ("take", []), ("take", list(range(n)) * 2), ("take", list(range(n))), ("take", list(range(n))[::-1]), ("take", list(range(-n, 0))), ("take", [n - 1, 0, 0, n - 1] if n else []), ("take", [n]), ("take", [-n - 1]), ("take", [])]
    return ops


def chains(m):
    return [("slice", None, None, -1), ("slice", 1, -1, None), ("mask", [i % 2 == 1 for i in range(m)]), ("take", list(range(-m, 0))[::-1]), ("int", -1), ("slice", None, None, 2)]


def select_case(sizes, kind, how, every, ctx):
    v = value(sizes, kind)
    n = len(v)
    for k, where in enumerate(alphabet(n, every)):
        a = build(sizes, kind, how) if k % 7 == 0 or how != "declared" else a
        one(a, v, where, ctx, chains if where[0] != "int" and (k % 3 == 0 or not every) else ())
    a = build(sizes, kind, how)
    ctx.state(physical(a))
    expect(observe(a), v, "array")
    expect(len(a), n, "len")
    if n:
        expect(observe(a.copy()), v, "copy")
        expect(observe(a.deepcopy()), v, "deepcopy")


def tuples(n, kind):
    heads = [("slice", None, None, None), ("slice", None, None, -1), ("slice", 1, None, 2), ("mask", [i % 2 == 0 for i in range(n)]), ("mask", [False] * n), ("take", list(range(n))[::-1]), ("take", list(range(n))), ("take", []), ("take", [n - 1, 0, n - 1] if n else []), ("int", 0), ("int", -1)]
    tails = [("slice", None, None, -1), ("slice", 1, None, None), ("slice", None, 1, None), ("int", 0), ("int", -1), ("take", [0]), ("take", [0, 0]), ("mask", [True, False])]
    for h in heads if n or kind != "2d" else heads[:2]:
        for t in tails:
            if kind == "2d" and h[0] == "int" or t[0] in ("int", "slice") or h[0] == "slice" and t[0] != "mask" or kind == "2d" and h[0] == "slice":
                yield ("tuple", [h, t])


def kind_case(sizes, kind, how, ctx):
    selections(build(sizes, kind, how), value(sizes, kind), kind, ctx, bool(sizes))


def selections(a, v, kind, ctx, sizes=True):
    """every selection of the small alphabet, chains, tuples and columns of an array standing for v"""
    n = len(v)
    before = physical(a)
    ctx.state(before)
    for k, where in enumerate(fewer(n)):
        one(a, v, where, ctx, chains if where[0] != "int" and k % 2 == 0 else ())
    if kind in ("jag", "jagc", "2d"):
        for where in tuples(n, kind):
            one(a, v, where, ctx)
    if kind in ("tab", "tabview") and sizes:
        expect(a.columns, ["x", "y"], "columns")
        for name in ("x", "y"):
            col = [r[name] for r in v]
            for what, got, want in (("column", lambda: a[name], col), ("column of reversed", lambda: a[::-1][name], col[::-1]), ("reversed column", lambda: a[name][::-1], col[::-1]), ("attribute", lambda: getattr(a, name), col), ("column of a selection", lambda: a[numpy.arange(n)[::-1]][name], col[::-1]), ("column of masked", lambda: a[numpy.arange(n) % 2 == 0][name], col[::2])):
                ctx.step()
                ctx.outcome(expect(observe(got(), deep=False), want, what))
        expect(observe(a[["y"]]), [{"y": r["y"]} for r in v], "columns")
    if physical(a) != before:
        raise Violation("the array changed", "operand changed")


def check(ctx, got, want, what):
    ctx.step()
    ctx.outcome(expect(observe(got, deep=False) if isinstance(got, (AwkwardArray, numpy.ndarray)) else norm(got), want, what))


def ops_case(sizes, kind, how, ctx):
    battery(lambda: build(sizes, kind, how), value(sizes, kind), kind, ctx, bool(sizes))


def battery(fresh, v, kind, ctx, alive=True, strict=True):
    """operators, reducers and structural operations of an array standing for v (elements of the given kind)

    alive: there is some content to tell the type
    """
    sizes = alive
    a = fresh()
    n = len(v)
    before = physical(a)
    ctx.state(before)
    numeric = kind in c04.NUMERIC
    table = kind in ("tab", "tabview")
    with numpy.errstate(all="ignore"):
        if numeric or kind in ("bool", "2d"):
            check(ctx, fresh() * 2, c04.apply(operator.mul, v, 2), "* 2")
            check(ctx, 1.5 - fresh(), c04.apply(operator.sub, 1.5, v), "1.5 -")
            check(ctx, fresh() + fresh(), c04.apply(operator.add, v, v), "a + a")
            check(ctx, fresh() + numpy.array(3), c04.apply(operator.add, v, 3), "+ array(3)")
            if not table:
                check(ctx, fresh() == fresh(), c04.apply(operator.eq, v, v), "a == a")
                check(ctx, numpy.maximum(fresh(), 101), c04.apply(numpy.maximum, v, 101), "maximum")
            if kind != "2d":
                per = list(range(5, 5 + n))
                check(ctx, fresh() + numpy.array(per, dtype=int), c04.apply(operator.add, v, per), "+ one per element")
                check(ctx, numpy.array(per, dtype=int) - fresh(), c04.apply(operator.sub, per, v), "one per element -") if kind != "bool" else None
                if n:
                    check(ctx, fresh() + per, c04.apply(operator.add, v, per), "+ list")
                for bad in (n + 1, n - 1, n + 2, 2 * n):
                    if bad > 1 and bad != n and (strict or n > 1):     # a single element may be broadcast
                        ctx.step(2)
                        expect_error(lambda: observe(fresh() + numpy.arange(bad)), "operand of length %d" % bad)
                        expect_error(lambda: observe(numpy.arange(bad) + fresh()), "operand of length %d" % bad)
        if kind not in ("str", "obj", "uni", "chk", "2d"):
            if n:
                for name in c05.REDUCERS:
                    want = whole(v, name, kind)
                    ctx.step()
                    got = getattr(fresh(), name)()
                    ctx.outcome(c05.agree(observe(got, deep=False) if isinstance(got, (AwkwardArray, numpy.ndarray)) else norm(got), want, name, name not in ("mean", "var", "std")))
            elif sizes:
                for name in c05.REDUCERS:
                    want = [] if kind in ("jag", "jagc", "2d") else {"x": c05.reduce([], name, "i8"), "y": c05.reduce([], name, "f8")} if table else c05.reduce([], name, c05.kind_dtype(kind))
                    ctx.step()
                    got = getattr(fresh(), name)()
                    c05.agree(norm(got), want, name + " of nothing", name not in ("mean", "var", "std"))
    if sizes and kind in ("jag", "jagc"):
        check(ctx, fresh().counts, [len(x) for x in v], "counts")
        check(ctx, fresh().flatten(), [y for x in v for y in x], "flatten")
        check(ctx, fresh().pad(2), [x + [None] * (2 - len(x)) for x in v], "pad")
        check(ctx, fresh().pad(1, clip=True), [(x + [None])[:1] for x in v], "pad clip")
        check(ctx, fresh().pad(2).fillna(-1), [x + [-1] * (2 - len(x)) for x in v], "pad fillna")
        check(ctx, fresh().pad(2, clip=True).fillna(-1).regular(), [(x + [-1] * 2)[:2] for x in v], "pad, fillna, regular")
        check(ctx, fresh().argmin(), [[0] if x else [] for x in v], "argmin")
        check(ctx, fresh().argmax(), [[len(x) - 1] if x else [] for x in v], "argmax")
        check(ctx, fresh().pairs(), [list(itertools.combinations_with_replacement(x, 2)) for x in v], "pairs")
        check(ctx, fresh().distincts(), [list(itertools.combinations(x, 2)) for x in v], "distincts")
        check(ctx, fresh().argpairs(), [list(itertools.combinations_with_replacement(range(len(x)), 2)) for x in v], "argpairs")
        check(ctx, fresh().choose(2), [list(itertools.combinations(x, 2)) for x in v], "choose")
        check(ctx, fresh().cross(fresh()), [list(itertools.product(x, x)) for x in v], "cross")
        check(ctx, fresh().argcross(fresh()), [list(itertools.product(range(len(x)), repeat=2)) for x in v], "argcross")
        check(ctx, fresh()[fresh() > 15], [[y for y in x if y > 15] for x in v], "jagged mask")
        check(ctx, fresh()[fresh().argmax()], [x[-1:] for x in v], "a[argmax]")
        check(ctx, fresh().cross(fresh()).i0, [[y for y in x for _ in x] for x in v], "cross.i0")
    if sizes and kind == "2d":
        check(ctx, fresh().counts, [2] * n, "counts")
        check(ctx, fresh().flatten(), [y for x in v for y in x], "flatten")
        check(ctx, fresh().regular(), v, "regular")
    if sizes and kind in ("i8", "f8", "tab"):
        check(ctx, fresh().counts, [-1] * n, "counts")
    if sizes and kind not in ("uni", "sparse"):
        check(ctx, fresh().ismasked, [x is None for x in v], "ismasked")
        check(ctx, fresh().isunmasked, [x is not None for x in v], "isunmasked")
    if kind in ("i8", "bool", "f8", "i4strided", "imask", "mask") and sizes:
        check(ctx, fresh().fillna(7), [(7.0 if kind == "f8" else 7) if x is None or x != x else x for x in v], "fillna")
    if kind in ("i8", "i4strided") and n:
        check(ctx, fresh().argmin(), 0, "argmin")
        check(ctx, fresh().argmax(), n - 1, "argmax")
    if kind in ("i8", "f8", "bool", "i4strided"):
        check(ctx, numpy.array(fresh()), [float(x) for x in v] if not n else v, "as a Numpy array")
        check(ctx, fresh().astype(complex), [complex(x) for x in v] if kind != "f8" or n < 3 else None, "astype") if kind != "f8" else None
    if kind != "sparse" or strict:
        check(ctx, fresh().concatenate([fresh()]), v + v, "concatenate")
    if sizes:
        check(ctx, fresh().zeros_like(), zeros(v, kind), "zeros_like") if kind in ("i8", "bool", "jag") else None
    if physical(a) != before:
        raise Violation("the array changed", "operand changed")


def zeros(v, kind):
    return [[0] * len(x) if isinstance(x, list) else False if kind == "bool" else 0 for x in v]


def whole(v, name, kind):
    if kind in ("jag", "jagc", "2d"):
        return [c05.reduce(x, name, "i8") for x in v] if kind != "2d" else c05.deep(v, name, "i8")
    if kind in ("tab", "tabview"):
        return {"x": c05.reduce([r["x"] for r in v], name, "i8"), "y": c05.reduce([r["y"] for r in v], name, "f8")}
    return c05.reduce(v, name, c05.kind_dtype(kind))


def position_case(sizes, how, ctx):
    """global and local positions"""
    n = sum(sizes)
    starts = [0] + list(itertools.accumulate(sizes))
    where = [(c, i) for c, s in enumerate(sizes) for i in range(s)]
    v = value(sizes, "i8")
    for g in range(-n - 2, n + 2):
        ctx.step()
        a = build(sizes, "i8", how)
        if not -n <= g < n:
            expect_error(lambda: a.global2chunkid(g), "global2chunkid(%d)" % g)
            expect_error(lambda: a.global2local(g), "global2local(%d)" % g)
            continue
        expect(norm(a.global2chunkid(g)), where[g][0], "global2chunkid(%d)" % g)
        chunk, local = a.global2local(g)
        expect([norm(chunk[local]), norm(local)], [v[g], where[g][1]], "global2local(%d)" % g)
    for c, s in enumerate(sizes):
        for i in range(-s - 2, s + 2):
            ctx.step()
            a = build(sizes, "i8", how)
            if not -s <= i < s:
                expect_error(lambda: a.local2global(i, c), "local2global(%d, %d)" % (i, c))
            else:
                expect(norm(a.local2global(i, c)), starts[c] + i % s, "local2global(%d, %d)" % (i, c))
    for take in list(model.takes(n, 2)) + [("take", list(range(n))), ("take", list(range(-n, 0))[::-1])]:
        ctx.step()
        index = numpy.array(take[1], dtype=numpy.int64)
        keep = index.copy()
        a = build(sizes, "i8", how)
        if any(not -n <= g < n for g in take[1]):
            expect_error(lambda: a.global2chunkid(index), "global2chunkid(%s)" % take[1])
            continue
        expect(norm(a.global2chunkid(index)), [where[g][0] for g in take[1]], "global2chunkid(%s)" % take[1])
        chunks, locals_ = a.global2local(index)
        expect([norm(c[l]) for c, l in zip(chunks, locals_)], [v[g] for g in take[1]], "global2local(%s)" % take[1])
        expect(norm(index), norm(keep), "the index given to global2local")
        cid, loc = numpy.array([where[g][0] for g in take[1]], dtype=int), numpy.array([where[g][1] for g in take[1]], dtype=int)
        if take[1]:
            expect(norm(build(sizes, "i8", how).local2global(loc, cid)), [g % n for g in take[1]], "local2global(%s, %s)" % (loc, cid))
            neg = loc - numpy.array(sizes)[cid]
            keep = neg.copy()
            expect(norm(build(sizes, "i8", how).local2global(neg, cid)), [g % n for g in take[1]], "local2global(%s, %s)" % (neg, cid))
            expect(norm(neg), norm(keep), "the index given to local2global")
            for bad in (loc + numpy.array(sizes)[cid], neg - numpy.array(sizes)[cid]):
                expect_error(lambda: build(sizes, "i8", how).local2global(bad, cid), "local2global(%s, %s)" % (bad, cid))


def pair_case(s1, s2, kind, ctx):
    a, b = build(s1, kind), build(s2, kind, roll=3)
    va, vb = value(s1, kind), value(s2, kind, 3)
    ctx.state(physical(a) + physical(b))
    ctx.step(3)
    for what, fn, want in (("a - b", lambda: a - b, lambda: c04.apply(operator.sub, va, vb)), ("b >= a", lambda: b >= a, lambda: c04.apply(operator.ge, vb, va))):
        try:
            w = want()
        except c04.Mismatch:
            expect_error(lambda: observe(fn()), what)
            continue
        try:
            got = fn()
        except (ValueError, NotImplementedError):
            if s1 == s2:
                raise
            continue
        ctx.outcome(expect(observe(got), w, what))
    if kind == "i8" and len(va) == len(vb):
        m = [x % 2 == 0 for x in va]
        mask = ChunkedArray([numpy.array(m[o:o + s], dtype=bool) for o, s in zip([0] + list(itertools.accumulate(s1)), s1)])
        try:
            got = b[mask]
        except (ValueError, NotImplementedError):
            if s1 == s2:
                raise
        else:
            expect(observe(got), [x for x, k in zip(vb, m) if k], "chunked mask")
    ctx.outcome(expect(observe(a.concatenate([b])), va + vb, "concatenate"))
    ctx.outcome(expect(observe(a.concatenate([b])[::-1]), (va + vb)[::-1], "concatenate, reversed"))


def mixed_case(sizes, other, ctx):
    """a chunked array together with other kinds of arrays"""
    n = sum(sizes)
    a, v = build(sizes, "i8"), value(sizes, "i8")
    b, w = KINDS[other].build(list(range(n))), [KINDS[other].value(i) for i in range(n)]
    ctx.step(4)
    with numpy.errstate(all="ignore"):
        if other in ("jag", "jagc") and not sizes:
            return
        check(ctx, a + b, c04.apply(operator.add, v, w), "chunked + " + other)
        check(ctx, b + a, c04.apply(operator.add, w, v), other + " + chunked")
    if other in ("jag", "jagc"):
        c, x = build(sizes, other), value(sizes, other)
        check(ctx, c + b, c04.apply(operator.add, x, w), "chunked lists + lists")
        check(ctx, b - c, c04.apply(operator.sub, w, x), "lists - chunked lists")
        check(ctx, c * a, c04.apply(operator.mul, x, v), "chunked lists * chunked")
        check(ctx, a * c, c04.apply(operator.mul, v, x), "chunked * chunked lists")


def units(tier):
    q = tier == "quick"
    small, most = (4, 4) if q else (5, 5)
    for n in range(small + 1):
        for sizes in cuts(n, most):
            for how in SIZES:
                yield ["select", sizes, "i8", how, n < 4 or not q]
                yield ["position", sizes, how]
    for sizes in cuts(6 if q else 7, 4):
        yield ["select", sizes, "i8", "discovered", False]
    for n in range(small + 1):
        for sizes in cuts(n, 3 if q else 4):
            for kind in CONTENTS:
                yield ["kind", sizes, kind, SIZES[(n + len(sizes)) % 3]]
                yield ["ops", sizes, kind, SIZES[(n + len(sizes) + 1) % 3]]
    for n in range(4 if q else 5):
        for s1 in cuts(n, 3):
            for kind in ("i8", "f8", "jag", "mask"):
                yield ["pair", s1, kind, n]
            for other in ("i8", "mask", "imask", "idx", "sparse", "jag", "jagc", "vrt"):
                yield ["mixed", s1, other]


def unit_of(case):
    return case[0]


def run_unit(unit, ctx):
    op = unit[0]
    if op == "select":
        ctx.case([unit], select_case, unit[1], unit[2], unit[3], unit[4], ctx)
    elif op == "position":
        ctx.case([unit], position_case, unit[1], unit[2], ctx)
    elif op == "kind":
        ctx.case([unit], kind_case, unit[1], unit[2], unit[3], ctx)
    elif op == "ops":
        ctx.case([unit], ops_case, unit[1], unit[2], unit[3], ctx)
    elif op == "pair":
        for s2 in itertools.chain(cuts(unit[3], 3), cuts(unit[3] + 1, 2)):
            ctx.case([unit, s2], pair_case, unit[1], s2, unit[2], ctx)
    elif op == "mixed":
        ctx.case([unit], mixed_case, unit[1], unit[2], ctx)
