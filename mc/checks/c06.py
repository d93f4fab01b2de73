"""C06: combinatorics."""
import itertools

import numpy

from awkward0 import JaggedArray, VirtualArray

from .. import forms
from ..core import Violation
from ..obs import expect, expect_error, norm, observe, physical

ID = "C06"
RULE = "every (row-count vector, layout, content kind), and every pair of vectors and layouts for cross, x every combinatoric function, nested and not, plain and arg-; an outcome is non-trivial when its canonical value is distinct"
ASSUMPTIONS = ["itertools is the reference for multiplicity; pairs, distincts and cross are in lexicographic order, choose in the order its docstring gives (combinations of the first elements precede later ones)"]
BOUNDS = {"quick": "rows<=3, row lengths<=2 and selected vectors up to 6, single rows up to 40; 11 layouts; 17 content kinds; choose up to 5; chains of three crosses",
          "thorough": "rows<=4, row lengths<=3, single rows up to 120; 11 layouts; 17 content kinds"}

KINDS = ("i8", "f8", "bool", "jag", "tab", "tabview", "str", "mask", "imask", "idx", "sparse", "chk", "uni", "obj", "vrt", "2d", "i4strided")
VECS = [[], [0], [2], [0, 0], [1, 2], [2, 2], [2, 0, 1], [0, 1, 0], [3, 1, 2], [4, 0, 3], [0, 6], [5, 0, 0], [1, 3, 5]]
FEW = ("offsets", "offjunk", "gaps", "reversed", "longstops", "emptyfar")


def units(tier):
    vecs = VECS if tier == "quick" else VECS + [v for v in forms.count_vectors(3, 3)] + [v for v in forms.count_vectors(4, 2) if len(v) == 4]
    for v in vecs:
        for layout in forms.LAYOUTS:
            for kind in KINDS:
                if layout in FEW or kind in ("i8", "tab", "mask"):
                    yield ["self", v, layout, kind]
    if tier == "quick":
        for v in forms.count_vectors(3, 2):
            if v not in VECS:
                for layout in forms.LAYOUTS:
                    yield ["self", v, layout, "i8"]
    for n in range(41 if tier == "quick" else 121):
        yield ["long", n]
    for l1 in forms.LAYOUTS:
        for l2 in forms.LAYOUTS:
            yield ["cross", l1, l2, tier]
    for l1 in FEW:
        yield ["chain", l1, tier]


def unit_of(case):
    return case[0]


def group(row, fn):
    """fn(i) = right partners of the i-th element"""
    return [[(row[i], row[j]) for j in fn(i)] for i in range(len(row))]


MODELS = {
    "pairs": lambda r: list(itertools.combinations_with_replacement(r, 2)),
    "distincts": lambda r: list(itertools.combinations(r, 2)),
}


def nested_model(name, r):
    n = len(r)
    if name == "pairs":
        return [[(r[i], r[j]) for j in range(i, n)] for i in range(n)]
    return [[(r[i], r[j]) for j in range(i + 1, n)] for i in range(n - 1)]


def choose(row, n):
    """combinations in the documented order: those of the first elements precede later ones"""
    return [tuple(row[i] for i in t) for t in sorted(itertools.combinations(range(len(row)), n), key=lambda t: t[::-1])]


def use_args(ctx, a, value, args, tuples, n):
    """the columns of an arg- result select the elements of the tuples"""
    for k in range(n):
        ctx.step()
        expect(observe(a[args[str(k)]], deep=False), [[t[k] for t in r] for r in tuples], "selecting with column %d" % k)


def self_case(v, layout, kind, ctx):
    a = forms.jagged(v, layout, kind)
    value = forms.jagged_value(v, kind)
    local = [list(range(c)) for c in v]
    before = physical(a)
    ctx.state(before)
    for name in ("pairs", "distincts"):
        ctx.step(4)
        plain = [MODELS[name](r) for r in value]
        ctx.outcome(expect(observe(getattr(a, name)()), plain, name))
        expect(observe(getattr(a, name)(nested=True)), [nested_model(name, r) for r in value], name + " nested")
        arg = getattr(a, "arg" + name)()
        expect(observe(arg), [MODELS[name](r) for r in local], "arg" + name)
        expect(observe(getattr(a, "arg" + name)(nested=True)), [nested_model(name, r) for r in local], "arg" + name + " nested")
        use_args(ctx, a, value, arg, plain, 2)
        got = getattr(a, name)()
        expect([int(x) for x in got.counts], [len(r) for r in plain], name + " counts")
        expect(observe(got.i0, deep=False), [[t[0] for t in r] for r in plain], name + " i0")
        expect(observe(got.i1, deep=False), [[t[1] for t in r] for r in plain], name + " i1")
        if len(v):
            expect(observe(got[::-1]), plain[::-1], name + " reversed")
            p = [int(x) for x in got.parents if x >= 0]
            expect(sorted(p), [i for i, r in enumerate(plain) for _ in r], name + " parents")
    for n in (2, 3, 4, 5):
        if n > 3 and kind not in ("i8", "tab"):
            continue
        ctx.step(2)
        plain = [choose(r, n) for r in value]
        ctx.outcome(expect(observe(a.choose(n)), plain, "choose(%d)" % n))
        arg = a.argchoose(n)
        expect(observe(arg), [choose(r, n) for r in local], "argchoose(%d)" % n)
        use_args(ctx, a, value, arg, plain, n)
    # on a selection of the array
    if kind in ("i8", "tab") and v:
        for b, w in ((a[::-1], value[::-1]), (a[1:], value[1:]), (a[:, ::-1], [r[::-1] for r in value]), (a[:, 1:], [r[1:] for r in value])):
            ctx.step(3)
            for name in ("pairs", "distincts"):
                expect(observe(getattr(b, name)()), [MODELS[name](r) for r in w], name + " of a selection")
            expect(observe(b.choose(3)), [choose(r, 3) for r in w], "choose(3) of a selection")
            expect(observe(b.cross(b)), [list(itertools.product(r, r)) for r in w], "cross of a selection with itself")
            if len(b) == len(a):
                expect(observe(a.cross(b)), [list(itertools.product(r, s)) for r, s in zip(value, w)], "cross with a selection")
    if physical(a) != before:
        raise Violation("a combinatoric function changed its operand", "operand changed")


def long_case(n, ctx):
    for v in ([n], [2, n, 1]):
        for layout in ("offsets", "gaps"):
            a = forms.jagged(v, layout, "i8")
            value = forms.jagged_value(v, "i8")
            local = [list(range(c)) for c in v]
            for name in ("pairs", "distincts"):
                ctx.step(4)
                expect(norm(getattr(a, name)()), [MODELS[name](r) for r in value], name)
                expect(norm(getattr(a, "arg" + name)()), [MODELS[name](r) for r in local], "arg" + name)
                expect(norm(getattr(a, name)(nested=True)), [nested_model(name, r) for r in value], name + " nested")
            for k in (2, 3, 4):
                if n**k < 60000:
                    ctx.step(2)
                    expect(norm(a.choose(k)), [choose(r, k) for r in value], "choose(%d)" % k)
                    expect(norm(a.argchoose(k)), [choose(r, k) for r in local], "argchoose(%d)" % k)


CROSS = [[], [0], [2], [0, 0], [1, 2], [2, 1], [2, 0, 1], [0, 1, 0], [3, 1, 2], [1, 1, 1]]
KPAIRS = [("i8", "i8"), ("i8", "tab"), ("tab", "i8"), ("jag", "mask"), ("obj", "idx"), ("chk", "uni"), ("str", "i8"), ("vrt", "sparse"), ("tabview", "f8"), ("2d", "i8")]


def cross_case(v1, k1, v2, k2, l1, l2, ctx):
    a, b = forms.jagged(v1, l1, k1), forms.jagged(v2, l2, k2)
    x, y = forms.jagged_value(v1, k1), forms.jagged_value(v2, k2)
    before = physical(a), physical(b)
    if len(v1) != len(v2):
        for name in ("cross", "argcross"):
            for nested in (False, True):
                ctx.step()
                expect_error(lambda: getattr(a, name)(b, nested=nested), name + " of different lengths")
        return
    plain = [list(itertools.product(p, q)) for p, q in zip(x, y)]
    lplain = [list(itertools.product(range(p), range(q))) for p, q in zip(v1, v2)]
    nest = [[[(s, t) for t in q] for s in p] for p, q in zip(x, y)]
    lnest = [[[(s, t) for t in range(q)] for s in range(p)] for p, q in zip(v1, v2)]
    ctx.step(4)
    got = a.cross(b)
    ctx.outcome(expect(observe(got), plain, "cross"))
    expect(observe(a.cross(b, nested=True)), nest, "cross nested")
    arg = a.argcross(b)
    expect(observe(arg), lplain, "argcross")
    expect(observe(a.argcross(b, nested=True)), lnest, "argcross nested")
    expect(observe(a[arg["0"]], deep=False), [[t[0] for t in r] for r in plain], "selecting with argcross, left")
    expect(observe(b[arg["1"]], deep=False), [[t[1] for t in r] for r in plain], "selecting with argcross, right")
    expect([int(c) for c in got.counts], [p * q for p, q in zip(v1, v2)], "counts of cross")
    if (k1, k2) == ("i8", "i8"):
        ctx.step(2)
        expect(observe(a.cross(VirtualArray(forms._produce, (b,)))), plain, "cross with a virtual array")
        expect(observe(got.i0 + got.i1), [[s + t for s, t in r] for r in plain], "i0 + i1 of cross")
    if (physical(a), physical(b)) != before:
        raise Violation("cross changed its operands", "operand changed")


def chain_case(v1, v2, v3, layout, ctx):
    arrays = [forms.jagged(v, layout, k) for v, k in ((v1, "i8"), (v2, "f8"), (v3, "i8"))]
    x, y, z = [forms.jagged_value(v, k) for v, k in ((v1, "i8"), (v2, "f8"), (v3, "i8"))]
    a, b, c = arrays
    ctx.step(8)
    ctx.outcome(expect(observe(a.cross(b).cross(c)), [list(itertools.product(p, q, r)) for p, q, r in zip(x, y, z)], "cross of three"))
    expect(observe(a.cross(b, nested=True).cross(c)), [[[(s, t, u) for t in q for u in r] for s in p] for p, q, r in zip(x, y, z)], "nested cross, cross")
    expect(observe(a.cross(b, nested=True).cross(c, nested=True)), [[[[(s, t, u) for u in r] for t in q] for s in p] for p, q, r in zip(x, y, z)], "nested cross, nested cross")
    expect(observe(a.cross(b).cross(c, nested=True)), [[[(s, t, u) for u in r] for s in p for t in q] for p, q, r in zip(x, y, z)], "cross, nested cross")
    expect(observe(a.argcross(b).argcross(c)), [list(itertools.product(range(p * q), range(r))) for p, q, r in zip(v1, v2, v3)], "argcross chained")
    expect(observe(a.pairs().cross(c)), [[(s, t, u) for s, t in itertools.combinations_with_replacement(p, 2) for u in r] for p, r in zip(x, z)], "pairs crossed")
    expect(observe(a.distincts().cross(c)), [[(s, t, u) for s, t in itertools.combinations(p, 2) for u in r] for p, r in zip(x, z)], "distincts crossed")
    expect(observe(a.cross(b).pairs()), [[s + t for s, t in itertools.combinations_with_replacement(list(itertools.product(p, q)), 2)] for p, q in zip(x, y)], "pairs of a cross")
    expect(observe(a.cross(b)[::-1].cross(c[::-1])), [list(itertools.product(p, q, r)) for p, q, r in zip(x, y, z)][::-1], "cross of selections")


def run_unit(unit, ctx):
    if unit[0] == "self":
        ctx.case([unit, "all"], self_case, unit[1], unit[2], unit[3], ctx)
    elif unit[0] == "long":
        ctx.case([unit, "all"], long_case, unit[1], ctx)
    elif unit[0] == "cross":
        for v1 in CROSS:
            for v2 in CROSS:
                for k1, k2 in KPAIRS if len(v1) == len(v2) else KPAIRS[:1]:
                    if (k1, k2) == ("i8", "i8") or (unit[1] in FEW and unit[2] in FEW and sum(v1) + sum(v2) < 6):
                        ctx.case([unit, [v1, k1, v2, k2]], cross_case, v1, k1, v2, k2, unit[1], unit[2], ctx)
    else:
        for v1, v2, v3 in itertools.product(CROSS + [[2, 3], [3, 0]], repeat=3):
            if len(v1) == len(v2) == len(v3):
                ctx.case([unit, [v1, v2, v3]], chain_case, v1, v2, v3, unit[1], ctx)
