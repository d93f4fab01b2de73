"""C29: the global switches."""
import contextlib
import itertools

import numpy

import awkward0
from awkward0 import (AppendableArray, BitMaskedArray, ChunkedArray, IndexedArray, IndexedMaskedArray, JaggedArray, MaskedArray, ObjectArray, SparseArray, StringArray, Table, UnionArray, VirtualArray)
from awkward0.array.base import AwkwardArray

from .. import ops
from ..core import Violation
from ..obs import expect, norm, physical, text

ID = "C29"
RULE = "each operation on each representation of each small array, and each assignment to each part of it that is valid, with every combination of the switches check_prop_valid and check_whole_valid off, with allow_tonumpy off and with allow_iter off, on all classes, on one class and on one array; an outcome is non-trivial when its canonical value is distinct"
ASSUMPTIONS = [
    "an operation that needs to convert or iterate may refuse when that is forbidden; conversions and iteration of the array that has the switch off must",
    "an operation that fails without its checks would have failed with them, or it isn't compared",
]
BOUNDS = {
    "quick": "12 arrays, one part in another representation, 137 operations, 5 settings of the switches on AwkwardArray; switches on one class and on one instance for 13 classes; 28 arrays, every property with the values of other arrays and 14 others assigned",
    "thorough": "the same with sequences of two operations",
}

CLASSES = [AwkwardArray, AppendableArray, BitMaskedArray, ChunkedArray, IndexedArray, IndexedMaskedArray, JaggedArray, MaskedArray, ObjectArray, SparseArray, StringArray, Table, UnionArray, VirtualArray]
SWITCHES = ("allow_tonumpy", "allow_iter", "check_prop_valid", "check_whole_valid")


@contextlib.contextmanager
def switched(target, names):
    had = dict((n, target.__dict__[n]) for n in names if n in target.__dict__)
    for n in names:
        setattr(target, n, False)
    try:
        yield
    finally:
        for n in names:
            if n in had:
                setattr(target, n, had[n])
            else:
                delattr(target, n)


CHECKS = [("check_prop_valid",), ("check_whole_valid",), ("check_prop_valid", "check_whole_valid")]
ALLOWS = [("allow_tonumpy",), ("allow_iter",)]


def units(tier):
    for t in ops.TREES:
        for s in CHECKS + ALLOWS:
            yield ["operations", t, s, tier == "thorough"]
    for k in range(len(CLASSES)):
        yield ["scope", k]
    for n in range(len(EXAMPLES)):
        yield ["assign", n]


def unit_of(case):
    return case[0]


FIRST = ["[::-1]", "[take]", "[mask]", "+1", "in a table", "copy"]


def run_unit(unit, ctx):
    if unit[0] == "operations":
        _, tree, names, deep = unit
        for plan in [()] + [((p, how),) for p, kind in ops.nodes(ops.TREES[tree]) for how in ops.options(kind)]:
            for name in ops.OPS:
                ctx.case([unit, plan, [name]], operation, tree, plan, [name], tuple(names), ctx)
                if deep:
                    for first in FIRST:
                        ctx.case([unit, plan, [first, name]], operation, tree, plan, [first, name], tuple(names), ctx)
    elif unit[0] == "assign":
        cls = type(EXAMPLES[unit[1]]())
        for p in assignable(cls):
            for k in range(len(OTHERS)):
                for names in CHECKS:
                    ctx.case([unit, p, "other", k, names], assign, unit[1], p, OTHERS[k], names, ctx)
            for m in range(len(EXAMPLES)):
                if type(EXAMPLES[m]()) is cls:
                    for names in CHECKS:
                        ctx.case([unit, p, "as in", m, names], assign, unit[1], p, (m,), names, ctx)
    else:
        for name in SWITCHES[:2]:
            for n in range(len(EXAMPLES)):
                ctx.case([unit, name, n], scope, unit[1], name, n, ctx)


def apply(a, r, names):
    for name in names:
        a = ops.OPS[name](a, r)
        r = a
    return a


def operation(tree, plan, names, off, ctx):
    t = ops.TREES[tree]
    a = ops.make(t, plan)
    r = ops.make(t)
    try:
        want = norm(apply(a, r, names))
    except Exception:
        return
    ctx.state(physical(a) + text(names))
    ctx.step()
    with switched(AwkwardArray, off):
        b, s = ops.make(t, plan), ops.make(t)
        try:
            got = apply(b, s, names)
        except RuntimeError as err:
            if off in ALLOWS and "refusing to" in str(err):
                ctx.outcome("refused")
                return
            raise
    ctx.outcome(expect(norm(got), want, text(names)))
    expect(norm(b), norm(ops.value(t)), "the array afterwards")


# ---------------------------------------------------------------- what a switch applies to
EXAMPLES = [
    lambda: AppendableArray(3, numpy.dtype("i8"), [numpy.array([1, 2, 3])]),
    lambda: BitMaskedArray.fromboolmask([False, True, False], numpy.array([1, 2, 3])),
    lambda: BitMaskedArray.fromboolmask([False, False], numpy.array([1, 2])),
    lambda: ChunkedArray([numpy.array([1, 2]), numpy.array([3])]),
    lambda: ChunkedArray([JaggedArray.fromcounts([2, 0], numpy.array([1, 2])), JaggedArray.fromcounts([1], numpy.array([3]))]),
    lambda: ChunkedArray([numpy.array([1, 2]), numpy.array([3, 4, 5, 6, 7, 8])], chunksizes=[2, 6]),
    lambda: IndexedArray([2, 0], numpy.array([1, 2, 3])),
    lambda: IndexedArray([2, 0], JaggedArray.fromcounts([2, 0, 1], numpy.array([1, 2, 3]))),
    lambda: IndexedMaskedArray([2, -1, 0], numpy.array([1, 2, 3])),
    lambda: JaggedArray.fromcounts([2, 0, 1], numpy.array([1, 2, 3])),
    lambda: JaggedArray.fromcounts([2, 0, 1, 0, 0, 1, 2, 1], numpy.arange(7)),
    lambda: JaggedArray.fromcounts([2, 1], JaggedArray.fromcounts([2, 0, 1], numpy.array([1, 2, 3]))),
    lambda: JaggedArray([[0, 2], [1, 0]], [[2, 3], [1, 1]], numpy.array([1, 2, 3])),
    lambda: MaskedArray([False, True, False], numpy.array([1, 2, 3])),
    lambda: MaskedArray([True] + [False] * 8, numpy.arange(9)),
    lambda: ObjectArray(numpy.array([1, 2, 3]), str),
    lambda: ObjectArray(JaggedArray.fromcounts([2, 0, 1], numpy.array([1, 2, 3])), len),
    lambda: ObjectArray(Table(x=numpy.array([1, 2, 3])), str),
    lambda: SparseArray(4, [1, 3], numpy.array([1.5, 2.5])),
    lambda: StringArray.fromiter(["a", "", "bc"]),
    lambda: StringArray.fromiter(["a", "", "bc", "d", "", "e", "ff"]),
    lambda: Table(x=numpy.array([1, 2, 3])),
    lambda: Table(x=JaggedArray.fromcounts([2, 0, 1, 0, 0, 1, 2, 1], numpy.arange(7)), y=StringArray.fromiter("abcdefgh")),
    lambda: UnionArray.fromtags([0, 1, 0], [numpy.array([1, 2]), numpy.array([1.5])]),
    lambda: UnionArray.fromtags([0, 1, 0, 1, 1, 1, 0], [JaggedArray.fromcounts([2, 0, 1], numpy.array([1, 2, 3])), StringArray.fromiter("abcd")]),
    lambda: VirtualArray(ops.produce, (numpy.array([1, 2, 3]),)),
    lambda: VirtualArray(ops.produce, (JaggedArray.fromcounts([2, 0, 1], numpy.array([1, 2, 3])),)),
    lambda: VirtualArray(ops.produce, (StringArray.fromiter(["a", "", "bc"]),)),
]
ITERATIONS = [("list", lambda a: list(a)), ("for", lambda a: [x for x in a]), ("tolist", lambda a: a.tolist()), ("next", lambda a: next(iter(a)))]
CONVERSIONS = [("array", lambda a: numpy.array(a)), ("asarray", lambda a: numpy.asarray(a)), ("with dtype", lambda a: numpy.array(a, dtype=object))]
PRINTING = [("str", str), ("repr", lambda a: repr(a).rsplit(" at 0x", 1)[0])]


def uses(name):
    return ITERATIONS if name == "allow_iter" else CONVERSIONS


def refusal(err):
    return isinstance(err, RuntimeError) and "refusing to" in str(err)


def forbidden(fn):
    try:
        out = fn()
    except Exception as err:
        if refusal(err):
            return
        raise
    raise Violation("not refused, gives " + text(norm(out)), "not refused")


def outcome(fn):
    try:
        return text(norm(fn()))
    except Exception as err:
        if refusal(err):
            raise
        return "fails"


def inside(x, target):
    if isinstance(x, target):
        return True
    if isinstance(x, AwkwardArray):
        return any(inside(y, target) for y in list(x.__dict__.values()))
    if isinstance(x, dict):
        return any(inside(y, target) for y in x.values())
    if isinstance(x, (list, tuple)):
        return any(inside(y, target) for y in x)
    return False


def scope(k, name, n, ctx):
    a, b = EXAMPLES[n](), EXAMPLES[n]()
    want = dict((use, outcome(lambda: fn(a))) for use, fn in uses(name) + PRINTING)
    target = CLASSES[k]

    def all_of(a, off, partly):
        for use, fn in PRINTING:         # always allowed
            ctx.step()
            expect(outcome(lambda: fn(a)), want[use], use)
        for use, fn in uses(name):
            ctx.step()
            if off:
                forbidden(lambda: fn(a))
                ctx.outcome("refused")
                continue
            try:
                got = outcome(lambda: fn(a))
            except RuntimeError:
                if partly:
                    ctx.outcome("refused")
                    continue
                raise
            ctx.outcome(expect(got, want[use], use))

    ctx.state(physical(a) + target.__name__ + name)
    with switched(target, [name]):
        off = isinstance(a, target)
        all_of(a, off, inside(a, target))
        all_of(EXAMPLES[n](), off, inside(a, target))
    all_of(a, False, False)
    if k == 0:
        a, b = EXAMPLES[n](), EXAMPLES[n]()
        with switched(a, [name]):
            all_of(a, True, True)
            all_of(b, False, False)
        all_of(a, False, False)


# ---------------------------------------------------------------- assignments without the checks
OTHERS = [None, True, False, 0, 1, 2, 4, 100, "name", 1.5, b"x", "list", "array", "tuple"]


def assignable(cls):
    return sorted(n for n in dir(cls) if isinstance(getattr(cls, n, None), property) and getattr(cls, n).fset is not None)


def state_of(a, p):
    def one(fn):
        try:
            return text(norm(fn()))
        except Exception as err:
            return "fails"

    out = {"value": one(lambda: a), "length": one(lambda: len(a)), "first": one(lambda: a[:1])}
    for q in assignable(type(a)):
        if not q.startswith("_"):
            out[q] = one(lambda: shown(getattr(a, q)))
    return out


def shown(x):
    if callable(x) and not isinstance(x, AwkwardArray):
        return getattr(x, "__qualname__", type(x).__name__)
    return repr(x) if isinstance(x, numpy.dtype) else [type(x).__name__ if x is None or isinstance(x, (bool, str, bytes)) else "", x]


def assign(n, p, value, names, ctx):
    def run():
        a = EXAMPLES[n]()
        v = getattr(EXAMPLES[value[0]](), p) if isinstance(value, tuple) else value
        if v in ("list", "array", "tuple") if isinstance(v, str) else False:
            now = getattr(a, p)
            v = now.tolist() if v == "list" else numpy.array(now) if v == "array" else tuple(now)
        setattr(a, p, v)
        return a

    try:
        a = run()
        norm(a)
        if len(a):
            a[-1]
    except Exception:
        ctx.outcome("not valid")
        return
    want = state_of(a, p)
    ctx.state(text([n, p, want]))
    ctx.step()
    with switched(AwkwardArray, names):
        b = run()
        got = state_of(b, p)
    ctx.outcome(expect(got, want, p))
