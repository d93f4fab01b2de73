"""C27: results do not depend on how an array is represented."""
import itertools
import re

import numpy

from .. import forms, ops
from ..core import Violation
from ..obs import expect, norm, observe, physical, text

ID = "C27"
RULE = "an operation applied to two representations of the same value gives the same value (elements compared recursively, with their kinds: integer, floating point, boolean, text, missing, list, record); an array class that does not provide an operation refuses it, with an error in the fixed list REFUSALS"
ASSUMPTIONS = [
    "operations whose meaning is the representation are excluded: parents of stored elements, boolmask and isunmasked of sparse arrays and of masked arrays of masked arrays, regular() with a mask (missing elements become NaN, so it is floating point), flatten of a StringArray",
    "fillna casts the filling to the type it finds, so it isn't compared for booleans",
    "representations that don't provide an operation may refuse it, as listed in REFUSALS (by wrapper, operation and error); an operation that the plain representation refuses isn't compared",
    "numbers by themselves are compared with an IndexedArray for reductions, where Numpy has other rules (NaN, types of the results)",
]
BOUNDS = {
    "quick": "21 values (numbers, lists, lists of lists, records, missing elements, strings, nested into each other) x each of their parts in one of 10 wrapper classes, 7 list layouts, 3 table views or 2 Numpy strides x 137 operations; and two operations in a row for the representations of the whole array",
    "thorough": "two parts in other representations, or one part in two wrappers, x 137 operations; two operations in a row, the first of 12",
}

MASKS = ("masked", "maskedF", "bitmasked", "indexedmasked")
UNIONS = ("union", "union1")
ARITHMETIC = ["+1", "1-", "neg", "abs", "*self", ">2", "not", "and", "sqrt", "/2", "**2", "//2", "divmod", "%3", "isnan", "maximum", "+array", "array-", "+unwrapped", "unwrapped-", "sqrt of sum", "own jagged mask", "jagged mask", "masked in front"]
INDEXES = ("jagged mask", "own jagged mask", "jagged index", "argmax index", "argsort index")

REFUSALS = [
    # wrappers, operations, error
    (None, None, "NotImplementedError:"),
    (None, None, "AttributeError: no column named '(argsort|compact|parents|offsets|index|choose|argchoose|pairs|argpairs|distincts|argdistincts|cross|argcross|starts|stops|localindex)'"),
    (None, ("pad regular",), "AttributeError: 'numpy.ndarray' object has no attribute 'regular'"),
    (UNIONS, None, "TypeError: cannot reduce a UnionArray of non-primitive type"),
    (UNIONS, None, "TypeError: Union has no Numpy dtype"),
    (UNIONS, ("pad regular",), "ValueError: some UnionArray possibilities have different shapes"),
    (None, None, "ValueError: ChunkedArrays can only be combined if they have the same chunk sizes"),
    (("chunked",), ("cross", "argcross", "cross nested", "crossed", "cross unwrapped"), "ValueError: A ChunkedArray can only be crossed with a ChunkedArray if they have the same chunk sizes"),
    (("chunked",), ("argmax", ".argmax", ".argmin", "argmax index"), "ValueError: attempt to get arg(max|min) of an empty sequence"),   # all of one chunk missing
    (None, (".argmax", ".argmin", "argmax index"), "TypeError: cannot call reducer on ObjectArray"),
    (UNIONS, INDEXES, "TypeError: jagged index must be boolean"),
    (UNIONS, INDEXES, "IndexError: only integers, slices"),
    (MASKS, INDEXES, "IndexError: only integers, slices"),
    (MASKS, INDEXES, "TypeError: jagged index must be boolean"),
    (("sparse", "chunked", "bitmasked"), INDEXES, "TypeError: cannot interpret shape"),
    (MASKS, ("fillna", "pad fillna", "pad regular"), "ValueError: setting an array element with a sequence|TypeError: The DType <class 'numpy.dtype.void.'> could not be promoted"),   # of records
    (None, ("pad fillna", "pad regular"), "TypeError: to pad a StringArray"),
    (MASKS + UNIONS, ("cross", "argcross", "cross nested", "crossed", "cross unwrapped"), "TypeError: both arrays must be JaggedArrays"),
    (("chunked",), (".count", ".sum", ".prod", ".count_nonzero", ".mean", ".var", ".std", ".moment", ".min", ".max", ".any", ".all", "sum of sums"), "UFuncTypeError:|TypeError: ufunc 'bitwise_"),   # rows of nested records
]


def refused(plan, names, err):
    message = type(err).__name__ + ": " + str(err)
    wraps = [h for _, h in plan]
    if "concatenate unwrapped" in names or "sparse" in wraps:
        wraps.append("union")           # arrays of different classes become a UnionArray
    for wrappers, operations, error in REFUSALS:
        if (wrappers is None or any(h in wrappers for h in wraps)) and (operations is None or any(n in operations for n in names)) and re.match(error, message):
            return True
    return False


def meant(tree, plan, name):
    """False where the operation is about the representation, or where the value isn't all that matters"""
    wraps = [h for _, h in plan]
    if name in ("boolmask", "isunmasked"):
        return "sparse" not in wraps and not (tree.startswith("missing") and any(h in MASKS for h in wraps))
    if name == "parents" and any(h.startswith("layout") for h in wraps):
        return False
    if "fillna" in name or name == "pad regular":
        return "bool" not in tree and not (tree == "nolists" and "sparse" in wraps)
    if name == "regular" and any(h in MASKS for h in wraps):
        return False
    if name == "flatten" and tree == "strings":
        return False
    if "strings" in tree and (name in ARITHMETIC or name.startswith("pad")):
        return False
    if tree == "nolists" and wraps.count("chunked") == 2:
        return False                    # no chunks to know the type of
    if name == "regular" and "rows" in tree:
        return False                    # Numpy records have no columns
    return True


def single(tree):
    return [(p, how) for p, kind in ops.nodes(ops.TREES[tree]) for how in ops.options(kind)]


FIRST = ["[::-1]", "[take]", "[1::]", "[mask]", "+1", "in a table", "[:,::-1]", "masked in front", "['x']", "concatenate unwrapped", "copy", "[take none]"]
PAIRED = [n for i, n in enumerate(sorted(ops.OPS)) if n not in ("len", "shape", "tolist", "columns")]


def units(tier):
    for t in ops.TREES:
        yield ["one", t]
    for t in ops.TREES:
        for first in FIRST[:2] if tier == "quick" else FIRST:
            yield ["two", t, first, tier == "quick"]
    if tier == "thorough":
        for t in ops.TREES:
            for i in range(len(single(t))):
                yield ["pair", t, i]


def unit_of(case):
    return case[0]


def run_unit(unit, ctx):
    tree = unit[1]
    plans = [(x,) for x in single(tree)]
    if unit[0] == "one":
        for plan in plans:
            for name in ops.OPS:
                if meant(tree, plan, name):
                    ctx.case([unit, plan, name], case_of, tree, plan, [name], ctx)
    elif unit[0] == "two":
        for plan in plans:
            if (not unit[3] or plan[0][0] == ()) and meant(tree, plan, unit[2]):
                for name in ops.OPS:
                    if meant(tree, plan, name) and not (name == "sum of sums" and unit[2] in ("[take none]", "masked in front")):     # maybe no lists to know the depth or type of
                        ctx.case([unit, plan, name], case_of, tree, plan, [unit[2], name], ctx)
    elif unit[0] == "pair":
        for other in plans:
            plan = plans[unit[2]] + other
            if other[0][0] != plan[0][0] and plans.index(other) < unit[2]:
                continue                # the same in the other order
            for name in PAIRED:
                if meant(tree, plan, name):
                    ctx.case([unit, plan, name], case_of, tree, plan, [name], ctx)


def reducible(a, plan, names):
    if isinstance(a, numpy.ndarray) and names[-1] in ops.REDUCERS and any(p == () and h not in ("strided", "reversed") for p, h in plan):
        return ops.wrap("indexed", a)
    return a


def expected(tree, plan, names):
    t = ops.TREES[tree]
    arrays = [ops.make(t)]
    for name in names[:-1]:
        arrays.append(ops.OPS[name](arrays[-1], arrays[-1]))
    arrays[-1] = reducible(arrays[-1], plan, names)
    return arrays, norm(ops.OPS[names[-1]](arrays[-1], arrays[-1]))


def case_of(tree, plan, names, ctx):
    try:
        arrays, want = expected(tree, plan, names)
    except Exception:
        return
    a = ops.make(ops.TREES[tree], plan)
    ctx.state(physical(a))
    expect(norm(a), norm(ops.value(ops.TREES[tree])), "array")
    try:
        for r, name in zip(arrays, names):
            ctx.step()
            if r is arrays[-1]:
                a = reducible(a, plan, names)
            a = ops.OPS[name](a, r)
        got = norm(a)
    except Exception as err:
        if refused(plan, names, err):
            ctx.outcome("refused")
            return
        raise
    ctx.outcome(expect(got, want, names[-1]))
