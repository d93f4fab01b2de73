"""C01: selections from jagged arrays."""
import itertools

import numpy

from .. import forms, model
from ..core import Violation
from ..obs import expect, expect_error, norm, observe, physical, text

ID = "C01"
RULE = "every (row-count vector, physical layout, content kind) within the bound x every selection of the alphabet, then every selection again from each new array reached; an outcome is non-trivial when its canonical value is distinct"
ASSUMPTIONS = ["reference model: Python list indexing; multidimensional selections follow Numpy's rules applied row by row"]
BOUNDS = {
    "quick": "rows<=3, row lengths<=2 (and selected vectors with length 3), 11 layouts (6 for all 22 content kinds, the others for numbers and lists); 2 chained selections",
    "thorough": "rows<=4, row lengths<=3, 11 layouts x 22 content kinds; 3 chained selections",
}

SMALL = [[], [0], [2], [0, 0], [1, 2], [2, 0, 1], [3, 1, 2], [0, 2, 0, 1]]


def units(tier):
    if tier == "quick":
        for counts in SMALL:
            for layout in forms.LAYOUTS:
                for kind in forms.KINDS:
                    if kind in ("i8", "jag") or layout not in ("u1", "u8", "strided", "copied", "shared", "bigend"):
                        yield [counts, layout, kind]
        for counts in forms.count_vectors(3, 2):
            if counts not in SMALL:
                for layout in forms.LAYOUTS:
                    yield [counts, layout, "i8"]
    else:
        for counts in itertools.chain(forms.count_vectors(3, 3), forms.count_vectors(4, 2)):
            for layout in forms.LAYOUTS:
                for kind in forms.KINDS:
                    if len(counts) <= 2 or kind in ("i8", "jag", "tab", "mask") or counts in SMALL or (len(counts) == 3 and max(counts) <= 2):
                        yield [counts, layout, kind]


def unit_of(case):
    return case[0]


def flat_selections(n, full):
    for i in range(-n - 2, n + 2):
        yield ("int", i)
    for s in (model.some_slices(n) if full else [("slice", a, b, c) for c in (None, 2, -1) for a in (None, 1, -1) for b in (None, 1, -1)]):
        yield s
    for m in model.masks(n):
        yield m
    for t in model.takes(n, 2 if n <= 2 or full else 1):
        yield t
    yield ("take", [n - 1] + list(range(n)) if n else [])
    yield ("mask", [True] * (n + 1))
    if n > 1:      # Numpy accepts an empty mask
        yield ("mask", [True] * (n - 1))


def tuple_selections(counts, kind, full):
    n = len(counts)
    heads = [("slice", None, None, None), ("slice", None, None, -1), ("slice", 1, None, None), ("slice", 0, 0, None), ("mask", [i % 2 == 0 for i in range(n)]), ("take", list(range(n))[::-1]), ("take", [0, 0] if n else [])]
    heads += [("int", i) for i in ((0, -1) if n else ())]
    top = max(counts) if counts else 0
    ints = list(range(-top - 1, top + 1))
    for h in heads:
        for j in ints:
            yield ("tuple", [h, ("int", j)])
    ends = [None, -top - 1, -1, 0, 1, top, top + 1]
    some = [None, -1, 1]
    for h in heads:
        full_here = full and h == heads[0]
        for a in ends if full_here else some:
            for b in ends if full_here else some:
                for c in (None, 2, -1, -2) if full_here else (None, -1):
                    yield ("tuple", [h, ("slice", a, b, c)])
    for t in ([], [0], [-1], [0, 1], [1, 0], [0, -1], [1, 1], [0, 1, 0]):
        for h in heads:
            yield ("tuple", [h, ("take", t)])
    for m in ([False], [False, False], [True], [True, False], [False, True], [True, True], [True, False, True]):
        for h in heads:
            yield ("tuple", [h, ("mask", m)])


def inner_tuples(counts, n, kind):
    """third index; on two-dimensional Numpy content an existing test pins another meaning unless the first is an integer"""
    for h in ((("slice", None, None, None), ("take", list(range(n))[::-1])) if kind != "2d" else ()) + ((("int", 0),) if n else ()):
        for j in (0, -1, 1):
            yield ("tuple", [h, ("int", j), ("int", 0)])
            yield ("tuple", [h, ("slice", j, None, None), ("int", 0)])
        yield ("tuple", [h, ("int", 0), ("slice", None, None, None)])
        yield ("tuple", [h, ("int", 0), ("slice", None, 1, None)])


def jagged_masks(counts, full):
    if sum(counts) <= (5 if full else 4):
        for bits in itertools.product([False, True], repeat=sum(counts)):
            it = iter(bits)
            yield ("jmask", [[next(it) for _ in range(c)] for c in counts])
    else:
        yield ("jmask", [[k % 2 == 0 for k in range(c)] for c in counts])
        yield ("jmask", [[True] * c for c in counts])
    # wrong structures
    if counts:
        bad = list(counts)
        bad[0] += 1
        yield ("jmask", [[True] * c for c in bad])
        yield ("jmask", [[True] * c for c in counts[:-1]])


def jagged_takes(counts, full):
    options = []
    for c in counts:
        o = [[]]
        if c:
            o += [[0], [-1], [c - 1, 0]]
        if c > 1 and full:
            o += [[0, -2, 1]]
        options.append(o)
    yield from (("jtake", list(map(list, t))) for t in itertools.product(*options))
    for r, c in enumerate(counts):
        for bad in (c, -c - 1):
            yield ("jtake", [[bad] if k == r else [] for k in range(len(counts))])
            yield ("jtake", [[0, bad] if k == r and c else ([0] if cc else []) for k, cc in enumerate(counts)])
    if counts:
        yield ("jtake", [[] for _ in counts[:-1]])
        yield ("jtake", [[] for _ in counts] + [[]])


INDEX_LAYOUTS = ["offsets", "gaps", "reversed", "offjunk", "longstops", "emptyfar"]


def apply(array, where, how, index_layout=None):
    if where[0] == "jmask":
        return array[forms.jagged_from_rows(where[1], index_layout or "offsets", bool)]
    if where[0] == "jtake":
        return array[forms.jagged_from_rows(where[1], index_layout or "offsets", numpy.int64)]
    return array[model.real(where, how)]


def step(array, value, where, how, ctx, index_layout=None, kind=None):
    """One transition: real selection against model selection.  Returns (real, value) of the successor."""
    ctx.step()
    try:
        want = model.select(value, where)
    except model.ModelError:
        ctx.outcome("error")
        expect_error(lambda: apply(array, where, how, index_layout), "selection %s" % (where,))
        return None
    try:
        got = apply(array, where, how, index_layout)
    except NotImplementedError:
        if where[0] == "tuple" and where[1][0][0] == "slice" and where[1][1][0] in ("take", "mask") and kind not in ("i8", "f8", "bool", "2d", "i4strided", "jag", "jagc"):
            ctx.count("declined")     # a regular dimension over content that is neither basic nor jagged
            return None
        raise
    seen = observe(got, deep=type(got).__name__ == "JaggedArray")
    ctx.outcome(expect(seen, want, "selection %s%s" % (where, " (index layout %s)" % index_layout if index_layout else "")))
    if type(got).__name__ == "JaggedArray" and len(got.starts.shape) == 1 and isinstance(want, list) and all(isinstance(r, list) for r in want):
        return got, want
    return None


def run_unit(unit, ctx):
    counts, layout, kind = unit
    n = len(counts)
    value = forms.jagged_value(counts, kind)
    full = kind == "i8"

    def base():
        a = forms.jagged(counts, layout, kind)
        ctx.state(physical(a))
        ctx.outcome(expect(observe(a), value, "array as built"))
        return a

    array = ctx.case([unit, []], base)
    if array is None:
        return
    frontier = {}

    def go(where, how=None, il=None):
        nxt = ctx.case([unit, [where], how, il], step, array, value, where, how or "numpy", ctx, il, kind)
        if nxt is not None:
            p = physical(nxt[0])
            if ctx.state(p) and len(p) < 4000:
                frontier[p] = ([where], nxt)

    for where in flat_selections(n, full):
        go(where)
        if where[0] == "take" or where[0] == "mask" or where[0] == "int":
            if full or kind in ("tab", "jag"):
                go(where, "list")
            if where[0] != "mask" and (kind == "jag" or full and layout in ("offsets", "reversed")):
                for how in ("u8", "u1", "i2", ">i4"):
                    go(where, how)
    for where in tuple_selections(counts, kind, full):
        go(where)
        if full and layout in ("offsets", "reversed", "u8") or kind == "jag":
            go(where, "list")
            if any(w[0] in ("int", "take") for w in where[1]):
                for how in ("u8", "i2"):
                    go(where, how)
    if kind in ("2d", "jag", "jagc"):
        for where in inner_tuples(counts, n, kind):
            go(where)
    for where in jagged_masks(counts, full):
        for il in INDEX_LAYOUTS if full else ("offsets", "gaps"):
            go(where, None, il)
    for where in jagged_takes(counts, full):
        for il in INDEX_LAYOUTS if full else ("offsets", "reversed"):
            go(where, None, il)

    # second selection, from every distinct array reached by the first
    for hist, (arr, val) in list(frontier.values()):
        second(unit, hist, arr, val, kind, ctx)


def second(unit, hist, arr, val, kind, ctx):
    counts = [len(r) for r in val]
    n = len(counts)
    todo = [("int", i) for i in range(n)] + [("slice", None, None, -1), ("slice", 1, None, None), ("take", list(range(n))[::-1])]
    todo += [("mask", [k % 2 == 0 for k in range(n)])]
    todo += [("tuple", [("slice", None, None, None), ("slice", None, None, -1)]), ("tuple", [("slice", None, None, None), ("slice", 1, None, None)])]
    todo += [("tuple", [("slice", None, None, None), ("int", 0)]), ("tuple", [("slice", None, None, None), ("int", -1)])]
    todo += [("jmask", [[k % 2 == 1 for k in range(c)] for c in counts]), ("jtake", [[c - 1, 0] if c else [] for c in counts])]
    for w in todo:
        ctx.case([unit, hist + [w]], step, arr, val, w, "numpy", ctx)
