"""C30: assignment through jagged masks and jagged indexes."""
import itertools

import numpy

from awkward0 import JaggedArray

from .. import forms
from ..core import Violation
from ..obs import expect, norm, observe, physical, text
from .c01 import jagged_masks, jagged_takes

ID = "C30"
RULE = "every (row-count vector, physical layout, content kind) within the bound x every jagged mask and jagged index of the alphabet in every layout of its own x every kind of value to assign (scalar, list, array, jagged arrays in several layouts, the array itself, values that don't fit), then every second assignment; an outcome is non-trivial when its canonical value is distinct"
ASSUMPTIONS = ["when an index names an element twice, the later value stays (Numpy's rule)",
               "a list with a single value may be broadcast (Numpy's rule); not checked"]
BOUNDS = {"quick": "rows<=3, row lengths<=2 (and selected vectors with length 3), 12 layouts of the array, 7 of the index, 3 of the values, 5 Numpy content kinds (the other 17 must be refused or be right); 2 assignments",
          "thorough": "rows<=4, row lengths<=3, 12 layouts of the array, 7 of the index, 3 of the values, 22 content kinds; 2 assignments"}

SMALL = [[], [0], [2], [0, 0], [1, 2], [2, 0, 1], [3, 1, 2], [0, 2, 0, 1]]
NUMPY = ["i8", "f8", "bool", "i4strided", "2d"]
INDEX_LAYOUTS = ["offsets", "gaps", "reversed", "offjunk", "longstops", "emptyfar", "u1"]
VALUE_LAYOUTS = ["offsets", "reversed", "gaps"]


def units(tier):
    vectors = SMALL + [c for c in forms.count_vectors(3, 2) if c not in SMALL]
    if tier != "quick":
        vectors += [c for c in itertools.chain(forms.count_vectors(3, 3), forms.count_vectors(4, 2)) if c not in vectors]
    for counts in vectors:
        for layout in forms.LAYOUTS:
            for kind in forms.KINDS:
                if (kind == "i8" and (counts in SMALL or tier != "quick" or layout in ("offsets", "gaps", "longstops", "shared"))) or (kind in NUMPY and (counts in SMALL or tier != "quick")) or (counts in ([2], [2, 0, 1]) and layout in ("offsets", "gaps")) or (tier != "quick" and counts in SMALL):
                    yield [counts, layout, kind]


def elements(where, counts):
    """[(row, position)] named by a mask or an index, or None if it doesn't fit"""
    kind, rows = where
    if len(rows) != len(counts):
        return None
    out = []
    for r, (row, c) in enumerate(zip(rows, counts)):
        if kind == "jmask":
            if len(row) != c:
                return None
            out.append([(r, k) for k, b in enumerate(row) if b])
        else:
            if any(not -c <= k < c for k in row):
                return None
            out.append([(r, k % c) for k in row])
    return out


def new_values(kind, n, start):
    """n values to assign, other than those of the array"""
    if kind == "bool":
        return [(start + i) % 3 == 0 for i in range(n)]
    if kind == "f8":
        return [float("nan") if i == 1 else -0.25 - start - i for i in range(n)]
    if kind == "2d":
        return [[-start - i, 7 + i] for i in range(n)]
    return [-start - i for i in range(n)]


DTYPES = {"i8": numpy.int64, "f8": numpy.float64, "bool": numpy.bool_, "i4strided": numpy.int32, "2d": numpy.int64}


def packed(kind, values):
    return numpy.array(values, dtype=DTYPES.get(kind, numpy.int64)).reshape((len(values), 2) if kind == "2d" else (len(values),))


def jagged_values(kind, rows, layout):
    flat = [v for r in rows for v in r]
    starts, stops, ids = forms.jagged_parts(forms.ids_of([len(r) for r in rows]), layout)
    junk = [-5, -5] if kind == "2d" else 1
    return JaggedArray(starts, stops, packed(kind, [flat[i] if i >= 0 else junk for i in ids]))


def index(where, layout, dtype):
    return forms.jagged_from_rows(where[1], layout, numpy.bool_ if where[0] == "jmask" else dtype)


def offers(kind, chosen, start):
    """(name, make(), values in order or None when it must be refused)"""
    sizes = [len(r) for r in chosen]
    n = sum(sizes)
    v = new_values(kind, n, start)
    one = new_values(kind, 1, start + 20)[0]
    yield "scalar", lambda: one, [one] * n
    yield "array", lambda: packed(kind, v), v
    if kind != "2d":
        yield "list", lambda: list(v), v
        yield "numpy scalar", lambda: packed(kind, [one])[0], [one] * n
    it = iter(v)
    rows = [[next(it) for _ in range(s)] for s in sizes]
    for layout in VALUE_LAYOUTS:
        yield "jagged " + layout, lambda layout=layout: jagged_values(kind, rows, layout), v
    more = new_values(kind, n + 2, start)
    yield "too many", lambda: packed(kind, more), None
    if n > 2:
        yield "too few", lambda: packed(kind, v[:-1]), None
    # jagged values with other row lengths
    for r in range(len(sizes) - 1):
        if sizes[r] or sizes[r + 1]:
            other = list(sizes)
            d = 1 if sizes[r] else -1
            other[r] -= d
            other[r + 1] += d
            it2 = iter(v)
            shifted = [[next(it2) for _ in range(s)] for s in other]
            yield "jagged shifted %d" % r, lambda shifted=shifted: jagged_values(kind, shifted, "offsets"), None
            break
    if n:
        yield "jagged without its last row", lambda: jagged_values(kind, rows[:-1] + [[]] if sizes[-1] else rows[:-1], "offsets"), None


def store(content, a, places, values):
    """the content after the assignment, element by element"""
    starts, out = a.starts.tolist(), content.copy()
    for (r, k), v in zip(places, values):
        out[starts[r] + k] = v
    return out


def step(make, counts, kind, where, il, dtype, offer, ctx, before=None):
    """one assignment on the real array, compared with the same assignment element by element"""
    ctx.step()
    a = make()
    if before == "read":      # derived quantities read before must not matter
        norm(a), a.counts, a.localindex, a.parents
        a.sum() if kind != "2d" else None
    w = index(where, il, dtype)
    what = offer[1]()
    content = numpy.array(a.content)
    starts, stops = a.starts.tolist(), a.stops.tolist()
    wshape = physical(w)
    vshape = physical(what) if isinstance(what, (JaggedArray, numpy.ndarray)) else repr(what)
    chosen = elements(where, counts)
    wanted = content
    refused = chosen is None or offer[2] is None
    if not refused:
        wanted = store(content, a, [p for row in chosen for p in row], offer[2])
    try:
        a[w] = what
    except (ValueError, IndexError, TypeError) as err:
        if not refused:
            raise Violation("assigning %s to %s (index layout %s, %s) was refused: %s: %s" % (offer[0], where, il, numpy.dtype(dtype), type(err).__name__, err), "refused")
        ctx.outcome("refused")
        expect(norm(a.content), norm(content), "content after a refused assignment of %s to %s" % (offer[0], where))
        return None
    if refused:
        raise Violation("assigning %s to %s (index layout %s) was accepted, and gave %s" % (offer[0], where, il, text(norm(a))), "accepted")
    expect(norm(a.content), norm(wanted), "content after assigning %s to %s (index layout %s)" % (offer[0], where, il))
    expect([a.starts.tolist(), a.stops.tolist()], [starts, stops], "structure after assigning")
    ctx.outcome(expect(observe(a), [norm(wanted[s : s + c]) for s, c in zip(starts, counts)], "array after assigning %s to %s (index layout %s)" % (offer[0], where, il)))
    if physical(w) != wshape:
        raise Violation("assigning changed the index %s" % (where,), "index changed")
    if (physical(what) if isinstance(what, (JaggedArray, numpy.ndarray)) else repr(what)) != vshape:
        raise Violation("assigning changed the values (%s)" % offer[0], "values changed")
    ctx.state(physical(a))
    return a


def itself(make, counts, where, il, ctx):
    """the values are elements of the array itself"""
    ctx.step()
    chosen = elements(where, counts)
    a = make()
    content = numpy.array(a.content)
    starts = a.starts.tolist()
    source = [content[s + k] for s, c in zip(starts, counts) for k in range(c)]
    if [len(r) for r in chosen] != list(counts):
        return
    wanted = store(content, a, [p for row in chosen for p in row], source)
    a[index(where, il, numpy.int64)] = a
    ctx.outcome(expect(norm(a.content), norm(wanted), "content after assigning the array itself to %s" % (where,)))
    # the flat elements as Numpy array, which may be a view of the content
    a = make()
    a[index(where, il, numpy.int64)] = a.flatten()
    expect(norm(a.content), norm(wanted), "content after assigning its own flattened elements to %s" % (where,))


def other_content(make, value, where, offer, ctx):
    """content that isn't a Numpy array: refused, or right"""
    ctx.step()
    counts = [len(r) for r in value]
    a = make()
    try:
        a[index(where, "offsets", numpy.int64)] = offer
    except Exception as err:
        if not isinstance(err, (ValueError, IndexError, TypeError, NotImplementedError, AttributeError)):
            raise
        ctx.outcome("refused")
        expect(observe(a), value, "array after a refused assignment")
        return
    chosen = elements(where, counts)
    if chosen is None:
        raise Violation("%s was accepted" % (where,), "accepted")
    want = [list(r) for r in value]
    for row in chosen:
        for r, k in row:
            want[r][k] = offer
    ctx.outcome(expect(observe(a), want, "array after assigning to %s" % (where,)))


def wheres(counts, kind, full):
    for w in jagged_masks(counts, full):
        yield w
    for w in jagged_takes(counts, full):
        yield w
    n = len(counts)
    for r in range(n - 1):      # another structure of the same size
        if counts[r]:
            bad = list(counts)
            bad[r] -= 1
            bad[r + 1] += 1
            yield ("jmask", [[True] * c for c in bad])
    yield ("jtake", [list(range(c))[::-1] for c in counts])
    yield ("jtake", [[k - c for k in range(c)] for c in counts])
    yield ("jtake", [[c - 1, c - 1] if c else [] for c in counts])


def run_unit(unit, ctx):
    counts, layout, kind = unit
    value = forms.jagged_value(counts, kind)
    full = kind == "i8"

    def make():
        return forms.jagged(counts, layout, kind)

    if kind not in NUMPY:
        for where in wheres(counts, kind, False):
            for offer in (3, "new"):
                ctx.case([unit, where, "other", offer], other_content, make, value, where, offer, ctx)
        return

    ctx.case([unit, []], lambda: ctx.outcome(expect(observe(make()), value, "array as built")))
    reached = {}
    for where in wheres(counts, kind, full):
        chosen = elements(where, counts)
        for il in INDEX_LAYOUTS if full and layout in ("offsets", "gaps", "longstops") else ("gaps",):
            for offer in offers(kind, chosen if chosen is not None else [[0] * len(r) for r in where[1]], 3):
                if il in ("offsets", "gaps") or offer[0] in ("array", "jagged reversed"):
                    a = ctx.case([unit, where, il, "i8", offer[0]], step, make, counts, kind, where, il, numpy.int64, offer, ctx)
                    if a is not None and il == "gaps" and offer[0] in ("array", "scalar"):
                        reached.setdefault(physical(a), (where, offer))
        if where[0] == "jtake" and layout in ("offsets", "reversed", "u8"):
            for dtype in ("u8", "u1", "i1", ">i4") if all(k >= 0 for r in where[1] for k in r) else ("i1", ">i4"):
                for offer in offers(kind, chosen if chosen is not None else [[0] * len(r) for r in where[1]], 3):
                    if offer[0] in ("array", "jagged gaps"):
                        ctx.case([unit, where, "gaps", dtype, offer[0]], step, make, counts, kind, where, "gaps", dtype, offer, ctx)
        if where[0] == "jtake" and chosen is not None:
            ctx.case([unit, where, "itself"], itself, make, counts, where, "offsets", ctx)
        for offer in offers(kind, chosen if chosen is not None else [[0] * len(r) for r in where[1]], 3):
            if offer[0] in ("array", "too many") and layout not in ("u1", "bigend", "strided"):
                ctx.case([unit, where, "offsets", "read", offer[0]], step, make, counts, kind, where, "offsets", numpy.int64, offer, ctx, "read")

    # a second assignment, and reads between, from every distinct array reached
    second = [("jmask", [[k % 2 == 0 for k in range(c)] for c in counts]), ("jtake", [[c - 1] if c else [] for c in counts]), ("jtake", [list(range(c))[::-1] for c in counts])]
    for where, offer in list(reached.values()):
        def again(where=where, offer=offer):
            a = make()
            a[index(where, "offsets", numpy.int64)] = offer[1]()
            return a
        for w2 in second:
            for o2 in offers(kind, elements(w2, counts), 60):
                if o2[0] in ("array", "jagged gaps", "too many"):
                    for before in (None, "read"):
                        ctx.case([unit, where, offer[0], w2, o2[0], before], step, again, counts, kind, w2, "gaps", numpy.int64, o2, ctx, before)
