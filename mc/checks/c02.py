"""C02: derived quantities of jagged structure and the constructors from them."""
import itertools

import numpy

from awkward0 import JaggedArray

from .. import forms, model
from ..core import Violation
from ..obs import expect, expect_error, norm, observe, physical, text

ID = "C02"
RULE = "every row-count vector x layout x order of reading the derived quantities; every counts, offsets, parents, uniques and local-index vector within the bound for every constructor; an outcome is non-trivial when its canonical value is distinct"
ASSUMPTIONS = ["the reference is the nested list the inputs describe; parents of content outside every row are -1",
               "offsets may be refused (ValueError) only when no single offsets array describes the storage",
               "fromparents needs the children of one parent to be contiguous, as the code documents"]
BOUNDS = {"quick": "rows<=4, row lengths<=2 (plus <=3 rows with lengths<=3), 11 layouts, 24 reading orders; parents and uniques vectors up to length 5",
          "thorough": "rows<=5, row lengths<=3, 11 layouts, 24 reading orders; parents and uniques vectors up to length 6"}

READS = ["counts", "offsets", "parents", "localindex"]


def units(tier):
    vecs = list(forms.count_vectors(3, 3)) + [v for v in forms.count_vectors(4, 2) if len(v) == 4]
    if tier != "quick":
        vecs = list(forms.count_vectors(4, 3)) + [v for v in forms.count_vectors(5, 2) if len(v) == 5]
    for v in vecs:
        for layout in forms.LAYOUTS:
            yield ["arr", v, layout]
    n = 5 if tier == "quick" else 6
    for k in range(n + 1):
        for head in itertools.product((-1, 0, 1, 2, 3), repeat=min(k, 2)):
            yield ["parents", k, list(head)]
        for head in itertools.product((0, 1, 2), repeat=min(k, 1)):
            yield ["uniques", k, list(head)]
            yield ["local", k, list(head)]
    for k in range(1, n + 1):
        yield ["offsets", k]
    yield ["regular", 3 if tier == "quick" else 4]
    yield ["folding", 8 if tier == "quick" else 14]
    for n in range(4):
        yield ["multi", n, 2 if tier == "quick" else 3]


def unit_of(case):
    return case[0]


def content(n):
    return numpy.arange(n) + 100


def check_parents(parents, starts, stops, what):
    parents = norm(parents)
    want = {}
    for r, (a, b) in enumerate(zip(starts, stops)):
        for p in range(a, b):
            want[p] = r
    top = max(want) + 1 if want else 0
    if len(parents) < top:
        raise Violation("%s %s does not reach content position %d" % (what, parents, top - 1), "short parents")
    expect(parents, [want.get(p, -1) for p in range(len(parents))], what)


CONTIGUOUS = ("offsets", "offjunk", "copied", "longstops", "u1", "u8", "strided")


def read_all(v, layout, order, kind, ctx):
    a = forms.jagged(v, layout, kind)
    value = forms.jagged_value(v, kind)
    starts, stops = norm(a.starts), norm(a.stops)
    n = len(v)
    ctx.step()
    for q in order:
        if q == "counts":
            expect(norm(a.counts), v, "counts")
        elif q == "offsets":
            try:
                offsets = norm(a.offsets)
            except ValueError:
                if layout in CONTIGUOUS:
                    raise
                continue
            if len(offsets) != n + 1:
                raise Violation("offsets %s for %d rows" % (offsets, n), "offsets length")
            expect([norm(a.content[x:y]) for x, y in zip(offsets[:-1], offsets[1:])], value, "content between offsets %s" % offsets)
        elif q == "parents":
            check_parents(a.parents, starts, stops, "parents")
        else:
            expect(norm(a.localindex), [list(range(c)) for c in v], "localindex")
    ctx.outcome(expect(observe(a), value, "value after reading %s" % (order,)))
    return a, value, starts, stops


def arr(v, layout, order, kind, ctx):
    a, value, starts, stops = read_all(v, layout, order, kind, ctx)
    ctx.state(physical(a))
    n = len(v)
    flat = [x for r in value for x in r]
    expect(len(a), n, "len")
    expect([norm(a.content[x:y]) for x, y in zip(starts, stops)], value, "content[start:stop]")
    expect(norm(a.flatten()), flat, "flatten")
    expect(norm(a[a.localindex]), value, "selection by its own localindex")
    expect(list(a.shape), [n], "shape")
    expect(a.size, n, "size")
    ctx.step(6)
    for name, b in [("fromcounts(counts, flatten())", JaggedArray.fromcounts(a.counts, a.flatten())),
                    ("fromjagged", JaggedArray.fromjagged(a)),
                    ("copy", a.copy()), ("deepcopy", a.deepcopy()),
                    ("JaggedArray(starts, stops, content)", JaggedArray(a.starts, a.stops, a.content)),
                    ("fromoffsets(counts2offsets(counts), flatten())", JaggedArray.fromoffsets(JaggedArray.counts2offsets(a.counts), a.flatten()))]:
        ctx.step()
        ctx.outcome(expect(observe(b), value, name))
        expect(norm(b.counts), v, "counts of " + name)
    try:
        offsets = a.offsets
    except ValueError:
        pass
    else:
        b = JaggedArray.fromoffsets(offsets, a.content)
        expect(observe(b), value, "fromoffsets(offsets, content)")
        check_parents(JaggedArray.offsets2parents(offsets), starts, stops, "offsets2parents(offsets)")
    check_parents(JaggedArray.startsstops2parents(a.starts, a.stops), starts, stops, "startsstops2parents")
    # parents back to the structure
    parents = norm(a.parents)[: len(a.content)]
    parents = numpy.array(parents + [-1] * (len(a.content) - len(parents)), dtype=numpy.int64)
    last = max([i for i, c in enumerate(v) if c] + [-1]) + 1
    for length, want in [(None, value[:last])] + [(k, (value + [[], []])[:k]) for k in range(n + 2)]:
        ctx.step()
        ctx.outcome(expect(observe(JaggedArray.fromparents(parents, a.content, length=length)), want, "fromparents(parents %s, content, length=%r)" % (parents.tolist(), length)))
    s, t = JaggedArray.parents2startsstops(parents, length=n)
    expect([norm(a.content[x:y]) for x, y in zip(norm(s), norm(t))], value, "parents2startsstops(parents, %d)" % n)


def groups(parents):
    """rows described by a parents vector with contiguous children, or None"""
    seen, prev = set(), None
    for i, p in enumerate(parents):
        if p != prev and p in seen and p >= 0:
            return None
        seen.add(p)
        prev = p
    n = max([p for p in parents] + [-1]) + 1
    return [[100 + i for i, p in enumerate(parents) if p == r] for r in range(n)]


def parents_case(p, length, dtype, aslist, ctx):
    want = groups(p)
    ctx.step()
    if length is not None:
        want = (want + [[]] * length)[:length]
    arg = list(p) if aslist else numpy.array(p, dtype=dtype)
    a = JaggedArray.fromparents(arg, content(len(p)), length=length)
    ctx.state(physical(a))
    ctx.outcome(expect(observe(a), want, "fromparents(%s, length=%r)" % (p, length)))
    expect(norm(a.counts), [len(r) for r in want], "counts")
    expect(norm(a.localindex), [list(range(len(r))) for r in want], "localindex")
    if length is None or length >= max(p + [-1]) + 1:
        check_parents(a.parents, norm(a.starts), norm(a.stops), "parents")
    s, t = JaggedArray.parents2startsstops(numpy.array(p, dtype=dtype), length)
    expect([[100 + i for i in range(x, y)] for x, y in zip(norm(s), norm(t))], want, "parents2startsstops")


def uniques_case(u, ctx):
    want = []
    for i, x in enumerate(u):
        if i and u[i - 1] == x:
            want[-1].append(100 + i)
        else:
            want.append([100 + i])
    for arg in (list(u), numpy.array(u, dtype=numpy.int64), numpy.array(u, dtype=numpy.uint16)):
        ctx.step()
        a = JaggedArray.fromuniques(arg, content(len(u)))
        ctx.state(physical(a))
        ctx.outcome(expect(observe(a), want, "fromuniques(%s)" % (u,)))
        expect(norm(a.counts), [len(r) for r in want], "counts")
        expect(norm(a.parents), [r for r, row in enumerate(want) for _ in row], "parents")
    offsets, parents = JaggedArray.uniques2offsetsparents(numpy.array(u, dtype=numpy.int64))
    expect(norm(offsets), list(itertools.accumulate([0] + [len(r) for r in want])), "uniques2offsetsparents offsets")
    expect(norm(parents), [r for r, row in enumerate(want) for _ in row], "uniques2offsetsparents parents")


def local_case(u, asjagged, ctx):
    ok = all(x == 0 or (i > 0 and x == u[i - 1] + 1) for i, x in enumerate(u))
    want = []
    for i, x in enumerate(u):
        if x == 0:
            want.append([100 + i])
        elif want:
            want[-1].append(100 + i)
    ctx.step()
    index = numpy.array(u, dtype=numpy.int64)
    if asjagged == "same":
        index = JaggedArray.fromcounts([len(r) for r in want] if ok else [len(u)], index)
    elif asjagged == "other":
        index = JaggedArray.fromcounts([0, len(u)], index)      # never the derived structure
        ok = False
    if not ok:
        ctx.outcome("error")
        expect_error(lambda: JaggedArray.fromlocalindex(index, content(len(u))), "fromlocalindex(%s)" % (u,))
        return
    a = JaggedArray.fromlocalindex(index, content(len(u)))
    ctx.state(physical(a))
    ctx.outcome(expect(observe(a), want, "fromlocalindex(%s)" % (u,)))
    expect(norm(a.localindex), [list(range(len(r))) for r in want], "localindex")
    expect(observe(JaggedArray.fromlocalindex(index, content(len(u)), validate=False)), want, "fromlocalindex without validation")


def offsets_case(o, dtype, extra, ctx):
    ctx.step()
    c = content(o[-1] + extra)
    want = [norm(c[x:y]) for x, y in zip(o[:-1], o[1:])]
    base = numpy.array([77] + list(o) + [77], dtype=dtype)
    for name, arg in (("list", list(o)), ("array", numpy.array(o, dtype=dtype)), ("view", base[1:-1]), ("reversed view", numpy.array(list(o)[::-1], dtype=dtype)[::-1])):
        a = JaggedArray.fromoffsets(arg, c)
        ctx.state(physical(a))
        ctx.outcome(expect(observe(a), want, "fromoffsets(%s as %s)" % (o, name)))
        if len(o) > 1:      # without rows any one-element offsets array describes the structure
            expect(norm(a.offsets), list(o), "offsets (%s)" % name)
        expect(norm(a.counts), [len(r) for r in want], "counts")
        check_parents(a.parents, o[:-1], o[1:], "parents (%s)" % name)
        expect(norm(a.localindex), [list(range(len(r))) for r in want], "localindex")
        if name != "list":
            check_parents(JaggedArray.offsets2parents(arg), o[:-1], o[1:], "offsets2parents(%s)" % name)
            check_parents(JaggedArray.startsstops2parents(arg[:-1], arg[1:]), o[:-1], o[1:], "startsstops2parents(%s)" % name)
            expect(norm(JaggedArray.counts2offsets(arg)), [sum(o[:k]) for k in range(len(o) + 1)], "counts2offsets(%s)" % name)
        b = JaggedArray.fromcounts(a.counts, c[o[0]:])
        expect(observe(b), want, "fromcounts(%s)" % (norm(a.counts),))
        d = JaggedArray([], [], c)
        d.offsets = arg
        expect(observe(d), want, "assigned offsets")
        e = JaggedArray([], [], c[o[0]:])
        e.counts = a.counts
        expect(observe(e), want, "assigned counts")


def regular_case(shape, ctx):
    ctx.step()
    size = 1
    for s in shape:
        size *= s
    r = numpy.arange(size).reshape(shape)
    a = JaggedArray.fromregular(r)
    ctx.state(physical(a))
    ctx.outcome(expect(observe(a), r.tolist(), "fromregular of shape %s" % (shape,)))
    expect(norm(a.counts), [shape[1]] * shape[0], "counts")
    if len(shape) == 2:
        expect(norm(JaggedArray.fromregular(r.T)), r.T.tolist(), "fromregular of a transposed array")
    if shape[0] and size:
        expect(norm(a.regular()), r.tolist(), "regular()")


def folding_case(n, size, ctx):
    ctx.step()
    c = content(n)
    want = [norm(c[i:i + size]) for i in range(0, n, size)]
    a = JaggedArray.fromfolding(c, size)
    ctx.state(physical(a))
    ctx.outcome(expect(observe(a), want, "fromfolding(%d items, %d)" % (n, size)))
    expect(norm(a.counts), [len(r) for r in want], "counts")


def multi_case(n, m, v, gaps, ctx):
    """starts and stops with a second, regular dimension"""
    ctx.step()
    rows = forms.ids_of(v)
    starts, stops, ids = forms.jagged_parts(rows, "gaps" if gaps else "offjunk")
    c = numpy.array([100 + i if i >= 0 else -9 for i in ids])
    want = [[[100 + i for i in rows[r * m + k]] for k in range(m)] for r in range(n)]
    cases = [("starts/stops", JaggedArray(starts.reshape(n, m), stops.reshape(n, m), c))]
    if not gaps:
        cases.append(("fromcounts", JaggedArray.fromcounts(numpy.array(v, dtype=numpy.int64).reshape(n, m), c[2:])))
    offsets = numpy.cumsum([0] + v)
    for extra in (0, 1, 3):         # in order, from the beginning, with more content after the last list
        cases.append(("in order + %d" % extra, JaggedArray(offsets[:-1].reshape(n, m), offsets[1:].reshape(n, m), numpy.arange(100, 100 + offsets[-1] + extra))))
    for name, a in cases:
        ctx.state(physical(a))
        ctx.outcome(expect(observe(a), want, name))
        expect(norm(a.counts), [v[r * m:(r + 1) * m] for r in range(n)], "counts (%s)" % name)
        expect(norm(a.flatten()), [x for r in want for s in r for x in s], "flatten (%s)" % name)
        expect(list(a.shape)[:2], [n, m], "shape (%s)" % name)
        if n:
            expect(norm(a.localindex), [[list(range(len(s))) for s in r] for r in want], "localindex (%s)" % name)
            check_parents(a.parents, norm(a.starts.reshape(-1)), norm(a.stops.reshape(-1)), "parents (%s)" % name)
        for w in [("int", 0), ("int", -1), ("slice", None, None, -1), ("take", [n - 1, 0] if n else [])]:
            ctx.step()
            try:
                e = model.select(want, w)
            except model.ModelError:
                expect_error(lambda: a[model.real(w)], "%s" % (w,))
                continue
            ctx.outcome(expect(norm(a[model.real(w)]), e, "%s of %s" % (w, name)))
        for i in range(-n, n):
            for j in range(-m, m):
                ctx.step()
                expect(norm(a[i, j]), want[i][j], "[%d, %d] of %s" % (i, j, name))
        for j in range(-m, m):
            expect(norm(a[:, j]), [r[j] for r in want], "[:, %d] of %s" % (j, name))
            expect(norm(a[::-1, j]), [r[j] for r in want[::-1]], "[::-1, %d] of %s" % (j, name))


def run_unit(unit, ctx):
    op = unit[0]
    if op == "arr":
        _, v, layout = unit
        for order in itertools.permutations(READS):
            if order[0] == READS[0] or max(v + [0]) <= 2:
                ctx.case([unit, "read", list(order)], read_all, v, layout, order, "i8", ctx)
        for k in range(len(READS)):
            order = READS[k:] + READS[:k]
            for kind in ("i8", "jag", "tab") if k == 0 else ("i8",):
                ctx.case([unit, "derive", order, kind], arr, v, layout, order, kind, ctx)
    elif op == "parents":
        _, k, head = unit
        for tail in itertools.product((-1, 0, 1, 2, 3), repeat=k - len(head)):
            p = head + list(tail)
            if groups(p) is None:
                continue
            for length in [None] + list(range(6)):
                ctx.case([unit, p, length], parents_case, p, length, numpy.int64, False, ctx)
            ctx.case([unit, p, None, "i1"], parents_case, p, None, numpy.int8, False, ctx)
            ctx.case([unit, p, None, "list"], parents_case, p, None, numpy.int64, True, ctx)
    elif op == "uniques":
        _, k, head = unit
        for tail in itertools.product((0, 1, 2), repeat=k - len(head)):
            ctx.case([unit, head + list(tail)], uniques_case, head + list(tail), ctx)
    elif op == "local":
        _, k, head = unit
        for tail in itertools.product((0, 1, 2), repeat=k - len(head)):
            for how in (None, "same", "other") if k else (None,):
                ctx.case([unit, head + list(tail), how], local_case, head + list(tail), how, ctx)
    elif op == "offsets":
        for o in itertools.combinations_with_replacement(range(5), unit[1]):
            for dtype in (numpy.int64, numpy.int32, numpy.uint8, numpy.uint64, ">i4"):
                for extra in (0, 2):
                    ctx.case([unit, list(o), str(numpy.dtype(dtype)), extra], offsets_case, o, dtype, extra, ctx)
    elif op == "regular":
        for dims in (2, 3, 4):
            for shape in itertools.product(range(unit[1]), repeat=dims):
                ctx.case([unit, list(shape)], regular_case, shape, ctx)
    elif op == "folding":
        for n in range(unit[1]):
            for size in range(1, unit[1] + 1):
                ctx.case([unit, n, size], folding_case, n, size, ctx)
    elif op == "multi":
        _, n, top = unit
        for m in (1, 2, 3):
            if n * m > 4:
                continue
            for v in itertools.product(range(top + 1), repeat=n * m):
                for gaps in (False, True):
                    ctx.case([unit, m, list(v), gaps], multi_case, n, m, list(v), gaps, ctx)
