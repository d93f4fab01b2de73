"""C13: tables keep rows intact through selections and column changes."""
import itertools
from collections import OrderedDict

import numpy

from awkward0 import ChunkedArray, IndexedArray, JaggedArray, MaskedArray, Table, UnionArray, VirtualArray
from awkward0.array.base import AwkwardArray

from .. import forms, model, ops
from ..core import Violation
from ..forms import KINDS
from ..obs import expect, expect_error, norm, observe, physical, text
from . import c04

ID = "C13"
RULE = "reachability over views of a table: from every base table and every constructed view, every selection of an alphabet (all slices, masks, integer arrays, column lists) is applied to every distinct view reached, to a depth bound; every view is read along every path; every history of column changes up to a depth on a table, its views and arrays holding tables; columns in every representation set through records in every representation; an outcome is non-trivial when its canonical value is distinct"
ASSUMPTIONS = ["views taken before a column change keep the columns they had; a column cannot be set on a view (documented error)",
               "the length of a table is the length of its shortest column; a longer column of a table that is not a view is given whole by t[name]"]
BOUNDS = {"quick": "tables up to 4 rows, views to depth 4 (deduplicated), histories of 3 column changes with views in between; 11 nestings of records with each part in 10 wrappers, 11 layouts or views, times the representations of the column",
          "thorough": "tables up to 5 rows, views to depth 6 (deduplicated), histories of 4 column changes"}

CASE_SECONDS = 150.0        # a case is a whole exploration here

SHAPES = OrderedDict([
    ("flat", [("x", "i8", 0), ("y", "f8", 0)]),
    ("long", [("x", "i8", 2), ("y", "f8", 0), ("z", "bool", 1)]),
    ("rich", [("x", "i4strided", 0), ("j", "jag", 0), ("m", "mask", 0), ("d", "2d", 0)]),
    ("deep", [("t", "tab", 0), ("v", "tabview", 1), ("s", "str", 0), ("u", "uni", 0)]),
    ("lazy", [("a", "vrt", 0), ("c", "chk", 1), ("i", "idx", 0), ("p", "sparse", 0), ("o", "obj", 0)]),
    ("tuple", [("0", "i8", 0), ("1", "f8", 1)]),
    ("one", [("x", "i8", 0)]),
])


def build(shape, n):
    """a table and its rows"""
    cols = SHAPES[shape]
    arrays = [KINDS[k].build(list(range(n + extra))) for _, k, extra in cols]
    t = Table(*arrays) if shape == "tuple" else Table(OrderedDict((c[0], a) for c, a in zip(cols, arrays)))
    return t, [dict((name, KINDS[k].value(i)) for name, k, _ in cols) for i in range(n)]


def show(rows, istuple):
    return [tuple(r[str(i)] for i in range(len(r))) if istuple else r for r in rows]


def columns_of(t):
    return list(t.columns)


def look(t, rows, names, ctx, istuple=False, ids=None):
    """everything a reader can see of one table or view"""
    ctx.step(8)
    n = len(rows)
    istuple = istuple and names == [str(i) for i in range(len(names))]
    ctx.outcome(expect(observe(t), show(rows, istuple), "rows"))
    expect(len(t), n, "len")
    expect(columns_of(t), names, "columns")
    expect([norm(t[i]) for i in range(-n, 0)], show(rows, istuple), "negative integers")
    for bad in (n, -n - 1):
        expect_error(lambda: t[bad], "[%d]" % bad)
    for c in names:
        got = norm(t[c])
        expect(got[:n] if t.base is None else got, [r[c] for r in rows], "column " + c)
        if not c.isdigit():
            expect(text(norm(getattr(t, c))), text(got), "attribute " + c)
    expect_error(lambda: t["absent"], "absent column")
    expect_error(lambda: t[["absent"]], "absent column in a list")
    if len(names) > 1:
        back = names[::-1]
        got = t[back]
        expect(columns_of(got), back, "columns of a list of columns")
        expect(norm(got[back[0]])[:n], [r[back[0]] for r in rows], "column of a list of columns")
        if t.base is not None:
            expect(len(got), n, "len of a list of columns")
    for i, row in enumerate(t):
        for c in names:
            expect(norm(row[c]), rows[i][c], "row %d column %s" % (i, c))
            if not c.isdigit():
                expect(norm(getattr(row, c)), rows[i][c], "row %d attribute %s" % (i, c))
            else:
                expect(norm(getattr(row, "i" + c)), rows[i][c], "row %d attribute i%s" % (i, c))
            expect(c in row, True, "in row")
        expect("absent" in row, False, "in row")
        expect_error(lambda: row["absent"], "absent column of a row")
        expect(norm(row.tolist()), show([rows[i]], istuple)[0], "row.tolist()")
        expect(list(row.columns), names, "row.columns")
        if istuple:
            expect([norm(x) for x in row], [rows[i][c] for c in names], "iterating over a row")
        sub = row[names[-1:]]
        expect(norm(sub[names[-1]]), rows[i][names[-1]], "row restricted to a list of columns")
        expect(list(sub.columns), names[-1:], "columns of a row restricted to a list of columns")
        if ids is not None and not istuple:
            expect(repr(row).rsplit(" ", 1)[1], "%d>" % ids[i], "row number")


def whole(t, rows, ctx):
    """operations on whole tables, whose columns may be longer than the table"""
    ctx.step(5)
    expect(observe(t.concatenate([t])), rows + rows, "concatenation with itself")
    expect(observe(t.concatenate([t[::-1]])), rows + rows[::-1], "concatenation with itself reversed")
    expect(observe(t.copy()), rows, "copy")
    expect(observe(t.deepcopy()), rows, "deepcopy")
    if rows and not any(isinstance(x, list) for x in rows[0].values()):
        expect(norm(t.regular()), rows, "regular")


def view_ops(n, small):
    ops = list(model.slices(n, (None, 1, 2, 3, -1, -2, -3)) if not small else model.some_slices(n))
    ops += list(model.masks(n)) if n <= 4 else [("mask", [i % 2 == 0 for i in range(n)]), ("mask", [False] * n), ("mask", [True] * n)]
    ops += list(model.takes(n, 2 if n <= 3 and not small else 1)) + [("take", list(range(n))), ("take", list(range(-n, 0))[::-1]), ("take", [n - 1, 0, n - 1] if n else [])]
    ops += [("mask", [True] * (n + 1)), ("mask", [True] * max(n - 1, 1) if n > 1 else [True] * 3)]
    return ops


def key(t):
    return physical(dict((k, v) for k, v in t.__dict__.items() if k not in ("_base", "_contents"))) + ",".join(t.columns)


def explore(t, rows, depth, small, ctx, istuple=False):
    names = columns_of(t)
    ids = list(range(len(rows)))
    frontier = [(t, ids, names, ())]
    seen = {key(t): ids}
    look(t, rows, names, ctx, istuple, ids)
    if not istuple and all(KINDS[k].name in ("i8", "f8", "bool") for c in SHAPES.values() for name, k, _ in c if name in names):
        whole(t, rows, ctx)
    for d in range(depth):
        following = []
        for v, mine, cols, path in frontier:
            n = len(mine)
            ops = view_ops(n, small or d > 1)
            if len(cols) > 1:
                ops = ops + [("cols", cols[::-1]), ("cols", cols[1:])]
            for k, op in enumerate(ops):
                ctx.step()
                what = "%s %s" % (list(path), op)
                if op[0] == "cols":
                    got, want, c = v[op[1]], mine, op[1]
                else:
                    c = cols
                    how = model.real(op, "list" if k % 3 == 0 else "numpy")
                    before = text(norm(how)) if op[0] in ("mask", "take") else None
                    try:
                        want = model.select(mine, op)
                    except model.ModelError:
                        expect_error(lambda: observe(v[how]), what)
                        continue
                    if isinstance(how, list) and not how:
                        how = numpy.array(how, dtype=int)
                    got = v[how]
                    if before is not None:
                        expect(text(norm(how)), before, "%s: the index afterwards" % what)
                if op[0] == "cols" and len(got) > len(want) and len(got) == min(len(got[x]) for x in c):
                    continue        # without its shortest column, a table is as long as the next one
                expect(len(got), len(want), what + ": len")
                expect(norm(got[c[0]])[:len(want)], [rows[i][c[0]] for i in want], what + ": column " + c[0])
                s = key(got)
                if s not in seen:
                    seen[s] = want
                    ctx.state(s)
                    look(got, [dict((x, rows[i][x]) for x in c) for i in want], c, ctx, istuple, want)
                    if got.base is None and op[0] != "cols":
                        raise Violation("%s has no base" % what)
                    following.append((got, want, c, path + (op,)))
                elif seen[s] != want:
                    raise Violation("%s: the same view shows rows %s here and %s elsewhere" % (what, want, seen[s]))
            look(v, [dict((x, rows[i][x]) for x in cols) for i in mine], cols, ctx, istuple, mine)
        frontier = following


def explore_case(shape, n, depth, small, ctx):
    t, rows = build(shape, n)
    before = physical(t)
    explore(t, rows, depth, small, ctx, shape == "tuple")
    if physical(t) != before:
        raise Violation("the base table changed")


def fromview_case(n, shape, ctx):
    """every view that can be constructed directly, and one selection of it"""
    def views():
        for start in range(n):
            for step in (1, 2, 3, -1, -2, -3):
                for length in range(n + 1):
                    if length == 0 or 0 <= start + step * (length - 1) < n:
                        yield (start, step, length), [start + step * i for i in range(length)]
        for k in range(3):
            for index in itertools.product(range(n), repeat=k):
                for dtype in (numpy.int64, numpy.uint8):
                    yield numpy.array(index, dtype=dtype), list(index)
    for view, ids in views():
        base, rows = build(shape, n)
        t = Table.fromview(view, base)
        look(t, [rows[i] for i in ids], columns_of(base), ctx, False, ids)
        m = len(ids)
        for op in model.some_slices(m) + [("mask", [i % 2 == 1 for i in range(m)]), ("take", list(range(-m, 0)))]:
            ctx.step()
            got = t[model.real(op)]
            want = model.select([rows[i] for i in ids], op)
            expect(observe(got), want, "view %s %s" % (norm(view), op))
        copied = t.deepcopy()
        expect(observe(copied), [rows[i] for i in ids], "deepcopy of view %s" % (norm(view),))
        if copied.base is not None:
            raise Violation("a deepcopy is still a view")
        expect(observe(t.copy()), [rows[i] for i in ids], "copy of view %s" % (norm(view),))
        if shape != "lazy":
            expect(observe(t.concatenate([t])), [rows[i] for i in ids] * 2, "concatenation of view %s with itself" % (norm(view),))
        expect(observe(base), rows, "base afterwards")


# ---------------------------------------------------------------- histories of column changes
class World(object):
    def __init__(self, n):
        self.n = n
        self.t = Table(OrderedDict([("x", numpy.arange(n) + 100), ("y", numpy.arange(n) * 1.5)]))
        self.cols = OrderedDict([("x", [100 + i for i in range(n)]), ("y", [i * 1.5 for i in range(n)])])
        self.views = []
        self.count = 0

    def fresh(self, n):
        self.count += 1
        return [1000 * self.count + i for i in range(n)]

    def rows(self):
        n = min(len(v) for v in self.cols.values()) if self.cols else 0
        return [dict((c, v[i]) for c, v in self.cols.items()) for i in range(n)]


def change(world, op, ctx):
    t, cols = world.t, world.cols
    n = len(world.rows())
    kind = op[0]
    if kind == "set":
        _, name, how = op
        if how == "array":
            v = world.fresh(n)
            t[name] = numpy.array(v)
        elif how == "list":
            v = [float(x) for x in world.fresh(n)]
            t[name] = v
        elif how == "scalar":
            v = [world.fresh(1)[0]] * n
            t[name] = v[0] if n else world.fresh(1)[0]
        elif how == "longer":
            v = world.fresh(n + 2)
            t[name] = numpy.array(v)
        elif how == "shorter":
            v = world.fresh(max(n - 1, 0))
            t[name] = numpy.array(v, dtype=int)
        elif how == "jagged":
            v = [world.fresh((i + 1) % 3) for i in range(n)]
            t[name] = JaggedArray.fromcounts([len(x) for x in v], numpy.array([y for x in v for y in x], dtype=int))
        elif how == "view":
            if not cols:
                return
            source = list(cols)[0]
            v = list(cols[source][:n][::-1])
            t[name] = t[::-1][source]
        cols[name] = list(v)
    elif kind == "set2":
        a, b = world.fresh(n), world.fresh(n)
        t[list(op[1])] = Table(numpy.array(a, dtype=int), numpy.array(b, dtype=int))
        cols[op[1][0]], cols[op[1][1]] = a, b
    elif kind == "del":
        if op[1] in cols:
            del t[op[1]]
            del cols[op[1]]
        else:
            expect_error(lambda: t.__delitem__(op[1]), "deleting an absent column")
    elif kind == "del2":
        if all(c in cols for c in op[1]):
            del t[list(op[1])]
            for c in op[1]:
                del cols[c]
        else:
            expect_error(lambda: t.__delitem__(list(op[1])), "deleting an absent column")
    elif kind == "refused":
        bad = Table(numpy.arange(n), numpy.arange(n), numpy.arange(n))
        expect_error(lambda: t.__setitem__(["x", "new"], bad), "two names for three columns")
        expect_error(lambda: t.__setitem__(3, numpy.arange(n)), "assigning to an integer")
        expect_error(lambda: t.__setitem__(slice(None), numpy.arange(n)), "assigning to a slice")
        expect_error(lambda: t.__delitem__(0), "deleting an integer")
        if n:
            view = t[::-1]
            expect_error(lambda: view.__setitem__("x", numpy.arange(n)), "assigning to a view")
            expect_error(lambda: view.__delitem__("x"), "deleting from a view")
    elif kind == "view":
        where = {"reverse": ("slice", None, None, -1), "tail": ("slice", 1, None, None), "mask": ("mask", [i % 2 == 0 for i in range(n)]), "take": ("take", list(range(n))[::-1] * 2)}[op[1]]
        got = t[model.real(where)]
        world.views.append((got, model.select(world.rows(), where), list(cols)))
    elif kind == "copy":
        world.views.append((t.copy(), world.rows(), list(cols)))
        other = t.copy()
        other["x"] = numpy.arange(n) - 7
        other["w"] = numpy.arange(n) - 8
        if "y" in cols:
            del other["y"]
    elif kind == "columns":
        if not cols:
            return
        world.t = t[list(cols)[::-1]]
        world.views.append((t, world.rows(), list(cols)))
        world.cols = OrderedDict((c, cols[c]) for c in list(cols)[::-1])
    elif kind == "contents":
        v = world.fresh(n)
        t.contents = OrderedDict([("x", numpy.array(v, dtype=int)), ("q", [float(i) for i in range(n)])])
        cols.clear()
        cols["x"], cols["q"] = v, [float(i) for i in range(n)]


CHANGES = [("set", "x", "array"), ("set", "z", "array"), ("set", "z", "list"), ("set", "x", "scalar"), ("set", "z", "longer"), ("set", "z", "shorter"), ("set", "x", "jagged"), ("set", "z", "view"),
           ("set2", ("x", "z")), ("set2", ("p", "q")), ("del", "x"), ("del", "z"), ("del2", ("x", "y")), ("del2", ("y", "nope")), ("refused",), ("view", "reverse"), ("view", "tail"), ("view", "mask"), ("view", "take"), ("copy",), ("columns",), ("contents",)]


def history_case(n, ops, ctx):
    world = World(n)
    for op in ops:
        ctx.step()
        change(world, op, ctx)
    rows, names = world.rows(), list(world.cols)
    ctx.state(physical(world.t))
    if names:
        look(world.t, rows, names, ctx)
        m = len(rows)
        whole(world.t, rows, ctx)
        for where in [("slice", None, None, -1), ("slice", 1, None, None), ("mask", [i % 2 == 0 for i in range(m)]), ("take", list(range(-m, 0))), ("slice", 5, 0, -2)]:
            ctx.step()
            expect(observe(world.t[model.real(where)]), model.select(rows, where), "selection %s" % (where,))
    else:
        expect(len(world.t), 0, "len without columns")
        expect(list(world.t.columns), [], "columns")
    for v, want, cols in world.views:
        ctx.step()
        if not cols:
            continue
        expect(list(v.columns), cols, "columns of a view taken earlier")
        expect(observe(v), want, "view taken earlier")


# ---------------------------------------------------------------- tables inside other arrays
def nested_case(counts, layout, change_, ctx):
    """set and delete columns of a jagged table: every element gets the value meant for it"""
    rows = forms.jagged_value(counts, "tab")
    j = forms.jagged(counts, layout, "tab")
    k = itertools.count(1)
    if change_ == "same":
        what = JaggedArray.fromcounts(counts, numpy.arange(sum(counts)) + 1)
        new = [[next(k) for _ in r] for r in rows]
    elif change_ == "other":
        new = [[next(k) for _ in r] for r in rows]
        what = forms.jagged_from_rows(new, "gaps", int)
    elif change_ == "reversed":
        new = [[next(k) for _ in r] for r in rows]
        what = forms.jagged_from_rows(new, "reversed", int)
    elif change_ == "broadcast":
        new = [[i * 10] * len(r) for i, r in enumerate(rows)]
        what = numpy.arange(len(rows)) * 10
    elif change_ == "scalar":
        new = [[77] * len(r) for r in rows]
        what = 77
    elif change_ == "mismatch":
        if not sum(counts):
            return
        c = list(counts)
        c[0] += 1
        what = JaggedArray.fromcounts(c, numpy.arange(sum(c)))
        expect_error(lambda: j.__setitem__("z", what), "assigning a column with other counts")
        expect(observe(j), rows, "after a refused assignment")
        return
    before = physical(what)
    for name in ("z", "x"):
        j[name] = what
        ctx.step()
        want = [[dict(e, **{name: v}) for e, v in zip(r, s)] for r, s in zip(rows, new)]
        ctx.outcome(expect(observe(j), want, "after assigning %s" % name))
        for op in [("slice", None, None, -1), ("mask", [i % 2 == 0 for i in range(len(rows))])]:
            expect(observe(j[model.real(op)][name]), model.select(new, op), "selection of the new column")
        rows = want
    if physical(what) != before:
        raise Violation("the assigned array changed")
    two = j[["x", "z"]]
    j[["p", "q"]] = two
    want = [[dict(e, p=e["x"], q=e["z"]) for e in r] for r in rows]
    expect(observe(j), want, "after assigning two columns")
    del j["y"]
    del j[["p", "z"]]
    want = [[dict(x=e["x"], q=e["q"]) for e in r] for r in want]
    expect(observe(j), want, "after deleting columns")
    expect_error(lambda: j.__delitem__("nope"), "deleting an absent column")
    expect(observe(j), want, "after a refused deletion")


def wrapped_case(wrap, n, ctx):
    rows = [KINDS["tab"].value(i) for i in range(n)]
    t = KINDS["tab"].build(range(n))
    new = [5 * i + 1 for i in range(n)]
    what = numpy.array(new, dtype=int)
    if wrap == "masked":
        a = MaskedArray(numpy.array([i % 2 == 1 for i in range(n)], dtype=bool), t)
        value = lambda rs: [None if i % 2 == 1 else r for i, r in enumerate(rs)]
    elif wrap.startswith("indexed"):
        order = list(range(n))[::-1] if wrap == "indexed" else [(2 * i + 1) % n for i in range(n)] if n % 2 else list(range(n))
        a = IndexedArray(numpy.array(order, dtype=int), KINDS["tab"].build([order.index(i) for i in range(n)]))
        value = lambda rs: rs
    elif wrap == "indexedpart":
        return
    elif wrap == "virtual":
        a = VirtualArray(lambda: KINDS["tab"].build(range(n)))
        value = lambda rs: rs
    elif wrap == "chunked":
        a = ChunkedArray([KINDS["tab"].build(range(n // 2)), KINDS["tab"].build(range(n // 2, n))])
        what = ChunkedArray([what[:n // 2], what[n // 2:]])
        value = lambda rs: rs
    elif wrap == "union":
        tags = [i % 2 for i in range(n)]
        a = UnionArray.fromtags(numpy.array(tags, dtype=numpy.uint8), [KINDS["tab"].build([i for i in range(n) if i % 2 == 0]), KINDS["tab"].build([i for i in range(n) if i % 2 == 1])])
        value = lambda rs: rs
    elif wrap == "subset":      # an indexed array showing only some rows of its content
        a = IndexedArray(numpy.arange(n)[::-1] + 1, KINDS["tab"].build([-1] + list(range(n))[::-1] + [-1]))
        value = lambda rs: rs
    ctx.step(4)
    expect(observe(a), value(rows), "array")
    a["z"] = what
    ctx.outcome(expect(observe(a), value([dict(r, z=v) for r, v in zip(rows, new)]), "after assigning a column"))
    a["x"] = what
    expect(observe(a), value([dict(r, z=v, x=v) for r, v in zip(rows, new)]), "after replacing a column")
    expect(norm(a["x"]), value(list(new)), "the replaced column")
    del a["y"]
    want = value([dict(z=v, x=v) for v in new])
    expect(observe(a), want, "after deleting a column")
    expect(observe(a[::-1]), want[::-1], "reversed")
    if wrap != "virtual":
        expect_error(lambda: a.__delitem__("nope"), "deleting an absent column") if n else None
        expect(observe(a), want, "after a refused deletion")
    if n:
        expect_error(lambda: a.__setitem__("w", numpy.arange(n + 1)) if wrap not in ("masked", "virtual") else a.__setitem__(3, what), "assigning a column of the wrong length")
        expect(observe(a), want, "after a refused assignment")


# ---------------------------------------------------------------- columns set through any representation
N = lambda *v: ("num", "i8", v)
RECORDS = {
    "rows": ("rec", ("x", N(3, 1, 4)), ("y", ("num", "f8", (0.5, -2.0, 8.5)))),
    "one row": ("rec", ("x", N(3))),
    "rows of lists": ("rec", ("x", N(3, 1, 4)), ("y", ("list", (2, 0, 1), N(1, 2, 3)))),
    "rows of rows": ("rec", ("x", N(3, 1)), ("y", ("rec", ("z", N(5, 6)), ("w", N(7, 8))))),
    "lists": ("list", (2, 0, 1), ("rec", ("x", N(3, 1, 4)), ("y", ("str", (u"", u"tw\u00f6", u"c"))))),
    "lists of lists": ("list", (2, 0, 1), ("list", (1, 0, 2), ("rec", ("x", N(3, 1, 4))))),
    "missing": ("opt", (True, False, True, False), ("rec", ("x", N(3, 1, 4, 1)))),
    "lists of missing": ("list", (2, 0, 2), ("opt", (False, True, False, False), ("rec", ("x", N(3, 1, 4, 1))))),
    "missing lists": ("opt", (False, True, False), ("list", (2, 1, 1), ("rec", ("x", N(3, 1, 4, 1))))),
    "no rows": ("rec", ("x", N())),
    "empty lists": ("list", (0, 0), ("rec", ("x", N()))),
}


def own(x, views):
    """the same with tables that nothing else shares, and that are not views unless asked for"""
    if isinstance(x, Table):
        if views and x._view is not None:
            return x
        return Table(OrderedDict((n, own(x[n], views)) for n in x.columns))
    if isinstance(x, VirtualArray):
        return VirtualArray(ops.produce, (own(x.args[0], views),))
    if isinstance(x, ChunkedArray):
        return ChunkedArray([own(y, views) for y in x.chunks])
    if isinstance(x, UnionArray):
        return UnionArray(x.tags, x.index, [own(y, views) for y in x.contents])
    if isinstance(x, AwkwardArray) and "_content" in x.__dict__:
        return x.copy(content=own(x.content, views))
    return x


def column_tree(t, first=100):
    if t[0] == "rec":
        n = len(ops.value(t))
        return ("num", "i8", tuple(range(first, first + n)))
    return (t[0], t[1], column_tree(t[2], first))


def joined(v, new, name):
    if v is None:
        return None
    if isinstance(v, list):
        return [joined(x, y, name) for x, y in zip(v, new)]
    return dict(v, **{name: new})


def without(v, name):
    if isinstance(v, list):
        return [without(x, name) for x in v]
    return None if v is None else dict((k, x) for k, x in v.items() if k != name)


def field(v, name):
    if isinstance(v, list):
        return [field(x, name) for x in v]
    return None if v is None else v[name]


def singles(tree):
    return [()] + [((p, how),) for p, kind in ops.nodes(tree) for how in ops.options(kind)]


def may_refuse(tree, plan, column):
    kinds = dict(ops.nodes(tree))
    top = [p for p in kinds if kinds[p] == "rec"][0]
    for p, how in plan:
        p = tuple(p)
        if len(p) > len(top) or top[:len(p)] != p:
            continue
        if p == top and how in ("view", "step", "index"):
            return "view"
        if how == "chunked":
            return "chunks"
        if (how.startswith("layout") or how == "union" and any(h.startswith("layout") for _, h in column)) and "list" in [kinds[top[:i]] for i in range(len(p) if how == "union" else len(p) + 1, len(top))]:
            return "lists of lists with others in between"
    if any(h in ("masked", "maskedF", "bitmasked", "indexedmasked", "union", "union1") for _, h in column) or any(kinds[p] == "opt" for p in kinds):
        return "lists in something else"
    return None


def through_case(tree, plan, column, ctx):
    t = RECORDS[tree]
    ct = column_tree(t)
    a = own(ops.make(t, plan), any(how in ("view", "step", "index") for _, how in plan))
    c = ops.make(ct, column)
    rows, new = ops.value(t), ops.value(ct)
    expect(observe(a), rows, "array")
    before = physical(c)
    ctx.state(physical(a) + before)
    old = a[::-1]
    for name in ("new", "x"):
        ctx.step()
        try:
            a[name] = c
        except (ValueError, NotImplementedError, TypeError) as err:
            why = may_refuse(t, plan, column)
            if why is None or why == "chunks" and isinstance(err, ValueError) and "chunk sizes" not in str(err):
                raise
            ctx.outcome("refused " + type(err).__name__)
            expect(observe(a), rows, "after a refused assignment")
            return
        rows = joined(rows, new, name)
        ctx.outcome(expect(observe(a), rows, "after assigning %s" % name))
        expect(norm(a[name]), field(rows, name), "the column")
        expect(observe(a[::-1]), rows[::-1], "reversed")
        expect(observe(a[[i % 2 == 0 for i in range(len(rows))]]), rows[::2], "masked")
        expect(sorted(a.columns), sorted(field_names(t) | {"new"}), "columns")
        same_type(a)
        if physical(c) != before:
            raise Violation("the assigned array changed")
    wrong = wrong_lists(ct)
    if wrong is not None:
        w = ops.make(wrong, column)
        for name in ("new", "x", "other"):
            ctx.step()
            try:
                a[name] = w
            except Exception as err:
                ctx.outcome("refused " + type(err).__name__)
            else:
                raise Violation("a column with other lists was accepted: %s" % text(norm(a)))
            expect(observe(a), rows, "after a refused assignment")
            expect(sorted(a.columns), sorted(field_names(t) | {"new"}), "columns after a refused assignment")
    expect_error(lambda: a.__delitem__("nope"), "deleting an absent column") if leaves_in_use(t) else None
    expect_error(lambda: a.__delitem__(["new", "nope"]), "deleting an absent column") if leaves_in_use(t) else None
    expect(observe(a), rows, "after a refused deletion")
    try:
        a[["p", "q"]] = a[["new", "x"]]
    except (NotImplementedError, ValueError) as err:
        if "cannot broadcast lists in a" not in str(err) and "chunk sizes" not in str(err):
            raise
        expect(observe(a), rows, "after a refused assignment")
    else:
        rows = joined(joined(rows, new, "p"), new, "q")
        ctx.outcome(expect(observe(a), rows, "after assigning two columns"))
        del a[["p", "q"]]
    del a["new"]
    same_type(a)
    rows = without(without(without(rows, "new"), "p"), "q")
    ctx.outcome(expect(observe(a), rows, "after deleting"))
    expect(sorted(a.columns), sorted(field_names(t)), "columns")
    expect(len(old), len(rows), "an earlier selection")


def same_type(a):
    fresh = own(a, True).type
    if not a.type == fresh or not fresh == a.type:
        raise Violation("type is %s, a new array of the same parts has %s" % (a.type, fresh), "stale type")


def wrong_lists(ct):
    """the same with one element more in the last list that has any"""
    if ct[0] != "list" or not ct[1]:
        return None
    counts = list(ct[1])
    counts[-1] += 1
    return ("list", tuple(counts), column_like(ct[2]))


def column_like(ct):
    if ct[0] == "num":
        return ("num", "i8", ct[2] + (77,))
    if ct[0] == "opt":
        return ("opt", ct[1] + (False,), column_like(ct[2]))
    return ("list", ct[1] + (1,), column_like(ct[2]))


def leaves_in_use(t):
    return leaves_in_use(t[2]) if t[0] != "rec" else len(ops.value(t)) > 0


def field_names(t):
    return set(n for n, _ in t[1:]) if t[0] == "rec" else field_names(t[2])


# ---------------------------------------------------------------- rows
def row_case(shape, n, ctx):
    t, rows = build(shape, n)
    views = [("t", t, list(range(n)))]
    for where in [("slice", None, None, -1), ("slice", 1, None, None), ("slice", None, None, 2), ("slice", n - 1, 0, -1), ("take", list(range(n))[::-1]), ("mask", [i % 2 == 1 for i in range(n)])]:
        views.append((str(where), t[model.real(where)], model.select(list(range(n)), where)))
    for name, v, ids in list(views):
        if len(ids) > 1:
            views.append((name + "[1:]", v[1:], ids[1:]))
            views.append((name + "[::-1]", v[::-1], ids[::-1]))
    for name, v, ids in views:
        for k, i in enumerate(ids):
            row = v[k]
            ctx.step(6)
            for fname, f, want in (("+ 1", lambda r: r + 1, lambda x: x + 1), ("2 *", lambda r: 2 * r, lambda x: 2 * x), ("5 -", lambda r: 5 - r, lambda x: 5 - x)):
                got = f(row)
                ctx.outcome(expect(norm(got), show([dict((c, want(x)) for c, x in rows[i].items())], shape == "tuple")[0], "%s row %d %s" % (name, k, fname)))
            got = row + v[0]
            expect(norm(got), show([dict((c, (x or rows[ids[0]][c]) if isinstance(x, bool) else x + rows[ids[0]][c]) for c, x in rows[i].items())], shape == "tuple")[0], "%s row %d + first row" % (name, k))
            for other, w, jds in views:
                for m, j in enumerate(jds):
                    expect(row == w[m], all(text(rows[i][c]) == text(rows[j][c]) and rows[i][c] == rows[i][c] for c in rows[i]) or (i == j and text(rows[i]) == text(rows[j]) and row._table is w[m]._table), "%s row %d == %s row %d" % (name, k, other, m)) if i != j or not any(x != x for x in rows[i].values()) else None
                    if i != j:
                        expect(row != w[m], True, "%s row %d != %s row %d" % (name, k, other, m))
            expect(len(row), len(rows[i]), "len(row)")
            dir(row)
            str(row), repr(row)
    expect(t[0] == 3, False, "row == number") if n else None


def views_of(t, n):
    """(what, view, positions of its rows) of one and two selections"""
    out = [("t", t, list(range(n)))]
    for where in [("slice", None, None, -1), ("slice", 1, None, None), ("slice", None, None, 2), ("slice", n - 1, 0, -1), ("take", list(range(n))[::-1] + [0] * min(n, 1)), ("mask", [i % 2 == 1 for i in range(n)]), ("slice", 0, 0, None)]:
        out.append((str(where), t[model.real(where)], model.select(list(range(n)), where)))
    for name, v, ids in list(out):
        if len(ids) > 1:
            out.append((name + "[1:]", v[1:], ids[1:]))
            out.append((name + "[::-1]", v[::-1], ids[::-1]))
    return out


def each(f, v):
    return None if v is None else [each(f, x) for x in v] if isinstance(v, list) else dict((k, each(f, x)) for k, x in v.items()) if isinstance(v, dict) else f(v)


def convert_case(n, ctx):
    """conversions of a view convert what the view shows, nothing else"""
    cols = [("x", "i8", 2), ("y", "i4strided", 0), ("b", "bool", 1), ("j", "jag", 0), ("m", "mask", 0), ("d", "2d", 0), ("t", "tab", 0), ("i", "idx", 1), ("v", "vrt", 0), ("c", "chk", 0)]
    for picked in [cols[k:k + w] for w in (1, 2, len(cols)) for k in range(len(cols) - w + 1)] + [cols[::-1]]:
        t = Table(OrderedDict((c, KINDS[k].build(list(range(n + extra)))) for c, k, extra in picked))
        rows = [dict((c, KINDS[k].value(i)) for c, k, _ in picked) for i in range(n)]
        t = t if len(t) == n else t[:n]
        before = physical(t)
        names = [c for c, _, _ in picked]
        for what, v, ids in views_of(t, n):
            want = [rows[i] for i in ids]
            for how, got, f in (("astype(float)", lambda: v.astype(float), float), ("astype('i4')", lambda: v.astype(numpy.dtype("i4")), int), ("astype(bool)", lambda: v.astype(bool), bool),
                                ("zeros_like", lambda: v.zeros_like(), lambda x: type(x)(0)), ("ones_like", lambda: v.ones_like(), lambda x: type(x)(1))):
                ctx.step()
                g = got()
                ctx.outcome(expect(observe(g), each(f, want), "%s of %s of columns %s" % (how, what, names)))
                expect(columns_of(g), names, "columns")
                expect(len(g), len(ids), "len")
            ctx.step()
            g = v.fillna(7)
            ctx.outcome(expect(observe(g), [dict((c, 7 if c == "m" and x is None else x) for c, x in r.items()) for r in want], "fillna(7) of %s of columns %s" % (what, names)))
            g = v.empty_like()
            expect(columns_of(g), [], "columns of empty_like")
            for how, g in (("copy", v.copy()), ("deepcopy", v.deepcopy())):
                expect(observe(g), want, "%s of %s" % (how, what))
        if physical(t) != before:
            raise Violation("the base table changed")


def grid_case(n, m, ctx):
    """rows of columns that are matrices have rows of their own"""
    a = numpy.arange(n * m).reshape(n, m) + 100
    b = (numpy.arange(n * m * 2) * 0.5).reshape(n, m, 2)
    t = Table(a=a, b=b)
    for what, v, ids in views_of(t, n):
        for k, i in enumerate(ids):
            row = v[k]
            for j in range(m):
                ctx.step()
                ctx.outcome(expect(norm(row[j]["a"]), norm(a[i, j]), "%s row %d of row %d, column a" % (what, j, k)))
                expect(norm(row[j]["b"]), norm(b[i, j]), "%s row %d of row %d, column b" % (what, j, k))
                expect(norm(row[j].b), norm(b[i, j]), "%s row %d of row %d, attribute b" % (what, j, k))
                expect(norm(row[j].tolist()), {"a": norm(a[i, j]), "b": norm(b[i, j])}, "%s row %d of row %d" % (what, j, k))
                for l in range(2):
                    expect(norm(row[["b"]][j, l]["b"]), norm(b[i, j, l]), "%s row (%d, %d) of row %d" % (what, j, l, k))
                    expect(norm(row[["b"]][j][l]["b"]), norm(b[i, j, l]), "%s row %d of row %d of row %d" % (what, l, j, k))


def construct_case(ctx):
    """ways of building a table"""
    x, y = numpy.arange(3), numpy.arange(3) * 1.5
    rows = [{"x": i, "y": i * 1.5} for i in range(3)]
    ctx.step(9)
    look(Table({"x": x, "y": y}), rows, ["x", "y"], ctx)
    look(Table(OrderedDict([("y", y), ("x", x)])), rows, ["y", "x"], ctx)
    look(Table(x=x, y=[0.0, 1.5, 3.0]), rows, ["x", "y"], ctx)
    look(Table({"x": x}, y=y), rows, ["x", "y"], ctx)
    look(Table.frompairs([("x", x), ("y", y)]), rows, ["x", "y"], ctx)
    look(Table.frompairs([("x", x), ("y", y)], rowstart=5), rows, ["x", "y"], ctx, ids=[5, 6, 7])
    expect([repr(r) for r in Table.frompairs([("x", x)], rowstart=5)[::-1]], ["<Row 7>", "<Row 6>", "<Row 5>"], "rows of a view")
    rec = numpy.zeros(3, dtype=[("x", int), ("y", float)])
    rec["x"], rec["y"] = x, y
    look(Table.fromrec(rec), rows, ["x", "y"], ctx)
    look(Table.fromrec(rec[::-1])[::-1], rows, ["x", "y"], ctx, ids=[2, 1, 0])
    named = Table.named("Thing", x=x, y=y)
    look(named, rows, ["x", "y"], ctx)
    expect([repr(r) for r in named[1:]], ["<Thing 1>", "<Thing 2>"], "row name")
    expect(named[1:].rowname, "Thing", "row name of a view")
    look(Table(x, y), [{"0": r["x"], "1": r["y"]} for r in rows], ["0", "1"], ctx, True)
    expect_error(lambda: Table({"x": x}, x=y), "the same column twice")
    expect_error(lambda: Table({"x": x}, y), "a dict and a positional column")
    back = Table(x, y)
    expect([norm(c) for c in back.unzip()], [norm(x), norm(y)], "unzip")
    expect([norm(c) for c in Table(x=x, y=y)[::-1].unzip()], [norm(x)[::-1], norm(y)[::-1]], "unzip of a view")
    inner = Table(y, x)
    for pick in (slice(None), slice(None, None, -1), slice(1, None), numpy.array([2, 0]), slice(0, 0)):
        nested = Table(x[pick], inner[pick])
        want = [(i, i * 1.5, i) for i in norm(x[pick])]
        expect(norm(nested.flattentuple()), want, "flattentuple %s" % (pick,))
        outer = Table(x, inner)[pick]
        expect(norm(outer.flattentuple()), want, "flattentuple of a view %s" % (pick,))
        expect(norm(outer.flattentuple()[::-1]), want[::-1], "flattentuple of a view %s, reversed" % (pick,))
    expect(norm(Table(x=x, y=y)[::-1].regular()), rows[::-1], "regular of a view")


def units(tier):
    q = tier == "quick"
    for shape in SHAPES:
        for n in range((5 if shape in ("flat", "long") else 4) + (0 if q else 1)):
            yield ["explore", shape, n, 4 if q else 6, n >= 4 or shape not in ("flat", "long") and q]
    for n in range(4 if q else 5):
        for shape in ("flat", "rich", "deep", "lazy"):
            yield ["fromview", n, shape]
    for first in range(len(CHANGES)):
        for n in (0, 3):
            yield ["history", n, first, 3 if q else 4]
    yield ["shorthistory"]
    for layout in forms.LAYOUTS:
        if layout not in ("longstops",):
            yield ["nested", layout, 3]
    for wrap in ("masked", "indexed", "indexed2", "virtual", "chunked", "union", "subset"):
        yield ["wrapped", wrap]
    for tree in sorted(RECORDS):
        for plan in singles(RECORDS[tree]):
            yield ["through", tree, plan, not q]
    for shape in ("flat", "long", "one", "tuple"):
        yield ["row", shape]
    for n in range(4 if q else 6):
        yield ["convert", n]
    for n in range(4):
        yield ["grid", n]
    yield ["construct"]


def unit_of(case):
    return case[0]


def run_unit(unit, ctx):
    k = unit[0]
    if k == "explore":
        ctx.case([unit], explore_case, unit[1], unit[2], unit[3], unit[4], ctx)
    elif k == "fromview":
        ctx.case([unit], fromview_case, unit[1], unit[2], ctx)
    elif k == "shorthistory":
        for n in range(4):
            for d in range(2):
                for ops in itertools.product(CHANGES, repeat=d):
                    ctx.case([unit, n, list(ops)], history_case, n, ops, ctx)
    elif k == "history":
        for rest in itertools.product(CHANGES, repeat=unit[3] - 1):
            ctx.case([unit, list(rest)], history_case, unit[1], (CHANGES[unit[2]],) + rest, ctx)
    elif k == "nested":
        for counts in forms.count_vectors(unit[2], 2):
            for change_ in ("same", "other", "reversed", "broadcast", "scalar", "mismatch"):
                ctx.case([unit, counts, change_], nested_case, counts, unit[1], change_, ctx)
    elif k == "wrapped":
        for n in range(6):
            ctx.case([unit, n], wrapped_case, unit[1], n, ctx)
    elif k == "through":
        for second in [()] if not unit[3] else singles(RECORDS[unit[1]]):
            if any(how.startswith("union") for _, how in tuple(unit[2]) + tuple(second)) and unit[1] in ("no rows", "empty lists"):
                continue            # only the branches that are in use get the column
            for column in singles(column_tree(RECORDS[unit[1]])):
                plan = [(tuple(p), how) for p, how in unit[2]] + list(second)
                ctx.case([unit, second, column], through_case, unit[1], tuple(plan), column, ctx)
    elif k == "row":
        for n in range(5):
            ctx.case([unit, n], row_case, unit[1], n, ctx)
    elif k == "convert":
        ctx.case([unit], convert_case, unit[1], ctx)
    elif k == "grid":
        for m in (1, 2, 3):
            ctx.case([unit, m], grid_case, unit[1], m, ctx)
    elif k == "construct":
        ctx.case([unit], construct_case, ctx)
