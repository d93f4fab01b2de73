"""C16: a virtual array is what it generates, whatever its cache forgets."""
import gc
import itertools
import operator
import weakref
from collections import OrderedDict

import numpy

import awkward0
from awkward0 import ChunkedArray, JaggedArray, Table, VirtualArray
from awkward0.array.base import AwkwardArray

from .. import forms, model
from ..core import Violation
from ..forms import KINDS
from ..obs import expect, expect_error, norm, observe, physical, text
from . import c04, c05, c11

ID = "C16"
RULE = "every history up to the depth of reads, evictions, column assignments and deletions, failures of the generator, copies, changes of the cache and births and deaths of other virtual arrays in the same cache, for every kind of cache and of declared type, on virtual tables and virtual lists of records; every content kind x every kind of cache x the selection, operator and structure batteries; after every step the value and the number of generator calls are compared with an eager model"
ASSUMPTIONS = ["virtual arrays with the same persistent key in the same cache are the same array (as documented)",
               "a shallow copy shares its content, as for every other class, so columns are not assigned to it here",
               "after a cache was replaced by another one, entries left in the old one are the user's responsibility (as documented)"]
BOUNDS = {"quick": "histories of 3 operations (18 operations, 8 kinds of cache, with and without a declared type; 2 operations for 3 of the caches), 2-array histories of 4 operations, 18 content kinds with 6 kinds of cache",
          "thorough": "histories of 4 operations, 2-array histories of 6 operations"}


class Forgets(object):
    """a cache that stores nothing"""
    def __getitem__(self, k):
        raise KeyError(k)

    def __setitem__(self, k, v):
        pass

    def __delitem__(self, k):
        raise KeyError(k)

    def clear(self):
        pass

    def __contains__(self, k):
        return False

    def has(self, k):
        return False


class Small(object):
    """a cache of one entry"""
    size = 1

    def __init__(self):
        self.d = OrderedDict()

    def __getitem__(self, k):
        return self.d[k]

    def __setitem__(self, k, v):
        self.d.pop(k, None)
        self.d[k] = v
        while len(self.d) > self.size:
            self.d.popitem(last=False)

    def __delitem__(self, k):
        del self.d[k]

    def __contains__(self, k):
        return k in self.d

    def clear(self):
        self.d.clear()


class Once(Small):
    """a cache that gives an entry once and then forgets it"""
    size = 100

    def __getitem__(self, k):
        return self.d.pop(k)


class Strings(Small):
    """a cache that only takes strings"""
    size = 100

    def __getitem__(self, k):
        return self.d[str(k)]

    def __setitem__(self, k, v):
        self.d[str(k)] = v

    def __delitem__(self, k):
        del self.d[str(k)]

    def __contains__(self, k):
        return str(k) in self.d


class Bare(object):
    """a cache with nothing but the three required methods"""
    def __init__(self):
        self.d = {}

    def __getitem__(self, k):
        return self.d[k]

    def __setitem__(self, k, v):
        self.d[k] = v

    def __delitem__(self, k):
        del self.d[k]


CACHES = OrderedDict([("none", lambda: None), ("dict", dict), ("persistent", dict), ("forgets", Forgets), ("small", Small), ("once", Once), ("strings", Strings), ("bare", Bare)])
EXACT = ("none", "dict", "persistent", "small", "strings", "bare")


def clear(cache):
    if cache is None:
        return False
    if hasattr(cache, "clear"):
        cache.clear()
    else:
        cache.d.clear()
    return True


N = 3


class Fails(Exception):
    pass


class World(object):
    def __init__(self, cache, typed, shape):
        self.calls = 0
        self.failing = 0
        self.shape = shape
        self.cachename = cache
        self.cache = CACHES[cache]()
        self.counts = [2, 0, 1]
        self.cols = OrderedDict([("x", [100, 101, 102]), ("y", [0.0, 1.5, 3.0])])
        self.fresh_ = 0
        self.cached = False
        t = awkward0.type.fromarray(self.make()) if typed else None
        self.typed = typed
        self.v = VirtualArray(self.generate, cache=self.cache, persistentkey="name" if cache == "persistent" else None, type=t)
        self.others = []
        self.modified = False

    def make(self):
        t = Table(OrderedDict([("x", numpy.array([100, 101, 102])), ("y", numpy.array([0.0, 1.5, 3.0]))]))
        return t if self.shape == "table" else JaggedArray.fromcounts(self.counts, t)

    def generate(self):
        if self.failing:
            self.failing -= 1
            raise Fails("generator")
        self.calls += 1
        return self.make()

    def value(self):
        rows = [dict((c, v[i]) for c, v in self.cols.items()) for i in range(N)]
        return rows if self.shape == "table" else self.nest(rows)

    def nest(self, flat):
        out, at = [], 0
        for c in self.counts:
            out.append(list(flat[at:at + c]))
            at += c
        return out

    def column(self, c):
        return self.cols[c] if self.shape == "table" else self.nest(self.cols[c])

    def new(self):
        self.fresh_ += 1
        v = [1000 * self.fresh_ + i for i in range(N)]
        a = numpy.array(v)
        return v, a if self.shape == "table" else JaggedArray.fromcounts(self.counts, a)


def needs(w, fn, ctx, what, data=True):
    """run fn and compare the number of generator calls"""
    before = w.calls
    cached = w.cached
    out = fn()
    made = w.calls - before
    if w.cachename in EXACT:
        want = 1 if data and not cached else 0
        if made != want:
            raise Violation("%s: the generator was called %d times, expected %d" % (what, made, want), "%d calls" % made)
    elif not data and made and w.cachename == "forgets":
        raise Violation("%s: the generator was called although no data are needed" % what, "%d calls" % made)
    elif data and w.cachename == "forgets" and not made:
        raise Violation("%s: the generator was not called although nothing can be cached" % what)
    if data:
        w.cached = True
    return out


OPS = ["read", "column", "row", "selection", "sum", "attributes", "evict", "set z", "set x", "set pq", "set zx", "del x", "del z", "del xy", "refused", "fail", "deepcopy", "other"]


def step(w, op, ctx):
    v = w.v
    ctx.step()
    if op == "read":
        if w.cols or w.shape == "table":
            got = needs(w, lambda: v.tolist() if w.cols else v[:], ctx, op)
        if w.cols:
            expect(norm(got), w.value(), "tolist()")
    elif op == "column":
        for c in list(w.cols)[:1]:
            expect(norm(needs(w, lambda: v[c], ctx, op)), w.column(c), "column " + c)
    elif op == "row":
        if w.cols:
            expect(norm(needs(w, lambda: v[2], ctx, op)), w.value()[2], "row")
    elif op == "selection":
        if w.cols:
            expect(norm(needs(w, lambda: v[::-1], ctx, op)), w.value()[::-1], "reversed")
    elif op == "sum":
        if w.cols:
            with numpy.errstate(all="ignore"):
                expect(norm(needs(w, lambda: v + 1, ctx, op)), c04.apply(operator.add, w.value(), 1), "+ 1")
    elif op == "attributes":
        if w.cols:
            expect(needs(w, lambda: len(v), ctx, "len", not w.typed), N, "len")
            expect(norm(needs(w, lambda: v.shape, ctx, "shape", not w.typed)), (N,), "shape")
            expect(str(needs(w, lambda: v.type, ctx, "type", not w.typed)), str(awkward0.type.fromarray(eager(w))), "type")
        got = needs(w, lambda: v.columns, ctx, "columns")
        expect(list(got), list(w.cols), "columns")
        if w.cachename in EXACT:
            expect(bool(needs(w, lambda: v.ismaterialized, ctx, "ismaterialized", False)), True, "ismaterialized")
    elif op == "evict":
        if clear(w.cache):
            w.cached = False
            if w.cachename in EXACT:
                expect(bool(needs(w, lambda: v.ismaterialized, ctx, "ismaterialized", False)), False, "ismaterialized")
    elif op.startswith("set "):
        names = list(op[4:])
        new = [w.new() for _ in names]
        if len(names) == 1:
            needs(w, lambda: v.__setitem__(names[0], new[0][1]), ctx, op)
        else:
            both = Table(OrderedDict((c, n[1]) for c, n in zip("ab", new))) if w.shape == "table" else JaggedArray.fromcounts(w.counts, Table(OrderedDict((c, n[1].content) for c, n in zip("ab", new))))
            needs(w, lambda: v.__setitem__(names, both), ctx, op)
        for c, (n, _) in zip(names, new):
            w.cols[c] = n
        w.modified = True
    elif op.startswith("del "):
        names = list(op[4:])
        if all(c in w.cols for c in names):
            needs(w, lambda: v.__delitem__(names[0] if len(names) == 1 else names), ctx, op)
            for c in names:
                del w.cols[c]
            w.modified = True
        else:
            before = w.calls
            expect_error(lambda: v.__delitem__(names[0] if len(names) == 1 else names), "deleting an absent column")
            w.cached = w.cached or w.calls > before
    elif op == "refused":
        before = w.calls
        expect_error(lambda: v.__setitem__(3, numpy.arange(N)), "assigning to a row")
        expect_error(lambda: v.__delitem__("absent"), "deleting an absent column")
        expect_error(lambda: v["absent"], "an absent column")
        w.cached = w.cached or w.calls > before
    elif op == "fail":
        if (not w.cached or w.cachename in ("forgets", "once")) and (w.cols or w.shape == "table"):
            w.failing = 1
            try:
                v[:]
            except Fails:
                pass
            else:
                if w.failing == 0:
                    raise Violation("the error of the generator disappeared")
            w.failing = 0
    elif op == "deepcopy":
        if w.cachename != "persistent":
            d = v.deepcopy()
            w.others.append((d, w.value(), list(w.cols)))
            if w.cols and w.cachename == "none":
                if w.cached and w.shape == "table":
                    d["new"] = numpy.arange(N)
                    w.others[-1] = (d, [dict(r, new=i) for i, r in enumerate(w.value())], list(w.cols) + ["new"])
    elif op == "other":
        # another array is born in the same cache, used, and dies; and one stays
        n = w.calls
        for k in range(2):
            o = VirtualArray(lambda k=k: numpy.arange(k, 5), cache=w.cache)
            expect(norm(o[:]), list(range(k, 5)), "another array")
            expect(norm(o + 1), list(range(k + 1, 6)), "another array + 1")
            del o
        if w.cachename == "small":
            w.cached = False
        w.others.append((VirtualArray(lambda: numpy.arange(2, 5), cache=w.cache), [2, 3, 4], None))
        expect(w.calls, n, "calls of this array's generator")


def eager(w):
    t = Table(OrderedDict((c, numpy.array(v)) for c, v in w.cols.items()))
    return t if w.shape == "table" else JaggedArray.fromcounts(w.counts, t)


def final(w, ctx):
    for k in range(2):
        if w.cols:
            ctx.outcome(expect(observe(w.v), w.value(), "value"))
            for c in w.cols:
                expect(norm(w.v[c]), w.column(c), "column " + c)
        expect(list(w.v.columns), list(w.cols), "columns")
        for v, want, cols in w.others:
            if cols is None or cols:
                expect(norm(v), want, "another array")
            if cols:
                expect(list(v.columns), cols, "columns of another array")
        if k == 0:
            clear(w.cache)
    ctx.state("%s %s %s %s" % (w.cachename, w.typed, list(w.cols.items()), w.cached))
    ctx.step(3)


def history_case(cache, typed, shape, ops, ctx):
    w = World(cache, typed, shape)
    for op in ops:
        step(w, op, ctx)
    final(w, ctx)


# ---------------------------------------------------------------- two arrays, one cache
PAIR = ["read a", "read b", "add", "evict", "set a", "set b", "new a", "new b", "kill a"]


def pair_case(cache, ops, ctx):
    """two arrays at a time in one cache; arrays may die and others be born in their place"""
    store = CACHES[cache]()
    alive, born = {}, [0]

    def birth(name):
        born[0] += 1
        k = 10 * born[0]
        alive[name] = VirtualArray(lambda: Table(OrderedDict([("x", numpy.array([k, k + 1]))])), cache=store), OrderedDict([("x", [k, k + 1])])
    birth("a")
    birth("b")
    for op in ops:
        ctx.step()
        name = op[-1]
        if op.startswith("read"):
            v, cols = alive[name]
            expect(norm(v), [dict((c, x[i]) for c, x in cols.items()) for i in range(2)], op)
            del v
        elif op == "add":
            expect(norm(alive["a"][0]["x"] + alive["b"][0]["x"]), [x + y for x, y in zip(alive["a"][1]["x"], alive["b"][1]["x"])], op)
        elif op == "evict":
            clear(store)
        elif op.startswith("set"):
            born[0] += 1
            new = [100 * born[0], 100 * born[0] + 1]
            alive[name][0]["z"] = numpy.array(new)
            alive[name][1]["z"] = new
        elif op.startswith("new"):
            del alive[name]
            birth(name)
        elif op == "kill a":
            del alive["a"]
            gc.collect(0)
            if isinstance(store, dict):
                stay = [k for k in store if isinstance(k, VirtualArray.TransientKey)]
                if len(stay) > 1:
                    raise Violation("a dead array left its entry in the cache")
            birth("a")
    for name in "ab":
        v, cols = alive[name]
        ctx.outcome(expect(observe(v), [dict((c, x[i]) for c, x in cols.items()) for i in range(2)], "finally " + name))
    ctx.state(text([list(alive[n][1].items()) for n in "ab"]) + cache)


# ---------------------------------------------------------------- an array and its copies
COPY = ["copy", "swap", "set z", "set x", "del x", "del y", "evict", "read"]


def copy_case(cache, shape, how, ops, ctx):
    """copies of an array whose columns changed change by themselves"""
    store = CACHES[cache]()
    counts = [2, 0, 1]

    def make():
        t = Table(OrderedDict([("x", numpy.array([100, 101, 102])), ("y", numpy.array([0.0, 1.5, 3.0]))]))
        return t if shape == "table" else JaggedArray.fromcounts(counts, t)

    def check(pair, what):
        v, cols = pair
        want = [dict((c, x[i]) for c, x in cols.items()) for i in range(N)]
        expect(list(v.columns), list(cols), what + ": columns")
        if cols:
            expect(norm(v), want if shape == "table" else [want[:2], [], want[2:]], what)
    made = 0
    pairs = [(VirtualArray(make, cache=store), OrderedDict([("x", [100, 101, 102]), ("y", [0.0, 1.5, 3.0])]))]
    for op in ops:
        ctx.step()
        v, cols = pairs[0]
        if op == "copy":
            w = v.copy() if how == "copy" else v.deepcopy()
            pairs = [(w, OrderedDict(cols))] + pairs
        elif op == "swap":
            pairs = pairs[1:] + pairs[:1]
        elif op == "evict":
            clear(store)
        elif op == "read":
            check(pairs[0], "read")
        elif op.startswith("set"):
            made += 1
            new = [1000 * made + i for i in range(N)]
            v[op[-1]] = numpy.array(new) if shape == "table" else JaggedArray.fromcounts(counts, numpy.array(new))
            cols[op[-1]] = new
        elif op[-1] in cols:
            del v[op[-1]]
            del cols[op[-1]]
    for again in range(2):
        for k, pair in enumerate(pairs):
            check(pair, "array %d, finally" % k)
        clear(store)
    ctx.state(cache + shape + text([list(c.items()) for v, c in pairs]))
    ctx.outcome(text([list(c.items()) for v, c in pairs]))


# ---------------------------------------------------------------- every operation on every content
CONTENTS = ("i8", "f8", "bool", "2d", "i4strided", "jag", "jagc", "tab", "tabview", "str", "mask", "imask", "idx", "sparse", "uni", "obj", "vrt", "chk")


def fresh(kind, n, cache, wrap, typed=False):
    t = awkward0.type.fromarray(KINDS[kind].build(list(range(n)))) if typed else None
    make = lambda ids, t=None: VirtualArray(KINDS[kind].build, (ids,), cache=cache, type=t)
    if wrap == "plain":
        return make(list(range(n)), t)
    if wrap == "double":
        return VirtualArray(make, (list(range(n)),), cache=cache, type=t)
    if wrap == "chunks":
        return ChunkedArray([make(list(range(n // 2))), make(list(range(n // 2, n)))])


def content_case(kind, n, cachename, wrap, typed, ctx):
    v = [KINDS[kind].value(i) for i in range(n)]
    make = lambda: fresh(kind, n, CACHES[cachename](), wrap, typed)
    if wrap == "plain" or wrap == "double":
        c11.battery(make, v, kind, ctx, True, False)
    c11.selections(make(), v, kind, ctx)
    if n and kind in ("i8", "f8", "bool", "2d", "jag"):
        ctx.step(2)
        c11.check(ctx, 1 + make(), c04.apply(operator.add, 1, v), "1 +")
        c11.check(ctx, make() + make(), c04.apply(operator.add, v, v), "+ itself")


def shared_case(kind, cachename, ctx):
    """a table and a list of lists whose parts are virtual and compete for one cache"""
    cache = CACHES[cachename]()
    ids = [0, 1, 2]
    v = [KINDS[kind].value(i) for i in ids]
    parts = [VirtualArray(KINDS[kind].build, (ids,), cache=cache) for _ in range(3)]
    t = Table(OrderedDict(zip("abc", parts)))
    rows = [dict(a=x, b=x, c=x) for x in v]
    ctx.step(4)
    expect(observe(t), rows, "table of virtual columns")
    expect(observe(t[::-1]), rows[::-1], "reversed")
    expect(observe(t[1:]["b"]), v[1:], "column")
    expect(observe(t[["c", "a"]]), [dict(a=x, c=x) for x in v], "columns")
    if kind in ("i8", "f8", "jag"):
        c11.check(ctx, t["a"] + t["b"] + t["c"], [c04.apply(operator.add, c04.apply(operator.add, x, x), x) for x in v], "sum of columns")
        c11.check(ctx, t + t, [dict((k, c04.apply(operator.add, x, x)) for k in "abc") for x in v], "table + table")
    j = JaggedArray.fromcounts([2, 0, 1], VirtualArray(KINDS[kind].build, (ids,), cache=cache))
    want = [v[:2], [], v[2:]]
    expect(observe(j), want, "virtual content")
    expect(observe(j[::-1]), want[::-1], "virtual content, reversed")
    expect(norm(j.flatten()), v, "flatten")
    c = ChunkedArray(parts)
    expect(observe(c), v * 3, "virtual chunks")
    expect(observe(c[::-2]), (v * 3)[::-2], "virtual chunks, reversed")
    if kind in ("i8", "f8"):
        c11.check(ctx, c + c, [x + x for x in v * 3], "chunks + chunks")


def wrongtype_case(cachename, ctx):
    """an array that turns out to be something else than declared is refused, again and again"""
    cache = CACHES[cachename]()
    for t, make in ((awkward0.type.ArrayType(3, numpy.dtype(float)), lambda: numpy.arange(3)), (awkward0.type.ArrayType(4, numpy.dtype(int)), lambda: numpy.arange(3)), (awkward0.type.fromarray(JaggedArray.fromcounts([1], [1])), lambda: numpy.arange(1))):
        v = VirtualArray(make, cache=cache, type=t)
        expect(len(v), t.takes, "len")
        for k in range(3):
            ctx.step()
            expect_error(lambda: v[:], "array of another type")
            expect_error(lambda: v + 1, "array of another type")
            expect_error(lambda: v.tolist(), "array of another type")
            expect(bool(v.ismaterialized), False, "ismaterialized")
    # refused when it is made: nothing is left for the finaliser to trip over (see the monitor in mc/core.py)
    for args, kwargs in (((3,), {}), ((None,), {}), ((len, 3), {}), ((len, (), 3), {}), ((len,), {"persistentkey": 3}), ((len,), {"type": 3.5}), ((len,), {"cache": 3}), ((len,), {"nbytes": "x"}), ((len,), {"persistvirtual": 3, "other": 4})):
        ctx.step()
        try:
            v = VirtualArray(*args, **kwargs)
        except (TypeError, ValueError):
            pass
        v = None
    v = VirtualArray.__new__(VirtualArray)
    v = None
    gc.collect()


def swap_case(ops, ctx):
    """the user replaces or removes the cache; another array may take the place of the first"""
    calls, base = [0], [0]

    def born(cache):
        base[0] += 10
        k = base[0]

        def make():
            calls[0] += 1
            return numpy.arange(k, k + 3)
        return VirtualArray(make, cache=cache)
    caches = [None, {}, {}]
    v, used = born(None), set()
    for op in ops:
        ctx.step()
        k = base[0]
        if op == "read":
            expect(norm(v + 1), [k + 1, k + 2, k + 3], "value")
            if not v.ismaterialized:
                raise Violation("not materialized after reading")
        elif op == "clear":
            for c in caches[1:]:
                c.clear()
        elif op == "new":
            if len(used) > 1 or used and not used == {id(v.cache)}:
                caches = [None, {}, {}]     # what was left behind in other caches is the user's responsibility
            v = None
            v = born(caches[1])
            used = {id(caches[1])}
        else:
            v.cache = caches[int(op)]
            if op != "0":
                used.add(id(v.cache))
            bool(v.ismaterialized)
    k = base[0]
    expect(norm(v), [k, k + 1, k + 2], "value finally")
    n = calls[0]
    expect(norm(v[::-1]), [k + 2, k + 1, k], "value finally")
    expect(calls[0], n, "calls when nothing was evicted")


def units(tier):
    q = tier == "quick"
    depth = 3 if q else 4
    for cache in CACHES:
        for shape in ("table", "lists"):
            for first in OPS:
                yield ["history", cache, shape, first, depth - (q and cache in ("none", "strings", "bare"))]
    for cache in ("dict", "small", "once", "forgets", "none", "strings"):
        for first in PAIR:
            yield ["pair", cache, first, 4 if q else 6]
        for kind in CONTENTS:
            yield ["content", cache, kind]
            yield ["shared", cache, kind]
        yield ["wrongtype", cache]
    for cache in ("dict", "forgets", "none"):
        for shape in ("table", "lists"):
            for how in ("copy", "deepcopy"):
                if cache != "none" or how == "deepcopy":
                    for first in COPY[:1] + COPY[2:]:
                        yield ["copies", cache, shape, how, first, 3 if q else 5]
    for d in range(1, 5 if q else 7):
        yield ["swap", d]


def unit_of(case):
    return case[0]


def run_unit(unit, ctx):
    op = unit[0]
    if op == "history":
        for d in range(unit[4]):
            for rest in itertools.product(OPS, repeat=d):
                for typed in (False, True):
                    ctx.case([unit, list(rest), typed], history_case, unit[1], typed, unit[2], (unit[3],) + rest, ctx)
    elif op == "pair":
        for rest in itertools.product(PAIR, repeat=unit[3] - 1):
            ctx.case([unit, list(rest)], pair_case, unit[1], (unit[2],) + rest, ctx)
    elif op == "content":
        for n in range(4):
            for wrap in ("plain", "double", "chunks"):
                for typed in (False, True):
                    ctx.case([unit, n, wrap, typed], content_case, unit[2], n, unit[1], wrap, typed, ctx)
    elif op == "copies":
        for rest in itertools.product(COPY, repeat=unit[5]):
            ops = (unit[4],) + rest
            if "copy" in ops:
                ctx.case([unit, list(rest)], copy_case, unit[1], unit[2], unit[3], ops, ctx)
    elif op == "shared":
        ctx.case([unit], shared_case, unit[2], unit[1], ctx)
    elif op == "wrongtype":
        ctx.case([unit], wrongtype_case, unit[1], ctx)
    elif op == "swap":
        for ops in itertools.product(("read", "clear", "new", "0", "1", "2"), repeat=unit[1]):
            ctx.case([unit, list(ops)], swap_case, ops, ctx)
