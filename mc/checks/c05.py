"""C05: reducers."""
import itertools
import math

import numpy

import awkward0
from awkward0 import BitMaskedArray, ChunkedArray, IndexedArray, IndexedMaskedArray, JaggedArray, MaskedArray, SparseArray, Table, UnionArray, VirtualArray

from .. import forms
from ..core import Violation
from ..obs import norm, observe, physical, text

ID = "C05"
RULE = "every (row-count vector, layout, content kind) and every assignment of alphabet values to every structure, x every reducer; flat arrays of every kind; weighted moments; an outcome is non-trivial when its canonical value is distinct"
ASSUMPTIONS = ["mean, var and std are compared to a relative precision of 1e-9; everything else exactly, including the Python type class (bool, int, float) of the values",
               "the minimum and maximum of booleans are reported as floating-point numbers, as the current code does (the documentation does not fix this)",
               "an array of fixed-size subarrays reduces its innermost (fixed-size) dimension, as README.rst says"]
BOUNDS = {"quick": "rows<=3, row lengths<=2 and selected vectors; 11 layouts; 20 content kinds; every assignment from 3 to 7 values per dtype to structures with <=4 elements",
          "thorough": "rows<=4, row lengths<=3; 11 layouts; every assignment to structures with <=5 elements"}

REDUCERS = ["any", "all", "count", "count_nonzero", "sum", "prod", "min", "max", "mean", "var", "std"]
I8MIN, I8MAX = -2**63, 2**63 - 1
LIMITS = {"i8": (I8MIN, I8MAX), "u1": (0, 255), "i4": (-2**31, 2**31 - 1), "i1": (-128, 127), "f8": (-math.inf, math.inf), "f4": (-math.inf, math.inf), "bool": (-math.inf, math.inf)}


class KUN(forms.Kind):
    """union of integers and floating-point numbers"""

    name = "unum"

    def value(self, i):
        return float(100 + i) if i % 2 == 0 else i + 0.5

    def build(self, ids):
        tags = [0 if i < 0 or i % 2 == 0 else 1 for i in ids]
        c0 = [-5] + [100 + i if i >= 0 else -999 for i, t in zip(ids, tags) if t == 0]
        c1 = [i + 0.5 for i, t in zip(ids, tags) if t == 1]
        n0, n1, index = 1, 0, []
        for t in tags:
            index.append(n0 if t == 0 else n1)
            n0, n1 = n0 + (t == 0), n1 + (t == 1)
        return UnionArray(numpy.array(tags, dtype=numpy.uint8), numpy.array(index, dtype=numpy.int64), [numpy.array(c0, dtype=numpy.int64), numpy.array(c1, dtype=numpy.float64)])


forms.KINDS.setdefault("unum", KUN())


def kind_dtype(kind):
    return {"f8": "f8", "unum": "f8", "bool": "bool", "i4strided": "i4"}.get(kind, "i8")


def reduce(values, name, dtype):
    """Statistic of a list of numbers, None and NaN excluded."""
    v = [x for x in values if x is not None and x == x]
    lo, hi = LIMITS[dtype]
    fl = dtype[0] == "f" or (dtype == "bool" and name in ("min", "max"))
    if name == "any":
        return any(x != 0 for x in v)
    if name == "all":
        return all(x != 0 for x in v)
    if name == "count":
        return len(v)
    if name == "count_nonzero":
        return sum(1 for x in v if x != 0)
    if name == "sum":
        out = sum(float(x) if fl else int(x) for x in v)
        return float(out) if fl else out
    if name == "prod":
        out = 1
        for x in v:
            out = out * (float(x) if fl else int(x))
        return float(out) if fl else (out + 2**63) % 2**64 - 2**63
    if name == "min":
        return (float if fl else int)(min(v)) if v else hi
    if name == "max":
        return (float if fl else int)(max(v)) if v else lo
    if not v:
        return math.nan
    with numpy.errstate(all="ignore"):
        a = numpy.array(v, dtype=float)
        mean = a.sum() / len(v)
        var = (a**2).sum() / len(v) - mean**2
    return float({"mean": mean, "var": var, "std": numpy.sqrt(var)}[name])


def weighted(values, weights, name, n=1, ddof=0):
    v = [(float(x), float(w)) for x, w in zip(values, weights) if x is not None and x == x]
    denom = sum(w for x, w in v)
    if denom == 0:
        return math.nan
    mean = sum(x * w for x, w in v) / denom
    if name == "moment":
        return sum(x**n * w for x, w in v) / denom
    if name == "mean":
        return mean
    var = sum(x**2 * w for x, w in v) / denom - mean**2
    if ddof:
        with numpy.errstate(all="ignore"):
            var = float(numpy.float64(var) * denom / numpy.float64(denom - ddof))
    return float(numpy.sqrt(var)) if name == "std" else var


def close(a, b):
    if isinstance(a, list) and isinstance(b, list):
        return len(a) == len(b) and all(close(x, y) for x, y in zip(a, b))
    if isinstance(a, dict) and isinstance(b, dict):
        return set(a) == set(b) and all(close(a[k], b[k]) for k in a)
    if isinstance(a, bool) or isinstance(b, bool):
        return a is b
    if isinstance(a, (int, float)) and isinstance(b, (int, float)):
        return (a != a and b != b) or a == b or abs(a - b) <= 1e-9 * max(1.0, abs(a), abs(b))
    return text(a) == text(b)


def agree(got, want, what, exact):
    if (text(got) != text(want)) if exact else not close(got, want):
        raise Violation("%s: %s, expected %s" % (what, text(got), text(want)), "got " + text(got))
    return text(got)


def deep(v, name, dtype):
    """Reduce the innermost lists; records are reduced column by column."""
    if any(isinstance(x, list) for x in v):
        return [None if x is None else deep(x, name, dtype) for x in v]
    if any(isinstance(x, dict) for x in v):
        return dict((k, deep([None if x is None else x[k] for x in v], name, "f8" if k == "y" else "i8")) for k in [x for x in v if x is not None][0])
    return reduce(v, name, dtype)


def rows(v, name, kind):
    dtype = kind_dtype(kind)
    if kind in ("tab", "tabview"):
        return [deep(r, name, dtype) if r else {"x": reduce([], name, "i8"), "y": reduce([], name, "f8")} for r in v]
    if kind in ("jag", "jagc", "2d"):
        return [[reduce(x, name, dtype) for x in r] for r in v]
    return [reduce(r, name, dtype) for r in v]


KINDS = ("i8", "f8", "bool", "2d", "i4strided", "jag", "jagc", "tab", "tabview", "mask", "maskF", "imask", "bmask", "bmaskMF", "idx", "sparse", "chk", "vrt", "vrtcache", "unum")
FLAT = ("mask", "maskF", "imask", "bmask", "bmaskMF", "idx", "sparse", "chk", "vrt", "vrtcache", "tab", "tabview", "unum")
VECS = [[], [0], [2], [0, 0], [1, 2], [2, 2], [2, 0, 1], [0, 1, 0], [3, 1, 2], [0, 4, 0, 1]]
FEWLAYOUTS = ("offsets", "offjunk", "gaps", "reversed", "longstops", "emptyfar")
ALPHABET = {"i8": [0, 1, -2, I8MAX, I8MIN], "u1": [0, 1, 200], "i1": [0, -1, 100], "bool": [False, True], "f8": [0.0, 1.5, -2.0, math.nan, math.inf, -math.inf], "f4": [0.0, 0.5, math.nan]}
NP = {"i8": numpy.int64, "u1": numpy.uint8, "i1": numpy.int8, "bool": numpy.bool_, "f8": numpy.float64, "f4": numpy.float32}


def units(tier):
    vecs = VECS if tier == "quick" else list(forms.count_vectors(3, 3)) + [v for v in forms.count_vectors(4, 2) if len(v) == 4]
    for v in vecs:
        for layout in forms.LAYOUTS:
            for kind in KINDS:
                if kind in ("i8", "f8", "jag", "mask") or layout in FEWLAYOUTS or (tier != "quick" and len(v) < 4):
                    yield ["kind", v, layout, kind]
    for dtype in ALPHABET:
        cap = 4 if tier == "quick" else 5
        if len(ALPHABET[dtype]) > 3:
            cap -= 1
        for v in forms.count_vectors(3, cap):
            if sum(v) <= cap:
                yield ["values", v, dtype]
    for kind in FLAT:
        for n in range(7 if tier == "quick" else 12):
            yield ["flat", n, kind]
    for n in range(4 if tier == "quick" else 6):
        for kind in WRAPPED:
            yield ["wrapped", n, kind]
    for v in vecs:
        for layout in FEWLAYOUTS:
            yield ["weight", v, layout]
    for v in vecs:
        for layout in forms.LAYOUTS:
            yield ["derived", v, layout]


def unit_of(case):
    return case[0]


def all_reducers(ctx, a, want, what="", exact=True):
    before = physical(a)
    for name in REDUCERS:
        ctx.step()
        got = getattr(a, name)()
        ctx.outcome(name + agree(observe(got), want(name), what + name, exact and name not in ("mean", "var", "std")))
    if physical(a) != before:
        raise Violation("a reducer changed its operand", "operand changed")


def kind_case(v, layout, kind, ctx):
    a = forms.jagged(v, layout, kind)
    value = forms.jagged_value(v, kind)
    ctx.state(physical(a))
    all_reducers(ctx, a, lambda name: rows(value, name, kind), exact=kind != "unum")
    if kind in ("i8", "idx", "chk", "vrt", "mask"):
        ctx.step()
        want = [0 for r in value]
        for i, r in enumerate(value):
            for x in r:
                want[i] ^= x if x is not None else 0
        agree(observe(a.reduce(numpy.bitwise_xor, 0)), want, "reduce(bitwise_xor, 0)", True)
    if kind in ("jag", "jagc"):
        for name in ("sum", "max", "any", "count"):
            ctx.step()
            agree(observe(getattr(getattr(a, name)(), name)()), [reduce([reduce(x, name, "i8") for x in r], name, "bool" if name == "any" else "i8") for r in value], name + " twice", True)


def outer_case(v, layout, kind, ctx):
    """one more level of lists outside, and a table of jagged columns"""
    a = forms.jagged(v, layout, kind)
    value = forms.jagged_value(v, kind)
    for cut in range(len(v) + 1):
        b = JaggedArray.fromcounts([cut, len(v) - cut], a)
        for name in REDUCERS:
            ctx.step()
            w = rows(value, name, kind)
            agree(observe(getattr(b, name)()), [w[:cut], w[cut:]], "nested " + name, name not in ("mean", "var", "std"))
    t = Table(p=a, q=a[::-1])
    for name in REDUCERS:
        ctx.step()
        w = rows(value, name, kind)
        agree(observe(getattr(t, name)()), [{"p": x, "q": y} for x, y in zip(w, w[::-1])], "table of jagged columns " + name, name not in ("mean", "var", "std"))
        agree(observe(getattr(t[::-1], name)()), [{"p": x, "q": y} for x, y in zip(w[::-1], w)], "view of a table of jagged columns " + name, name not in ("mean", "var", "std"))


def values_case(v, dtype, values, ctx):
    it = iter(values)
    value = [[next(it) for _ in range(c)] for c in v]
    for layout in (("offsets", "gaps", "reversed", "longstops") if len(v) > 1 else ("offsets", "gaps")):
        a = forms.jagged_from_rows(value, layout, NP[dtype])
        before = physical(a)
        for name in REDUCERS:
            if dtype in ("i8",) and name in ("mean", "var", "std") and any(abs(x) > 10 for x in values):
                continue       # integer overflow
            if dtype in ("u1", "i1") and name in ("var", "std", "prod"):
                continue       # squares overflow the type
            ctx.step()
            want = [reduce(r, name, dtype) for r in value]
            if dtype == "i8" and name == "sum":
                want = [(x + 2**63) % 2**64 - 2**63 for x in want]
            ctx.outcome(name + agree(observe(getattr(a, name)()), want, "%s %s" % (layout, name), name not in ("mean", "var", "std")))
        if physical(a) != before:
            raise Violation("a reducer changed its operand", "operand changed")
    if len(v) == 1:      # flat Numpy columns, through a table
        flat = numpy.array(values, dtype=NP[dtype])
        for t in (Table(c=flat), Table(c=numpy.concatenate([[1], flat, [1]]).astype(NP[dtype]))[1 : 1 + len(flat)]):
            for name in REDUCERS:
                if (dtype == "i8" and name in ("sum", "prod", "mean", "var", "std") and any(abs(x) > 10 for x in values)) or (dtype in ("u1", "i1") and name in ("var", "std", "prod")):
                    continue
                ctx.step()
                got = getattr(t, name)()
                agree(norm(got), {"c": reduce(value[0], name, dtype)}, "flat table " + name, name not in ("mean", "var", "std"))


def flat_case(n, kind, ctx):
    for start in range(3):
        ids = list(range(start, start + n))
        a = forms.KINDS[kind].build(ids)
        v = [forms.KINDS[kind].value(i) for i in ids]
        before = physical(a)
        for name in REDUCERS:
            ctx.step()
            if kind in ("tab", "tabview"):
                want = {"x": reduce([x["x"] for x in v], name, "i8"), "y": reduce([x["y"] for x in v], name, "f8")}
            else:
                want = reduce(v, name, kind_dtype(kind))
            ctx.outcome(name + agree(norm(getattr(a, name)()), want, "%s of %s" % (name, v), kind != "unum" and name not in ("mean", "var", "std")))
        if physical(a) != before:
            raise Violation("a reducer changed its operand", "operand changed")
        # the same in reverse order and in every other element
        if kind not in ("bmask", "bmaskMF"):
            for where in (slice(None, None, -1), slice(1, None, 2)):
                for name in ("count", "sum", "min", "all") if isinstance(a[where], awkward0.array.base.AwkwardArray) else ():
                    ctx.step()
                    w = v[where]
                    want = dict((k, reduce([x[k] for x in w], name, "f8" if k == "y" else "i8")) for k in ("x", "y")) if kind in ("tab", "tabview") else reduce(w, name, kind_dtype(kind))
                    got = norm(getattr(a[where], name)())
                    if text(got) != text(want) and not (kind == "unum" and close(float(got), float(want)) and isinstance(want, float)):
                        agree(got, want, "%s of %s" % (name, w), True)


def wrapped(kind, values):
    """an array of these floats (None for missing) through something that is not Numpy"""
    x = numpy.array([-9.0 if v is None else v for v in values], dtype=float)
    n = len(x)
    if kind == "indexed":
        return IndexedArray(numpy.arange(n)[::-1], x[::-1])
    if kind == "virtual":
        return VirtualArray(lambda: x)
    if kind == "chunked":
        return ChunkedArray([x[:1], x[1:1], x[1:]])
    if kind == "masked":
        return MaskedArray(numpy.array([v is None for v in values], dtype=bool), x)
    if kind == "indexedmasked":
        return IndexedMaskedArray(numpy.array([-1 if v is None else n - 1 - i for i, v in enumerate(values)], dtype=int), x[::-1])
    if kind == "bitmasked":
        return BitMaskedArray.fromboolmask(numpy.array([v is None for v in values], dtype=bool), x)
    if kind == "sparse":
        where = [i for i in range(n) if values[i] != 0]
        return SparseArray(n, where, x[where])
    if kind == "union":
        return UnionArray([i % 2 for i in range(n)], [i // 2 for i in range(n)], [x[::2], x[1::2]])
    return IndexedArray(numpy.arange(n), VirtualArray(lambda: IndexedArray(numpy.arange(n), x)))


MISSING = ("masked", "indexedmasked", "bitmasked")
WRAPPED = ("indexed", "virtual", "chunked", "sparse", "union", "several") + MISSING


def wrapped_case(kind, values, ctx):
    """every reducer and moment of flat arrays, of a column and of lists of them, with NaN and missing values"""
    n = len(values)
    a = wrapped(kind, values)
    before = physical(a)
    ctx.state(before)
    w = [k + 1.0 for k in range(n)]
    lists = {"": (a, [values], False), "in a list": (JaggedArray.fromcounts([n, 0], a), [values, []], True), "in lists": (JaggedArray.fromcounts([0, 1, n - 1], a) if n else JaggedArray.fromcounts([], a), [[], values[:1], values[1:]] if n else [], True)}
    for where, (b, rows, nested) in lists.items():
        if kind == "union" and nested:
            continue        # (UnionArrays of numbers in lists: see kind_case)
        for name in REDUCERS:
            ctx.step()
            got = norm(getattr(b, name)())
            agree(got if nested else [got], [reduce(r, name, "f8") for r in rows], "%s of %s %s" % (name, text(values), where), name not in ("mean", "var", "std"))
        weights = {"none": (None, [[1.0] * len(r) for r in rows]), "scalar": (2, [[2.0] * len(r) for r in rows])}
        if not nested:
            weights["array"] = (numpy.array(w), [w])
        for wname, (real, model) in weights.items():
            for name, args, kw in (("mean", (), {}), ("var", (), {}), ("std", (), {}), ("moment", (1,), {}), ("moment", (2,), {}), ("moment", (3,), {})):
                ctx.step()
                want = [weighted(r, m, name, *(args or (1,)), **kw) for r, m in zip(rows, model)]
                got = norm(getattr(b, name)(*args, weight=real, **kw))
                ctx.outcome(name + agree(got if nested else [got], want, "%s%r of %s %s, weights: %s" % (name, args, text(values), where, wname), False))
    if physical(a) != before:
        raise Violation("a reducer changed its operand", "operand changed")


def weight_case(v, layout, ctx):
    for kind in ("i8", "f8", "mask", "imask"):
        a = forms.jagged(v, layout, kind)
        value = forms.jagged_value(v, kind)
        wrow = [k + 1 for k in range(len(v))]
        wjag = [[(3 * i + 2 * k) % 5 + 1 for k in range(c)] for i, c in enumerate(v)]
        wfirst = [[0 if k == 0 else 2 for k in range(c)] for i, c in enumerate(v)]
        for real, model in ((7, [[7] * c for c in v]), (numpy.array(wrow, dtype=int), [[w] * c for w, c in zip(wrow, v)]), (JaggedArray.fromiter(wjag) if any(v) else None, wjag), (forms.jagged_from_rows(wfirst, "gaps", float), wfirst)):
            if real is None:
                continue
            for name, args, kw in (("mean", (), {}), ("var", (), {}), ("std", (), {}), ("moment", (1,), {}), ("moment", (2,), {}), ("var", (), {"ddof": 1})):
                ctx.step()
                want = [weighted(r, w, name, *(args or (1,)), **kw) for r, w in zip(value, model)]
                if kw.get("ddof"):
                    got = observe(getattr(a, name)(*args, weight=real, **kw))
                    # a zero denominator gives an infinite or undefined value: only defined ones are compared
                    want = [x if math.isfinite(x) else g for x, g in zip(want, got)] if len(want) == len(got) else want
                else:
                    got = observe(getattr(a, name)(*args, weight=real, **kw))
                agree(got, want, "%s%r weight=%s %r" % (name, args, model, kw), False)
        for name, args in (("moment", (1,)), ("moment", (2,)), ("moment", (3,))):
            ctx.step()
            want = [weighted(r, [1] * len(r), name, *args) for r in value]
            agree(observe(getattr(a, name)(*args)), want, "moment%r" % (args,), False)


def derived_case(v, layout, kind, ctx):
    """reducers of selections and computed arrays"""
    a = forms.jagged(v, layout, kind)
    value = forms.jagged_value(v, kind)
    n = len(v)
    cases = [(a[::-1], value[::-1]), (a[1:], value[1:]), (a[:, ::-1] if n else a, [r[::-1] for r in value]), (a[:, :1] if n else a, [r[:1] for r in value]), (a[:, 1:] if n else a, [r[1:] for r in value]),
             (a[numpy.array([i % 2 == 1 for i in range(n)], dtype=bool)], value[1::2]), (a[numpy.array(list(range(n)) * 2, dtype=int)], value * 2)]
    if kind in ("i8", "f8"):
        cases.append((a[a > 101], [[x for x in r if x > 101] for r in value]))
        cases.append((a[a > 1e9], [[] for r in value]))
    for i, (b, w) in enumerate(cases):
        for name in REDUCERS:
            ctx.step()
            agree(observe(getattr(b, name)()), rows(w, name, kind), "selection %d, %s" % (i, name), name not in ("mean", "var", "std"))


def run_unit(unit, ctx):
    op = unit[0]
    if op == "kind":
        ctx.case([unit, "all"], kind_case, unit[1], unit[2], unit[3], ctx)
        if unit[3] in ("i8", "f8", "mask", "imask", "jag") and unit[1]:
            ctx.case([unit, "outer"], outer_case, unit[1], unit[2], unit[3], ctx)
    elif op == "values":
        for values in itertools.product(ALPHABET[unit[2]], repeat=sum(unit[1])):
            ctx.case([unit, [text(x) for x in values]], values_case, unit[1], unit[2], values, ctx)
    elif op == "flat":
        ctx.case([unit, "flat"], flat_case, unit[1], unit[2], ctx)
    elif op == "wrapped":
        alphabet = (0.0, 1.5, -2.0, math.nan) + ((None,) if unit[2] in MISSING else ())
        for values in itertools.product(alphabet, repeat=unit[1]):
            ctx.case([unit, [text(x) for x in values]], wrapped_case, unit[2], list(values), ctx)
    elif op == "weight":
        ctx.case([unit, "weight"], weight_case, unit[1], unit[2], ctx)
    else:
        for kind in ("i8", "f8", "mask", "imask", "tab", "idx", "chk"):
            ctx.case([unit, kind], derived_case, unit[1], unit[2], kind, ctx)
