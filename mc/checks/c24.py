"""C24: the reported type describes the data, and type equality is structural."""
import copy
import itertools
import json
import pickle

import numpy

import awkward0
import awkward0.type
from awkward0 import (AppendableArray, BitMaskedArray, ChunkedArray, IndexedArray, IndexedMaskedArray, JaggedArray, MaskedArray, ObjectArray, SparseArray, StringArray, Table, UnionArray, VirtualArray)
from awkward0.array.base import AwkwardArray
from awkward0.persist import json2type, type2json
from awkward0.type import ArrayType, OptionType, TableType, Type, UnionType

from .. import forms, model
from ..core import Violation
from ..forms import KINDS, Point, make_point
from ..obs import norm, observe, text
from . import c18

ID = "C24"
RULE = "every type expression up to the depth bound over primitive, fixed-shape, record, string and class types, every pair of them, every way of building them; every recursive system of equations up to the bound and every pair; every array class over every kind of content and every nesting of two containers, with the type of it and of its selections compared with its values; an outcome is non-trivial when its normal form is distinct"
ASSUMPTIONS = ["classes and other functions that make the elements of object arrays are all equal, other than str and bytes",
               "selecting from a union may leave out members that are not selected, and selecting from a SparseArray may give a union",
               "A | A is not A: members of a union are counted",
               "commuting fixed-size arrays with tables is not enumerated in recursive types"]
BOUNDS = {"quick": "about 900 expressions of depth up to 3 and all pairs of them; 18*18 recursive systems and all pairs of roots; 22 content kinds x 12 containers x lengths 0 to 4; 12 x 11 nested containers",
          "thorough": "about 3000 expressions of depth up to 3 and all pairs of them; 18*18 recursive systems of two and a part of those of three equations; 22 kinds x 12 containers x lengths 0 to 6; nested containers of every kind"}
CASE_SECONDS = 120
INF = float("inf")


# ---------------------------------------------------------------- models of types
# ("dt", spec) ("fun", name) ("arr", n, T) ("tab", ((n, T), ...)) ("uni", (T, ...)) ("opt", T)
class Other(object):
    pass


FUNCTIONS = {"str": str, "bytes": bytes, "Point": Point, "Other": Other, "make_point": make_point}
RECORD = [("a", "<i4"), ("b", "<f8", (2,))]
DTYPES = {"int64": numpy.dtype("i8"), "float64": numpy.dtype("f8"), "bool": numpy.dtype("?"), ">i4": numpy.dtype(">i4"), "sub": numpy.dtype(("i8", (3, 2))), "rec": numpy.dtype(RECORD), "rec2": numpy.dtype([("b", "<f8", (2,)), ("a", "<i4")]), "S3": numpy.dtype("S3")}


def build(t, how):
    """the awkward type of a model, built in one of several ways"""
    k = t[0]
    if k == "dt":
        if how == 1 and t[1] in ("int64", "float64", "bool"):
            return {"int64": numpy.int64, "float64": float, "bool": bool}[t[1]]
        return DTYPES[t[1]]
    if k == "fun":
        return FUNCTIONS[t[1]]
    if k == "arr":
        if how == 0:
            return ArrayType(t[1], build(t[2], how))
        if how == 1:
            takes = [t[1]]
            while t[2][0] == "arr":
                t = t[2]
                takes.append(t[1])
            return ArrayType(*(takes + [build(t[2], how)]))
        out = ArrayType(99, "i8")
        out.takes = numpy.int64(t[1]) if t[1] != INF else numpy.inf
        out.to = build(t[2], how)
        return out
    if k == "tab":
        if how == 0:
            out = TableType()
            for n, x in t[1]:
                out[n] = build(x, how)
            return out
        if how == 1:
            return TableType(**dict((n, build(x, how)) for n, x in t[1]))
        out = TableType()
        for n, x in reversed(t[1]):
            out = TableType(**{n: build(x, how)}) & out
        return out
    if k == "uni":
        if how == 0:
            return UnionType(*[build(x, how) for x in t[1]])
        if how == 1 or len(t[1]) < 2 or t[1][0][0] in ("dt", "fun"):
            out = UnionType()
            for x in t[1]:
                out.append(build(x, how))
            return out
        out = build(t[1][0], how)
        for x in t[1][1:]:
            out = out | build(x, how)
        return out
    out = OptionType(build(t[1], how))
    if how == 2:
        out = OptionType("i8")
        out.type = build(t[1], how)
    return out


def normal(t):
    """the normal form of a model"""
    k = t[0]
    if k == "dt":
        if t[1] == "sub":
            return ("arr", 3, ("arr", 2, ("dt", "int64")))
        if t[1] in ("rec", "rec2"):
            return ("tab", (("a", ("dt", "<i4")), ("b", ("arr", 2, ("dt", "float64")))))
        return t
    if k == "fun":
        return t if t[1] in ("str", "bytes") else ("fun",)
    if k == "arr":
        return ("arr", t[1], normal(t[2]))
    if k == "tab":
        return commute(tuple(sorted((n, normal(x)) for n, x in t[1])))
    if k == "uni":
        out = []
        for x in t[1]:
            x = normal(x)
            out += x[1] if x[0] == "uni" else [x]
        return ("uni", tuple(sorted(out, key=repr)))
    x = normal(t[1])
    return x if x[0] == "opt" else ("opt", x)


def commute(fields):
    if fields and all(x[0] == "arr" and x[1] != INF for n, x in fields) and len(set(x[1] for n, x in fields)) == 1:
        return ("arr", fields[0][1][1], commute(tuple((n, x[2]) for n, x in fields)))
    return ("tab", fields)


LEAVES = [("dt", "int64"), ("dt", "float64"), ("fun", "str"), ("fun", "bytes"), ("dt", "sub"), ("dt", "rec"), ("fun", "Point"), ("fun", "Other"), ("dt", ">i4")]


def level(xs, few):
    """every type with one more constructor"""
    out = []
    for x in xs:
        for n in (2, 3, INF):
            out.append(("arr", n, x))
        out.append(("tab", (("a", x),)))
        out.append(("tab", (("z", x),)))
        out.append(("opt", x))
        out.append(("uni", (x,)))
    for x in few:
        for y in few:
            out.append(("tab", (("a", x), ("b", y))))
            out.append(("tab", (("b", x), ("a", y))))
            out.append(("uni", (x, y)))
    for x, y, z in itertools.product(few[:3], repeat=3):
        out.append(("uni", (x, y, z)))
    return out


def expressions(tier):
    q = tier == "quick"
    one = LEAVES + [("dt", "rec2"), ("dt", "S3"), ("dt", "bool"), ("tab", ()), ("uni", ())]
    two = level(LEAVES, LEAVES[:4] if q else LEAVES)
    some = [t for t in two if not any(w in repr(t) for w in ("sub", "rec", ">i4", "Point", "Other", "bytes", "'z'"))]
    three = level(some, some[::9] if q else some[::4])
    seen, out = set(), []
    for t in one + two + three:
        if t not in seen:
            seen.add(t)
            out.append(t)
    return [t for t in out if t[0] not in ("dt", "fun")]


_cache = {}


def models(tier):
    if tier not in _cache:
        ts = expressions(tier)
        _cache[tier] = ts, [normal(t) for t in ts]
    return _cache[tier]


def equal(a, b, want, what):
    got = (a == b, b == a, not (a != b), not (b != a))
    if got != (want,) * 4:
        raise Violation("%s: ==, reversed ==, !=, reversed != say equal %s, expected %s" % (what, got, want), "equality %s" % (got,))
    if want and hash(a) != hash(b):
        raise Violation("%s: equal types with different hashes" % what, "hashes")


def expression_case(tier, i, ctx):
    """one expression: every way of building it, its text, copies, JSON; and against all others"""
    ts, ns = models(tier)
    t, n = ts[i], ns[i]
    ctx.outcome(repr(n))
    ctx.state(repr(n))
    a = build(t, 0)
    same = [("built by %d" % how, build(t, how)) for how in (1, 2)]
    same += [("pickled", pickle.loads(pickle.dumps(a))), ("deepcopied", copy.deepcopy(a)), ("JSON", json2type(json.loads(json.dumps(type2json(a))), whitelist=[["*"]]))]
    for what, b in same:
        ctx.step()
        equal(a, b, True, "%s: %s" % (text(t), what))
        if str(a) != str(b) and not what.startswith("built"):
            raise Violation("%s: %s has another text form:\n%s\n%s" % (text(t), what, a, b), "str")
    if (str(a), repr(a)) != (str(build(t, 0)), repr(build(t, 0))):
        raise Violation("%s: text form differs: %s" % (text(t), a), "str")
    if (str(a), repr(a)) != (str(a), repr(a)):
        raise Violation("%s: text form differs: %s" % (text(t), a), "str")
    if "fun" not in repr(t):
        ctx.step()
        equal(a, eval(repr(a), {"ArrayType": ArrayType, "TableType": TableType, "UnionType": UnionType, "OptionType": OptionType, "dtype": numpy.dtype, "inf": INF}), True, "%s: repr" % text(t))
    for other in (None, 3, "x", numpy.dtype("i8"), str, len):
        if a == other or not (a != other):
            raise Violation("%s equals %r" % (text(t), other), "equal")
    for name in ("a", "b", "z", "q"):
        ctx.step()
        got, want = bool(a.hascolumn(name)), hascolumn(n, name)
        if got != want:
            raise Violation("%s: hascolumn(%r) is %s, expected %s" % (text(t), name, got, want), "hascolumn %s" % got)
    before = str(a)
    built = built_all(tier)
    for j in range(i, len(ts)):
        ctx.step()
        equal(a, built[j], n == ns[j], "%s and %s" % (text(t), text(ts[j])))
    if str(a) != before:
        raise Violation("%s: comparing changed it to %s" % (before, a), "changed")


def hascolumn(n, name):
    if n[0] == "arr":
        return hascolumn(n[2], name)
    if n[0] == "opt":
        return hascolumn(n[1], name)
    if n[0] == "uni":
        return any(hascolumn(x, name) for x in n[1])
    return n[0] == "tab" and name in [m for m, x in n[1]]


_built = {}


def built_all(tier):
    if tier not in _built:
        _built[tier] = [build(t, 0) for t in models(tier)[0]]
    return _built[tier]


# ---------------------------------------------------------------- recursive types
def nodes(k):
    """what one equation of k can say: constructors over the unknowns 0..k-1 and a primitive (-1)"""
    r = list(range(-1, k))
    return [("arr", x) for x in r] + [("tab", x, y) for x in r for y in r] + [("uni", x) for x in r] + [("opt", x) for x in r]


def well(system):
    """no union right inside of a union, and no option right inside of an option"""
    for eq in system:
        if eq[0] in ("uni", "opt") and eq[1] >= 0 and system[eq[1]][0] == eq[0]:
            return False
    return True


def solve(system, how):
    out = []
    for eq in system:
        out.append({"arr": lambda: ArrayType(INF, "i8"), "tab": TableType, "uni": UnionType, "opt": lambda: OptionType("i8")}[eq[0]]())
    leaf = numpy.dtype("i8")
    order = list(range(len(system)))
    for i in order if how == 0 else order[::-1]:
        eq = system[i]
        get = lambda x: leaf if x < 0 else out[x]
        if eq[0] == "arr":
            out[i].to = get(eq[1])
        elif eq[0] == "tab":
            for n, x in (("a", eq[1]), ("b", eq[2])) if how == 0 else (("b", eq[2]), ("a", eq[1])):
                out[i][n] = get(x)
        elif eq[0] == "uni":
            for x in ((eq[1], None) if how == 0 else (None, eq[1])):
                out[i].append(numpy.dtype("f8") if x is None else get(x))
        else:
            out[i].type = get(eq[1])
    return out


def unroll(system, i, depth):
    """the type of unknown i, with the first levels written out"""
    done = solve(system, 0)

    def go(x, d):
        if x < 0:
            return numpy.dtype("i8")
        if d == 0:
            return done[x]
        eq = system[x]
        if eq[0] == "arr":
            return ArrayType(INF, go(eq[1], d - 1))
        if eq[0] == "tab":
            return TableType(a=go(eq[1], d - 1), b=go(eq[2], d - 1))
        if eq[0] == "uni":
            return UnionType(numpy.dtype("f8"), go(eq[1], d - 1))
        return OptionType(go(eq[1], d - 1))
    return go(i, depth)


def classes(systems):
    """bisimulation classes of the roots of all systems, by partition refinement"""
    states = [(s, i) for s in systems for i in range(len(s))]
    block = dict((p, p[0][p[1]][0]) for p in states)
    count = 0
    while True:
        sig = {}
        for s, i in states:
            eq = s[i]
            sig[s, i] = (eq[0],) + tuple("leaf" if x < 0 else block[s, x] for x in eq[1:])
        ids = {}
        new = dict((p, ids.setdefault(sig[p], len(ids))) for p in states)
        if len(ids) == count:
            return new
        count, block = len(ids), new


def systems(k, tier):
    out = [s for s in itertools.product(nodes(k), repeat=k) if well(s)]
    return out if k < 3 else out[::97]


def recursive_case(k, i, tier, ctx):
    key = ("systems", k, tier)
    if key not in _cache:
        ss = systems(k, tier)
        _cache[key] = ss, classes(ss), [solve(s, 0)[0] for s in ss]
    ss, cls, built = _cache[key]
    s = ss[i]
    a = solve(s, 0)[0]
    ctx.outcome("%d %d" % (k, cls[s, 0]))
    ctx.state("%d %r" % (k, s))
    for what, b in [("built in reverse", solve(s, 1)[0]), ("unrolled once", unroll(s, 0, 1)), ("unrolled three times", unroll(s, 0, 3)), ("JSON", json2type(json.loads(json.dumps(type2json(a))))), ("deepcopied", copy.deepcopy(a))]:
        ctx.step()
        equal(a, b, True, "%s: %s" % (s, what))
    if (str(a), repr(a)) != (str(solve(s, 0)[0]), repr(solve(s, 0)[0])):
        raise Violation("%s: text form differs: %s" % (s, a), "str")
    for j in range(i, len(ss)):
        ctx.step()
        equal(a, built[j], cls[s, 0] == cls[ss[j], 0], "%s and %s" % (s, ss[j]))


def bundle_case(indexes, ctx):
    """several recursive types side by side: each keeps its own label"""
    key = ("systems", 1, "all")
    if key not in _cache:
        ss = systems(1, "quick")
        _cache[key] = ss, classes(ss)
    ss, cls = _cache[key]

    def bundle(picked, how=0):
        t = TableType()
        for k, i in enumerate(picked) if how == 0 else reversed(list(enumerate(picked))):
            t["f%d" % k] = ArrayType(k + 1, solve(ss[i], how)[0])
        return t
    a = bundle(indexes)
    ctx.state(text(indexes))
    for what, b in [("built in reverse", bundle(indexes, 1)), ("JSON", json2type(json.loads(json.dumps(type2json(a))))), ("JSON twice", json2type(type2json(json2type(type2json(a))))), ("deepcopied", copy.deepcopy(a)), ("pickled", pickle.loads(pickle.dumps(a)))]:
        ctx.step()
        equal(a, b, True, "%s: %s" % (indexes, what))
        for k, i in enumerate(indexes):
            equal(b["f%d" % k], ArrayType(k + 1, solve(ss[i], 0)[0]), True, "%s: %s, field %d" % (indexes, what, k))
    for other in (indexes[1:] + indexes[:1], indexes[::-1], [0] + indexes[1:], indexes[:-1] + [0]):
        ctx.step()
        equal(a, bundle(other), [cls[ss[i], 0] for i in indexes] == [cls[ss[i], 0] for i in other], "%s and %s" % (indexes, other))
    ctx.outcome(text([cls[ss[i], 0] for i in indexes]))


def names_case(names, ctx):
    """columns of record types, of records of Numpy and of combinations of them"""
    record = numpy.dtype([(n, "i4" if k % 2 else "f8") for k, n in enumerate(names)])
    table = TableType(*[]) if not names else TableType(**dict((n, numpy.dtype("i8")) for n in names))
    other = TableType(z=numpy.dtype("i8"))
    for n in "abcdz":
        want = n in names
        for what, t, w in [("records", ArrayType(3, record), want), ("list of records", ArrayType(3, INF, record), want), ("table", table, want), ("tables", ArrayType(3, INF, table), want), ("missing records", ArrayType(2, OptionType(record)), want), ("missing rows", OptionType(table), want),
                           ("union", table | other, want or n == "z"), ("reversed union", other | table, want or n == "z"), ("union in list", ArrayType(INF, UnionType(numpy.dtype("f8"), table)), want), ("union of records", ArrayType(5, UnionType(ArrayType(2, record), other)), want or n == "z")]:
            ctx.step()
            if bool(t.hascolumn(n)) != w:
                raise Violation("%s with columns %s: hascolumn(%r) is %s" % (what, names, n, t.hascolumn(n)), "hascolumn " + what)
    ctx.outcome(text(names))


# ---------------------------------------------------------------- types of arrays
def to_model(t, depth=0):
    """a model of what a type says, read from its public attributes"""
    if depth > 30:
        raise Violation("type nests without end")
    if isinstance(t, ArrayType):
        return ("arr", t.takes, to_model(t.to, depth + 1))
    if isinstance(t, TableType):
        return ("tab", tuple((n, to_model(t[n], depth + 1)) for n in t.columns))
    if isinstance(t, UnionType):
        return ("uni", tuple(to_model(t[i], depth + 1) for i in range(len(t))))
    if isinstance(t, OptionType):
        return ("opt", to_model(t.type, depth + 1))
    if isinstance(t, numpy.dtype):
        return ("dt", str(t))
    return ("fun", getattr(t, "__name__", repr(t)))


def member(v, t):
    """is a plain value one of type t?"""
    if isinstance(t, ArrayType):
        return type(v) is list and (t.takes == INF or len(v) == t.takes) and all(member(x, t.to) for x in v)
    if isinstance(t, TableType):
        if type(v) is tuple:
            v = dict((str(i), x) for i, x in enumerate(v))
        return type(v) is dict and sorted(v) == sorted(t.columns) and all(member(v[n], t[n]) for n in v)
    if isinstance(t, UnionType):
        return any(member(v, t[i]) for i in range(len(t)))
    if isinstance(t, OptionType):
        return v is None or member(v, t.type)
    if isinstance(t, numpy.dtype):
        if t.subdtype is not None or t.names is not None:
            return member(v, awkward0.type.fromnumpy((), t) if t.subdtype is not None else TableType(**dict((n, t[n]) for n in t.names)))
        return type(v) is {"b": bool, "i": int, "u": int, "f": float, "c": complex, "S": bytes, "U": str}.get(t.kind)
    if t is str or t is bytes:
        return type(v) is t
    return isinstance(v, Point) if t is make_point or t is Point else callable(t)


I, F, B = ("dt", "int64"), ("dt", "float64"), ("dt", "bool")
KIND_TYPES = {"i8": I, "f8": F, "bool": B, "2d": ("arr", 2, I), "strided": ("dt", "int32"), "jag": ("arr", INF, I), "jagc": ("arr", INF, I), "tab": ("tab", (("x", I), ("y", F))), "tabview": ("tab", (("x", I), ("y", F))), "str": ("fun", "str"), "mask": ("opt", I), "maskF": ("opt", I), "imask": ("opt", I), "bmask": ("opt", I), "bmaskMF": ("opt", I), "idx": I, "sparse": I, "chk": I, "uni": ("uni", (I, ("arr", INF, I))), "obj": ("fun", "make_point"), "vrt": I, "vrtcache": I}
KIND_NAMES = [k for k in KINDS if k in KIND_TYPES]


def held(holder, t):
    """type of a container of elements of type t (of c18.hold)"""
    if holder.startswith("jagged"):
        return ("arr", INF, t)
    if holder in ("masked", "bitmasked", "indexedmasked"):
        return ("opt", t)
    if holder == "table":
        return None
    return t


def dtype_of(t):
    """the Numpy type of one element, None if there is none"""
    if isinstance(t, numpy.dtype):
        return t
    if isinstance(t, OptionType):
        return dtype_of(t.type)
    if isinstance(t, TableType):
        fields = []
        for n in t.columns:
            x = t[n]
            dims = x.shape if isinstance(x, (awkward0.type.Type, numpy.dtype)) else ()
            d = dtype_of(x)
            if dims != () or d is None:
                return None
            fields.append((n, d))
        return numpy.dtype(fields)
    if isinstance(t, ArrayType) and t.takes != INF:
        return dtype_of(t.to)
    return None if isinstance(t, UnionType) else numpy.dtype(object)


def described(a, t, what):
    want = dtype_of(t)
    try:
        got = a.dtype
    except TypeError:
        got = None                  # documented: no Numpy dtype
    if got != want:
        raise Violation("%s: dtype %s, expected %s for %s" % (what, got, want, t), "dtype of records")


def describe(a, ctx, want=None, what="", elements=True):
    """type, shape, dtype and length of an array describe its values"""
    ctx.step()
    v = norm(a)
    t = a.type if isinstance(a, AwkwardArray) else awkward0.type.fromarray(a)
    u = awkward0.type.fromarray(a)
    if not (t == u and str(t) == str(u)):
        raise Violation("%s: type %s but type.fromarray %s" % (what, t, u), "fromarray %s" % u)
    if not isinstance(t, ArrayType) or t.takes != len(a) or len(a) != len(v):
        raise Violation("%s: length %d, type %s, values %s" % (what, len(a), t, text(v)), "length %s" % t)
    if not member(v, t):
        raise Violation("%s: type %s doesn't describe %s" % (what, str(t), text(v)), "type %s" % t)
    got = to_model(t.to)
    if want is not None and got != want:
        raise Violation("%s: type %s, expected elements %s" % (what, text(got), text(want)), "type %s" % text(got))
    shape = a.shape
    if not isinstance(shape, tuple) or len(shape) == 0 or shape[0] != len(v):
        raise Violation("%s: shape %s, values %s" % (what, shape, text(v)), "shape %s" % (shape,))
    if shape != t.shape:
        raise Violation("%s: shape %s, type %s" % (what, shape, t), "shape %s" % (shape,))
    inner, dims = got, ()
    while inner[0] == "arr" and inner[1] != INF:
        dims += (inner[1],)
        inner = inner[2]
    if inner[0] != "opt":
        if shape[1:] != dims:
            raise Violation("%s: shape %s, type %s" % (what, shape, t), "shape %s" % (shape,))
        if inner[0] == "tab":
            described(a, t, what)
        elif inner[0] != "uni":
            d = a.dtype
            if d != (numpy.dtype(inner[1]) if inner[0] == "dt" else numpy.dtype(object)):
                raise Violation("%s: dtype %s, type %s" % (what, d, t), "dtype %s" % d)
    if hasattr(a, "ndim") and a.ndim != len(shape):
        raise Violation("%s: ndim %s, shape %s" % (what, a.ndim, shape), "ndim")
    if str(t) != str(a.type if isinstance(a, AwkwardArray) else awkward0.type.fromarray(a)):
        raise Violation("%s: type changed" % what, "type changed")
    return got


def selections(n):
    yield ("slice", None, None, -1)
    yield ("slice", 1, None, None)
    yield ("slice", n, None, None)
    yield ("slice", None, None, 2)
    yield ("mask", [i % 2 == 1 for i in range(n)])
    yield ("mask", [False] * n)
    yield ("take", list(range(n))[::-1] + ([0] if n else []))
    yield ("take", [])


def battery(a, want, sparse, ctx, what):
    got = describe(a, ctx, want, what)
    ctx.outcome(text(got))
    n = len(a)
    for where in selections(n):
        x = a[model.real(where)]
        describe(x, ctx, None if sparse else got, "%s%s" % (what, where))
    for i in range(n):
        x = a[i]
        if isinstance(x, (AwkwardArray, numpy.ndarray)) and getattr(x, "shape", ()) != ():
            describe(x, ctx, got[2] if got[0] == "arr" and not sparse else None, "%s[%d]" % (what, i))


def array_case(kind, holder, n, ctx):
    a = c18.hold(holder, lambda ids: KINDS[kind].build(ids), n)[0]
    ctx.state(forms.__name__ + "%s %s %d" % (kind, holder, n))
    t = held(holder, KIND_TYPES[kind])
    battery(a, t if holder not in ("union", "table") else None, "sparse" in (kind, holder) or "uni" in (kind, holder[:3]), ctx, "%s in %s: " % (kind, holder))


def nested_case(kind, outer, inner, n, ctx):
    b, f = c18.hold(inner, lambda ids: KINDS[kind].build(ids), n)[:2]
    m = len(f([0] * n))
    if m == 0 and outer in ("jagged gaps", "indexed", "indexedmasked"):
        return
    a = c18.hold(outer, lambda ids: b[numpy.array([i if i >= 0 else 0 for i in ids], dtype=int)] if m else b, m)[0]
    sparse = "sparse" in (kind, outer, inner) or "uni" in (kind, outer[:3], inner[:3])
    t = held(outer, held(inner, KIND_TYPES[kind])) if "table" not in (inner, outer) else None
    ctx.state("%s %s %s %d" % (kind, inner, outer, n))
    battery(a, None if sparse or "union" in (inner, outer) or t is None else t, sparse, ctx, "%s in %s in %s: " % (kind, inner, outer))


def table_case(n, ctx):
    x, y = numpy.arange(n), numpy.arange(n) * 1.5
    inner = JaggedArray.fromcounts(c18.jag_counts(n), x)
    m = len(inner)
    base = Table.frompairs([("z", numpy.arange(m)), ("a", inner)])
    want = ("tab", (("z", I), ("a", ("arr", INF, I))))
    for what, t in [("table", base), ("view", base[::-1]), ("view of a view", base[::-1][1:]), ("by index", base[numpy.arange(m)[::-1]])]:
        battery(t, want, False, ctx, what)
        battery(t[["a"]], ("tab", (("a", want[1][1][1]),)), False, ctx, what + "[['a']]")
        battery(t["a"], ("arr", INF, I), False, ctx, what + "['a']")
    for what, t, w in [("anonymous", Table(x, y), ("tab", (("0", I), ("1", F)))),
                       ("no columns", Table(), ("tab", ())),
                       ("different lengths", Table(x=x, y=numpy.arange(n + 2)), ("tab", (("x", I), ("y", I)))),
                       ("of tables", Table(x=x, t=Table(y=y)), ("tab", (("x", I), ("t", ("tab", (("y", F),)))))),
                       ("2d starts", JaggedArray(numpy.arange(2 * n).reshape(n, 2), numpy.arange(2 * n).reshape(n, 2) + 1, numpy.arange(2 * n)), ("arr", 2, ("arr", INF, I))),
                       ("2d index", IndexedArray(numpy.arange(2 * n).reshape(n, 2), numpy.arange(2 * n) * 0.5), ("arr", 2, F)),
                       ("jagged 3d", JaggedArray.fromcounts([0, n, 0], numpy.zeros((n, 2, 3))), ("arr", INF, ("arr", 2, ("arr", 3, F)))),
                       ("3d starts", JaggedArray(numpy.arange(6 * n).reshape(n, 2, 3), numpy.arange(6 * n).reshape(n, 2, 3) + 1, numpy.arange(6 * n)), ("arr", 2, ("arr", 3, ("arr", INF, I)))),
                       ("3d index", IndexedArray(numpy.arange(6 * n).reshape(n, 2, 3), numpy.arange(6 * n) * 0.5), ("arr", 2, ("arr", 3, F))),
                       ("3d index of 2d", IndexedArray(numpy.arange(6 * n).reshape(n, 2, 3), numpy.zeros((6 * n, 5))), ("arr", 2, ("arr", 3, ("arr", 5, F)))),
                       ("3d tags", UnionArray(numpy.arange(6 * n).reshape(n, 2, 3) % 2, numpy.arange(6 * n).reshape(n, 2, 3), [numpy.arange(6 * n), numpy.arange(6 * n) * 0.5]), ("arr", 2, ("arr", 3, ("uni", (I, F))))),
                       ("3d sparse", SparseArray(n, numpy.arange(n // 2), numpy.zeros((n // 2, 2, 3))), ("arr", 2, ("arr", 3, F))),
                       ("3d chunks", ChunkedArray([numpy.zeros((n, 2, 3))]), ("arr", 2, ("arr", 3, F))),
                       ("3d mask", MaskedArray(numpy.arange(n) % 2 == 0, numpy.zeros((n, 2, 3))), ("opt", ("arr", 2, ("arr", 3, F)))),
                       ("3d appendable", AppendableArray((5, 2, 3), numpy.float64, [numpy.zeros((5, 2, 3))] * (n // 5)), ("arr", 2, ("arr", 3, F))) if n % 5 == 0 else ("3d", numpy.zeros((n, 2, 3)), ("arr", 2, ("arr", 3, F))),
                       ("masked 2d", MaskedArray(numpy.arange(n) % 2 == 0, numpy.zeros((n, 2))), ("opt", ("arr", 2, F))),
                       ("pairs", inner.pairs(), ("arr", INF, ("tab", (("0", I), ("1", I))))),
                       ("cross", inner.cross(inner + 0.5), ("arr", INF, ("tab", (("0", I), ("1", F))))),
                       ("counts", inner.counts, I), ("sum", inner.sum(), I), ("argmax", inner.argmax(), ("arr", INF, I)), ("compared", inner > 1, ("arr", INF, B)), ("divided", inner / 2, ("arr", INF, F)),
                       ("bytes", StringArray.fromiter([b"x" * i for i in range(n)], encoding=None), ("fun", "bytes")),
                       ("records", numpy.zeros(n, dtype=[("a", "i8"), ("b", "f8")]), ("tab", (("a", I), ("b", F)))),
                       ("masked numpy", numpy.ma.MaskedArray(x, mask=x % 2 == 1), ("opt", I)),
                       ("one chunk", ChunkedArray([y]), F), ("empty chunks", ChunkedArray([x[:0], x, x[:0]]), I)]:
        if n > 0 or not (what == "bytes"):
            describe(t, ctx, w, what)
    used = AppendableArray((2, 3), "f4")
    for i in range(n):
        describe(used, ctx, ("arr", 3, ("dt", "float32")), "appendable")
        used.append([i, i, i])
    describe(used, ctx, ("arr", 3, ("dt", "float32")), "appendable")


def virtual_case(n, ctx):
    """a virtual array has the type it is given, and an array of another type is refused"""
    made = [numpy.arange(n), numpy.arange(n) * 1.5, numpy.zeros((n, 2)), JaggedArray.fromcounts([2] * n, numpy.arange(2 * n)), Table(x=numpy.arange(n)), Table(x=numpy.arange(n), y=numpy.arange(n)), MaskedArray(numpy.zeros(n, dtype=bool), numpy.arange(n)), JaggedArray.fromcounts([1] * n, MaskedArray(numpy.zeros(n, dtype=bool), numpy.arange(n))), UnionArray.fromtags([0] * n, [numpy.arange(n), Table(x=[1])]), numpy.arange(n + 1), StringArray.fromiter(["a"] * n)]
    types = [awkward0.type.fromarray(a) for a in made]
    lax = {(6, 0), (7, 3)}
    for i, a in enumerate(made):
        for j, t in enumerate(types):
            ctx.step()
            v = VirtualArray(lambda a=a: a, type=t)
            if not (v.type == t and v.shape == t.shape and len(v) == t.takes):
                raise Violation("virtual array of type %s has type %s" % (t, v.type), "type")
            if v.ismaterialized:
                raise Violation("asking for the type materialized the array", "materialized")
            fits = (i == j or (j, i) in lax)
            try:
                v.array
                ok = True
            except TypeError:
                ok = False
            if ok != fits:
                raise Violation("an array of type %s is %s by a VirtualArray of type %s" % (types[i], "accepted" if ok else "refused", t), "accepted %s" % ok)
            if ok:
                describe(v, ctx, None, "materialized")


def cyclic_case(n, ctx):
    """arrays that contain themselves have recursive types"""
    a = JaggedArray([1] + [0] * n, [n + 1] + [0] * n, [])
    a.content = a
    t = ArrayType(INF, "i8")
    t.to = t
    equal(a.type, ArrayType(n + 1, t), True, "JaggedArray of itself")
    equal(a.type, ArrayType(n + 1, ArrayType(INF, ArrayType(INF, t))), True, "JaggedArray of itself, unrolled")
    equal(a.type, ArrayType(n + 2, t), False, "JaggedArray of itself")
    equal(a.type, ArrayType(n + 1, ArrayType(INF, "i8")), False, "JaggedArray of itself")
    table = Table(label=numpy.arange(n + 1))
    table["children"] = JaggedArray([1] + [0] * n, [n + 1] + [0] * n, table)
    r = TableType(label=numpy.dtype("i8"))
    r["children"] = ArrayType(INF, r)
    equal(table.type, ArrayType(n + 1, r), True, "tree")
    equal(table["children"].type, ArrayType(n + 1, ArrayType(INF, r)), True, "tree")
    equal(table[::-1].type, ArrayType(n + 1, r), True, "tree")
    masked = Table(label=numpy.arange(n + 1))
    masked["next"] = IndexedMaskedArray(list(range(1, n + 1)) + [-1], masked)
    l = TableType(label=numpy.dtype("i8"))
    l["next"] = OptionType(l)
    equal(masked.type, ArrayType(n + 1, l), True, "linked list")
    equal(masked.type, ArrayType(n + 1, r), False, "linked list and tree")
    union = UnionArray([0] + [1] * n, [0] + list(range(n)), [numpy.arange(1), numpy.arange(n)])
    union.contents = [numpy.arange(1), JaggedArray([0] * n, [1] * n, union)] if n else [numpy.arange(1), JaggedArray([], [], union)]
    u = UnionType(numpy.dtype("i8"))
    u.append(ArrayType(INF, u))
    equal(union.type, ArrayType(n + 1, u), True, "union")
    w = UnionType()
    w.append(ArrayType(INF, w))
    w.append(numpy.dtype("i8"))
    equal(union.type, ArrayType(n + 1, w), True, "union in another order")
    for x in (a, table, masked, union):
        ctx.step()
        ctx.outcome(str(x.type))
        if str(x.type) != str(x.type) or repr(x.type) != repr(x.type):
            raise Violation("text form isn't deterministic", "str")


def units(tier):
    q = tier == "quick"
    ts = models(tier)[0]
    for i in range(0, len(ts), 25):
        yield ["expr", i, min(i + 25, len(ts)), tier]
    for k in (1, 2) if q else (1, 2, 3):
        n = len(systems(k, tier))
        for i in range(0, n, 20):
            yield ["recursive", k, i, min(i + 20, n), tier]
    for i in range(len(systems(1, tier))):
        yield ["bundle", i, 3 if q else 4]
    for n in range(5):
        yield ["names", n]
    top = 5 if q else 7
    for kind in KIND_NAMES:
        for holder in c18.HOLDERS:
            for n in range(top):
                yield ["array", kind, holder, n]
    for outer in c18.HOLDERS:
        for inner in c18.HOLDERS[1:]:
            for kind in ("i8", "2d", "tabview", "str", "mask", "jag", "obj") if q else KIND_NAMES:
                for n in (0, 4) if q else (0, 3, 5):
                    yield ["nested", kind, outer, inner, n]
    for n in range(top):
        yield ["table", n]
        yield ["virtual", n]
        yield ["cyclic", n]


def unit_of(case):
    return case[0]


def run_unit(unit, ctx):
    op = unit[0]
    if op == "expr":
        for i in range(unit[1], unit[2]):
            ctx.case([unit, i], expression_case, unit[3], i, ctx)
    elif op == "recursive":
        for i in range(unit[2], unit[3]):
            ctx.case([unit, i], recursive_case, unit[1], i, unit[4], ctx)
    elif op == "bundle":
        for rest in itertools.product(range(len(systems(1, "quick"))), repeat=unit[2] - 1):
            ctx.case([unit, list(rest)], bundle_case, [unit[1]] + list(rest), ctx)
    elif op == "names":
        for names in itertools.permutations("abcd", unit[1]):
            ctx.case([unit, list(names)], names_case, list(names), ctx)
    elif op == "array":
        ctx.case([unit], array_case, unit[1], unit[2], unit[3], ctx)
    elif op == "nested":
        ctx.case([unit], nested_case, unit[1], unit[2], unit[3], unit[4], ctx)
    else:
        ctx.case([unit], {"table": table_case, "virtual": virtual_case, "cyclic": cyclic_case}[op], unit[1], ctx)
