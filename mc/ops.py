"""Values, their representations and an alphabet of operations (shared by C25 and C27).

tree      a value with its structure: ("num", dtype, values), ("str", values), ("list", counts, tree),
          ("rec", (name, tree), ...), ("opt", mask, tree)
nodes     paths of the parts of a tree
make      array of a tree with some parts in other representations
OPS       name -> function of (array, unwrapped array of the same value)
"""
import itertools

import numpy

import awkward0
from awkward0 import (BitMaskedArray, ChunkedArray, IndexedArray, IndexedMaskedArray, JaggedArray, MaskedArray, SparseArray, StringArray, Table, UnionArray, VirtualArray)
from awkward0.array.base import AwkwardArray

from . import forms

N = lambda dtype, *values: ("num", dtype, values)

TREES = {
    "ints": N("i8", 3, -1, 4, 1),
    "floats": N("f8", 2.5, float("nan"), -1.0),
    "bools": N("?", True, False, True),
    "one": N("i8", 7),
    "none": N("i8"),
    "lists": ("list", (2, 0, 3, 1), N("i8", 3, 1, 4, 1, 5, -9)),
    "floatlists": ("list", (1, 3, 0), N("f8", 0.5, 2.0, -1.5, 2.0)),
    "boollists": ("list", (2, 0, 1), N("?", True, False, False)),
    "same": ("list", (2, 2, 2), N("i8", 3, 1, 4, 1, 5, 9)),
    "nolists": ("list", (0, 0), N("i8")),
    "deep": ("list", (2, 0, 1), ("list", (1, 2, 3), N("i8", 3, 1, 4, 1, 5, -9))),
    "rows": ("rec", ("x", N("i8", 3, 1, 4)), ("y", N("f8", 0.5, -2.0, 8.5))),
    "rowsoflists": ("rec", ("x", N("i8", 3, 1, 4)), ("y", ("list", (2, 0, 1), N("i8", 1, 2, 3)))),
    "listsofrows": ("list", (2, 0, 1), ("rec", ("x", N("i8", 3, 1, 4)), ("y", N("f8", 0.5, -2.0, 8.5)))),
    "nested rows": ("rec", ("x", N("i8", 3, 1)), ("y", ("rec", ("z", N("i8", 5, 6)), ("w", N("f8", 0.5, 1.5))))),
    "missing": ("opt", (False, True, False, False), N("i8", 3, 1, 4, 1)),
    "listsofmissing": ("list", (2, 0, 2), ("opt", (False, True, False, False), N("i8", 3, 1, 4, -1))),
    "missinglists": ("opt", (False, True, False), ("list", (2, 1, 0), N("i8", 3, 1, 4))),
    "missingrows": ("opt", (True, False, False), ("rec", ("x", N("i8", 3, 1, 4)), ("y", N("f8", 0.5, -2.0, 8.5)))),
    "strings": ("str", (u"one", u"", u"tw\u00f6")),
    "listsofstrings": ("list", (1, 0, 2), ("str", (u"one", u"", u"tw\u00f6"))),
}


def value(tree):
    if tree[0] in ("num", "str"):
        return list(tree[-1])
    if tree[0] == "list":
        content, out, k = value(tree[2]), [], 0
        for c in tree[1]:
            out.append(content[k:k + c])
            k += c
        return out
    if tree[0] == "rec":
        return [dict(zip([n for n, _ in tree[1:]], v)) for v in zip(*[value(t) for _, t in tree[1:]])]
    if tree[0] == "opt":
        return [None if m else x for m, x in zip(tree[1], value(tree[2]))]


def nodes(tree, path=()):
    yield path, tree[0]
    if tree[0] in ("list", "opt"):
        for x in nodes(tree[2], path + (0,)):
            yield x
    if tree[0] == "rec":
        for i, (n, t) in enumerate(tree[1:]):
            for x in nodes(t, path + (i,)):
                yield x


def take(a, ids):
    ids = [i if i >= 0 else 0 for i in ids]
    return a[numpy.array(ids, dtype=int)]


def produce(a):
    return a


WRAPPERS = ["chunked", "indexed", "virtual", "masked", "maskedF", "bitmasked", "indexedmasked", "sparse", "union", "union1"]


def wrap(how, a):
    n = len(a)
    if how == "chunked":
        return ChunkedArray([a[:1], a[1:1], a[1:]])
    if how == "indexed":
        return IndexedArray(numpy.arange(n, 0, -1) - (0 if n else 0), take(a, [0] + list(range(n))[::-1])) if n else IndexedArray(numpy.array([], dtype=int), a)
    if how == "virtual":
        return VirtualArray(produce, (a,))
    if how == "masked":
        return MaskedArray(numpy.zeros(n, dtype=bool), a)
    if how == "maskedF":
        return MaskedArray(numpy.ones(n, dtype=bool), a, maskedwhen=False)
    if how == "bitmasked":
        return BitMaskedArray.fromboolmask(numpy.zeros(n, dtype=bool), a)
    if how == "indexedmasked":
        return IndexedMaskedArray(numpy.arange(n)[::-1].copy(), take(a, list(range(n))[::-1]) if n else a)
    if how == "sparse":
        return SparseArray(n, numpy.arange(n), a)
    if how == "union":
        return UnionArray(numpy.arange(n) % 2, numpy.arange(n) // 2, [a[::2], a[1::2]])
    if how == "union1":
        return UnionArray(numpy.zeros(n, dtype=numpy.uint8), numpy.arange(n), [a])
    raise ValueError(how)


def options(kind):
    if kind == "list":
        return WRAPPERS + ["layout " + x for x in forms.LAYOUTS[1:]]
    if kind == "rec":
        return WRAPPERS + ["view", "step", "index"]
    if kind == "num":
        return WRAPPERS + ["strided", "reversed"]
    return WRAPPERS


def make(tree, plan=(), path=()):
    """plan: ((path, representation), ...), innermost first for equal paths"""
    mine = [how for p, how in plan if tuple(p) == path]
    layout = [h for h in mine if h.startswith("layout") or h in ("view", "step", "index", "longer", "strided", "reversed")]
    if tree[0] == "num":
        a = numpy.array(tree[2], dtype=tree[1])
        if "strided" in layout:
            a = numpy.repeat(a, 2)[::2]
        if "reversed" in layout:
            a = a[::-1].copy()[::-1]
    elif tree[0] == "str":
        a = StringArray.fromiter(tree[1])
    elif tree[0] == "list":
        content = make(tree[2], plan, path + (0,))
        if layout:
            starts, stops, ids = forms.jagged_parts(forms.ids_of(tree[1]), layout[-1][7:])
            a = JaggedArray(starts, stops, take(content, ids) if len(content) else content)
        else:
            a = JaggedArray.fromcounts(list(tree[1]), content)
    elif tree[0] == "rec":
        cols = [(n, make(t, plan, path + (i,))) for i, (n, t) in enumerate(tree[1:])]
        n = len(cols[0][1])
        how = layout[-1] if layout and n else None
        if how == "view":
            a = Table.frompairs([(k, take(c, [0] + list(range(n)))) for k, c in cols], 0)[1:]
        elif how == "step":
            a = Table.frompairs([(k, take(c, list(range(n))[::-1])) for k, c in cols], 0)[::-1]
        elif how == "index":
            a = Table.frompairs([(k, take(c, [0] + list(range(n))[::-1])) for k, c in cols], 0)[numpy.arange(n, 0, -1)]
        elif how == "longer":
            a = Table.frompairs([(k, c if i == 0 else take(c, list(range(n)) + [0])) for i, (k, c) in enumerate(cols)], 0)
        else:
            a = Table.frompairs(cols, 0)
    elif tree[0] == "opt":
        a = MaskedArray(numpy.array(tree[1], dtype=bool), make(tree[2], plan, path + (0,)))
    for how in mine:
        if how in WRAPPERS:
            a = wrap(how, a)
    return a


# ---------------------------------------------------------------- operations
OPS = {}


def op(name):
    def add(fn):
        OPS[name] = fn
        return fn
    return add


def cls(a):
    return type(a) if isinstance(a, AwkwardArray) else None


def selection(name, where):
    OPS["[%s]" % name] = lambda a, r: a[where(len(r))]


for _i in (0, 1, -1, -2):
    selection(str(_i), lambda n, i=_i: i)
for _s in ((1, None, None), (None, -1, None), (None, None, -1), (None, None, 2), (None, 0, None), (-2, 5, None), (3, 0, -2)):
    selection(":".join("" if x is None else str(x) for x in _s), lambda n, s=_s: slice(*s))
selection("mask", lambda n: numpy.arange(n) % 2 == 0)
selection("last masked", lambda n: numpy.arange(n) == n - 1)
selection("no mask", lambda n: numpy.zeros(n, dtype=bool))
selection("take", lambda n: numpy.array([n - 1, 0, 0, n - 1] if n else [], dtype=int))
selection("take back", lambda n: numpy.arange(n)[::-1].copy())
selection("take negative", lambda n: numpy.arange(-n, 0))
selection("take list", lambda n: list(range(n))[1:])
selection("take none", lambda n: [])
selection("all", lambda n: slice(None))
selection("tuple", lambda n: (slice(1, None),))
selection(":,0", lambda n: (slice(None), 0))
selection(":,-1", lambda n: (slice(None), -1))
selection("::-1,1:", lambda n: (slice(None, None, -1), slice(1, None)))
selection(":,::-1", lambda n: (slice(None), slice(None, None, -1)))
selection(":,:1", lambda n: (slice(None), slice(None, 1)))
selection("0,1", lambda n: (0, 1))
selection("-1,:", lambda n: (-1, slice(None)))
selection("mask,:1", lambda n: (numpy.arange(n) % 2 == 0, slice(None, 1)))
selection("take,::-1", lambda n: (numpy.arange(n)[::-1].copy(), slice(None, None, -1)))
selection("take,take", lambda n: ([0, n - 1], [0, 0]))
selection(":,:,:1", lambda n: (slice(None), slice(None), slice(None, 1)))
selection("'x'", lambda n: "x")
selection("'y'", lambda n: "y")
selection("['y', 'x']", lambda n: ["y", "x"])
selection("['x']", lambda n: ["x"])
OPS["jagged mask"] = lambda a, r: a[r > 1]
OPS["own jagged mask"] = lambda a, r: a[a > 1]
OPS["jagged index"] = lambda a, r: a[JaggedArray.fromcounts([min(len(x), 1) for x in r], [len(x) - 1 for x in r if len(x)])]
OPS["argmax index"] = lambda a, r: a[a.argmax()]
OPS["argsort index"] = lambda a, r: a[a.argsort()]
OPS["x then 1:"] = lambda a, r: a["x"][1:]
OPS["1: then x"] = lambda a, r: a[1:]["x"]
OPS[".y"] = lambda a, r: a.y

for _name, _fn in {"+1": lambda a: a + 1, "1-": lambda a: 1 - a, "neg": lambda a: -a, "abs": lambda a: abs(a), "*self": lambda a: a * a, ">2": lambda a: a > 2, "not": lambda a: ~(a > 1), "and": lambda a: (a > 1) & (a < 4), "sqrt": lambda a: numpy.sqrt(a), "/2": lambda a: a / 2.0,
                   "==self": lambda a: a == a, "**2": lambda a: a**2, "//2": lambda a: a // 2, "divmod": lambda a: divmod(a, 2), "%3": lambda a: a % 3, "isnan": lambda a: numpy.isnan(a), "maximum": lambda a: numpy.maximum(a, 2)}.items():
    OPS[_name] = lambda a, r, fn=_fn: fn(a)
OPS["+array"] = lambda a, r: a + numpy.arange(len(r)) * 10
OPS["array-"] = lambda a, r: numpy.arange(len(r)) * 10 - a
OPS["+unwrapped"] = lambda a, r: a + r
OPS["unwrapped-"] = lambda a, r: r - a
OPS["<=unwrapped"] = lambda a, r: a <= r
OPS["!=unwrapped"] = lambda a, r: a != r
OPS["sqrt of sum"] = lambda a, r: numpy.sqrt(a * a + r * r)
OPS["x+y"] = lambda a, r: a["x"] + a["y"]

for _name in ("sum", "prod", "min", "max", "any", "all", "count", "count_nonzero", "mean", "var", "std", "argmin", "argmax", "argsort", "moment"):
    OPS["." + _name] = lambda a, r, name=_name: getattr(a, name)(*([2] if name == "moment" else []))
OPS["argsort up"] = lambda a, r: a.argsort(True)

OPS["flatten"] = lambda a, r: a.flatten()
OPS["flatten 1"] = lambda a, r: a.flatten(axis=1)
OPS["pad"] = lambda a, r: a.pad(2)
OPS["pad clip"] = lambda a, r: a.pad(1, clip=True)
OPS["pad fillna"] = lambda a, r: a.pad(3).fillna(-5)
OPS["pad regular"] = lambda a, r: a.pad(3, clip=True).fillna(0).regular()
OPS["fillna"] = lambda a, r: a.fillna(99)
OPS["counts"] = lambda a, r: a.counts
OPS["parents"] = lambda a, r: a.parents
OPS["index"] = lambda a, r: a.index
OPS["compact"] = lambda a, r: a.compact()
OPS["regular"] = lambda a, r: a.regular()
OPS["boolmask"] = lambda a, r: a.boolmask(maskedwhen=True)
OPS["isunmasked"] = lambda a, r: a.isunmasked
OPS["dense"] = lambda a, r: a.dense
OPS["unzip"] = lambda a, r: a.unzip()
OPS["cross"] = lambda a, r: a.cross(a)
OPS["cross unwrapped"] = lambda a, r: a.cross(r)
OPS["crossed"] = lambda a, r: r.cross(a)
OPS["argcross"] = lambda a, r: a.argcross(a)
OPS["cross nested"] = lambda a, r: a.cross(a, nested=True)
OPS["pairs"] = lambda a, r: a.pairs()
OPS["distincts"] = lambda a, r: a.distincts()
OPS["distincts nested"] = lambda a, r: a.distincts(nested=True)
OPS["choose"] = lambda a, r: a.choose(3)
OPS["argpairs"] = lambda a, r: a.argpairs()
OPS["argdistincts"] = lambda a, r: a.argdistincts()
OPS["argchoose"] = lambda a, r: a.argchoose(2)
OPS["concatenate"] = lambda a, r: a.concatenate([a])
OPS["concatenate unwrapped"] = lambda a, r: a.concatenate([r])
OPS["concatenated"] = lambda a, r: r.concatenate([a])
OPS["concatenate 1"] = lambda a, r: a.concatenate([r], axis=1)
OPS["concatenated 1"] = lambda a, r: r.concatenate([a], axis=1)
OPS["zip"] = lambda a, r: JaggedArray.zip(p=a, q=r)
OPS["zipped"] = lambda a, r: type(r).zip(p=r, q=a)
OPS["astype"] = lambda a, r: a.astype(float)
OPS["zeros_like"] = lambda a, r: a.zeros_like()
OPS["ones_like"] = lambda a, r: a.ones_like()
OPS["copy"] = lambda a, r: a.copy()
OPS["deepcopy"] = lambda a, r: a.deepcopy()
OPS["numpy"] = lambda a, r: numpy.array(a)
OPS["len"] = lambda a, r: len(a)
OPS["shape"] = lambda a, r: a.shape
OPS["columns"] = lambda a, r: list(a.columns)
OPS["in a table"] = lambda a, r: Table(p=a, q=numpy.arange(len(r)))[::-1]
OPS["in lists"] = lambda a, r: JaggedArray.fromcounts([1, 0, len(r) - 1] if len(r) else [0], a)
OPS["tolist"] = lambda a, r: a.tolist()
OPS["serialize"] = lambda a, r: roundtrip(a)
OPS["masked in front"] = lambda a, r: MaskedArray(numpy.arange(len(r)) % 2 == 0, a) + 1
OPS["sum of sums"] = lambda a, r: a.sum().sum()
OPS["max of counts"] = lambda a, r: a.counts.max()
OPS["tojagged"] = lambda a, r: r.tojagged(a)


REDUCERS = (".sum", ".prod", ".min", ".max", ".any", ".all", ".count", ".count_nonzero", ".mean", ".var", ".std", ".argmin", ".argmax", ".argsort", ".moment", "argsort up", "argsort index", "argmax index", "sum of sums", "numpy", "regular")


def reference(tree, name):
    """the unwrapped array; numbers by themselves are in an IndexedArray where Numpy has other rules or other methods"""
    r = make(tree)
    return wrap("indexed", r) if isinstance(r, numpy.ndarray) and name in REDUCERS else r


def roundtrip(a):
    storage = {}
    awkward0.serialize(a, storage)
    return awkward0.deserialize(storage, whitelist=[["*"]])
