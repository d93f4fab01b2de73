"""C19: fromiter and tolist are inverse for every mixture of data."""
import collections
import itertools

import numpy

import awkward0
from awkward0 import IndexedArray, IndexedMaskedArray, JaggedArray, MaskedArray, ObjectArray, StringArray, Table, UnionArray

from ..core import Violation
from ..obs import expect, physical

ID = "C19"
RULE = "every sequence up to the length bound over an alphabet of Python values (numbers, booleans, strings, bytes, None, lists, dictionaries, named tuples, class instances), at the top, inside one list, in every split into lists, as a field of records, named tuples and objects, and inside nested combinations of these; an outcome is non-trivial when its canonical value is distinct"
ASSUMPTIONS = ["docs/fromiter.adoc: numbers of one level are promoted to the most general of them, an empty dictionary is None, tuples are lists, Table columns are sorted, masked Tables, ObjectArrays and UnionArrays are IndexedMaskedArrays and all others MaskedArrays, an option is outside of a union",
               "integers beyond 64 bits are not enumerated"]
BOUNDS = {"quick": "29 values, every sequence up to length 2 in 15 contexts, up to length 3 over 15 values, up to length 4 over 8, 5 over 4",
          "thorough": "29 values, every sequence up to length 3 in 15 contexts, up to length 4 over 13 values, up to length 6 over 5"}

T0 = collections.namedtuple("T0", [])
T1 = collections.namedtuple("T1", ["b", "a"])
T2 = collections.namedtuple("T2", ["b", "a"])
T3 = collections.namedtuple("T3", ["x"])


class S0(object):
    def __init__(self, **fields):
        self.__dict__.update(fields)


class S1(S0):
    pass


ITEMS = [None, True, 3, -2.5, 1j, "", u"h\u00e9y", b"", b"a\x00", [], [1], [None], ["a", 2], [[]], [[1.5], None], {}, {"x": 1}, {"x": None}, {"x": [1, 2], "a": "s"}, {"x": {"z": [True]}}, T0(), T1(1, "p"), T2(2.5, None), T3([1]), S0(), S0(x=1), S0(x=None), S0(x=[2.5], y="q"), S1(x=1)]
SMALL = [0, 1, 2, 3, 6, 8, 9, 12, 16, 17, 21, 24, 25, 28, 13]
SMALLER = [0, 2, 3, 6, 10, 16, 17, 25]
SMALLEST = [0, 2, 11, 6, 18]


# ---------------------------------------------------------------- reference
def kind_of(x):
    if isinstance(x, (bool, numpy.bool_)):
        return ("bool",)
    if isinstance(x, (int, float, complex, numpy.number)):
        return ("number",)
    if isinstance(x, bytes):
        return ("bytes",)
    if isinstance(x, str):
        return ("str",)
    if isinstance(x, dict):
        return ("dict", tuple(sorted(x)))
    if isinstance(x, tuple) and hasattr(x, "_fields"):
        return ("tuple", type(x).__name__, tuple(sorted(x._fields)))
    if isinstance(x, (list, tuple, range, set)) or hasattr(x, "__iter__"):
        return ("list",)
    return ("object", type(x).__name__, tuple(sorted(x.__dict__)))


CLASSES = {"T0": T0, "T1": T1, "T2": T2, "T3": T3, "S0": S0, "S1": S1}


def fields_of(x):
    if isinstance(x, dict):
        return x
    if isinstance(x, tuple):
        return dict(zip(x._fields, x))
    return x.__dict__


def infer(xs, options):
    """(structure, values) that docs/fromiter.adoc gives to the sequence xs"""
    missing = [x is None or isinstance(x, dict) and len(x) == 0 for x in xs]
    present = [x for x, m in zip(xs, missing) if not m]
    kinds = []
    for x in present:
        if kind_of(x) not in kinds:
            kinds.append(kind_of(x))
    where = [[i for i, x in enumerate(present) if kind_of(x) == k] for k in kinds]
    nodes, values = [], [None] * len(present)
    for k, ids in zip(kinds, where):
        node, vs = one(k, [present[i] for i in ids], options)
        nodes.append(node)
        for i, v in zip(ids, vs):
            values[i] = v
    if len(nodes) == 0:
        node = ("float64",) if len(xs) == 0 else ("unknown",)
    elif len(nodes) == 1:
        node = nodes[0]
    else:
        node = ("union",) + tuple(sorted(nodes, key=repr))
    if any(missing):
        node = ("indexedmask" if node[0] in ("union", "table", "object") else "mask", options.get("maskedwhen", True), node)
        it = iter(values)
        values = [None if m else next(it) for m in missing]
    return node, values


def one(kind, xs, options):
    k = kind[0]
    if k == "bool":
        return ("bool",), [bool(x) for x in xs]
    if k == "number":
        dtype = numpy.result_type(*[numpy.array(x).dtype for x in xs])
        return (str(dtype),), [numpy.array(x).astype(dtype).item() for x in xs]
    if k in ("bytes", "str"):
        d = options.get("dictencoding", False)
        return ("dictionary" if (d(xs) if callable(d) else d) else "string", k), list(xs)
    if k == "list":
        flat = [y for x in xs for y in x]
        node, vs = infer(flat, options)
        out, at = [], 0
        for x in xs:
            out.append(vs[at:at + len(x)])
            at += len(x)
        return ("jagged", node), out
    names = kind[-1]
    if len(names) == 0:
        return ("object", kind[1], ("jagged", ("float64",))), [CLASSES[kind[1]]() for x in xs]
    columns = dict((n, infer([fields_of(x)[n] for x in xs], options)) for n in names)
    rows = [dict((n, columns[n][1][i]) for n in names) for i in range(len(xs))]
    table = ("table",) + tuple((n, columns[n][0]) for n in names)
    if k == "dict":
        return table, rows
    cls = CLASSES[kind[1]]
    return ("object", kind[1], table), [cls(**r) for r in rows]


def structure(a):
    if isinstance(a, numpy.ndarray):
        return (str(a.dtype),)
    if isinstance(a, IndexedMaskedArray):
        return ("indexedmask", None, structure(a.content))
    if isinstance(a, MaskedArray):
        if len(a) and a.boolmask(maskedwhen=True).all() and isinstance(a.content, numpy.ndarray) and a.content.dtype == bool:
            return ("mask", bool(a.maskedwhen), ("unknown",))
        return ("mask", bool(a.maskedwhen), structure(a.content))
    if isinstance(a, StringArray):
        return ("string", "bytes" if a.encoding is None else "str")
    if isinstance(a, IndexedArray):
        inner = structure(a.content)
        return ("dictionary",) + inner[1:] if inner[0] == "string" else ("indexed", inner)
    if isinstance(a, JaggedArray):
        return ("jagged", structure(a.content))
    if isinstance(a, Table):
        return ("table",) + tuple((n, structure(a[n])) for n in a.columns)
    if isinstance(a, UnionArray):
        return ("union",) + tuple(sorted((structure(x) for x in a.contents), key=repr))
    if isinstance(a, ObjectArray):
        made = type(a[0]).__name__ if len(a) else None
        return ("object", made, structure(a.content))
    return (type(a).__name__,)


def same(got, want):
    """structures agree (a class is not seen of no objects, an IndexedMaskedArray has no maskedwhen)"""
    if not isinstance(want, tuple):
        return got == want
    if got[:1] != want[:1] or len(got) != len(want):
        return False
    if want[0] == "indexedmask":
        return same(got[2], want[2])
    if want[0] == "union":
        return any(all(same(g, w) for g, w in zip(p, want[1:])) for p in itertools.permutations(got[1:])) if len(want) < 5 else sorted(map(repr, (strip(x) for x in got[1:]))) == sorted(map(repr, (strip(x) for x in want[1:])))
    return all(same(g, w) for g, w in zip(got[1:], want[1:]))


def strip(x):
    if not isinstance(x, tuple):
        return x
    if x[0] == "indexedmask":
        return ("indexedmask", strip(x[2]))
    if x[0] == "union":
        return ("union",) + tuple(sorted((strip(y) for y in x[1:]), key=repr))
    return tuple(strip(y) for y in x)


def canon(x):
    """text that tells every two values apart, by type and content"""
    if isinstance(x, list):
        return "[%s]" % ",".join(canon(y) for y in x)
    if isinstance(x, dict):
        return "{%s}" % ",".join("%r:%s" % (k, canon(x[k])) for k in sorted(x))
    if isinstance(x, tuple):
        return "%s(%s)" % (type(x).__name__, ",".join(canon(y) for y in x))
    if isinstance(x, S0):
        return "%s<%s>" % (type(x).__name__, canon(x.__dict__))
    if type(x) in (bool, int, float, complex, str, bytes, type(None)):
        return "%s %r" % (type(x).__name__, x)
    return "?%s %r" % (type(x).__name__, x)


OPTIONS = [{}, {"maskedwhen": False}, {"dictencoding": True}, {"dictencoding": lambda x: len(x) > 1, "maskedwhen": False}]


def lazy(x):
    """the same data from iterators that can be consumed only once"""
    return (lazy(y) for y in x) if isinstance(x, list) else x


def convert(data, ctx, full=True):
    """fromiter(data) has the structure and the value of the data"""
    before = canon(data)
    for number, options in enumerate(OPTIONS if full else OPTIONS[:1]):
        ctx.step()
        node, values = infer(data, options)
        a = awkward0.fromiter(data, **options)
        if len(a) != len(data):
            raise Violation("length %d, expected %d" % (len(a), len(data)))
        got = canon(a.tolist())
        ctx.outcome(got)
        if got != canon(values):
            raise Violation("%s, expected %s" % (got, canon(values)), "got " + got)
        s = structure(a)
        if not same(s, node):
            raise Violation("structure %s, expected %s" % (s, node), "structure %r" % (s,))
        if number == 0:
            first = s
            ctx.state(repr(s))
            got = canon([y.tolist() if isinstance(y, (awkward0.AwkwardArray, Table.Row, numpy.ndarray, numpy.generic)) else y for y in a])
            if got != canon(values):
                raise Violation("iterated: %s, expected %s" % (got, canon(values)), "iterated")
            got = canon([y.tolist() if hasattr(y, "tolist") else y for y in (a[i] for i in range(len(a)))])
            if got != canon(values):
                raise Violation("one at a time: %s, expected %s" % (got, canon(values)), "one at a time")
    if canon(data) != before:
        raise Violation("the data changed", "operand changed")
    if full:
        ctx.step(3)
        for what, other in (("a generator", lazy(data)), ("a tuple", tuple(data)), ("tolist", values)):
            b = awkward0.fromiter(other)
            if canon(b.tolist()) != canon(infer(data, {})[1]):
                raise Violation("from %s: %s" % (what, canon(b.tolist())), "from " + what)
            if what != "tolist" and repr(structure(b)) != repr(first):
                raise Violation("structure from %s: %s, not %s" % (what, structure(b), first), "structure from " + what)


def splits(xs):
    """the sequence cut into lists in every way, with empty lists in between"""
    n = len(xs)
    for cuts in itertools.combinations_with_replacement(range(n + 1), 2):
        bounds = (0,) + cuts + (n,)
        yield [xs[a:b] for a, b in zip(bounds[:-1], bounds[1:])]


def contexts(xs):
    """the sequence at the top and inside other data"""
    yield "top", xs
    yield "list", [xs]
    for data in splits(xs):
        yield "lists", data
    yield "split with None", [xs[:1], None, xs[1:]]
    yield "split with another", ["z", xs[:1], 5, xs[1:]]
    yield "nested", [[[x] for x in xs], []]
    yield "field", [{"f": x} for x in xs]
    yield "field with another", [{"f": x, "g": i} for i, x in enumerate(xs)]
    yield "fields of different records", [{"f": x} if i % 2 else {"g": x, "f": 1} for i, x in enumerate(xs)]
    yield "field of missing records", [None] + [{"f": x} for x in xs] + [None]
    yield "field of records in lists", [[{"f": x} for x in xs], [], [{"f": x} for x in xs[::-1]]]
    yield "named tuples", [T1(x, i) for i, x in enumerate(xs)]
    yield "named tuples and None", [None] + [T3(x) for x in xs]
    yield "objects", [S0(x=x) for x in xs]
    yield "objects in lists", [[S1(x=x, y=[x]) for x in xs], [], None]
    yield "fields that are lists", [{"f": [x] * (i + 1)} for i, x in enumerate(xs)]


def sequence_case(ids, ctx):
    xs = [ITEMS[i] for i in ids]
    for what, data in contexts(xs):
        try:
            convert(data, ctx, full=what in ("top", "nested", "field of missing records", "objects in lists"))
        except Violation as err:
            raise Violation(what + ": " + str(err), what + " " + getattr(err, "observed", str(err))[:80])


def top_case(ids, ctx):
    convert([ITEMS[i] for i in ids], ctx, full=False)
    convert([[ITEMS[i] for i in ids[:2]], [], [ITEMS[i] for i in ids[2:]]], ctx, full=False)


def string_case(which, ctx):
    """strings and dictionary encoding"""
    alphabet = {"str": [u"", u"a", u"\x00", u"a\x00", u"\u00e9", u"ab", u"\U0001f600", u"a\u0300"], "bytes": [b"", b"a", b"\x00", b"a\x00", b"\xff", b"ab"]}[which]
    for n in range(4):
        for xs in itertools.product(alphabet, repeat=n):
            convert(list(xs), ctx, full=True)
            if n == 2:
                convert([xs[0], None, xs[1]], ctx)
                convert([[xs[0]], [], [xs[1], None]], ctx)


def number_case(ctx):
    """numbers of every type, mixed"""
    values = [0, -1, 2 ** 53 + 1, 2 ** 63 - 1, -2 ** 63, 0.0, -0.0, 1.5, float("inf"), float("-inf"), float("nan"), 1e300, 1 + 2j, complex("nan"), numpy.int8(5), numpy.uint8(200), numpy.float32(0.5), numpy.int64(-7), numpy.bool_(True), numpy.float64(2.25)]
    for n in (1, 2, 3):
        for xs in itertools.product(values, repeat=n):
            if n == 3 and len(set(map(repr, xs))) < 3:
                continue
            convert(list(xs), ctx, full=False)
            if n == 2:
                convert([None] + list(xs), ctx, full=True)
                convert([list(xs[:1]), None, list(xs[1:])], ctx, full=False)


def other_case(ctx):
    """inputs that are refused, and other iterables"""
    for bad in ([{1: 2}], [{"a": 1, 2: 3}], [[{None: 1}]], [{(): 1}]):
        ctx.step()
        try:
            out = awkward0.fromiter(bad)
        except TypeError:
            pass
        else:
            raise Violation("%r accepted as %s" % (bad, out.tolist()))
    for options in ({"nothing": 1}, {"dictencoding": True, "x": 2}):
        ctx.step()
        try:
            awkward0.fromiter([1], **options)
        except TypeError:
            pass
        else:
            raise Violation("option accepted")

    class Stop(Exception):
        pass

    def failing(n):
        for i in range(n):
            yield [i]
        raise Stop
    for n in range(3):
        ctx.step()
        try:
            awkward0.fromiter(failing(n))
        except Stop:
            pass
        else:
            raise Violation("an error of the iterator is lost")
    for n in range(4):
        for m in range(4):
            ctx.step()
            block = numpy.arange(n * m).reshape(n, m)
            expect(awkward0.fromiter(block).tolist(), block.tolist(), "rows of a Numpy array")
            expect(awkward0.fromiter([block, block[:1]]).tolist(), [block.tolist(), block[:1].tolist()], "Numpy arrays")
            expect(awkward0.fromiter([range(i) for i in range(n)]).tolist(), [list(range(i)) for i in range(n)], "ranges")
            expect(awkward0.fromiter({"k%d" % i: i for i in range(n)}).tolist(), ["k%d" % i for i in range(n)], "keys")
            expect(awkward0.fromiter(iter([tuple(range(i)) for i in range(n)])).tolist(), [list(range(i)) for i in range(n)], "tuples")
            expect(JaggedArray.fromiter([list(range(i)) for i in range(n)]).tolist(), [list(range(i)) for i in range(n)], "JaggedArray.fromiter")
            expect(type(JaggedArray.fromiter([list(range(i)) for i in range(n)])), JaggedArray, "JaggedArray.fromiter")
    # types that differ in name only
    A, B = (type("Same", (S0,), {}) for _ in range(2))
    for pattern in itertools.product([A, B], repeat=4):
        ctx.step()
        got = awkward0.fromiter([c(x=i) for i, c in enumerate(pattern)]).tolist()
        expect([type(g) is c and g.x == i for (i, c), g in zip(enumerate(pattern), got)], [True] * 4, "classes of the same name")
    # attributes that are private are not data
    x = S0(x=1, _hidden=2)
    got = awkward0.fromiter([x, x])
    expect([sorted(y.__dict__) for y in got.tolist()], [["x"], ["x"]], "private attributes")
    # deep nesting
    for depth in range(1, 12):
        data = 1
        want = 1
        for i in range(depth):
            data = [data] if i % 2 else [data, data][:1 + (i < 6)]
        convert(data, ctx, full=False)
        data = {"f": 1}
        for i in range(depth):
            data = {"f": data}
        convert([data, None, data], ctx, full=False)
    # many types at one level
    for n in (2, 5, 40, 130, 254, 255, 256, 257, 300):
        ctx.step()
        data = [{"k%03d" % i: i} for i in range(n)]
        expect(awkward0.fromiter(data + data[::-1]).tolist(), data + data[::-1], "%d types" % n)


def units(tier):
    q = tier == "quick"
    yield ["other"]
    yield ["numbers"]
    yield ["strings", "str"]
    yield ["strings", "bytes"]
    for i in range(len(ITEMS)):
        yield ["sequences", i, 2 if q else 3]
    for i in SMALL:
        yield ["top", i, 3 if q else 4, "small"]
    for i in SMALLER:
        yield ["top", i, 4 if q else 5, "smaller"]
    for i in SMALLEST:
        yield ["top", i, 5 if q else 6, "smallest"]


def unit_of(case):
    return case[0]


def run_unit(unit, ctx):
    op = unit[0]
    if op == "sequences":
        for n in range(unit[2]):
            for rest in itertools.product(range(len(ITEMS)), repeat=n):
                ctx.case([unit, rest], sequence_case, (unit[1],) + rest, ctx)
    elif op == "top":
        alphabet = {"small": SMALL, "smaller": SMALLER, "smallest": SMALLEST}[unit[3]]
        for rest in itertools.product(alphabet, repeat=unit[2] - 1):
            ctx.case([unit, rest], top_case, (unit[1],) + rest, ctx)
    elif op == "strings":
        ctx.case([unit], string_case, unit[1], ctx)
    elif op == "numbers":
        ctx.case([unit], number_case, ctx)
    elif op == "other":
        ctx.case([unit], other_case, ctx)
