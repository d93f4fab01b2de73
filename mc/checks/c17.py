"""C17: string arrays hold the exact strings."""
import itertools
import operator

import numpy

import awkward0
from awkward0 import ChunkedArray, IndexedArray, JaggedArray, MaskedArray, StringArray, Table, UnionArray, VirtualArray
from awkward0.array.base import AwkwardArray

from .. import forms, model
from ..core import Violation
from ..obs import expect, expect_error, norm, observe, physical, text
from . import c11

ID = "C17"
RULE = "every tuple of strings up to the bound over an alphabet with empty strings and one- to four-byte characters x every encoding x every constructor and physical layout of the characters x selections, chains, comparison with every string and with other string arrays of every encoding, concatenation, padding, flattening and conversion; an outcome is non-trivial when its canonical value is distinct"
ASSUMPTIONS = ["comparison of str with bytes is False, as in Python", "a Numpy string array cannot hold trailing NUL characters",
               "padding and characters-wise selection work on the encoded bytes, as documented", "empty string arrays compare without knowing the other length is wrong only if both lengths differ"]
BOUNDS = {"quick": "up to 3 strings over 7 strings in 6 encodings for constructors, 11 layouts; pairs of up to 2 strings in every pair of encodings",
          "thorough": "up to 4 strings over 7 strings in 6 encodings, 11 layouts; pairs of up to 3 strings in every pair of encodings"}

WORDS = ["", "a", "b", "ab", "\u00e9", "a\u20ac", "\U0001d11eb"]
# characters with a zero in one of their bytes
PLANES = ["", "a", "\u0100", "\u4e00", "\U00010000", "a\u0100", "\U00010000\u0100", "\u0100b", "ab\U00020000"]
LATIN = ["", "a", "b", "ab", "\u00e9", "a\u00e9", "\u00ff"]
ASCII = ["", "a", "b", "ab", "ba", "aa", "a b"]
BYTES = [b"", b"a", b"b", b"ab", b"\xff", b"\x80a", b"a\x00b"]
ENCODINGS = {"utf-8": WORDS, "utf-16le": WORDS, "utf-32le": WORDS, "latin-1": LATIN, "ascii": ASCII, None: BYTES}
NAMES = list(ENCODINGS)


def encode(s, encoding):
    return s if encoding is None else s.encode(encoding)


def chars(strings, encoding):
    return numpy.frombuffer(b"".join(encode(s, encoding) for s in strings) or b"", dtype=numpy.uint8).copy()


def sizes(strings, encoding):
    return [len(encode(s, encoding)) for s in strings]


def build(strings, encoding, layout="offsets"):
    """laid out by hand, without the constructors that parse strings"""
    flat = b"".join(encode(s, encoding) for s in strings)
    starts, stops, ids = forms.jagged_parts(forms.ids_of(sizes(strings, encoding)), layout)
    return StringArray(starts, stops, numpy.array([flat[i] if i >= 0 else 0xe9 for i in ids], dtype=numpy.uint8), encoding)


def built(a, strings, encoding, ctx, what):
    ctx.step()
    if not isinstance(a, StringArray):
        raise Violation("%s is a %s" % (what, type(a).__name__))
    ctx.outcome(expect(observe(a), list(strings), what))
    expect(norm(a.counts), sizes(strings, encoding), what + " counts")
    expect(all(type(x) is (bytes if encoding is None else str) for x in a), True, what + " element type")
    expect(len(a), len(strings), what + " len")
    expect(a.type.to is (bytes if encoding is None else str), True, what + " type")


def make_case(strings, encoding, ctx):
    """every constructor"""
    ctx.state("%r %r" % (encoding, strings))
    content, counts = chars(strings, encoding), numpy.array(sizes(strings, encoding), dtype=int)
    offsets = numpy.concatenate([[0], numpy.cumsum(counts)]).astype(int)
    go = lambda fn, what: built(fn(), strings, encoding, ctx, what)
    go(lambda: StringArray.fromiter(list(strings), encoding=encoding), "fromiter(list)")
    go(lambda: StringArray.fromiter(tuple(strings), encoding=encoding), "fromiter(tuple)")
    go(lambda: StringArray.fromiter((x for x in strings), encoding=encoding), "fromiter(generator)")
    go(lambda: StringArray.fromiter(numpy.array(list(strings) + [None], dtype=object)[:-1], encoding=encoding), "fromiter(array of objects)")
    go(lambda: StringArray.fromiter(StringArray.fromiter(list(strings), encoding=encoding), encoding=encoding), "fromiter(StringArray)")
    go(lambda: StringArray.fromcounts(counts, content, encoding), "fromcounts")
    go(lambda: StringArray.fromoffsets(offsets, content, encoding), "fromoffsets")
    go(lambda: StringArray.fromoffsets(offsets + 2, numpy.concatenate([numpy.array([0x41, 0xff], dtype=numpy.uint8), content, numpy.array([0x42], dtype=numpy.uint8)]), encoding), "fromoffsets with more content")
    go(lambda: StringArray(offsets[:-1], offsets[1:], content, encoding), "constructor")
    go(lambda: StringArray.fromjagged(JaggedArray.fromcounts(counts, content), encoding), "fromjagged")
    go(lambda: StringArray(offsets[:-1], offsets[1:], content.view("S1"), encoding), "constructor with bytes")
    if len(content):
        twice = numpy.repeat(content, 2)
        go(lambda: StringArray.fromcounts(counts, twice[::2], encoding), "fromcounts with strided characters")
    full = [s for s in strings if len(s)]
    if full:
        n = numpy.array(sizes(full, encoding))
        built(StringArray.fromparents(numpy.repeat(numpy.arange(len(full)), n), content, encoding), full, encoding, ctx, "fromparents")
        built(StringArray.fromuniques(numpy.repeat(numpy.arange(len(full))[::-1] * 3, n), content, encoding), full, encoding, ctx, "fromuniques")
    if len(set(strings)) == 1:
        go(lambda: StringArray.fromstr(len(strings), strings[0], encoding), "fromstr")
    if not strings:
        for s in ENCODINGS[encoding]:
            go(lambda: StringArray.fromstr(0, s, encoding), "fromstr of nothing")
    if strings and encoding == "utf-8":
        got = awkward0.fromiter(list(strings))
        go(lambda: got, "awkward0.fromiter")
        got = awkward0.fromiter(list(strings), dictencoding=True)
        ctx.outcome(expect(observe(got), list(strings), "awkward0.fromiter with dictencoding"))
    if strings and encoding is None:
        go(lambda: awkward0.fromiter(list(strings)), "awkward0.fromiter")
    a = StringArray.fromiter(list(strings), encoding=encoding)
    b = a.copy()
    other = [s for s in ENCODINGS[encoding][1:3]] * len(strings)
    other = other[:len(strings)]
    c, n = chars(other, encoding), numpy.array(sizes(other, encoding), dtype=int)
    o = numpy.concatenate([[0], numpy.cumsum(n)]).astype(int)
    b.content = numpy.concatenate([content, c])
    b.starts, b.stops = o[:-1] + len(content), o[1:] + len(content)
    built(b, other, encoding, ctx, "reassigned")
    built(a, strings, encoding, ctx, "original of the reassigned copy")
    d = a.deepcopy()
    if len(content):
        d.content[:] = 0x41
        built(a, strings, encoding, ctx, "original of the changed deepcopy")
    if encoding in ("utf-8", "ascii", "latin-1"):
        e = a.copy()
        e.encoding = None
        built(e, [encode(s, encoding) for s in strings], None, ctx, "as bytes")
        e.encoding = encoding
        built(e, strings, encoding, ctx, "decoded again")
    for bad in ("no such encoding", 5):
        expect_error(lambda: StringArray.fromiter(list(strings), encoding=bad), "encoding %r" % (bad,))
        expect_error(lambda: setattr(a.copy(), "encoding", bad), "encoding %r" % (bad,))


def numpy_case(strings, kind, ctx):
    """conversion from and to Numpy"""
    arr = numpy.array(strings, dtype=kind if strings and max(len(s) for s in strings) else kind + "1")
    encoding = None if kind == "S" else "utf-32le"
    strings = [s.rstrip(b"\x00" if kind == "S" else "\x00") for s in strings]
    ctx.state("numpy " + text(strings))
    wide = numpy.concatenate([arr, numpy.array([b"longer than" if kind == "S" else "longer than"])])[:-1]
    rec = numpy.zeros(len(arr), dtype=[("n", "u1"), ("s", arr.dtype), ("m", "u2")])
    rec["s"] = arr
    readonly = arr.copy()
    readonly.flags.writeable = False
    variants = [("array", arr), ("wider array", wide), ("strided array", numpy.repeat(arr, 2)[::2]), ("reversed array", arr[::-1].copy()[::-1]), ("array with the other byte order", arr.astype(arr.dtype.newbyteorder())), ("field of a record array", rec["s"]), ("read-only array", readonly)]
    for what, x in variants:
        a = StringArray.fromnumpy(x)
        ctx.step()
        ctx.outcome(expect(observe(a), strings, "fromnumpy of a " + what))
        expect(norm(a[::-1]), strings[::-1], "fromnumpy of a %s, reversed" % what)
        back = numpy.array(a)
        expect([y for y in back.tolist()] if len(strings) else [], strings, "numpy.array after fromnumpy of a " + what)
        back = a.regular()
        expect([y for y in back.tolist()] if len(strings) else [], strings, "regular after fromnumpy of a " + what)
        expect(norm(a == x), [True] * len(strings), "== the " + what)
        expect(norm(x != a), [False] * len(strings), "the %s !=" % what)
    for i in range(len(arr)):
        b = arr.copy()
        b[i] = "zz"
        a = build(strings, "utf-8" if kind == "U" else None)
        ctx.step(2)
        want = [k != i for k in range(len(arr))]
        expect(norm(a == b), want, "== an array of strings")
        expect(norm(b == a), want, "== an array of strings, from the left")
        expect(norm(a != b.astype(object)), [not x for x in want], "!= an array of objects")
    expect_error(lambda: StringArray.fromnumpy(numpy.arange(3)), "fromnumpy of numbers")


WHERES = [("slice", None, -1), ("slice", 1, None), ("slice", None, 1), ("slice", -1, None), ("slice", 0, 2)]


def select_case(strings, encoding, layout, ctx):
    a, v = build(strings, encoding, layout), list(strings)
    built(a, strings, encoding, ctx, "array")
    c11.selections(a, v, "str", ctx)
    n = len(v)
    for where in (slice(None, None, -1), numpy.array([i % 2 == 0 for i in range(n)], dtype=bool), numpy.arange(n)[::-1], [0] * min(n, 1)):
        if not isinstance(a[where], StringArray):
            raise Violation("a selection is a %s" % type(a[where]).__name__)
        if a[where].encoding != encoding:
            raise Violation("a selection has another encoding")
    raw = [encode(s, encoding) for s in v]
    if encoding in (None, "ascii", "latin-1"):
        for w in WHERES:
            s = slice(*w[1:])
            ctx.step()
            ctx.outcome(expect(observe(a[:, s]), [x[s] for x in v], "characters %s" % (w,)))
            expect(observe(a[::-1, s]), [x[s] for x in v][::-1], "characters %s of reversed" % (w,))
        for i in range(n):
            for k in range(len(v[i])):
                ctx.step(2)
                expect(norm(a[i, k]), norm(v[i][k]), "element %d, character %d" % (i, k))
                expect(norm(a[i, k:]), norm(v[i][k:]), "element %d, characters from %d" % (i, k))
    for bad in ("x", ["x", "y"]):
        expect_error(lambda: a[bad], "column")
    for enc in (encoding,):
        for s in ENCODINGS[enc]:
            ctx.step(4)
            want = [x == s for x in v]
            expect(norm(a == s), want, "== %r" % (s,))
            expect(norm(s == a), want, "%r ==" % (s,))
            expect(norm(a != s), [not x for x in want], "!= %r" % (s,))
            expect(norm(numpy.not_equal(s, a)), [not x for x in want], "not_equal(%r, a)" % (s,))
            expect(norm(a[a == s]), [s] * sum(want), "selected by == %r" % (s,))
    for other in (b"a" if encoding is not None else "a", 3, None, 3.5):
        ctx.step(2)
        expect(norm(a == other), [False] * n, "== %r" % (other,))
        expect(norm(a != other), [True] * n, "!= %r" % (other,))
    if n:
        expect(norm(a == numpy.arange(n)), [False] * n, "== numbers")
        expect(norm(a != numpy.arange(n)), [True] * n, "!= numbers")
    expect(norm(a == a), [True] * n, "== itself")
    expect(norm(a == v), [True] * n, "== list") if n else None
    # whole-array operations
    ctx.step(8)
    c11.check(ctx, a.concatenate([a[::-1]]), v + v[::-1], "concatenate")
    c11.check(ctx, a[:0].concatenate([a, a[:1]]), v + v[:1], "concatenate three")
    c11.check(ctx, awkward0.concatenate([a, a]), v + v, "awkward0.concatenate")
    c11.check(ctx, awkward0.concatenate([a, a], axis=1), [x + x for x in v], "concatenate, axis=1")
    c11.check(ctx, awkward0.concatenate([a, a[::-1]], axis=1), [x + y for x, y in zip(v, v[::-1])], "concatenate, axis=1")
    c11.check(ctx, a.compact(), v, "compact")
    if a.iscompact and a.compact().encoding != encoding:
        raise Violation("compact has another encoding")
    c11.check(ctx, a.fillna("x"), v, "fillna")
    c11.check(ctx, a.boolmask(), [False] * n, "boolmask")
    c11.check(ctx, a.isunmasked, [True] * n, "isunmasked")
    c11.check(ctx, a.flatten(), [v[0][:0].__class__().join(v)] if n and False else [decode(b"".join(raw), encoding)], "flatten") if n else None
    for length in range(4):
        for clip in (False, True):
            for fill in (None, b"."):
                kw = {} if fill is None else {"maskedwhen": fill}
                want = [x.ljust(length, fill or b" ") for x in raw]
                want = [decode(x[:length] if clip else x, encoding) for x in want]
                before = physical(a)
                ctx.step()
                ctx.outcome(expect(observe(a.pad(length, clip=clip, **kw)), want, "pad(%d, %r, clip=%s)" % (length, fill, clip)))
                if physical(a) != before:
                    raise Violation("pad changed the array")
    for bad in (b"", b"ab", "a", 5):
        expect_error(lambda: a.pad(3, maskedwhen=bad), "pad with %r" % (bad,))
    if encoding is None and n:
        back = JaggedArray(a.starts, a.stops, a.content)
        expect(norm(a + 1), norm(StringArray.fromjagged(JaggedArray.fromcounts(a.counts, (back.flatten() + 1).astype(numpy.uint8)), None)), "+ 1 on the characters")
        expect(norm(a > 97), [[y > 97 for y in x] for x in v], "> on the characters")
        expect(norm(a * 1.5), [[y * 1.5 for y in x] for x in v], "* 1.5 on the characters")


def decode(raw, encoding):
    return raw if encoding is None else raw.decode(encoding, "replace")


def pair_case(s1, e1, s2, e2, ctx):
    """comparison and concatenation of string arrays in different encodings and layouts"""
    a = build(s1, e1, forms.LAYOUTS[(len(s2) + 3 * NAMES.index(e1)) % len(forms.LAYOUTS)])
    b = build(s2, e2, forms.LAYOUTS[(5 + len(s1) + 3 * NAMES.index(e2)) % len(forms.LAYOUTS)])
    before = physical([a, b])
    ctx.state(before)
    ctx.step(3)
    if len(s1) == len(s2):
        want = [x == y for x, y in zip(s1, s2)]
        ctx.outcome(expect(norm(a == b), want, "=="))
        expect(norm(a != b), [not x for x in want], "!=")
    elif len(s1) > 1 and len(s2) > 1 or not s1 or not s2:
        expect_error(lambda: a == b, "== of different lengths")
        expect_error(lambda: a != b, "!= of different lengths")
    try:
        got = a.concatenate([b])
    except (ValueError, TypeError, NotImplementedError):
        if e1 == e2:
            raise
    else:
        ctx.outcome(expect(observe(got), list(s1) + list(s2), "concatenate"))
    if len(s1) == len(s2):
        try:
            got = awkward0.concatenate([a, b], axis=1)
        except (ValueError, TypeError, NotImplementedError):
            if e1 == e2:
                raise
        else:
            expect(observe(got), [x + y for x, y in zip(s1, s2)], "concatenate, axis=1")
    if physical([a, b]) != before:
        raise Violation("an operand changed", "operand changed")


def inside_case(strings, encoding, ctx):
    """string arrays inside other arrays"""
    n = len(strings)
    v = list(strings)
    a = build(v, encoding, "gaps")
    cut = (n + 1) // 2
    t = Table(s=a, i=numpy.arange(n))
    holders = [
        ("chunks", lambda: ChunkedArray([build(v[:cut], encoding), build(v[cut:], encoding, "reversed")]), v),
        ("indexed", lambda: IndexedArray(numpy.arange(n)[::-1], build(v[::-1], encoding)), v),
        ("masked", lambda: MaskedArray(numpy.array([i % 2 == 1 for i in range(n)], dtype=bool), a), [None if i % 2 == 1 else x for i, x in enumerate(v)]),
        ("unmasked", lambda: MaskedArray(numpy.zeros(n, dtype=bool), a), v),
        ("virtual", lambda: VirtualArray(lambda: a), v),
        ("column", lambda: t["s"], v),
        ("column of a view", lambda: t[::-1]["s"], v[::-1]),
        ("lists", lambda: JaggedArray.fromcounts([cut, 0, n - cut], a), [v[:cut], [], v[cut:]]),
        ("lists of a view", lambda: JaggedArray.fromcounts([cut, 0, n - cut], a)[::-1], [v[cut:], [], v[:cut]]),
        ("union", lambda: UnionArray.fromtags([0, 1] * n, [a, numpy.arange(n)]), [y for i, x in enumerate(v) for y in (x, i)]),
    ]
    for what, fresh, want in holders:
        h = fresh()
        ctx.step()
        ctx.outcome(expect(observe(h), want, what))
        for w in c11.fewer(len(want))[::5]:
            c11.one(h, want, w, ctx)
        for s in ENCODINGS[encoding][:5]:
            eq = lambda x: [eq(y) for y in x] if isinstance(x, list) else None if x is None else x == s
            ne = lambda x: [ne(y) for y in x] if isinstance(x, list) else None if x is None else x != s
            if what == "union":
                continue
            ctx.step(2)
            expect(norm(fresh() == s), eq(want), "%s == %r" % (what, s))
            expect(norm(s != fresh()), ne(want), "%r != %s" % (s, what))
        if what not in ("lists", "lists of a view", "union", "masked"):
            same = build(want, encoding, "reversed")
            expect(norm(fresh() == same), [True] * n, what + " == a string array")
            expect(norm(same != fresh()), [False] * n, what + " != a string array")
            expect(norm(fresh() == fresh()), [True] * n, what + " == itself")
        elif what.startswith("lists"):
            expect(norm(fresh() == fresh()), [[True] * len(x) for x in want], what + " == itself")
            per = [ENCODINGS[encoding][k] for k in (1, 0, 3)]
            eq3 = [[y == p for y in x] for x, p in zip(want, per)]
            for w, other in (("a string array", build(per, encoding, "gaps")), ("a Numpy array", numpy.array(per)), ("a list", per)):
                ctx.step(2)
                expect(norm(fresh() == other), eq3, "%s == %s, one per list" % (what, w))
                expect(norm(other != fresh()) if w != "a list" else norm(fresh() != other), [[not y for y in x] for x in eq3], "%s != %s, one per list" % (w, what))
            expect(norm(fresh().flatten()), [y for x in want for y in x], what + " flatten")
            expect(norm(fresh().argpairs() if False else fresh().counts), [len(x) for x in want], what + " counts")
            expect(norm(fresh().distincts()), [list(itertools.combinations(x, 2)) for x in want], what + " distincts")
            expect(norm(fresh().cross(fresh()).i1), [[y for _ in x for y in x] for x in want], what + " cross")


def words(n, encoding, few=False):
    alphabet = ENCODINGS[encoding]
    return itertools.product(alphabet[::2] if few else alphabet, repeat=n)


def units(tier):
    q = tier == "quick"
    for encoding in NAMES:
        for n in range(4 if q else 5):
            yield ["make", encoding, n]
            for k, layout in enumerate(forms.LAYOUTS):
                many = encoding in (None, "utf-8")
                if not q or many and n < 3 or k in (3, 4) or k == 0 and n < 3:
                    yield ["select", encoding, n, layout, n > 2 or q and n == 2 and (k not in (0, 3) or not many)]
            yield ["inside", encoding, n]
        for e2 in NAMES:
            for n in range(3 if q else 4):
                for m in range(3 if q else 4):
                    yield ["pair", encoding, e2, n, m]
    for kind in "US":
        for n in range(4 if q else 5):
            yield ["numpy", kind, n]


def unit_of(case):
    return case[0]


def run_unit(unit, ctx):
    op = unit[0]
    if op == "make":
        for strings in words(unit[2], unit[1]):
            ctx.case([unit, [text(s) for s in strings]], make_case, strings, unit[1], ctx)
    elif op == "select":
        for strings in words(unit[2], unit[1], unit[4]):
            ctx.case([unit, [text(s) for s in strings]], select_case, strings, unit[1], unit[3], ctx)
    elif op == "inside":
        for strings in words(unit[2], unit[1], unit[2] > 2):
            ctx.case([unit, [text(s) for s in strings]], inside_case, strings, unit[1], ctx)
    elif op == "pair":
        for s1 in words(unit[3], unit[1], unit[3] > 1):
            for s2 in words(unit[4], unit[2], unit[4] > 1):
                ctx.case([unit, [text(s) for s in s1], [text(s) for s in s2]], pair_case, s1, unit[1], s2, unit[2], ctx)
    elif op == "numpy":
        for strings in words(unit[2], "utf-8" if unit[1] == "U" else None):
            ctx.case([unit, [text(s) for s in strings]], numpy_case, strings, unit[1], ctx)
        if unit[1] == "U":
            for strings in itertools.product(PLANES, repeat=min(unit[2], 3)):
                ctx.case([unit, [text(s) for s in strings]], numpy_case, list(strings), unit[1], ctx)
