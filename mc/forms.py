"""Physical layouts of a logical value.

`leaf kinds` build an array of len(ids) elements whose logical values are determined by the ids
(id -1 is unreachable junk with a sentinel value), so any permutation, gap, or repetition of
storage can be laid out directly, without using the indexing code under test.
"""
import itertools

import numpy

import awkward0
from awkward0 import (BitMaskedArray, ChunkedArray, IndexedArray, IndexedMaskedArray, JaggedArray, MaskedArray, ObjectArray, SparseArray, StringArray, Table, UnionArray, VirtualArray)

I8 = numpy.int64


class Point(object):
    def __init__(self, v):
        self.v = int(v)

    def __eq__(self, other):
        return type(other) is Point and self.v == other.v

    def __ne__(self, other):
        return not self == other

    def __hash__(self):
        return hash(("Point", self.v))

    def __repr__(self):
        return "Point(%d)" % self.v


def make_point(v):
    return Point(v)


def _produce(array):
    return array


# ---------------------------------------------------------------- leaf kinds
def _ints(ids, scale=1, off=100, junk=-999):
    return numpy.array([off + scale * i if i >= 0 else junk for i in ids], dtype=I8)


class Kind(object):
    name = None

    def build(self, ids):
        raise NotImplementedError

    def value(self, i):
        raise NotImplementedError


class KI(Kind):
    name = "i8"

    def build(self, ids):
        return _ints(ids)

    def value(self, i):
        return 100 + i


class KF(Kind):
    name = "f8"

    def build(self, ids):
        return numpy.array([self.value(i) if i >= 0 else -999.0 for i in ids], dtype=numpy.float64)

    def value(self, i):
        return float("nan") if i == 2 else i + 0.5


class KB(Kind):
    name = "bool"

    def build(self, ids):
        return numpy.array([i % 2 == 0 if i >= 0 else True for i in ids], dtype=numpy.bool_)

    def value(self, i):
        return i % 2 == 0


class K2(Kind):
    name = "2d"

    def build(self, ids):
        return numpy.array([[i, i + 50] if i >= 0 else [-999, -999] for i in ids], dtype=I8).reshape(len(ids), 2)

    def value(self, i):
        return [i, i + 50]


class KStrided(Kind):
    name = "i4strided"

    def build(self, ids):
        buf = numpy.full(2 * len(ids) + 1, -888, dtype=numpy.int32)
        out = buf[1 : 2 * len(ids) + 1 : 2]
        out[:] = [100 + i if i >= 0 else -999 for i in ids]
        return out

    def value(self, i):
        return 100 + i


class KJ(Kind):
    """inner lists of length (id+1)%3, laid out with gaps and in reverse order"""

    name = "jag"

    def value(self, i):
        return [10 * i + k for k in range((i + 1) % 3)]

    def build(self, ids):
        rows = [self.value(i) if i >= 0 else [-999, -998] for i in ids]
        content, starts, stops = [-777], [0] * len(rows), [0] * len(rows)
        for r in range(len(rows) - 1, -1, -1):
            starts[r] = len(content)
            content += rows[r]
            stops[r] = len(content)
            content.append(-777)
        return JaggedArray(numpy.array(starts, dtype=I8), numpy.array(stops, dtype=I8), numpy.array(content, dtype=I8))


class KJC(KJ):
    name = "jagc"

    def build(self, ids):
        rows = [self.value(i) if i >= 0 else [-999, -998] for i in ids]
        offs = numpy.cumsum([0] + [len(r) for r in rows])
        return JaggedArray(offs[:-1].astype(I8), offs[1:].astype(I8), numpy.array([y for r in rows for y in r], dtype=I8))


class KT(Kind):
    name = "tab"

    def build(self, ids):
        return Table(x=_ints(ids), y=numpy.array([i + 0.5 if i >= 0 else -999 for i in ids], dtype=float))

    def value(self, i):
        return {"x": 100 + i, "y": i + 0.5}


class KTV(KT):
    """a table that is itself a view (reversed, with junk rows)"""

    name = "tabview"

    def build(self, ids):
        rev = [-1] + list(ids)[::-1] + [-1]
        t = Table(x=_ints(rev), y=numpy.array([i + 0.5 if i >= 0 else -999 for i in rev], dtype=float))
        return Table.fromview((len(ids), -1, len(ids)), t)


class KS(Kind):
    name = "str"

    def value(self, i):
        return ["", "one", "tw\u00f6"][i % 3] + ("x" * (i // 3))

    def build(self, ids):
        return StringArray.fromiter([self.value(i) if i >= 0 else "JUNK" for i in ids])


class KM(Kind):
    name = "mask"

    def value(self, i):
        return None if i % 3 == 1 else 100 + i

    def build(self, ids):
        return MaskedArray(numpy.array([i >= 0 and i % 3 == 1 for i in ids], dtype=bool), _ints([i if i % 3 != 1 else -1 for i in ids]))


class KMF(KM):
    name = "maskF"

    def build(self, ids):
        return MaskedArray(numpy.array([not (i >= 0 and i % 3 == 1) for i in ids], dtype=bool), _ints([i if i % 3 != 1 else -1 for i in ids]), maskedwhen=False)


class KIM(KM):
    name = "imask"

    def build(self, ids):
        content, mask = [-1], []
        for i in ids:
            if i >= 0 and i % 3 == 1:
                mask.append(-1)
            else:
                mask.append(len(content))
                content.append(i)
        return IndexedMaskedArray(numpy.array(mask, dtype=I8), _ints(content))


class KBM(KM):
    name = "bmask"
    lsborder = True
    maskedwhen = True

    def build(self, ids):
        bits = [(i >= 0 and i % 3 == 1) == self.maskedwhen for i in ids]
        nbytes = (len(bits) + 7) // 8
        raw = [0] * nbytes
        for k, b in enumerate(bits):
            if b:
                raw[k // 8] |= (1 << (k % 8)) if self.lsborder else (128 >> (k % 8))
        return BitMaskedArray(numpy.array(raw, dtype=numpy.uint8), _ints([i if i % 3 != 1 else -1 for i in ids]), maskedwhen=self.maskedwhen, lsborder=self.lsborder)


class KBM2(KBM):
    name = "bmaskMF"
    lsborder = False
    maskedwhen = False


class KX(Kind):
    name = "idx"

    def value(self, i):
        return 100 + i

    def build(self, ids):
        n = len(ids)
        return IndexedArray(numpy.arange(n, 0, -1), _ints([-1] + list(ids)[::-1]))


class KSP(Kind):
    name = "sparse"

    def value(self, i):
        return 0 if i % 2 == 0 else 100 + i

    def build(self, ids):
        pos = [p for p, i in enumerate(ids) if not (i >= 0 and i % 2 == 0)]
        return SparseArray(len(ids), numpy.array(pos, dtype=I8), _ints([ids[p] for p in pos]))


class KC(Kind):
    name = "chk"

    def value(self, i):
        return 100 + i

    def build(self, ids):
        ids = list(ids)
        cut = [0, 1, 1, 3, len(ids)]
        chunks = [_ints(ids[a:b]) for a, b in zip(cut[:-1], cut[1:]) if a <= b]
        if len(ids) <= 3:
            chunks = [_ints(ids[:1]), _ints([]), _ints(ids[1:])]
        return ChunkedArray(chunks)


class KU(Kind):
    """alternating int and list elements"""

    name = "uni"

    def value(self, i):
        return 100 + i if i % 2 == 0 else [i, i + 50]

    def build(self, ids):
        tags = [0 if i < 0 or i % 2 == 0 else 1 for i in ids]
        c0 = [i for i, t in zip(ids, tags) if t == 0]
        c1 = [i for i, t in zip(ids, tags) if t == 1]
        n0, n1, index = 0, 1, []
        for t in tags:
            if t == 0:
                index.append(n0)
                n0 += 1
            else:
                index.append(n1)
                n1 += 1
        return UnionArray(numpy.array(tags, dtype=numpy.uint8), numpy.array(index, dtype=I8), [_ints(c0), JaggedArray.fromcounts(numpy.array([1] + [2] * len(c1)), numpy.array([-999] + [y for i in c1 for y in (i, i + 50)], dtype=I8))])


class KO(Kind):
    name = "obj"

    def value(self, i):
        return Point(100 + i)

    def build(self, ids):
        return ObjectArray(_ints(ids), make_point)


class KV(Kind):
    name = "vrt"

    def value(self, i):
        return 100 + i

    def build(self, ids):
        return VirtualArray(_produce, (_ints(ids),))


class KVT(Kind):
    name = "vrtcache"

    def value(self, i):
        return 100 + i

    def build(self, ids):
        return VirtualArray(_produce, (_ints(ids),), cache=CACHE)


CACHE = {}

KINDS = dict((k.name, k()) for k in (KI, KF, KB, K2, KStrided, KJ, KJC, KT, KTV, KS, KM, KMF, KIM, KBM, KBM2, KX, KSP, KC, KU, KO, KV, KVT))


# ---------------------------------------------------------------- jagged layouts
def count_vectors(maxlen, maxcount):
    for n in range(maxlen + 1):
        for v in itertools.product(range(maxcount + 1), repeat=n):
            yield list(v)


def ids_of(counts):
    out, k = [], 0
    for c in counts:
        out.append(list(range(k, k + c)))
        k += c
    return out


LAYOUTS = ["offsets", "offjunk", "copied", "gaps", "reversed", "longstops", "emptyfar", "u1", "u8", "strided", "shared", "bigend"]


def jagged_parts(rows, layout):
    """(starts, stops, stored ids) for a logical list of id lists."""
    n = len(rows)
    flat = [i for r in rows for i in r]
    counts = [len(r) for r in rows]
    if layout in ("offsets", "offjunk", "copied", "u1", "u8", "strided"):
        lead = 2 if layout == "offjunk" else 0
        ids = [-1] * lead + flat + ([-1, -1] if layout == "offjunk" else [])
        offsets = numpy.array(list(itertools.accumulate([lead] + counts)), dtype={"u1": numpy.uint8, "u8": numpy.uint64}.get(layout, I8))
        if layout == "copied":
            return offsets[:-1].copy(), offsets[1:].copy(), ids
        if layout == "strided":
            a = numpy.full(2 * n, 55, dtype=numpy.int32)
            b = numpy.full(2 * n, 55, dtype=numpy.int32)
            a[::2] = offsets[:-1]
            b[::2] = offsets[1:]
            return a[::2], b[::2], ids
        return offsets[:-1], offsets[1:], ids
    if layout == "gaps":
        ids, starts, stops = [-1], [], []
        for r in rows:
            starts.append(len(ids))
            ids += r
            stops.append(len(ids))
            ids.append(-1)
        return numpy.array(starts, dtype=I8), numpy.array(stops, dtype=I8), ids
    if layout in ("reversed", "bigend"):        # (the second with unsigned positions in the other byte order)
        ids, starts, stops = [], [0] * n, [0] * n
        for k in range(n - 1, -1, -1):
            starts[k] = len(ids)
            ids += rows[k]
            stops[k] = len(ids)
        return numpy.array(starts, dtype=">u8" if layout == "bigend" else I8), numpy.array(stops, dtype=">u8" if layout == "bigend" else I8), ids
    if layout == "longstops":
        offsets = list(itertools.accumulate([0] + counts))
        return numpy.array(offsets[:-1], dtype=I8), numpy.array(offsets[1:] + [0, len(flat)], dtype=I8), flat
    if layout == "emptyfar":
        offsets = list(itertools.accumulate([0] + counts))
        starts = [o if c else len(flat) + 7 for o, c in zip(offsets, counts)]
        stops = [s + c for s, c in zip(starts, counts)]
        return numpy.array(starts, dtype=I8), numpy.array(stops, dtype=I8), flat
    if layout == "shared":      # starts and stops are the same storage order but interleaved in one buffer
        buf = numpy.zeros((n, 2), dtype=I8)
        offsets = list(itertools.accumulate([1] + counts))
        buf[:, 0] = offsets[:-1]
        buf[:, 1] = offsets[1:]
        return buf[:, 0], buf[:, 1], [-1] + flat
    raise ValueError(layout)


def jagged(counts, layout, kind):
    starts, stops, ids = jagged_parts(ids_of(counts), layout)
    return JaggedArray(starts, stops, KINDS[kind].build(ids))


def jagged_value(counts, kind):
    v = KINDS[kind].value
    return [[v(i) for i in r] for r in ids_of(counts)]


def jagged_from_rows(rows, layout, dtype):
    """Jagged array of primitive values laid out in `layout`."""
    flat = [v for r in rows for v in r]
    starts, stops, ids = jagged_parts(ids_of([len(r) for r in rows]), layout)
    junk = True if dtype == bool else 99
    return JaggedArray(starts, stops, numpy.array([flat[i] if i >= 0 else junk for i in ids], dtype=dtype))
