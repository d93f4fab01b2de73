"""Reference semantics of selections on plain nested lists."""


class ModelError(Exception):
    """The operation must raise."""


def sel_int(v, i):
    if not isinstance(v, list):
        raise ModelError("too many indexes")
    if not -len(v) <= i < len(v):
        raise ModelError("out of range")
    return v[i]


def select(v, where):
    """where: ("int", i) | ("slice", a, b, c) | ("mask", [bool]) | ("take", [int]) | ("tuple", [where...])"""
    op = where[0]
    if op == "int":
        return sel_int(v, where[1])
    if not isinstance(v, list):
        raise ModelError("too many indexes")
    if op == "slice":
        return v[slice(where[1], where[2], where[3])]
    if op == "mask":
        if len(where[1]) != len(v):
            raise ModelError("mask length")
        return [x for x, m in zip(v, where[1]) if m]
    if op == "take":
        return [sel_int(v, i) for i in where[1]]
    if op == "tuple":
        return select_tuple(v, list(where[1]))
    if op == "jmask":
        if len(where[1]) != len(v):
            raise ModelError("length")
        return [select(x, ("mask", m)) for x, m in zip(v, where[1])]
    if op == "jtake":
        if len(where[1]) != len(v):
            raise ModelError("length")
        return [select(x, ("take", m)) for x, m in zip(v, where[1])]
    if op == "col":
        return column(v, where[1])
    raise ValueError(where)


def select_tuple(v, wheres):
    if not wheres:
        return v
    head, tail = wheres[0], wheres[1:]
    if head[0] == "int":
        return select_tuple(sel_int(v, head[1]), tail)
    rows = select(v, head)
    if not tail:
        return rows
    if head[0] in ("mask", "take") and tail[0][0] in ("mask", "take"):
        # numpy: two adjacent advanced indexes are paired element by element
        if tail[0][0] == "mask":
            index = [i for i, m in enumerate(tail[0][1]) if m]
            # rows whose length differs from the mask's are accepted while the positions exist
        else:
            index = list(tail[0][1])
        if len(index) != len(rows):
            raise ModelError("shape mismatch")
        return [select_tuple(sel_int(r, i), tail[1:]) for r, i in zip(rows, index)]
    return [select_tuple(r, tail) for r in rows]


def column(v, name):
    if v is None:
        return None
    if isinstance(v, dict):
        if name not in v:
            raise ModelError("no column")
        return v[name]
    if isinstance(v, list):
        return [column(x, name) for x in v]
    raise ModelError("no column")


def real(where, how="numpy"):
    """The Python index object for a model selection."""
    import numpy

    op = where[0]
    if how in ("u8", "u1", "i2", ">i4"):        # an integer of that type, or an array of them
        if op in ("int", "take"):
            if how[0] == "u" and numpy.any(numpy.array(where[1], dtype=int) < 0):
                how = "i2"
            return numpy.array(where[1], dtype=how)[()]
        if op == "tuple":
            return tuple(real(w, how) for w in where[1])
        how = "numpy"
    if op == "int":
        return where[1] if how == "list" else numpy.int64(where[1]) if how == "npint" else where[1]
    if op == "slice":
        return slice(where[1], where[2], where[3])
    if op == "mask":
        return list(where[1]) if how == "list" else numpy.array(where[1], dtype=numpy.bool_)
    if op == "take":
        return list(where[1]) if how == "list" else numpy.array(where[1], dtype=numpy.int64)
    if op == "tuple":
        return tuple(real(w, how) for w in where[1])
    if op == "col":
        return where[1]
    raise ValueError(where)


def slices(n, steps=(None, 1, 2, -1, -2), extra=1):
    """Slices covering every (start, stop) in [-n-extra, n+extra] and None."""
    ends = [None] + list(range(-n - extra, n + extra + 1))
    for c in steps:
        for a in ends:
            for b in ends:
                yield ("slice", a, b, c)


def some_slices(n):
    """Small set with all the qualitatively different ends."""
    ends = sorted(set([-n - 1, -1, 0, 1, n, n + 1]))
    out = []
    for c in (None, 2, -1, -2):
        for a in [None] + ends:
            for b in [None] + ends:
                out.append(("slice", a, b, c))
    return out


def masks(n):
    import itertools

    for m in itertools.product([False, True], repeat=n):
        yield ("mask", list(m))


def takes(n, maxlen, beyond=True):
    import itertools

    lo, hi = (-n - 1, n + 1) if beyond else (-n, n)
    for k in range(maxlen + 1):
        for t in itertools.product(range(lo, hi), repeat=k):
            yield ("take", list(t))
