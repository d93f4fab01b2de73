"""C28: arrays in Pandas series and frames, and jagged data flattened to frames."""
import itertools

import numpy
import pandas

import awkward0
from awkward0 import AppendableArray, ChunkedArray, ObjectArray, StringArray, Table, VirtualArray, topandas
from awkward0.array.base import AwkwardArray

from .. import ops
from ..core import Violation
from ..obs import expect, norm, physical, text

ID = "C28"
RULE = "topandas(array, flatten=True) gives one row for each innermost element, in order, with the positions in each level of lists as its index and the value of every column there, or refuses; topandas(array) holds the same elements, and slicing, masking, iterating, concatenating and copying it gives the elements that lists give; an outcome is non-trivial when its canonical value is distinct"
ASSUMPTIONS = [
    "arrays with missing lists or records, unions and other structure without a counterpart in Pandas are refused when flattening; columns of lists with equal counts in different layouts may be, if they are not of the same class and layout",
    "the extension type is documented as not fully implemented: take, isna and comparisons through Pandas are not checked, and arrays containing chunked, virtual, union or sparse ones may be refused",
    "missing numbers are NaN in Pandas",
]
BOUNDS = {
    "quick": "23 schemas of up to 3 levels of lists in up to 3 columns, arrays of length 0 to 3 with all counts of 0..2 in the first level and 3 patterns in the inner ones, every part in every other representation; 16 kinds of series with 12 operations",
    "thorough": "arrays of length 4 with counts of 0..3, pairs of representations",
}

L, N, S, O = (lambda t: ("list", t)), ("num", "i8"), ("str",), ("opt", ("num", "f8"))


def R(**kw):
    return ("rec",) + tuple(kw.items())


SCHEMAS = {
    "number": N,
    "float": ("num", "f8"),
    "bool": ("num", "?"),
    "string": S,
    "option": O,
    "list": L(N),
    "list of strings": L(S),
    "list of options": L(O),
    "list2": L(L(N)),
    "list3": L(L(L(N))),
    "columns": R(x=N, y=("num", "f8"), z=S),
    "option column": R(x=O, y=N),
    "table of lists": R(x=L(N), y=N),
    "two lists": R(x=L(N), y=N, z=L(S)),
    "list of table": L(R(x=N, y=S)),
    "list of table of lists": L(R(x=N, y=L(N))),
    "nested table": R(a=R(b=N, c=S), e=N),
    "lists in a nested table": R(a=R(b=N, c=R(d=L(N))), e=N),
    "list2 column": R(a=N, b=L(L(N))),
    "table in list column": R(a=N, b=L(R(x=N, y=N))),
    "list before nested list": R(x=L(N), a=R(y=L(N), z=N)),
    "nested lists": R(a=R(y=L(N)), b=R(z=L(N))),
    "nested table in list": L(R(a=R(x=N, y=N), b=N)),
    "empty name": ("rec", ("", N), (" ", L(N))),
    "two list2": R(x=L(L(N)), y=L(L(N)), z=N),
    "tables of list2": R(a=R(x=L(L(N)), z=N), b=R(c=R(y=L(L(N))))),
    "lists of two depths": R(x=L(N), y=L(L(N))),
}


def tree_of(schema, n, counts, level, state):
    kind = schema[0]
    if kind == "num":
        base = state["next"]
        state["next"] += n
        return ["num", schema[1], [bool((base + i) % 3) if schema[1] == "?" else float(base + i) + 0.5 if schema[1] == "f8" else base + i for i in range(n)]]
    if kind == "str":
        base = state["next"]
        state["next"] += n
        return ["str", ["s" * ((base + i) % 3) + str(i) if i else "" for i in range(n)]]
    if kind == "opt":
        return ["opt", [bool((i + 1) % 3 == 0) for i in range(n)], tree_of(schema[1], n, counts, level, state)]
    if kind == "list":
        state["lists"] += 1
        c = list(counts(level, n))
        if state["lists"] == state["differs"] and n:
            c[-1] += 1
        return ["list", c, tree_of(schema[1], sum(c), counts, level + 1, state)]
    return ["rec"] + [[k, tree_of(t, n, counts, level, state)] for k, t in schema[1:]]


def lists_in(schema):
    if schema[0] == "list":
        return 1 + lists_in(schema[1])
    if schema[0] == "rec":
        return sum(lists_in(t) for _, t in schema[1:])
    return 0


# ---------------------------------------------------------------- oracle
class Refused(Exception):
    pass


def expand(schema, value, path):
    """[(index within value, {column: leaf})]"""
    if schema[0] == "list":
        return [((j,) + idx, row) for j, x in enumerate(value) for idx, row in expand(schema[1], x, path)]
    if schema[0] == "rec":
        parts = [(expand(t, value[n], path + (n,)), depth(t)) for n, t in schema[1:]]
        deep = [p for p, d in parts if d]
        if any(d != deepest(parts) for _, d in parts if d):
            raise Refused()
        if deep and any([i for i, _ in p] != [i for i, _ in deep[0]] for p in deep):
            raise Refused()
        out = []
        for k, idx in enumerate([i for i, _ in deep[0]] if deep else [()]):
            row = {}
            for p, d in parts:
                row.update(p[k if d else 0][1])
            out.append((idx, row))
        return out
    return [((), {path: value})]


def deepest(parts):
    return max(d for _, d in parts)


def depth(schema):
    if schema[0] == "list":
        return 1 + depth(schema[1])
    if schema[0] == "rec":
        return max(depth(t) for _, t in schema[1:])
    return 0


def leaves(schema, path=()):
    if schema[0] == "list":
        return leaves(schema[1], path)
    if schema[0] == "rec":
        return [x for n, t in schema[1:] for x in leaves(t, path + (n,))]
    return [path]


def reference(schema, value):
    rows = [((i,) + idx, row) for i, x in enumerate(value) for idx, row in expand(schema, x, ())]
    cols = leaves(schema)
    width = max(len(c) for c in cols)
    return {
        "index": [list(i) for i, _ in rows],
        "columns": [list(c) + [""] * (width - len(c)) for c in cols],
        "values": [[row[c] for _, row in rows] for c in cols],
    }


def astuple(x):
    return list(x) if isinstance(x, tuple) else [x]


def plain(x):
    if x is None or x is pandas.NA or (isinstance(x, float) and x != x):
        return None
    if isinstance(x, (float, numpy.floating)) and float(x) == int(x):
        return int(x)                       # numbers with missing ones among them become floats
    return norm(x)


def shown(df):
    if isinstance(df, pandas.Series):
        return {"index": [[norm(y) for y in astuple(i)] for i in df.index], "columns": [[]], "values": [[plain(x) for x in df.tolist()]]}
    return {"index": [[norm(y) for y in astuple(i)] for i in df.index], "columns": [astuple(c) for c in df.columns], "values": [[plain(x) for x in df.iloc[:, k].tolist()] for k in range(df.shape[1])]}


def canonical(want):
    want["values"] = [[plain(x) for x in col] for col in want["values"]]
    return want


PATTERNS = {
    "ones": lambda level, n: [1] * n,
    "mixed": lambda level, n: [(2 * i + level) % 3 for i in range(n)],
    "none": lambda level, n: [0] * n,
}


def chosen(first, pattern):
    return lambda level, n: first if level == 0 and len(first) == n else PATTERNS[pattern](level, n)


def may_decline(tree, where, how):
    """flattening knows lists, tables, strings, numbers and missing numbers, in chunks or virtual, and nothing else"""
    if how in ("masked", "maskedF", "bitmasked", "indexedmasked", "union", "union1", "sparse", "indexed", "chunked"):
        return True
    kinds = dict(ops.nodes(tree))
    return how == "virtual" and any(kinds[where[:i]] == "opt" for i in range(len(where) + 1))


def flattened(name, first, n, pattern, differs, plan, ctx):
    schema = SCHEMAS[name]
    tree = tree_of(schema, n, chosen(first, pattern), 0, {"next": 10, "lists": 0, "differs": differs})
    a = ops.make(tree, plan)
    ctx.state(physical(a))
    ctx.step()
    try:
        want = canonical(reference(schema, ops.value(tree)))
    except Refused:
        want = None
    if n == 0 or lists_in(schema) and not any(first):
        want = want if want and name != "lists of two depths" else {}              # there are no rows
    try:
        df = topandas(a, flatten=True)
    except Exception as err:
        if not want:
            ctx.outcome("refused " + type(err).__name__)
            return
        if want == {} or any(may_decline(tree, where, how) for where, how in plan):
            ctx.outcome("declined " + type(err).__name__)
            return
        raise
    if want is None:
        raise Violation("lists of different structure in a frame: " + text(shown(df)))
    if not want:
        expect(len(df), 0, "rows")
        return
    ctx.outcome(expect(shown(df), want, "frame"))


# ---------------------------------------------------------------- series of arrays
def series_cases():
    J = awkward0.fromiter
    rec = ["rec", ["x", ["num", "i8", [1, 2, 3]]], ["y", ["list", [1, 0, 2], ["num", "f8", [1.5, 2.5, 3.5]]]]]
    trees = {
        "list": ["list", [1, 0, 2], ["num", "i8", [1, 2, 3]]],
        "list of strings": ["list", [1, 0, 2], ["str", ["a", "", "bc"]]],
        "list2": ["list", [2, 0, 1], ["list", [0, 2, 1], ["num", "i8", [1, 2, 3]]]],
        "list of table": ["list", [1, 0, 2], rec],
        "string": ["str", ["a", "", "bc"]],
        "option": ["opt", [False, True, False], ["num", "i8", [1, 2, 3]]],
        "option of list": ["opt", [False, True, False], ["list", [1, 0, 2], ["num", "i8", [1, 2, 3]]]],
        "number": ["num", "i8", [1, 2, 3]],
        "table": rec,
        "table of table": ["rec", ["a", rec], ["b", ["str", ["a", "", "bc"]]]],
        "table with option": ["rec", ["a", ["opt", [True, False, False], ["num", "i8", [1, 2, 3]]]], ["b", ["num", "f8", [1.5, 2.5, 3.5]]]],
    }
    return trees


def select(v, where):
    kind, arg = where
    if kind == "mask":
        return [x for x, m in zip(v, arg) if m]
    if kind == "slice":
        return v[slice(*arg)]
    raise ValueError(kind)


def masks(n):
    return itertools.product((True, False), repeat=n)


SLICES = [(None, None, None), (1, None, None), (None, -1, None), (None, None, -1), (None, None, 2), (-2, None, None), (2, 1, None), (5, None, None)]


def values(s):
    """a series of an array, or of numpy when the array is one"""
    return [plainvalue(x) for x in list(s)]


def plainvalue(x):
    x = norm(x)
    return None if isinstance(x, float) and x != x else x


def arithmetic(v):
    if isinstance(v, list):
        return all(arithmetic(x) for x in v)
    return v is None or isinstance(v, (int, float))


def plus(v, factor=1, term=1):
    if isinstance(v, list):
        return [plus(x, factor, term) for x in v]
    return None if v is None else factor * v + term


MUST = ("values", "array", "len", "copy", "iloc", "slice", "mask", "frame", "add", "negative")


def column(s, v, what, ctx, declines):
    def one(name, fn, want):
        ctx.step()
        try:
            got = fn()
        except Exception as err:
            if not declines and name.split()[0] in MUST:
                raise
            ctx.outcome("%s declined %s" % (name, type(err).__name__))
            return
        ctx.outcome(expect(got, want, what + " " + name))

    def both(s):
        return [values(s), [norm(i) for i in s.index]]

    n = len(v)
    one("values", lambda: values(s), v)
    one("array", lambda: norm(s.values), v)
    one("len", lambda: [len(s), norm(list(s.index))], [n, list(range(n))])
    one("copy", lambda: both(s.copy()), [v, list(range(n))])
    for where in SLICES:
        one("iloc %s" % (where,), lambda: both(s.iloc[slice(*where)]), [v[slice(*where)], list(range(n))[slice(*where)]])
        one("slice %s" % (where,), lambda: both(s[slice(*where)]), [v[slice(*where)], list(range(n))[slice(*where)]])
    for m in masks(n):
        if isinstance(s.values, AwkwardArray) and len(s.values.columns) != 0:
            break               # Pandas wants to take
        one("mask %s" % (m,), lambda: both(s[numpy.array(m, dtype=bool)]), [select(v, ("mask", m)), select(list(range(n)), ("mask", m))])
    for i in range(n):
        one("iloc %d" % i, lambda: plainvalue(s.iloc[i]), v[i])
        one("loc %d" % i, lambda: plainvalue(s.loc[i]), v[i])
    one("reset", lambda: both(s[1:].reset_index(drop=True)), [v[1:], list(range(n - 1))])
    if not isinstance(s.values, StringArray):
        one("concat", lambda: both(pandas.concat([s, s[1:]])), [v + v[1:], list(range(n)) + list(range(1, n))])
    if arithmetic(v):
        one("add", lambda: both(s + 1), [plus(v), list(range(n))])
        one("negative", lambda: both(numpy.negative(s)), [plus(v, -1, 0), list(range(n))])
    one("frame", lambda: both(pandas.DataFrame({"q": s})["q"]), [v, list(range(n))])


def series(name, plan, ctx):
    tree = series_cases()[name]
    v = ops.value(tree)
    a = ops.make(tree, plan)
    ctx.state(physical(a))
    declines = any(h in ("chunked", "virtual", "union", "union1", "sparse") for _, h in plan)
    ctx.step()
    try:
        s = topandas(a)
    except Exception as err:
        if not declines:
            raise
        ctx.outcome("declined " + type(err).__name__)
        return
    before = norm(a)
    if tree[0] == "list" and tree[2][0] == "rec":
        if not isinstance(s, pandas.DataFrame):
            raise Violation("lists of tables become a %s" % type(s).__name__)
        expect([list(s.columns), len(s)], [[n for n, _ in tree[2][1:]], len(v)], "columns")
        for n, t in tree[2][1:]:
            column(s[n], [[y[n] for y in x] for x in v], "column " + n, ctx, declines)
    elif tree[0] == "rec":
        if not isinstance(s, pandas.DataFrame):
            raise Violation("a table becomes a %s" % type(s).__name__)
        expect([list(s.columns), len(s)], [[n for n, _ in tree[1:]], len(v)], "columns")
        for n, t in tree[1:]:
            column(s[n], [x[n] for x in v], "column " + n, ctx, declines)
    else:
        if not isinstance(s, pandas.Series):
            raise Violation("an array becomes a %s" % type(s).__name__)
        column(s, v, "series", ctx, declines)
    expect(norm(a), before, "the array afterwards")
    if type(a) is not type(ops.make(tree, plan)):
        raise Violation("the array became a %s" % type(a).__name__)


def numpys(ctx):
    for v in ([], [1, 2], [1.5], [True, False]):
        for b in (v, numpy.array(v)):
            s = topandas(b)
            expect([type(s).__name__, norm(s.tolist())], ["Series", v], "numpy")
            ctx.step()
    a = numpy.array([(1, 2.5), (3, 4.5)], dtype=[("y", "i8"), ("x", "f8")])
    df = topandas(a)
    ctx.outcome(expect([list(df.columns), norm(df["y"].tolist()), norm(df["x"].tolist())], [["y", "x"], [1, 3], [2.5, 4.5]], "structured"))


# ---------------------------------------------------------------- units
WIDE = {"strings": lambda i: awkward0.StringArray.fromiter(["v%d" % i, "w"]),
        "lists": lambda i: awkward0.fromiter([[i], []]),
        "lists of strings": lambda i: awkward0.fromiter([["v%d" % i], []]),
        "masked strings": lambda i: awkward0.MaskedArray([True, False], awkward0.StringArray.fromiter(["", "v%d" % i])),
        "selected strings": lambda i: awkward0.IndexedArray([1, 0], awkward0.StringArray.fromiter(["", "v%d" % i])),
        "records": lambda i: awkward0.Table(x=awkward0.StringArray.fromiter(["v%d" % i, ""]))}


def wide(columns, which, ctx):
    """Many columns of the same form: none is taken for another."""
    make = WIDE[which]
    t = awkward0.Table()
    want = []
    for i in range(columns):
        t["c%d" % i] = make(i)
        want.append(values(make(i)))
    df = awkward0.topandas(t)
    got = [values(df["c%d" % i]) for i in range(columns)]
    ctx.step(columns)
    if got != want:
        i = [g == w for g, w in zip(got, want)].index(False)
        raise Violation("column %d of %d: %r instead of %r" % (i, columns, got[i], want[i]))


def units(tier):
    for name in sorted(SCHEMAS):
        for n in range(4 if tier == "quick" else 5):
            yield ["flatten", name, n, tier == "thorough"]
        yield ["plans", name, tier == "thorough"]
    for name in sorted(series_cases()):
        yield ["series", name, tier == "thorough"]
    yield ["numpy"]
    yield ["wide"]


def unit_of(case):
    return case[0]


def run_unit(unit, ctx):
    if unit[0] == "flatten":
        _, name, n, deep = unit
        schema = SCHEMAS[name]
        many = lists_in(schema)
        for first in itertools.product(range(4 if deep else 3), repeat=n) if many else [()]:
            for pattern in sorted(PATTERNS) if depth(schema) > 1 else ["mixed"]:
                for differs in range(many + 1) if many > 1 and schema[0] == "rec" else [0]:
                    ctx.case([unit, list(first), pattern, differs], flattened, name, list(first), n, pattern, differs, (), ctx)
    elif unit[0] == "plans":
        _, name, deep = unit
        schema = SCHEMAS[name]
        for n, first in ((3, [2, 0, 1]), (2, [1, 2]), (0, [])):
            tree = tree_of(schema, n, chosen(first, "mixed"), 0, {"next": 10, "lists": 0, "differs": 0})
            singles = [(path, how) for path, kind in ops.nodes(tree) for how in ops.options(kind)]
            plans = [[p] for p in singles]
            if deep:
                plans += [[p, q] for p, q in itertools.combinations(singles, 2)]
            for plan in plans:
                ctx.case([unit, n, plan], flattened, name, first, n, "mixed", 0, plan, ctx)
    elif unit[0] == "series":
        _, name, deep = unit
        tree = series_cases()[name]
        singles = [(path, how) for path, kind in ops.nodes(tree) for how in ops.options(kind)]
        for plan in [[]] + [[p] for p in singles] + ([[p, q] for p, q in itertools.combinations(singles, 2)] if deep else []):
            ctx.case([unit, plan], series, name, plan, ctx)
    elif unit[0] == "numpy":
        ctx.case([unit], numpys, ctx)
    elif unit[0] == "wide":
        for columns in (1, 10, 100, 400):
            for which in sorted(WIDE):
                ctx.case([unit, columns, which], wide, columns, which, ctx)
