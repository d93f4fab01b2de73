"""C22: reading data never calls anything outside the whitelist."""
import base64
import collections
import copy
import datetime
import fnmatch
import importlib
import inspect
import io
import itertools
import json
import pickle
import re
import struct
import sys
import types

import h5py
import numpy

import awkward0
import awkward0.persist
from awkward0 import (ChunkedArray, IndexedArray, IndexedMaskedArray, JaggedArray, MaskedArray, ObjectArray, StringArray, Table, UnionArray, VirtualArray)
from awkward0.array.base import AwkwardArray
from awkward0.persist import deserialize, json2type, serialize, spec2function

from .. import c22funcs, forms
from ..core import Violation
from ..obs import norm, observe, text

ID = "C22"
RULE = "every function specification up to the length bound over an alphabet of modules, classes, methods, data and special names, against every whitelist of a family of patterns; every schema expression up to the depth bound over all kinds of expressions, well-formed and not; every schema of a real array with every node replaced by every one of a list of intruders or with a field removed; pickles with every opcode that refers to or calls a global; each compared with an independent interpreter of docs/serialization.adoc and with the record of the calls made; an outcome is non-trivial when the value (or the error) and the record are distinct"
ASSUMPTIONS = ["functions that are not allowed are stand-ins that record their calls", "what is inside of a whitelisted class (but special names) is whitelisted; pickles made by the pickle module itself are trusted",
               "a schema with more than one identifying key or with an identifier twice is not enumerated", "a failure may come when the array is used for the first time, if it is in a virtual array"]
BOUNDS = {"quick": "specifications of up to 4 names of 21, 60 whitelists; expressions of depth 2 of 13 kinds; 14 arrays, every node, 22 intruders; 40 globals, 9 ways to use them",
          "thorough": "specifications of up to 5 names, 200 whitelists; expressions of depth 3; arrays of every class, every pair of nodes"}
CASE_SECONDS = 60

M = "mc.c22funcs"


# ---------------------------------------------------------------- reference
class Refused(Exception):
    pass


def glob(pattern):
    out = ""
    for c in pattern:
        out += ".*" if c == "*" else "." if c == "?" else re.escape(c)
    return re.compile("(?s:%s)\\Z" % out)


def patterns(whitelist):
    if isinstance(whitelist, str):
        return [[whitelist]]
    if len(whitelist) and isinstance(whitelist[0], str):
        return [list(whitelist)]
    return [list(x) for x in whitelist]


def allowed(spec, whitelist):
    if not isinstance(spec, list) or not spec or not all(isinstance(n, str) for n in spec):
        return False
    for p in patterns(whitelist):
        if len(p) <= len(spec) and all(glob(q).match(n) for q, n in zip(p, spec)) and (p == ["*"] or not any(n[:2] == "__" for n in spec[len(p):])):
            return True
    return False


def resolve(spec, whitelist):
    if not allowed(spec, whitelist):
        raise Refused(spec)
    spec = list(spec)
    if spec[0] == "awkward":
        spec[0] = "awkward0"
    try:
        obj = importlib.import_module(spec[0])
    except Exception as err:
        raise Refused(err)
    rest = spec[1:]
    if rest[:1] == ["numpy"]:
        obj = getattr(obj, "numpy", None)
        rest = rest[1:]
        if obj is None:
            raise Refused(spec)
    for i, n in enumerate(rest):
        if not (isinstance(obj, types.ModuleType) or inspect.isclass(obj)) or not hasattr(obj, n):
            raise Refused(spec)
        obj = getattr(obj, n)
        if isinstance(obj, types.ModuleType):
            raise Refused(spec)
    if not callable(obj):
        raise Refused(spec)
    return obj


def dtype_of(x):
    if isinstance(x, str):
        return numpy.dtype(x)
    if isinstance(x, list):
        if len(x) == 2 and isinstance(x[1], list) and all(isinstance(n, int) for n in x[1]):
            return numpy.dtype((dtype_of(x[0]), tuple(x[1])))
        if all(isinstance(y, list) and len(y) == 2 and isinstance(y[0], str) for y in x):
            return numpy.dtype([(str(n), dtype_of(y)) for n, y in x])
    if x == {}:
        return numpy.dtype([])
    raise Refused(x)


KINDS = ("call", "read", "list", "tuple", "dict", "pairs", "dtype", "function", "json", "python", "ref")


class Unpickler(pickle.Unpickler):
    def find_class(self, module, name):
        return resolve([module] + name.split("."), self.whitelist)


class Interpreter(object):
    """docs/serialization.adoc, word by word"""

    def __init__(self, storage, prefix, whitelist, cache):
        self.storage, self.prefix, self.whitelist, self.cache = storage, prefix, whitelist, cache
        self.labels = {}

    def __call__(self, x):
        if not isinstance(x, dict):
            raise Refused("not an expression")
        found = [k for k in KINDS if k in x]
        if len(found) != 1:
            raise Refused("not one identifying key: %s" % found)
        k = found[0]
        v = x[k]
        if k == "call":
            fun = resolve(v, self.whitelist)
            args = [self(y) for y in self.type(x.get("args", []), list)]
            kwargs = {}
            if x.get("cacheable", False):
                kwargs["cache"] = self.cache
            if x.get("whitelistable", False):
                kwargs["whitelist"] = patterns(self.whitelist)
            for n, y in self.type(x.get("kwargs", {}), dict).items():
                kwargs[n] = self(y)
            if fun is json2type:
                self.type_allowed(args[0] if args else kwargs["obj"])
                args, kwargs = args[:1], {"whitelist": self.whitelist}
            out = fun(*args, **kwargs)
        elif k == "read":
            out = self.storage[v if x.get("absolute", False) else self.prefix + v]
        elif k == "list":
            out = [self(y) for y in self.type(v, list)]
        elif k == "tuple":
            out = tuple([self(y) for y in self.type(v, list)])
        elif k == "dict":
            out = dict((n, self(y)) for n, y in self.type(v, dict).items())
        elif k == "pairs":
            out = []
            for y in self.type(v, list):
                if not isinstance(y, list) or len(y) != 2:
                    raise Refused("not a pair")
                out.append((y[0], self(y[1])))
        elif k == "dtype":
            out = dtype_of(v)
        elif k == "function":
            out = resolve(v, self.whitelist)
        elif k == "json":
            out = v
        elif k == "python":
            u = Unpickler(io.BytesIO(base64.b64decode(v)))
            u.whitelist = self.whitelist
            out = u.load()
        else:
            if v in self.labels:
                out = self.labels[v]
            else:
                labels = self.labels
                out = VirtualArray(lambda: labels[v])
        if "id" in x:
            self.labels[x["id"]] = out
        return out

    def type(self, x, t):
        if not isinstance(x, t) and not (t is list and x in ({}, "")):
            raise Refused("not a %s" % t.__name__)
        return x

    def type_allowed(self, x):
        if isinstance(x, dict):
            if "function" in x and not set(x) & {"set", "ref", "takes", "fields", "possibilities", "type", "dtype"}:
                resolve(x["function"], self.whitelist)
            for y in x.values():
                self.type_allowed(y)
        elif isinstance(x, list):
            for y in x:
                self.type_allowed(y)


def show(x):
    """a value in canonical text"""
    if isinstance(x, (AwkwardArray, Table.Row)) or isinstance(x, numpy.ndarray):
        if isinstance(x, AwkwardArray) and len(x) > 10000:
            return "%s of length %d" % (type(x).__name__, len(x))
        return "%s%s" % (type(x).__name__, text(observe(x)))
    if isinstance(x, tuple):
        return "(%s)" % ",".join(show(y) for y in x)
    if isinstance(x, list):
        return "[%s]" % ",".join(show(y) for y in x)
    if isinstance(x, dict):
        return "{%s}" % ",".join("%r:%s" % (n, show(x[n])) for n in sorted(x, key=repr))
    if isinstance(x, numpy.dtype):
        return "dtype(%s)" % x.str + str(x.descr if x.names else x.subdtype)
    if inspect.isclass(x) or inspect.isfunction(x) or inspect.ismethod(x) or inspect.isbuiltin(x):
        return "<%s %s>" % (x.__module__, getattr(x, "__qualname__", x))
    if isinstance(x, c22funcs.K):
        return "K" + show(x.args)
    return repr(x)


def run(f):
    """what a computation gives and which functions it calls"""
    del c22funcs.log[:]
    sys.modules.pop("mc.c22trap", None)
    try:
        out = show(f())
    except Exception as err:
        out = "error"
    log = list(c22funcs.log)
    del c22funcs.log[:]
    return out, log


def names_of(schema):
    """functions named in a schema"""
    if isinstance(schema, dict):
        for k in ("call", "function"):
            if k in schema and isinstance(schema[k], list):
                yield schema[k]
        for x in schema.values():
            for y in names_of(x):
                yield y
    elif isinstance(schema, list):
        for x in schema:
            for y in names_of(x):
                yield y


RECORD = {"f": [M, "f"], "g": [M, "g"], "fg": [M, "fg"], "__special__": [M, "__special__"], "K": [M, "K"], "K.make": [M, "K", "make"], "K.f": [M, "K", "f"], "K.Inner.f": [M, "K", "Inner", "f"],
          "import c22trap": ["mc.c22trap"], "c22trap.f": ["mc.c22trap", "f"], "four": [M, "four"]}


def permitted(entry, whitelist):
    spec = RECORD[entry]
    if entry == "import c22trap":
        return any(allowed(spec + rest, whitelist) for rest in ([], ["f"], ["g"], ["K"], ["__special__"], ["f", "f"], ["numpy"]))
    return allowed(spec, whitelist)


def check(schema, storage, whitelist, ctx, prefix="", wrong=True):
    """the real interpreter does what the reference does and calls nothing else"""
    stored = dict(storage)
    whole = {"awkward0": "test", "schema": schema}
    if prefix:
        whole["prefix"] = prefix
    stored["schema"] = json.dumps(whole).encode("ascii")
    cache = {}
    want, should = run(lambda: Interpreter(storage, prefix, whitelist, cache)(schema))
    got, did = run(lambda: deserialize(stored, "schema", whitelist=whitelist, cache=cache))
    ctx.step()
    for entry in did:
        if not permitted(entry, whitelist):
            raise Violation("%s was called, but isn't in the whitelist %s" % (entry, whitelist), "called %s" % entry)
    if got != want and (want == "error" or wrong):
        raise Violation("%s with %s gives %s, expected %s" % (json.dumps(schema), whitelist, got, want), "got an error" if got == "error" else "expected an error" if want == "error" else "wrong value")
    if got == want != "error" and did != should:
        raise Violation("%s calls %s, expected %s" % (json.dumps(schema), did, should), "calls")
    ctx.outcome("%s %s" % (got, did))
    return got


# ---------------------------------------------------------------- specifications
NAMES = ["f", "g", "fg", "K", "make", "Inner", "numpy", "module", "value", "instance", "data", "log", "__special__", "__getattr__", "__globals__", "__class__", "__subclasses__", "__dict__", "get", "absent", "frombuffer"]
MODULES = [M, "mc.c22trap", "mc", "awkward0", "awkward", "numpy", "awkward0.persist", "mc.c22absent", "os"]
WHITELISTS = ["*", M, "mc.*", "", "f", [], [[]] if False else ["*"], [M], [M, "f"], [M, "*"], [M, "f*"], [M, "?"], [M, "K"], [M, "K", "make"], [M, "K", "*"], [M, "*", "f"], [M, "K", "Inner"], [M, "K", "__init__"], [M, "__special__"], [M, "__*"], ["*", "f"], ["*", "numpy"], ["mc.c22*", "f"],
              [["*"]], [[M, "f"], [M, "g"]], [[M, "f", "get"], [M, "K", "Inner", "f"]], [["mc.c22trap", "f"]], [["mc"], [M, "g"]], [["mc.c22absent"], [M, "f"]], [["awkward0", "*Array"]], [["awkward0", "numpy", "frombuffer"]], [["awkward", "Table"]], [["numpy"]], [M, "f", "__globals__"], [M, "F"], ["MC.C22FUNCS"], [M, "[fg]"] if False else [M, "g"],
              [M, "numpy"], [M, "numpy", "frombuffer"], [["f"], ["g"]], ["*.c22funcs", "K"], ["mc", "c22funcs", "f"], "mc.c22funcs.f", [[M, "*", "*"]], [[M, "*", "*", "*"], ["mc.c22trap", "K"]]]


def spec_case(spec, ctx):
    for whitelist in WHITELISTS:
        want = run(lambda: resolve(spec, whitelist))
        got = run(lambda: spec2function(spec, whitelist=whitelist))
        ctx.step()
        if got[0] != want[0]:
            raise Violation("%s with %s gives %s, expected %s" % (spec, whitelist, got[0], want[0]), "allowed" if want[0] == "error" else "refused" if got[0] == "error" else "another object")
        for entry in got[1]:
            if not permitted(entry, whitelist):
                raise Violation("%s with %s: %s" % (spec, whitelist, entry), "called %s" % entry)
        ctx.outcome("%s %s" % got)
    ctx.state(text(spec))


# real classes, everything that can be reached from them in a few steps
ROOTS = [["awkward0", n] for n in sorted(dir(awkward0)) if not n.startswith("_")] + [["awkward0.persist", n] for n in sorted(dir(awkward0.persist))] + [["numpy", n] for n in ("frombuffer", "load", "fromfile", "ndarray", "save")] + [["zlib", "decompress"], ["zlib", "compress"], ["os", "getcwd"], ["builtins", "eval"], ["awkward0.arrow", "_ParquetFile", "fromjson"], ["awkward0.arrow", "fromparquet"], ["awkward0.util", "frombuffer"], ["awkward0.util", "numpy"], ["awkward0", "numpy", "load"], ["awkward0", "numpy", "frombuffer"], ["awkward0", "persist", "topython"]]
TAILS = ["__globals__", "__builtins__", "__code__", "__self__", "__func__", "__dict__", "__init__", "__class__", "__base__", "__mro__", "__subclasses__", "__getattribute__", "__reduce__", "__call__", "mro", "get", "numpy", "awkward0", "fromiter", "copy", "_util_toarray", "persist", "os"]


def reach_case(root, ctx):
    default = awkward0.persist.whitelist
    for rest in [[]] + [[a] for a in TAILS] + [[a, b] for a in TAILS for b in TAILS]:
        spec = root + rest
        want = run(lambda: resolve(spec, DEFAULT))
        got = run(lambda: spec2function(spec))
        ctx.step()
        if got[0] != want[0]:
            raise Violation("%s with the default whitelist gives %s, expected %s" % (spec, got[0], want[0]), "allowed" if want[0] == "error" else "refused" if got[0] == "error" else "another object")
    ctx.state(text(root))


# README.rst, with the present names of the methods of uproot
DEFAULT = [["numpy", "frombuffer"], ["zlib", "decompress"], ["lzma", "decompress"], ["backports.lzma", "decompress"], ["lz4.block", "decompress"], ["awkward0", "*Array"], ["awkward0", "Table"], ["awkward0", "numpy", "frombuffer"], ["awkward0.util", "frombuffer"], ["awkward0.persist", "json2type"], ["awkward0.arrow", "_ParquetFile", "fromjson"],
           ["awkward", "*Array"], ["awkward", "Table"], ["awkward", "numpy", "frombuffer"], ["awkward.util", "frombuffer"], ["awkward.persist", "json2type"], ["awkward.arrow", "_ParquetFile", "fromjson"]]


# ---------------------------------------------------------------- expressions
F, G, KM = {"call": [M, "f"]}, {"call": [M, "g"]}, {"call": [M, "K", "make"]}
P3 = base64.b64encode(pickle.dumps((1, "x", None))).decode("ascii")
PF = base64.b64encode(pickle.dumps(c22funcs.f)).decode("ascii")
LEAVES = [{"call": [M, "f"]}, {"call": [M, "g"]}, {"call": [M, "K"]}, {"call": ["mc.c22trap", "f"]}, {"call": [M]}, {"call": []}, {"call": "f"}, {"call": None}, {"call": [M, 5]}, {"call": [M, "f"], "cacheable": True}, {"call": [M, "f"], "whitelistable": True}, {"call": [M, "f"], "args": 5}, {"call": [M, "f"], "kwargs": []},
          {"read": "a"}, {"read": "b"}, {"read": "absent"}, {"read": "a", "absolute": True}, {"read": "p-a", "absolute": True}, {"read": 5}, {"read": None},
          {"list": []}, {"list": None}, {"tuple": []}, {"tuple": {}}, {"dict": {}}, {"dict": []}, {"pairs": []}, {"pairs": [5]}, {"pairs": [["x"]]},
          {"dtype": "int64"}, {"dtype": "<f4"}, {"dtype": ["int64", [2, 3]]}, {"dtype": [["x", "int64"], ["y", ["<i2", [2]]]]}, {"dtype": [["x", [["z", "bool"]]]]}, {"dtype": "absent"},
          {"function": [M, "f"]}, {"function": [M, "g"]}, {"function": [M, "data"]}, {"function": ["mc.c22trap", "f"]}, {"function": []}, {"function": "f"},
          {"json": None}, {"json": [1, {"call": [M, "g"]}]}, {"json": {"x": 1.5}}, {"json": "text"}, {"python": P3}, {"python": PF}, {"python": "!"}, {"python": 5}, {"ref": 0}, {"ref": 7}, {}, {"args": []}, {"id": 3}, None, 5, "x", [], [{"json": 1}]]
SOME = [LEAVES[i] for i in (0, 1, 13, 15, 29, 35, 41, 45, 46, 51)]


def deeper(x, y):
    """expressions that contain x (and y)"""
    yield {"call": [M, "f"], "args": [x]}
    yield {"call": [M, "f"], "args": [x, y]}
    yield {"call": [M, "g"], "args": [x]}
    yield {"call": [M, "f"], "kwargs": {"x": x, "y": y}}
    yield {"call": [M, "f"], "args": [y], "kwargs": {"cache": x}, "cacheable": True}
    yield {"call": [M, "f"], "kwargs": {"whitelist": x}, "whitelistable": True}
    yield {"list": [x, y]}
    yield {"tuple": [x, y]}
    yield {"dict": {"x": x, "y": y}}
    yield {"pairs": [["y", x], ["x", y]]}
    yield {"call": [M, "K", "make"], "args": [dict(x, id=0) if isinstance(x, dict) else x, {"ref": 0}]}
    yield {"call": [M, "f"], "id": 7, "args": [{"list": [x]}, {"tuple": [y], "id": 2}, {"ref": 2}]}


EXPRWHITE = [[[M, "f"]], [[M, "f"], [M, "g"]], [[M]], [[M, "K"]], [], "*", [["mc.*", "f"]], [[M, "f", "x"]]]
STORAGE = {"a": b"A", "b": b"B", "p-a": b"PA", "p-b": b"PB"}


def expr_case(x, second, ctx):
    for y in second:
        for schema in deeper(x, y) if second != [None] else [x]:
            for whitelist in EXPRWHITE:
                for prefix in ("", "p-"):
                    check(schema, STORAGE, whitelist, ctx, prefix)
            ctx.state(json.dumps(schema))


def deep_case(x, y, ctx):
    for schema in deeper(x, y):
        for outer in deeper(schema, {"call": [M, "g"]}):
            for whitelist in EXPRWHITE:
                check(outer, STORAGE, whitelist, ctx)


# ---------------------------------------------------------------- real arrays
def sample(name):
    n = numpy.array([1.5, 2.5, 3.5, 4.5])
    if name == "jagged":
        return JaggedArray.fromcounts([2, 0, 2], n)
    if name == "layout":
        return JaggedArray([2, 0], [4, 1], n)
    if name == "table":
        return Table(x=n, y=[1, 2, 3, 4])
    if name == "record":
        return numpy.array([(1, 2.5), (2, 3.5)], dtype=[("x", "i4"), ("y", "f8")])
    if name == "string":
        return StringArray.fromiter(["one", "", "three"])
    if name == "masked":
        return MaskedArray([True, False, True, False], n, maskedwhen=True)
    if name == "indexmasked":
        return IndexedMaskedArray([0, -1, 1, 3], n)
    if name == "union":
        return UnionArray.fromtags([0, 1, 0], [n, numpy.array([10])])
    if name == "chunked":
        return ChunkedArray([n, n[:2]])
    if name == "indexed":
        return IndexedArray([3, 0], n)
    if name == "object":
        return ObjectArray(n, c22funcs.f, (5,), {"x": "y"})
    if name == "virtual":
        return VirtualArray(c22funcs.four, (1,), {"z": 2}, persistvirtual=True, type=awkward0.type.ArrayType(4, numpy.float64))
    if name == "complex":
        return awkward0.SparseArray(5, [1, 3], numpy.array([1j, 2j]))
    if name == "cyclic":
        out = JaggedArray.fromcounts([0, 2, 1], Table(x=numpy.arange(3)))
        out.content["y"] = out.content["x"][[2, 1, 0]]
        out.content["down"] = numpy.arange(3)
        return out
    if name == "nested":
        return JaggedArray.fromcounts([1, 0, 2], JaggedArray.fromcounts([2, 0, 1], Table(s=StringArray.fromiter(["a", "b", "c"]))))
    raise KeyError(name)


SAMPLES = ["jagged", "layout", "table", "record", "string", "masked", "indexmasked", "union", "chunked", "indexed", "object", "virtual", "complex", "nested"]
PG = base64.b64encode(pickle.dumps(c22funcs.g)).decode("ascii")
INTRUDERS = [{"call": [M, "g"]}, {"call": [M, "g"], "args": [{"json": 1}]}, {"function": [M, "g"]}, {"call": [M, "K"]}, {"call": ["mc.c22trap", "f"]}, {"call": ["awkward0", "JaggedArray", "copy", "__globals__", "get"], "args": [{"json": "x"}]}, {"call": ["awkward0.persist", "topython"], "args": [{"json": PG}]},
             {"call": ["awkward0", "VirtualArray"], "args": [{"function": [M, "g"]}]}, {"call": ["awkward0", "ObjectArray"], "args": [{"list": [{"json": 1}]}, {"function": [M, "g"]}]}, {"python": PG}, {"python": P3}, {"json": None}, {"json": [1, 2]}, {"json": -1}, {"json": "x"}, {"read": "absent"}, {"ref": 99}, {"ref": 0}, {"ref": 1}, {"ref": 4}, {"dtype": "int8"}, {"list": []}, None, 5,
             {"call": ["awkward0.persist", "json2type"], "args": [{"json": {"function": [M, "g"]}}, {"json": [["*"]]}]}, {"call": ["awkward0.persist", "json2type"], "args": [{"json": {"takes": 4, "to": {"function": [M, "g"]}}}], "kwargs": {"whitelist": {"json": "*"}}}]


def places(x, path=()):
    """every place in a schema"""
    yield path
    if isinstance(x, dict):
        for k in sorted(x):
            for y in places(x[k], path + (k,)):
                yield y
    elif isinstance(x, list):
        for i in range(len(x)):
            for y in places(x[i], path + (i,)):
                yield y


def put(x, path, new):
    if not path:
        return new
    out = copy.copy(x)
    out[path[0]] = put(x[path[0]], path[1:], new)
    return out


def take(x, path):
    out = copy.copy(x)
    if len(path) == 1:
        del out[path[0]]
    else:
        out[path[0]] = take(x[path[0]], path[1:])
    return out


REALWHITE = {"default": DEFAULT, "f": DEFAULT + [[M, "f"], [M, "four"]], "g": DEFAULT + [[M, "f"], [M, "g"]], "class": DEFAULT + [[M, "K"], [M, "f"]]}


def identifiers(x):
    if isinstance(x, dict):
        if "id" in x:
            yield x["id"]
        for y in x.values():
            for z in identifiers(y):
                yield z
    elif isinstance(x, list):
        for y in x:
            for z in identifiers(y):
                yield z


def ambiguous(x):
    """more than one identifying key"""
    if isinstance(x, dict):
        return sum(k in x for k in KINDS) > 1 or any(ambiguous(y) for k, y in x.items() if k != "json")
    return isinstance(x, list) and any(ambiguous(y) for y in x)


def mutate_case(name, which, ctx):
    storage = {}
    a = sample(name)
    serialize(a, storage, "x")
    whole = json.loads(storage.pop("x").decode("ascii"))
    schema, prefix = whole["schema"], whole["prefix"]
    where = list(places(schema))
    path = where[which]
    small = [None, 5, -1, "x", "", [], {}, True, 1.5]
    above = [schema]
    for k in path:
        above.append(above[-1][k])
    above = [x["id"] for x in above[:-1] if isinstance(x, dict) and "id" in x]
    mutants = [put(schema, path, x) for x in INTRUDERS + small if not (isinstance(x, dict) and x.get("ref") in above)]
    if path:
        mutants.append(take(schema, path))
    for m in mutants:
        ids = list(identifiers(m))
        if ambiguous(m) or len(ids) != len(set(map(str, ids))) or any(not isinstance(i, int) or isinstance(i, bool) for i in ids):
            continue
        for w in REALWHITE:
            check(m, storage, REALWHITE[w], ctx, prefix)
        ctx.state(json.dumps(m))


def blob_case(name, ctx):
    """stored parts that are missing, shorter or longer"""
    storage = {}
    serialize(sample(name), storage, "x")
    whole = json.loads(storage.pop("x").decode("ascii"))
    for k in sorted(storage):
        raw = numpy.asarray(storage[k]).tobytes()
        for new in [None, b"", raw[:-1], raw[:len(raw) // 2], raw + b"\0", b"\xff" * len(raw), 5]:
            changed = dict(storage)
            if new is None:
                del changed[k]
            else:
                changed[k] = new
            check(whole["schema"], changed, REALWHITE["g"], ctx, whole["prefix"])
    for text_ in (b"", b"{", b"[]", b"null", b'{"schema": {"json": 1}}', b'{"awkward0": 1}', b"\xff", b'{"awkward0": 1, "schema": []}'):
        got, did = run(lambda: deserialize({"": text_}))
        if got != "error":
            raise Violation("schema %r gives %s" % (text_, got), "malformed schema")


# ---------------------------------------------------------------- pickles
GLOBALS = [(M, "f"), (M, "g"), (M, "K"), (M, "K.make"), (M, "K.Inner.f"), (M, "K.numpy.load"), (M, "f.__globals__"), (M, "f.__globals__.get"), (M, "numpy.frombuffer"), (M, "data"), (M, "log.append"), (M, "instance"), (M, "__special__"), ("mc.c22trap", "f"), ("builtins", "getattr"), ("builtins", "eval"), ("builtins", "exec"), ("builtins", "__import__"), ("__builtin__", "eval"), ("builtins", "open"), ("os", "getcwd"), ("posix", "getcwd"),
           ("pickle", "loads"), ("_pickle", "loads"), ("awkward0.persist", "topython"), ("awkward0.persist", "spec2function"), ("awkward0.persist", "deserialize.__globals__"), ("awkward0", "JaggedArray"), ("awkward0", "JaggedArray.__init__.__globals__"), ("awkward0", "Table"), ("awkward0.array.objects", "ObjectArray"), ("awkward0.array.virtual", "VirtualArray"), ("numpy", "load"), ("numpy", "frombuffer"), ("functools", "partial"), ("operator", "attrgetter"), ("operator", "methodcaller"), ("types", "FunctionType"), ("builtins", "map"), ("builtins", "type"), ("copyreg", "pickle"), ("importlib", "import_module"), ("builtins", "breakpoint"), ("numpy", "memmap"), ("numpy", "fromfile"), ("zlib", "decompress")]
HARMLESS = set([("os", "getcwd"), ("posix", "getcwd")])
STANDIN = set(g for g in GLOBALS if g[0].startswith("mc."))


def u(s):
    s = s.encode("utf-8")
    return b"\x8c" + struct.pack("<B", len(s)) + s


def pickles(module, name, call):
    """pickles that refer to a global, and that call it"""
    text_ = b"c%s\n%s\n" % (module.encode(), name.encode())
    stack = u(module) + u(name) + b"\x93"
    for g in (text_, stack):
        head = b"\x80\x04"
        yield head + g + b"."
        yield head + b"(" + g + b"K\x01t."
        yield head + b"]" + g + b"a."
        yield head + b"}" + u("x") + g + b"s."
        yield head + g + b"0N."                                         # and forget it
        if call:
            yield head + g + b")R."                                     # REDUCE
            yield head + g + b"K\x01\x85R0N."
            yield head + g + b")\x81."                                  # NEWOBJ
            yield head + b"(" + g + b"o."                               # OBJ
            yield head + g + b"(K\x01t}\x92."                           # NEWOBJ_EX
            yield head + b"c%s\n%s\n" % (b"copyreg", b"_reconstructor") + b"(" + g + b"cbuiltins\nobject\nNtR."
            yield head + b"ccopyreg\n__newobj__\n(" + g + b"tR."
            yield head + b"(i%s\n%s\n." % (module.encode(), name.encode())      # INST
            yield b"c%s\n%s\n(tR." % (module.encode(), name.encode())           # protocol 0
    inner = {}
    serialize(numpy.arange(2), inner, "")
    yield pickle.dumps(Nested({"": json.dumps({"awkward0": "1", "schema": {"function": [module] + name.split(".")}}).encode("ascii")}))
    if call:
        yield pickle.dumps(Nested({"": json.dumps({"awkward0": "1", "schema": {"call": [module] + name.split(".")}}).encode("ascii")}))
        yield pickle.dumps(Nested({"": json.dumps({"awkward0": "1", "schema": {"python": base64.b64encode(b"\x80\x04" + stack + b")R.").decode("ascii")}}).encode("ascii")}, [["*"]]))
    yield pickle.dumps(Nested({"": json.dumps({"awkward0": "1", "schema": {"function": [module] + name.split(".")}}).encode("ascii")}, [["*"]]))


class Nested(object):
    """pickles as an array with this storage does"""

    def __init__(self, storage, whitelist=None):
        self.storage, self.whitelist = storage, whitelist

    def __reduce__(self):
        return (deserialize, (self.storage,) if self.whitelist is None else (self.storage, "", self.whitelist))


PICKWHITE = [DEFAULT, [], [[M, "f"]], [[M, "K"]], DEFAULT + [[M]], [[M, "K", "make"], [M, "g"]]]


def pickle_case(module, name, ctx):
    call = (module, name) in STANDIN or (module, name) in HARMLESS
    spec = [module] + name.split(".")
    for whitelist in PICKWHITE:
        for data in pickles(module, name, call):
            schema = {"python": base64.b64encode(data).decode("ascii")}
            for s in (schema, {"call": ["awkward0", "ObjectArray"], "args": [{"json": [1, 2]}, {"function": [M, "f"]}, {"tuple": [schema]}]}):
                stored = {"": json.dumps({"awkward0": "1", "schema": s}).encode("ascii")}
                got, did = run(lambda: deserialize(stored, whitelist=whitelist))
                ctx.step()
                for entry in did:
                    if not permitted(entry, whitelist):
                        raise Violation("%s was called by a pickle, but isn't in the whitelist %s" % (entry, whitelist), "called %s" % entry)
                ok = True
                try:
                    resolve(spec, whitelist)
                except Refused:
                    ok = False
                if not ok and got != "error":
                    raise Violation("pickle of %s.%s gives %s with whitelist %s" % (module, name, got, whitelist), "allowed")
                if ok and s is schema and data == b"\x80\x04c%s\n%s\n." % (module.encode(), name.encode()) and got == "error":
                    raise Violation("pickle of %s.%s, which is in the whitelist, is refused" % (module, name), "refused")
                ctx.outcome("%s %s" % (got, did))
    ctx.state(module + name)


HARMLESSVALUES = [1j, (1, 2j, "x"), {1, 2}, frozenset("ab"), bytearray(b"abc"), b"\x00\xff", range(3), slice(1, None, 2), numpy.float32(1.5), numpy.int64(-1), numpy.bool_(True), numpy.dtype("<i4"), numpy.dtype([("x", "f8"), ("y", "i4", (2,))]), numpy.arange(3), numpy.array(5), numpy.array([1, "x", None], dtype=object), numpy.empty((0, 2)), numpy.arange(6).reshape(2, 3).T,
                  numpy.datetime64("2020-01-01"), collections.OrderedDict([("b", 1), ("a", 2)]), datetime.date(2020, 1, 2), datetime.timedelta(5), (1, (2, [3, {"x": 4.5}])), float("inf"), 10**40, "é", numpy.array(["a", "bc"]), numpy.array([1, 2], dtype=">i4")]


def value_case(i, ctx):
    """ordinary values can be stored and read with the whitelist that is there by default"""
    v = HARMLESSVALUES[i]
    for protocol in range(pickle.HIGHEST_PROTOCOL + 1):
        schema = {"python": awkward0.persist.frompython(v, protocol)}
        stored = {"": json.dumps({"awkward0": "1", "schema": {"tuple": [schema]}}).encode("ascii")}
        got, = deserialize(stored)
        if show(got) != show(v) or type(got) is not type(v):
            raise Violation("%r comes back as %r" % (v, got), "value")
        ctx.step()
    storage = {}
    serialize(ObjectArray([1, 2], c22funcs.f, v), storage)
    got, did = run(lambda: deserialize(storage))
    if got != "error":
        raise Violation("called f", "called f")
    got = run(lambda: [x for x in deserialize(storage, whitelist=awkward0.persist.whitelist + [[M, "f"]])])
    want = run(lambda: [x for x in ObjectArray([1, 2], c22funcs.f, v)])
    if got != want:
        raise Violation("%r, expected %r" % (got, want), "arguments")
    ctx.outcome(got[0])


# ---------------------------------------------------------------- entrances
def entrance_case(name, ctx):
    """every way to read data honours its whitelist"""
    a = sample(name)
    want = run(lambda: a)[0]
    needs = {"object": [M, "f"], "virtual": [M, "four"]}.get(name)

    def through_zip(white):
        f = io.BytesIO()
        awkward0.save(f, a)
        return awkward0.load(f, **white)

    def through_names(white):
        f = io.BytesIO()
        awkward0.save(f, {"x": a, "y": numpy.arange(3)})
        return awkward0.load(f, **white)["x"]

    def through_hdf5(white):
        with h5py.File(io.BytesIO(), "w") as f:
            awkward0.hdf5(f)["x"] = a
            out = awkward0.hdf5(f, **white)["x"]
            out.tolist()
            return out

    def through_dict(white):
        s = {}
        serialize(a, s)
        return deserialize(s, **white)

    for route in (through_zip, through_names, through_hdf5, through_dict):
        for white in [{}] + [{"whitelist": w} for w in ([], "*", [["*"]], ["*"], DEFAULT, DEFAULT + [[M, "f*"]], DEFAULT + [[M]], [[M]], DEFAULT + [[M, "f", "x"]], DEFAULT + [[M, "g"]])]:
            w = white.get("whitelist", DEFAULT)
            got, did = run(lambda: route(white))
            ctx.step()
            for entry in did:
                if not permitted(entry, w):
                    raise Violation("%s: %s was called" % (route.__name__, entry), "called %s" % entry)
            star = w in ("*", ["*"], [["*"]])
            usable = star or (len(w) >= len(DEFAULT) and (needs is None or allowed(needs, w)))
            if (got == want) != usable:
                raise Violation("%s with %s gives %s" % (route.__name__, w, got), "entrance")
        ctx.outcome(route.__name__ + got)


def type_case(ctx):
    """functions in types"""
    for spec in [[M, "f"], [M, "g"], [M, "K"], ["mc.c22trap", "f"], [M, "f", "__globals__"], [M]]:
        x = {"function": spec}
        for t in [x, {"takes": 3, "to": x}, {"takes": "inf", "to": {"type": x}}, {"fields": [["a", {"dtype": "int64"}], ["b", x]]}, {"possibilities": [{"dtype": "float64"}, x]}, {"set": "T0", "as": {"takes": 2, "to": {"fields": [["x", {"ref": "T0"}], ["y", x]]}}}]:
            for whitelist in WHITELISTS + PICKWHITE:
                ok = True
                try:
                    resolve(spec, whitelist)
                except Refused:
                    ok = False
                for way in (lambda: json2type(t, whitelist=whitelist), lambda: deserialize({"": json.dumps({"awkward0": "1", "schema": {"call": ["awkward0.persist", "json2type"], "args": [{"json": t}], "whitelistable": True}}).encode("ascii")}, whitelist=patterns(whitelist) + [["awkward0.persist", "json2type"]])):
                    got, did = run(way)
                    ctx.step()
                    if (got != "error") != ok:
                        raise Violation("%s with %s: %s" % (t, whitelist, got), "type allowed" if not ok else "type refused")
                    for entry in did:
                        if not permitted(entry, whitelist):
                            raise Violation("%s was called" % entry, "called %s" % entry)


# ---------------------------------------------------------------- exploration
def units(tier):
    q = tier == "quick"
    yield ["spec", None]
    for m in MODULES:
        for n in NAMES:
            yield ["spec", m, n, 2 if q else 3]
    for i in range(len(ROOTS)):
        yield ["reach", i]
    for i in range(len(LEAVES)):
        yield ["expr", i]
    for i in range(len(SOME) if q else len(LEAVES)):
        for j in range(len(SOME)):
            yield ["deep", i, j, q]
    for n in SAMPLES:
        yield ["mutate", n]
        yield ["blob", n]
        yield ["entrance", n]
    for i in range(len(GLOBALS)):
        yield ["pickle", i]
    for i in range(len(HARMLESSVALUES)):
        yield ["value", i]
    yield ["type"]


def unit_of(case):
    return case[0]


def run_unit(unit, ctx):
    op = unit[0]
    if op == "spec":
        if unit[1] is None:
            for spec in [[], [5], [None], "f", [M], ["mc.c22trap"], ["numpy"], ["awkward0"], [M, "f", 5], [M, None], ["f"], ["*"], ["*", "*"], [M, "*"]]:
                ctx.case([unit, spec], spec_case, spec, ctx)
        else:
            for n in range(unit[3] + 1):
                for rest in itertools.product(NAMES, repeat=n):
                    spec = [unit[1], unit[2]] + list(rest)
                    ctx.case([unit, rest], spec_case, spec, ctx)
    elif op == "reach":
        ctx.case([unit], reach_case, ROOTS[unit[1]], ctx)
    elif op == "expr":
        ctx.case([unit, 0], expr_case, LEAVES[unit[1]], [None], ctx)
        ctx.case([unit, 1], expr_case, LEAVES[unit[1]], SOME, ctx)
    elif op == "deep":
        ctx.case([unit], deep_case, SOME[unit[1]] if unit[3] else LEAVES[unit[1]], SOME[unit[2]], ctx)
    elif op == "mutate":
        storage = {}
        serialize(sample(unit[1]), storage, "x")
        for i in range(len(list(places(json.loads(storage["x"].decode("ascii"))["schema"])))):
            ctx.case([unit, i], mutate_case, unit[1], i, ctx)
    elif op == "blob":
        ctx.case([unit], blob_case, unit[1], ctx)
    elif op == "entrance":
        ctx.case([unit], entrance_case, unit[1], ctx)
    elif op == "pickle":
        ctx.case([unit], pickle_case, GLOBALS[unit[1]][0], GLOBALS[unit[1]][1], ctx)
    elif op == "value":
        ctx.case([unit], value_case, unit[1], ctx)
    else:
        ctx.case([unit], type_case, ctx)
