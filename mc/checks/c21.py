"""C21: file containers hold exactly what the history of writes put there."""
import gc
import io
import itertools
import json
import os
import pathlib
import shutil
import tempfile
import zipfile
import zlib

import h5py
import numpy

import awkward0
from awkward0 import ChunkedArray, IndexedArray, JaggedArray, MaskedArray, ObjectArray, StringArray, Table, VirtualArray
from awkward0.type import ArrayType
from awkward0.persist import hdf5, load, save

from .. import forms
from ..core import Violation
from ..obs import expect, norm, observe, text
from .c20 import WHITELIST, parametrised

ID = "C21"
RULE = "every history up to the bound of saves (all modes, single and several arrays, names that are prefixes of one another, options, arrays that fail to be written), of HDF5 assignments and deletions (nested names, foreign groups and datasets, wrapped subgroups, reopenings), and a failure injected at every write of a member, compression, group operation; a state is the contents stored under every name with the names of the parts in the file; every state is read back completely after every operation; every truncation, loss of a byte and change of bits of a written file, which must be refused or read as it was; every kind of array and layout written under every depth of name, listed, read and deleted, after which nothing is left of it; an outcome is non-trivial when the contents are distinct"
ASSUMPTIONS = ["zipfile and h5py themselves are trusted; failures are exceptions, not the end of the process (appending to a zip file is not atomic)",
               "saving names of which one is a prefix of another may be refused", "mode 'w' may drop what was in the file even if it fails",
               "assigning to a name that exists in an HDF5 group may be refused or may replace the array", "names are not normalized: no leading, trailing or double slashes"]
BOUNDS = {"quick": "histories of 3 saves from an alphabet of 29 and of 4 HDF5 operations from an alphabet of 18; a failure at every storage operation of the last of 3 operations",
          "thorough": "histories of 4 saves and of 5 HDF5 operations; a failure at every storage operation of the last of 4 operations"}
CASE_SECONDS = 60


class Injected(Exception):
    pass


class NotStorable(object):
    def __reduce__(self):
        raise Injected("can't be pickled")


def fails(*args):
    raise Injected("can't be read")


def lists():
    return JaggedArray.fromcounts([2, 0, 1], numpy.array([1.5, 2.5, 3.5]))


def strings():
    return Table(x=StringArray.fromiter(["one", "", "three"]), y=MaskedArray([False, True, False], numpy.array([1, 2, 3])))


def shared():
    content = numpy.arange(4, dtype="i4")
    return ChunkedArray([content, IndexedArray([1, 0], content)])


def big():
    return JaggedArray([0, 2, 2], [2, 2, 9], numpy.arange(1100) % 7)


def empty():
    return JaggedArray.fromcounts([], numpy.array([], dtype="i8"))


def bare():
    return numpy.array([[1, 2], [3, 4]])


def unpicklable():
    return Table(x=numpy.arange(3), y=ObjectArray([1, 2, 3], lambda x: x))


def unreadable():
    return Table(x=numpy.arange(3), y=VirtualArray(fails, type=ArrayType(3, numpy.float64), persistvirtual=False))


MAKE = {"L": lists, "S": strings, "C": shared, "B": big, "E": empty, "N": bare}
BAD = {"P": unpicklable, "R": unreadable}
VALUE = {}


def value(v):
    if v not in VALUE:
        VALUE[v] = text(norm(MAKE[v]()))
    return VALUE[v]


def make(v):
    return MAKE[v]() if v in MAKE else BAD[v]()


def same(got, v, what):
    g = text(observe(got))
    if g != value(v):
        raise Violation("%s reads %s, expected %s" % (what, g[:200], value(v)[:200]), "wrong value")


OPTIONS = {"default": {}, "names": {"delimiter": "/", "suffix": ".bin"}, "bare": {"delimiter": "", "suffix": ""}, "zlib": {"compression": True}, "none": {"compression": None},
           "schema": {"schemasuffix": ".schema"}, "schema-zlib": {"schemasuffix": ".schema", "compression": [(zlib.compress, ("zlib", "decompress"))]}}

# mode, arrays (a dict or a single one), name, options
SAVES = [("a", {"a": "L"}, None, "default"), ("a", {"a": "S"}, None, "zlib"), ("a", {"b": "C"}, None, "default"), ("a", {"ab": "B"}, None, "default"), ("a", {"": "E"}, None, "none"), ("a", "L", None, "default"),
         ("a", "S", "b", "default"), ("a", {"1": "N", "2": "L"}, "n", "names"), ("a", {"c": "B", "d": "S", "e": "E"}, None, "zlib"), ("a", {"b": "C", "a": "L"}, None, "names"), ("a", {"a-0": "L"}, None, "default"),
         ("a", {"a0": "L"}, None, "bare"), ("a", {"a": "N"}, None, "bare"), ("a", {"x/y": "L", "x/z": "S"}, None, "names"), ("a", {"x": "B"}, None, "names"), ("a", {"a.json": "L"}, None, "default"), ("a", {"A": "S"}, None, "default"),
         ("a", {"a": "L", "ab": "S"}, None, "default"), ("a", {"": "L", "b": "S"}, None, "default"), ("a", {"a": "L", "q": "P"}, None, "default"), ("a", {"q": "R", "b": "C"}, None, "zlib"), ("a", {"q": "L"}, None, "default"), ("a", {}, None, "default"),
         ("w", {"a": "C"}, None, "default"), ("w", {"b": "L", "c": "S"}, None, "names"), ("w", "B", None, "zlib"), ("w", {"q": "P"}, None, "default"), ("x", {"a": "S"}, None, "default"), ("x", {"b": "L", "z": "R"}, None, "default")]
SCHEMAS = [(m, arrays, name, {"default": "schema", "zlib": "schema-zlib"}[o]) for m, arrays, name, o in SAVES if o in ("default", "zlib")]


class Zip(object):
    """a file of arrays and what should be in it"""

    def __init__(self, suffix=".json", where=None):
        self.suffix = suffix
        self.where = where
        self.file = None if where is None else os.path.join(where, "file.awkd")
        self.bio = None
        self.has = None          # None: there is no file
        self.extra = set()       # files left by writes that failed half way

    def image(self):
        if self.where is not None:
            return open(self.file, "rb").read() if os.path.exists(self.file) else None
        return None if self.bio is None else self.bio.getvalue()

    def target(self, variant):
        if self.where is not None:
            return {0: self.file, 1: self.file[:-5], 2: pathlib.Path(self.file)}[variant % 3]
        if self.bio is None:
            self.bio = io.BytesIO()
        return self.bio

    def apply(self, op, ctx, variant=0, fault=None):
        """one save; returns the outcome in one word"""
        mode, arrays, name, options = op
        options = OPTIONS[options]
        what = dict((n, make(v)) for n, v in arrays.items()) if isinstance(arrays, dict) else make(arrays)
        want = dict(((name or "") + n, v) for n, v in (arrays if isinstance(arrays, dict) else {"": arrays}).items())
        bad = any(v in BAD for v in want.values())
        before = self.image()
        have = {} if self.has is None else self.has
        old = {} if mode != "a" else have
        related = lambda m, n: m.startswith(n) or n.startswith(m)
        clash = any(n in old for n in want)
        touchy = any(related(m, n) for n in want for m in old) or any(related(m, n) for m, n in itertools.combinations(want, 2)) or any(n.startswith(m) for n in self.extra if mode == "a" for m in want)
        exists = mode == "x" and self.where is not None and self.has is not None
        if mode == "x" and self.where is None:
            self.bio = io.BytesIO()
            before = self.image()
            self.has = None
            old = have = {}
        ctx.step()
        try:
            if fault is None:
                save(self.target(variant), what, name=name, mode=mode, **options)
            else:
                fault(lambda: save(self.target(variant), what, name=name, mode=mode, **options))
        except (Exception if not bad and fault is None else BaseException) as err:
            if isinstance(err, (SystemExit, KeyboardInterrupt)) or type(err).__name__ == "Hang":
                raise
            if isinstance(err, Injected) and not bad:
                out = "fault"
            elif bad and not clash and not exists:
                out = "bad"
            elif clash or exists or touchy:
                out = "refused"
                if not bad and not isinstance(err, (KeyError, FileExistsError)):
                    raise Violation("refused with %s: %s" % (type(err).__name__, err), "refused with %s" % type(err).__name__)
            else:
                raise
            if mode == "w" or out != "refused":
                # some of what was to be written might be there
                left = self.listing()
                if (self.image() or b"") != (before or b""):
                    expect(sorted(set(left or ()) - set(want)), sorted(set(old) - set(want)), "names after a failure")
                    new = dict(old)
                    new.update((n, want[n]) for n in left or () if n not in old)
                    self.has = None if left is None else new
            else:
                if (self.image() or b"") != (before or b""):
                    raise Violation("a save that was refused changed the file", "refused but changed")
            return out
        if bad or clash or exists:
            raise Violation("a save that should fail didn't: %s" % ("not storable" if bad else "name exists"), "no error")
        self.has = dict(old)
        self.has.update(want)
        if mode == "w":
            self.extra = set()
        return "saved"

    def listing(self):
        if self.image() is None or len(self.image()) == 0:
            return None
        f = zipfile.ZipFile(io.BytesIO(self.image()))
        names = f.namelist()
        left = set(n[:-len(self.suffix)] for n in names if n.endswith(self.suffix))
        self.extra = set(n for n in names if not n.endswith(self.suffix))
        return left

    def check(self, ctx, fault=False):
        if self.has is None:
            return
        open_ = lambda: load(io.BytesIO(self.image()) if self.where is None else self.file, schemasuffix=self.suffix)
        if list(self.has) == [""]:
            same(open_(), self.has[""], "the only array")
        else:
            f = open_()
            if isinstance(f, awkward0.array.base.AwkwardArray) or isinstance(f, numpy.ndarray):
                raise Violation("load gives an array", "load")
            expect(sorted(f), sorted(self.has), "names")
            expect(sorted(f.keys()), sorted(self.has), "keys()")
            expect(len(f), len(self.has), "len")
            for n in sorted(self.has, reverse=True):
                same(f[n], self.has[n], repr(n))
                if n not in f:
                    raise Violation("%r is not in the file" % n, "in")
            for n, x in f.items():
                same(x, self.has[n], "item %r" % n)
            for n in ("a", "ab", "", "z", "a-0", "a-0.raw", "x"):
                if n not in self.has:
                    if n in f:
                        raise Violation("%r is in the file" % n, "in")
                    if f.get(n, "absent") != "absent":
                        raise Violation("get(%r)" % n, "get")
                    try:
                        f[n]
                    except KeyError:
                        pass
                    else:
                        raise Violation("%r can be read, but isn't there" % n, "absent name")
            f.close()
        ctx.outcome(text(sorted(self.has.items())))

    def key(self):
        return text([None if self.has is None else sorted(self.has.items()), sorted(self.extra), "" if not self.image() else sorted(zipfile.ZipFile(io.BytesIO(self.image())).namelist())])


def failing(owner, name, n):
    """call something while the n-th call of owner.name fails; the number of calls is in the result"""
    state = {"calls": 0}
    original = getattr(owner, name)

    def wrapper(*args, **kwargs):
        state["calls"] += 1
        if state["calls"] - 1 == n:
            raise Injected("%s %d" % (name, n))
        return original(*args, **kwargs)

    def run(f):
        setattr(owner, name, wrapper)
        try:
            return f()
        finally:
            setattr(owner, name, original)
    return run, state


def alphabet(kind):
    return SCHEMAS if kind == "zipschema" else SAVES


def zip_history(kind, path, fault, ctx):
    """replay a history of saves from nothing; returns the state"""
    ops = alphabet(kind)
    where = tempfile.mkdtemp(prefix="c21-") if kind == "zippath" else None
    try:
        z = Zip(".schema" if kind == "zipschema" else ".json", where)
        for i, j in enumerate(path):
            last = i == len(path) - 1
            if last and fault is not None:
                run, state = failing(zipfile.ZipFile, "writestr", fault) if kind != "zipenc" else failing(zlib, "compress", fault)
                out = z.apply(ops[j], ctx, i, run)
                if state["calls"] <= fault:
                    return None
                z.check(ctx)
                # the file can still be used
                out = z.apply(("a", {"after": "L"}, None, "schema" if kind == "zipschema" else "default"), ctx, i)
                expect(out, "saved", "saving after a failure")
                z.check(ctx)
                ctx.state(z.key())
                return z
            z.apply(ops[j], ctx, i + (where is not None))
            if last:
                z.check(ctx)
        ctx.state(z.key())
        return z
    finally:
        if where is not None:
            shutil.rmtree(where)


# ---------------------------------------------------------------- HDF5
class Proxy(object):
    """an h5py group of which the n-th operation fails"""

    def __init__(self, g, state):
        self.__dict__.update(_g=g, _state=state)

    def _tick(self, what):
        self._state["calls"] += 1
        if self._state["calls"] - 1 == self._state["n"]:
            raise Injected("%s %d" % (what, self._state["n"]))

    def __getitem__(self, where):
        self._tick("getitem")
        out = self._g[where]
        return Proxy(out, self._state) if isinstance(out, h5py.Group) else out

    def __setitem__(self, where, what):
        self._tick("setitem")
        self._g[where] = what

    def __delitem__(self, where):
        self._tick("delitem")
        del self._g[where]

    def __contains__(self, where):
        self._tick("contains")
        return where in self._g

    def __iter__(self):
        self._tick("iter")
        return iter(self._g)

    def __len__(self):
        self._tick("len")
        return len(self._g)

    def __getattr__(self, name):
        out = getattr(self._g, name)
        if callable(out):
            def call(*args, **kwargs):
                self._tick(name)
                x = out(*args, **kwargs)
                return Proxy(x, self._state) if isinstance(x, h5py.Group) else x
            return call
        return out


H5 = [("set", "a", "L"), ("set", "a", "S"), ("set", "b", "C"), ("set", "a/b", "B"), ("set", "a/1", "L"), ("set", "g/x", "E"), ("bad", "b", "P"), ("bad", "a", "R"), ("del", "a"), ("del", "b"), ("del", "a/b"), ("del", "g/x"), ("reopen",), ("foreign",), ("sub", "a", "b", "S"), ("sub", "g", "x", "N"), ("subdel", "g", "x"), ("raw", "b")]


class H5File(object):
    def __init__(self, compression):
        self.options = {"compression": compression}
        self.bio = io.BytesIO()
        self.f = h5py.File(self.bio, "w")
        self.has = {}
        self.foreign = False
        self.raw = set()

    def group(self, state=None):
        return hdf5(self.f if state is None else Proxy(self.f, state), **self.options)

    def write(self, name, v, action, fault):
        """an assignment; says what came of it"""
        blocked = self.blocked(name)
        before = dict(self.has)
        try:
            action()
        except Exception as err:
            if isinstance(err, Violation):
                raise
            if fault or v in BAD:
                if name not in before:
                    return "failed"
                # the array that was there might be gone or still be there
                if name not in self.names():
                    del self.has[name]
                return "failed"
            if name in before or blocked:
                return "refused"
            raise
        if v in BAD:
            raise Violation("stored an array that can't be stored", "no error")
        self.has[name] = v
        return "stored"

    def blocked(self, name):
        """a dataset is in the way of the group or a group in the way of a dataset"""
        if name in self.raw or any(name.startswith(r + "/") for r in self.raw):
            return True
        return any(name + "/" == n[:len(name) + 1] and n[len(name) + 1:].isdigit() for n in self.has) or any(n + "/" == name[:len(n) + 1] and name[len(n) + 1:].isdigit() for n in self.has)

    def names(self):
        return sorted(self.group())

    def apply(self, op, ctx, state=None):
        ctx.step()
        k = op[0]
        if k in ("set", "bad"):
            self.group(state)
            g = self.group(state)
            return self.write(op[1], op[2], lambda: g.__setitem__(op[1], make(op[2])), state is not None)
        if k == "sub":
            name = op[1] + "/" + op[2]
            if op[1] in self.raw:
                return "blocked"
            root = self.f if state is None else Proxy(self.f, state)
            return self.write(name, op[3], lambda: hdf5(root.require_group(op[1]), **self.options).__setitem__(op[2], make(op[3])), state is not None)
        if k in ("del", "subdel"):
            name = op[1] if k == "del" else op[1] + "/" + op[2]
            try:
                if k == "del":
                    del self.group(state)[op[1]]
                else:
                    root = self.f if state is None else Proxy(self.f, state)
                    del hdf5(root[op[1]], **self.options)[op[2]]
            except Exception as err:
                if state is not None:
                    if name in self.has and name not in self.names():
                        del self.has[name]
                    return "failed"
                if name in self.has:
                    raise
                if not isinstance(err, KeyError):
                    raise Violation("deleting what isn't there raises %s: %s" % (type(err).__name__, err), "deleting what isn't there")
                return "refused"
            if name not in self.has:
                raise Violation("deleted %r, which wasn't there" % name, "deleted what wasn't there")
            del self.has[name]
            return "deleted"
        if k == "reopen":
            self.f.close()
            self.f = h5py.File(self.bio, "a")
            return k
        if k == "foreign":
            if not self.foreign:
                self.f.require_group("other/group").create_dataset("data", data=numpy.arange(3))
                self.f.create_dataset("number", data=5)
                self.f.create_dataset("text", data=b"schema.json")
                self.foreign = True
            return k
        if k == "raw":
            if op[1] not in self.f:
                self.f[op[1]] = numpy.arange(5)
                self.raw.add(op[1])
            return k

    def check(self, ctx):
        g = self.group()
        expect(sorted(g), sorted(self.has), "names")
        expect(len(g), len(self.has), "len")
        for n in sorted(self.has, reverse=True):
            same(g[n], self.has[n], repr(n))
            if n not in g:
                raise Violation("%r is not in the group" % n, "in")
        for n in ("a", "b", "a/b", "a/1", "g/x", "g", "z", "other", "number", "text", "other/group"):
            if n not in self.has:
                try:
                    g[n]
                except KeyError:
                    pass
                else:
                    raise Violation("%r can be read, but isn't there" % n, "absent name")
                if n in g:
                    raise Violation("%r is in the group" % n, "in")
        if self.foreign:
            expect([self.f["other/group/data"][()].tolist(), int(self.f["number"][()])], [[0, 1, 2], 5], "other data in the file")
        for r in self.raw:
            expect(self.f[r][()].tolist(), [0, 1, 2, 3, 4], "a dataset of someone else")
        subs = sorted(n[2:] for n in self.has if n.startswith("g/"))
        if "g" in self.f:
            expect(sorted(hdf5(self.f["g"])), subs, "names in a group")
            for n in subs:
                same(hdf5(self.f["g"])[n], self.has["g/" + n], "in a group")
        ctx.outcome(text(sorted(self.has.items())))

    def key(self):
        inside = []
        self.f.visit(inside.append)
        return text([sorted(self.has.items()), sorted(inside), self.foreign, sorted(self.raw)])


def h5_history(kind, path, fault, ctx):
    h = H5File(True if kind == "h5zlib" else None)
    try:
        for i, j in enumerate(path):
            last = i == len(path) - 1
            if last and fault is not None:
                state = {"calls": 0, "n": fault}
                h.apply(H5[j], ctx, state)
                if state["calls"] <= fault:
                    return None
                h.check(ctx)
                # the names can still be used
                h.f.close()
                h.f = h5py.File(h.bio, "a")
                h.check(ctx)
                if H5[j][0] in ("set", "bad", "sub", "del", "subdel"):
                    name = H5[j][1] if H5[j][0] in ("set", "bad", "del") else H5[j][1] + "/" + H5[j][2]
                    out = h.apply(("set", name, "L"), ctx)
                    if out == "refused" and not (name in h.has or h.blocked(name)):
                        raise Violation("can't be written after a failure", "can't be written after a failure")
                    h.check(ctx)
                    if name in h.has:
                        h.apply(("del", name), ctx)
                    h.check(ctx)
                return h
            h.apply(H5[j], ctx)
            if last:
                h.check(ctx)
        ctx.state(h.key())
        return h
    finally:
        pass


# ---------------------------------------------------------------- exploration
def explore(unit, ctx):
    """breadth first, one case per transition; states that were seen are not expanded again"""
    kind, first, depth, faults = unit
    history = h5_history if kind.startswith("h5") else zip_history
    size = len(H5) if kind.startswith("h5") else len(alphabet(kind))
    if ctx.only is not None:
        key = json.loads(ctx.only)
        ctx.case(key, history, kind, key[1], key[2], ctx)
        return
    seen = set()
    level = [[first]]
    for d in range(depth):
        new = []
        for path in level:
            h = ctx.case([unit, path, None], history, kind, path, None, ctx)
            if h is not None:
                if faults:
                    for n in range(60):
                        if ctx.case([unit, path, n], history, kind, path, n, ctx) is None:
                            break
                k = h.key()
                if k not in seen:
                    seen.add(k)
                    if d + 1 < depth:
                        new += [path + [j] for j in range(size)]
        level = new


# ---------------------------------------------------------------- damaged files
DAMAGED = [("L", "default"), ("S", "zlib"), ("S", "names"), ("C", "none")]


def whole_file(which, options):
    bio = io.BytesIO()
    save(bio, {"a": MAKE[which](), "b": MAKE["L"]()}, mode="a", **OPTIONS[options])
    return bio.getvalue()


def damaged_case(which, options, damage, ctx):
    """a file of which a part is missing or changed is refused, or read as what it was; never as anything else"""
    raw = whole_file(which, options)
    how, at = damage[0], damage[1]
    if how == "cut":
        raw = raw[:at]
    elif how == "late":
        raw = raw[at:]
    elif how == "hole":
        raw = raw[:at] + raw[at + 1:]
    else:
        raw = raw[:at] + bytes([raw[at] ^ damage[2]]) + raw[at + 1:]
    want = {"a": value(which), "b": value("L")}
    ctx.step(3)
    try:
        f = load(io.BytesIO(raw))
    except Exception as err:
        ctx.outcome("refused " + type(err).__name__)
        gc.collect(0)
        return
    if not isinstance(f, awkward0.persist.Load):
        raise Violation("a file of two arrays was read as one array", "wrong value")
    for n in sorted(want):
        try:
            got = text(observe(f[n]))
        except Exception as err:
            ctx.outcome("refused " + type(err).__name__)
            continue
        ctx.outcome("the same")
        if got != want[n]:
            raise Violation("%r reads %s, expected %s" % (n, got[:200], want[n][:200]), "wrong value")
    f.close()


def unopened_case(what, ctx):
    """what isn't a file of arrays is refused, without errors from a finaliser"""
    where = tempfile.mkdtemp(prefix="c21-")
    try:
        name = os.path.join(where, "file.awkd")
        if what == "empty":
            open(name, "w").close()
        elif what == "text":
            with open(name, "w") as f:
                f.write("not a zip file")
        elif what == "folder":
            os.mkdir(name)
        before = sorted(os.listdir(where))
        for fn in (lambda: load(name), lambda: load(pathlib.Path(name)), lambda: awkward0.persist.Load(name)):
            ctx.step()
            try:
                fn()
            except (OSError, zipfile.BadZipFile) as err:
                ctx.outcome(what + type(err).__name__)
            else:
                raise Violation("%s was opened" % what, "opened")
        if sorted(os.listdir(where)) != before:
            raise Violation("loading made files: %s" % os.listdir(where), "files")
    finally:
        shutil.rmtree(where)
    gc.collect()


# ---------------------------------------------------------------- every kind of array
def every_kind(n):
    for name, make, v in parametrised(n):
        yield name, make, v
    for ids in itertools.product((0, 1, 2), repeat=n):
        for name, kind in forms.KINDS.items():
            if name != "unum":        # (union of numbers, of which the values depend on what is read together)
                yield "%s %s" % (name, ids), lambda kind=kind, ids=ids: kind.build(list(ids)), [kind.value(i) for i in ids]
    for layout in forms.LAYOUTS:
        for counts in itertools.product((0, 1, 2), repeat=n):
            for kind in ("i8", "tab", "str"):
                yield "%s %s of %s" % (layout, counts, kind), lambda kind=kind, counts=counts, layout=layout: forms.jagged(list(counts), layout, kind), forms.jagged_value(list(counts), kind)


def every_kind_case(n, part, ctx):
    """written next to another array, read back after the file was closed and opened, deleted: nothing is left of it"""
    for name, make, v in itertools.islice(every_kind(n), part, None, 8):
        ctx.step()
        try:
            want = text(norm(v))
            pending = {}
            try:
                awkward0.serialize(make(), pending, name="a", delimiter="/", schemasuffix="/schema.json")
                storable = True
            except (TypeError, ValueError, NotImplementedError):
                storable = False
            bio = io.BytesIO()
            for where in ("a", "a/b", "c/a"):
                f = h5py.File(bio, "a")
                g = hdf5(f, whitelist=WHITELIST)
                try:
                    g[where] = make()
                    stored = True
                except (TypeError, ValueError, NotImplementedError):
                    stored = False
                expect(stored, storable, "storing in an HDF5 group works as in a dict")
                if not stored:
                    expect(list(f), ["b"] if "b" in f else [], "what is left after a refusal")
                    f.close()
                    continue
                g["b"] = lists()
                f.close()
                f = h5py.File(bio, "a")
                g = hdf5(f, whitelist=WHITELIST)
                expect(sorted(g), sorted([where, "b"]), "names")
                expect(observe(g[where]), v, "read from the HDF5 file")
                inside = set()
                f[where].visititems(lambda k, o: inside.add(where + "/" + k) if isinstance(o, h5py.Dataset) else None)
                read = {}
                for k in inside:
                    read[k] = f[k][()]
                expect(sorted(awkward0.persist.keys(read, where + "/schema.json")), sorted(inside), "keys of the array in the file")
                del g[where]
                expect(sorted(g), ["b"], "names after deleting")
                left = []
                f.visititems(lambda k, o: left.append(k) if isinstance(o, h5py.Dataset) and not k.startswith("b/") else None)
                expect(left, [], "what is left after deleting")
                same(g["b"], "L", "the other array")
                del g["b"]
                expect([k for k in f if len(f[k])], [], "what is left in the file")
                f.close()
            where = tempfile.mkdtemp(prefix="c21-")
            try:
                path = os.path.join(where, "file.awkd")
                try:
                    save(path, {"a": make(), "b": lists()}, mode="w")
                    stored = True
                except (TypeError, ValueError, NotImplementedError):
                    stored = False
                expect(stored, storable, "saving in a file works as in a dict")
                if stored:
                    with load(path, whitelist=WHITELIST) as z:
                        expect(sorted(z), ["a", "b"], "names")
                        expect(observe(z["a"]), v, "read from the file")
                        same(z["b"], "L", "the other array")
            finally:
                shutil.rmtree(where)
            ctx.outcome(want)
        except Violation as err:
            raise Violation("%s: %s" % (name, err), "%s %s" % (name, getattr(err, "observed", err)))


def units(tier):
    q = tier == "quick"
    for n in ((0, 2, 3) if q else (0, 1, 2, 3, 4)):
        for part in range(8):
            yield ["kinds", n, part]
    for what in ("absent", "empty", "text", "folder"):
        yield ["unopened", what]
    for which, options in DAMAGED:
        for part in range(8):
            yield ["damaged", which, options, part, (0x01, 0x80) if q else (0x01, 0x02, 0x04, 0x08, 0x10, 0x20, 0x40, 0x80, 0xff)]
    for j in range(len(SAVES)):
        yield ["zip", j, 3 if q else 4, False]
        yield ["zippath", j, 2 if q else 3, False]
        yield ["zip", j, 2 if q else 3, True]
        yield ["zipenc", j, 2, True]
    for j in range(len(SCHEMAS)):
        yield ["zipschema", j, 2 if q else 3, True]
    for j in range(len(H5)):
        yield ["h5", j, 4 if q else 5, False]
        yield ["h5zlib", j, 2 if q else 3, False]
        yield ["h5", j, 2 if q else 3, True]


def unit_of(case):
    return case[0]


def run_unit(unit, ctx):
    if unit[0] == "unopened":
        ctx.case([unit], unopened_case, unit[1], ctx)
    elif unit[0] == "kinds":
        ctx.case([unit], every_kind_case, unit[1], unit[2], ctx)
    elif unit[0] == "damaged":
        n = len(whole_file(unit[1], unit[2]))
        for at in range(unit[3], n, 8):
            for damage in [("cut", at), ("late", at), ("hole", at)] + [("flip", at, bits) for bits in unit[4]]:
                if damage != ("late", 0):
                    ctx.case([unit, list(damage)], damaged_case, unit[1], unit[2], damage, ctx)
    else:
        explore(unit, ctx)
