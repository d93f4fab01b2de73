"""Observation of real objects, and canonical forms.

norm(x)      logical value of anything awkward0 returns, as plain nested Python data
observe(x)   norm(x), after demanding that iteration, integer indexing, len and tolist agree
text(v)      canonical text of a plain value (distinguishes 1, 1.0 and True; all NaN are equal)
physical(x)  canonical text of the complete physical layout (used to deduplicate states)
"""
import numpy

import awkward0
from awkward0 import AppendableArray, ChunkedArray, UnionArray, VirtualArray
from awkward0.array.base import AwkwardArray
from awkward0.array.table import Table

from .core import Violation


class Missing(object):
    """Marker for values a model leaves unspecified."""


def norm(x, depth=0):
    if depth > 60:
        raise Violation("value nests without end")
    if x is None:
        return None
    if isinstance(x, (bool, numpy.bool_)):
        return bool(x)
    if isinstance(x, (int, numpy.integer)):
        return int(x)
    if isinstance(x, (float, numpy.floating)):
        x = float(x)
        return x if x != 0 else 0.0
    if isinstance(x, (complex, numpy.complexfloating)):
        return complex(x)
    if isinstance(x, numpy.ma.core.MaskedConstant):
        return None
    if isinstance(x, str):
        return str(x)
    if isinstance(x, bytes):
        return bytes(x)
    if isinstance(x, Table.Row):
        if x._table.istuple:
            return tuple(norm(x[n], depth + 1) for n in x._table.columns)
        return dict((n, norm(x[n], depth + 1)) for n in sorted(x._table.columns))
    if isinstance(x, numpy.void):
        return dict((n, norm(x[n], depth + 1)) for n in sorted(x.dtype.names)) if x.dtype.names else bytes(x)
    if isinstance(x, numpy.ndarray):
        if x.shape == ():
            return norm(x[()], depth + 1)
        if type(x) is numpy.ndarray and x.dtype.kind in "bi":
            return x.tolist()
        return [norm(y, depth + 1) for y in x]
    if isinstance(x, AwkwardArray):
        return [norm(y, depth + 1) for y in x]
    if isinstance(x, dict):
        return dict((k, norm(x[k], depth + 1)) for k in sorted(x))
    if type(x) is tuple:
        return tuple(norm(y, depth + 1) for y in x)
    if type(x) is list:
        return [norm(y, depth + 1) for y in x]
    if isinstance(x, (numpy.datetime64, numpy.timedelta64)):
        return str(x)
    return x


def text(v):
    if isinstance(v, dict):
        return "{" + ",".join("%r:%s" % (k, text(v[k])) for k in sorted(v)) + "}"
    if type(v) is list:
        return "[" + ",".join([text(y) for y in v]) + "]"
    if type(v) is tuple:
        return "(" + ",".join([text(y) for y in v]) + ")"
    if isinstance(v, float):
        if v != v:
            return "nan"
        return repr(v if v != 0 else 0.0)
    return repr(v)


def _plain(v):
    """What tolist returned, in the same canonical terms."""
    return norm(v)


def observe(x, deep=True):
    """Logical value of an array, read along every public reading path."""
    out = norm(x)
    if isinstance(x, AwkwardArray):
        want = text(out)
        if deep:
            n = len(x)
            if n != len(out):
                raise Violation("len() is %d but iteration yields %d items: %s" % (n, len(out), want))
            got = text(_plain(x.tolist()))
            if got != want:
                raise Violation("tolist() gives %s but iteration gives %s" % (got, want))
            byindex = text([norm(x[i]) for i in range(n)])
            if byindex != want:
                raise Violation("integer indexing gives %s but iteration gives %s" % (byindex, want))
    return out


def expect(got, want, what=""):
    g, w = text(got), text(want)
    if g != w:
        raise Violation("%s%s, expected %s" % (what + ": " if what else "", g, w), "got " + g)
    return g


def expect_error(fn, what=""):
    try:
        out = fn()
    except Exception:
        return "error"
    try:
        shown = text(norm(out))
    except Exception as err:
        shown = "an unreadable %s (%s)" % (type(out).__name__, err)
    raise Violation("%sexpected an error, got %s" % (what + ": " if what else "", shown), "no error")


def physical(x, depth=0):
    if depth > 40:
        return "..."
    if isinstance(x, numpy.ma.MaskedArray):
        return "ma(%s,%s)" % (physical(numpy.asarray(x.data)), physical(numpy.ma.getmaskarray(x)))
    if isinstance(x, numpy.ndarray):
        return "%s%s%s%r" % (x.dtype.str, x.shape, x.strides, x.tolist())
    if isinstance(x, AwkwardArray):
        parts = [type(x).__name__]
        for k in sorted(x.__dict__):
            if k in ("_cache", "_key", "_isvalid", "_offsets", "_counts", "_parents", "_inverse", "_iscompact", "_iscross", "_nestedcross"):
                continue
            if isinstance(x, UnionArray) and k == "_dtype":
                continue
            if isinstance(x, VirtualArray) and k in ("_array", "_nbytes", "_type"):
                continue
            if isinstance(x, ChunkedArray) and not isinstance(x, AppendableArray) and k in ("_chunksizes", "_types"):
                continue
            parts.append(k + "=" + physical(x.__dict__[k], depth + 1))
        return "(" + " ".join(parts) + ")"
    if isinstance(x, dict):
        return "{" + ",".join("%r:%s" % (k, physical(v, depth + 1)) for k, v in x.items()) + "}"
    if isinstance(x, (list, tuple)):
        return "[" + ",".join(physical(y, depth + 1) for y in x) + "]"
    if callable(x) or isinstance(x, (int, float, str, bytes, bool, type(None))):
        return getattr(x, "__name__", None) or repr(x)
    return type(x).__name__
