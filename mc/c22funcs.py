"""Functions named by the schemas of C22: they only record that they were called."""
import types

import numpy

log = []


def f(*args, **kwargs):
    log.append("f")
    return ("f", args, tuple(sorted((n, x if n != "cache" else "cache") for n, x in kwargs.items())))


def g(*args, **kwargs):
    log.append("g")
    return ("g", args, tuple(sorted((n, x if n != "cache" else "cache") for n, x in kwargs.items())))


def fg(*args, **kwargs):
    log.append("fg")
    return ("fg", args, ())


def four(*args, **kwargs):
    log.append("four")
    return numpy.array([1.5, 2.5, 3.5, 4.5])


def __special__(*args):
    log.append("__special__")
    return ("__special__", args, ())


class K(object):
    value = 5

    def __init__(self, *args):
        log.append("K")
        self.args = args

    def __eq__(self, other):
        return type(self) is type(other)

    __hash__ = None

    def __repr__(self):
        return "K" + repr(self.args)

    @staticmethod
    def make(*args):
        log.append("K.make")
        return ("K.make", args, ())

    @classmethod
    def f(cls, *args):
        log.append("K.f")
        return ("K.f", args, ())

    class Inner(object):
        @staticmethod
        def f(*args):
            log.append("K.Inner.f")
            return ("K.Inner.f", args, ())

    numpy = numpy
    module = types


instance = K()
data = {"f": f}
del log[:]
