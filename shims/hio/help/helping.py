from collections.abc import Iterable, Sequence, Generator, Iterator
from abc import ABCMeta
import inspect


class NonStringIterable(metaclass=ABCMeta):
    @classmethod
    def __subclasshook__(cls, C):
        if cls is NonStringIterable:
            if not issubclass(C, (str, bytes)) and issubclass(C, Iterable):
                return True
        return NotImplemented


class NonStringSequence(metaclass=ABCMeta):
    @classmethod
    def __subclasshook__(cls, C):
        if cls is NonStringSequence:
            if not issubclass(C, (str, bytes)) and issubclass(C, Sequence):
                return True
        return NotImplemented


def isNonStringIterable(obj):
    return not isinstance(obj, (str, bytes)) and isinstance(obj, Iterable)


def isNonStringSequence(obj):
    return not isinstance(obj, (str, bytes)) and isinstance(obj, Sequence)


def isIterator(obj):
    return isinstance(obj, (Generator, Iterator))


def attributize(genfunc):
    class Gen:
        def __init__(self, *pa, **kwa):
            self._g = genfunc(self, *pa, **kwa)

        def __iter__(self):
            return self

        def __next__(self):
            return next(self._g)

        def send(self, v):
            return self._g.send(v)

        def throw(self, *a):
            return self._g.throw(*a)

        def close(self):
            return self._g.close()
    return Gen
