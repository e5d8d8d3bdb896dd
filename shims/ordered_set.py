"""Offline stand-in for ordered_set.OrderedSet (4.1)."""
import itertools as _it
from collections.abc import MutableSet, Sequence


class OrderedSet(MutableSet, Sequence):
    def __init__(self, initial=None):
        self.items = []
        self.map = {}
        if initial is not None:
            self |= initial

    def __len__(self):
        return len(self.items)

    def __getitem__(self, index):
        if isinstance(index, slice) and index == slice(None):
            return self.copy()
        if isinstance(index, (list, tuple)):
            return [self.items[i] for i in index]
        result = self.items[index]
        if isinstance(result, list):
            return self.__class__(result)
        return result

    def copy(self):
        return self.__class__(self)

    def __getstate__(self):
        return (None,) if not self.items else list(self)

    def __setstate__(self, state):
        self.__init__([] if state == (None,) else state)

    def __contains__(self, key):
        return key in self.map

    def add(self, key):
        if key not in self.map:
            self.map[key] = len(self.items)
            self.items.append(key)
        return self.map[key]
    append = add

    def update(self, seq):
        i = None
        try:
            for item in seq:
                i = self.add(item)
        except TypeError:
            raise ValueError(f"Argument needs to be an iterable, got {type(seq)}")
        return i

    def index(self, key):
        if isinstance(key, (list, tuple)):
            return [self.index(k) for k in key]
        return self.map[key]
    get_loc = index
    get_indexer = index

    def pop(self, index=-1):
        if not self.items:
            raise KeyError("Set is empty")
        elem = self.items[index]
        del self.items[index]
        del self.map[elem]
        if index != -1 and index != len(self.items):
            for i, x in enumerate(self.items):
                self.map[x] = i
        return elem

    def discard(self, key):
        if key in self:
            i = self.map[key]
            del self.items[i]
            del self.map[key]
            for k, v in self.map.items():
                if v >= i:
                    self.map[k] = v - 1

    def clear(self):
        del self.items[:]
        self.map.clear()

    def __iter__(self):
        return iter(self.items)

    def __reversed__(self):
        return reversed(self.items)

    def __repr__(self):
        return f"{self.__class__.__name__}({list(self)!r})" if self else f"{self.__class__.__name__}()"

    def __eq__(self, other):
        if isinstance(other, Sequence):
            return list(self) == list(other)
        try:
            other = set(other)
        except TypeError:
            return False
        return set(self) == other

    def union(self, *sets):
        return self.__class__(_it.chain.from_iterable(map(list, _it.chain([self], sets))))

    def __and__(self, other):
        return self.intersection(other)

    def intersection(self, *sets):
        if sets:
            common = set.intersection(*map(set, sets))
            return self.__class__(i for i in self if i in common)
        return self.__class__(self)

    def difference(self, *sets):
        if sets:
            other = set.union(*map(set, sets))
            return self.__class__(i for i in self if i not in other)
        return self.__class__(self)

    def issubset(self, other):
        return len(self) <= len(other) and all(i in other for i in self)

    def issuperset(self, other):
        return len(self) >= len(other) and all(i in self for i in other)

    def symmetric_difference(self, other):
        return self.difference(other).union(self.__class__(other).difference(self))

    def _update_items(self, items):
        self.items = items
        self.map = {x: i for i, x in enumerate(items)}

    def difference_update(self, *sets):
        rm = set()
        for o in sets:
            rm |= set(o)
        self._update_items([i for i in self.items if i not in rm])

    def intersection_update(self, other):
        other = set(other)
        self._update_items([i for i in self.items if i in other])
