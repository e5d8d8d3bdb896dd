class Mict:
    """Insertion ordered multi valued mapping."""

    _fold = staticmethod(lambda k: k)

    def __init__(self, pa=(), **kwa):
        self._l = []
        self.extend(pa, **kwa)

    def extend(self, pa=(), **kwa):
        for k, v in (pa.items() if hasattr(pa, "items") else pa):
            self.add(k, v)
        for k, v in kwa.items():
            self.add(k, v)

    def add(self, key, value):
        self._l.append((key, value))

    def __setitem__(self, key, value):
        f = self._fold(key)
        for i, (k, _) in enumerate(self._l):
            if self._fold(k) == f:
                self._l[i] = (key, value)
                self._l[i + 1:] = [e for e in self._l[i + 1:] if self._fold(e[0]) != f]
                return
        self._l.append((key, value))

    def __getitem__(self, key):
        f = self._fold(key)
        for k, v in self._l:
            if self._fold(k) == f:
                return v
        raise KeyError(key)

    getone = __getitem__

    def __delitem__(self, key):
        f, n = self._fold(key), len(self._l)
        self._l = [e for e in self._l if self._fold(e[0]) != f]
        if len(self._l) == n:
            raise KeyError(key)

    def __contains__(self, key):
        try:
            f = self._fold(key)
        except Exception:
            return False
        return any(self._fold(k) == f for k, _ in self._l)

    def __len__(self):
        return len(self._l)

    def __iter__(self):
        return iter([k for k, _ in self._l])

    def keys(self):
        return [k for k, _ in self._l]

    def values(self):
        return [v for _, v in self._l]

    def items(self):
        return list(self._l)

    def get(self, key, default=None):
        try:
            return self[key]
        except KeyError:
            return default

    def getall(self, key, default=None):
        f = self._fold(key)
        out = [v for k, v in self._l if self._fold(k) == f]
        if not out and default is None:
            raise KeyError(key)
        return out or default

    def nabone(self, key, *default):
        vals = self.getall(key, [])
        if vals:
            return vals[-1]
        if default:
            return default[0]
        raise KeyError(key)

    def naball(self, key, *default):
        return list(reversed(self.getall(key, [])))

    def firsts(self):
        seen, out = set(), []
        for k, v in self._l:
            f = self._fold(k)
            if f not in seen:
                seen.add(f)
                out.append((k, v))
        return out

    def lasts(self):
        return [(k, self.nabone(k)) for k, _ in self.firsts()]

    def update(self, pa=(), **kwa):
        for k, v in (pa.items() if hasattr(pa, "items") else pa):
            self[k] = v
        for k, v in kwa.items():
            self[k] = v

    def pop(self, key, *default):
        try:
            v = self[key]
        except KeyError:
            if default:
                return default[0]
            raise
        del self[key]
        return v

    popone = pop

    def copy(self):
        return type(self)(self._l)

    def clear(self):
        self._l = []

    def setdefault(self, key, default=None):
        if key not in self:
            self.add(key, default)
        return self[key]

    def __eq__(self, other):
        if hasattr(other, "items"):
            return sorted((self._fold(k), v) for k, v in self._l) == \
                sorted((self._fold(k), v) for k, v in other.items())
        return NotImplemented

    def __repr__(self):
        return f"{type(self).__name__}({self._l!r})"


class Hict(Mict):
    """Case insensitive keys."""
    _fold = staticmethod(lambda k: k.lower())
