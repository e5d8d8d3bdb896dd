"""Reference model of the key/value families shared by the browser store and the
LMDB store, and of the duplicate families only LMDB has.

A case is a list of ops (name, *args) over one named sub-db of one family.  The
model keeps plain Python maps; `run` applies each op to the real store and to
the model and compares what each returned."""
from hypothesis import strategies as st
import vf

MAXON = (1 << 128) - 1


def onkey(key, on, sep):
    return key + sep + b"%032x" % on


def norm(v):
    if isinstance(v, (memoryview, bytearray)):
        return bytes(v)
    if isinstance(v, (list, tuple)):
        return type(v)(norm(x) for x in v) if not hasattr(v, "_fields") else tuple(norm(x) for x in v)
    if v is None or isinstance(v, (bool, int, bytes, str)):
        return v
    if hasattr(v, "__iter__"):
        return [norm(x) for x in v]
    return v


RAISES = "<raises>"


def attempt(fn, *exc):
    try:
        return norm(fn())
    except exc as ex:
        return RAISES


# ---------------------------------------------------------------- plain
class Plain:
    """One value per key."""
    def __init__(self, sep=b"."):
        self.m = {}

    def items(self):
        return sorted(self.m.items())

    def put(self, k, v):
        if not k:
            return RAISES
        if k in self.m:
            return False
        self.m[k] = v
        return True

    def set(self, k, v):
        if not k:
            return RAISES
        self.m[k] = v
        return True

    def get(self, k):
        return self.m.get(k) if k else RAISES

    def rem(self, k):
        return self.m.pop(k, None) is not None if k else False

    def top(self, t):
        return [(k, v) for k, v in self.items() if k.startswith(t)]

    def cnttop(self, t):
        return len(self.top(t))

    def cnt(self):
        return len(self.m)

    def remtop(self, t):
        ks = [k for k in self.m if k.startswith(t)]
        for k in ks:
            del self.m[k]
        return bool(ks)

    def dump(self):
        return self.items()


def refused(d, k, r):
    """An empty key: the browser store raises KeyError, the LMDB store may return False."""
    return RAISES if not k and r in (False, None) and not hasattr(d, "stores") else r


PLAIN_REAL = dict(
    put=lambda d, s, sep, k, v: refused(d, k, attempt(lambda: d.putVal(s, k, v), KeyError)),
    set=lambda d, s, sep, k, v: refused(d, k, attempt(lambda: d.setVal(s, k, v), KeyError)),
    get=lambda d, s, sep, k: refused(d, k, attempt(lambda: d.getVal(s, k), KeyError)),
    rem=lambda d, s, sep, k: d.remVal(s, k),
    top=lambda d, s, sep, t: d.getTopItemIter(s, t),
    cnttop=lambda d, s, sep, t: d.cntTop(s, t),
    cnt=lambda d, s, sep: d.cntAll(s),
    remtop=lambda d, s, sep, t: d.remTop(s, t),
    dump=lambda d, s, sep: d.getTopItemIter(s, b""),
)


# ---------------------------------------------------------------- ordinal
class On:
    """One value per (key, ordinal)."""
    def __init__(self, sep=b"."):
        self.m = {}
        self.sep = sep

    def items(self):
        return [(k, o, self.m[(k, o)]) for k, o in
                sorted(self.m, key=lambda ko: onkey(ko[0], ko[1], self.sep))]

    def put(self, k, o, v):
        if v is None or not k:
            return False
        if (k, o) in self.m:
            return False
        self.m[(k, o)] = v
        return True

    def pin(self, k, o, v):
        if v is None or not k:
            return False
        self.m[(k, o)] = v
        return True

    def append(self, k, v):
        if not k or v is None:
            return RAISES
        ons = [o for kk, o in self.m if kk == k]
        o = max(ons) + 1 if ons else 0
        if o > MAXON:
            return RAISES
        self.m[(k, o)] = v
        return o

    def item(self, k, o):
        return (k, o, self.m[(k, o)]) if k and (k, o) in self.m else None

    def get(self, k, o):
        return self.m.get((k, o)) if k else None

    def rem(self, k, o):
        return self.m.pop((k, o), None) is not None

    def _all(self, k, o):
        return [t for t in self.items() if not k or (t[0] == k and t[1] >= o)]

    def remall(self, k, o):
        ts = self._all(k, o)
        for t in ts:
            del self.m[t[:2]]
        return bool(ts)

    def cntall(self, k, o):
        return len(self._all(k, o))

    def all(self, k, o):
        return self._all(k, o)

    def top(self, t):
        return [x for x in self.items() if onkey(x[0], x[1], self.sep).startswith(t)]

    def dump(self):
        return self.items()


ON_REAL = dict(
    put=lambda d, s, sep, k, o, v: d.putOnVal(s, k, o, v, sep=sep),
    pin=lambda d, s, sep, k, o, v: d.pinOnVal(s, k, o, v, sep=sep),
    append=lambda d, s, sep, k, v: attempt(lambda: d.appendOnVal(s, k, v, sep=sep), ValueError),
    item=lambda d, s, sep, k, o: d.getOnItem(s, k, o, sep=sep),
    get=lambda d, s, sep, k, o: d.getOnVal(s, k, o, sep=sep),
    rem=lambda d, s, sep, k, o: d.remOn(s, k, o, sep=sep),
    remall=lambda d, s, sep, k, o: d.remOnAll(s, k, o, sep=sep),
    cntall=lambda d, s, sep, k, o: d.cntOnAll(s, k, o, sep=sep),
    all=lambda d, s, sep, k, o: d.getOnAllItemIter(s, k, o, sep=sep),
    top=lambda d, s, sep, t: d.getOnTopItemIter(s, t, sep=sep),
    dump=lambda d, s, sep: d.getOnAllItemIter(s, b"", sep=sep),
)


# ---------------------------------------------------------------- io set
class IoSet:
    """Insertion ordered set of values per key.  Each member carries its hidden
    insertion ordinal: one more than the greatest present, zero if none."""
    def __init__(self, sep=b"."):
        self.m = {}
        self.sep = sep

    def _order(self):
        return sorted(self.m, key=lambda k: k + self.sep)

    def _add(self, k, vals):
        cur = self.m.setdefault(k, [])
        new = []
        for v in vals:
            if v not in [x for _, x in cur] and v not in new:
                new.append(v)
        n = cur[-1][0] + 1 if cur else 0
        cur += [(n + i, v) for i, v in enumerate(new)]
        if not cur:
            del self.m[k]
        return bool(new)

    def put(self, k, vals):
        return self._add(k, vals) if k and vals else False

    def pin(self, k, vals):
        if not k or not vals:
            return False
        self.m.pop(k, None)
        return self._add(k, vals)

    def add(self, k, v):
        return self._add(k, [v]) if k and v is not None else False

    def get(self, k, ion):
        return [(k, v) for i, v in self.m.get(k, []) if i >= ion]

    def last(self, k):
        return (k, self.m[k][-1][1]) if k in self.m else ()

    def rem(self, k):
        return self.m.pop(k, None) is not None

    def remval(self, k, v):
        if v is None:
            return self.rem(k)
        for t in self.m.get(k, []):
            if t[1] == v:
                self.m[k].remove(t)
                if not self.m[k]:
                    del self.m[k]
                return True
        return False

    def cnt(self, k, ion):
        return len(self.get(k, ion))

    def top(self, t):
        return [(k, v) for k in self._order() for i, v in self.m[k]
                if onkey(k, i, self.sep).startswith(t)]

    def lastall(self, k):
        return [(q, self.m[q][-1][1]) for q in self._order()
                if not k or q + self.sep >= k + self.sep]

    def lastvals(self, k):
        return [v for _, v in self.lastall(k)]

    def cntdb(self):
        return sum(map(len, self.m.values()))

    def dump(self):
        return self.top(b"")


IOSET_REAL = dict(
    put=lambda d, s, sep, k, vs: d.putIoSetVals(s, k, vs, sep=sep),
    pin=lambda d, s, sep, k, vs: d.pinIoSetVals(s, k, vs, sep=sep),
    add=lambda d, s, sep, k, v: d.addIoSetVal(s, k, v, sep=sep),
    get=lambda d, s, sep, k, i: d.getIoSetItemIter(s, k, ion=i, sep=sep),
    last=lambda d, s, sep, k: d.getIoSetLastItem(s, k, sep=sep),
    rem=lambda d, s, sep, k: d.remIoSet(s, k, sep=sep),
    remval=lambda d, s, sep, k, v: d.remIoSetVal(s, k, v, sep=sep),
    cnt=lambda d, s, sep, k, i: d.cntIoSet(s, k, ion=i, sep=sep),
    top=lambda d, s, sep, t: d.getTopIoSetItemIter(s, t, sep=sep),
    lastall=lambda d, s, sep, k: d.getIoSetLastItemIterAll(s, k, sep=sep),
    lastvals=lambda d, s, sep, k: d.getIoSetLastIterAll(s, k, sep=sep),
    cntdb=lambda d, s, sep: d.cntAll(s),
    dump=lambda d, s, sep: d.getTopIoSetItemIter(s, b"", sep=sep),
)


# ---------------------------------------------------------------- ordinal io set
class OnIoSet(IoSet):
    """Insertion ordered set per (key, ordinal)."""
    def _order(self):
        return sorted(self.m, key=lambda k: onkey(k[0], k[1], self.sep))

    def put(self, k, o, vals):
        return self._add((k, o), vals) if k and vals else False

    def pin(self, k, o, vals):
        if not k or not vals:
            return False
        self.m.pop((k, o), None)
        return self._add((k, o), vals)

    def add(self, k, o, v):
        return self._add((k, o), [v]) if k and v is not None else False

    def append(self, k, vals):
        if not k or not vals:
            return RAISES
        ons = [o for kk, o in self.m if kk == k]
        o = max(ons) + 1 if ons else 0
        if o > MAXON:
            return RAISES
        self._add((k, o), vals)
        return o

    def get(self, k, o, ion):
        return [(k, o, v) for i, v in self.m.get((k, o), []) if i >= ion]

    def last(self, k, o):
        return (k, o, self.m[(k, o)][-1][1]) if (k, o) in self.m else ()

    def remval(self, k, o, v):
        return IoSet.remval(self, (k, o), v)

    def cnt(self, k, o, ion):
        return len(self.get(k, o, ion))

    def _sel(self, k, o):
        return [q for q in self._order() if not k or (q[0] == k and q[1] >= o)]

    def remall(self, k, o):
        qs = self._sel(k, o)
        for q in qs:
            del self.m[q]
        return bool(qs)

    def cntall(self, k, o):
        return sum(len(self.m[q]) for q in self._sel(k, o))

    def top(self, t):
        return [(k, o, v) for k, o in self._order() for i, v in self.m[(k, o)]
                if onkey(onkey(k, o, self.sep), i, self.sep).startswith(t)]

    def all(self, k, o):
        return [(q[0], q[1], v) for q in self._sel(k, o) for _, v in self.m[q]]

    def alllast(self, k, o):
        return [(q[0], q[1], self.m[q][-1][1]) for q in self._sel(k, o)]

    def _selback(self, k, o):
        return [q for q in reversed(self._order())
                if not k or (q[0] == k and (o is None or q[1] <= o))]

    def back(self, k, o):
        return [(q[0], q[1], v) for q in self._selback(k, o) for _, v in reversed(self.m[q])]

    def lastback(self, k, o):
        return [(q[0], q[1], self.m[q][-1][1]) for q in self._selback(k, o)]


ONIOSET_REAL = dict(
    put=lambda d, s, sep, k, o, vs: d.putOnIoSetVals(s, k, on=o, vals=vs, sep=sep),
    pin=lambda d, s, sep, k, o, vs: d.pinOnIoSetVals(s, k, on=o, vals=vs, sep=sep),
    add=lambda d, s, sep, k, o, v: d.addOnIoSetVal(s, k, on=o, val=v, sep=sep),
    append=lambda d, s, sep, k, vs: attempt(lambda: d.appendOnIoSetVals(s, k, vs, sep=sep), ValueError),
    get=lambda d, s, sep, k, o, i: d.getOnIoSetItemIter(s, k, on=o, ion=i, sep=sep),
    last=lambda d, s, sep, k, o: d.getOnIoSetLastItem(s, k, o, sep=sep),
    remval=lambda d, s, sep, k, o, v: d.remOnIoSetVal(s, k, on=o, val=v, sep=sep),
    cnt=lambda d, s, sep, k, o, i: d.cntOnIoSet(s, k, on=o, ion=i, sep=sep),
    remall=lambda d, s, sep, k, o: d.remOnAllIoSet(s, k, o, sep=sep),
    cntall=lambda d, s, sep, k, o: d.cntOnAllIoSet(s, k, on=o, sep=sep),
    top=lambda d, s, sep, t: d.getOnTopIoSetItemIter(s, t, sep=sep),
    all=lambda d, s, sep, k, o: d.getOnAllIoSetItemIter(s, k, o, sep=sep),
    alllast=lambda d, s, sep, k, o: d.getOnAllIoSetLastItemIter(s, k, o, sep=sep),
    back=lambda d, s, sep, k, o: d.getOnAllIoSetItemBackIter(s, k, o, sep=sep),
    lastback=lambda d, s, sep, k, o: d.getOnAllIoSetLastItemBackIter(s, k, o, sep=sep),
    cntdb=lambda d, s, sep: d.cntAll(s),
    dump=lambda d, s, sep: d.getOnAllIoSetItemIter(s, b"", sep=sep),
)


# ---------------------------------------------------------------- dup (lmdb)
class Dup:
    """Set of values per key in lexical order (native LMDB duplicates)."""
    def __init__(self, sep=b"."):
        self.m = {}

    def put(self, k, vals):
        if not k:
            return False
        if vals:
            self.m.setdefault(k, set()).update(vals)
        return ANY if vals else True

    def add(self, k, v):
        if not k or v in self.m.get(k, ()):
            return False
        self.m.setdefault(k, set()).add(v)
        return True

    def get(self, k):
        return sorted(self.m.get(k, [])) if k else False

    def last(self, k):
        return (max(self.m[k]) if k in self.m else None) if k else False

    def iter(self, k):
        return sorted(self.m.get(k, []))

    def cnt(self, k):
        return len(self.m.get(k, []))

    def rem(self, k, v):
        if not k or k not in self.m:
            return False
        if v == b"":
            del self.m[k]
            return True
        if v in self.m[k]:
            self.m[k].discard(v)
            if not self.m[k]:
                del self.m[k]
            return True
        return False

    def dump(self):
        return [(k, v) for k in sorted(self.m) for v in sorted(self.m[k])]

    def cntdb(self):
        return len(self.dump())


class _Any:
    def __repr__(self):
        return "<any bool>"


ANY = _Any()

DUP_REAL = dict(
    put=lambda d, s, sep, k, vs: d.putVals(s, k, vs),
    add=lambda d, s, sep, k, v: d.addVal(s, k, v),
    get=lambda d, s, sep, k: d.getVals(s, k),
    last=lambda d, s, sep, k: d.getValLast(s, k),
    iter=lambda d, s, sep, k: d.getValsIter(s, k),
    cnt=lambda d, s, sep, k: d.cntVals(s, k),
    rem=lambda d, s, sep, k, v: d.delVals(s, k, v),
    cntdb=lambda d, s, sep: d.cntAll(s),
    dump=lambda d, s, sep: d.getTopItemIter(s, b""),
)


class IoDup(IoSet):
    """Insertion ordered duplicates per key (ordinal hidden in the value)."""
    def _order(self):
        return sorted(self.m)

    def get(self, k, ion=0):
        return [v for i, v in self.m.get(k, []) if i >= ion]

    def items(self, k, ion):
        return [(k, v) for i, v in self.m.get(k, []) if i >= ion]

    def last(self, k):
        return self.m[k][-1][1] if k in self.m else None

    def cnt(self, k):
        return len(self.m.get(k, []))

    def remval(self, k, v):
        return IoSet.remval(self, k, v)

    def top(self, t):
        return [(k, v) for k in self._order() if k.startswith(t) for _, v in self.m[k]]


IODUP_REAL = dict(
    put=lambda d, s, sep, k, vs: d.putIoDupVals(s, k, vs),
    add=lambda d, s, sep, k, v: d.addIoDupVal(s, k, v),
    get=lambda d, s, sep, k: d.getIoDupVals(s, k),
    items=lambda d, s, sep, k, i: d.getIoDupItemIter(s, k, ion=i),
    last=lambda d, s, sep, k: d.getIoDupValLast(s, k),
    rem=lambda d, s, sep, k: d.delIoDupVals(s, k),
    remval=lambda d, s, sep, k, v: d.delIoDupVal(s, k, v),
    cnt=lambda d, s, sep, k: d.cntIoDups(s, k),
    top=lambda d, s, sep, t: d.getTopIoDupItemIter(s, t),
    cntdb=lambda d, s, sep: d.cntAll(s),
    dump=lambda d, s, sep: d.getTopIoDupItemIter(s, b""),
)


class OnIoDup(OnIoSet):
    def put(self, k, o, vals):
        return self._add((k, o), vals)

    def append(self, k, v):
        if not k:
            return RAISES
        return OnIoSet.append(self, k, [v])

    def get(self, k, o):
        return [v for _, v in self.m.get((k, o), [])]

    def items(self, k, o, ion):
        return [(k, o, v) for i, v in self.m.get((k, o), []) if i >= ion]

    def last(self, k, o):
        return self.m[(k, o)][-1][1] if (k, o) in self.m else None

    def rem(self, k, o):
        return self.m.pop((k, o), None) is not None

    def cnt(self, k, o):
        return len(self.m.get((k, o), []))

    def top(self, t):
        return [(k, o, v) for k, o in self._order() for _, v in self.m[(k, o)]
                if onkey(k, o, self.sep).startswith(t)]

    def allvals(self, k, o):
        return [t[2] for t in self.all(k, o)]

    def lastvals(self, k, o):
        return [t[2] for t in self.alllast(k, o)]

    def backvals(self, k, o):
        return [t[2] for t in self.back(k, o)]


ONIODUP_REAL = dict(
    put=lambda d, s, sep, k, o, vs: d.putOnIoDupVals(s, k, o, vs, sep=sep),
    add=lambda d, s, sep, k, o, v: d.addOnIoDupVal(s, k, o, v, sep=sep),
    append=lambda d, s, sep, k, v: attempt(lambda: d.appendOnIoDupVal(s, k, v, sep=sep), ValueError),
    get=lambda d, s, sep, k, o: d.getOnIoDupVals(s, k, o, sep=sep),
    items=lambda d, s, sep, k, o, i: d.getOnIoDupItemIter(s, k, o, i, sep=sep),
    last=lambda d, s, sep, k, o: d.getOnIoDupLast(s, k, o, sep=sep),
    rem=lambda d, s, sep, k, o: d.delOnIoDups(s, k, o, sep=sep),
    remval=lambda d, s, sep, k, o, v: d.delOnIoDupVal(s, k, o, v, sep=sep),
    cnt=lambda d, s, sep, k, o: d.cntOnIoDups(s, k, o, sep=sep),
    top=lambda d, s, sep, t: d.getOnTopIoDupItemIter(s, t, sep=sep),
    all=lambda d, s, sep, k, o: d.getOnIoDupItemIterAll(s, k, o, sep=sep),
    allvals=lambda d, s, sep, k, o: d.getOnIoDupIterAll(s, k, o, sep=sep),
    alllast=lambda d, s, sep, k, o: d.getOnIoDupLastItemIter(s, k, o, sep=sep),
    lastvals=lambda d, s, sep, k, o: d.getOnIoDupLastValIter(s, k, o, sep=sep),
    back=lambda d, s, sep, k, o: d.getOnIoDupItemBackIter(s, k, o, sep=sep),
    backvals=lambda d, s, sep, k, o: d.getOnIoDupValBackIter(s, k, o, sep=sep),
    cntall=lambda d, s, sep, k, o: d.cntOnAll(s, k, o, sep=sep),
    remall=lambda d, s, sep, k, o: d.remOnAll(s, k, o, sep=sep),
    cntdb=lambda d, s, sep: d.cntAll(s),
    dump=lambda d, s, sep: d.getOnIoDupItemIterAll(s, b"", sep=sep),
)

FAMILIES = dict(plain=(Plain, PLAIN_REAL), on=(On, ON_REAL), ioset=(IoSet, IOSET_REAL),
                onioset=(OnIoSet, ONIOSET_REAL), dup=(Dup, DUP_REAL), iodup=(IoDup, IODUP_REAL),
                oniodup=(OnIoDup, ONIODUP_REAL))

# ---------------------------------------------------------------- generators
# Keys: none is another key plus a separator (see DESIGN.md, key domain), but
# some are plain prefixes of others and some continue with a byte that sorts
# before the separator.
AID = b"EAbcdefghijklmnopqrstuvwxyz0123456789_-ABCDE"
KEYS = [b"a", b"ab", b"a-", b"a ", b"b", b"B", b"a_x", b"zz", AID, AID[:-1] + b"F", b"\xc3\xa9", b"0"]
PKEYS = KEYS + [b"a.b", b"a.", b"a.b.c", b"a.c", b"b.00000000000000000000000000000001"]
VALS = [b"", b"v", b"w", b"vv", b"x" * 40, b"\x00\xff", b"0" * 32 + b".y"]
ONS = [0, 1, 2, 3, 9, 10, 15, 16, 17, 255, 256, 2**32, 2**64 - 1, 2**64, MAXON - 1, MAXON]

key = vf.weighted((2, st.sampled_from(KEYS[:3])), (1, st.sampled_from(KEYS)))
ekey = vf.weighted((12, key), (1, st.just(b"")))
pkey = vf.weighted((6, st.sampled_from(PKEYS[:4])), (6, st.sampled_from(PKEYS)), (1, st.just(b"")),
                   (2, st.binary(min_size=1, max_size=12)))
val = st.one_of(st.sampled_from(VALS[:3]), st.sampled_from(VALS), st.binary(max_size=6))
oval = vf.weighted((12, val), (1, st.none()))
on = vf.weighted((2, st.integers(0, 4)), (1, st.sampled_from(ONS)))
oon = vf.weighted((3, on), (1, st.none()))
ion = st.integers(0, 3)
vals = st.lists(val, min_size=0, max_size=5)
uvals = vals
dvals = st.lists(val, min_size=0, max_size=5, unique=True)
TOPS = [b"", b"a", b"a", b"a.", b"a-", b"ab", b"E", AID, AID + b".", b"b.0", b"zz.", b"c", b"a.0000000000000000000000000000000"]
top = st.sampled_from(TOPS)


weighted = vf.weighted


def seqs(one, most=40):
    """Mostly long sequences (which shrink to short ones)."""
    return st.one_of(st.lists(one, min_size=1, max_size=most), st.lists(one, min_size=10, max_size=most),
                     st.lists(one, min_size=20, max_size=most))


def op(name, *ss):
    return st.tuples(st.just(name), *ss)


OPS = dict(
    plain=weighted((6, op("put", pkey, val)), (4, op("set", pkey, val)), (3, op("rem", pkey)), (2, op("get", pkey)),
                   (2, op("top", top)), (1, op("cnttop", top)), (1, op("cnt")), (1, op("remtop", top.filter(len))),
                   ),
    on=weighted((5, op("put", key, on, oval)), (3, op("pin", ekey, on, oval)), (5, op("append", ekey, oval)),
                (2, op("rem", ekey, on)), (1, op("item", ekey, on)), (1, op("get", ekey, on)),
                (1, op("remall", key, on)), (1, op("cntall", ekey, on)), (2, op("all", ekey, on)), (1, op("top", top))),
    ioset=weighted((4, op("put", ekey, vals)), (2, op("pin", ekey, vals)), (5, op("add", ekey, oval)),
                   (1, op("rem", ekey)), (3, op("remval", ekey, oval)), (2, op("get", ekey, ion)), (1, op("last", ekey)),
                   (1, op("cnt", ekey, ion)), (1, op("top", top)), (1, op("lastall", ekey)), (1, op("lastvals", ekey)),
                   (1, op("cntdb"))),
    onioset=weighted((4, op("put", ekey, on, vals)), (2, op("pin", ekey, on, vals)), (4, op("add", ekey, on, oval)),
                     (4, op("append", ekey, uvals)), (3, op("remval", ekey, on, oval)), (1, op("remall", key, on)),
                     (2, op("get", ekey, on, ion)), (1, op("last", ekey, on)), (1, op("cnt", ekey, on, ion)),
                     (1, op("cntall", ekey, on)), (1, op("top", top)), (2, op("all", ekey, on)),
                     (1, op("alllast", ekey, on)), (2, op("back", ekey, oon)), (2, op("lastback", ekey, oon)),
                     (1, op("cntdb"))),
    dup=weighted((4, op("put", ekey, vals.map(lambda v: [x for x in v if x]))), (4, op("add", ekey, val.filter(len))),
                 (2, op("get", ekey)), (1, op("last", ekey)), (1, op("iter", key)), (1, op("cnt", ekey)),
                 (3, op("rem", ekey, val)), (1, op("cntdb"))),
    iodup=weighted((4, op("put", ekey, dvals)), (5, op("add", ekey, val)), (1, op("rem", ekey)),
                   (3, op("remval", ekey, val)), (2, op("get", ekey)), (1, op("items", ekey, ion)), (1, op("last", ekey)),
                   (1, op("cnt", ekey)), (1, op("top", top)), (1, op("cntdb"))),
    oniodup=weighted((4, op("put", key, on, dvals)), (4, op("add", key, on, val)), (4, op("append", ekey, val)),
                     (1, op("rem", key, on)), (3, op("remval", key, on, val)), (2, op("get", key, on)),
                     (1, op("items", key, on, ion)), (1, op("last", key, on)), (1, op("cnt", key, on)), (1, op("top", top)),
                     (1, op("all", ekey, on)), (1, op("allvals", ekey, on)), (2, op("alllast", ekey, on)),
                     (1, op("lastvals", ekey, on)), (2, op("back", ekey, on)), (1, op("backvals", ekey, on)),
                     (1, op("cntall", ekey, on)), (1, op("remall", key, on)), (1, op("cntdb"))),
)
WIPE = dict(plain=("remtop", b""), on=("remall", b"", 0), onioset=("remall", b"", 0), oniodup=("remall", b"", 0))
SEPS = [b".", b".", b".", b"|"]


def ops(family, size=25):
    one = OPS[family]
    if family in WIPE:
        one = weighted((40, one), (1, st.just(WIPE[family])))
    return st.lists(one, min_size=1, max_size=size)


MUTATORS = {"put", "set", "pin", "add", "append", "rem", "remval", "remall", "remtop"}


def apply(family, db, sdb, sep, model, o, where=""):
    """Apply one op to both, compare; returns the model's result."""
    _, real = FAMILIES[family]
    name, args = o[0], o[1:]
    want = norm(getattr(model, name)(*args))
    got = norm(real[name](db, sdb, sep, *[list(x) if isinstance(x, list) else x for x in args]))
    if isinstance(want, _Any):
        vf.check(isinstance(got, bool), f"{where}{family}.{o!r}: got {got!r}, want a bool")
    else:
        if want == () or want is None:
            ok = got == want and type(got) is type(want)
        else:
            ok = got == want and isinstance(got, bool) == isinstance(want, bool)
        if not ok:
            raise vf.Violation(f"{where}{family}.{o!r}: got {vf.short(got)} want {vf.short(want)}")
    return want


def compare_dump(family, db, sdb, sep, model, where=""):
    _, real = FAMILIES[family]
    got, want = norm(real["dump"](db, sdb, sep)), norm(model.dump())
    if got != want:
        raise vf.Violation(f"{where}{family} contents: got {vf.short(got)} want {vf.short(want)}")
