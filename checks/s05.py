"""S05: records of every class read back equal from record sub-dbs, which act as maps, sets and duplicates."""
import dataclasses
import json
import types
import typing
from hypothesis import strategies as st
import vf
from . import kvmodel as kv, s04

RULE = ("every record class the databases store, with generated field values of the annotated types (nested records, lists, "
        "mappings, absent values, non-ASCII text), in JSON, CBOR and MessagePack, through op sequences on the map, set and "
        "duplicate wrappers compared with a plain-Python model, again after reopening; records of another class are mixed in. "
        "Non-trivial: at least three ops changed the contents.")
ASSUMPTIONS = ["key parts hold no separator and no key's parts begin another key (see DESIGN.md)",
               "lmdb, cbor2 and msgpack replaced by stand-ins where not installed"]
LEGS = []
CLASSES = [("recording", n) for n in ("StateEERecord", "KeyStateRecord", "EventSourceRecord", "HabitatRecord", "TopicsRecord",
                                      "OobiQueryRecord", "OobiRecord", "EndpointRecord", "EndAuthRecord", "LocationRecord",
                                      "ObservedRecord", "CacheTypeRecord", "MsgCacheRecord", "TxnMsgCacheRecord", "WellKnownAuthN")]
CLASSES += [("app.keeping", n) for n in ("PubLot", "PreSit", "PrePrm", "PubSet")]
CLASSES += [("vdr.eventing", n) for n in ("RegStateRecord", "RegistryRecord", "VcStateRecord")]
TEXTS = ["", "a", "EAbc", "0", "1", "é ü", "x" * 30, "2021-01-01T00:00:00.000000+00:00", "{}", "null"]
NUMBERS = [0, 1, 2, 255, 65536, 2 ** 40]
seed = st.integers(0, 2 ** 20 - 1)


def field(n):
    """A text, number, flag, list, mapping and whether absent, from one number."""
    t, u = TEXTS[n % 10], NUMBERS[n // 10 % 6]
    return (t, u, bool(n >> 6 & 1), [TEXTS[(n >> 7) % 10], TEXTS[(n >> 9) % 10], t][:(n >> 11) % 4],
            {TEXTS[(n >> 8) % 10]: u, TEXTS[(n >> 10) % 10] + "k": NUMBERS[(n >> 5) % 6]} if n >> 12 & 1 else {}, bool(n >> 13 & 1))


def load(c):
    import importlib
    mod = importlib.import_module("keri." + c[0])
    return getattr(mod, c[1], None)


def value(t, it):
    """A value of an annotated type from the next field spec."""
    n0 = next(it)
    s, n, b, l, d, none = field(n0)
    args = typing.get_args(t)
    if isinstance(t, types.UnionType) or typing.get_origin(t) is typing.Union:
        return None if none else value([a for a in args if a is not type(None)][0], iter([n0]))
    o = typing.get_origin(t) or t
    if dataclasses.is_dataclass(o):
        return make(o, it)
    if o is str:
        return s
    if o is bool:
        return b
    if o is int:
        return n
    if o is list:
        return [n, 0] if args == (int,) else list(l)
    if o is dict:
        return dict(d)
    raise vf.HarnessError(f"field type {t!r}")


def make(cls, it):
    return cls(**{f.name: value(f.type, it) for f in dataclasses.fields(cls)})


def cycle(x):
    while True:
        yield from x


class Rec:
    def __init__(self, cls, kind, specs, other):
        self.cls, self.kind, self.other = cls, kind, other
        self.pool = [make(cls, cycle(s)) for s in specs]
        self.kwa = dict(klas=cls, kind=kind)

    def ser(self, o):
        import cbor2
        import msgpack
        d = dataclasses.asdict(o)
        return json.dumps(d, separators=(",", ":"), ensure_ascii=False).encode() if self.kind == "JSON" else \
            cbor2.dumps(d) if self.kind == "CBOR" else msgpack.dumps(d)

    def raw(self, i, sep):
        return self.ser(self.pool[i])

    def give(self, i, form, sep):
        return make_copy(self.pool[i])

    def canon(self, o, sep):
        vf.check(type(o) is self.cls and o in self.pool, f"{vf.short(o)} read back, not a record as written")
        return self.ser(o)

    def bad(self, i):
        return self.other if i % 2 else dataclasses.asdict(self.pool[i])


def make_copy(o):
    import copy
    return copy.deepcopy(o)


KLAS = dict(plain="Komer", ioset="IoSetKomer", dup="DupKomer")
# what the record wrappers do not offer, and what they offer with fewer arguments
SKIPS = dict(plain=("cntTop",), dup=("cntTop", "cntAll", "cntall"),
             ioset=("getItem", "getItemIter", "getLastItem", "getLastItemIter", "getLastIter", "cntTop", "cntAll"))
K = s04.K
TABLE = {f: {n: t for n, t in s04.OPS[f].items() if n not in SKIPS[f]} for f in KLAS}
TABLE["plain"]["getDict"] = (1, [K], lambda m, k: m.get(k), lambda s, k: undict(s, k))
TABLE["ioset"].update({
    "get": (2, [K], lambda m, k: [x[1] for x in m.get(k, 0)], lambda s, k: s.get(k)),
    "getIter": (2, [K], lambda m, k: [x[1] for x in m.get(k, 0)], lambda s, k: list(s.getIter(k))),
    "cnt": (2, [K], lambda m, k: m.cnt(k, 0), lambda s, k: s.cnt(k))})
OPS = {f: s04.ops(f, TABLE) for f in KLAS}


def undict(s, k):
    """A record again, from the mapping read."""
    d = s.getDict(k)
    return d if d is None else s.klas(**{f.name: f.type(**d[f.name]) if dataclasses.is_dataclass(f.type) else d[f.name]
                                         for f in dataclasses.fields(s.klas)})


@st.composite
def scene(draw):
    family = draw(st.sampled_from(["plain", "ioset", "dup"]))
    n = draw(st.integers(0, len(CLASSES) - 1))
    specs = draw(st.lists(st.lists(seed, min_size=1, max_size=4), min_size=6, max_size=6))
    return (family, n, draw(st.sampled_from(["JSON", "CBOR", "MGPK"])), draw(st.sampled_from([".", ".", "|"])), specs,
            draw(kv.seqs(st.tuples(st.sampled_from([0, 0, 0, 1]), OPS[family]), 24)))


@vf.leg(LEGS, scene(), quick=700)
def records(c):
    from keri.db import koming
    family, n, kind, sep, specs, seq = c
    cls = load(CLASSES[n])
    if cls is None:
        return
    other = load(CLASSES[(n + 1) % 15])
    kd = Rec(cls, kind, specs, make(other, cycle(specs[0])))
    if family == "dup" and any(len(kd.raw(i, sep)) > 511 for i in range(6)):
        return  # the limit of a duplicate value
    got = s04.follow(family, getattr(koming, KLAS[family]), kd, sep, seq, TABLE)
    return got and [CLASSES[n][1], kind, KLAS[family]]
