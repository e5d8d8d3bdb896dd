"""S04: typed sub-dbs keep typed values as maps, ordinals, sets and duplicates of them."""
import os
import shutil
import tempfile
from hypothesis import strategies as st
import vf
from . import kvmodel as kv, cesr, kel

RULE = ("op sequences over two neighbouring sub-dbs of one wrapper class: every wrapper class of the module, keys of one to "
        "three parts in every accepted form, values of its kind (text, Base64 tuples, primitives, tuples of primitives, "
        "messages, schemas, signing keys plain or encrypted), with values of the wrong kind mixed in; each result and the "
        "full contents are compared with a plain-Python model, again after reopening. Non-trivial: at least three ops "
        "changed the contents.")
ASSUMPTIONS = ["key parts hold no separator and no key's parts begin another key (see DESIGN.md)",
               "lmdb replaced by a pure-Python stand-in with its documented semantics"]
LEGS = []
W = vf.weighted
R = kv.RAISES

PARTS = ["a", "ab", "a-", "b", "EA", "zé", "0", "a b"]
KEYS = [("a", "b"), ("a", "ba"), ("ab",), ("a", "a"), ("a-", "b"), ("b", "a", "ab"), ("EA", "0"), ("zé",), ("b", "b")]
TOPS = [(), ("a",), ("a", ""), ("b",), ("b", "a"), ("a-",), ("z",), ("EA", "0"), ("a", "a", "0")]


# ------------------------------------------------------------------ kinds of values
def said(n):
    return kel.qdig(b"%d" % n)


class Text:
    pool = ["v", "w", "vv", "x" * 40, "é.ü", "0" * 32 + ".y"]
    kwa = dict()

    def raw(self, i, sep):
        return self.pool[i].encode()

    def give(self, i, form, sep):
        s = self.pool[i]
        return [s, s.encode(), memoryview(s.encode())][form % 3]

    def canon(self, o, sep):
        vf.check(isinstance(o, str), f"text read back as {o!r}")
        return o.encode()

    def bad(self, i):
        return None


class B64(Text):
    pool = [("v",), ("v", "w"), ("w",), ("a-_", "0", "Z"), ("v", "v"), ("0" * 32, "y")]

    def raw(self, i, sep):
        return sep.join(self.pool[i]).encode()

    def give(self, i, form, sep):
        t = self.pool[i]
        if form == 0 or len(t) > 1:
            return [t, list(t), tuple(x.encode() for x in t), t][form % 4]
        return [t, t[0], t[0].encode(), memoryview(t[0].encode())][form % 4]

    def canon(self, o, sep):
        vf.check(isinstance(o, tuple) and all(isinstance(x, str) for x in o), f"tuple of text read back as {o!r}")
        return sep.join(o).encode()

    def bad(self, i):
        return [("a", "b.c"), ("é",), ("a b",), ("a|",), ("v", "w\n"), ("=",)][i]


class Cesr(Text):
    pool = [said(i) for i in range(6)]

    @property
    def kwa(self):
        from keri.core import coring
        return dict(klas=coring.Diger)

    def raw(self, i, sep):
        return self.pool[i].encode()

    def give(self, i, form, sep):
        return self.kwa["klas"](qb64=self.pool[i])

    def canon(self, o, sep):
        vf.check(type(o) is self.kwa["klas"], f"{type(o)} read back")
        return o.qb64b

    def bad(self, i):
        return None


class Strict(Cesr):
    @property
    def kwa(self):
        from keri.core import coring
        return dict(klas=coring.Diger, strict=True)

    def bad(self, i):
        from keri.core import coring
        return [coring.Number(num=i), coring.Matter(qb64=said(i)), coring.Verfer(qb64=kel.qkey(i)), coring.Number(num=1 << 70),
                coring.Matter(qb64=said(i)), coring.Number(num=0)][i]


class Cat(Cesr):
    pool = [(n, said(d)) for n, d in ((0, 0), (0, 1), (1, 0), (2 ** 40, 1), (2 ** 63, 2), (7, 0))]

    @property
    def kwa(self):
        from keri.core import coring
        return dict(klas=(coring.Number, coring.Diger))

    def raw(self, i, sep):
        n, d = self.pool[i]
        return (kel.num(n) + d).encode()

    def give(self, i, form, sep):
        from keri.core import coring
        n, d = self.pool[i]
        t = (coring.Number(qb64=kel.num(n)), coring.Diger(qb64=d))
        return t if form % 2 else list(t)

    def canon(self, o, sep):
        vf.check(isinstance(o, tuple) and [type(x) for x in o] == list(self.kwa["klas"]), f"{o!r} read back")
        return b"".join(x.qb64b for x in o)


class StrictCat(Cat):
    @property
    def kwa(self):
        from keri.core import coring
        return dict(klas=(coring.Number, coring.Diger), strict=True)

    def bad(self, i):
        from keri.core import coring
        n, d = coring.Number(num=3), coring.Diger(qb64=said(3))
        return [(n,), (n, d, d), (d, n), (n, n), (d,), (n, coring.Matter(qb64=said(1)))][i]


class Serd(Cesr):
    @property
    def pool(self):
        if not hasattr(Serd, "_pool"):
            Serd._pool = [kel.build({"t": "icp", "d": "", "i": "", "s": "0", "kt": "1", "k": [kel.qkey(i)], "nt": "0", "n": [], "bt": "0",
                                     "b": [], "c": [], "a": []}, said=("d", "i"), kind="JSON" if i % 2 else "CBOR")[0] for i in range(6)]
        return Serd._pool

    @property
    def kwa(self):
        from keri.core import serdering
        return dict(klas=serdering.SerderKERI)

    def raw(self, i, sep):
        return self.pool[i]

    def give(self, i, form, sep):
        return self.kwa["klas"](raw=self.pool[i])

    def canon(self, o, sep):
        vf.check(type(o) is self.kwa["klas"], f"{type(o)} read back")
        return bytes(o.raw)


class Schema(Cesr):
    @property
    def pool(self):
        from keri.core import scheming
        if not hasattr(Schema, "_pool"):
            Schema._pool = [bytes(scheming.Schemer(sed={"$id": "", "$schema": "http://json-schema.org/draft-07/schema#",
                                                        "type": "object", "title": "é%d" % i}).raw) for i in range(6)]
        return Schema._pool

    @property
    def kwa(self):
        from keri.core import scheming
        return dict(klas=scheming.Schemer)

    def raw(self, i, sep):
        return self.pool[i]

    def give(self, i, form, sep):
        return self.kwa["klas"](raw=self.pool[i])

    def canon(self, o, sep):
        vf.check(type(o) is self.kwa["klas"], f"{type(o)} read back")
        return bytes(o.raw)


KINDS = dict(text=Text(), b64=B64(), cesr=Cesr(), strict=Strict(), cat=Cat(), strictcat=StrictCat(), serder=Serd(), schema=Schema())

# ------------------------------------------------------------------ families: class names, models, ops
CLASSES = dict(
    plain=[("Suber", "text"), ("B64Suber", "b64"), ("CesrSuber", "cesr"), ("CesrSuber", "strict"), ("CatCesrSuber", "cat"),
           ("CatCesrSuber", "strictcat"), ("SerderSuber", "serder"), ("SchemerSuber", "schema")],
    on=[("OnSuber", "text"), ("CesrOnSuber", "cesr"), ("CesrOnSuber", "strict")],
    ioset=[("IoSetSuber", "text"), ("B64IoSetSuber", "b64"), ("CesrIoSetSuber", "cesr"), ("CesrIoSetSuber", "strict"),
           ("CatCesrIoSetSuber", "cat"), ("CatCesrIoSetSuber", "strictcat"), ("SerderIoSetSuber", "serder")],
    dup=[("DupSuber", "text"), ("CesrDupSuber", "cesr"), ("CatCesrDupSuber", "cat"), ("CatCesrDupSuber", "strictcat")],
    iodup=[("IoDupSuber", "text"), ("B64IoDupSuber", "b64")],
    oniodup=[("OnIoDupSuber", "text"), ("B64OnIoDupSuber", "b64")],
    onioset=[("OnIoSetSuber", "text"), ("B64OnIoSetSuber", "b64")],
)
K, V, VS, O, I, T = "key", "val", "vals", "on", "ion", "top"
# op -> (weight, argument kinds, model call, wrapper call); results are compared as canonical data
ITEMS = lambda r: ("items", r)
COMMON = {
    "cntTop": (1, [T], lambda m, t: sum(1 for x in m.full() if x.startswith(t)), lambda s, t: s.cntTop(*t[0], **t[1])),
    "cntAll": (1, [], lambda m: len(m.full()), lambda s: s.cntAll()),
}
OPS = dict(
    plain={
        "put": (6, [K, V], lambda m, k, v: m.put(k, v), lambda s, k, v: s.put(k, v)),
        "pin": (4, [K, V], lambda m, k, v: m.set(k, v), lambda s, k, v: s.pin(k, v)),
        "get": (2, [K], lambda m, k: m.get(k), lambda s, k: s.get(k)),
        "rem": (3, [K], lambda m, k: m.rem(k), lambda s, k: s.rem(k)),
        "trim": (1, [T], lambda m, t: m.remtop(t), lambda s, t: s.trim(*t[0], **t[1])),
        "remTop": (1, [T], lambda m, t: m.remtop(t), lambda s, t: s.remTop(*t[0], **t[1])),
        "cnt": (1, [], lambda m: m.cnt(), lambda s: s.cnt()),
        "getTopItemIter": (2, [T], lambda m, t: m.top(t), lambda s, t: list(s.getTopItemIter(*t[0], **t[1]))),
        "getFullItemIter": (1, [T], lambda m, t: m.top(t), lambda s, t: list(s.getFullItemIter(*t[0], **t[1]))),
        **COMMON},
    on={
        "put": (6, [K, O, V], lambda m, k, o, v: m.put(k, o, v), lambda s, k, o, v: s.put(k, o, v)),
        "pin": (4, [K, O, V], lambda m, k, o, v: m.pin(k, o, v), lambda s, k, o, v: s.pin(k, on=o, val=v)),
        "append": (5, [K, V], lambda m, k, v: m.append(k, v), lambda s, k, v: kv.attempt(lambda: s.append(k, v), ValueError)),
        "getItem": (1, [K, O], lambda m, k, o: m.item(k, o), lambda s, k, o: s.getItem(k, o)),
        "get": (2, [K, O], lambda m, k, o: m.get(k, o), lambda s, k, o: s.get(k, o)),
        "rem": (2, [K, O], lambda m, k, o: m.rem(k, o), lambda s, k, o: s.rem(k, o)),
        "remAll": (1, [K, O], lambda m, k, o: m.remall(k, o), lambda s, k, o: s.remAll(k, o)),
        "cnt": (1, [K, O], lambda m, k, o: m.cntall(k, o), lambda s, k, o: s.cnt(k, o)),
        "cntAll": (1, ["kall", O], lambda m, k, o: m.cntall(k, o), lambda s, k, o: s.cntAll(k, o)),
        "getTopItemIter": (2, ["ptop"], lambda m, t: m.top(t), lambda s, t: list(s.getTopItemIter(*t[0]))),
        "getAllItemIter": (2, ["kall", O], lambda m, k, o: m.all(k, o), lambda s, k, o: list(s.getAllItemIter(k, o))),
        "getAllIter": (1, ["kall", O], lambda m, k, o: [x[2] for x in m.all(k, o)], lambda s, k, o: list(s.getAllIter(k, o))),
        "cntTop": COMMON["cntTop"]},
    ioset={
        "put": (4, [K, VS], lambda m, k, vs: m.put(k, vs), lambda s, k, vs: s.put(k, vs)),
        "pin": (2, [K, VS], lambda m, k, vs: m.pin(k, vs), lambda s, k, vs: s.pin(k, vs)),
        "add": (5, [K, V], lambda m, k, v: m.add(k, v), lambda s, k, v: s.add(k, v)),
        "getItem": (1, [K, I], lambda m, k, i: m.get(k, i), lambda s, k, i: s.getItem(k, ion=i)),
        "get": (2, [K, I], lambda m, k, i: [x[1] for x in m.get(k, i)], lambda s, k, i: s.get(k, ion=i)),
        "getItemIter": (1, [K, I], lambda m, k, i: m.get(k, i), lambda s, k, i: list(s.getItemIter(k, ion=i))),
        "getIter": (1, [K, I], lambda m, k, i: [x[1] for x in m.get(k, i)], lambda s, k, i: list(s.getIter(k, ion=i))),
        "getLastItem": (1, [K], lambda m, k: m.last(k), lambda s, k: s.getLastItem(k)),
        "getLast": (2, [K], lambda m, k: (m.last(k) or (0, None))[1], lambda s, k: s.getLast(k)),
        "rem": (1, [K], lambda m, k: m.rem(k), lambda s, k: s.rem(k)),
        "remval": (3, [K, V], lambda m, k, v: m.remval(k, v), lambda s, k, v: s.rem(k, v)),
        "cnt": (1, [K, I], lambda m, k, i: m.cnt(k, i), lambda s, k, i: s.cnt(k, ion=i)),
        "cntall": (1, [], lambda m: m.cntdb(), lambda s: s.cnt()),
        "trim": (1, [T], lambda m, t: m.trim(t), lambda s, t: s.trim(*t[0], **t[1])),
        "getTopItemIter": (2, [T], lambda m, t: m.top(t), lambda s, t: list(s.getTopItemIter(*t[0], **t[1]))),
        "getLastItemIter": (1, ["kall"], lambda m, k: m.lastall(k), lambda s, k: list(s.getLastItemIter(k))),
        "getLastIter": (1, ["kall"], lambda m, k: m.lastvals(k), lambda s, k: list(s.getLastIter(k))),
        **COMMON},
    dup={
        "put": (4, [K, VS], lambda m, k, vs: m.put(k, vs), lambda s, k, vs: s.put(k, vs)),
        "pin": (2, [K, VS], lambda m, k, vs: m.pin(k, vs), lambda s, k, vs: s.pin(k, vs)),
        "add": (4, [K, V], lambda m, k, v: m.add(k, v), lambda s, k, v: s.add(k, v)),
        "get": (2, [K], lambda m, k: m.get(k), lambda s, k: s.get(k)),
        "getIter": (1, [K], lambda m, k: m.iter(k), lambda s, k: list(s.getIter(k))),
        "getLast": (2, [K], lambda m, k: m.last(k), lambda s, k: s.getLast(k)),
        "cnt": (1, [K], lambda m, k: m.cnt(k), lambda s, k: s.cnt(k)),
        "cntall": (1, [], lambda m: m.cntdb(), lambda s: s.cnt()),
        "rem": (1, [K], lambda m, k: m.rem(k, b""), lambda s, k: s.rem(k)),
        "remval": (3, [K, V], lambda m, k, v: m.rem(k, v), lambda s, k, v: s.rem(k, v)),
        "trim": (1, [T], lambda m, t: m.trim(t), lambda s, t: s.trim(*t[0], **t[1])),
        "getTopItemIter": (2, [T], lambda m, t: [x for x in m.dump() if x[0].startswith(t)],
                           lambda s, t: list(s.getTopItemIter(*t[0], **t[1]))),
        **COMMON},
    iodup={
        "put": (4, [K, VS], lambda m, k, vs: m.put(k, vs), lambda s, k, vs: s.put(k, vs)),
        "pin": (2, [K, VS], lambda m, k, vs: m.pinall(k, vs), lambda s, k, vs: s.pin(k, vs)),
        "add": (4, [K, V], lambda m, k, v: m.add(k, v), lambda s, k, v: s.add(k, v)),
        "get": (2, [K], lambda m, k: m.get(k), lambda s, k: s.get(k)),
        "getItemIter": (1, [K, I], lambda m, k, i: m.items(k, i), lambda s, k, i: list(s.getItemIter(k, ion=i))),
        "getIter": (1, [K, I], lambda m, k, i: m.get(k, i), lambda s, k, i: list(s.getIter(k, ion=i))),
        "getLast": (2, [K], lambda m, k: m.last(k), lambda s, k: s.getLast(k)),
        "cnt": (1, [K], lambda m, k: m.cnt(k), lambda s, k: s.cnt(k)),
        "cntall": (1, [], lambda m: m.cntdb(), lambda s: s.cnt()),
        "rem": (1, [K], lambda m, k: m.rem(k), lambda s, k: s.rem(k)),
        "remval": (3, [K, V], lambda m, k, v: m.remval(k, v), lambda s, k, v: s.rem(k, v)),
        "trim": (1, [T], lambda m, t: m.trim(t), lambda s, t: s.trim(*t[0], **t[1])),
        "getTopItemIter": (2, [T], lambda m, t: m.top(t), lambda s, t: list(s.getTopItemIter(*t[0], **t[1]))),
        **COMMON},
    oniodup={
        "put": (4, [K, O, VS], lambda m, k, o, vs: m.put(k, o, vs), lambda s, k, o, vs: s.put(k, o, vs)),
        "pin": (2, [K, O, VS], lambda m, k, o, vs: m.pinall((k, o), vs), lambda s, k, o, vs: s.pin(k, o, vs)),
        "add": (4, [K, O, V], lambda m, k, o, v: m.add(k, o, v), lambda s, k, o, v: s.add(k, o, v)),
        "append": (4, [K, V], lambda m, k, v: m.append(k, v), lambda s, k, v: kv.attempt(lambda: s.append(k, v), ValueError)),
        "get": (2, [K, O], lambda m, k, o: m.get(k, o), lambda s, k, o: s.get(k, o)),
        "getItemIter": (1, [K, O, I], lambda m, k, o, i: m.items(k, o, i), lambda s, k, o, i: list(s.getItemIter(k, o, i))),
        "getIter": (1, [K, O, I], lambda m, k, o, i: [x[2] for x in m.items(k, o, i)], lambda s, k, o, i: list(s.getIter(k, o, i))),
        "getLast": (2, [K, O], lambda m, k, o: m.last(k, o), lambda s, k, o: s.getLast(k, o)),
        "rem": (1, [K, O], lambda m, k, o: m.rem(k, o), lambda s, k, o: s.rem(k, o)),
        "remval": (3, [K, O, V], lambda m, k, o, v: m.remval(k, o, v), lambda s, k, o, v: s.rem(k, o, v)),
        "cnt": (1, [K, O], lambda m, k, o: m.cnt(k, o), lambda s, k, o: s.cnt(k, o)),
        "cntall": (1, [], lambda m: m.cntdb(), lambda s: s.cnt()),
        "getTopItemIter": (2, ["ptop"], lambda m, t: m.top(t), lambda s, t: list(s.getTopItemIter(*t[0]))),
        "getAllItemIter": (1, ["kall", O], lambda m, k, o: m.all(k, o), lambda s, k, o: list(s.getAllItemIter(k, o))),
        "getAllIter": (1, ["kall", O], lambda m, k, o: m.allvals(k, o), lambda s, k, o: list(s.getAllIter(k, o))),
        "getLastIter": (1, ["kall", O], lambda m, k, o: m.lastvals(k, o), lambda s, k, o: list(s.getLastIter(k, o))),
        "getLastItemIter": (1, ["kall", O], lambda m, k, o: m.alllast(k, o), lambda s, k, o: list(s.getLastItemIter(k, o))),
        "getItemBackIter": (1, ["kall", O], lambda m, k, o: m.back(k, o), lambda s, k, o: list(s.getItemBackIter(k, o))),
        "getBackIter": (1, ["kall", O], lambda m, k, o: m.backvals(k, o), lambda s, k, o: list(s.getBackIter(k, o))),
        "cntTop": COMMON["cntTop"]},
    onioset={
        "put": (4, [K, O, VS], lambda m, k, o, vs: m.put(k, o, vs), lambda s, k, o, vs: s.put(k, o, vs)),
        "pin": (2, [K, O, VS], lambda m, k, o, vs: m.pin(k, o, vs), lambda s, k, o, vs: s.pin(k, o, vs)),
        "add": (4, [K, O, V], lambda m, k, o, v: m.add(k, o, v), lambda s, k, o, v: s.add(k, o, v)),
        "append": (4, [K, VS], lambda m, k, vs: m.append(k, vs), lambda s, k, vs: kv.attempt(lambda: s.append(k, vs), ValueError)),
        "getItem": (1, [K, O, I], lambda m, k, o, i: m.get(k, o, i), lambda s, k, o, i: s.getItem(k, o, i)),
        "get": (2, [K, O, I], lambda m, k, o, i: [x[2] for x in m.get(k, o, i)], lambda s, k, o, i: s.get(k, o, i)),
        "getItemIter": (1, [K, O, I], lambda m, k, o, i: m.get(k, o, i), lambda s, k, o, i: list(s.getItemIter(k, o, i))),
        "getIter": (1, [K, O, I], lambda m, k, o, i: [x[2] for x in m.get(k, o, i)], lambda s, k, o, i: list(s.getIter(k, o, i))),
        "getLastItem": (1, [K, O], lambda m, k, o: m.last(k, o), lambda s, k, o: s.getLastItem(k, o)),
        "getLast": (2, [K, O], lambda m, k, o: (m.last(k, o) or (0, 0, None))[2], lambda s, k, o: s.getLast(k, o)),
        "rem": (1, [K, O], lambda m, k, o: m.remval(k, o, None), lambda s, k, o: s.rem(k, o)),
        "remval": (3, [K, O, V], lambda m, k, o, v: m.remval(k, o, v), lambda s, k, o, v: s.rem(k, o, v)),
        "remAll": (1, [K, O], lambda m, k, o: m.remall(k, o), lambda s, k, o: s.remAll(k, o)),
        "cnt": (1, [K, O, I], lambda m, k, o, i: m.cnt(k, o, i), lambda s, k, o, i: s.cnt(k, o, i)),
        "cntall": (1, [], lambda m: m.cntdb(), lambda s: s.cnt()),
        "cntAll": (1, ["kall", O], lambda m, k, o: m.cntall(k, o), lambda s, k, o: s.cntAll(k, o)),
        "getTopItemIter": (2, ["ptop"], lambda m, t: m.top(t), lambda s, t: list(s.getTopItemIter(*t[0]))),
        "getAllItemIter": (1, ["kall", O], lambda m, k, o: m.all(k, o), lambda s, k, o: list(s.getAllItemIter(k, o))),
        "getAllIter": (1, ["kall", O], lambda m, k, o: [x[2] for x in m.all(k, o)], lambda s, k, o: list(s.getAllIter(k, o))),
        "getAllLastItemIter": (1, ["kall", O], lambda m, k, o: m.alllast(k, o), lambda s, k, o: list(s.getAllLastItemIter(k, o))),
        "getAllLastIter": (1, ["kall", O], lambda m, k, o: [x[2] for x in m.alllast(k, o)], lambda s, k, o: list(s.getAllLastIter(k, o))),
        "getAllItemBackIter": (1, ["kall", O], lambda m, k, o: m.back(k, o), lambda s, k, o: list(s.getAllItemBackIter(k, o))),
        "getAllBackIter": (1, ["kall", O], lambda m, k, o: [x[2] for x in m.back(k, o)], lambda s, k, o: list(s.getAllBackIter(k, o))),
        "getAllLastItemBackIter": (1, ["kall", O], lambda m, k, o: m.lastback(k, o), lambda s, k, o: list(s.getAllLastItemBackIter(k, o))),
        "getAllLastBackIter": (1, ["kall", O], lambda m, k, o: [x[2] for x in m.lastback(k, o)], lambda s, k, o: list(s.getAllLastBackIter(k, o))),
        "cntTop": COMMON["cntTop"]},
)
DUMP = dict(plain="getTopItemIter", on="getAllItemIter", ioset="getTopItemIter", dup="getTopItemIter", iodup="getTopItemIter",
            oniodup="getAllItemIter", onioset="getAllItemIter")
CHANGES = {"put", "pin", "add", "append", "rem", "remval", "remAll", "trim", "remTop"}


# models with the full stored keys, which the inherited branch counts and removals see
class Full:
    def trim(self, t):
        hit = [x for x in self.entries() if x[0].startswith(t)]
        for _, k, v in hit:
            self.drop(k, v)
        return bool(hit)

    def full(self):
        return [x[0] for x in self.entries()]


class Plain(Full, kv.Plain):
    def entries(self):
        return [(k, k, v) for k, v in self.m.items()]


class On(Full, kv.On):
    def entries(self):
        return [(kv.onkey(k, o, self.sep), k, v) for (k, o), v in self.m.items()]


class IoSet(Full, kv.IoSet):
    def entries(self):
        return [(kv.onkey(k, i, self.sep), k, v) for k, l in self.m.items() for i, v in l]

    def drop(self, k, v):
        self.remval(k, v)


class Dup(Full, kv.Dup):
    def entries(self):
        return [(k, k, v) for k, v in self.dump()]

    def drop(self, k, v):
        self.rem(k, v)

    def pin(self, k, vals):
        self.m.pop(k, None)
        return self.put(k, vals)


class IoDup(Full, kv.IoDup):
    def entries(self):
        return [(k, k, v) for k, l in self.m.items() for i, v in l]

    def drop(self, k, v):
        self.remval(k, v)

    def pinall(self, k, vals):
        self.m.pop(k, None)
        self._add(k, vals)
        return kv.ANY


class OnIoDup(Full, kv.OnIoDup):
    pinall = IoDup.pinall

    def entries(self):
        return [(kv.onkey(k, o, self.sep), (k, o), v) for (k, o), l in self.m.items() for i, v in l]


class OnIoSet(Full, kv.OnIoSet):
    def entries(self):
        return [(kv.onkey(kv.onkey(k, o, self.sep), i, self.sep), (k, o), v) for (k, o), l in self.m.items() for i, v in l]


MODELS = dict(plain=Plain, on=On, ioset=IoSet, dup=Dup, iodup=IoDup, oniodup=OnIoDup, onioset=OnIoSet)
val = W((3, st.integers(0, 2)), (2, st.integers(0, 5)))
FORM = st.integers(0, 5)
ARGS = {K: st.tuples(W((2, st.integers(0, 2)), (1, st.integers(0, len(KEYS) - 1))), FORM), "kall": st.tuples(st.integers(-1, len(KEYS) - 1), FORM),
        V: st.tuples(val, FORM), VS: st.tuples(st.lists(val, max_size=4, unique=True), FORM), O: kv.on, I: kv.ion,
        T: st.tuples(st.integers(0, len(TOPS) - 1), FORM), "ptop": st.tuples(st.integers(0, len(TOPS) - 1), FORM)}


def ops(family, table=OPS):
    table = table[family]
    some = [(w, st.tuples(st.just(name), *[ARGS[a] for a in args])) for name, (w, args, _, _) in table.items()]
    some.append((2, st.tuples(st.just("bad"), ARGS[K], st.integers(0, 5))))
    some.append((1, st.tuples(st.just("nokey"), FORM)))
    return W(*some)


def form(key, f, sep):
    """A key in one of its accepted forms."""
    whole = sep.join(key)
    return [tuple(key), list(key), whole, whole.encode(), memoryview(whole.encode()), tuple(x.encode() for x in key)][f]


def topform(key, f, sep):
    """Arguments of a branch call, and the prefix it names."""
    if f == 0 and key and key[-1]:
        return ([tuple(key)], dict(topive=True)), sep.join(key + ("",)).encode()
    if not key and f > 2:
        return ([], {}), b""
    return ([form(key, f, sep)], {}), sep.join(key).encode()


def result(r, kd, sep):
    """Canonical data of what a wrapper returned: stored bytes for values, joined bytes for keys."""
    def value(o):
        return None if o is None else kd.canon(o, sep)

    def item(t):
        vf.check(isinstance(t, tuple) and isinstance(t[0], tuple), f"item {t!r}")
        return (sep.join(t[0]).encode(),) + tuple(t[1:-1]) + (value(t[-1]),)

    def any_(o):
        if o is None or isinstance(o, (bool, int)) or o == () or isinstance(o, str) and o == R:
            return o
        if isinstance(o, list):
            return [any_(x) for x in o]
        if isinstance(o, tuple) and o and isinstance(o[0], tuple):
            return item(o)
        return value(o)
    return any_(r)


def refuse(fn):
    from keri.kering import KeriError
    try:
        return fn()
    except (KeriError, ValueError, TypeError, KeyError, AttributeError):
        return R


def drive(c):
    from keri.db import subing
    family, (cname, kind), sep, seq = c
    return follow(family, getattr(subing, cname), KINDS[kind], sep, seq)


def follow(family, cls, kd, sep, seq, table=OPS):
    """Run ops on the wrapper and on the model."""
    from keri.db.dbing import LMDBer
    cname = cls.__name__
    tmp = tempfile.mkdtemp()
    try:
        db = LMDBer(name="t", headDirPath=tmp, reopen=True)
        both = [cls(db=db, subkey=k, **({} if sep == "." else dict(sep=sep)), **kd.kwa) for k in ("x.", "y.")]
        models = [MODELS[family](sep.encode()) for _ in both]
        changed = 0
        for n, (which, o) in enumerate(seq):
            s, m, name = both[which], models[which], o[0]
            where = f"step {n} {cname}.{o!r}: "
            if name == "bad":
                b = kd.bad(o[2])
                if b is None:
                    continue
                k = form(KEYS[o[1][0]], o[1][1], sep)
                call = {"plain": lambda: s.put(k, b), "on": lambda: s.put(k, 0, b), "dup": lambda: s.put(k, [kd.give(0, 0, sep), b]),
                        "ioset": lambda: s.put(k, [kd.give(0, 0, sep), b]), "iodup": lambda: s.add(k, b),
                        "oniodup": lambda: s.append(k, b), "onioset": lambda: s.add(k, 0, b)}[family]
                vf.check(refuse(call) == R, f"{where}{b!r} was taken")
            elif name == "nokey":
                k = ["", (), b"", "", (), ""][o[1]]
                # an empty key names nothing: writes are refused one way or another
                call = (lambda: s.put(k, kd.give(0, 0, sep))) if family == "plain" else (lambda: s.put(k, [kd.give(0, 0, sep)])) \
                    if family in ("ioset", "dup", "iodup") else (lambda: s.append(k, kd.give(0, 0, sep)))
                r = refuse(call)
                vf.check(r in (R, False), f"{where}put at an empty key answered {r!r}")
            else:
                _, kinds, want, got = table[family][name]
                margs, gargs = [], []
                for a, x in zip(kinds, o[1:]):
                    if a in (K, "kall"):
                        key = KEYS[x[0]] if x[0] >= 0 else ()
                        margs.append(sep.join(key).encode())
                        gargs.append(form(key, x[1], sep))
                    elif a == V:
                        margs.append(kd.raw(x[0], sep))
                        gargs.append(kd.give(x[0], x[1], sep))
                    elif a == VS:
                        margs.append([kd.raw(v, sep) for v in x[0]])
                        gs = [kd.give(v, x[1], sep) for v in x[0]]
                        gargs.append(tuple(gs) if x[1] % 2 else iter(gs) if x[1] == 4 and name != "pin" else gs)
                    elif a in (T, "ptop"):
                        g, p = topform(TOPS[x[0]], x[1] if a == T else x[1] or 1, sep)
                        margs.append(p)
                        gargs.append(g)
                    else:
                        margs.append(x)
                        gargs.append(x)
                w = kv.norm(want(m, *margs))
                g = result(got(s, *gargs), kd, sep)
                if isinstance(w, kv._Any):
                    vf.check(isinstance(g, bool), f"{where}answered {g!r}")
                else:
                    vf.check(g == w and isinstance(g, bool) == isinstance(w, bool), f"{where}got {vf.short(g)} want {vf.short(w)}")
                changed += name in CHANGES and (w is True or type(w) is int or isinstance(w, kv._Any))
            for s, m in zip(both, models):
                g = result(list(getattr(s, DUMP[family])()), kd, sep)
                vf.check(g == kv.norm(m.dump()), f"after {where}contents {vf.short(g)} want {vf.short(kv.norm(m.dump()))}")
        db.close()
        db = LMDBer(name="t", headDirPath=tmp, reopen=True)
        for k, m in zip(("x.", "y."), models):
            s = cls(db=db, subkey=k, **({} if sep == "." else dict(sep=sep)), **kd.kwa)
            g = result(list(getattr(s, DUMP[family])()), kd, sep)
            vf.check(g == kv.norm(m.dump()), f"reopened: contents {vf.short(g)} want {vf.short(kv.norm(m.dump()))}")
        db.close()
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    if changed >= 3:
        return [cname, "sep" if sep != "." else "dot"]


def _mk(family, quick):
    seps = st.sampled_from([".", ".", "|"]) if family not in ("iodup", "dup") else st.sampled_from([".", "|"])
    LEGS.append(vf.Leg(family, st.tuples(st.just(family), st.sampled_from(CLASSES[family]), seps,
                                         kv.seqs(st.tuples(st.sampled_from([0, 0, 0, 1]), ops(family)), 30)),
                       drive, quick, quick * 40, dd=True))


for _f, _q in (("plain", 700), ("on", 500), ("ioset", 700), ("dup", 400), ("iodup", 400), ("oniodup", 500), ("onioset", 600)):
    _mk(_f, _q)


# ------------------------------------------------------------------ signing keys, plain and encrypted at rest
SEEDS = st.integers(0, 4)
AEID = st.sampled_from([None, 0, 1])
sops = W((5, st.tuples(st.sampled_from(["put", "pin"]), SEEDS, st.booleans(), AEID)), (2, st.tuples(st.just("get"), SEEDS, st.booleans(), AEID)),
         (1, st.tuples(st.just("rem"), SEEDS, st.booleans(), st.none())), (1, st.tuples(st.just("iter"), SEEDS, st.booleans(), AEID)))


@vf.leg(LEGS, st.tuples(st.sampled_from(["SignerSuber", "CryptSignerSuber"]), kv.seqs(sops, 24)), quick=250, dd=True)
def signers(c):
    from keri.core import signing
    from keri.db import subing
    from keri.db.dbing import LMDBer
    cname, seq = c
    crypt = cname[0] == "C"
    tmp = tempfile.mkdtemp()
    model, changed = {}, 0
    ce = [(signing.Encrypter(verkey=kel.qkey(50 + i, False)), signing.Decrypter(seed=kel.seed(50 + i))) for i in range(2)]
    try:
        db = LMDBer(name="t", headDirPath=tmp, reopen=True)
        s = getattr(subing, cname)(db=db, subkey="pris.")
        for op, i, trans, who in seq:
            key = kel.qkey(i, trans)
            who = who if crypt else None
            if op in ("put", "pin"):
                sgn = signing.Signer(qb64=kel.seed(i), transferable=trans)
                vf.check(sgn.verfer.qb64 == key, "harness key")
                kw = {} if who is None else dict(encrypter=ce[who][0])
                new = op == "pin" or key not in model
                r = (s.put if op == "put" else s.pin)(key if i % 2 else key.encode(), sgn, **kw)
                vf.check(r is new, f"{op} answered {r!r}")
                if new:
                    model[key] = (i, trans, who)
                    changed += 1
                    raw = bytes(db.getVal(db=s.sdb, key=key.encode()))
                    if who is not None:
                        vf.check(sgn.raw not in raw and sgn.qb64b not in raw and kel.seed(i)[4:].encode() not in raw,
                                 "secret stored in the clear")
            elif op == "rem":
                vf.check(s.rem(key) is (key in model), "rem")
                model.pop(key, None)
            items = {key: s.get(key, **({} if model.get(key, (0, 0, None))[2] is None else dict(decrypter=ce[model[key][2]][1])))}
            if op == "iter":
                # read back all of one protection; others are not readable with it
                if len({m[2] for m in model.values()}) > 1:
                    continue
                w = next(iter(model.values()))[2] if model else None
                it = list(s.getTopItemIter(**({} if w is None else dict(decrypter=ce[w][1]))))
                vf.check([k for k, _ in it] == [(k,) for k in sorted(model)], f"iterated {[k for k, _ in it]}")
                items = {k[0]: v for k, v in it}
            for k, v in items.items():
                if k not in model:
                    vf.check(v is None, f"absent key read as {v!r}")
                    continue
                n, tr, _ = model[k]
                vf.check(type(v) is signing.Signer and v.qb64 == kel.seed(n) and v.verfer.qb64 == k, "signer read back differs")
                vf.check(v.verfer.verify(v.sign(b"x").raw, b"x"), "signer read back does not sign for its key")
            if op == "get" and key in model and model[key][2] is not None and who != model[key][2]:
                # the wrong key, or none, does not yield the signer
                try:
                    v = s.get(key, **({} if who is None else dict(decrypter=ce[who][1])))
                except Exception as ex:
                    if isinstance(ex, (AttributeError, TypeError)):
                        raise
                else:
                    vf.check(v.qb64 != kel.seed(model[key][0]), "read back without its key")
        db.close()
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    if changed >= 2:
        return [cname]
