"""S07: a crash inside one store operation leaves the store as before it or as after it."""
import copy
import shutil
import tempfile
from hypothesis import strategies as st
import lmdb
import vf
from . import kvmodel as kv, s04, s05

RULE = ("one changing operation of one wrapper class (every text, primitive, message, schema and record wrapper class, every "
        "family: plain, ordinal, set, ordinal set, duplicates, ordered duplicates, ordinal ordered duplicates) on a store "
        "filled by generated earlier operations, with the process ending at a generated write of that operation; the reopened "
        "contents must equal the model before it or after it, its neighbour sub-db is untouched, and doing the operation "
        "again gives what it gives without a crash. Non-trivial: the operation was cut short and would change the contents.")
ASSUMPTIONS = ["lmdb replaced by a pure-Python stand-in that makes each write transaction take effect wholly or not at all",
               "key parts hold no separator and no key's parts begin another key (see DESIGN.md)"]
LEGS = []


def args(kd, sep, kinds, given, name):
    m, g = [], []
    for a, x in zip(kinds, given):
        if a in ("key", "kall"):
            key = s04.KEYS[x[0]] if x[0] >= 0 else ()
            m.append(sep.join(key).encode())
            g.append(s04.form(key, x[1], sep))
        elif a == "val":
            m.append(kd.raw(x[0], sep))
            g.append(kd.give(x[0], x[1], sep))
        elif a == "vals":
            m.append([kd.raw(v, sep) for v in x[0]])
            g.append([kd.give(v, x[1], sep) for v in x[0]])
        elif a in ("top", "ptop"):
            w, p = s04.topform(s04.TOPS[x[0]], x[1] if a == "top" else x[1] or 1, sep)
            m.append(p)
            g.append(w)
        else:
            m.append(x)
            g.append(x)
    return m, g


def drive(c):
    from keri.db import subing
    family, (cname, kind), sep, seq, last, at = c
    return act(family, getattr(subing, cname), s04.KINDS[kind], sep, seq, last, at)


def act(family, cls, kd, sep, seq, last, at, table=s04.OPS):
    from keri.db.dbing import LMDBer
    cname = cls.__name__
    tmp = tempfile.mkdtemp()
    kw = {} if sep == "." else dict(sep=sep)

    def opened():
        db = LMDBer(name="t", headDirPath=tmp, reopen=True)
        return db, [cls(db=db, subkey=k, **kw, **kd.kwa) for k in ("x.", "y.")]

    def contents(s):
        return s04.result(list(getattr(s, s04.DUMP[family])()), kd, sep)

    try:
        db, both = opened()
        models = [s04.MODELS[family](sep.encode()) for _ in both]
        for which, o in seq:
            _, kinds, want, got = table[family][o[0]]
            m, g = args(kd, sep, kinds, o[1:], o[0])
            want(models[which], *m)
            got(both[which], *g)
        s, other = both
        before, beside = models
        _, kinds, want, got = table[family][last[0]]
        m, g = args(kd, sep, kinds, last[1:], last[0])
        after = copy.deepcopy(before)
        want(after, *m)
        lmdb._vf_fault(at)
        try:
            got(s, *g)
            cut = False
        except lmdb._VfCrash:
            cut = True
        finally:
            lmdb._vf_fault(None)
        db.close()
        db, (s, other) = opened()
        have, b, a = contents(s), kv.norm(before.dump()), kv.norm(after.dump())
        where = f"{cname}.{last!r} {'cut at write %d' % at if cut else 'finished'}: "
        vf.check(have == a or cut and have == b, f"{where}contents {vf.short(have)} are neither {vf.short(b)} nor {vf.short(a)}"
                 if cut else f"{where}contents {vf.short(have)} want {vf.short(a)}")
        vf.check(contents(other) == kv.norm(beside.dump()), f"{where}the neighbour sub-db changed")
        if cut:
            # doing it again gives what it gives on a store in that state
            again = copy.deepcopy(before if have == b else after)
            want(again, *m)
            got(s, *args(kd, sep, kinds, last[1:], last[0])[1])
            vf.check(contents(s) == kv.norm(again.dump()), f"{where}doing it again left {vf.short(contents(s))}")
        db.close()
    finally:
        lmdb._vf_fault(None)
        shutil.rmtree(tmp, ignore_errors=True)
    if cut and a != b:
        return [cname, last[0]]


def changing(family, table=s04.OPS):
    table = table[family]
    return vf.weighted(*[(w, st.tuples(st.just(n), *[s04.ARGS[a] for a in kinds]))
                         for n, (w, kinds, _, _) in table.items() if n in s04.CHANGES])


def _mk(family, quick):
    op = changing(family)
    seps = st.sampled_from([".", ".", "|"])
    LEGS.append(vf.Leg(family, st.tuples(st.just(family), st.sampled_from(s04.CLASSES[family]), seps,
                                         st.lists(st.tuples(st.sampled_from([0, 0, 0, 1]), op), max_size=14), op,
                                         st.sampled_from([0, 0, 0, 1, 1, 2])),
                       drive, quick, quick * 40, dd=True))


for _f, _q in (("plain", 200), ("on", 200), ("ioset", 500), ("dup", 400), ("iodup", 400), ("oniodup", 400), ("onioset", 500)):
    _mk(_f, _q)


@st.composite
def recorded(draw):
    family = draw(st.sampled_from(["plain", "ioset", "ioset", "dup", "dup"]))
    op = RECORDS[family]
    return (family, draw(st.integers(0, len(s05.CLASSES) - 1)), draw(st.sampled_from(["JSON", "CBOR", "MGPK"])),
            draw(st.lists(st.lists(s05.seed, min_size=1, max_size=4), min_size=6, max_size=6)),
            draw(st.lists(st.tuples(st.sampled_from([0, 0, 0, 1]), op), max_size=8)), draw(op), draw(st.sampled_from([0, 0, 0, 1, 1, 2])))


RECORDS = {f: changing(f, s05.TABLE) for f in s05.KLAS}


@vf.leg(LEGS, recorded(), quick=300, thorough=12000)
def records(c):
    from keri.db import koming
    family, n, kind, specs, seq, last, at = c
    klas = s05.load(s05.CLASSES[n])
    if klas is None:
        return
    kd = s05.Rec(klas, kind, specs, None)
    if family == "dup" and any(len(kd.raw(i, ".")) > 511 for i in range(6)):
        return  # the limit of a duplicate value
    return act(family, getattr(koming, s05.KLAS[family]), kd, ".", seq, last, at, s05.TABLE)
