"""S03: the LMDB store behaves like ordered maps of values, sets and duplicates."""
import os
import shutil
import tempfile
from hypothesis import strategies as st
import vf
from . import kvmodel as kv

RULE = ("op sequences over two named sub-dbs of one family (plain, ordinal, insertion-ordered set, ordinal set, native "
        "duplicates, insertion-ordered duplicates, ordinal duplicates), keys that are prefixes of one another, ordinals "
        "up to the 128-bit maximum, two separators; every op's result and the full contents are compared with a "
        "plain-Python model, then the database is reopened and compared again. Non-trivial: at least three ops changed the "
        "contents and at least one removed or replaced something.")
ASSUMPTIONS = ["the lmdb C library is replaced by a pure-Python stand-in with its documented semantics (not installed here)",
               "no key in a sub-db equals another key followed by the separator (see DESIGN.md)",
               "one call to a duplicate family's put passes distinct values (repeats are kept, as repository tests pin)"]
LEGS = []
DUPS = {"dup", "iodup", "oniodup"}


def drive(c):
    from keri.db.dbing import LMDBer
    family, sep, seq = c
    if family in DUPS - {"oniodup"}:
        sep = b"."
    tmp = tempfile.mkdtemp()
    try:
        db = LMDBer(name="t", headDirPath=tmp, reopen=True)
        subs = [db.env.open_db(k, dupsort=family in DUPS) for k in (b"x.", b"y.")]
        models = [kv.FAMILIES[family][0](sep) for _ in subs]
        changed = removed = 0
        for i, (which, o) in enumerate(seq):
            r = kv.apply(family, db, subs[which], sep, models[which], o, f"step {i}: ")
            if o[0] in kv.MUTATORS and (r is True or type(r) is int or isinstance(r, kv._Any)):
                changed += 1
                removed += o[0].startswith(("rem", "pin", "set"))
            for s, m in zip(subs, models):
                kv.compare_dump(family, db, s, sep, m, f"after step {i} {o!r}: ")
        db.close()
        db = LMDBer(name="t", headDirPath=tmp, reopen=True)
        for k, m in zip((b"x.", b"y."), models):
            kv.compare_dump(family, db, db.env.open_db(k, dupsort=family in DUPS), sep, m, "after reopen: ")
        db.close()
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    if changed >= 3 and removed:
        return [family, "len>15" if len(seq) > 15 else "short"]


def _mk(family):
    from .s01 import case
    LEGS.append(vf.Leg(f"model_{family}", case(family), drive, 1000, 40000, dd=True))


for _f in kv.FAMILIES:
    _mk(_f)
