"""S01: the browser store behaves like an ordered map of sets (model check)."""
import asyncio
from hypothesis import strategies as st
import vf
from . import kvmodel as kv

RULE = ("op sequences over one or two named sub-stores of one family (plain, ordinal, insertion-ordered set, ordinal "
        "set), keys that are prefixes of one another, ordinals up to the 128-bit maximum, two separators; every op's "
        "result and the full contents are compared with a plain-Python model. Non-trivial: at least three ops changed "
        "the contents and at least one of them removed or replaced something.")
ASSUMPTIONS = ["no key in a sub-store equals another key followed by the separator (see DESIGN.md)"]
LEGS = []


class Handle(dict):
    def __init__(self, backend, ns):
        super().__init__(backend.data.get(ns, {}))
        self.backend, self.ns = backend, ns

    async def sync(self):
        self.backend.data[self.ns] = dict(self)


class Backend:
    def __init__(self):
        self.data = {}

    async def open(self, ns):
        return Handle(self, ns)


def opendb(backend, stores=("x.", "y."), clear=False):
    from keri.db.webdbing import WebDBer
    return asyncio.run(WebDBer.open("t", list(stores), clear=clear, storageOpener=backend.open))


def case(family):
    return st.tuples(st.just(family), st.sampled_from(kv.SEPS),
                     kv.seqs(st.tuples(st.sampled_from([0, 0, 0, 1]), kv.OPS[family] if family not in kv.WIPE else
                                       vf.weighted((40, kv.OPS[family]), (1, st.just(kv.WIPE[family]))))))


def drive(case, opener):
    family, sep, seq = case
    db, subs = opener()
    models = [kv.FAMILIES[family][0](sep) for _ in subs]
    changed = removed = 0
    for i, (which, o) in enumerate(seq):
        r = kv.apply(family, db, subs[which], sep, models[which], o, f"step {i}: ")
        if o[0] in kv.MUTATORS and (r is True or (type(r) is int) or isinstance(r, kv._Any)):
            changed += 1
            removed += o[0].startswith(("rem", "pin", "set"))
        for s, m in zip(subs, models):
            kv.compare_dump(family, db, s, sep, m, f"after step {i} {o!r}: ")
    if changed >= 3 and removed:
        return [family, "len>15" if len(seq) > 15 else "short"]


def webopen():
    db = opendb(Backend())
    return db, [db.env.open_db(b"x."), db.env.open_db("y.")]


def _mk(family):
    @vf.leg(LEGS, case(family), quick=2500, thorough=100000, dd=True)
    def model(c):
        return drive(c, webopen)
    LEGS[-1].name = f"model_{family}"


for _f in ("plain", "on", "ioset", "onioset"):
    _mk(_f)
