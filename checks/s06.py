"""S06: every named store of a database is its own, and all of them survive reopening."""
import os
import shutil
import tempfile
from hypothesis import strategies as st
import vf

RULE = ("for each database class, writes, replacements and removals through the raw store under any of its named stores of "
        "entries with equal keys, in one or two databases of different names in one directory, with reopenings in between; every "
        "named store of each database is then compared with a plain-Python model. Non-trivial: at least three named stores "
        "written and the database reopened.")
ASSUMPTIONS = ["lmdb replaced by a pure-Python stand-in with its documented semantics"]
LEGS = []
DBS = [("keri.db.basing", "Baser"), ("keri.app.keeping", "Keeper"), ("keri.vdr.eventing", "Reger"), ("keri.app.notifying", "Noter"),
       ("keri.app.storing", "Mailboxer"), ("keri.acdc.regbasing", "RegBaser")]


SHARED = {("Baser", "kramTSGS"): "tsgs"}  # known to be one store: see known_findings.txt


def stores(db):
    from keri.db import subing, koming
    out = {}

    def walk(o, name, depth):
        for a, v in sorted(vars(o).items()):
            if isinstance(v, (subing.SuberBase, koming.KomerBase)):
                if getattr(v, "db", None) is db:
                    out.setdefault(name + a, v)
            elif depth and type(v).__module__.startswith("keri.db.escrowing"):
                walk(v, name + a + "/", depth - 1)
    walk(db, "", 1)
    return out


def dupsort(s):
    from keri.db import subing, koming
    return isinstance(s, (subing.DupSuber, koming.DupKomer))


op = st.tuples(st.integers(0, 1), vf.weighted((3, st.integers(0, 200)), (2, st.integers(0, 8))),
               vf.weighted((6, st.just("set")), (1, st.just("rem")), (2, st.just("reopen"))),
               st.integers(0, 2), st.integers(0, 3))


def _mk(mod, name):
    @vf.leg(LEGS, st.lists(op, min_size=1, max_size=40) | st.lists(op, min_size=12, max_size=40), quick=60 if name in ("Baser", "Reger") else 30, dd=True)
    def named(c):
        import importlib
        cls = getattr(importlib.import_module(mod), name)
        tmp = tempfile.mkdtemp()
        try:
            new = lambda n: cls(name=n, headDirPath=tmp, reopen=True)
            dbs = [new("one"), new("two")]
            names = sorted(n for n in stores(dbs[0]) if (name, n) not in SHARED)
            vf.check(len(names) > 0, "no named stores")
            models = [{n: {} for n in names} for _ in dbs]
            touched, again = set(), False

            def compare(where):
                for i, db in enumerate(dbs):
                    subs = stores(db)
                    vf.check(sorted(n for n in subs if (name, n) not in SHARED) == names, f"{where}: named stores differ after reopening")
                    for n in names:
                        s = subs[n]
                        got = sorted((bytes(k), bytes(v)) for k, v in db.getTopItemIter(s.sdb))
                        want = sorted((k, v) for k, vs in models[i][n].items() for v in vs)
                        vf.check(got == want, f"{where}: {name} {n} holds {got} want {want}")
            for step, (i, j, what, k, v) in enumerate(c):
                n = names[j % len(names)]
                if n == "habs":  # read on opening, so it must hold records
                    continue
                db, m = dbs[i], models[i][n]
                s = stores(db)[n]
                k, v = b"key%d" % k, b"value%d" % v
                if what == "reopen":
                    db.close()
                    db.reopen()
                    again = True
                elif what == "rem":
                    (db.delVals if dupsort(s) else db.remVal)(s.sdb, k)
                    m.pop(k, None)
                elif dupsort(s):
                    db.addVal(s.sdb, k, v)
                    m.setdefault(k, set()).add(v)
                    touched.add(n)
                else:
                    db.setVal(s.sdb, k, v)
                    m[k] = {v}
                    touched.add(n)
                if what != "set" or step == len(c) - 1:
                    compare(f"step {step}")
            for db in dbs:
                db.close()
            dbs = [new("one"), new("two")]
            compare("opened anew")
            for db in dbs:
                db.close()
        finally:
            shutil.rmtree(tmp, ignore_errors=True)
        if len(touched) >= min(3, len(names)) and again:
            return [name]

    LEGS[-1].name = name

    # every store once, so that no two are the same one
    @vf.leg(LEGS, cases=[name])
    def apart(_):
        import importlib
        cls = getattr(importlib.import_module(mod), name)
        tmp = tempfile.mkdtemp()
        try:
            db = cls(name="one", headDirPath=tmp, reopen=True)
            subs = stores(db)
            for n, s in sorted(subs.items()):
                (db.addVal if dupsort(s) else db.setVal)(s.sdb, b"key", n.encode())
            known = []
            for n, s in sorted(subs.items()):
                got = [bytes(v).decode() for k, v in db.getTopItemIter(s.sdb)]
                if got != [n] and (name, n) in set(SHARED) | {(a, c) for (a, b), c in SHARED.items()} and \
                        set(got) <= {n, SHARED.get((name, n))} | {b for (a, b), c in SHARED.items() if c == n}:
                    known.append(vf.finding("S06", f"{name}.{min(got + [n])}-{max(got + [n])}", f"{name} {n} holds what was written to {got}"))
                    continue
                same = [x for x in got if x != n and subs[x] is s]
                vf.check([x for x in got if x not in same] == [n] or same, f"{name} {n} holds what was written to {got}")
            db.close()
        finally:
            shutil.rmtree(tmp, ignore_errors=True)
        return [name] + known

    LEGS[-1].name = f"apart_{name}"


for _m, _n in DBS:
    _mk(_m, _n)
