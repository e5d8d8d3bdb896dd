"""S08: cleaning a database drops what does not verify and what waits, and keeps everything else."""
import io
import os
from hypothesis import strategies as st
import vf
from . import env, kel, e09

RULE = ("databases filled by own identifiers, others' logs with recoveries, witnesses, delegations and receipts, events still waiting, locations and "
        "endpoints, peer messages, contacts with pictures, and records of every other kind; then one event of one log is tampered with (its signatures "
        "swapped or taken away, witness signatures taken away, the event or its signatures missing, an unsigned event added) or none; then it is cleaned. "
        "Non-trivial: cases with something tampered with, or something of every broad kind kept.")
ASSUMPTIONS = ["Ed25519 and BLAKE3 stand-ins compute the published algorithms"]
LEGS = []
# records which are of events of logs, keyed by identifier and event
EVENTS = ["evts", "dtss", "sigs", "wigs", "rcts", "vrcs", "aess", "fons", "esrs", "wits"]
SETS = {"sigs", "wigs", "rcts", "vrcs", "wits"}
LOGS = ["fels", "kels"]
# what waits
WAIT = ["ures", "vres", "pses", "pwes", "pdes", "udes", "uwes", "ooes", "dels", "ldes", "qnfs", "misfits", "delegables", "rpes", "gpse", "gdee", "gpwe",
        "epse", "epsd", "eoobi", "coobi", "dpwe", "dune", "dpub"]
OTHER = ["oobis", "roobi", "woobi", "moobi", "mfa", "rmfa", "tops", "cgms", "cdel", "meids", "maids", "chas", "reps", "wkas", "cfld", "ifld", "cons", "sids",
         "hbys", "knas", "kdts", "ksns", "obvs", "wwas", "ccigs", "icigs", "migs", "erpy", "kramCTYP", "kramMSGC", "kramTMSC", "kramPMKM", "kramPMKS", "kramPMSK", "imgs", "iimgs",
         "ecigs", "epath", "enst", "essrs", "schema"]
HOW = ["swap", "gone", "wigs", "event", "add"]
OPS = vf.weighted((2, st.tuples(st.just("own"), st.integers(0, 2), st.integers(0, 2))), (2, st.tuples(st.just("loc"), st.integers(0, 3), st.integers(0, 3))),
                  (2, st.tuples(st.just("end"), st.integers(0, 3), st.integers(0, 3))), (2, st.tuples(st.just("contact"), st.integers(0, 2), st.integers(0, 9000))),
                  (2, st.tuples(st.just("exn"), st.integers(0, 1), st.integers(0, 3))), (4, st.tuples(st.sampled_from(OTHER), st.integers(0, 3), st.integers(0, 3))))
CASE = st.fixed_dictionaries(dict(v=st.sampled_from([1, 1, 2]), scene=e09.scenes(), ops=st.lists(OPS, min_size=3, max_size=16), own=st.lists(st.integers(1, 3), max_size=2),
                                  bad=vf.weighted((1, st.none()), (3, st.tuples(st.integers(0, 9), st.integers(0, 12), st.sampled_from(HOW))))))


def dump(db):
    """sub-database name -> its raw entries"""
    out = {}
    for n, s in vars(db).items():
        if hasattr(s, "sdb"):
            with db.env.begin(db=s.sdb, buffers=False) as txn:
                out[n] = [(bytes(k), bytes(v)) for k, v in txn.cursor()]
    return out


def record(db, name, i, j, hab, raw):
    """puts some record of its kind"""
    from keri import recording as R
    from keri.core import coring, indexing
    dig = coring.Diger(ser=b"%d.%d" % (i, j))
    pre = kel.qkey(9000 + i)
    u = f"http://127.0.0.1:{5000 + i}/oobi/{j}.x"
    s = getattr(db, name)
    cigar = lambda: hab.mgr.sign(ser=b"%d" % j, pubs=hab.kever.verfers[:1] and [hab.kever.verfers[0].qb64], indexed=False)[0]
    siger = lambda: hab.mgr.sign(ser=b"%d" % j, pubs=[hab.kever.verfers[0].qb64], indexed=True)[0]
    if name in ("oobis", "roobi", "woobi", "moobi", "mfa", "rmfa"):
        s.pin(keys=(u,), val=R.OobiRecord(cid=pre, date="2030", oobialias=f"n.{j}", urls=[u] if j else None))
    elif name == "tops":
        s.pin(keys=(pre,), val=R.TopicsRecord(topics={"/receipt": j, "/a.b": i}))
    elif name in ("meids", "chas", "reps"):
        s.add(keys=(pre,), val=dig)
    elif name == "maids":
        s.add(keys=(dig.qb64,), val=coring.Prefixer(qb64=pre))
    elif name == "cgms":
        s.pin(keys=(pre, "%032x" % j, dig.qb64), val=dig)
    elif name == "cdel":
        s.pin(keys=pre, on=j, val=dig)
    elif name in ("knas", "wwas"):
        s.pin(keys=(pre, kel.qkey(9100 + j), pre)[:2 if name == "knas" else 3], val=dig)
    elif name == "wkas":
        s.add(keys=(pre,), val=R.WellKnownAuthN(url=u, dt="2030-01-0%dT00:00:00.000000+00:00" % (j + 1)))
    elif name in ("cfld", "ifld"):
        s.pin(keys=(pre, f"f{j}"), val=f"v.{j}")
    elif name in ("cons", "sids", "hbys"):
        s.pin(keys=(pre,), val="{}" + "x" * j)
    elif name in ("kdts", "migs", "erpy"):
        s.pin(keys=(f"{name}{j}",), val=coring.Saider(qb64=dig.qb64) if name == "erpy" else coring.Dater(dts="2030-01-0%dT00:00:00.000000+00:00" % (j + 1)))
    elif name == "ksns":
        s.pin(keys=(dig.qb64,), val=hab.kever.state())
    elif name == "obvs":
        s.pin(keys=(pre, kel.qkey(9100 + j), pre), val=R.ObservedRecord(enabled=bool(j % 2)))
    elif name in ("ccigs", "icigs"):
        s.pin(keys=(pre,), val=cigar())
    elif name == "kramCTYP":
        s.pin(keys=("~",), val=R.CacheTypeRecord(*[j] * 7))
    elif name == "kramMSGC":
        s.pin(keys=(pre, dig.qb64), val=R.MsgCacheRecord("2030-01-01T00:00:00.000000+00:00", *[j] * 5))
    elif name == "kramTMSC":
        s.pin(keys=(pre, dig.qb64, dig.qb64), val=R.TxnMsgCacheRecord("2030-01-01T00:00:00.000000+00:00", "2030-01-01T00:00:00.000000+00:00", *[j] * 5))
    elif name == "kramPMKM":
        s.pin(keys=(pre, dig.qb64), val=hab.kever.serder)
    elif name == "kramPMKS":
        s.add(keys=(pre, dig.qb64), val=siger())
    elif name == "kramPMSK":
        s.pin(keys=(pre, dig.qb64), val=(coring.Number(num=j), dig))
    elif name in ("imgs", "iimgs"):
        from keri.app.organizing import Organizer, IdentifierOrganizer
        raw.setImg(pre, "image/png", io.BytesIO(bytes(range(256)) * 40 * j)) if name == "imgs" else raw.other.setImg(pre, "a/b", io.BytesIO(b"\xff" * j))
    elif name == "ecigs":
        s.add(keys=(dig.qb64,), val=(hab.kever.verfers[0], cigar()))
    elif name in ("epath", "enst"):
        s.add(keys=(dig.qb64,), val="-AAA" * (j + 1))
    elif name == "essrs":
        s.add(keys=(dig.qb64,), val=coring.Texter(raw=b"\xff" * j))
    elif name == "schema":
        from keri.core.scheming import Schemer
        sad = {"$id": "", "$schema": "http://json-schema.org/draft-07/schema#", "type": "object", "title": f"t{i}{j}"}
        from keri.core.coring import Saider
        _, sad = Saider.saidify(sad=sad, label="$id")
        sc = Schemer(sed=sad)
        s.pin(keys=(sc.said,), val=sc)


def gone(db, pre):
    """superseded events"""
    at = {}
    for _, n, d in db.kels.getAllItemIter(keys=pre):
        at.setdefault(n, []).append(d)
    return [d for ds in at.values() for d in ds[:-1]]


def tamper(db, log, pre, n, how):
    """spoils one accepted event; the first seen number from which nothing verifies, or None"""
    from keri.core import coring, indexing
    fels = [(fn, d) for _, fn, d in db.fels.getAllItemIter(keys=pre)]
    fn, d = fels[n % len(fels)]
    k = (pre, d)
    if how == "swap":
        s = db.sigs.get(keys=k)
        bad = [indexing.Siger(raw=x.raw[:-1] + bytes([x.raw[-1] ^ 1]), code=x.code, index=x.index, ondex=x.ondex) for x in s]
        db.sigs.rem(keys=k)
        db.sigs.put(keys=k, vals=bad)
    elif how == "gone":
        db.sigs.rem(keys=k)
    elif how == "wigs":
        if not db.wigs.get(keys=k):
            return None
        db.wigs.rem(keys=k)
        if int((log.states[d] if hasattr(log, "states") else {}).get("bt", 1)) == 0:
            return None
    elif how == "event":
        db.evts.rem(keys=k)
    else:
        from keri.core.eventing import rotate
        from keri.core import Number, Diger
        kv = db.kevers[pre]
        if not kv.ndigers or kv.wits or kv.delegated:
            return None
        s = rotate(pre=pre, keys=[v.qb64 for v in kv.verfers], dig=kv.serder.said, sn=kv.sn + 1, isith=kv.tholder.sith, ndigs=[x.qb64 for x in kv.ndigers])
        kv.logEvent(serder=s, first=True)
        return s.said
    return d


@vf.leg(LEGS, CASE, quick=120, thorough=5000)
def cleaned(c):
    import keri.db.basing as basing
    from keri.app.organizing import Organizer, IdentifierOrganizer
    from . import a04
    with env.place() as make:
        log = []
        A = make("a", v=c["v"], handlers=lambda h: [a04.Handler("/a", log)])
        B = make("b", v=c["v"], salt=b"1123456789abcdef")
        kw, kg = dict(version=A.v), dict(version=A.v, gvrsn=A.v)
        own = [A.hby.makeHab("s%d" % i, icount=n, isith=str(n), ncount=n, nsith=str(n), **kw) for i, n in enumerate(c["own"])] or [A.hby.makeHab("s", **kw)]
        ctl = [B.hby.makeHab("r%d" % i, transferable=i < 2, **kw) for i in range(4)]
        model, ctls = None, []
        if c["v"] == 1:
            bits, model, ctls, _ = e09.scene(c["scene"])
            for b in bits:
                A.give(b)
                A.kvy.processEscrows()
            for _ in range(6):
                A.kvy.processEscrows()
        for h in ctl[:2]:
            h.rotate(**kg)
        for h in ctl:
            A.give(B.log(h.pre))
        org = Organizer(A.hby)
        org.other = IdentifierOrganizer(A.hby)
        kinds = set()
        for name, i, j in c["ops"]:
            if name == "own":
                h = own[i % len(own)]
                h.rotate(**kg) if j == 0 else h.interact(data=[dict(i=h.pre, s="0", d=h.pre)] if j == 1 else [], **kg)
            elif name == "loc":
                sch = ["http", "https", "tcp", "http"][j]
                A.give(ctl[i].makeLocScheme(url=f"{sch}://127.0.0.1:{5000 + i}/{j}", scheme=sch, **kg))
            elif name == "end":
                A.give(ctl[i % 2].makeEndRole(eid=ctl[j].pre, role=["mailbox", "watcher", "agent", "controller"][(i + j) % 4], **kg))
            elif name == "contact":
                org.update(ctl[i].pre, dict(alias=f"c{j}", note="x.y"))
                if j:
                    org.setImg(ctl[i].pre, "image/png", io.BytesIO((b"\x00\xff\x10." * j)[:j]))
            elif name == "exn":
                from keri.core import exchange
                from keri.peer.exchanging import specialExchange
                h = ctl[i]
                if c["v"] == 1:
                    s, _ = specialExchange(route="/a", attributes=dict(n=j), sender=h.pre, **kg)
                else:
                    s = exchange(route="/a", attributes=dict(n=j), sender=h.pre, **kg)
                    s = s[0] if isinstance(s, tuple) else s
                A.give(h.endorse(s, last=False, **dict(framed=True, gvrsn=A.v)))
            else:
                record(A.db, name, i, j, own[0], org)
            kinds.add(name)
        A.settle()
        bad = None
        pres = list(dict.fromkeys([x.pre for x in ctls if x.pre and x.pre in A.db.kevers] + [h.pre for h in own + ctl]))
        if c["bad"]:
            ip, n, how = c["bad"]
            pre = pres[ip % len(pres)]
            lg = model.logs[pre] if model and pre in model.state else None
            if how == "wigs" and A.db.kevers[pre].toader.num == 0:
                how = "gone"
            bad = tamper(A.db, lg, pre, n, how)
        last = {d for p in {h for h in A.db.kevers} for _, _, d in A.db.kels.getAllItemIter(keys=p)} - {d for p in {h for h in A.db.kevers} for d in gone(A.db, p)}
        was, held = dump(A.db), set(A.db.prefixes)
        sad = {d.decode(): A.db.evts.get(keys=k) for (p, d), k in [((k.split(b".")), k) for k, _ in was["evts"]]}
        sad = {d: s.sad for d, s in sad.items() if s}
        # what still verifies, in the order first seen
        kept = {}
        order = {p: [d for _, _, d in A.db.fels.getAllItemIter(keys=p)] for p in sorted({k.split(b".")[0].decode() for k, _ in was["fels"]})}
        grew = True
        ok = set()
        while grew:
            grew = False
            for p, ds in order.items():
                for d in ds:
                    e = sad.get(d)
                    if d in ok or d == bad or e is None:
                        continue
                    if e["t"] not in ("icp", "dip") and e["p"] not in ok:
                        continue
                    if e["t"] in ("dip", "drt"):
                        boss = e["di"] if e["t"] == "dip" else next(x for x in (sad[y] for y in ds if y in sad) if x["t"] == "dip")["di"]
                        if not any(dict(i=p, s=e["s"], d=d) in sad[y].get("a", []) for y in order.get(boss, []) if y in ok):
                            continue
                    ok.add(d)
                    grew = True
        rmt, mov = basing.shutil.rmtree, basing.shutil.move
        base = os.path.realpath(os.path.dirname(A.path)) + os.sep

        def inside(f):
            def run(*a, **k):
                for x in a[:2]:
                    vf.check(os.path.realpath(str(x)).startswith(os.path.realpath(A.path) + os.sep), "cleaning would touch %s outside its directories", x)
                return f(*a, **k)
            return run
        with env.patched((basing.shutil, "rmtree", inside(rmt)), (basing.shutil, "move", inside(mov))):
            A.db.clean(version=A.v)
        A.db.reopen(reuse=True)
        now = dump(A.db)
        vf.same(sorted(now), sorted(was), "kinds of records")

        def tail(name, k):
            return k[:-33] if name in SETS else k
        for name in was:
            a, b = was[name], now[name]
            if name in LOGS:
                a = [(k.split(b".")[0], v.split(b".")[-1]) for k, v in a]
                b = [(k.split(b".")[0], v.split(b".")[-1]) for k, v in b]
                a = [x for x in a if x[1].decode() in ok]
            elif name in EVENTS:
                a = [(tail(name, k), v) for k, v in a if k.split(b".")[1].decode() in ok]
                b = [(tail(name, k), v) for k, v in b if not bad or k.split(b".")[1].decode() in ok]     # what comes after may wait again
                if name == "vrcs":
                    # receipts of superseded events by those who come later are not taken again
                    a, b = [[x for x in y if x[0].split(b".")[4].decode() in ok and x[0].split(b".")[1].decode() in last] for y in (a, b)]
                if name == "fons" and bad:
                    a, b = [k for k, _ in a], [k for k, _ in b]
                a, b = sorted(a), sorted(b)
            elif name in WAIT:
                a = []
                if name in ("dels", "coobi"):
                    continue
            elif name == "states":
                whole = {p.encode() for p, ds in order.items() if all(d in ok for d in ds)}
                for k, v in b:
                    e = A.db.states.get(keys=k)
                    vf.same(e.d if e else None, [d for d in order.get(k.decode(), []) if d in ok][-1:][0] if any(d in ok for d in order.get(k.decode(), [])) else "nothing",
                            "last event of the key state kept")
                a = [x for x in a if x[0] in whole]
                b = [x for x in b if x[0] in whole]
            elif name in ("habs", "names"):
                live = {p for p, ds in order.items() if any(d in ok for d in ds)}
                a = [x for x in a if any(p.encode() in x[0] + x[1] for p in live)]
            elif name == "ends":
                located = {k.split(b".")[0] for k, _ in was["locs"]}
                a = [x for x in a if x[0].split(b".")[2] in located]
            vf.check(a == b, "cleaning changed the records '%s': lost %s, new %s (lists of %d and %d)", name,
                     vf.short(repr([x for x in a if x not in b]), 500), vf.short(repr([x for x in b if x not in a]), 500), len(a), len(b))
        live = {p for p, ds in order.items() if any(d in ok for d in ds)}
        vf.same(set(A.db.kevers), live, "identifiers known after cleaning")
        vf.same(set(A.db.prefixes), held & live, "own identifiers after cleaning")
        for p in live:
            vf.same(A.db.kevers[p].serder.said, A.db.states.get(keys=p).d, "key state in use after cleaning")
    out = set()
    if bad:
        out.add("tampered:" + c["bad"][2])
    elif len(kinds) > 4:
        out.add("kept")
    return out or None
