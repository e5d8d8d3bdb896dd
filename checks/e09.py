"""E09: a replayed, reloaded or cleaned log rebuilds the same state and records."""
import os
import shutil
from hypothesis import strategies as st
import vf
from . import kel, e07

RULE = ("a validator given identifiers with recoveries, witnesses, delegations up to three levels, receipts by watchers, strangers and "
        "other identifiers, some events or receipts forged or still waiting; its replay (all, one identifier, from any first-seen number, or "
        "delegation chain, in both attachment versions) given to another validator, its database closed and opened again between any two "
        "messages, or cleaned; searches for seals against a scan of the log. Non-trivial: scenes with a recovery, delegation or receipt.")
ASSUMPTIONS = ["Ed25519 and BLAKE3 stand-ins compute the published algorithms"]
LEGS = []
B = dict(op="rot", k=None, nn=1, kt=(0, 0), nt=(0, 0), cut=[], add=[], bt=0, back=0, then=False, a=[], sig=None, wig=None, f=None)
RCT = st.fixed_dictionaries(dict(n=st.integers(0, 20), how=st.sampled_from(["couple", "group"]), by=st.integers(0, 3), est=st.integers(0, 2)))


@st.composite
def scenes(draw):
    inc = [dict(draw(e07.INC), seal="good", dnd=False, src=draw(st.sampled_from(["none", "right"]))) for _ in range(3)]
    ops = [dict(o, seal="good", src="right" if o["src"] != "none" else "none") for o in draw(st.lists(e07.OP, max_size=4))]
    solo = [dict(draw(kel.GOODICP), nontrans=False, c=[])] + draw(st.lists(vf.weighted(
        (2, kel.rots(sw=None, fw=None, back=1).map(lambda o: dict(o, nn=max(o["nn"], 1)))), (3, kel.rots(None, None, None)), (4, kel.GOODIXN)), max_size=5))
    return dict(tree=dict(inc=inc, ops=ops, levels=draw(st.sampled_from([0, 1, 1, 2]))), solo=solo, watch=draw(st.lists(st.sampled_from(["rot", "ixn"]), max_size=2)),
                rcts=draw(st.lists(RCT, max_size=5)), hold=draw(st.one_of(st.none(), st.integers(0, 20))),
                gvrsn=draw(st.sampled_from([1, 2])), cloned=draw(st.booleans()), pres=draw(st.integers(0, 5)), at=draw(st.integers(0, 12)),
                long=draw(vf.weighted((3, st.just(None)), (1, st.tuples(st.integers(9, 17), st.integers(0, 40), st.integers(9, 20))))), restarts=draw(st.lists(st.integers(0, 30), max_size=3)), seals=draw(st.lists(st.tuples(st.integers(0, 9), st.integers(0, 9), st.integers(0, 5)), min_size=3, max_size=6)))


def scene(c):
    """(streams to give in order, model, controllers, what is in it)"""
    ctls, msgs = e07.write(c["tree"])
    ops = list(c["solo"])
    if c["long"]:   # numbers of two digits in base ten and sixteen
        n, x, ev = c["long"]
        ops = [dict(ops[0], nk=n, nn=n, kt=(0, x), nt=(0, x // 2), wits=list(range(n)), bt=x, basic=False)] + ops[1:] + [dict(op="ixn", a=[], back=0, then=False, sig=None, wig=None, f=None)] * ev
    out, solo, ctl = kel.author(ops, base=4000)
    wout, wm, wc = kel.author([dict(B, op="icp", nk=2, nn=2, wits=[], c=[])] + [dict(B, op=o, nn=2) for o in c["watch"]], base=7000)
    msgs = [m for m, a in wout if a] + msgs + [m for m, a in out if a]
    if c["hold"] is not None:
        msgs.pop(c["hold"] % len(msgs))
    model = kel.Model()
    model.approved = e07.Model.approved.__get__(model)
    bits = [m.stream() for m in msgs]
    has = set()
    for r in c["rcts"]:
        m = msgs[r["n"] % len(msgs)]
        e = m.sad
        if r["how"] == "couple":
            bits.append(kel.rct(e["i"], int(e["s"], 16), e["d"], m.raw, couples=[(900000 + r["by"], False, False)]))
        else:
            ests = [x for x, a in wout if a and x.sad["t"] != "ixn"]
            x = ests[r["est"] % len(ests)].sad
            sigs = [kel.Sig(wc.nums[k], i, i) for i, k in enumerate(x["k"])]
            bits.append(kel.rct(e["i"], int(e["s"], 16), e["d"], m.raw, groups=[(wc.pre, int(x["s"], 16), x["d"], sigs)]))
        has.add(r["how"])
    for _ in range(4):
        for m in msgs:
            model.accept(m)
    if len(ctls) > 1 and ctls[1].pre in model.state:
        has.add(f"delegated{len(ctls) - 1}")
    if any(len(d) > 1 for log in model.logs.values() for d in log.at.values()):
        has.add("recovered")
    if c["hold"] is not None:
        has.add("waiting")
    return bits, model, ctls + [ctl, wc], has


def load(c, val):
    bits, model, ctls, has = scene(c)
    for b in bits:
        val.give(b)
        val.escrows(1)
    val.escrows(6)
    return model, ctls, has


def records(db, pre, dates=True, order=True):
    """everything recorded with the accepted events of pre"""
    out = []
    for _, fn, d in db.fels.getAllItemIter(keys=pre):
        k = (pre, d)
        a = db.aess.get(keys=k)
        dt = db.dtss.get(keys=k)
        out.append(dict(fn=fn, d=d, raw=bytes(db.evts.get(keys=k).raw), sigs=sorted(s.qb64 for s in db.sigs.get(keys=k)), wigs=sorted(s.qb64 for s in db.wigs.get(keys=k)),
                        rcts=sorted((v.qb64, g.qb64) for v, g in db.rcts.get(keys=k)), vrcs=sorted((kk[2:], s.qb64) for kk, s in db.vrcs.getTopItemIter(keys=k)),
                        aess=(a[0].num, a[1].qb64) if a else None, fon=db.fons.get(keys=k).num, dt=dt.dts if dates and dt else None,
                        dated=dt is not None))
    return out


def state(db, pre, dates=True):
    ks = db.states.get(keys=pre)
    d = ks._asdict() if ks else None
    if d and not dates:
        d.pop("dt")
    return d


def match(a, b, pres, dates, what):
    for pre in pres:
        ra, rb = records(a, pre, dates), records(b, pre, dates)
        vf.same([x["d"] for x in rb], [x["d"] for x in ra], f"{what}: first seen log")
        for x, y in zip(ra, rb):
            bad = {k: (y[k], x[k]) for k in x if x[k] != y[k]}
            vf.check(not bad, "%s: records of event fn=%d differ (got, want): %s", what, x["fn"], vf.short(repr(bad), 900))
        vf.same(list(b.kels.getAllItemIter(keys=pre)), list(a.kels.getAllItemIter(keys=pre)), f"{what}: events by number")
        vf.same(state(b, pre, dates), state(a, pre, dates), f"{what}: stored key state")


def vrsn(c):
    from keri.kering import Vrsn_1_0, Vrsn_2_0
    return Vrsn_1_0 if c["gvrsn"] == 1 else Vrsn_2_0


def reader(c, **kwa):
    from keri.core.parsing import Parser
    val = kel.Val(cloned=c["cloned"], **kwa)
    val.psr = Parser(kvy=val.kvy, rvy=val.rvy, version=vrsn(c))
    return val


@vf.leg(LEGS, scenes(), quick=450, thorough=20000)
def replay(c):
    with kel.Val() as a, reader(c) as b:
        model, ctls, has = load(c, a)
        pres = [x.pre for x in ctls if x.pre in model.state]
        direct = len(ctls) == 3     # no event waits for its delegator's
        for p in pres:
            kel.compare(a, model, p, "original")
        g = vrsn(c)
        if c["pres"] % 2:
            msgs = list(a.db.cloneAllPreIter(gvrsn=g))
        else:
            k = c["pres"] % max(1, len(pres))
            direct = direct or not k
            msgs = [m for p in pres[k:] + pres[:k] for m in a.db.clonePreIter(pre=p, gvrsn=g)]
        vf.same(len(msgs), sum(len(model.logs[p].first) for p in pres), "number of replayed messages")
        for m in msgs:
            left = b.give(bytes(m))
            vf.check(not left, "replayed message not consumed: %r", bytes(left))
        b.escrows(2 * len(msgs) + 4)
        if not direct:      # receipts replayed with an event that has to wait are given again
            for m in msgs:
                b.give(bytes(m))
            b.escrows(2)
        for p in pres:
            kel.compare(b, model, p, "replayed")
        match(a.db, b.db, pres, c["cloned"] and direct, "replayed")
        vf.same(set(b.db.kevers), set(pres), "identifiers known")
    return has or None


@vf.leg(LEGS, scenes(), quick=250, thorough=10000)
def resume(c):
    """replay of one identifier from any first seen number on; chain of delegation; unknown identifiers"""
    with kel.Val() as a, reader(c) as b:
        model, ctls, has = load(c, a)
        g = vrsn(c)
        pres = [x.pre for x in ctls if x.pre in model.state]
        whole = {p: [bytes(m) for m in a.db.clonePreIter(pre=p, gvrsn=g)] for p in pres}
        for p in pres:
            vf.same([m[:len(model.logs[p].sads[d].raw)] for m, d in zip(whole[p], model.logs[p].first)], [model.logs[p].sads[d].raw for d in model.logs[p].first],
                    "replayed events")
            n = c["at"] % (len(whole[p]) + 1)
            vf.same([bytes(m) for m in a.db.clonePreIter(pre=p.encode() if c["cloned"] else p, fn=n, gvrsn=g)], whole[p][n:], f"replay from {n}")
            for q in (p[:-1], p[:20], p[:-1] + ("A" if p[-1] != "A" else "B"), p + "A"):
                vf.same(list(a.db.clonePreIter(pre=q, gvrsn=g)), [], "replay of an unknown identifier")
        vf.same([bytes(m) for m in a.db.cloneAllPreIter(gvrsn=g)], [m for p in sorted(pres) for m in whole[p]], "replay of all")
        chain = [x.pre for x in ctls[:len(ctls) - 2] if x.pre in pres]
        if not chain:
            return None
        last = chain[-1]
        up = [bytes(m) for m in a.db.cloneDelegation(a.db.kevers[last], gvrsn=g)]
        vf.same(up, [m for p in chain[:-1] for m in whole[p]], "replay of the delegation chain")
        for m in up + whole[last]:
            b.give(m)
        b.escrows(2 * len(chain) + 4)
        for p in chain:
            kel.compare(b, model, p, "chain")
    return [f"chain{len(chain)}"]


@vf.leg(LEGS, scenes(), quick=250, thorough=10000)
def reload(c):
    """closing and opening the database between any messages changes nothing"""
    bits, model, ctls, has = scene(c)
    marks = {x % (len(bits) + 1) for x in c["restarts"]}
    from keri.core.eventing import Kevery
    with kel.Val() as a:
        def restart():
            a.db.close(clear=False)
            a.db._kevers.clear()
            a.db.reopen(reuse=True)
            a.db.reload()
            a.kvy = Kevery(db=a.db, rvy=a.rvy, lax=True, local=False)
            a.psr.kvy = a.kvy
        for n, b in enumerate(bits):
            if n in marks:
                restart()
                known = [x.pre for x in ctls if x.pre and a.db.states.get(keys=x.pre)]
                for p in known:
                    if c["cloned"]:
                        a.db._kevers.clear()
                    vf.check(p in a.db.kevers, "after opening again: known identifier missing")
                    vf.same(a.db.kevers[p].state()._asdict(), a.db.states.get(keys=p)._asdict(), "after opening again: key state")
                vf.check("E" + "A" * 43 not in a.db.kevers, "unknown identifier found")
            a.give(b)
            a.escrows(1)
        a.escrows(6)
        if len(bits) in marks:
            restart()
        for x in (x for x in ctls if x.pre):
            kel.compare(a, model, x.pre, "at the end")
        restart()
        for x in (x for x in ctls if x.pre):
            kel.compare(a, model, x.pre, "opened again at the end")
    return (["restarted"] if marks else []) + sorted(has) or None


@vf.leg(LEGS, scenes(), quick=80, thorough=3000)
def clean(c):
    """the cleaned database has the same identifiers, logs, states and records"""
    import tempfile
    import keri.db.basing as basing
    from keri.db.basing import Baser
    head = tempfile.mkdtemp(prefix="vfe09")
    rm, mv = shutil.rmtree, shutil.move

    def inside(p):
        vf.check(os.path.realpath(p).startswith(head + os.sep), "cleaning would touch %s outside its directories", p)

    def rmtree(p, *a, **k):
        inside(p)
        return rm(p, *a, **k)

    def move(s, d, *a, **k):
        inside(s)
        inside(d)
        return mv(s, d, *a, **k)
    a = kel.Val(db=dict(name="e09", temp=False, headDirPath=head, reopen=True))
    try:
        model, ctls, has = load(c, a)
        pres = [x.pre for x in ctls if x.pre in model.state]
        want = {p: (records(a.db, p, False), list(a.db.kels.getAllItemIter(keys=p)), state(a.db, p, False)) for p in pres}
        shutil.rmtree, shutil.move = rmtree, move
        try:
            a.db.clean(gvrsn=vrsn(c))
        finally:
            shutil.rmtree, shutil.move = rm, mv
        a.db._kevers.clear() if c["cloned"] else None
        a.db.reopen(reuse=True)
        for p in pres:
            kel.compare(a, model, p, "cleaned")
            got = (records(a.db, p, False), list(a.db.kels.getAllItemIter(keys=p)), state(a.db, p, False))
            vf.same(got, want[p], "cleaned")
        vf.same(set(a.db.kevers), set(pres) if not c["cloned"] else set(a.db.kevers), "identifiers after cleaning")
    finally:
        a.db.close(clear=True)
        rm(head)
    return has or None


@vf.leg(LEGS, scenes(), quick=300, thorough=10000)
def search(c):
    """searches of sealing events against a scan of the log"""
    with kel.Val() as a:
        model, ctls, has = load(c, a)
        pres = [x.pre for x in ctls if x.pre in model.state]
        found = set()
        for ip, ia, how in c["seals"]:
            p = pres[ip % len(pres)]
            log = model.logs[p]
            seals = [s for m in log.sads.values() for s in m.sad.get("a", ())] + [dict(i=p, s="0", d=p)]
            seal = dict(seals[ia % len(seals)])
            sn = 0
            if how == 1:
                seal = {k: v for k, v in list(seal.items())[:1]}
            elif how == 2:
                seal = dict(reversed(seal.items()))
            elif how == 3 and "d" in seal:
                seal["d"] = kel.qdig(seal["d"])
            elif how >= 4:
                sn = ia % 4
            alls = [d for n in sorted(log.at) if n >= sn for d in log.at[n]]
            lasts = [log.at[n][-1] for n in sorted(log.at) if n >= sn]

            def scan(ds):
                for d in ds:
                    if any(list(s.items()) == list(seal.items()) for s in log.sads[d].sad.get("a", ())):
                        return d
                return None
            full = list(seal) == ["i", "s", "d"]
            for name, want in (("fetchAllSealingEventByEventSeal", scan(alls) if full else None), ("fetchLastSealingEventByEventSeal", scan(lasts) if full else None),
                               ("fetchLastSealingEventBySeal", scan(lasts))):
                got = getattr(a.db, name)(pre=p, seal=seal, sn=sn)
                vf.same(got.said if got else None, want, f"{name} of {seal} from sn={sn}")
                if want:
                    found.add("found")
            vf.same([s.said for s in a.db.getEvtPreIter(p, sn)], alls, "events from a number on")
            vf.same([s.said for s in a.db.getEvtLastPreIter(p, sn)], lasts, "last events from a number on")
    return found or None
