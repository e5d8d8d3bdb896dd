"""A06: members of a group identifier who agree to an event end with the same log, signed by just those who agreed."""
import types
from hypothesis import strategies as st
import vf
from . import kel
from . import env as environ

RULE = ("groups of two to four members with signing and rotation members, whole-number and weighted thresholds, both message versions for events and "
        "proposals, witnesses or none; members propose and join inceptions, interactions, rotations (with members rotated, added and left out) and role "
        "replies, while proposals are held, reordered, repeated, altered and sent by others, and members restart. "
        "Non-trivial: cases in which an event becomes accepted by several members, or an offered proposal is refused.")
ASSUMPTIONS = ["Ed25519 and BLAKE3 are stand-ins; members' own logs reach each other at once, and witnesses' receipts reach everyone",
               "members sign one event per sequence number until one of them is accepted by someone; members left out do not come back"]
LEGS = []
STEP = vf.weighted(
    (3, st.tuples(st.just("propose"), st.integers(0, 3), st.sampled_from(["ixn", "ixn", "ixn", "rot", "rot"]), st.integers(0, 15), st.integers(0, 15), st.integers(0, 9), st.integers(0, 9))),
    (6, st.tuples(st.just("join"), st.integers(0, 3))),
    (6, st.tuples(st.just("deliver"), st.integers(0, 7), vf.weighted((8, st.just("ok")), (2, st.just("kept")), (1, st.just("sig")), (1, st.just("body")), (1, st.just("nosig"))))),
    (4, st.tuples(st.just("own"), st.integers(0, 3), st.sampled_from(["rot", "rot", "ixn", "ixn"]))),
    (1, st.tuples(st.just("outsider"), st.integers(0, 3), st.integers(0, 3))),
    (1, st.tuples(st.just("swap"), st.integers(0, 3), st.integers(0, 3), st.integers(0, 9))),
    (3, st.tuples(st.just("witness"), st.integers(0, 3), vf.weighted((2, st.just(3)), (1, st.integers(1, 2))))),
    (2, st.tuples(st.just("role"), st.integers(0, 3), st.integers(0, 2))),
    (1, st.tuples(st.just("restart"), st.integers(0, 3))))
SCENE = st.fixed_dictionaries(dict(
    ready=vf.weighted((3, st.just(True)), (1, st.just(False))),
    v=st.sampled_from([1, 2]), xv=st.sampled_from([1, 1, 2]), n=st.integers(2, 4), wits=vf.weighted((3, st.just(0)), (1, st.just(1)), (1, st.just(2))),
    smask=vf.weighted((2, st.just(15)), (1, st.integers(1, 15))), rmask=vf.weighted((2, st.just(15)), (1, st.integers(0, 15))),
    kt=st.integers(0, 9), nt=st.integers(0, 9), steps=st.lists(STEP, min_size=6, max_size=26)))


def sith(k, n):
    """(as given, how many of n equal ones are needed)"""
    need = 1 + k // 2 % n
    return (hex(need)[2:], need) if k % 2 == 0 else (["1" if need == 1 else f"1/{need}"] * n, need)


class Event:
    """an event of the group, as proposed"""

    def __init__(self, kind, serder, sn, prior, signers, keys, kt, nexts, nt, rots, data=None):
        self.kind, self.serder, self.sn, self.prior, self.said = kind, serder, sn, prior, serder.said
        self.signers, self.keys, self.kt, self.nexts, self.nt, self.rots, self.data = signers, keys, kt, nexts, nt, rots, data
        self.sigs = {}      # member -> (index, ondex)


class Member:
    def __init__(self, n, env):
        from keri.app.grouping import Multiplexor, Counselor
        self.n, self.name, self.env = n, env.name, env
        self.has, self.left = False, False
        self.known, self.head = {}, []      # said -> members whose signatures are here; accepted saids
        self.seen, self.subs, self.notes, self.agreed = {}, {}, [], set()   # proposals here: embedded said -> exns, submitters
        self.roles = {}
        self.first = {}
        self.asked, self.waits, self.heard = [], [], set()

    def load(self, env):
        from keri.app import grouping
        self.env = env
        self.hab = env.hby.habByName(self.name)
        self.note = []
        self.mux = grouping.Multiplexor(env.hby, types.SimpleNamespace(add=lambda attrs: self.note.append(dict(attrs))))
        grouping.loadHandlers(env.exc, self.mux)
        self.counselor = grouping.Counselor(env.hby, version=env.v)

    def ghab(self, pre):
        return self.env.hby.habs[pre]


class World:
    def __init__(self, c, make):
        from keri.kering import Vrsn_1_0, Vrsn_2_0
        self.c, self.make, self.labels = c, make, set()
        self.v = Vrsn_1_0 if c["v"] == 1 else Vrsn_2_0
        self.xv = Vrsn_1_0 if c["xv"] == 1 else Vrsn_2_0
        self.kw = dict(version=self.v)
        self.kg = dict(version=self.v, gvrsn=self.v)
        self.ms = []
        for i in range(c["n"]):
            m = Member(i, make(f"m{i}", v=c["v"], salt=b"%d123456789abcdef" % i))
            m.load(m.env)
            m.hab = m.env.hby.makeHab(m.name, **self.kw)
            self.ms.append(m)
        self.out = make("out", v=c["v"], salt=b"9123456789abcdef")
        self.ohab = self.out.hby.makeHab("out", **self.kw)
        self.wits = [self.out.hby.makeHab(f"w{i}", transferable=False, **self.kw) for i in range(c["wits"])]
        self.pre, self.events, self.chain = None, {}, []       # chain: events accepted by someone
        self.receipted, self.rcts = set(), {}
        self.replies = {}   # (reply, establishment event) -> (reply, end)
        self.queue = []     # [to, bytes, event, sender, members signed, exn said]
        for m in self.ms:
            self.spread(m.hab, m.env)
        self.spread(self.ohab, self.out)

    def spread(self, hab, env):
        msg = env.log(hab.pre)
        for e in [m.env for m in self.ms] + [self.out]:
            if e is not env:
                e.give(msg)
                vf.check(e.hby.kevers[hab.pre].serder.said == hab.kever.serder.said, "a member's log is not taken")

    def near(self, i):
        return self.ms[i % len(self.ms)]

    def state(self, m):
        """the last establishment event and the last event accepted by a member"""
        evs = [self.events[s] for s in m.head]
        return [e for e in evs if e.kind != "ixn"][-1], evs[-1]

    def key(self, n):
        return self.ms[n].hab.kever.verfers[0].qb64

    def next(self, n):
        return self.ms[n].hab.kever.ndigers[0].qb64

    # -- what is done --

    def first(self):
        c = self.c
        signers = [i for i in range(c["n"]) if c["smask"] >> i & 1]
        return signers if len(signers) > 1 else list(range(c["n"]))     # the inception of one could be its own

    def incept(self, m):
        c = self.c
        signers = self.first()
        rots = [i for i in range(c["n"]) if c["rmask"] >> i & 1] or signers
        if m.n not in signers or m.has:
            return False
        kt, need = sith(c["kt"], len(signers))
        nt, nneed = sith(c["nt"], len(rots))
        pres = lambda ns: [self.ms[i].hab.pre for i in ns]
        g = m.env.hby.makeGroupHab("group", m.hab, smids=pres(signers), rmids=pres(rots), isith=kt, nsith=nt,
                                   wits=[w.pre for w in self.wits], toad=len(self.wits), **self.kw)
        serder, sigers, _ = g.getOwnEvent(sn=0, allowPartiallySigned=True)
        if self.pre is None:
            self.pre = g.pre
            e = Event("icp", serder, 0, None, signers, [self.key(i) for i in signers], need, [self.next(i) for i in rots], nneed, rots)
            self.events[e.said] = e
            self.incepted = e
            vf.same((serder.ked["k"], serder.ked["n"], serder.ked["b"]), (e.keys, e.nexts, [w.pre for w in self.wits]), "group inception")
        vf.same(g.pre, self.pre, "group identifier")
        m.has = True
        self.offer(m, self.events[self.pre], g.msgOwnInception(allowPartiallySigned=True, framed=True, gvrsn=self.v))
        return True

    def offer(self, m, e, msg):
        """a member which has signed tells the others"""
        from keri.app import grouping
        est = None
        if m.head:
            est = self.state(m)[0]
        i = e.signers.index(m.n)
        on = None
        if e.kind == "rot":
            prior = m.hab.kever.fetchPriorDigers(sn=[s.sn for s in self.lastkeys(m) if s.verfers[0].qb64 == e.keys[i]][-1] - 1)
            if prior and prior[0].qb64 in est.nexts:
                on = est.nexts.index(prior[0].qb64)
        e.sigs[m.n] = (i, on)
        m.known.setdefault(e.said, set()).add(m.n)
        m.first.setdefault(e.sn, e.said)
        kw = dict(version=self.xv, kind="JSON", gvrsn=self.v)
        g = m.ghab(self.pre)
        pres = lambda ns: [self.ms[k].hab.pre for k in ns]
        if e.kind == "icp":
            exn, atc = grouping.multisigInceptExn(m.hab, smids=pres(e.signers), rmids=pres(e.rots), icp=bytearray(msg), **kw)
        elif e.kind == "rot":
            exn, atc = grouping.multisigRotateExn(g, smids=pres(e.signers), rmids=pres(e.rots), rot=bytearray(msg), **kw)
        else:
            exn, atc = grouping.multisigInteractExn(g, aids=pres(e.signers), ixn=bytearray(msg), **kw)
        self.tell(m, e.kind, e.said, exn, atc, e, frozenset(m.known[e.said]), sorted({*e.signers, *e.rots}))

    def lastkeys(self, m):
        return [s for s in (m.env.db.evts.get(keys=(m.hab.pre, d)) for _, _, d in m.env.db.kels.getAllItemIter(keys=m.hab.pre)) if s.estive]

    def esaid(self, exn, said):
        return exn.ked["e"]["d"] if self.c["xv"] == 1 else said

    def tell(self, m, kind, said, exn, atc, e, sigs, to):
        from keri.core import Parser
        es = self.esaid(exn, said)
        raw = bytes(exn.raw) + bytes(atc)
        if self.c["xv"] == 1 and len(raw) % 2:      # as the command line does
            local = Parser(version=exn.pvrsn).parse(ims=bytearray(raw), framed=True, processive=False)[0]
            m.mux.exc.logEvent(serder=local.serder, pathed=local.ptds, tsgs=local.tsgs, cigars=local.cigars, essrs=local.essrs)
            m.mux.add(local.serder)
        else:
            self.parse(m.env, raw)
        m.agreed.add(es)
        if isinstance(e, Event):
            self.await_(m, e)
        m.seen.setdefault(es, []).append((exn.said, e, sigs)) if exn.said not in [x[0] for x in m.seen.get(es, [])] else None
        m.subs.setdefault(es, set()).add(m.hab.pre)
        for _, ev, ss in m.seen[es]:
            self.learn(m, ev, ss)
        self.settle(m)
        for n in to:
            if n != m.n:
                self.queue.append([n, raw, e, m.n, sigs, exn.said, es, kind])

    def await_(self, m, e):
        from keri.core import Prefixer, Number, Diger
        m.counselor.start(ghab=m.ghab(self.pre), prefixer=Prefixer(qb64=self.pre), number=Number(num=e.sn), diger=Diger(qb64=e.said))
        m.waits.append(e.said)

    def counsel(self, m):
        """a member looks after what it waits for"""
        from keri.core import Prefixer, Number, Diger
        for _ in range(2):
            m.counselor.processEscrows()
        for d in m.counselor.witDoer.msgs:
            m.asked.append((d["pre"], d["sn"]))
        m.counselor.witDoer.msgs.clear()
        for s in m.waits:
            e = self.events[s]
            at = dict(prefixer=Prefixer(qb64=self.pre), number=Number(num=e.sn))
            done = s in m.head and (not self.wits or s in self.receipted)
            # its first signer asks the witnesses, and then waits to hear of that
            if done and self.wits and m.n == e.signers[0] and s not in m.heard:
                done = False
            if len(m.head) > e.sn and m.head[e.sn] != s:    # lost to another
                try:
                    got = m.counselor.complete(diger=Diger(qb64=s), **at)
                except Exception as ex:
                    got = type(ex).__name__
                vf.check(got in (False, "ValidationError"), "a group event which lost to another is taken as complete")
                self.labels.add("lost")
                continue
            if self.wits and s in m.head and any(self.events[x].kind == "rot" for x in m.head[e.sn + 1:]):
                continue    # judged by the members of then
            got = m.counselor.complete(diger=Diger(qb64=s), **at)
            vf.same(got, done, f"whether a group event ({e.kind} {e.sn}) is complete at member {m.n}")
            if s in m.head and m.n == min(e.sigs[n][0] for n in m.known[s]) and e.signers[m.n:m.n + 1] == [m.n] and min(m.known[s]) == m.n:
                vf.check((self.pre, e.sn) in m.asked, "no one asks the witnesses for receipts")

    def witness(self, m, mask):
        """witnesses receipt the newest event of a member, which reaches everyone"""
        if not self.wits or not m.head:
            return
        self.counsel(m)
        log = m.env.log(self.pre)
        self.out.give(log, local=True)
        e = self.events[m.head[-1]]
        k = self.out.hby.kevers.get(self.pre)
        vf.check(k is not None and k.sner.num >= e.sn, "a witness does not take a group's event")
        have = self.rcts.setdefault(e.said, set())
        for i, w in enumerate(self.wits):
            if len(self.wits) == 1 or mask >> i & 1:
                r = w.witness(e.serder, **self.kg)
                have.add(i)
                for x in self.ms:
                    x.env.give(r)
        if len(have) < len(self.wits):
            for x in self.ms:
                self.counsel(x)
            self.labels.add("some receipts")
            return
        self.receipted.add(e.said)
        for x in self.ms:
            if (self.pre, e.sn) in x.asked:
                x.heard.add(e.said)
                x.counselor.witDoer.cues.append(dict(pre=self.pre, sn=e.sn))
            self.settle(x)
        self.labels.add("receipted")

    def parse(self, env, raw):
        from keri.core import Parser
        if environ.DBG: print("GIVE", env.name, raw)
        Parser(framed=True, kvy=env.kvy, rvy=env.rvy, exc=env.exc, version=self.xv).parse(ims=bytearray(raw))

    def learn(self, m, e, sigs):
        if isinstance(e, Event):
            m.known.setdefault(e.said, set()).update(sigs)
        elif e is not None:
            m.roles.setdefault(e, set()).update(sigs)

    def met(self, m, e):
        """whether the signatures a member has make an event acceptable"""
        sigs = [e.sigs[n] for n in m.known.get(e.said, ())]
        if len({i for i, _ in sigs}) < e.kt:
            return False
        if e.kind == "rot":
            est = self.state(m)[0]
            return len({o for _, o in sigs if o is not None}) >= est.nt
        return True

    def settle(self, m):
        for _ in range(2):
            m.env.hby.kvy.processEscrows()
            m.env.settle()
        more = True
        while more:
            more = False
            for e in self.events.values():
                if m.has and e.sn == len(m.head) and e.prior == (m.head[-1] if m.head else None) and self.met(m, e) and m.n in m.known[e.said]:
                    m.head.append(e.said)
                    if e.sn == len(self.chain):
                        self.chain.append(e.said)
                    vf.same(self.chain[e.sn], e.said, "one event accepted at a place")
                    more = True
                    self.labels.add(f"{e.kind}{'2' if self.c['v'] == 2 else ''}")
                    if len([x for x in self.ms if e.said in x.head]) > 1:
                        self.labels.add("shared")
        self.look(m)

    def look(self, m):
        db = m.env.db
        if self.pre and m.has:
            kever = m.env.hby.kevers.get(self.pre)
            vf.same((kever.sner.num, kever.serder.said) if kever else None, (len(m.head) - 1, m.head[-1]) if m.head else None, f"last event of the group at member {m.n}")
            for e in self.events.values():
                sigs = db.sigs.get(keys=(self.pre, e.said))
                want = {e.sigs[n] for n in m.known.get(e.said, ())} if m.n in m.known.get(e.said, ()) or e.said in m.head else set()
                vf.same({(s.index, s.ondex) for s in sigs}, want, f"signatures of a group event ({e.kind} {e.sn}) at member {m.n}")
                vf.check(all(s.verfer.verify(s.raw, e.serder.raw) for s in sigs if s.verfer) if sigs else True, "an invalid signature is kept")
            if m.head:
                est = self.state(m)[0]
                vf.same(([v.qb64 for v in kever.verfers], [d.qb64 for d in kever.ndigers]), (est.keys, est.nexts), "keys of the group")
            for key, ns in m.roles.items():
                ser, eid = self.replies[key]
                if m.head and self.state(m)[0].said == key[1] and max(k[0] for k in [(v[0].ked["dt"], k) for k, v in self.replies.items() if v[1] == eid]) == ser.ked["dt"]:
                    end = db.ends.get(keys=(self.pre, "agent", eid))
                    want = len(ns) >= self.state(m)[0].kt
                    vf.same(db.rpys.get(keys=(ser.said,)) is not None and bool(db.eans.get(keys=(self.pre, "agent", eid)) and db.eans.get(keys=(self.pre, "agent", eid)).qb64 == ser.said),
                            want, f"whether a role signed by {sorted(ns)} is taken at member {m.n}")
                    if want:
                        self.labels.add("roles")
            g = m.ghab(self.pre)
            vf.check(g.mhab.pre == m.hab.pre, "a group is of another member")
        vf.same(m.note, m.notes, f"notices of proposals at member {m.n}")
        for es, exns in m.seen.items():
            vf.same(sorted(x["exn"]["d"] for x in m.mux.get(es)), sorted(x[0] for x in exns), "proposals kept")

    def propose(self, m, kind, sm, rm, kt, nt):
        from keri.core import SerderKERI
        if self.pre is None or not m.has:
            return self.incept(m)
        if not m.head or m.left:
            return False
        est, last = self.state(m)
        g = m.ghab(self.pre)
        sn = last.sn + 1
        rivals = [e for e in self.events.values() if e.sn == sn]
        if sn < len(self.chain) or sn in m.first:
            return False
        if rivals and (kind == "rot" or any(e.kind == "rot" for e in rivals) or 2 * est.kt <= len(est.signers) or len(rivals) > 1):
            return False
        if kind == "ixn":
            if m.n not in est.signers:
                return False
            data = [dict(i=self.pre, s=hex(sn)[2:], d=kel.qdig(b"%d %d" % (m.n, sn)))]
            msg = g.interact(data=data, framed=True, **self.kg)
            e = Event("ixn", SerderKERI(raw=msg), sn, last.said, est.signers, est.keys, est.kt, est.nexts, est.nt, est.rots, data)
        else:
            alive = [x.n for x in self.ms if not x.left]
            signers = [i for i in alive if sm >> i & 1] or alive
            rots = [i for i in alive if rm >> i & 1] or signers
            if m.n not in signers:
                signers = sorted({*signers, m.n})
            keys, nexts = [self.key(i) for i in signers], [self.next(i) for i in rots]
            rt = kt
            kt, need = sith(kt // 3, len(signers))
            nt, nneed = sith(nt, len(rots))
            kv = m.env.hby.kevers
            pres = lambda ns: [self.ms[i].hab.pre for i in ns]
            from keri.kering import ValidationError
            from keri.core import Diger
            for i in alive:
                if rt % 4 and i in est.signers and self.key(i) in est.keys and all(self.ms[k].has for k in self.incepted.signers):
                    self.own(self.ms[i], "rot")
            if m.head[-1] != last.said:     # meanwhile
                return False
            keys, nexts = [self.key(i) for i in signers], [self.next(i) for i in rots]
            self.counsel(m)
            have = [i for i, d in enumerate(est.nexts) if any(Diger(qb64=d).compare(k.encode(), Diger(ser=k.encode()).qb64b) if False else Diger(ser=k.encode()).qb64 == d for k in keys)]
            kw = dict(isith=kt, nsith=nt, verfers=[kv[p].verfers[0] for p in pres(signers)], digers=[kv[p].ndigers[0] for p in pres(rots)],
                      smids=pres(signers), rmids=pres(rots), toad=len(self.wits), framed=True, **self.kg)
            if len(have) < est.nt:
                try:
                    g.rotate(**kw)
                except ValidationError:
                    self.labels.add("refused")
                    self.look(m)
                    return False
                vf.check(False, "a group rotation whose keys cannot meet what was committed to is made")
            msg = g.rotate(**kw)
            e = Event("rot", SerderKERI(raw=msg), sn, last.said, signers, keys, need, nexts, nneed, rots)
            vf.same((e.serder.ked["k"], e.serder.ked["n"], e.serder.ked["kt"], e.serder.ked["nt"]), (keys, nexts, kt, nt), "group rotation")
            vf.same((g.smids, g.rmids), (pres(signers), pres(rots)), "members of a group after proposing a rotation")
        vf.same((e.serder.sn, e.serder.pre, e.serder.ked["p"]), (sn, self.pre, last.said), "group event")
        self.events[e.said] = e
        self.offer(m, e, msg if sn % 2 else g.msgOwnEvent(sn=sn, allowPartiallySigned=True, framed=True, gvrsn=self.v))
        return True

    def join(self, m):
        """a member agrees to what was proposed to it"""
        from keri.core import SerderKERI
        if self.pre is None:
            return False
        if not m.has and m.n in self.incepted.signers:
            if any(x[1] is self.incepted for l in m.seen.values() for x in l):
                return self.incept(m)
            return False
        for es, exns in m.seen.items():
            for _, e, _ in exns:
                if not isinstance(e, Event) or es in m.agreed or m.n not in e.signers or e.kind == "icp":
                    continue
                if not m.has:
                    if e.kind != "rot":
                        continue
                    if not (self.chain[:e.sn] and self.chain[e.sn - 1] == e.prior and self.log(m, e.sn)):
                        continue
                    self.events[e.said]
                    pres = lambda ns: [self.ms[k].hab.pre for k in ns]
                    g = m.env.hby.joinGroupHab(self.pre, "group", m.hab, smids=pres(e.signers), rmids=pres(e.rots))
                    m.has = True
                    rec = m.env.db.habs.get(keys=(self.pre,))
                    for x in (g, rec):
                        vf.same((list(x.smids), list(x.rmids)), (pres(e.signers), pres(e.rots)), "members of a group joined")
                    self.labels.add("joined")
                if len(m.head) != e.sn or m.head[-1] != e.prior:
                    continue
                if m.first.get(e.sn, e.said) != e.said and (len(self.chain) <= e.sn or self.chain[e.sn] != e.said):
                    continue
                if len(self.chain) > e.sn and self.chain[e.sn] != e.said:
                    continue
                g = m.ghab(self.pre)
                if e.kind == "ixn":
                    msg = g.interact(data=e.data, framed=True, **self.kg)
                    vf.same(SerderKERI(raw=msg).said, e.said, "the event of one who joins")
                    if e.sn % 2 and m.first.get(e.sn, e.said) == e.said:
                        msg = g.msgOwnEvent(sn=e.sn, allowPartiallySigned=True, framed=True, gvrsn=self.v)
                else:
                    self.counsel(m)
                    pres = lambda ns: [self.ms[k].hab.pre for k in ns]
                    msg = g.rotate(serder=SerderKERI(raw=bytes(e.serder.raw)), smids=pres(e.signers), rmids=pres(e.rots), framed=True, gvrsn=self.v)
                    vf.same((g.smids, g.rmids), (pres(e.signers), pres(e.rots)), "members of a group after joining a rotation")
                self.offer(m, e, msg)
                return True
        return False

    def log(self, m, sn):
        """a new member gets the group's log so far"""
        for x in self.ms:
            if x.has and len(x.head) >= sn:
                m.env.give(x.env.log(self.pre))
                k = m.env.hby.kevers.get(self.pre)
                if k is None or k.sner.num + 1 != len(x.head) or len(x.head) != sn:
                    vf.check(k is not None and k.sner.num + 1 >= len(x.head) or self.wits, "a group's log is not taken by another")
                    return False
                m.head = list(x.head)
                for s in m.head:
                    m.known[s] = set(x.known[s])
                return True
        return False

    def deliver(self, k, fate):
        if not self.queue:
            return False
        k %= len(self.queue)
        to, raw, e, frm, sigs, exn, es, kind = q = self.queue[k]
        m = self.ms[to]
        if fate != "kept":
            self.queue.pop(k)
        if fate in ("sig", "body", "nosig"):
            self.queue.append(q)
            bad = bytearray(raw)
            if fate == "nosig":
                from keri.core import SerderKERI
                bad = bad[:SerderKERI(raw=bytes(raw)).size]
            elif fate == "body":
                p = raw.index(b'"dt":"20') + 6
                bad[p:p + 2] = b"19"
            else:
                import re
                from keri.core import SerderKERI
                size = SerderKERI(raw=bytes(raw)).size
                hit = re.search(rb"A[AB]A?[A-Za-z0-9_-]{85}", bytes(raw[size:]))
                p = size + hit.start() + 40
                bad[p:p + 1] = b"A" if raw[p:p + 1] != b"A" else b"B"
            try:
                self.parse(m.env, bad)
            except Exception:
                pass
            self.labels.add("refused")
            self.look(m)
            return True
        self.parse(m.env, raw)
        self.got(m, e, self.ms[frm].hab.pre, sigs, exn, es, kind)
        return True

    def got(self, m, e, sender, sigs, exn, es, kind):
        gid = kind == "icp" or kind == "rot" or m.has       # members of the proposal, or of the group already
        if gid:
            if es in m.agreed:
                self.learn(m, e, sigs)
            else:
                note = dict(r="/multisig/" + kind, d=exn)
                if es in m.seen:
                    note["e"] = es
                m.notes.append(note)
            if exn not in [x[0] for x in m.seen.setdefault(es, [])]:
                m.seen[es].append((exn, e, sigs))
            m.subs.setdefault(es, set()).add(sender)
        self.settle(m)

    def own(self, m, kind):
        """a member's own identifier goes on, once what it sent has come"""
        if self.pre and not all(self.ms[n].has for n in self.incepted.signers):
            return      # who joins later would make another inception of the newer keys
        while any(q[3] == m.n for q in self.queue):
            self.deliver([q[3] for q in self.queue].index(m.n), "ok")
        if kind == "rot":
            if m.has and m.head and m.n in self.state(m)[0].signers and self.key(m.n) not in self.state(m)[0].keys or m.has != bool(m.head):
                return      # its key of two rotations ago is erased
            m.hab.rotate(**self.kg)
        else:
            m.hab.interact(**self.kg)
        self.spread(m.hab, m.env)

    def outsider(self, m, k):
        """one who is no member offers a group event with a signature of its own"""
        from keri.app import grouping
        from keri.core import messagize
        evs = [e for e in self.events.values() if e.kind == "ixn"]
        if not evs or not m.has:
            return
        e = evs[k % len(evs)]
        sigers = self.ohab.mgr.sign(ser=e.serder.raw, verfers=self.ohab.kever.verfers, indexed=True, indices=[k % len(e.keys)])
        msg = messagize(e.serder, sigers=sigers, framed=True, gvrsn=self.v)
        g = types.SimpleNamespace(mhab=self.ohab, pre=self.pre)
        exn, atc = grouping.multisigInteractExn(g, aids=[self.ohab.pre], ixn=bytearray(msg), version=self.xv, kind="JSON", gvrsn=self.v)
        self.parse(m.env, bytes(exn.raw) + bytes(atc))
        self.got(m, e, self.ohab.pre, frozenset(), exn.said, self.esaid(exn, e.said), "ixn")
        self.labels.add("outsider")

    def swap(self, m, k, n):
        """what a member signed comes with another event than it says"""
        from keri.core import messagize, Parser, exchange
        from keri.core.eventing import interact
        from keri.peer.exchanging import serializeParsedSubstream
        evs = [e for e in self.events.values() if e.kind == "ixn"]
        x = self.ms[k % len(self.ms)]
        if not evs or x is m or not m.has or self.c["xv"] == 1:
            return
        e = evs[n % len(evs)]
        f = interact(pre=self.pre, dig=e.prior, sn=e.sn, data=[dict(i=self.pre, s="0", d=kel.qdig(b"other"))], kind=e.serder.kind, **self.kw)
        sigers = self.ohab.mgr.sign(ser=f.raw, verfers=self.ohab.kever.verfers, indexed=True, indices=[0])
        parsed = Parser(version=self.v).parse(ims=bytearray(messagize(f, sigers=sigers, framed=True, gvrsn=self.v)), framed=True, processive=False)
        nest = serializeParsedSubstream(parsed[0], gvrsn=self.v)
        exn = exchange(sender=x.hab.pre, route="/multisig/ixn", modifiers=dict(), version=self.xv, gvrsn=self.xv, kind="JSON",
                       attributes=dict(gid=self.pre, smids=[y.hab.pre for y in self.ms], ixn=e.said))
        self.parse(m.env, x.hab.endorse(serder=exn, last=False, framed=False, gvrsn=self.xv, nests=[nest]))
        self.labels.add("refused")
        self.settle(m)
        vf.check(m.env.db.evts.get(keys=(self.pre, f.said)) is None, "an event is taken which the proposal does not name")

    def role(self, m, k):
        """a member has the group name an end for a role, or agrees to that"""
        from keri.app import grouping
        from keri.core import SerderKERI
        if not m.head or m.left or m.n not in self.state(m)[0].signers:
            return False
        g = m.ghab(self.pre)
        est = self.state(m)[0]
        asked = [(es, x[1]) for es, l in m.seen.items() for x in l if isinstance(x[1], tuple) and es not in m.agreed and x[1][1] == est.said]
        if asked and k:
            key = asked[0][1]
        elif len(self.replies) < 3:
            raw = bytes(g.makeEndRole(eid=self.near(k).hab.pre, role="agent", stamp=f"2031-01-0{len(self.replies) + 1}T00:00:00.000000+00:00", **self.kg))
            ser = SerderKERI(raw=raw)
            key = (ser.said, est.said)
            self.replies[key] = (ser, self.near(k).hab.pre)
        else:
            return False
        ser, eid = self.replies[key]
        msg = g.endorse(ser, framed=True, gvrsn=self.v)
        m.env.give(msg)
        m.roles.setdefault(key, set()).add(m.n)
        exn, atc = grouping.multisigRpyExn(ghab=g, rpy=bytearray(msg), version=self.xv, kind="JSON", gvrsn=self.v)
        self.tell(m, "rpy", ser.said, exn, atc, key, frozenset({m.n}), list(range(len(self.ms))))
        self.labels.add("role")
        return True

    def restart(self, m):
        name, v = m.name, self.c["v"]
        m.env.close()
        m.load(self.make(name, v=v, salt=b"%d123456789abcdef" % m.n))
        m.notes = []
        g = m.env.hby.habs.get(self.pre) if self.pre else None
        vf.check((g is not None) == m.has, "a group is lost or come by with a restart")
        if m.has:
            last = [e for e in self.events.values() if e.kind != "ixn" and m.n in m.known.get(e.said, ())][-1]
            pres = lambda ns: [self.ms[k].hab.pre for k in ns]
            vf.same((type(g).__name__, g.mhab.pre, list(g.smids), list(g.rmids)), ("GroupHab", m.hab.pre, pres(last.signers), pres(last.rots)), "a group after a restart")
        self.settle(m)


@vf.leg(LEGS, SCENE, quick=320, thorough=6000)
def scenes(c):
    with environ.place() as make:
        w = World(c, make)
        if c["ready"]:
            for m in w.ms:
                w.incept(m) if m.n in w.first() else None
            while w.queue:
                w.deliver(0, "ok")
        for step in c["steps"]:
            kind = step[0]
            if kind == "propose":
                w.propose(w.near(step[1]), *step[2:])
            elif kind == "join":
                for i in range(len(w.ms)):
                    if w.join(w.near(step[1] + i)):
                        break
            elif kind == "deliver":
                w.deliver(step[1], step[2])
            elif kind == "own":
                w.own(w.near(step[1]), step[2])
            elif kind == "outsider":
                w.outsider(w.near(step[1]), step[2])
            elif kind == "swap":
                w.swap(w.near(step[1]), step[2], step[3])
            elif kind == "role":
                w.role(w.near(step[1]), step[2])
            elif kind == "witness":
                m = w.near(step[1])
                w.witness(m, step[2]) if w.wits else w.counsel(m)
            elif kind == "restart" and not w.wits:
                w.restart(w.near(step[1]))
        # everything comes and everyone asked joins
        for _ in range(30):
            done = False
            while w.queue:
                w.deliver(0, "ok")
                done = True
            for m in w.ms:
                done |= w.join(m)
            if not done:
                break
        for m in w.ms:
            w.counsel(m)
        return sorted(w.labels) or None
