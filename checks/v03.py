"""V03: a credential issued or revoked through one's registry is complete exactly when anchored, receipted and accepted, and what is sent gives another the same."""
import datetime, json
from types import SimpleNamespace
from hypothesis import strategies as st
import vf
from . import kel, v02
from . import env as environ

RULE = ("histories of one identifier (interactions or rotations as anchors, none to two witnesses) which makes registries, issues credentials chained to earlier ones, "
        "and revokes them, with anchors made later or in another order, witnesses' receipts coming in parts, the registry restarted, and everything sent to others, once "
        "or again, at any point. Non-trivial: cases in which something became complete and another was sent a credential, or a creation was refused.")
ASSUMPTIONS = ["Ed25519 and BLAKE3 are stand-ins", "witnesses and who publishes to them are stand-ins which take what they are given"]
LEGS = []
CRED = st.fixed_dictionaries(dict(reg=vf.weighted((6, st.just(0)), (2, st.just(1)), (1, st.just(2))), schema=vf.weighted((6, st.just(0)), (4, st.just(1)), (2, st.just(2)), (1, st.just(3))), x=vf.weighted((12, st.integers(0, 5)), (1, st.sampled_from([9, "no"]))),
                                  to=vf.weighted((3, st.just(0)), (2, st.just(1)), (3, st.just(3)), (1, st.just(2))), edges=vf.weighted((2, st.just([])), (3, st.lists(st.tuples(vf.weighted((2, st.just(0)), (2, st.just(1)), (1, st.integers(2, 5))), vf.weighted((3, st.just("NI2I")), (1, st.sampled_from([None, "I2I"])))), min_size=1, max_size=2))),
                                  private=vf.weighted((3, st.just(False)), (1, st.just(True))), now=vf.weighted((3, st.just(True)), (1, st.just(False)))))
STEP = vf.weighted(
    (2, st.tuples(st.just("reg"), st.integers(0, 2), st.booleans())),
    (8, st.tuples(st.just("issue"), CRED)),
    (2, st.tuples(st.just("revoke"), st.integers(0, 5), st.booleans())),
    (3, st.tuples(st.just("anchor"), st.integers(0, 5), vf.weighted((4, st.just(0)), (1, st.integers(1, 2))), st.booleans())),
    (3, st.tuples(st.just("witness"), vf.weighted((1, st.just(3)), (1, st.integers(1, 2))), vf.weighted((2, st.just(0)), (1, st.integers(1, 2))))),
    (3, st.just(("publish",))), (1, st.just(("tick",))),
    (1, st.tuples(st.just("other"), st.booleans())),
    (1, st.just(("restart",))),
    (2, st.tuples(st.just("send"), st.integers(0, 1), st.integers(0, 5), st.integers(0, 9))))
CASE = st.fixed_dictionaries(dict(v=st.sampled_from([1, 1, 2]), wits=vf.weighted((3, st.just(0)), (1, st.just(1)), (2, st.just(2))), eo=st.booleans(), schemas=vf.weighted((3, st.just([0, 1, 2])), (1, st.just([0, 1]))),
                                  holds=st.lists(st.integers(0, 3), max_size=5), steps=st.lists(STEP, min_size=8, max_size=24)))
NAMES = ["r0", "reg 1", "r0.x"]


class Party:
    """another with a verifier"""

    def __init__(self, env):
        from keri.vdr.eventing import Reger, Tevery
        from keri.vdr.verifying import Verifier
        from keri.core.parsing import Parser
        self.env = env
        self.reger = Reger(name=env.name, headDirPath=env.path, db=env.db, reopen=True, temp=False)
        self.tvy = Tevery(reger=self.reger, db=env.db, local=False, lax=True)
        self.vry = Verifier(hby=env.hby, reger=self.reger)
        self.psr = Parser(framed=True, kvy=env.kvy, rvy=env.rvy, tvy=self.tvy, vry=self.vry, version=env.v)

    def give(self, raw):
        self.psr.parse(ims=bytearray(raw))
        for _ in range(3):
            self.env.settle()
            self.tvy.processEscrows()
            self.vry.processEscrows()


class Tel:
    """an event of a registry or credential"""

    def __init__(self, serder, pre, sn, registry, cred=None):
        self.serder, self.pre, self.sn, self.registry, self.cred, self.said = serder, pre, sn, registry, cred, serder.said
        self.anchor = None          # (sn, said) of the event which seals it
        self.sent = False


class World:
    def __init__(self, c, make):
        from keri.kering import Vrsn_1_0
        self.c, self.make, self.labels = c, make, set()
        self.I = make("i", v=c["v"], salt=b"0123456789abcdef")
        self.W = make("w", v=c["v"], salt=b"1123456789abcdef")
        self.kw = dict(version=self.I.v)
        self.kg = dict(version=self.I.v, gvrsn=self.I.v)
        self.wits = [self.W.hby.makeHab(f"w{i}", transferable=False, **self.kw) for i in range(c["wits"])]
        self.holder = make("h", v=c["v"], salt=b"2123456789abcdef")
        self.hhab = self.holder.hby.makeHab("holder", **self.kw)
        self.hab = self.I.hby.makeHab("issuer", wits=[w.pre for w in self.wits], toad=len(self.wits), estOnly=c["eo"], **self.kw)
        self.I.give(self.holder.log(self.hhab.pre))
        self.holder.give(self.I.log(self.hab.pre)) if not self.wits else None
        self.others = [Party(self.holder), Party(make("o", v=c["v"], salt=b"3123456789abcdef"))]
        for e in (self.I, *[p.env for p in self.others]):
            for n in c["schemas"]:
                self.schema(e, n)
        self.load(self.I)
        self.regs, self.creds, self.tels, self.keep = {}, [], [], {}    # name -> Tel, cred records, all events, said -> accepted sn
        self.receipts, self.heard = {}, set()     # sn -> witnesses, sns heard of
        self.evs = {0: self.hab.kever.serder}
        self.base = dict(version=Vrsn_1_0, kind="JSON")
        self.pend = []         # what is with the publisher

    def schema(self, e, n):
        from keri.core import Schemer
        s = Schemer(raw=json.dumps(v02.SCHEMAS[n], separators=(",", ":"), ensure_ascii=False).encode())
        e.db.schema.pin(keys=s.said, val=s)

    def load(self, env):
        from keri.vdr.credentialing import Regery, Registrar, Credentialer
        from keri.vdr.eventing import Reger
        from keri.vdr.verifying import Verifier
        self.I = env
        self.hab = env.hby.habByName("issuer")
        self.rgy = Regery(hby=env.hby, name="i", reger=Reger(name="i", headDirPath=env.path, db=env.db, reopen=True, temp=False))
        self.registrar = Registrar(hby=env.hby, rgy=self.rgy, counselor=None)
        self.vry = Verifier(hby=env.hby, reger=self.rgy.reger)
        self.cred = Credentialer(hby=env.hby, rgy=self.rgy, registrar=self.registrar, verifier=self.vry)

    def accepted(self, t):
        if t.anchor is None:
            return False
        if t.sn or t.cred:
            prior = self.regs[t.registry] if t.sn == 0 else next(x for x in self.tels if x.cred is t.cred and x.sn == 0)
            return self.accepted(prior)
        return True

    def receipted(self, t):
        return not self.wits or t.anchor[0] in self.heard and len(self.receipts[t.anchor[0]]) == len(self.wits)

    def done(self, t):
        """handed to who publishes it"""
        return t.sent

    # -- what is done --

    def register(self, n, now):
        name = NAMES[n]
        if name in self.regs:
            vf.check(self.rgy.registryByName(name).regk == self.regs[name].pre, "a registry is another's")
            return
        reg = self.rgy.makeRegistry(name=name, prefix=self.hab.pre, noBackers=True, nonce=kel.qdig(name), estOnly=False, **self.base)
        t = Tel(reg.vcp, reg.regk, 0, name)
        vf.same((t.serder.ked["ii"], t.serder.ked["i"], t.serder.ked["s"], t.serder.ked["c"]), (self.hab.pre, reg.regk, "0", ["NB"]), "registry inception")
        self.regs[name] = t
        self.tels.append(t)
        if now:
            self.anchor(t)

    def other(self, rotate=False, data=()):
        """an event of the identifier"""
        from keri.core import SerderKERI
        make = self.hab.rotate if self.c["eo"] or rotate else self.hab.interact
        a = SerderKERI(raw=make(data=list(data), framed=True, **self.kg))
        self.evs[a.sn] = a
        return a

    def anchor(self, *ts, after=0):
        """one event anchors some, told of when others followed it already"""
        a = self.other(data=[dict(i=t.pre, s=hex(t.sn)[2:], d=t.said) for t in ts])
        for _ in range(after):
            b = self.other()
            self.registrar.receiptor.msgs.append(dict(pre=self.hab.pre, sn=b.sn))
        for t in ts:
            self.told(t, a)

    def told(self, t, a):
        t.anchor = (a.sn, a.said)
        if t.cred is None:
            self.registrar.incept(t.serder, a)
        elif t.sn == 0:
            self.registrar.issue(t.cred.creder, t.serder, a)
        else:
            self.registrar.revoke(t.cred.creder, t.serder, a)

    def judge(self, c):
        """None, or why a credential cannot be made"""
        if NAMES[c["reg"]] not in self.regs:
            return "registry"
        if c["to"] == 2:
            return "recipient"
        if c["schema"] not in self.c["schemas"]:
            return "schema"
        if not (c["schema"] == 0 or c["schema"] in (1, 2) and type(c["x"]) is int and (c["schema"] == 1 or c["x"] <= 5)):
            return "schema"
        return None

    def issue(self, c):
        from keri.kering import ConfigurationError
        name = NAMES[c["reg"]]
        recp = [self.hhab.pre, self.hab.pre, kel.qkey(900), None][c["to"]]
        if name in self.regs and self.regs[name].pre not in self.rgy.tevers and "restart" in self.labels:
            return      # a registry which is not accepted yet has no version known after a restart
        edges, far = {}, []
        for i, (k, op) in enumerate(c["edges"]):
            if self.creds:
                x = self.creds[-1 - k % len(self.creds)]
                edges[f"e{i}"] = dict(n=x.creder.said, s=x.creder.schema, **({"o": op} if op else {}))
                far.append((x, op))
        data = dict(x=c["x"], y="text", n=len(self.creds), dt="2024-01-02T03:04:05.000000+00:00")
        kw = dict(regname=name, recp=recp, schema=v02.SCHEMAS[c["schema"]]["$id"], source=v02.block(edges, "JSON") if edges else None, rules=None, data=data, private=c["private"])
        why = self.judge(c)
        if why:
            try:
                got = self.cred.create(**kw)
            except ConfigurationError:
                self.labels.add("refused")
                return
            raise vf.Violation(f"a credential is made in spite of its {why}: {got.sad}")
        creder = self.cred.create(**kw)
        sad = creder.sad
        vf.same((sad["i"], sad["ri"], sad["s"], sad["a"].get("i"), {k: v for k, v in sad["a"].items() if k not in ("d", "i", "u")}, sad.get("e"), "u" in sad and "u" in sad["a"]),
                (self.hab.pre, self.regs[name].pre, kw["schema"], recp, data, kw["source"], c["private"]), "credential made")
        reg = self.regs[name]
        if not self.accepted(reg) or reg.pre not in self.rgy.tevers:
            return
        iserder = self.rgy.registryByName(name).issue(said=creder.said, dt=data["dt"])
        cr = SimpleNamespace(creder=creder, far=far, said=creder.said, reg=name, subject=recp, done=False, saved=False)
        t = Tel(iserder, creder.said, 0, name, cr)
        vf.same((iserder.ked["t"], iserder.ked["i"], iserder.ked["s"], iserder.ked["ri"], iserder.ked["dt"]), ("iss", creder.said, "0", reg.pre, data["dt"]), "issuance")
        cr.iss, cr.rev = t, None
        self.creds.append(cr)
        self.tels.append(t)
        order = c["now"]
        if order:
            self.anchor(t)
        self.cred.issue(creder, iserder)
        cr.open = True

    def revoke(self, k, now):
        if not self.creds:
            return
        cr = self.creds[k % len(self.creds)]
        if cr.rev or cr.iss.said not in self.keep:
            return
        rserder = self.rgy.registryByName(cr.reg).revoke(said=cr.said)
        vf.same((rserder.ked["t"], rserder.ked["i"], rserder.ked["s"], rserder.ked["ri"], rserder.ked["p"]), ("rev", cr.said, "1", self.regs[cr.reg].pre, cr.iss.said), "revocation")
        cr.rev = Tel(rserder, cr.said, 1, cr.reg, cr)
        self.tels.append(cr.rev)
        if now:
            self.anchor(cr.rev)

    def witness(self, mask, word=0):
        """witnesses receipt what they were asked to, and who asked hears: when all did, not yet (1), or even so (2)"""
        want = {(m["pre"], m["sn"]) for m in self.registrar.receiptor.msgs}
        if self.wits:
            self.W.give(self.I.log(self.hab.pre), local=True)
        for pre, sn in sorted(want):
            have = self.receipts.setdefault(sn, set())
            for i, w in enumerate(self.wits):
                if len(self.wits) == 1 or mask >> i & 1:
                    have.add(i)
                    self.I.give(w.witness(self.evs[sn], **self.kg))
            if len(have) < len(self.wits):
                self.labels.add("some receipts")
            if word == 2 or word == 0 and len(have) == len(self.wits):
                self.registrar.receiptor.cues.append(dict(pre=pre, sn=sn))
                self.heard.add(sn)
        for m in list(self.registrar.receiptor.msgs):
            if m["sn"] in self.heard and len(self.receipts[m["sn"]]) == len(self.wits):
                self.registrar.receiptor.msgs.remove(m)

    def publish(self):
        while self.registrar.witPub.msgs:
            self.registrar.witPub.cues.append(self.registrar.witPub.msgs.popleft())

    def chain(self, cr):
        """whether what a credential rests on stands"""
        return all(x.saved and (not x.rev or x.rev.said not in self.keep) and
                   (op == "NI2I" or x.subject == self.hab.pre or op is None and x.subject is None) for x, op in cr.far)

    def tick(self):
        for _ in range(4):
            self.I.settle()
            self.rgy.processEscrows()
            self.registrar.processEscrows()
            self.vry.processEscrows()
            self.cred.processEscrows()
        for t in self.tels:
            if self.accepted(t):
                self.keep[t.said] = t
        reger = self.rgy.reger
        for t in self.tels:
            want = t.said in self.keep
            vf.same(reger.tels.get(keys=t.pre, on=t.sn), t.said if want else None, f"whether {t.serder.ilk} is accepted")
            out = [m for m in [*self.registrar.witPub.msgs, *self.registrar.witPub.cues] if bytes(m["msg"]).startswith(t.serder.raw)]
            go = want and self.receipted(t)
            if go and not t.sent:
                t.sent = True
                vf.check([m["pre"] for m in out] == [self.hab.pre] and out[0]["said"] == t.pre, "what is published of %s: %s", t.serder.ilk, out)
            vf.check(go or not out, "%s is published before its anchor is receipted", t.serder.ilk)
            told = any(m["said"] == t.pre for m in self.registrar.witPub.cues)
            vf.same(self.registrar.complete(pre=t.pre, sn=t.sn), t.sent and told, f"whether {t.serder.ilk} is complete")
            if t.sent and told:
                self.labels.add("complete")
        more = True
        while more:
            more = False
            for cr in self.creds:
                # judged only from when its issuance is there, and dropped when what it rests on is revoked
                if not cr.saved and reger.saved.get(keys=cr.said) is not None:
                    vf.check(cr.iss.said in self.keep, "a credential is taken which was not issued")
                    vf.check(all(x.saved for x, _ in cr.far), "a credential is taken without what it rests on")
                    cr.saved = more = True
        for cr in self.creds:
            if cr.iss.said in self.keep and self.chain(cr) and not any(x.rev for x, _ in cr.far):
                vf.check(cr.saved, "an issued credential is not taken")
            if any(x.saved and op != "NI2I" and x.subject != self.hab.pre and not (op is None and x.subject is None) for x, op in cr.far):
                vf.check(not cr.saved, "a credential is taken whose chain does not hold")
            told = any(m["said"] == cr.said for m in self.registrar.witPub.cues)
            cr.done = cr.done or cr.saved and cr.iss.sent and told
            vf.same(self.cred.complete(said=cr.said), cr.done, "whether a credential is complete")
            if cr.iss.said in self.keep:
                s = reger.tevers[self.regs[cr.reg].pre].vcState(cr.said)
                last = cr.rev if cr.rev and cr.rev.said in self.keep else cr.iss
                vf.same((s.i, s.s, s.d, s.ri, s.et, s.a["s"], s.a["d"]), (cr.said, f"{last.sn:x}", last.said, self.regs[cr.reg].pre, last.serder.ilk, last.anchor[0], last.anchor[1]), "state of a credential")
        saved = {cr.said for cr in self.creds if cr.saved}
        vf.same({s.qb64 for s in reger.issus.get(keys=self.hab.pre)}, saved, "credentials issued by oneself")
        vf.same({s.qb64 for s in reger.subjs.get(keys=self.hhab.pre)}, {cr.said for cr in self.creds if cr.saved and cr.subject == self.hhab.pre}, "credentials of the holder")

    def restart(self):
        from keri.vdr.eventing import Reger  # noqa
        if self.registrar.receiptor.msgs or self.registrar.witPub.msgs or any(t.anchor and not t.sent for t in self.tels):
            return      # what is under way in memory would be lost
        told = list(self.registrar.witPub.cues)
        self.rgy.close()
        self.I.close()
        self.load(self.make("i", v=self.c["v"], salt=b"0123456789abcdef"))
        self.registrar.witPub.cues.extend(told)
        vf.same({n: self.rgy.registryByName(n).regk for n in self.regs}, {n: t.pre for n, t in self.regs.items()}, "registries after a restart")
        self.labels.add("restart")

    def send(self, who, k, again):
        """a credential is sent to another, with all that it needs"""
        from keri.vdr.credentialing import sendCredential, sendRegistry
        p = self.others[who]
        if not self.creds:
            return
        self.tick()
        cr = self.creds[k % len(self.creds)]
        if not cr.saved or self.wits and max(x.sn for x in self.evs.values()) != max([s for s, h in self.receipts.items() if len(h) == len(self.wits)], default=-1):
            return
        if self.wits and any(len(self.receipts.get(s, ())) < len(self.wits) for s in self.evs):
            return
        out = []
        post = SimpleNamespace(send=lambda serder, attachment: out.append(bytes(serder.raw) + bytes(attachment)))
        recp = self.hhab.pre if who == 0 else kel.qkey(77)
        if again == 9:
            sendRegistry(self.I.hby, self.rgy.reger, post, cr.creder, self.hab.pre, recp)
        sendCredential(self.I.hby, self.hab, self.rgy.reger, post, cr.creder, recp)
        if again % 3 == 0:
            out = out + out
        for raw in out:
            p.give(raw)
        need = [cr]
        for x in need:
            need.extend(y for y, _ in x.far)
        for x in need:
            if not any(y.rev and y.rev.said in self.keep for y in need if y is not x):
                vf.check(p.reger.saved.get(keys=x.said) is not None, "a credential sent is not taken by the other (revoked %s)", x.rev and x.rev.said in self.keep)
                self.labels.add("taken")
            vf.check(x.subject in (None, recp) or x.subject in p.env.db.kevers, "the subject of a credential is not known to whom it was sent")
            tev = p.reger.tevers.get(self.regs[x.reg].pre)
            vf.check(tev is not None, "a registry is not known to whom a credential was sent")
            a, b = tev.vcState(x.said), self.rgy.reger.tevers[self.regs[x.reg].pre].vcState(x.said)
            vf.same((a.et, a.d, a.a), (b.et, b.d, b.a), "state of a credential at who it was sent to")
            if x.rev and x.rev.said in self.keep:
                self.labels.add("sent revoked")


@vf.leg(LEGS, CASE, quick=400, thorough=6000)
def lives(c):
    with environ.place() as make:
        w = World(c, make)
        w.register(0, True)
        w.witness(3)
        w.tick()
        holds = c["holds"]
        for i, s in enumerate(c["steps"]):
            if s[0] == "reg":
                w.register(s[1], s[2])
            elif s[0] == "issue":
                w.issue(s[1])
            elif s[0] == "revoke":
                w.revoke(s[1], s[2])
            elif s[0] == "anchor":
                ts = [t for t in w.tels if t.anchor is None]
                if ts:
                    k = s[1] % len(ts)
                    w.anchor(*(ts[k:k + 3] if s[3] else ts[k:k + 1]), after=s[2])
            elif s[0] == "witness":
                w.witness(*s[1:])
            elif s[0] == "publish":
                w.publish()
            elif s[0] == "restart":
                w.restart()
            elif s[0] == "other":
                m = w.other(s[1])
                w.registrar.receiptor.msgs.append(dict(pre=w.hab.pre, sn=m.sn))
            elif s[0] == "send":
                w.send(*s[1:])
            hold = holds[i % len(holds)] if holds else 0
            if hold == 1:
                w.registrar.processEscrows()
            elif hold == 2:
                w.I.settle()
                w.rgy.processEscrows()
            elif hold == 0:
                w.tick()
        for t in [t for t in w.tels if t.anchor is None]:
            w.anchor(t)
        for _ in range(2):
            w.tick()
            w.witness(3)
        w.tick()
        w.publish()
        w.tick()
        for cr in w.creds:
            vf.check(cr.done or not cr.saved, "a credential does not come to completion")
        for k in reversed(range(len(w.creds))):
            w.send(k % 2, k, 1)
        return sorted(w.labels & {"complete", "taken", "refused", "sent revoked", "restart", "some receipts"}) if w.labels & {"taken", "refused"} else None
