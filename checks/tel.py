"""Reference model of credential registries: events written here (not by keri), the rules by which a
validator moves from one registry or credential state to the next, written from their specification."""
import copy
import vf
from . import cesr, kel

B = dict(op="rot", k=None, nn=1, kt=(0, 0), nt=(0, 0), cut=[], add=[], bt=0, back=0, then=False, a=[], sig=None, wig=None, f=None)
DT = "2024-01-02T03:04:05.{:06}+00:00"


class Issuer:
    """a controller whose log anchors registry events"""
    def __init__(self, n, eo=False):
        self.n = n
        (icp,), self.model, self.ctl = kel.author([dict(B, op="icp", nk=1 + n % 2, nn=1, wits=[], c=["EO"] if eo else [], basic=False, nontrans=False)], base=20000 + 1000 * n)
        self.msgs = [icp[0]]
        self.eo = eo
        self.pre = self.ctl.pre

    def anchor(self, seals, rot=False):
        """the next event of its log, holding these seals"""
        op = dict(B, op="rot" if rot or self.eo else "ixn", a=list(seals), nn=1)
        ((m, ok),), _, _ = kel.author([op], ctl=self.ctl)
        assert ok
        self.msgs.append(m)
        return m

    @property
    def sn(self):
        return len(self.msgs) - 1


def seal(e):
    return dict(i=e["i"], s=e["s"], d=e["d"])


def num(s):
    return int(s, 16)


class Ev(kel.Msg):
    """a registry or credential event with the backer signatures and source seal given with it"""
    @property
    def said(self):
        return self.sad["d"]

    def couple(self):
        return self.src


def event(fields, kind="JSON"):
    raw, sad = kel.build(fields, kind, said=("d", "i") if fields["t"] == "vcp" and not fields["i"] else ("d",))
    return Ev(raw, sad)


def regi(e):
    return e["i"] if e["t"] in ("vcp", "vrt") else e["ri"] if e["t"] in ("iss", "rev") else e["ra"]["i"]


def backed(baks, toad, m):
    """genuine signatures by enough of the backers"""
    return len(sigs(baks, m)) >= toad


def sigs(baks, m):
    return {i for i, _ in kel.verified(True, baks, m.wigs)}


def valid_toad(toad, baks):
    return 1 <= toad <= len(baks) if baks else toad == 0


class Model:
    """what a validator knows: key event logs (given in order), registries, credentials"""
    def __init__(self, local=False):
        self.local = local
        self.kels = {}      # pre -> [events]
        self.regs = {}      # regk -> dict
        self.vcs = {}       # vc -> (regk, [events])
        self.log = {}       # said -> (event, source)

    def key(self, m):
        log = self.kels.setdefault(m.sad["i"], [])
        assert num(m.sad["s"]) == len(log)
        log.append(m.sad)

    def anchored(self, pre, e, src):
        if not src:
            return False
        log = self.kels.get(pre, [])
        if not src[0] < len(log):
            return False
        k = log[src[0]]
        return k["d"] == src[1] and any(isinstance(s, dict) and (s.get("i"), s.get("s"), s.get("d")) == (e["i"], e["s"], e["d"]) for s in k["a"])

    def witnessed(self, rk, baks, toad, m):
        if not baks or self.local or rk in baks:
            return True
        return backed(baks, toad, m)

    def judge(self, m):
        """ok, or why not: order, anchor, sigs, not"""
        e = m.sad
        if m.broken:
            return "not"
        t, rk, sn = e["t"], regi(e), num(e["s"])
        if t in ("vcp", "iss", "bis") and sn or t in ("vrt", "rev", "brv") and not sn:
            return "not"
        if rk not in self.regs:
            if t != "vcp":
                return "order"
            if len(set(e["b"])) != len(e["b"]) or not valid_toad(num(e["bt"]), e["b"]):
                return "not"
            if not self.anchored(e["ii"], e, m.src):
                return "anchor"
            return "ok" if self.witnessed(rk, e["b"], num(e["bt"]), m) else "sigs"
        if t == "vcp":
            return "not"
        r = self.regs[rk]
        if t == "vrt":
            if sn != r["sn"] + 1:
                return "order" if sn > r["sn"] else "not"
            if r["nb"] or e["p"] != r["last"]:
                return "not"
            new = self.rotated(r["baks"], e)
            if new is None:
                return "not"
            if not self.anchored(r["pre"], e, m.src):
                return "anchor"
            return "ok" if self.witnessed(rk, new, num(e["bt"]), m) else "sigs"
        have = self.vcs.get(e["i"], (None, []))
        if sn != len(have[1]):
            return "order" if sn > len(have[1]) else "not"
        if t in ("iss", "rev") and not r["nb"] or t in ("bis", "brv") and r["nb"]:
            return "not"
        if t in ("rev", "brv") and (have[0] != rk or e["p"] != have[1][-1]["d"]):
            return "not"
        if t in ("iss", "rev"):
            return "ok" if self.anchored(r["pre"], e, m.src) else "anchor"
        ra = e["ra"]
        if r["at"].get(num(ra["s"]), (None,))[0] != ra["d"]:
            return "order"
        _, baks, toad = r["at"][num(ra["s"])]
        if not self.anchored(r["pre"], e, m.src):
            return "anchor"
        return "ok" if self.witnessed(rk, baks, toad, m) else "sigs"

    @staticmethod
    def rotated(baks, e):
        cuts, adds = e["br"], e["ba"]
        if len(set(cuts)) != len(cuts) or len(set(adds)) != len(adds) or set(cuts) - set(baks) or set(adds) & set(baks) or set(cuts) & set(adds):
            return None
        new = [b for b in baks if b not in cuts] + adds
        return new if valid_toad(num(e["bt"]), new) else None

    def baks_for(self, e):
        """backers asked to sign an accepted event"""
        t, rk = e["t"], regi(e)
        if t in ("vcp", "vrt"):
            return self.regs[rk]["at"][num(e["s"])][1]
        if t in ("bis", "brv"):
            return self.regs[rk]["at"][num(e["ra"]["s"])][1]
        return []

    def accept(self, m):
        why = self.judge(m)
        if why != "ok":
            return False
        e = m.sad
        t, rk, sn = e["t"], regi(e), num(e["s"])
        if t == "vcp":
            self.regs[rk] = dict(pre=e["ii"], nb="NB" in e["c"], eo="EO" in e["c"], at={})
            baks = list(e["b"])
        elif t == "vrt":
            baks = self.rotated(self.regs[rk]["baks"], e)
        if t in ("vcp", "vrt"):
            r = self.regs[rk]
            r.update(sn=sn, last=e["d"], baks=baks, toad=num(e["bt"]), t=t)
            r["at"][sn] = (e["d"], baks, num(e["bt"]))
        else:
            self.vcs.setdefault(e["i"], (rk, []))[1].append(e)
        self.log[e["d"]] = (m, m.src)
        return True


class Tel:
    """a real validator with registries"""
    def __init__(self, local=False, lax=False):
        from keri.vdr.eventing import Reger, Tevery
        from keri.core.parsing import Parser
        from keri.kering import Vrsn_1_0
        self.val = kel.Val()
        self.db = self.val.db
        self.reger = Reger(name=f"reg{kel.Val.count}", temp=True, db=self.db)
        self.tvy = Tevery(reger=self.reger, db=self.db, local=local, lax=lax)
        self.psr = Parser(kvy=self.val.kvy, tvy=self.tvy, rvy=self.val.rvy, version=Vrsn_1_0)

    def give(self, stream):
        ims = bytearray(stream)
        self.psr.parse(ims=ims)
        vf.check(not ims, "%d bytes left in the stream", len(ims))

    def escrows(self, n=1):
        for _ in range(n):
            self.tvy.processEscrows()

    def restart(self, mine=()):
        from keri.vdr.eventing import Tevery
        self.reger.close(clear=False)
        dict.clear(self.reger._tevers)
        self.reger.reopen(reuse=True)
        self.reger.registries.update(mine)
        self.tvy = Tevery(reger=self.reger, db=self.db, local=self.tvy.local, lax=self.tvy.lax)
        self.psr.tvy = self.tvy

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.reger.close(clear=True)
        self.val.close()


def logs(tel):
    """every accepted event: (identifier, number, digest)"""
    return [(k[0], on, d) for k, on, d in tel.reger.tels.getTopItemIter()]


def compare(tel, model, what, full=True):
    reger = tel.reger
    want = sorted([(rk, sn, d) for rk, r in model.regs.items() for sn, (d, _, _) in r["at"].items()]
                  + [(vc, n, e["d"]) for vc, (_, evs) in model.vcs.items() for n, e in enumerate(evs)])
    vf.same(sorted(logs(tel)), want, f"{what}: accepted events")
    for rk, r in model.regs.items():
        vf.check(rk in reger.tevers, "%s: registry not known", what)
        t = reger.tevers[rk]
        vf.same(dict(pre=t.pre, sn=t.sn, last=t.serder.said, baks=sorted(t.baks), toad=t.toad, nb=t.noBackers, eo=t.estOnly, regk=t.regk, t=t.ilk),
                dict(pre=r["pre"], sn=r["sn"], last=r["last"], baks=sorted(r["baks"]), toad=r["toad"], nb=r["nb"], eo=r["eo"], regk=rk, t=r["t"]), f"{what}: registry state")
        s = reger.states.get(keys=rk)
        vf.same(dict(pre=s.ii, sn=s.s, last=s.d, baks=sorted(s.b), toad=s.bt, c=sorted(s.c), regk=s.i, t=s.et),
                dict(pre=r["pre"], sn=f"{r['sn']:x}", last=r["last"], baks=sorted(r["baks"]), toad=f"{r['toad']:x}", c=sorted([x for x, on in (("NB", r["nb"]), ("EO", r["eo"])) if on]), regk=rk, t=r["t"]),
                f"{what}: stored registry state")
        for vc, (owner, evs) in model.vcs.items():
            vs = t.vcState(vc)
            if owner != rk:
                vf.same(vs, None, f"{what}: state of a credential of another registry")
                continue
            e = evs[-1]
            src = model.log[e["d"]][1]
            vf.same(dict(i=vs.i, s=vs.s, d=vs.d, ri=vs.ri, ra=dict(vs.ra), a=dict(vs.a), dt=vs.dt, et=vs.et),
                    dict(i=vc, s=f"{len(evs) - 1:x}", d=e["d"], ri=rk, ra=e.get("ra", {}), a=dict(s=src[0], d=src[1]), dt=e["dt"], et=e["t"]), f"{what}: credential state")
        vf.same(t.vcState(kel.qdig(b"never")), None, f"{what}: state of an unknown credential")
    vf.check(all(k in model.regs for k in dict.keys(reger.tevers)), "%s: registry without accepted inception", what)
    for d, (m, src) in model.log.items():
        key = (m.sad["i"], d)
        vf.same(reger.tvts.get(keys=key).encode(), m.raw, f"{what}: stored event")
        n, g = reger.ancs.get(keys=key)
        vf.same((n.num, g.qb64), src, f"{what}: recorded anchor of {m.sad['t']}")
        baks = model.baks_for(m.sad)
        have = reger.tibs.get(keys=key)
        for s in have:
            from keri.core import Verfer
            vf.check(s.index < len(baks) and Verfer(qb64=baks[s.index]).verify(s.raw, m.raw), "%s: a stored backer signature is not genuine", what)
        if full:
            vf.same({s.index for s in have}, sigs(baks, m), f"{what}: backer signatures of {m.sad['t']}")
