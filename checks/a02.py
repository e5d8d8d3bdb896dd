"""A02: a local identifier does what it is told or refuses and stays as it was, over refusals, restarts and crashes."""
import hashlib
import math
import os
import shutil
import tempfile
from hypothesis import strategies as st
import vf
from . import kel

RULE = ("histories over one environment on disk: identifiers created (namespaces, one or several keys, weighted thresholds, salted and random keys, witnesses, "
        "delegation, configuration traits, data), rotated with every parameter, used to anchor data, sign and endorse, deleted and reopened; a third of the "
        "requests impossible. Interrupted: a crash at any commit of one such request. Non-trivial: a rotation or reopening followed by further use.")
ASSUMPTIONS = ["lmdb and libsodium replaced by stand-ins with their documented semantics", "key stretching replaced by a hash of all its arguments"]
LEGS = []
NAMES = [(None, "alice"), (None, "bob"), ("org", "alice"), ("org", "c d"), ("x-y", "é"), (None, "bob/2")]
SITHS = [None, None, None, "1", "2", "3", 1, 2, ["1/2", "1/2"], ["1/2", "1/2", "1/2"], ["1"], [["1/2", "1/2"], ["1"]], "4", "0"]
WITS = [kel.qkey(700 + i, False) for i in range(5)]
KEYFAKE = lambda outlen, *pa, **kw: hashlib.blake2b(repr((outlen, pa, sorted(kw.items()))).encode(), digest_size=outlen).digest()


def good(n):
    """thresholds for n keys"""
    out = [None, None] + [f"{k:x}" for k in range(1, n + 1)] + list(range(1, n + 1))
    return out + {1: [["1"]], 2: [["1/2", "1/2"], ["1", "1"]], 3: [["1/2", "1/2", "1/2"], [["1/2", "1/2"], ["1"]]]}.get(n, [])


@st.composite
def sith(draw, n):
    return draw(st.sampled_from(good(n)) if draw(st.integers(0, 11)) else st.sampled_from(SITHS))


@st.composite
def makes(draw):
    n = draw(st.sampled_from([1, 1, 1, 2, 3]))
    trans = draw(st.integers(0, 7)) > 0
    if not trans and draw(st.integers(0, 3)):
        n = 1
    nn = draw(st.sampled_from([None] * 8 + [1, 2, 3, 1, 2, 3, 0]))
    isith = draw(sith(n))
    nsith = draw(sith(n if nn is None else nn)) if nn is None or nn else draw(st.sampled_from(["0", "0", None]))
    if nn is not None and nsith is None and draw(st.integers(0, 3)):
        isith = None
    wits = draw(st.lists(st.integers(0, 4), max_size=4, unique=draw(st.integers(0, 9)) > 0)) if draw(st.integers(0, 2)) == 0 and (trans or not draw(st.integers(0, 3))) else []
    toad = draw(st.integers(1, len(wits)) if wits else st.sampled_from([0, 0, 0, 1])) if draw(st.booleans()) else None
    return dict(op="make", name=draw(st.integers(0, 5)), trans=trans, icount=n, ncount=nn, isith=isith, nsith=nsith, toad=draw(st.integers(0, 5)) if not draw(st.integers(0, 11)) else toad,
                wits=wits, eo=not draw(st.integers(0, 6)), dnd=not draw(st.integers(0, 6)), algo=draw(st.sampled_from([None, None, "salty", "randy"])),
                salt=draw(st.sampled_from([None] * 5 + [0, 1, 2])), data=draw(kel.DATA) if trans and not draw(st.integers(0, 3)) else None,
                dele=draw(st.integers(0, 5)) if trans and not draw(st.integers(0, 3)) else None)


@st.composite
def rots(draw):
    nn = draw(st.sampled_from([None, None, None, 1, 2, 3, 1, 2, 0]))
    nsith = draw(sith(nn)) if nn else draw(st.sampled_from(["0", "0", None])) if nn == 0 else None if draw(st.integers(0, 3)) else draw(sith(1))
    if nn and nsith is None and draw(st.integers(0, 3)):
        nsith = "1"
    return dict(op="rot", which=draw(st.integers(0, 5)), ncount=nn, isith=draw(sith(draw(st.integers(1, 3)))) if not draw(st.integers(0, 3)) else None, nsith=nsith,
                toad=draw(st.integers(0, 5)) if not draw(st.integers(0, 4)) else None, cuts=draw(st.lists(st.integers(0, 4), max_size=2)) if not draw(st.integers(0, 3)) else (),
                adds=draw(st.lists(st.integers(0, 4), max_size=2)) if not draw(st.integers(0, 3)) else (), data=draw(kel.DATA) if not draw(st.integers(0, 3)) else None)


MAKE, ROT = makes(), rots()
IXN = st.fixed_dictionaries(dict(op=st.just("ixn"), which=st.integers(0, 5), data=vf.weighted((1, st.none()), (3, kel.DATA))))
USE = st.fixed_dictionaries(dict(op=st.just("use"), which=st.integers(0, 5), ser=st.binary(min_size=1, max_size=20)))
DEL = st.fixed_dictionaries(dict(op=st.just("del"), name=st.integers(0, 5)))
OPEN = st.just(dict(op="open"))
OPS = vf.weighted((3, MAKE), (6, ROT), (3, IXN), (2, USE), (1, DEL), (2, OPEN))


def size(s, n):
    """how many keys a threshold needs, None if it is no threshold"""
    if isinstance(s, list):
        m = sum(len(x) for x in s) if isinstance(s[0], list) else len(s)
        return m if m >= n else -1      # fewer weights than keys: unsaid
    return int(s, 16) if isinstance(s, str) else s


def text(s):
    return f"{s:x}" if isinstance(s, int) else s


def half(n, low):
    return f"{max(low, math.ceil(n / 2)):x}"


def ample(n):
    """least number of witnesses so that any two such sets share an honest one"""
    f = max(1, (n - 1) // 3)
    return max(0, min(n, math.ceil((n + f + 1) / 2))) if n else 0


def errors():
    from keri.kering import KeriError
    return (KeriError, ValueError, KeyError, IndexError)


class World:
    """one environment on disk, what it should hold, and a remote validator"""

    def __init__(self, path, form=(1, "JSON")):
        from keri.kering import Vrsn_1_0, Vrsn_2_0
        from keri.core.parsing import Parser
        self.path, self.hby = path, None
        self.v, self.kind = Vrsn_1_0 if form[0] == 1 else Vrsn_2_0, form[1]
        self.idents = {}    # (ns, name) -> expected key state
        self.spent = set()  # names whose salted keys were used
        self.far = kel.Val()
        self.parser = lambda far: Parser(kvy=far.kvy, rvy=far.rvy, version=self.v)
        self.open()

    def open(self):
        from keri.app.habbing import Habery
        from keri.app.keeping import Keeper
        from keri.app.configing import Configer
        from keri.db.basing import Baser
        from keri.core import Salter
        if self.hby:
            self.hby.close()
        d = self.path
        kw = dict(name="env", headDirPath=d, reopen=True)
        self.hby = Habery(name="env", ks=Keeper(**kw), db=Baser(**kw), cf=Configer(**kw), temp=False, salt=Salter(raw=b"0123456789abcdef").qb64, version=self.v)

    def close(self):
        if self.hby:
            self.hby.close()
        self.far.close()

    def hab(self, k):
        return self.hby.habByName(k[1], ns=k[0])

    def pick(self, which):
        ks = sorted(self.idents, key=str)
        return ks[which % len(ks)] if ks else None

    # -- what should come of requests
    def wants(self, op):
        """expected inception, or None if it must be refused"""
        k = NAMES[op["name"]]
        n = op["icount"]
        nn = op["ncount"] if op["ncount"] is not None else n
        isith, nsith = op["isith"], op["nsith"] if op["nsith"] is not None else op["isith"]
        if not op["trans"]:
            nn, nsith = 0, "0"
        isith = half(n, 1) if isith is None else text(isith)
        nsith = half(nn, 0) if nsith is None else text(nsith)
        wits = [WITS[w] for w in op["wits"]]
        toad = op["toad"] if op["toad"] is not None else ample(len(wits))
        if -1 in (size(isith, n), size(nsith, nn)) or nn and size(nsith, nn) < 1:
            return "unsaid"     # fewer weights than keys, next keys which need not sign
        if not op["trans"] and (op["eo"] or op["dnd"] or isinstance(isith, list)):
            return "unsaid"
        if len(set(wits)) < len(wits) or toad > len(wits) or wits and toad < 1:
            return None
        if size(isith, n) > n or size(nsith, nn) > nn or size(isith, n) < 1:
            return None
        if not op["trans"] and (wits or n > 1 or op["data"] or op["dele"] is not None):
            return None
        if k in self.idents:
            return None
        return dict(n=n, nn=nn, kt=isith, nt=nsith, b=wits, bt=toad, c=[x for x, on in (("EO", op["eo"]), ("DND", op["dnd"])) if on], a=op["data"] or [],
                    trans=op["trans"], sn=0)

    def turns(self, op, w):
        """expected state after a rotation of w, or None"""
        if not w["nn"]:
            return None
        n = w["nn"]
        nn = op["ncount"] if op["ncount"] is not None else n
        isith = text(op["isith"]) if op["isith"] is not None else w["nt"]
        nsith = text(op["nsith"]) if op["nsith"] is not None else isith
        if -1 in (size(isith, n), size(nsith, nn)) or nn and size(nsith, nn) < 1:
            return "unsaid"
        cuts, adds = [WITS[x] for x in op["cuts"]], [WITS[x] for x in op["adds"]]
        if len(set(cuts)) < len(cuts) or len(set(adds)) < len(adds) or set(cuts) & set(adds) or set(cuts) - set(w["b"]) or set(adds) & set(w["b"]):
            return None
        wits = [x for x in w["b"] if x not in cuts] + adds
        toad = op["toad"] if op["toad"] is not None else w["bt"] if not cuts and not adds else ample(len(wits))
        if toad > len(wits) or wits and toad < 1:
            return None
        if size(isith, n) > n or size(isith, n) < 1 or size(nsith, nn) > nn:
            return None
        return dict(w, n=n, nn=nn, kt=isith, nt=nsith, b=wits, bt=toad, a=op["data"] or [], sn=w["sn"] + 1, br=cuts, ba=adds)

    # -- comparisons
    def body(self, hab, sn):
        from keri.db import dgKey
        return hab.getOwnEvent(sn)[0]

    def matches(self, hab, w, what, own=True):
        """the last establishment or other event and the key state are what was asked"""
        kv = hab.kever
        vf.check(kv is not None, "%s: no key state", what)
        vf.same((kv.sner.num, [*kv.wits], kv.toader.num, kv.tholder.sith, kv.ntholder.sith, len(kv.verfers), len(kv.ndigers), hab.pre),
                (w["sn"], w["b"], w["bt"], w["kt"], w["nt"], w["n"], w["nn"], w["pre"]), f"{what}: key state")
        vf.same((kv.estOnly, kv.doNotDelegate, kv.delpre or ""), ("EO" in w["c"], "DND" in w["c"], w.get("di", "")), f"{what}: traits")
        if "keys" in w:
            vf.same([v.qb64 for v in kv.verfers], w["keys"], f"{what}: keys")
            vf.same([d.qb64 for d in kv.ndigers], w["digs"], f"{what}: next digests")
        w["keys"], w["digs"], w["d"] = [v.qb64 for v in kv.verfers], [d.qb64 for d in kv.ndigers], kv.serder.said

    def audit(self, what):
        """all identifiers, and no others, are there as they should be, and can sign"""
        hby = self.hby
        vf.same(sorted(hby.habs), sorted(w["pre"] for w in self.idents.values()), f"{what}: identifiers of the environment")
        vf.check(set(hby.prefixes) >= set(hby.habs), "%s: identifier not among the local ones", what)
        for k, w in self.idents.items():
            h = self.hab(k)
            vf.check(h is not None, "%s: %r not found by name", what, k)
            vf.same((h.pre, h.name, h.ns, hby.habByPre(w["pre"]) is h), (w["pre"], k[1], k[0], True), f"{what}: identifier found by name")
            self.matches(h, w, f"{what}: {k}")
            self.signs(h, w, b"audit", what)
        for k in NAMES:
            vf.check(k in self.idents or self.hab(k) is None, "%s: %r found though it is not there", what, k)

    def signs(self, h, w, ser, what):
        from keri.core import Verfer
        sigs = h.sign(ser=ser)
        vf.same([(s.index, s.ondex) for s in sigs], [(i, i) for i in range(len(w["keys"]))], f"{what}: signature indices")
        vf.check(all(Verfer(qb64=q).verify(s.raw, ser) for q, s in zip(w["keys"], sigs)), "%s: signature does not verify with the keys in force", what)
        cigs = h.sign(ser=ser, indexed=False)
        vf.check(len(cigs) == len(w["keys"]) and all(Verfer(qb64=q).verify(s.raw, ser) for q, s in zip(w["keys"], cigs)), "%s: unindexed signature", what)

    def remote(self, k, w, stream, what):
        """a remote validator accepts what the identifier issued"""
        self.parser(self.far).parse(ims=bytearray(stream))
        if w["bt"]:
            raw = bytes(self.body(self.hab(k), w["sn"]).raw)
            self.far.give(kel.rct(w["pre"], w["sn"], w["d"], raw, wigs=[kel.Sig(700 + WITS.index(q), i, i) for i, q in enumerate(w["b"])]))
        if w.get("di"):
            self.approve(w)
        self.far.escrows(2)
        vf.check(w["pre"] in self.far.db.kevers, "%s: inception not accepted elsewhere", what)
        kv = self.far.db.kevers[w["pre"]]
        vf.same((kv.sner.num, kv.serder.said, [v.qb64 for v in kv.verfers], [d.qb64 for d in kv.ndigers], list(kv.wits), kv.toader.num, kv.tholder.sith, kv.ntholder.sith),
                (w["sn"], w["d"], w["keys"], w["digs"], w["b"], w["bt"], w["kt"], w["nt"]), f"{what}: key state elsewhere")

    def approve(self, w):
        """the delegator anchors the delegate's last event"""
        k = next(k for k, v in self.idents.items() if v["pre"] == w["di"])
        seal = dict(i=w["pre"], s=f"{w['sn']:x}", d=w["d"])
        self.do(dict(op="ixn", which=sorted(self.idents, key=str).index(k), data=[seal]), nested=True)

    # -- requests
    def do(self, op, nested=False):
        o = op["op"]
        if self.kind == "CESR" and op.get("data"):
            op["data"] = [x if set(x) in ({"d"}, {"i", "s", "d"}) and x["d"][:1] == "E" else dict(d=kel.qdig(repr(x))) for x in op["data"]]
        what = f"{o} {op.get('name', op.get('which', ''))}"
        if o == "open":
            self.open()
            self.audit("after reopening")
            return "reopened"
        if o == "make":
            k = NAMES[op["name"]]
            w = self.wants(op)
            if w == "unsaid":
                return None
            kw = dict(name=k[1], ns=k[0], transferable=op["trans"], icount=op["icount"], ncount=op["ncount"], isith=op["isith"], nsith=op["nsith"], toad=op["toad"],
                      wits=[WITS[x] for x in op["wits"]], estOnly=op["eo"], DnD=op["dnd"], algo=op["algo"], data=op["data"],
                      version=self.v, kind=self.kind)
            if op["salt"] is not None:
                from keri.core import Salter
                kw["salt"] = Salter(raw=bytes([op["salt"]]) * 16).qb64
            if op["dele"] is not None and w:
                bosses = [x for x in sorted(self.idents, key=str) if self.idents[x]["nn"] and not {"EO", "DND"} & set(self.idents[x]["c"])]
                if not bosses:
                    return None
                kw["delpre"] = w["di"] = self.idents[bosses[op["dele"] % len(bosses)]]["pre"]
            if k in self.spent and k not in self.idents and op["algo"] != "randy":   # its keys would be those used before
                return None
            if w is None:
                try:
                    self.hby.makeHab(**kw)
                except errors():
                    if k not in self.idents and op["algo"] != "randy":
                        self.spent.add(k)   # as good as
                    self.audit(f"{what} refused")
                    return "make-refused"
                raise vf.Violation(f"{what}: creation with impossible parameters not refused: {kw}")
            if op["algo"] != "randy":
                self.spent.add(k)
            h = self.hby.makeHab(**kw)
            w["pre"] = h.pre
            self.idents[k] = w
            self.matches(h, w, what)
            e = self.body(h, 0).sad
            vf.same((e["t"], e["kt"], e["nt"], int(e["bt"], 16), e["b"], e["c"], e["a"]), ("dip" if "di" in w else "icp", w["kt"], w["nt"], w["bt"], w["b"], w["c"], w["a"]), what)
            vf.check(h.pre not in [v["pre"] for x, v in self.idents.items() if x != k], "%s: two identifiers are one", what)
            self.remote(k, w, h.msgOwnInception(gvrsn=self.v), what)
            return "made"
        if o == "del":
            k = NAMES[op["name"]]
            if any(v.get("di") == self.idents.get(k, {}).get("pre", 0) for v in self.idents.values()):
                return None
            vf.same(self.hby.deleteHab(k[1], ns=k[0]), k in self.idents, f"{what}: deleted")
            self.idents.pop(k, None)
            self.audit(what)
            return "deleted"
        k = self.pick(op["which"])
        if k is None:
            return None
        h, w = self.hab(k), self.idents[k]
        form = dict(version=self.v, gvrsn=self.v, kind=self.kind)
        if o == "use":
            self.signs(h, w, op["ser"], what)
            self.uses(h, w, what)
            return "used"
        if o == "rot":
            new = self.turns(op, w)
            if new == "unsaid":
                return None
            kw = {x: op[x] for x in ("ncount", "isith", "nsith", "toad", "data")}
            kw.update(cuts=[WITS[x] for x in op["cuts"]], adds=[WITS[x] for x in op["adds"]])
            fn = h.rotate
        else:
            new = dict(w, sn=w["sn"] + 1, a=op["data"] or []) if w["nn"] and "EO" not in w["c"] else None
            kw, fn = dict(data=op["data"]), h.interact
        if new is None:
            try:
                fn(**kw, **form)
            except errors():
                if not nested:
                    self.audit(f"{what} refused")
                return f"{o}-refused"
            raise vf.Violation(f"{what}: not refused: {kw}")
        prior, digs = w["d"], w["digs"]
        msg = fn(**kw, **form)
        if o == "rot":
            new.pop("keys"), new.pop("digs")
        self.matches(h, new, what)
        e = self.body(h, new["sn"]).sad
        vf.same((e["t"], e["i"], int(e["s"], 16), e["p"], e["a"]), (("drt" if w.get("di") else "rot") if o == "rot" else "ixn", w["pre"], new["sn"], prior, new["a"]), f"{what}: event")
        if o == "rot":
            from keri.core import Diger
            vf.same((e["kt"], e["nt"], int(e["bt"], 16), e["br"], e["ba"]), (new["kt"], new["nt"], new["bt"], new["br"], new["ba"]), f"{what}: event")
            vf.same([Diger(ser=q.encode()).qb64 for q in new["keys"]], digs, f"{what}: the keys are those committed to before")
            vf.check(not set(new["digs"]) & set(digs), "%s: next keys used before", what)
        self.idents[k] = new
        vf.check(msg.startswith(self.body(h, new["sn"]).raw), "%s: message is not the event", what)
        if not (w.get("di") and o == "ixn"):
            self.remote(k, new, msg, what)
        else:
            new2 = dict(new)
            new2.pop("di")
            self.remote(k, new2, msg, what)
        return "rotated" if o == "rot" else "anchored"

    def uses(self, h, w, what):
        """endorsed replies count for a remote validator"""
        msg = h.makeEndRole(eid=kel.qkey(801, False), role="mailbox", stamp=None, version=self.v, kind=self.kind, gvrsn=self.v)
        self.parser(self.far).parse(ims=bytearray(msg))
        end = self.far.db.ends.get(keys=(w["pre"], "mailbox", kel.qkey(801, False)))
        vf.check(end is not None and end.allowed, "%s: endorsed reply not accepted elsewhere", what)
        # the whole log replayed to a fresh validator
        if w["bt"] or w.get("di") or any(v.get("di") for v in self.idents.values()) or any(v["bt"] for v in self.idents.values()):
            return
        with kel.Val() as v:
            self.parser(v).parse(ims=h.replay(gvrsn=self.v))
            vf.check(w["pre"] in v.db.kevers and v.db.kevers[w["pre"]].serder.said == w["d"], "%s: replayed log does not lead to the key state", what)


def fast(fn):
    def run(c):
        import pysodium
        keep = pysodium.crypto_pwhash
        pysodium.crypto_pwhash = KEYFAKE
        tmp = tempfile.mkdtemp(prefix="a02")
        try:
            return fn(c, tmp)
        finally:
            pysodium.crypto_pwhash = keep
            shutil.rmtree(tmp, ignore_errors=True)
    run.__name__, run.__doc__ = fn.__name__, fn.__doc__
    return run


def histories(c, tmp):
    """Requests are done as asked, or refused with nothing changed."""
    w = None
    try:
        w = World(tmp, c[0])
        labels = [w.do(dict(op)) for op in c[1]]
        w.audit("at the end")
        w.open()
        w.audit("at the end, reopened")
        labels = {x for x in labels if x}
        return sorted(labels) if labels & {"rotated", "reopened"} and labels & {"made"} else None
    finally:
        if w:
            w.close()


def crashes(c, tmp):
    """After a crash at any point the environment opens, the request is done or not, and everything still works."""
    import lmdb
    form, before, op, at = c
    w = None
    try:
        w = World(tmp, form)
        for o in before:
            w.do(dict(o))
        if op["op"] == "make":
            k = NAMES[op["name"]]
            if w.wants(op) in (None, "unsaid") or op["dele"] is not None or k in w.spent:
                return None
        elif op["op"] == "del":
            k = NAMES[op["name"]]
            if k not in w.idents or any(v.get("di") == w.idents[k]["pre"] for v in w.idents.values()):
                return None
        else:
            k = w.pick(op["which"])
            if k is None or (w.turns(op, w.idents[k]) if op["op"] == "rot" else w.idents[k]["nn"] and "EO" not in w.idents[k]["c"] or None) in (None, "unsaid") or w.idents[k].get("di"):
                return None
        far, w.far, hit = w.far, kel.Val(), False
        was = dict(w.idents)
        w.remote = lambda *pa: None
        lmdb._vf_fault(at)
        try:
            w.do(dict(op))
        except lmdb._VfCrash:
            hit = True
        finally:
            lmdb._vf_fault(None)
            w.far.close()
            w.far = far
        del w.remote
        if not hit:
            return None
        w.idents = was
        what = f"after a crash at commit {at} of {op['op']}"
        w.open()
        h = w.hab(k)
        if op["op"] == "make":
            if h is not None:
                w.idents[k] = dict(w.wants(op), pre=h.pre)
            w.spent.add(k)
        elif op["op"] == "del":
            if h is None:
                w.idents.pop(k)
        elif h is not None and h.kever.sner.num == was[k]["sn"] + 1:
            if op["op"] == "rot":
                new = w.turns(op, was[k])
                new.pop("keys"), new.pop("digs")
            else:
                new = dict(was[k], sn=was[k]["sn"] + 1)
            w.idents[k] = new
        w.audit(what)
        # everything still works
        for i, x in enumerate(sorted(w.idents, key=str)):
            s = w.idents[x]
            w.remote(x, s, w.hab(x).replay(gvrsn=w.v), what) if not s["bt"] and not s.get("di") and not any(v.get("di") or v["bt"] for v in w.idents.values()) else None
            far, w.far = w.far, kel.Val()
            w.remote = lambda *pa: None
            try:
                for n in (2, None):
                    w.do(dict(op="rot", which=i, ncount=n, isith="1", nsith="1", toad=None, cuts=(), adds=(), data=None))
            finally:
                w.far.close()
                w.far = far
                del w.remote
        w.open()
        w.audit(what + ", at the end")
        return [op["op"], "done" if w.idents.get(k, {}).get("sn") != was.get(k, {}).get("sn") else "as-before"]
    finally:
        lmdb._vf_fault(None)
        if w:
            w.close()


FORM = vf.weighted((2, st.just((1, "JSON"))), (2, st.just((2, "JSON"))), (1, st.tuples(st.sampled_from([1, 2]), st.sampled_from(["CBOR", "MGPK"]))), (1, st.just((2, "CESR"))))


@st.composite
def scenes(draw):
    return draw(FORM), [draw(MAKE if draw(st.integers(0, 3)) else st.just(GOOD))] + draw(st.lists(OPS, min_size=1, max_size=10))


GOOD = dict(op="make", name=0, trans=True, icount=1, ncount=None, isith=None, nsith=None, toad=None, wits=[], eo=False, dnd=False, algo=None, salt=None, data=None, dele=None)
EASY = dict(op="rot", which=0, ncount=None, isith=None, nsith=None, toad=None, cuts=(), adds=(), data=None)


@st.composite
def wrecks(draw):
    before = [GOOD] + [dict(GOOD, name=2, algo="randy", icount=2, isith="2")] * draw(st.integers(0, 1))
    before += draw(st.lists(vf.weighted((2, st.just(EASY)), (1, st.just(dict(EASY, which=1))), (1, OPEN), (1, IXN)), max_size=3))
    op = draw(vf.weighted((2, st.just(dict(GOOD, name=1))), (1, st.just(dict(GOOD, name=1, algo="randy", wits=[1, 2]))), (3, st.just(EASY)), (2, st.just(dict(EASY, ncount=3, adds=[1], which=1))),
                          (2, st.just(dict(op="ixn", which=0, data=[dict(d="x")]))), (1, st.just(dict(op="del", name=0)))))
    return draw(FORM), before, op, draw(st.integers(1, 40))


histories = vf.leg(LEGS, scenes(), quick=500, thorough=20000)(fast(histories))
crashes = vf.leg(LEGS, wrecks(), quick=300, thorough=10000)(fast(crashes))
