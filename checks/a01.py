"""A01: the key manager keeps every identifier's keys, gives exactly the right ones, and keeps them secret."""
import hashlib
import os
import shutil
import tempfile
from hypothesis import strategies as st
import vf

RULE = ("histories of inceptions (salted and random, all key kinds, stems, own salts), rotations, renamings, ingested key histories, replays, "
        "signings, changes of the encryption key and reopenings with right, wrong and missing seeds, on one keystore; keys compared with an "
        "independent derivation and a plain-Python model, all entries searched for secrets. Interrupted: a crash at any commit of one "
        "operation. Non-trivial: at least two identifiers' keys or one rotation, or a crash that hit.")
ASSUMPTIONS = ["lmdb and libsodium replaced by stand-ins with their documented semantics",
               "no two identifiers are given stems that make the same derivation paths"]
LEGS = []
CODES = ["A", "Q", "J"]  # seeds of Ed25519, secp256k1, secp256r1
DCODES = ["E", "F", "G", "H", "I"]
SALTS = [bytes(range(i, i + 16)) for i in (0, 16, 40)]
OWN = [hashlib.blake2b(b"own%d" % i, digest_size=32).digest() for i in range(4)]
GIVEN = [hashlib.blake2b(b"given%d" % i, digest_size=32).digest() for i in range(40)]


def refused():
    from keri.kering import KeriError
    return (KeriError, ValueError, KeyError, IndexError)


def signer(raw, code, transferable):
    from keri.core import Signer
    return Signer(raw=raw, code=code, transferable=transferable)


class Ident:
    def __init__(self, **kw):
        self.__dict__.update(kw)

    def kidx(self, r):
        return sum(len(x) for x in self.lots[:r])

    def lot(self, r):
        return self.lots[r] if 0 <= r < len(self.lots) else []


class Model:
    """One keystore, the manager over it, and what it should be."""

    def __init__(self, path, k, salt, seed_first):
        from keri.app import keeping
        from keri.core import Salter
        self.path, self.keeping = path, keeping
        self.salt, self.k = SALTS[salt], k
        self.rootq = Salter(raw=self.salt).qb64
        self.idents, self.keys, self.pidx, self.n = [], {}, 0, 0   # keys: pub -> (raw, code) of those it must have
        self.dead, self.secrets = set(), set()
        self.own = [signer(r, "A", False) for r in OWN]
        self.ks = keeping.Keeper(name="ks", headDirPath=path, reopen=True)
        kw = {} if k is None else dict(aeid=self.aeid(k), seed=self.own[k].qb64)
        self.mgr = keeping.Manager(ks=self.ks, salt=self.rootq, **kw)

    def aeid(self, k):
        return self.own[k].verfer.qb64

    def close(self):
        self.ks.close()

    def dump(self):
        out = {}
        for n in ("gbls", "pris", "prxs", "nxts", "smids", "rmids", "pres", "prms", "sits", "pubs"):
            out[n] = [(bytes(k), bytes(v)) for k, v in self.ks.getTopItemIter(getattr(self.ks, n).sdb)]
        return out

    def refuses(self, what, fn):
        was = self.dump()
        try:
            fn()
        except refused():
            pass
        else:
            raise vf.Violation(f"{what} not refused")
        now = self.dump()
        vf.check(now == was, f"{what} refused but changed {[n for n in was if was[n] != now[n]]}")

    # -- independent derivation
    def derive(self, salt, stem, pidx, ridx, kidx, codes, transferable):
        import pysodium
        out = []
        for i, code in enumerate(codes):
            path = (stem or "%x" % pidx) + "%x%x" % (ridx, kidx + i)
            raw = pysodium.crypto_pwhash(32, path, salt, 1, 8192, 2)
            out.append((signer(raw, code, transferable).verfer.qb64, raw, code))
        return out

    def learn(self, pubs, keys=None):
        """keys now held"""
        for j, pub in enumerate(pubs):
            if keys is None:
                s = self.mgr.ks.pris.get(pub, decrypter=self.mgr.decrypter)
                vf.check(s is not None, f"no private key kept of {pub}")
                raw, code = s.raw, s.code
            else:
                raw, code = keys[j]
            self.keys[pub] = (raw, code)
            self.dead.discard(pub)

    def digers(self, digers, pubs, dcode, what):
        from keri.core import Diger
        vf.same([d.qb64 for d in digers], [Diger(ser=p.encode(), code=dcode).qb64 for p in pubs], f"{what}: next digests")

    def stemmed(self, stem, salt, transferable):
        """a stem of its own"""
        if stem is None:
            return None
        self.n += 1
        return ["x", "name-", "y_"][stem] + "ghi"[self.n % 3] * (1 + self.n // 3) + "-"

    # -- operations
    def incept(self, codes, ncodes, plain, algo, own, stem, transferable, dcode):
        from keri.core import Salter
        codes, ncodes = [CODES[i] for i in codes], [CODES[i] for i in ncodes]
        kw = {}
        salt = self.salt
        stem = self.stemmed(stem, own, transferable)
        if algo == "randy":
            kw["algo"] = "randy"
        else:
            if algo == "salty":
                kw["algo"] = "salty"
            if own is not None:
                salt = SALTS[own]
                kw["salt"] = Salter(raw=salt).qb64
            if stem:
                kw["stem"] = stem
        if plain:  # by number
            codes, ncodes = ["A"] * len(codes), ["A"] * len(ncodes)
            kw.update(icount=len(codes), ncount=len(ncodes))
        else:
            kw.update(icodes=codes)
            kw.update(dict(ncodes=ncodes) if ncodes else dict(ncount=0))
        call = lambda: self.mgr.incept(transferable=transferable, dcode=DCODES[dcode], temp=True, **kw)
        i = Ident(pidx=self.pidx, algo=algo if algo == "randy" else "salty", salt=salt, stem=stem, transferable=transferable, given=False,
                  cur=0, last=None)
        cur = nxt = None
        if i.algo == "salty":
            cur = self.derive(salt, stem, self.pidx, 0, 0, codes, transferable)
            nxt = self.derive(salt, stem, self.pidx, 1, len(codes), ncodes, transferable)
            if any(cur[0][0] in x.names for x in self.idents):
                return self.refuses("inception of an identifier there is", call)
        verfers, digers = call()
        if cur is not None:
            vf.same([v.qb64 for v in verfers], [p for p, _, _ in cur], "derived keys")
            self.digers(digers, [p for p, _, _ in nxt], DCODES[dcode], "incept")
        vf.same([v.code for v in verfers], [signer(OWN[0] if c == "A" else bytes(31) + b"1", c, transferable).verfer.code for c in codes], "kinds of keys")
        i.pre = verfers[0].qb64
        i.names = [i.pre]
        self.idents.append(i)
        self.pidx += 1
        ps = self.ks.sits.get(i.pre)
        i.lots = [[v.qb64 for v in verfers], list(ps.nxt.pubs)]
        if cur is None:
            self.digers(digers, i.lots[1], DCODES[dcode], "incept")
        vf.same(len(i.lots[1]), len(ncodes), "number of next keys")
        for r, ks in ((0, cur), (1, nxt)):
            self.learn(i.lots[r], ks and [(raw, code) for _, raw, code in ks])
        fresh = [p for x in self.idents if x.algo == "randy" for l in x.lots for p in l]
        vf.check(len(set(fresh)) == len(fresh), "random keys repeat")

    def erase(self, pubs):
        for p in pubs:
            self.keys.pop(p, None)
            self.dead.add(p)

    def rotate(self, i, ncodes, plain, dcode, erase):
        ncodes = [CODES[x] for x in ncodes]
        kw = dict(ncount=len(ncodes)) if plain or not ncodes else dict(ncodes=ncodes)
        if plain:
            ncodes = ["A"] * len(ncodes)
        call = lambda: self.mgr.rotate(pre=i.pre, dcode=DCODES[dcode], transferable=i.transferable, temp=True, erase=erase, **kw)
        if i.cur + 1 >= len(i.lots) or not i.lots[i.cur + 1]:
            return self.refuses("rotation without next keys", call)
        if i.cur + 2 < len(i.lots):   # replaying: rotations come after it
            return self.replay(i, True, erase, dcode)
        verfers, digers = call()
        vf.same([v.qb64 for v in verfers], i.lots[i.cur + 1], "keys rotated to")
        i.cur += 1
        r = i.cur + 1
        new = self.derive(i.salt, i.stem, i.pidx, r, i.kidx(r), ncodes, i.transferable) if i.algo == "salty" else None
        pubs = [p for p, _, _ in new] if new is not None else list(self.ks.sits.get(i.pre).nxt.pubs)
        vf.same(len(pubs), len(ncodes), "number of next keys")
        self.digers(digers, pubs, DCODES[dcode], "rotate")
        i.lots.append(pubs)
        self.learn(pubs, new and [(raw, code) for _, raw, code in new])
        if erase:
            self.erase(i.lot(i.cur - 2))

    def replay(self, i, advance, erase, dcode):
        call = lambda: self.mgr.replay(pre=i.pre, dcode=DCODES[dcode], advance=advance, erase=erase)
        c = i.cur + advance
        if advance and c + 1 >= len(i.lots) or any(p in self.dead for p in i.lot(c)):
            return self.refuses("replay beyond the keys", call)
        verfers, digers = call()
        vf.same([v.qb64 for v in verfers], i.lots[c], "keys replayed")
        self.digers(digers, i.lot(c + 1), DCODES[dcode], "replay")
        if advance and erase:
            self.erase(i.lot(i.cur - 1))
        i.cur = c

    def ingest(self, lots, iridx, ncodes, algo, own, bad):
        from keri.core import Salter
        lots = [[(GIVEN[(self.n * 7 + a) % 40], CODES[b]) for a, b in lot] for lot in lots]
        self.n += 1
        stem = self.stemmed(1, own, True)
        salt = self.salt if own is None else SALTS[own]
        kw = dict(algo=algo)
        if algo == "salty":
            kw["stem"] = stem
            if own is not None:
                kw["salt"] = Salter(raw=salt).qb64
        count = len(ncodes)
        pubs = [[signer(r, c, True).verfer.qb64 for r, c in lot] for lot in lots]
        secs = [[signer(r, c, True).qb64 for r, c in lot] for lot in lots]
        flat = [p for l in pubs for p in l]
        if len(set(flat)) < len(flat) or any(p in self.keys or p in self.dead for p in flat):
            return
        call = lambda: self.mgr.ingest(secs, iridx=iridx, ncount=count, temp=True, **kw)
        if bad is not None:
            j = bad % len(secs)
            secs[j] = secs[j] + [secs[j][-1][:-3]]
            return self.refuses("ingesting a malformed secret", call)
        if iridx >= len(lots):
            return self.refuses("ingesting to beyond the last keys", call)
        ipre, verferies = call()
        vf.same([[v.qb64 for v in l] for l in verferies], pubs, "ingested keys")
        vf.same(ipre, pubs[0][0], "ingested identifier")
        i = Ident(pidx=self.pidx, algo=algo, salt=salt, stem=stem, transferable=True, given=True, cur=iridx, pre=ipre, names=[ipre])
        self.pidx += 1
        i.lots = pubs
        r = len(pubs)
        kidx = i.kidx(r)
        if algo == "salty":
            new = self.derive(salt, stem, i.pidx, r, kidx, ["A"] * count, True)
        else:
            new = None
        got = list(self.ks.pubs.get(self.keeping.riKey(ipre, r)).pubs)
        vf.same(len(got), count, "number of next keys")
        if new is not None:
            vf.same(got, [p for p, _, _ in new], "derived next keys")
        for l, ks in zip(pubs, lots):
            self.learn(l, ks)
        i.lots = pubs + [got]
        self.learn(got, new and [(raw, code) for _, raw, code in new])
        self.idents.append(i)

    def move(self, i, to):
        from keri.core import Diger
        new = Diger(ser=b"moved %d %s" % (to, i.pre.encode())).qb64 if to >= 0 else None
        if new is None:   # another's name
            other = self.idents[-to - 1] if -to - 1 < len(self.idents) else i
            if other is not i:
                self.refuses("taking another's name", lambda: self.mgr.move(old=i.pre, new=other.pre))
            return self.refuses("moving an unknown identifier", lambda: self.mgr.move(old="EAbsent" + "_" * 37, new=new or "E" * 44))
        self.mgr.move(old=i.pre, new=new)
        i.pre = new
        i.names.append(new)

    def update(self, k, right):
        mgr = self.mgr
        if k is None:
            mgr.updateAeid(*[("", ""), (None, None), ("", self.own[0].qb64), ("", None)][right % 4])
            self.k = None
            return
        seed = [self.own[k].qb64, self.own[k].qb64, self.own[(k + 1) % 4].qb64, None, ""][right]
        if right < 2:
            mgr.updateAeid(self.aeid(k), seed)
            self.k = k
        else:
            self.refuses("an encryption key with a seed that is not its own", lambda: mgr.updateAeid(self.aeid(k), seed))

    def reopen(self, how):
        self.ks.close()
        self.ks.reopen()
        mk = lambda **kw: self.keeping.Manager(ks=self.ks, **kw)
        if self.k is None:
            if how == 1:
                self.mgr = mk(aeid=self.aeid(1), seed=self.own[1].qb64)
                self.k = 1
                return
            if how == 2:
                self.refuses("an encryption key with a seed that is not its own", lambda: mk(aeid=self.aeid(1), seed=self.own[2].qb64))
            if how == 3:
                self.refuses("an encryption key without seed", lambda: mk(aeid=self.aeid(1)))
            self.mgr = mk(**(dict(seed=self.own[0].qb64) if how == 4 else {}))
            return
        if how == 1:
            self.refuses("a seed of another encryption key", lambda: mk(seed=self.own[(self.k + 1) % 4].qb64))
        elif how == 2:
            self.refuses("opening without seed", lambda: mk())
        elif how == 3:
            o = (self.k + 1) % 4
            self.refuses("another encryption key with its seed", lambda: mk(aeid=self.aeid(o), seed=self.own[o].qb64))
        kw = dict(aeid=self.aeid(self.k)) if how == 4 else {}
        self.mgr = mk(seed=self.own[self.k].qb64, **kw)

    def sign(self, i, r, by, indexed, indices, ser):
        from keri.core import Verfer
        pubs = i.lot(max(0, i.cur + r))
        if not pubs:
            return
        args = dict(pubs=pubs) if by else dict(verfers=[Verfer(qb64=p) for p in pubs])
        ind = on = None
        if indices is not None:
            ind = [(a + 3 * j) % 50 for j, a in enumerate([indices[0]] * len(pubs))]
            on = indices[1] and [None if indices[1] == "none" else (x + 1) % 40 if indices[1] == "other" else x for x in ind]
        call = lambda: self.mgr.sign(ser, indexed=indexed, indices=ind, ondices=on, **args)
        if any(p in self.dead and p not in self.keys for p in pubs):
            return self.refuses("signing with an erased key", call)
        sigs = call()
        vf.same(len(sigs), len(pubs), "signatures")
        for j, (s, p) in enumerate(zip(sigs, pubs)):
            vf.check(Verfer(qb64=p).verify(s.raw, ser), f"signature with {p} does not verify")
            vf.check(not Verfer(qb64=p).verify(s.raw, ser + b"x"), "signature verifies other data")
            vf.same(s.verfer.qb64, p, "key of the signature")
            if indexed:
                x = ind[j] if ind else j
                vf.same(s.index, x, "index of the signature")
                vf.same(s.ondex, on[j] if on else x, "other index of the signature")

    def decrypt(self, i):
        import pysodium
        pubs = [p for p in i.lot(i.cur) if p[:1] in "DB"]
        if not pubs or pubs[0] not in self.keys:
            return
        from keri.core import Verfer
        box = pysodium.crypto_box_seal(b"a sealed message", pysodium.crypto_sign_pk_to_box_pk(Verfer(qb64=pubs[0]).raw))
        vf.same(self.mgr.decrypt(box, pubs=pubs[:1]), b"a sealed message", "opened with the key it is sealed to")
        vf.same(self.mgr.decrypt(box, verfers=[Verfer(qb64=pubs[0])]), b"a sealed message", "opened with the key it is sealed to")
        other = [p for p in self.keys if p[:1] in "DB" and p != pubs[0]]
        if other:
            self.refuses("opening with another key", lambda: self.mgr.decrypt(box, pubs=other[:1]))

    # -- everything
    def audit(self):
        from keri.core import Salter
        mgr = self.mgr
        vf.same(mgr.pidx, self.pidx, "next identifier number")
        vf.same(mgr.salt, self.rootq, "root salt")
        vf.same(mgr.aeid or None, None if self.k is None else self.aeid(self.k), "encryption key")
        for p, (raw, code) in self.keys.items():
            s = self.ks.pris.get(p, decrypter=mgr.decrypter)
            vf.check(s is not None, f"private key of {p} lost")
            vf.check((s.raw, s.code, s.verfer.qb64) == (raw, code, p), f"another private key kept as {p}")
        vf.same(sum(1 for _ in self.ks.pris.getTopItemIter(decrypter=mgr.decrypter)), len(self.keys), "number of private keys kept")
        vf.same(self.ks.pres.cntAll(), sum(len(i.names) for i in self.idents), "identifiers kept")
        for i in self.idents:
            ps = self.ks.sits.get(i.pre)
            vf.check(ps is not None, f"{i.pre} lost")
            vf.same((list(ps.old.pubs), list(ps.new.pubs), list(ps.nxt.pubs)), (i.lot(i.cur - 1), i.lot(i.cur), i.lot(i.cur + 1)), "old, current and next keys")
            vf.same((ps.new.ridx, ps.new.kidx, ps.nxt.ridx, ps.nxt.kidx), (i.cur, i.kidx(i.cur), i.cur + 1, i.kidx(i.cur + 1)), "numbers of keys")
            for r, l in enumerate(i.lots):
                p = self.ks.pubs.get(self.keeping.riKey(i.pre, r))
                vf.same(p and list(p.pubs), l, f"keys {r} of {i.pre}")
        if self.k is not None:
            blob = b"\n".join(k + b"\n" + v for rows in self.dump().values() for k, v in rows)
            for p, (raw, code) in self.keys.items():
                q = signer(raw, code, True).qb64
                vf.check(q.encode() not in blob and raw not in blob, f"private key of {p} kept in the clear")
            for s in SALTS:
                vf.check(Salter(raw=s).qb64.encode() not in blob and s not in blob, "salt kept in the clear")
            for o in self.own:
                vf.check(o.qb64.encode() not in blob, "seed of the encryption key kept")

    def do(self, op):
        what, who, *a = op
        if what == "incept":
            return self.incept(*a)
        if what == "ingest":
            return self.ingest(*a)
        if what == "aeid":
            return self.update(*a)
        if what == "reopen":
            return self.reopen(*a)
        if what == "unknown":
            pre = "EAbsent" + "_" * 37
            self.refuses("rotating an unknown identifier", lambda: self.mgr.rotate(pre=pre))
            self.refuses("replaying an unknown identifier", lambda: self.mgr.replay(pre=pre))
            self.refuses("moving an unknown identifier", lambda: self.mgr.move(old=pre, new="E" * 44))
            self.refuses("signing with an unknown key", lambda: self.mgr.sign(b"x", pubs=[signer(OWN[3], "A", True).verfer.qb64]))
            self.refuses("making no keys", lambda: self.mgr.incept(icount=0, temp=True))
            return
        if not self.idents:
            return
        i = self.idents[who % len(self.idents)]
        return getattr(self, what)(i, *a)


cnt = st.lists(vf.weighted((3, st.just(0)), (2, st.integers(0, 2))), min_size=0, max_size=4)
who = st.integers(0, 5)
k = vf.weighted((1, st.none()), (2, st.integers(0, 3)))
b = st.booleans()
OPS = vf.weighted(
    (3, st.tuples(st.just("incept"), who, cnt.filter(len), cnt, b, st.sampled_from(["default", "salty", "randy"]), st.none() | st.integers(0, 2),
                  st.none() | st.integers(0, 2), vf.weighted((3, st.just(True)), (1, st.just(False))), st.integers(0, 4))),
    (6, st.tuples(st.just("rotate"), who, vf.weighted((6, cnt.filter(len)), (1, st.just([]))), b, st.integers(0, 4), b)),
    (1, st.tuples(st.just("ingest"), who, st.lists(st.lists(st.tuples(st.integers(0, 39), st.integers(0, 2)), min_size=1, max_size=3), min_size=1, max_size=4),
                  st.integers(0, 4), cnt, st.sampled_from(["salty", "randy"]), st.none() | st.integers(0, 2), vf.weighted((5, st.none()), (1, st.integers(0, 3))))),
    (2, st.tuples(st.just("replay"), who, b, b, st.integers(0, 4))),
    (1, st.tuples(st.just("move"), who, st.integers(-2, 3))),
    (3, st.tuples(st.just("sign"), who, st.sampled_from([0, 0, 0, -1, -2, 1]), b, b,
                  st.none() | st.tuples(st.integers(0, 40), st.sampled_from([None, "none", "same", "other"])), st.binary(max_size=40))),
    (1, st.tuples(st.just("decrypt"), who)),
    (2, st.tuples(st.just("aeid"), who, k, vf.weighted((3, st.integers(0, 1)), (1, st.integers(2, 4))))),
    (2, st.tuples(st.just("reopen"), who, vf.weighted((2, st.just(0)), (2, st.integers(1, 4))))),
    (1, st.tuples(st.just("unknown"), who)))


@vf.leg(LEGS, st.tuples(k, st.integers(0, 2), st.lists(OPS, min_size=4, max_size=30)), quick=700)
def histories(c):
    k0, salt, ops = c
    tmp = tempfile.mkdtemp()
    m = None
    try:
        m = Model(tmp, k0, salt, True)
        m.audit()
        rot = 0
        for op in ops:
            m.do(op)
            m.audit()
            rot += op[0] in ("rotate", "replay") and bool(m.idents)
        m.reopen(0)
        m.audit()
        if len(m.idents) > 1 or rot and m.idents:
            return [("encrypted" if m.k is not None else "plain"), *{i.algo for i in m.idents}]
    finally:
        if m:
            m.close()
        shutil.rmtree(tmp, ignore_errors=True)


VICTIM = vf.weighted((2, OPS.filter(lambda o: o[0] == "incept")), (3, OPS.filter(lambda o: o[0] == "rotate" and o[2])),
                     (1, OPS.filter(lambda o: o[0] == "replay")), (1, st.tuples(st.just("move"), who, st.integers(0, 3))))
BEFORE = OPS.filter(lambda o: o[0] in ("incept", "rotate"))


@vf.leg(LEGS, st.tuples(k, st.lists(BEFORE, max_size=6), VICTIM, st.integers(1, 14)), quick=900)
def interrupted(c):
    """After a crash at any commit of an operation each identifier is as before it or as after it, keys and all, and goes on."""
    import copy
    import lmdb
    k0, before, op, at = c
    tmp = tempfile.mkdtemp()
    m = None
    try:
        m = Model(tmp, k0, 0, True)
        m.incept([0, 0], [0], True, "randy", None, None, True, 0)
        for o in before:
            m.do(o)
        was = {i.pre: (i.cur, i.lot(i.cur), i.lot(i.cur + 1)) for i in m.idents}
        hit = False
        ids = copy.deepcopy((m.idents, m.pidx, m.n))
        lmdb._vf_fault(at)
        try:
            m.do(op)
        except lmdb._VfCrash:
            hit = True
        finally:
            lmdb._vf_fault(None)
        if not hit:
            return None
        m.idents, m.pidx, m.n = ids
        m.ks.close()
        m.ks.reopen()
        m.mgr = mgr = m.keeping.Manager(ks=m.ks, **({} if k0 is None else dict(seed=m.own[k0].qb64)))
        if op[0] == "move":
            i = m.idents[op[1] % len(m.idents)]
            new = m.ks.pres.get(i.pre).qb64
            if new != i.pre:
                was[new] = was.pop(i.pre)
        from keri.core import Verfer
        for pre, (cur, now, nxt) in was.items():
            ps = m.ks.sits.get(pre)
            vf.check(ps is not None, f"{pre} lost after a crash")
            vf.check((list(ps.new.pubs), list(ps.nxt.pubs))[:1] == (now,) and list(ps.nxt.pubs) == nxt or list(ps.new.pubs) == nxt,
                     f"after a crash the keys of {pre} are neither those before nor those after")
            for lot in (list(ps.new.pubs), list(ps.nxt.pubs)):
                for p in lot:
                    s = m.ks.pris.get(p, decrypter=mgr.decrypter)
                    vf.check(s is not None, f"private key of {p} lost in a crash")
                    vf.same(s.verfer.qb64, p, "private key kept")
            if ps.nxt.pubs:
                want = list(ps.nxt.pubs)
                verfers, digers = mgr.rotate(pre=pre, temp=True)
                vf.same([v.qb64 for v in verfers], want, "keys rotated to after a crash")
                sigs = mgr.sign(b"again", verfers=verfers)
                vf.check(all(v.verify(s.raw, b"again") for v, s in zip(verfers, sigs)), "signature after a crash does not verify")
                vf.same(len(digers), 1, "next keys after a crash")
                mgr.rotate(pre=pre, temp=True)
        for _ in range(2):
            verfers, digers = mgr.incept(temp=True)
            vf.check(verfers[0].qb64 not in was, "an inception after a crash gives keys of another identifier")
            sigs = mgr.sign(b"new", verfers=verfers)
            vf.check(verfers[0].verify(sigs[0].raw, b"new"), "signature after a crash does not verify")
            verfers, digers = mgr.rotate(pre=verfers[0].qb64, temp=True)
        return [op[0]]
    finally:
        if m:
            m.close()
        shutil.rmtree(tmp, ignore_errors=True)


@vf.leg(LEGS, cases=list(range(1, 9)))
def reencryption(at):
    """A crash while the encryption key is changed leaves all keys readable with the old or with the new one."""
    import lmdb
    tmp = tempfile.mkdtemp()
    m = None
    try:
        m = Model(tmp, 0, 0, True)
        for _ in range(2):
            m.incept([0], [0], True, "randy", None, None, True, 0)
        hit = False
        lmdb._vf_fault(at)
        try:
            m.mgr.updateAeid(m.aeid(1), m.own[1].qb64)
        except lmdb._VfCrash:
            hit = True
        finally:
            lmdb._vf_fault(None)
        m.ks.close()
        m.ks.reopen()
        why = None
        for k in (0, 1):
            try:
                mgr = m.keeping.Manager(ks=m.ks, seed=m.own[k].qb64)
                vf.same(mgr.salt, m.rootq, "root salt")
                for p, (raw, _) in m.keys.items():
                    vf.same(m.ks.pris.get(p, decrypter=mgr.decrypter).raw, raw, "private key")
                return ["hit" if hit else "done"]
            except (*refused(), vf.Violation) as ex:
                why = ex
        return [vf.finding("A01", "interrupted-reencryption", f"a change of encryption key interrupted at commit {at} leaves keys unreadable: {why}")]
    finally:
        if m:
            m.close()
        shutil.rmtree(tmp, ignore_errors=True)


@vf.leg(LEGS, cases=[(0, 17)])
def paths(c):
    """No two identifiers of one keystore are given the same keys."""
    tmp = tempfile.mkdtemp()
    m = None
    try:
        m = Model(tmp, None, 0, True)
        seen = {}
        for pidx in range(18):
            pre = m.mgr.incept(icount=17 if pidx == 1 else 1, ncount=2, temp=True)[0][0].qb64
            ps = m.ks.sits.get(pre)
            for p in list(ps.new.pubs) + list(ps.nxt.pubs):
                if p in seen:
                    return [vf.finding("A01", "path-collision", f"identifiers {seen[p]} and {pidx} are given the same key {p}")]
                seen[p] = pidx
        return ["distinct"]
    finally:
        if m:
            m.close()
        shutil.rmtree(tmp, ignore_errors=True)
