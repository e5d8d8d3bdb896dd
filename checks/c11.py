"""C11: seals, blinded states and typed media keep their fields in groups of any size, and commit to them."""
from hypothesis import strategies as st
import vf
from . import cesr, fmap
from .c09 import NUMS
from .c10 import refused

RULE = ("records of every defined kind with digests and prefixes of every code, numbers over their whole range, text of every kind; alone and in groups "
        "from none to more than a short counter can count, text and binary, followed by other material, cut short, mixed or altered; blinded states opened with "
        "right and wrong secrets and candidates. Non-trivial: all but empty groups.")
LEGS = []
ASSUMPTIONS = ["key stretching in the blinding leg replaced by a hash of all its arguments"]
DIG = st.tuples(st.sampled_from(["E", "E", "F", "G", "H", "I", "0D", "0E", "0F", "0G"]), st.integers(0, 255)).map(lambda t: cesr.encode(t[0], "", bytes([t[1]]) * cesr.raw_size(t[0])))
PRE = st.tuples(st.sampled_from(["B", "D", "E", "C", "1AAA", "1AAB", "1AAI", "1AAJ", "F"][:1] * 2 + ["D", "E", "1AAI", "1AAJ", "0D"]), st.integers(0, 255)).map(
    lambda t: cesr.encode(t[0], "", (b"\2" if t[0][:3] == "1AA" else b"") + bytes([t[1]]) * (cesr.raw_size(t[0]) - (t[0][:3] == "1AA"))))
NUM = NUMS.filter(lambda n: 0 <= n < 256 ** 17)
SALT = st.tuples(st.sampled_from(["0A", "a"]), st.integers(0, 255)).map(lambda t: cesr.encode(t[0], "", bytes([t[1]]) * cesr.raw_size(t[0])))
NONCE = st.just("") | SALT | DIG
WHEN = st.datetimes().map(lambda d: d.isoformat(timespec="microseconds") + "+00:00")
VER = st.sampled_from(["YKERICAA", "YACDCCAB", "0OKERICAACAA", "YACDCCAA"])
FIELDS = dict(SealDigest=dict(d=DIG), SealRoot=dict(rd=DIG), SealSource=dict(s=NUM, d=DIG), SealEvent=dict(i=PRE, s=NUM, d=DIG), SealLast=dict(i=PRE),
              SealBack=dict(bi=PRE, d=DIG), SealKind=dict(t=VER, d=DIG), BlindState=dict(d=NONCE, u=NONCE, td=NONCE, ts=fmap.STR),
              BoundState=dict(d=NONCE, u=NONCE, td=NONCE, ts=fmap.STR, bn=NUM, bd=NONCE), TypeMedia=dict(d=NONCE, u=NONCE, mt=fmap.STR, mv=fmap.STR),
              FirstSeen=dict(f=NUM, dt=WHEN))
CODES = dict(SealDigest="Q", SealRoot="R", SealSource="S", SealEvent="T", SealLast="U", SealBack="V", SealKind="W", BlindState="a", BoundState="b", TypeMedia="c", FirstSeen="O")
SIZES = {"M": 2, "R": 5, "N": 8, "S": 11, "T": 14, "U": 17}


def field(l, v):
    if isinstance(v, int):
        code = next(k for k in SIZES if v < 256 ** SIZES[k])
        return cesr.encode(code, "", v.to_bytes(SIZES[code], "big"))
    if l in ("ts", "mt"):
        return fmap.text(v)
    if l == "mv":
        return cesr.encode(cesr.var_code("B", len(v.encode())), "", v.encode())
    if l == "dt":
        return cesr.encode("1AAG", "", cesr.to_bin(v.replace(":", "c").replace(".", "d").replace("+", "p")))
    return v or "1AAP"


def crew(rec):
    return {l: f"{v:x}" if isinstance(v, int) else v for l, v in rec.items()}


def txt(rec):
    return "".join(field(l, v) for l, v in rec.items())


def group(name, recs):
    return fmap.group(CODES[name], "".join(map(txt, recs)))


def klasses(name):
    from keri.core import structing as s
    return [s.Structor, s.Sealer if name.startswith("Seal") else s.Mediar if name == "TypeMedia" else s.Blinder if "State" in name else s.Structor]


def record(name):
    return st.tuples(*FIELDS[name].values()).map(lambda t: dict(zip(FIELDS[name], t)))


ONE = st.sampled_from(list(FIELDS)).flatmap(lambda n: st.tuples(st.just(n), record(n)))


def agree(o, name, rec, what):
    vf.same((o.qb64, o.qb64b, o.qb2), (txt(rec), txt(rec).encode(), cesr.to_bin(txt(rec))), what)
    vf.same((o.name, dict(o.asdict), tuple(o.crew), o.crew._fields), (name, crew(rec), tuple(crew(rec).values()), tuple(rec)), what)


@vf.leg(LEGS, st.tuples(ONE, st.sampled_from(["", "-AAB", "EAAA", "\0", "MAAA"])), quick=3000)
def records(c):
    from keri.core import structing as s
    (name, rec), rest = c
    clan = getattr(s, name)
    for kls in klasses(name):
        kw = {} if kls in (s.Structor, s.Sealer) else dict(saidive=False)
        made = [kls(crew=clan(**crew(rec)), **kw), kls(crew=crew(rec), **kw), kls(crew=list(crew(rec).values()), clan=clan, **kw), kls(crew=crew(rec), clan=clan, **kw)]
        for i, o in enumerate(made):
            agree(o, name, rec, f"made {i}")
        vf.same(kls(data=made[0].data, **kw).crew, made[0].crew, "from primitives")
        t = txt(rec)
        for n, v in (("qb64", t + rest), ("qb64b", (t + rest).encode()), ("qb64b", bytearray((t + rest).encode())), ("qb2", cesr.to_bin(t) + rest.encode()),
                     ("qb2", bytearray(cesr.to_bin(t) + rest.encode()))):
            agree(kls(clan=clan, **{n: v}, **kw), name, rec, f"read from {n}")
            if isinstance(v, bytearray):
                o = kls(clan=clan, strip=True, **{n: v}, **kw)
                agree(o, name, rec, f"stripped from {n}")
                vf.same(bytes(v), rest.encode(), "left after stripping")
        refused(lambda: kls(clan=clan, qb64=t[:-4], **kw), f"cut {name} read")
        refused(lambda: kls(clan=clan, qb2=cesr.to_bin(t)[:-1], **kw), f"cut {name} read")
    return name


MANY = vf.weighted((8, st.integers(0, 5)), (1, st.sampled_from([95, 186, 372, 373, 400, 700])))


@vf.leg(LEGS, st.tuples(st.sampled_from(list(FIELDS)).flatmap(lambda n: st.tuples(st.just(n), st.lists(record(n), min_size=1, max_size=4))), MANY,
                        st.booleans(), st.sampled_from(["", "-AAB", "EAAA", "\0"]), st.integers(0, 10 ** 6), ONE), quick=900, thorough=37500)
def groups(c):
    from keri.core import structing as s
    (name, recs), n, bny, rest, at, (oname, orec) = c
    recs = [recs[i % len(recs)] for i in range(n)]
    want = group(name, recs)
    clan = getattr(s, name)
    for kls in klasses(name):
        kw = {} if kls in (s.Structor, s.Sealer) else dict(saidive=False)
        objs = [kls(crew=clan(**crew(r)), **kw) for r in recs]
        if recs:
            vf.same(bytes(kls.enclose(objs)), want.encode(), "group")
            vf.same(bytes(kls.enclose(objs, cold="bny")), cesr.to_bin(want), "binary group")
        else:
            g = kls.enclose([])
            vf.same((len(g), kls.extract(qb64b=g)), (4, []), "empty group")
            vf.same(len(kls.enclose([], cold="bny")), 3, "empty group")
        if kw:
            continue   # groups read back by these verify, see below
        for m, v in (("qb64", want + rest), ("qb64b", bytearray((want + rest).encode())), ("qb2", bytearray(cesr.to_bin(want) + rest.encode()))):
            got = kls.extract(**{m: v}, strip=bny)
            vf.same(len(got), n, f"records read from {m}")
            for o, r in zip(got, recs):
                agree(o, name, r, f"in group read from {m}")
            if bny and m != "qb64":
                vf.same(bytes(v), rest.encode(), "left after stripping")
        if recs:
            i = 4 + at % (len(want) - 4)
            refused(lambda: kls.extract(qb64=want[:i]), f"group cut at {i} of {len(want)} read")
            b = cesr.to_bin(want)
            refused(lambda: kls.extract(qb2=b[:3 + at % (len(b) - 3)]), "cut binary group read")
        if recs and oname != name and kls is s.Structor:
            other = kls(crew=getattr(s, oname)(**crew(orec)))
            refused(lambda: kls.enclose(objs + [other]), f"group of {name} and {oname} made")
    return [name] + ["big"] * (len(want) > 4 * 4096) if recs else None


SAIDED = st.sampled_from(["BlindState", "BoundState", "TypeMedia"]).flatmap(lambda n: st.tuples(st.just(n), st.lists(record(n), min_size=1, max_size=3)))


def digested(rec):
    r = dict(rec, d="")
    code = rec["d"][:2] if rec["d"][:2] in fmap.SIZES else rec["d"][:1] if rec["d"][:1] in fmap.SIZES else "E"
    body = "#" * fmap.SIZES[code] + txt({l: v for l, v in r.items() if l != "d"})
    return dict(r, d=fmap.digest(code, body.encode()))


@vf.leg(LEGS, st.tuples(SAIDED, st.integers(0, 9), fmap.STR, NONCE, NUM, st.sampled_from(["", "-AAB"])), quick=2000)
def committed(c):
    from keri.core import structing as s
    (name, raws), at, t, nonce, num, rest = c
    kls = klasses(name)[1]
    clan = getattr(s, name)
    recs = [digested(r) for r in raws]
    objs = []
    for raw, rec in zip(raws, recs):
        o = kls(crew=clan(**crew(raw)), makify=True)
        agree(o, name, rec, "made")
        vf.same((o.said, o.saidb), (rec["d"], rec["d"].encode()), "identifier")
        for m, v in (("crew", clan(**crew(rec))), ("qb64", txt(rec) + rest), ("qb2", cesr.to_bin(txt(rec)))):
            o = kls(clan=clan, **{m: v})
            agree(o, name, rec, f"verified from {m}")
        if name == "TypeMedia":
            vf.same((o.uuid, o.uuidb, o.mt, o.mtb, o.mv, o.mvb), (rec["u"], rec["u"].encode(), rec["mt"], rec["mt"].encode(), rec["mv"], rec["mv"].encode()), "fields")
        else:
            vf.same((o.blid, o.uuid, o.uuidb, o.acdc, o.acdcb, o.state, o.stateb), (rec["d"], rec["u"], rec["u"].encode(), rec["td"], rec["td"].encode(), rec["ts"], rec["ts"].encode()), "fields")
            b = "bd" in rec
            vf.same((o.bsn, o.bnh, o.bnhb, o.bd, o.bdb), (rec["bn"], f"{rec['bn']:x}", f"{rec['bn']:x}".encode(), rec["bd"], rec["bd"].encode()) if b else (None,) * 5, "bound fields")
        objs.append(o)
    rec = recs[0]
    l = list(rec)[at % len(rec)]
    bad = dict(rec, **{l: num if isinstance(rec[l], int) else t if l in ("ts", "mt", "mv") else nonce})
    want = group(name, recs)
    vf.same(bytes(kls.enclose(objs)), want.encode(), "group")
    v = bytearray(want.encode() + rest.encode())
    got = kls.extract(qb64b=v, strip=True)
    vf.same(([o.qb64 for o in got], bytes(v)), ([txt(r) for r in recs], rest.encode()), "group read back")
    vf.same([o.qb64 for o in kls.extract(qb2=cesr.to_bin(want))], [txt(r) for r in recs], "binary group read back")
    if bad == rec or l == "d" and digested(dict(bad)) == bad:
        return None
    refused(lambda: kls(crew=clan(**crew(bad))), f"{name} with altered {l} verified")
    refused(lambda: kls(clan=clan, qb64=txt(bad)), f"{name} with altered {l} verified")
    refused(lambda: kls.extract(qb64=group(name, recs[1:] + [bad])), f"{name} with altered {l} verified in a group")
    return [name, l]


LABELS = st.sampled_from(["issued", "revoked", "", "on hold", "x"])


@vf.leg(LEGS, st.tuples(st.binary(min_size=16, max_size=16), st.binary(min_size=16, max_size=16), st.integers(0, 40), st.integers(0, 40), DIG, DIG, LABELS,
                        st.lists(LABELS, max_size=3), st.booleans(), st.tuples(NUM, NONCE), st.lists(st.tuples(NUM, NONCE), max_size=2), st.booleans(), st.booleans(),
                        st.sampled_from(["low", "med"])), quick=600)
def blinded(c):
    import hashlib
    import pysodium
    from keri.core import structing as s
    salt, other, sn, osn, acdc, oacdc, state, states, bound, bnd, bnds, viaqb64, hide, tier = c
    keep = pysodium.crypto_pwhash
    pysodium.crypto_pwhash = lambda outlen, *pa, **kw: hashlib.blake2b(repr((outlen, pa, sorted(kw.items()))).encode(), digest_size=outlen).digest()
    try:
        q = cesr.encode("0A", "", salt)
        kw = dict(salt=q) if viaqb64 else dict(raw=salt)
        uuid = s.Blinder.makeUUID(sn=sn, tier=tier, **kw)
        vf.same(uuid, s.Blinder.makeUUID(sn=sn, tier=tier, **(dict(raw=salt) if viaqb64 else dict(salt=q))), "same secret, same nonce")
        if (other, osn) != (salt, sn):
            vf.check(s.Blinder.makeUUID(sn=osn, tier=tier, raw=other) != uuid, "another secret gives the same nonce")
            vf.check(other == salt or s.Blinder.makeUUID(sn=sn, tier=tier, raw=other) != uuid, "another salt gives the same nonce")
            vf.check(osn == sn or s.Blinder.makeUUID(sn=osn, tier=tier, **kw) != uuid, "another number gives the same nonce")
        td, ts = ("", "") if hide else (acdc, state)
        bargs = dict(bound=True, bsn=bnd[0], bd=bnd[1]) if bound else {}
        b = s.Blinder.blind(sn=sn, acdc=td, state=ts, tier=tier, **kw, **bargs)
        rec = dict(d="", u=uuid, td=td, ts=ts) | (dict(bn=bnd[0], bd=bnd[1]) if bound else {})
        rec = digested(rec)
        vf.same((uuid[0], len(uuid)), ("a", 44), "nonce code")
        agree(b, "BoundState" if bound else "BlindState", rec, "blinded")
        given, gb = list(states), list(bnds)
        ub = dict(bound=True, bounds=list(bnds)) if bound else {}

        in_s = ts in states or ts == ""
        in_b = not bound or bnd in bnds or bnd == (0, "")
        for a in (dict(uuid=uuid), dict(kw, sn=sn, tier=tier)):
            for cand in (acdc, oacdc, ""):
                o = s.Blinder.unblind(rec["d"], acdc=cand, states=list(states), **a, **ub)
                ok = (td == cand or td == "") and in_s and in_b
                vf.same(None if o is None else o.qb64, txt(rec) if ok else None, f"opened with {sorted(a)}, candidate {cand!r}, {states}, {bnds}")
        for a in (dict(uuid=cesr.encode("a", "", other + salt)), dict(raw=other, sn=sn, tier=tier), dict(salt=q, sn=osn, tier=tier)):
            if a.get("raw") == salt or a.get("sn") == sn and "salt" in a:
                continue
            vf.same(s.Blinder.unblind(rec["d"], acdc=td, states=[ts], **a, **(dict(bound=True, bounds=[bnd]) if bound else {})), None, f"opened with wrong {sorted(a)}")
        vf.same(s.Blinder.unblind(acdc, uuid=uuid, acdc=td, states=[ts], **ub), None, "another identifier opened")
        mine, mb = list(states), list(bnds)
        s.Blinder.unblind(rec["d"], uuid=uuid, states=mine, **(dict(bound=True, bounds=mb) if bound else {}))
        vf.same((mine, mb), (given, gb), "the caller's candidates")
    finally:
        pysodium.crypto_pwhash = keep
    return ["bound" if bound else "blind", "hidden" if hide else "shown"]
