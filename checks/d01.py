"""D01: a message made reads back as the same fields, and only as it was made."""
import copy
from hypothesis import strategies as st
import vf
from . import cesr, kel

RULE = ("messages of every type of both protocol versions, in JSON, CBOR, MessagePack and native encoding, with field values over their whole "
        "domains and every digest kind; made, size and identifier recomputed independently, read back whole, from text, binary and streams; "
        "then altered in one byte, one field, the field list, the order, the serialization or the version string. Non-trivial: all.")
ASSUMPTIONS = ["native encoding of seals only of the defined kinds, other data as field maps"]
LEGS = []
VCP = dict(v1=["icp", "rot", "ixn", "dip", "drt", "rct", "qry", "rpy", "pro", "bar", "exn", "vcp", "vrt", "iss", "rev", "bis", "brv", "acdc", "ace"],
           v2=["icp", "rot", "ixn", "dip", "drt", "rct", "qry", "rpy", "pro", "bar", "xip", "exn", "rip", "bup", "upd"])
FIELDS = {1: dict(icp="v t d i s kt k nt n bt b c a", rot="v t d i s p kt k nt n bt br ba a", ixn="v t d i s p a", dip="v t d i s kt k nt n bt b c a di",
                  drt="v t d i s p kt k nt n bt br ba a", rct="v t d i s", qry="v t d dt r rr q", rpy="v t d dt r a", pro="v t d dt r rr q", bar="v t d dt r a",
                  exn="v t d i rp p dt r q a e", vcp="v t d i ii s c bt b n", vrt="v t d i p s bt br ba", iss="v t d i s ri dt", rev="v t d i s ri p dt",
                  bis="v t d i ii s ra dt", brv="v t d i s p ra dt", acdc="v d u i ri s a e r", ace="v t d u i ri s A zz"),
          2: dict(icp="v t d i s kt k nt n bt b c a", rot="v t d i s p kt k nt n bt br ba c a", ixn="v t d i s p a", dip="v t d i s kt k nt n bt b c a di",
                  drt="v t d i s p kt k nt n bt br ba c a", rct="v t d i s", qry="v t d i dt r rr q", rpy="v t d i dt r a", pro="v t d i dt r rr q",
                  bar="v t d i dt r a", xip="v t d u i ri dt r q a", exn="v t d i ri x p dt r q a", rip="v t d u i n dt", bup="v t d rd n p dt b",
                  upd="v t d rd n p dt td ts")}
DIGS = {"E": 44, "F": 44, "G": 44, "H": 44, "I": 44, "0D": 88, "0E": 88, "0F": 88, "0G": 88}
TYPES = [(1, t) for t in VCP["v1"]] + [(2, t) for t in VCP["v2"]]
TXT = vf.weighted((3, st.text(alphabet="abcXYZ09 _-", max_size=8)), (1, st.text(max_size=6)))
LABEL = st.from_regex(r"\A[a-zA-Z_][a-zA-Z0-9_]{0,6}\Z")
LEAF = vf.weighted((3, TXT), (1, st.integers(-2 ** 40, 2 ** 40)), (1, st.booleans()), (1, st.none()))
MAP = vf.weighted((1, st.just({})), (3, st.dictionaries(LABEL, st.recursive(LEAF, lambda s: st.lists(s, max_size=3) | st.dictionaries(LABEL, s, max_size=3), max_leaves=6), max_size=4)))
SEAL = st.tuples(st.sampled_from(["d", "rd", "sd", "isd", "i", "bid", "td"]), st.integers(0, 99))
SEED = st.integers(0, 9999)
CASE = st.fixed_dictionaries(dict(
    t=st.sampled_from(TYPES), kind=st.sampled_from(["JSON", "JSON", "CBOR", "MGPK", "CESR", "CESR", "CESR"]), dig=vf.weighted((3, st.just("E")), (2, st.sampled_from(list(DIGS)))),
    pre=st.integers(0, 2), seed=SEED, sn=vf.weighted((3, st.integers(0, 20)), (1, st.integers(0, 2 ** 128 - 1)), (1, st.sampled_from([255, 256, 65535, 65536, 2 ** 40, 2 ** 64]))),
    nk=st.integers(1, 5), nn=st.integers(0, 4), th=st.tuples(kel.TH, kel.TH), nb=st.integers(0, 4), seals=vf.weighted((9, st.lists(SEAL, max_size=6)), (1, st.tuples(SEAL, st.integers(90, 400)))),
    generic=st.booleans(), maps=st.tuples(MAP, MAP, MAP), route=st.lists(LABEL, max_size=3), rroute=st.lists(LABEL, max_size=2), lead=st.booleans(),
    traits=st.lists(st.sampled_from(["EO", "DND", "NB", "RB", "NRB"]), unique=True, max_size=3), empty=st.integers(0, 15), us=st.integers(0, 999999), off=st.integers(-12, 14)))


def said(n):
    return kel.qdig(b"said%d" % n)


def seals(c):
    if isinstance(c["seals"], tuple):
        return [seal(c["seals"][0][0], c["seals"][0][1] + i) for i in range(c["seals"][1])]
    return [seal(*s) for s in c["seals"]]


def seal(k, n):
    return {"d": dict(d=said(n)), "rd": dict(rd=said(n)), "sd": dict(s=f"{n:x}", d=said(n)), "isd": dict(i=kel.qkey(n), s=f"{n:x}", d=said(n)), "i": dict(i=kel.qkey(n)),
            "bid": dict(bi=kel.qkey(n, False), d=said(n)), "td": dict(t=cesr.encode("Y", "KERICAA", b""), d=said(n))}[k]


def text(parts, lead):
    return ("/" if lead and parts else "") + "/".join(parts)


def fields(c):
    """the fields of a message, without version string and identifiers"""
    v, t = c["t"]
    n, native = c["seed"], c["kind"] == "CESR"
    ks = [kel.qkey(n + i) for i in range(c["nk"])]
    ns = [said(n + i) for i in range(c["nn"])]
    ws = [kel.qkey(n + 50 + i, False) for i in range(c["nb"])]
    maps = [natural(m) if native else m for m in c["maps"]]
    sl = seals(c)
    if c["generic"] and not native:
        sl = sl + [maps[0]]
    pre = [kel.qkey(n), said(n + 7), kel.qkey(n)][c["pre"]]
    opt = lambda i: "" if c["empty"] >> i & 1 else said(n + 20 + i)
    dt = f"20{n % 80:02}-{1 + n % 12:02}-{1 + n % 28:02}T{n % 24:02}:{n % 60:02}:{n % 59:02}.{c['us']:06}{c['off']:+03}:00"
    vals = dict(i=pre, s=f"{c['sn']:x}", kt=kel.thold(c["th"][0], len(ks)), k=ks, nt=kel.thold(c["th"][1], len(ns)), n=ns, bt=f"{len(ws) // 2:x}", b=ws, br=ws[:1], ba=ws[1:],
                c=c["traits"], a=sl, p=said(n + 1), di=said(n + 2), dt=dt, r=text(c["route"], c["lead"]), rr=text(c["rroute"], False), q=maps[1], u=cesr.encode("0A", "", bytes([n % 256]) * 16),
                ri=opt(0), x=opt(1), rp=opt(0), e=maps[2], ii=said(n + 3), ra=dict(i=pre, s="0", d=said(n)), rd=said(n + 4), b_=said(n + 5), td=opt(2), ts=["issued", "revoked", ""][n % 3],
                A=said(n + 6), zz=maps[0])
    if t in ("qry", "rpy", "pro", "bar", "xip", "exn"):
        vals["a"] = maps[0]
        vals["p"] = opt(2)
    if t == "vcp":
        vals["n"] = vals["u"]
    if t in ("iss", "rev"):
        vals["ri"] = said(n + 8)
    if t in ("acdc", "ace"):
        vals.update(s=said(n + 9), a=maps[0], r=maps[2], ri=said(n + 8))
    if t in ("rip", "bup", "upd"):
        vals["n"] = f"{c['sn']:x}"
    if t == "bup":
        vals["b"] = said(n + 5)
    if t in ("icp", "dip", "vcp"):
        if t == "icp" and c["pre"] == 0:
            vals.update(k=ks[:1], kt="1", i=ks[0])
        else:
            vals.pop("i")
    elif t == "drt":
        vals["i"] = said(n + 7)
    return {f: vals[f] for f in FIELDS[v][t].split() if f not in ("v", "t", "d") and f in vals}


def natural(m):
    """values a native field map can hold"""
    if isinstance(m, dict):
        return {k: natural(v) for k, v in m.items()}
    if isinstance(m, list):
        return [natural(v) for v in m]
    return m


def make(c):
    """(serder, fields in order, labels of identifiers)"""
    from keri.core.serdering import SerderKERI, SerderACDC
    from keri import kering
    v, t = c["t"]
    vrsn = [None, kering.Vrsn_1_0, kering.Vrsn_2_0][v]
    acdc = t in ("acdc", "ace", "rip", "bup", "upd")
    f = fields(c)
    ids = [l for l in ("d", "i") if l == "d" or t in ("icp", "dip", "vcp") and "i" not in f]
    saids = {l: c["dig"] for l in ids}
    if t == "rct":
        f["d"] = said(c["seed"])
        ids = []
        saids = None
    elif t == "acdc":
        t = None
    sad = {**({"t": t} if t else {}), **f}
    serder = (SerderACDC if acdc else SerderKERI)(makify=True, sad=copy.deepcopy(sad), ilk=t, pvrsn=vrsn, gvrsn=None if v == 1 else vrsn, kind=c["kind"], saids=saids)
    return serder, f, ids


def usable(c):
    return not (c["kind"] == "CESR" and c["t"][0] == 1)


def digest(code, b):
    import hashlib
    import blake3
    f = dict(E=lambda: blake3.blake3(b).digest(), F=lambda: hashlib.blake2b(b, digest_size=32).digest(), G=lambda: hashlib.blake2s(b).digest(), H=lambda: hashlib.sha3_256(b).digest(),
             I=lambda: hashlib.sha256(b).digest())
    f["0D"] = lambda: blake3.blake3(b).digest(length=64)
    f["0E"] = lambda: hashlib.blake2b(b).digest()
    f["0F"] = lambda: hashlib.sha3_512(b).digest()
    f["0G"] = lambda: hashlib.sha512(b).digest()
    return cesr.encode(code, "", f[code]())


def vstring(c, size):
    proto = "ACDC" if c["t"][1] in ("acdc", "ace", "rip", "bup", "upd") else "KERI"
    return f"{proto}10{c['kind']}{size:06x}_" if c["t"][0] == 1 else f"{proto}CAACAA{c['kind']}{cesr.b64(size, 4)}."


@vf.leg(LEGS, CASE, quick=1600)
def readback(c):
    from keri.core.serdering import SerderKERI, SerderACDC, Serdery
    from keri import kering
    if not usable(c):
        c = {**c, "kind": "JSON"}
    v, t = c["t"]
    serder, f, ids = make(c)
    raw = bytes(serder.raw)
    order = FIELDS[v][t].split()
    cls = type(serder)
    # as made
    vf.same(list(serder.sad), order, "fields")
    for l, x in f.items():
        vf.same(serder.sad[l], x, f"field {l} as made")
    vf.same(serder.sad["v"], vstring(c, len(raw)), "version string")
    vf.same((serder.size, serder.kind, serder.proto, serder.pvrsn.major), (len(raw), c["kind"], vstring(c, 0)[:4], v), "size, kind, protocol and version")
    blank = {**serder.sad, **{l: "#" * DIGS[c["dig"]] for l in ids}}
    if c["kind"] != "CESR":
        vf.same(raw, kel.dump(serder.sad, c["kind"]), "serialization")
        over = kel.dump(blank, c["kind"])
    else:
        over = raw.replace(serder.sad["d"].encode(), b"#" * DIGS[c["dig"]]) if ids else raw
    if ids:
        want = digest(c["dig"], over)
        for l in ids:
            vf.same(serder.sad[l], want, f"identifier {l}")
        vf.same((serder.said, serder.saidb, serder.diger.qb64), (want, want.encode(), want), "said")
        vf.check(serder.compare(said=want) and not serder.compare(said=said(1)), "comparing identifiers")
    # read back
    tail = b'{"v":"KERI10JSON' if c["sn"] % 2 else b"-AAB"
    forms = [raw, bytearray(raw), raw + tail]
    for x in forms:
        r = cls(raw=x)
        vf.same((r.sad, r.raw, r.size, r.kind, r.ilk, r.said), (serder.sad, raw, len(raw), c["kind"], serder.ilk, serder.said), "read back")
        vf.same(list(r.sad), order, "fields read back")
    ims = bytearray(raw + tail)
    cls(raw=ims, strip=True)
    vf.same(bytes(ims), tail, "stripped from stream")
    if c["kind"] == "CESR":
        r = cls(raw=cesr.to_bin(raw.decode()))
        vf.same((r.sad, r.raw), (serder.sad, raw), "read back from binary")
        ims = bytearray(cesr.to_bin(raw.decode()) + b"\x01\x02\x03")
        r = cls(raw=ims, strip=True)
        vf.same((r.sad, r.raw, bytes(ims)), (serder.sad, raw, b"\x01\x02\x03"), "stripped from binary stream")
    else:
        ims = bytearray(raw + tail)
        r = Serdery().reap(ims, kering_genus(), kering.Vrsn_2_0 if v == 2 else kering.Vrsn_1_0)
        vf.same((type(r), r.sad, r.raw, bytes(ims)), (cls, serder.sad, raw, tail), "reaped from stream")
    r = cls(sad=copy.deepcopy(serder.sad))
    vf.same((r.raw, r.sad), (raw, serder.sad), "from its fields")
    vf.check(serder.verify() and r.verify(), "does not verify as made")
    for n in (1, len(raw) // 2, len(raw) - 1):
        try:
            cls(raw=raw[:n])
        except kering.ShortageError:
            pass
        except (kering.KeriError, ValueError) as ex:
            if n > 60:
                raise vf.Violation(f"message cut to {n} of {len(raw)} bytes refused as {ex!r} not as short")
        else:
            raise vf.Violation("cut message accepted")
    if cls is SerderKERI:
        s = serder.sad
        vf.same((serder.pre, serder.ilk, serder.route, serder.keys, serder.backs, serder.cuts, serder.adds, serder.delpre, serder.traits, serder.prior),
                (s.get("i"), t, s.get("r"), s.get("k"), s.get("b"), s.get("br"), s.get("ba"), s.get("di"), s.get("c"), s.get("p")), "field accessors")
        if "s" in s:
            vf.same((serder.sn, serder.snh), (c["sn"], f"{c['sn']:x}"), "sequence number")
        if "kt" in s:
            vf.same((serder.tholder.sith, serder.ntholder.sith, [x.qb64 for x in serder.verfers], [x.qb64 for x in serder.ndigers], serder.bn),
                    (kel_canon(s["kt"]), kel_canon(s["nt"]), s["k"], s["n"], int(s["bt"], 16)), "thresholds, keys and digests")
        vf.same(serder.estive, t in ("icp", "rot", "dip", "drt"), "establishment")
    return [f"{t}{v}.{c['kind']}"]


def kel_canon(x):
    return kel.canonical(x) if hasattr(kel, "canonical") else x


def kering_genus():
    from keri.core.counting import GenDex
    return GenDex.KERI


def accepted(cls, raw):
    try:
        cls(raw=raw)
        return True
    except Exception:
        pass
    try:
        r = cls(raw=raw, verify=False)
        ok = r.verify()
    except Exception:
        return False
    vf.check(not ok, "message refused when read verifies")
    return False


@vf.leg(LEGS, st.tuples(CASE, st.integers(0, 2 ** 16), st.sampled_from(["bit", "set", "del", "ins", "dup", "swap"]), st.integers(0, 255)), quick=2500)
def altered(t):
    """One byte changed anywhere in a self-addressing message."""
    c, at, how, x = t
    if not usable(c):
        c = {**c, "kind": "CBOR"}
    if c["t"][1] == "rct":
        c = {**c, "t": (c["t"][0], "ixn")}
    serder, f, ids = make(c)
    raw = bytearray(serder.raw)
    at %= len(raw)
    if how == "bit":
        raw[at] ^= 1 << x % 8
    elif how == "set":
        raw[at] = x if x < 128 and x != raw[at] else b'A0"}#- '[x % 7]
    elif how == "del":
        del raw[at]
    elif how == "ins":
        raw[at:at] = bytes([b'A0"}#- '[x % 7]])
    elif how == "dup":
        n = 1 + x % 60
        raw[at:at] = raw[at:at + n]
    else:
        b = (at + 1 + x) % len(raw)
        raw[at], raw[b] = raw[b], raw[at]
    if bytes(raw[:len(serder.raw)]) == serder.raw:
        return None
    if accepted(type(serder), bytes(raw)):
        raise vf.Violation(f"{how} at {at} accepted: {vf.short(bytes(raw), 400)}")
    return [how]


def size_fill(sad, kind, c):
    s = {**sad, "v": vstring(c, 0)}
    s["v"] = vstring(c, len(kel.dump(s, kind)))
    return s


@vf.leg(LEGS, st.tuples(CASE, st.sampled_from(["value", "missing", "extra", "order", "rename", "kind", "size", "vkind", "proto", "vrsn", "ilk", "blank", "code", "type", "other"]), st.integers(0, 99)), quick=2000)
def refit(t):
    """One field, the field list or the version string changed and everything else made to fit again as far as possible."""
    c, how, x = t
    if c["kind"] == "CESR":
        c = {**c, "kind": ["JSON", "CBOR", "MGPK"][x % 3]}
    v, ty = c["t"]
    if ty == "rct" and how not in ("missing", "extra", "order", "rename", "proto", "vrsn", "ilk", "kind", "size", "vkind"):
        return None
    if ty in ("acdc", "ace") and how in ("missing", "extra", "order", "rename"):   # optional fields and extra ones
        how = "other"
    serder, f, ids = make(c)
    k = c["kind"]
    sad = copy.deepcopy(serder.sad)
    refill, legal = True, False
    labels = [l for l in sad if l != "v"]
    l = labels[x % len(labels)]
    if how == "value":
        refill = False
        l = [y for y in labels if y not in ids][x % (len(labels) - len(ids))]
        sad[l] = sad[l][:-1] + ("A" if sad[l][-1:] != "A" else "B") if isinstance(sad[l], str) and sad[l] else [said(x)] if isinstance(sad[l], list) else {"x": said(x)}
        if sad[l] == serder.sad[l]:
            return None
    elif how == "missing":
        sad.pop(l)
    elif how == "extra":
        sad[["x", "zz", "D", ""][x % 4] if ["x", "zz", "D", ""][x % 4] not in sad else "y9"] = "1"
    elif how == "order":
        items = list(sad.items())
        i = 1 + x % (len(items) - 2)
        items[i], items[i + 1] = items[i + 1], items[i]
        sad = dict(items)
    elif how == "rename":
        sad = {(y + "x" if y == l else y): z for y, z in sad.items()}
    elif how == "blank":
        for y in ids:
            sad[y] = ["", "#" * 44, "E" * 43, None, 5][x % 5]
        refill = False
    elif how == "code":   # some other code with the digest of another
        for y in ids:
            sad[y] = "IHGFE"[x % 5] + sad[y][1:] if len(sad[y]) == 44 and sad[y][0] != "IHGFE"[x % 5] else said(x)
        refill = False
    elif how == "type":
        refill = False
        l = [y for y in labels if y not in ids][x % (len(labels) - len(ids))]
        sad[l] = 5 if sad[l] != 5 else None
    elif how == "other":
        refill = False
        for y in ids:
            sad[y] = said(x)
    raw = None
    if refill and ids and not any(y not in sad for y in ids):
        sad.update({y: "#" * DIGS[c["dig"]] for y in ids})
        sad = size_fill(sad, k, c)
        sad.update({y: digest(c["dig"], kel.dump(sad, k)) for y in ids})
    else:
        sad = size_fill(sad, k, c)
    if how == "kind":
        o = [z for z in ("JSON", "CBOR", "MGPK") if z != k][x % 2]
        raw = kel.dump(sad, o)
    elif how in ("size", "vkind", "proto", "vrsn", "ilk"):
        vs = sad["v"]
        if how == "size":
            n = len(kel.dump(sad, k)) + [-1, 1, 2, 16, -16][x % 5]
            vs = vstring(c, n)
        elif how == "vkind":
            vs = vs.replace(k, [z for z in ("JSON", "CBOR", "MGPK", "CESR") if z != k][x % 3])
        elif how == "proto":
            vs = ["ACDC", "KERI"][vs[:4] == "ACDC"] + vs[4:] if x % 2 else "XXXX" + vs[4:]
        elif how == "vrsn":
            vs = vs[:4] + ["11", "20", "00", "12"][x % 4] + vs[6:] if v == 1 else vs[:4] + ["CAB", "BAA", "DAA", "AAA"][x % 4] + vs[7:]
        else:
            sad["t"] = ["xxx", "", "ICP", "icpp", None][x % 5]
            if ty == "acdc":
                return None
        sad["v"] = vs
        if ids:
            sad.update({y: "#" * DIGS[c["dig"]] for y in ids})
            sad.update({y: digest(c["dig"], kel.dump(sad, k)) for y in ids})
    raw = raw or kel.dump(sad, k)
    if accepted(type(serder), raw + b" " * 20 * (how == "size" and len(raw) < 0)):
        raise vf.Violation(f"{how} accepted: {vf.short(raw, 500)}")
    if how in ("missing", "extra", "order", "rename", "type", "blank", "code", "other", "value"):
        try:
            type(serder)(sad=copy.deepcopy(sad))
        except Exception:
            pass
        else:
            raise vf.Violation(f"{how} accepted as fields: {vf.short(sad, 500)}")
    return [how]
