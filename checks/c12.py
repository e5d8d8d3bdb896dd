"""C12: version strings and stream starts tell exactly what follows."""
import re
from hypothesis import strategies as st
import vf
from . import cesr

RULE = ("version strings of both formats over all protocols, versions, kinds and sizes, alone and inside serialized messages at any "
        "offset; mutated and arbitrary strings judged by a hand-written parser; all 256 stream start bytes. "
        "Non-trivial: strings either side accepts.")
LEGS = []
PROTOS, KINDS = ["KERI", "ACDC"], ["JSON", "MGPK", "CBOR", "CESR"]


def parse(b):
    """reference: (proto, pvrsn, kind, size, gvrsn) when b begins with a valid version string, else None"""
    s = b.decode("latin-1")
    up = "ABCDEFGHIJKLMNOPQRSTUVWXYZ"
    isup = lambda t, n: len(t) == n and all(ch in up for ch in t)
    if len(s) >= 19 and s[18] == "." and isup(s[:4], 4) and isup(s[10:14], 4) and all(ch in cesr.POS for ch in s[4:10] + s[14:18]):
        pv = (cesr.unb64(s[4]), cesr.unb64(s[5:7]))
        gv = (cesr.unb64(s[7]), cesr.unb64(s[8:10]))
        if s[:4] not in PROTOS or s[10:14] not in KINDS or pv[0] != 2 or gv[0] != 2:
            return None
        return s[:4], pv, s[10:14], cesr.unb64(s[14:18]), gv
    hexd = "0123456789abcdef"
    if len(s) >= 17 and s[16] == "_" and isup(s[:4], 4) and isup(s[6:10], 4) and all(ch in hexd for ch in s[4:6] + s[10:16]):
        pv = (int(s[4], 16), int(s[5], 16))
        if s[:4] not in PROTOS or s[6:10] not in KINDS[:3] or pv[0] > 1:
            return None
        return s[:4], pv, s[6:10], int(s[10:16], 16), None
    return None


def tup(r):
    return r.proto, tuple(r.pvrsn), r.kind, r.size, r.gvrsn and tuple(r.gvrsn)


def refused(fn):
    from keri.kering import KeriError
    try:
        return fn()
    except (KeriError, ValueError, KeyError):
        return None


PV = st.one_of(st.tuples(st.sampled_from([0, 1]), st.integers(0, 15)), st.tuples(st.just(2), st.one_of(st.integers(0, 4095), st.integers(0, 3))),
               st.tuples(st.integers(3, 9), st.just(0)))
SIZE = st.one_of(st.integers(0, 5000), st.sampled_from([16 ** 6 - 1, 64 ** 3, 4095, 4096]), st.integers(0, 16 ** 6 - 1))


@vf.leg(LEGS, st.tuples(st.sampled_from(PROTOS + ["ABCD"]), PV, st.sampled_from(KINDS + ["YAML"]), SIZE, st.none() | PV,
                        st.binary(max_size=8), st.binary(max_size=30)), quick=4000)
def written(c):
    from keri.kering import versify, deversify, smell, Versionage
    proto, pv, kind, size, gv, pre, post = c
    ok = proto in PROTOS and kind in KINDS and pv[0] <= 2 and (kind != "CESR" or pv[0] == 2)
    if pv[0] < 2:
        ok = ok and (gv is None or gv == pv)
    elif pv[0] == 2:
        ok = ok and (gv is None or gv[0] == 2)
    s = refused(lambda: versify(proto=proto, pvrsn=Versionage(*pv), kind=kind, size=size, gvrsn=gv and Versionage(*gv)))
    vf.same(s is not None, ok, f"made {s!r}: ")
    if not ok:
        return "refused"
    if pv[0] < 2:
        want = f"{proto}{pv[0]:x}{pv[1]:x}{kind}{size:06x}_"
        back = (proto, pv, kind, size, None)
    else:
        g = gv or pv
        want = proto + cesr.b64(pv[0], 1) + cesr.b64(pv[1], 2) + cesr.b64(g[0], 1) + cesr.b64(g[1], 2) + kind + cesr.b64(size, 4) + "."
        back = (proto, pv, kind, size, g)
    vf.same(s, want, "version string")
    for v in (s, s.encode(), s + "x", s + s):
        vf.same(tup(deversify(v)), back, "read back")
    raw = pre + s.encode() + post
    clean = all(parse(raw[i:]) is None and not re.match(rb"[A-Z]{4}", raw[i:]) for i in range(len(pre)))
    if clean:
        if len(raw) < 27:
            from keri.kering import ShortageError
            try:
                smell(raw)
            except ShortageError:
                pass
            else:
                raise vf.Violation(f"smelled {raw!r} although cut short")
        else:
            for b in (raw, bytearray(raw), memoryview(raw)):
                vf.same(tup(smell(b)), back, f"smelled at {len(pre)}")
    far = b"{" * 9 + s.encode() + b"x" * 20
    vf.same(refused(lambda: smell(far)), None, "smelled beyond the allowed offset")
    return f"v{pv[0]}"


CH = st.one_of(st.sampled_from(list("0129afgAZz-_.:+ ")), st.characters(max_codepoint=0x7f))


@vf.leg(LEGS, st.tuples(st.sampled_from(PROTOS), st.sampled_from([(1, 0), (2, 0), (0, 9), (2, 4095)]), st.sampled_from(KINDS[:3]), SIZE,
                        st.lists(st.tuples(st.integers(0, 18), CH), max_size=2), st.sampled_from(["", "x" * 20])), quick=4000)
def mutated(c):
    from keri.kering import deversify, versify, Versionage
    proto, pv, kind, size, muts, tail = c
    s = versify(proto=proto, pvrsn=Versionage(*pv), kind=kind, size=size)
    for at, ch in muts:
        s = s[:at] + ch + s[at + 1:]
    s += tail
    want = parse(s.encode())
    got = refused(lambda: tup(deversify(s)))
    vf.same(got, want, f"{s!r} read as")
    return "ok" if want else "bad"


@vf.leg(LEGS, cases=[(i, n) for i in range(256) for n in (1, 3)])
def starts(c):
    from keri.kering import sniff, Colds
    i, n = c
    want = ["ano", "txt", "txt", "msg", "msg", "msg", "msg", "bny"][i >> 5]
    for b in (bytearray([i] * n), bytes([i] * n), memoryview(bytes([i] * n))):
        vf.same(sniff(b), want, f"start byte {i}")
    return want
