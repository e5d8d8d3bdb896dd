"""C02: indexed signatures encode exactly as the CESR indexer table says, in text and binary, and decode back."""
from hypothesis import strategies as st
import vf
from . import cesr
from .c01 import mutate, MUT, judge, forms

RULE = ("any indexer code, indices over the whole range its size allows and beyond, any raw bytes; then mutated, cut and spliced "
        "texts and binaries, judged by a reference codec. Non-trivial: encodings with non-zero index, and inputs the reference "
        "accepts or finds short.")
ASSUMPTIONS = ["codes reserved for testing with a lead byte (1z, 4z) are left out: no value can be made with them"]
LEGS = []
CODES = sorted(cesr.INDEXER)


def idx(ms):
    top = 64 ** ms - 1
    return st.one_of(st.integers(0, min(top, 70)), st.sampled_from([0, 1, top - 1, top, top + 1, -1, 64, 4095, 4096]))


@st.composite
def values(draw, good=False):
    code = draw(st.sampled_from(CODES))
    ms, os, fs = cesr.INDEXER[code]
    if fs is None:
        index = draw(st.integers(0, 8))
        return code, index, draw(st.sampled_from([None, index])), draw(st.binary(min_size=3 * index, max_size=3 * index))
    index = draw(idx(ms))
    ondex = draw(st.one_of(st.none(), st.just(index), idx(max(os, 1))))
    n = (fs - len(code) - ms - os) * 3 // 4
    raw = draw(st.one_of(st.binary(min_size=n, max_size=n), st.sampled_from([bytes(n), b"\xff" * n])))
    if good:
        index %= 64 ** ms
        ondex = None if code in cesr.CURRENT_ONLY else index if not os else (index if ondex is None else ondex) % 64 ** os
    return code, index, ondex, raw


def expect(code, index, ondex):
    """(index, ondex) as made, or None when refused"""
    ms, os, fs = cesr.INDEXER[code]
    if not 0 <= index < 64 ** ms:
        return None
    if code in cesr.CURRENT_ONLY:
        return (index, None) if ondex is None else None
    if code == "0z":
        return index, ondex
    if ondex is None:
        ondex = index
    if os:
        return (index, ondex) if 0 <= ondex < 64 ** os else None
    return (index, ondex) if ondex == index else None


def match(m, code, index, ondex, raw, text, how):
    vf.same((m.code, m.index, m.ondex, m.raw), (code, index, ondex, raw), how)
    vf.same((m.qb64, m.qb64b, m.qb2), (text, text.encode(), cesr.to_bin(text)), how)


@vf.leg(LEGS, st.tuples(values(), st.text(max_size=4), st.binary(max_size=6)), quick=3000)
def roundtrip(c):
    from keri.core.indexing import Indexer, Siger
    from keri.kering import KeriError
    (code, index, ondex, raw), tail, btail = c
    ok = expect(code, index, ondex)
    for klas in (Indexer, Siger):
        try:
            m = klas(raw=raw, code=code, index=index, ondex=ondex)
        except (KeriError, ValueError):
            vf.check(ok is None or (klas is Siger and code == "0z") or (ondex is None and code not in cesr.CURRENT_ONLY and code != "0z"
                                    and cesr.INDEXER[code][1] and index >= 64 ** cesr.INDEXER[code][1]),
                     f"refused {code} {index} {ondex}")
            if klas is Siger:
                return code
            return f"refused {code}"
        vf.check(klas is Indexer or code != "0z", "a Siger with a code that is no signature")
        vf.check(ok is not None, f"made {code} with {index} {ondex}")
        text = cesr.encode_index(code, ok[0], ok[1], raw)
        match(m, code, ok[0], ok[1], raw, text, "made: ")
        pond = None if code in cesr.CURRENT_ONLY else ok[1] if cesr.INDEXER[code][1] else ok[0]
        match(klas(raw=raw + btail, code=code, index=index, ondex=ondex), code, ok[0], ok[1], raw, text, "surplus raw: ")
        for kind, v in forms(text):
            if not isinstance(v, memoryview):
                match(klas(**{kind: v}), code, ok[0], pond, raw, text, f"parsed {type(v).__name__} {kind}: ")
        ims = bytearray(text.encode() + tail.encode())
        match(klas(qb64b=ims, strip=True), code, ok[0], pond, raw, text, "stripped: ")
        vf.same(bytes(ims), tail.encode(), "left after stripping text")
        ims = bytearray(cesr.to_bin(text) + btail)
        match(klas(qb2=ims, strip=True), code, ok[0], pond, raw, text, "stripped: ")
        vf.same(bytes(ims), btail, "left after stripping binary")
        if raw:
            try:
                klas(raw=raw[:-1], code=code, index=index, ondex=ondex)
                vf.check(False, "made from too few bytes")
            except (KeriError, ValueError):
                pass
    return code if index else None


def attempt(**k):
    from keri.core.indexing import Indexer
    from keri.kering import KeriError, ShortageError
    try:
        m = Indexer(**k)
        return "ok", m.code, m.index, m.ondex, m.raw, len(m.qb64)
    except ShortageError:
        return cesr.SHORT
    except (KeriError, ValueError, KeyError, IndexError):
        return cesr.BAD


@vf.leg(LEGS, st.tuples(vf.weighted((6, values(True).map(lambda v: cesr.encode_index(*v))), (1, st.text(alphabet=cesr.ALPHA, max_size=200))),
                        st.lists(MUT, max_size=3)), quick=6000)
def any_text(c):
    from keri.core.indexing import Indexer
    text = mutate(*c)
    if text[:2] in ("1z", "4z"):
        return None
    ref = cesr.decode_index(text)
    odd = any(ch not in cesr.POS for ch in text)
    judge(attempt(qb64b=text.encode()), ref, f"text {vf.short(text)}", odd)
    judge(attempt(qb64=text), ref, f"str text {vf.short(text)}", odd)
    if isinstance(ref, tuple):
        vf.same(Indexer(qb64=text).qb64, text[:ref[-1]], "accepted text is re-encoded differently")
    if len(text) % 4 == 0 and not odd:
        judge(attempt(qb2=cesr.to_bin(text)), ref, f"binary of {vf.short(text)}")
    return [ref[0] if isinstance(ref, tuple) else ref] if ref != cesr.BAD or not c[1] else None


@vf.leg(LEGS, st.tuples(values(True), st.integers(0, 10 ** 6), st.integers(0, 255)), quick=3000)
def any_binary(c):
    from keri.core.indexing import Indexer
    v, at, byte = c
    b = cesr.to_bin(cesr.encode_index(*v))
    if at % 5:   # often in the code part
        at %= 6
    at %= len(b)
    b = b[:at] + bytes([byte]) + b[at + 1:]
    if cesr.to_text(b)[:2] in ("1z", "4z"):
        return None
    ref = cesr.decode_index(cesr.to_text(b))
    judge(attempt(qb2=b), ref, f"binary {b!r}")
    if isinstance(ref, tuple):
        n = ref[-1] * 3 // 4
        vf.same(Indexer(qb2=b).qb2, b[:n], "accepted binary is re-encoded differently")
        for k in list(range(min(n, 8))) + [n - 1, n // 2]:
            vf.same(attempt(qb2=b[:k]), cesr.SHORT, f"binary {b!r} cut to {k}")
    return v[0]
