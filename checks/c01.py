"""C01: qualified primitives encode exactly as the CESR code table says, in text and binary, and decode back."""
from hypothesis import strategies as st
import vf
from . import cesr

RULE = ("round trip: any fixed, special-soft or variable-size code with any raw bytes; arbitrary input: mutations, truncations "
        "and splices of valid primitives plus random text and bytes, judged by a reference codec. Non-trivial: round trips of "
        "values with raw bytes or soft part, and inputs the reference accepts or finds short.")
ASSUMPTIONS = ["the reference code table in checks/cesr.py is the published CESR 2.0 master code table"]
LEGS = []

FIXED = sorted(c for c in cesr.MATTER if cesr.MATTER[c][2] is not None)
B64S = st.text(alphabet=cesr.ALPHA)


@st.composite
def values(draw):
    """(code asked for, soft, raw)"""
    if draw(st.integers(0, 2)):
        code = draw(st.sampled_from(FIXED))
        ss, xs, fs, ls = cesr.MATTER[code]
        soft = draw(st.text(alphabet=cesr.ALPHA, min_size=ss - xs, max_size=ss - xs)) if ss else ""
        n = cesr.raw_size(code)
        raw = draw(st.one_of(st.binary(min_size=n, max_size=n), st.just(bytes(n)), st.just(b"\xff" * n)))
        return code, soft, raw
    letter = draw(st.sampled_from("ABCDEFH"))
    code = draw(st.sampled_from(["4", "5", "6", "7AA", "8AA", "9AA"])) + letter
    n = draw(vf.weighted((6, st.integers(0, 40)), (1, st.sampled_from([12282, 12283, 12284, 12285, 12286, 12287, 12288, 12300]))))
    raw = draw(st.binary(min_size=n, max_size=n)) if n < 100 else draw(st.binary(min_size=1, max_size=3)) * (n // 3 + 1)
    return code, "", raw[:n]


def forms(text):
    """every accepted container of a text"""
    yield "qb64", text
    yield "qb64", text.encode()
    yield "qb64b", text.encode()
    yield "qb64b", bytearray(text.encode())
    yield "qb64b", memoryview(text.encode())
    b = cesr.to_bin(text)
    yield "qb2", b
    yield "qb2", bytearray(b)
    yield "qb2", memoryview(b)


def match(m, code, soft, raw, text, how):
    vf.same((m.code, m.soft, m.raw), (code, soft, raw), how)
    vf.same((m.qb64, m.qb64b, m.qb2), (text, text.encode(), cesr.to_bin(text)), how)
    vf.same((m.fullSize, m.hard, m.composable), (len(text), code, True), how)
    vf.check(type(m.raw) is bytes, how + "raw is not bytes")
    big = cesr.MATTER[code][2] is None
    if big:
        vf.same(m.size, len(text[len(code) + len(soft):]) // 4, how + "size")
    vf.same(m.special, bool(soft) and not big, how + "special")


@vf.leg(LEGS, st.tuples(values(), st.text(max_size=4), st.binary(max_size=6)), quick=3000)
def roundtrip(c):
    from keri.core.coring import Matter
    (code, soft, raw), tail, btail = c
    want = code
    if cesr.MATTER[code][2] is None:
        want = cesr.var_code(code[-1], len(raw))
        if code[0] in "789":   # asked for the big code
            want = "789"[-len(raw) % 3] + "AA" + code[-1]
        if len(want) == 4:
            soft = cesr.b64((len(raw) + 2) // 3, 4)
        else:
            soft = cesr.b64((len(raw) + 2) // 3, 2)
    text = cesr.encode(want, soft, raw)
    for extra in (b"", btail):   # surplus raw bytes are left over for fixed sizes, or when a raw size is given
        if extra and cesr.MATTER[code][2] is None:
            if not raw:
                continue
            m = Matter(raw=raw + extra, code=code, rize=len(raw))
        else:
            m = Matter(raw=raw + extra, code=code, soft=soft)
        match(m, want, soft, raw, text, "made: ")
    if not raw and soft and cesr.MATTER[code][2] is not None:
        match(Matter(code=code, soft=soft), want, soft, raw, text, "made from soft: ")
    for kind, v in forms(text):
        match(Matter(**{kind: v}), want, soft, raw, text, f"parsed {type(v).__name__} {kind}: ")
    ims = bytearray(text.encode() + tail.encode())
    match(Matter(qb64b=ims, strip=True), want, soft, raw, text, "stripped: ")
    vf.same(bytes(ims), tail.encode(), "left after stripping text")
    ims = bytearray(cesr.to_bin(text) + btail)
    match(Matter(qb2=ims, strip=True), want, soft, raw, text, "stripped: ")
    vf.same(bytes(ims), btail, "left after stripping binary")
    ims = bytearray(text.encode() + tail.encode())
    Matter(qb64b=ims)
    vf.same(bytes(ims), text.encode() + tail.encode(), "parse without strip changed its input")
    return [want] if raw or soft else None


MUT = st.tuples(st.sampled_from(["cut", "set", "del", "ins", "swap"]), st.integers(0, 10 ** 6),
                st.one_of(st.sampled_from(list("+/=A_-0147 \n")), st.characters(max_codepoint=0x2ff)))


def mutate(text, muts):
    for kind, at, ch in muts:
        at %= len(text) + 1
        if kind == "cut":
            text = text[:at]
        elif kind == "set":
            text = text[:at] + ch + text[at + 1:]
        elif kind == "del":
            text = text[:at] + text[at + 1:]
        elif kind == "ins":
            text = text[:at] + ch + text[at:]
        else:
            text = text[at:] + text[:at]
    return text


def judge(got, ref, what, loose=False):
    """got: ('ok', code, soft, raw, consumed) | 'short' | 'bad' (the reference's verdict must be the same;
    for an input both short and with characters outside Base64, either refusal will do)"""
    if loose and not isinstance(ref, tuple):
        vf.check(not isinstance(got, tuple), f"{what} accepted as {vf.short(got)}")
        return
    vf.same(got, ("ok",) + ref if isinstance(ref, tuple) else ref, what)


def attempt(fn):
    from keri.kering import ShortageError, KeriError
    try:
        return ("ok",) + fn()
    except ShortageError:
        return cesr.SHORT
    except (KeriError, ValueError, KeyError, IndexError):
        return cesr.BAD


@vf.leg(LEGS, st.tuples(vf.weighted((5, values().map(lambda v: cesr.encode(
    v[0] if cesr.MATTER[v[0]][2] is not None else
    ("456" if v[0][0] in "456" and len(v[2]) < 12000 else "789")[-len(v[2]) % 3] + ("" if v[0][0] in "456" and len(v[2]) < 12000 else "AA") + v[0][-1],
    v[1], v[2]))), (1, B64S), (1, st.text(max_size=60))), st.lists(MUT, max_size=3)), quick=8000)
def any_text(c):
    from keri.core.coring import Matter
    text = mutate(*c)
    ref = cesr.decode(text)

    def run(**k):
        m = Matter(**k)
        return m.code, m.soft, m.raw, m.fullSize
    odd = any(ch not in cesr.POS for ch in text)
    judge(attempt(lambda: run(qb64b=text.encode())), ref, f"text {vf.short(text)}", odd)
    judge(attempt(lambda: run(qb64=text)), ref, f"str text {vf.short(text)}", odd)
    if isinstance(ref, tuple):
        vf.same(Matter(qb64=text).qb64, text[:ref[3]], "accepted text is re-encoded differently")
    if len(text) % 4 == 0 and all(ch in cesr.POS for ch in text):   # the same in the binary domain
        judge(attempt(lambda: run(qb2=cesr.to_bin(text))), ref, f"binary of {vf.short(text)}")
    return [ref[0] if isinstance(ref, tuple) else ref] if ref != cesr.BAD or not c[1] else None


@vf.leg(LEGS, st.tuples(values().filter(lambda v: len(v[2]) < 200).map(lambda v: (v[0] if cesr.MATTER[v[0]][2] is not None else
        v[0][:-3].replace("4", "4") and ("789"[-len(v[2]) % 3] + "AA" + v[0][-1]) if len(v[0]) > 2 else
        "456"[-len(v[2]) % 3] + v[0][-1], v[1], v[2])), st.integers(0, 10 ** 6), st.integers(0, 255)), quick=4000)
def any_binary(c):
    """Every whole binary primitive with one byte replaced, and every truncation, agrees with the reference on its text."""
    from keri.core.coring import Matter
    (code, soft, raw), at, byte = c
    b = cesr.to_bin(cesr.encode(code, soft, raw))
    at %= len(b)
    b = b[:at] + bytes([byte]) + b[at + 1:]

    def run(v):
        m = Matter(qb2=v)
        return m.code, m.soft, m.raw, m.fullSize
    ref = cesr.decode(cesr.to_text(b))
    judge(attempt(lambda: run(b)), ref, f"binary {b!r}")
    if isinstance(ref, tuple):
        vf.same(Matter(qb2=b).qb2, b[:ref[3] * 3 // 4], "accepted binary is re-encoded differently")
        for n in range(ref[3] * 3 // 4):
            vf.same(attempt(lambda: run(b[:n])), cesr.SHORT, f"binary {b!r} cut to {n}")
            if n > 40:
                break
    return code


@vf.leg(LEGS, st.tuples(st.sampled_from(sorted(cesr.MATTER)), st.binary(max_size=20), st.text(max_size=12)), quick=1500)
def not_made(c):
    """Too few raw bytes, a soft part too short or outside Base64, or an unknown code is refused."""
    from keri.core.coring import Matter
    from keri.kering import KeriError
    code, raw, soft = c
    ss, xs, fs, ls = cesr.MATTER[code]
    good = True
    if fs is not None:
        good = len(raw) >= cesr.raw_size(code) and (not ss or (len(soft) >= ss - xs and all(ch in cesr.POS for ch in soft[:ss - xs])))
    try:
        m = Matter(raw=raw, code=code, soft=soft)
        vf.check(good, f"made {m.qb64} of {raw!r} {soft!r} for {code}")
    except (KeriError, ValueError):
        vf.check(not good, f"refused {raw!r} {soft!r} for {code}")
    return code if not good else None
