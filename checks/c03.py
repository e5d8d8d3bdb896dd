"""C03: group counters say exactly how much follows, in both code table versions, in text and binary."""
from hypothesis import strategies as st
import vf
from . import cesr
from .c01 import mutate, MUT, judge, forms

RULE = ("any counter code of either table version, counts over the whole range and beyond including those that promote a small "
        "code to its big form, framing of generated primitive streams in text and binary, genus-version codes, and mutated or "
        "cut encodings judged by a reference codec. Non-trivial: non-zero counts, and inputs the reference accepts or finds short.")
LEGS = []
COUNTS = st.one_of(st.integers(0, 100), st.sampled_from([4094, 4095, 4096, 4097, 64 ** 3 - 1, 64 ** 3, 64 ** 5 - 1, 64 ** 5, -1]),
                   st.integers(0, 64 ** 5))


def coded(major):
    return st.sampled_from(sorted(cesr.COUNTER[major]))


ANY = st.sampled_from([1, 2]).flatmap(lambda v: st.tuples(st.just(v), coded(v)))


def ver(major):
    from keri.kering import Vrsn_1_0, Vrsn_2_0
    return {1: Vrsn_1_0, 2: Vrsn_2_0}[major]


def make(major, code, count):
    """(code, text) or None when it has no encoding"""
    if count < 0:
        return None
    if len(code) == 2:
        if count > 4095:
            code = "-" + code
            if code not in cesr.COUNTER[major]:
                return None
    n = 2 if len(code) == 2 else 3 if len(code) == 5 else 5
    if count >= 64 ** n:
        return None
    return code, code + cesr.b64(count, n)


def match(m, code, count, text, how):
    vf.same((m.code, m.count, m.qb64, m.qb64b, m.qb2, m.fullSize), (code, count, text, text.encode(), cesr.to_bin(text), len(text)), how)
    vf.same((m.byteCount(), m.byteCount("bny"), m.byteSize(), m.byteSize("bny")),
            (4 * count, 3 * count, len(text), len(text) * 3 // 4), how)
    vf.same((m.hard, m.soft, m.both, m.countToB64()), (code, text[len(code):], text, text[len(code):]), how)


@vf.leg(LEGS, st.tuples(ANY, COUNTS, st.text(max_size=4), st.binary(max_size=6), st.booleans()), quick=3000)
def roundtrip(c):
    from keri.core.counting import Counter
    from keri.kering import KeriError
    (major, code), count, tail, btail, asb64 = c
    ok = make(major, code, count)
    kw = dict(countB64=cesr.b64(count, 6)) if asb64 and count >= 0 else dict(count=count)
    try:
        m = Counter(code=code, version=ver(major), **kw)
    except (KeriError, ValueError, KeyError):
        vf.check(ok is None, f"refused {code} {count}")
        return "refused"
    vf.check(ok is not None, f"made {code} {count}: {m.qb64}")
    want, text = ok
    match(m, want, count, text, "made: ")
    n = Counter(code=m.name, count=count, version=ver(major))
    match(n, want, count, text, "made by name: ")
    for kind, v in forms(text):
        if not isinstance(v, memoryview):
            match(Counter(version=ver(major), **{kind: v}), want, count, text, f"parsed {type(v).__name__} {kind}: ")
    ims = bytearray(text.encode() + tail.encode())
    match(Counter(qb64b=ims, strip=True, version=ver(major)), want, count, text, "stripped: ")
    vf.same(bytes(ims), tail.encode(), "left after stripping text")
    ims = bytearray(cesr.to_bin(text) + btail)
    match(Counter(qb2=ims, strip=True, version=ver(major)), want, count, text, "stripped: ")
    vf.same(bytes(ims), btail, "left after stripping binary")
    return [want] if count else None


def attempt(major, **k):
    from keri.core.counting import Counter
    from keri.kering import KeriError, ShortageError
    try:
        m = Counter(version=ver(major), **k)
        return "ok", m.code, m.count, m.fullSize
    except ShortageError:
        return cesr.SHORT
    except (KeriError, ValueError, KeyError, IndexError):
        return cesr.BAD


@vf.leg(LEGS, st.tuples(ANY, st.integers(0, 64 ** 5 - 1), st.lists(MUT, max_size=3), st.text(alphabet=cesr.ALPHA, max_size=6)), quick=6000)
def any_text(c):
    from keri.core.counting import Counter
    (major, code), count, muts, tail = c
    n = 2 if len(code) == 2 else 3 if len(code) == 5 else 5
    text = mutate(code + cesr.b64(count % 64 ** n, n) + tail, muts)
    ref = cesr.decode_count(text, major)
    odd = any(ch not in cesr.POS for ch in text)
    judge(attempt(major, qb64b=text.encode()), ref, f"text {text!r}", odd)
    judge(attempt(major, qb64=text), ref, f"str text {text!r}", odd)
    if isinstance(ref, tuple):
        vf.same(Counter(qb64=text, version=ver(major)).qb64, text[:ref[-1]], "accepted text is re-encoded differently")
    if not odd and text:
        keep = len(text) // 4 * 4   # whole triplets, and every shorter binary of them
        b = cesr.to_bin(text[:keep])
        ref = cesr.decode_count(text[:keep], major)
        judge(attempt(major, qb2=b), ref, f"binary of {text[:keep]!r}")
        if isinstance(ref, tuple):
            for k in range(ref[-1] * 3 // 4):
                vf.same(attempt(major, qb2=b[:k]), cesr.SHORT, f"binary of {text[:keep]!r} cut to {k}")
    return [ref[0] if isinstance(ref, tuple) else ref] if ref != cesr.BAD else None


@vf.leg(LEGS, st.tuples(ANY, st.lists(st.sampled_from(["D", "0B", "M", "X", "4B", "1AAG"]), max_size=6), st.integers(0, 2),
                        st.sampled_from([0, 0, 0, 4095, 4096]), st.integers(0, 3)), quick=2000)
def enclose(c):
    """A group of material starts with a counter of its exact size, text and binary forms being the same stream."""
    from keri.core.counting import Counter
    from keri.kering import KeriError
    (major, code), codes, kind, pad, off = c
    body = ""
    for k in codes:
        ss, xs, fs, ls = cesr.MATTER[k]
        body += cesr.encode(k, "abc"[:ss] if fs else "", bytes(range(cesr.raw_size(k) if fs else 9)))
    body += "MAAA" * pad
    ok = make(major, code, len(body) // 4)
    if major == 1 and ok and ok[0] not in cesr.QUADS1 | {"-D"}:
        ok = None
    if off:
        ok = None
    text = body + "A" * off
    try:
        if kind == 0:
            got = Counter.enclose(qb64=text, code=code, version=ver(major))
        elif kind == 1:
            got = Counter.enclose(qb64=[bytes, bytearray, memoryview][len(codes) % 3](text.encode()), code=code, version=ver(major))
        else:
            b = cesr.to_bin(body) + bytes(off % 3)
            if off == 3:
                return None
            got = Counter.enclose(qb2=[bytes, bytearray, memoryview][len(codes) % 3](b), code=code, version=ver(major))
    except (KeriError, ValueError, KeyError):
        vf.check(ok is None, f"refused to enclose {len(body)} chars as {code}")
        return "refused"
    vf.check(ok is not None, f"enclosed {len(text)} chars as {code}: {got[:12]!r}")
    want = ok[1] + body
    vf.same(bytes(got), cesr.to_bin(want) if kind == 2 else want.encode(), "enclosed")
    m = Counter(version=ver(major), **({"qb2": got} if kind == 2 else {"qb64b": got}))
    cold = "bny" if kind == 2 else "txt"
    vf.same(len(got), m.byteSize(cold) + m.byteCount(cold), "counter size and count cover the whole group")
    return "enclosed" if body else None


@vf.leg(LEGS, st.tuples(st.integers(-1, 65), st.integers(-1, 4097), st.sampled_from([1, 2])), quick=1500)
def genus_version(c):
    from keri.core.counting import Counter
    from keri.kering import Versionage
    major, minor, v = c
    ok = 0 <= major <= 63 and 0 <= minor <= 4095
    for how in range(3):
        try:
            s = [lambda: Counter.verToB64(Versionage(major, minor)), lambda: Counter.verToB64(major=major, minor=minor),
                 lambda: Counter.verToB64(text=f"{major}.{minor}")][how]()
        except ValueError:
            vf.check(not ok, f"refused {major}.{minor}")
            continue
        vf.check(ok, f"converted {major}.{minor} to {s}")
        vf.same(s, cesr.b64(major, 1) + cesr.b64(minor, 2), "version")
        vf.same(tuple(Counter.b64ToVer(s)), (major, minor), "back")
        vf.same(Counter.b64ToVer(s, texted=True), f"{major}.{minor}", "back")
        g = Counter(code="-_AAA", countB64=s, version=ver(v))
        vf.same(g.qb64, "-_AAA" + s, "genus version code")
        vf.same(Counter(qb2=g.qb2, version=ver(v)).countToB64(), s, "through binary")
    if ok and (major, minor) in ((1, 0), (2, 0)):
        vf.same(Counter.makeGVC(Versionage(major, minor)), ("-_AAA" + cesr.b64(major, 1) + "AA").encode(), "makeGVC")
    return "ok" if ok and (major or minor) else None
