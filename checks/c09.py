"""C09: typed values (numbers, decimals, datetimes, tags, versions, labels, texts, paths, nonces) survive encoding."""
import datetime as dt
import re
from fractions import Fraction
from hypothesis import strategies as st
import vf
from . import cesr
from .c01 import forms

RULE = ("values of every typed primitive over its whole domain, biased to sizes at code boundaries, leading characters that clash with "
        "padding or escapes, extreme numbers, negative offsets; each made, compared to a reference encoding where the code table fixes "
        "one, parsed back from text and binary; plus out-of-domain values which must be refused. Non-trivial: non-empty values.")
LEGS = []
B64 = cesr.ALPHA


def refused(fn, what):
    from keri.kering import KeriError
    try:
        m = fn()
    except (KeriError, ValueError, KeyError, IndexError):
        return
    raise vf.Violation(f"{what} accepted as {m.qb64}")


def back(cls, m, get, want, **kw):
    """value is the same read from every encoded form"""
    from keri.core.coring import Matter
    vf.same(get(m), want, "made")
    for kind, v in forms(m.qb64):
        n = cls(**{kind: v}, **kw)
        vf.same(get(n), want, f"read back from {kind} {type(v).__name__}")
        vf.same((n.qb64, n.code), (m.qb64, m.code), "re-encoded")
    r = cesr.decode(m.qb64)
    vf.check(isinstance(r, tuple), f"{m.qb64!r} is not a valid primitive: {r}")
    vf.same((r[0], r[2]), (m.code, m.raw), "code and raw by the reference codec")
    vf.same(Matter(qb64=m.qb64).qb64, m.qb64, "as plain primitive")


STARTS = st.sampled_from(["", "A", "-", "_", "--", "AA", "-A", "A-", "AAA", "-AAA", "0"])
BEXT = st.builds(lambda a, b: a + b, STARTS, st.text(alphabet="A-_09azZ", max_size=14))
LONG = vf.weighted((49, st.just(0)), (1, st.sampled_from([16376, 16377, 16378, 16379, 16380, 16381])))


@vf.leg(LEGS, st.tuples(BEXT, LONG, st.booleans(), st.sampled_from(["", "\n", "=", " ", "é", "/", "+"])), quick=3000)
def base64_text(c):
    from keri.core.coring import Bexter
    s, n, esc, bad = c
    s += "B" * n
    if bad:
        refused(lambda: Bexter(bext=s + bad), f"{vf.short(s + bad, 60)!r}")
        refused(lambda: Bexter(bext=(bad + s).encode()), f"{vf.short(bad + s, 60)!r}")
    if not esc and s[:1] == "A" and len(s) % 4 in (0, 3):
        return None   # documented ambiguity
    m = Bexter(bext=s, escapive=esc)
    vf.same(Bexter(bext=s.encode(), escapive=esc).qb64, m.qb64, "str and bytes")
    back(Bexter, m, lambda x: x.bext, s, escapive=esc)
    vf.check(m.qb64.endswith(s), "text is not embedded as it is")
    vf.check(m.code[-1] == "A" and len(m.qb64) - len(s) <= 8 + 4 * (len(m.code) > 2), f"not compact: {vf.short(m.qb64, 60)}")
    return ["big" if n else m.code] if s else None


LABEL = st.builds(lambda a, b: a + b, st.sampled_from(["a", "_", "A", "AA", "Z", "_A"]), st.text(alphabet="A_09azZ", max_size=15))
TEXT = st.one_of(BEXT, st.text(max_size=8), st.text(alphabet="A-_ é\n", max_size=14), LABEL)


@vf.leg(LEGS, st.tuples(LABEL, TEXT, LONG), quick=3000)
def labels(c):
    from keri.core.coring import Labeler
    from keri.kering import KeriError
    lab, text, n = c
    m = Labeler(label=lab)
    vf.same(Labeler(label=lab.encode()).qb64, m.qb64, "str and bytes")
    back(Labeler, m, lambda x: (x.label, x.text), (lab, lab))
    if len(lab) <= 11:
        vf.same(m.qb64, cesr.encode(cesr.TAGS[len(lab) - 1], lab, b""), "short label is a tag")
    t = text + "b" * n
    m = Labeler(text=t)
    back(Labeler, m, lambda x: x.text, t)
    raw = t.encode()
    b64 = all(ch in B64 for ch in t)
    if not t:
        want = "1AAP"
    elif b64 and len(t) <= 11:
        want = cesr.encode(cesr.TAGS[len(t) - 1], t, b"")
    elif b64:
        want = None
        vf.check(m.code[-1] == "A" and m.qb64.endswith(t), f"not compact {vf.short(m.qb64, 80)}")
    elif len(raw) <= 2:
        want = cesr.encode({1: "V", 2: "W"}[len(raw)], "", raw)
    else:
        want = cesr.encode(cesr.var_code("B", len(raw)), None, raw)
    if want:
        vf.same(m.qb64, want, "encoded text")
    isname = bool(re.fullmatch("[a-zA-Z_][a-zA-Z0-9_]*", t, re.A))
    if t and not isname:
        refused(lambda: Labeler(label=t), f"label {vf.short(t, 60)!r}")
        try:
            got = m.label
        except (KeriError, ValueError):
            pass
        else:
            raise vf.Violation(f"text {t!r} read as a label {got!r}")
    return ["b64" if b64 else "text", m.code[-1]] if t else ["empty"]


PART = st.text(alphabet="A_0bcZ", min_size=1, max_size=5)
WIDE = st.text(alphabet="A_0b-@ é.", min_size=1, max_size=4)


@vf.leg(LEGS, st.tuples(st.lists(vf.weighted((5, PART), (1, st.just("A")), (1, st.just("AA")), (1, st.just("AAA"))), max_size=4),
                        st.lists(WIDE, max_size=3), st.booleans(), st.booleans(), st.integers(0, 3), LONG), quick=4000)
def paths(c):
    from keri.core.coring import Pather
    parts, wide, rel, absl, how, n = c
    pathive = not wide
    parts = parts + wide
    if n and parts:
        parts = parts + ["b" * n]
    given = ([""] if absl else []) + parts
    want = list(parts)
    if absl or not rel:
        want = [""] + want
    if want == [""]:
        want = ["", ""]
        given = ["", ""] if absl else []
        how = 0
        rel = False
    if not want:
        return None
    kw = dict(relative=rel, pathive=pathive)
    text = "/".join(given)
    if how == 0:
        m = Pather(parts=list(given), **kw)
    elif how == 1:
        m = Pather(path=[p.encode() for p in given], **kw)
    elif "/" in text:
        m = Pather(path=text if how == 2 else text.encode(), **kw)
    elif "-" in text:
        m = Pather(path=[text], **kw)
    else:
        m = Pather(path=text, **kw)
    bext = all(re.fullmatch("[a-zA-Z0-9_]*", p, re.A) for p in want)
    back(Pather, m, lambda x: (list(x.parts), x.path, list(x.rparts)), (want, "/".join(want), [p for p in want if p]))
    if bext:
        vf.check(m.code[-1] == "A" and m.qb64.endswith("-".join(want)), f"not compact: {vf.short(m.qb64, 80)}")
    else:
        vf.same(m.qb64, cesr.encode(cesr.var_code("B", len("/".join(want).encode())), None, "/".join(want).encode()), "as bytes")
        refused(lambda: Pather(parts=list(given), relative=rel), f"path parts {given}")
    if len(parts) > 1:
        refused(lambda: Pather(parts=[""] + parts[:1] + [""] + parts[1:], pathive=pathive), "empty part inside a path")
    return ["compact" if bext else "bytes", "relative" if want[0] else "absolute"]


@st.composite
def sads(draw, depth=3):
    """nested values with field labels that are names, digits or other text"""
    if depth == 0 or draw(st.integers(0, 3)) == 0:
        return draw(st.one_of(st.integers(0, 9), st.sampled_from(["x", "", "EABC"]), st.none(), st.booleans()))
    if draw(st.booleans()):
        keys = draw(st.lists(st.sampled_from(["a", "b", "A", "_", "d", "e x", "é", "long_name"]), unique=True, max_size=4))
        return {k: draw(sads(depth=depth - 1)) for k in keys}
    return [draw(sads(depth=depth - 1)) for _ in range(draw(st.integers(0, 3)))]


@vf.leg(LEGS, st.tuples(sads(), st.lists(st.tuples(st.integers(0, 3), st.booleans()), max_size=5), st.integers(0, 5)), quick=4000)
def resolving(c):
    """A path leads to the value its labels or ordinals name, one step at a time; a step that is not there is refused."""
    from keri.core.coring import Pather
    from keri.kering import KeriError
    sad, steps, extra = c
    val, parts = sad, []
    for at, byname in steps:
        if isinstance(val, dict) and val:
            k = list(val)[at % len(val)]
            parts.append(k if byname else str(at % len(val)))
            val = val[k]
        elif isinstance(val, list) and val:
            parts.append(str(at % len(val)))
            val = val[at % len(val)]
        else:
            break
    p = Pather(parts=parts, pathive=False)
    vf.same(p.resolve(sad), val, f"value at {parts}")
    vf.same(Pather(qb64=p.qb64).resolve(sad), val, f"value at {parts} after round trip")
    bad = None
    if isinstance(val, (dict, list)):
        bad = str(len(val) + extra)
        if isinstance(val, dict) and extra == 5:
            bad = "nope"
    else:
        bad = "0"
    try:
        got = Pather(parts=parts + [bad], pathive=False).resolve(sad)
    except (KeyError, IndexError, ValueError, KeriError):
        pass
    else:
        raise vf.Violation(f"path {parts + [bad]} led to {got!r}")
    return [f"depth{min(len(parts), 4)}"] if parts else None


@vf.leg(LEGS, st.tuples(st.lists(PART, max_size=4), st.lists(PART, max_size=3), st.integers(0, 5)), quick=2000)
def rooting(c):
    from keri.core.coring import Pather
    a, b, cut = c
    pa, pb = Pather(parts=list(a)), Pather(parts=list(b))
    r = pa.root(pb)
    vf.same([p for p in r.parts if p], b + a, "rooted")
    if b:
        vf.check(r.startswith(pb), f"{r.path} does not start with {pb.path}")
        vf.same(r.strip(pb).rparts, a, "root stripped again")
        vf.same(r.path, "/" + "/".join(b + a), "rooted path")
    want = a[len(b):] if a[:len(b)] == b and b else a
    if b:
        vf.same(pa.strip(pb).rparts, want, f"{pa.path} stripped of {pb.path}")
    pre = Pather(parts=a[:cut])
    if a[:cut]:
        vf.check(pa.startswith(pre), f"{pa.path} does not start with {pre.path}")
        vf.same(pa.strip(pre).rparts, a[cut:], f"{pa.path} stripped of {pre.path}")
    if b and not ("/" + "/".join(a)).startswith("/" + "/".join(b)):
        vf.check(not pa.startswith(pb), f"{pa.path} starts with {pb.path}")
    return ["rooted"] if a and b else None


SIZES = {"M": 2, "R": 5, "N": 8, "S": 11, "T": 14, "U": 17, "0H": 4, "0A": 16}
NUMS = st.one_of(st.integers(0, 300), st.sampled_from([1, 2, 4, 5, 8, 11, 14, 16, 17, 18]).flatmap(
    lambda n: st.integers(256 ** n - 2, 256 ** n + 2)), st.integers(0, 256 ** 17 + 5), st.integers(-3, -1))


@vf.leg(LEGS, st.tuples(NUMS, st.sampled_from([None, None, "M", "R", "N", "S", "T", "U", "0H", "0A"]), st.integers(0, 5)), quick=4000)
def numbers(c):
    from keri.core.coring import Number, Seqner
    from keri.kering import KeriError, ValidationError
    num, code, how = c
    auto = next((k for k in "MRNSTU" if 0 <= num < 256 ** SIZES[k]), None)
    want = code or auto
    ok = num >= 0 and want is not None and num < 256 ** SIZES[want]
    kw = [dict(num=num), dict(numh=f"{num:x}"), dict(sn=num), dict(snh=f"{num:x}"), dict(num=f"{num:x}"), dict(numh=f"{num:032x}")][how]
    if not ok:
        refused(lambda: Number(code=code, **kw), f"{num} in {code}")
    else:
        m = Number(code=code, **kw)
        vf.same(m.qb64, cesr.encode(want, "", num.to_bytes(SIZES[want], "big")), f"{num}")
        back(Number, m, lambda x: (x.num, x.numh, x.sn, x.snh, x.positive, x.inceptive),
             (num, f"{num:x}", num, f"{num:x}", num > 0, num == 0))
        vf.same(Number(raw=num.to_bytes(SIZES[want], "big"), code=want).num, num, "from raw")
        if num < 2 ** 128:
            vf.same(m.onkey, f"{num:032x}", "onkey")
            vf.same(m.huge, cesr.encode("0A", "", num.to_bytes(16, "big")), "huge")
        else:
            for get in (lambda: m.onkey, lambda: m.huge):
                try:
                    got = get()
                except (KeriError, ValueError):
                    continue
                raise vf.Violation(f"{num} as ordinal {got!r}")
        for inc, good in ((None, num < 2 ** 128), (True, num == 0), (False, 0 < num < 2 ** 128)):
            try:
                r = m.validate(inceptive=inc)
                vf.check(good and r is m, f"validated {num} inceptive={inc}")
            except ValidationError:
                vf.check(not good, f"did not validate {num} inceptive={inc}")
    kw = [dict(sn=num), dict(snh=f"{num:x}"), dict(sn=f"{num:x}")][how % 3]
    if 0 <= num < 2 ** 128:
        m = Seqner(**kw)
        vf.same(m.qb64, cesr.encode("0A", "", num.to_bytes(16, "big")), "ordinal")
        back(Seqner, m, lambda x: (x.sn, x.snh), (num, f"{num:x}"))
    else:
        refused(lambda: Seqner(**kw), f"ordinal {num}")
    return [want] if ok and num else ["refused"] if not ok else None


@vf.leg(LEGS, st.tuples(st.integers(0, 2 ** 128 - 1), st.integers(0, 2 ** 128 - 1), st.integers(0, 120)), quick=800)
def ordinal_order(c):
    """ordinals sort as their encodings do"""
    from keri.core.coring import Number, Seqner
    a, b, sh = c
    a, b = a >> sh, b >> sh
    for key in (lambda x: Number(num=x).onkey, lambda x: Seqner(sn=x).qb2, lambda x: Number(num=x, code="0A").qb2, lambda x: Number(num=x).huge):
        if key(0) and isinstance(key(0), str) and len(key(0)) == 24:   # Base64 text order is not numeric order
            continue
        vf.same((key(a) < key(b), key(a) == key(b)), (a < b, a == b), f"order of {a} and {b}")
    return "ordered" if a != b else None


@vf.leg(LEGS, st.one_of(st.integers(-10 ** 30, 10 ** 30), st.floats(allow_nan=False, allow_infinity=False),
                        st.decimals(-10 ** 6, 10 ** 6, places=3).map(float), st.builds(lambda m, e: float(f"{m}e{e}"), st.integers(-99, 99), st.integers(-300, 300))),
        quick=3000)
def decimals(x):
    from keri.core.coring import Decimer
    m = Decimer(decimal=x)
    back(Decimer, m, lambda d: (d.decimal, type(d.decimal), repr(d.decimal)), (x, type(x), repr(x)))
    vf.check(m.code[-1] == "H", f"code {m.code}")
    for s in (m.dns, m.dns.encode(), f"{x}", f"{x}".encode()):
        n = Decimer(dns=s)
        vf.same((n.qb64, n.decimal), (m.qb64, x), f"from number text {s!r}")
    if isinstance(x, int):
        vf.same(m.dns, str(x), "decimal number string")
        if x >= 0:
            vf.same(Decimer(dns="+00" + str(x)).qb64, m.qb64, "sign and leading zeros")
    for bad in (f"{x}x", "", "1.2.3", "--1"):
        refused(lambda: Decimer(dns=bad), f"number {bad!r}")
    return [type(x).__name__, "exp"] if "e" in repr(x) else [type(x).__name__] if x else None


@vf.leg(LEGS, st.tuples(st.datetimes(dt.datetime(1, 1, 3), dt.datetime(9999, 12, 29)), st.integers(-23 * 60 - 59, 23 * 60 + 59), st.booleans()), quick=2000)
def datetimes(c):
    from keri.core.coring import Dater
    when, off, asbytes = c
    when = when.replace(tzinfo=dt.timezone(dt.timedelta(minutes=off)))
    s = when.isoformat(timespec="microseconds")
    m = Dater(dts=s.encode() if asbytes else s)
    enc = "1AAG" + s.replace(":", "c").replace(".", "d").replace("+", "p")
    vf.same(m.qb64, enc, "encoded datetime")
    back(Dater, m, lambda d: (d.dts, d.dtsb, d.datetime), (s, s.encode(), when))
    vf.same(m.datetime.utcoffset(), when.utcoffset(), "offset")
    refused(lambda: Dater(dts=s[:-1]), s[:-1])
    refused(lambda: Dater(dts=s.replace("T", " ")), "space")
    return ["negative" if off < 0 else "positive" if off else "utc"]


KINDS = st.sampled_from(["icp", "rot", "ixn", "dip", "drt", "rct", "qry", "rpy", "xip", "exn", "pro", "bar", "vcp", "vrt", "iss", "rev",
                         "bis", "brv", "rip", "bup", "upd", "acm", "act", "acg", "ace", "sch", "att", "agg", "edg", "rul"])


@vf.leg(LEGS, st.tuples(st.text(alphabet=B64, max_size=12), st.sampled_from(["", "\n", "=", "é"]), KINDS,
                        st.sampled_from(["EO", "DND", "RB", "NB", "NRB", "DID"]), st.booleans()), quick=2000)
def tags(c):
    from keri.core.coring import Tagger, Ilker, Traitor
    tag, bad, ilk, trait, asbytes = c
    if bad:
        refused(lambda: Tagger(tag=tag + bad), f"tag {tag + bad!r}")
    if 1 <= len(tag) <= 11:
        m = Tagger(tag=tag.encode() if asbytes else tag)
        vf.same(m.qb64, cesr.encode(cesr.TAGS[len(tag) - 1], tag, b""), "tag")
        back(Tagger, m, lambda x: x.tag, tag)
        if tag not in ("EO", "DND", "RB", "NB", "NRB", "DID"):
            refused(lambda: Traitor(trait=tag), f"trait {tag}")
            refused(lambda: Traitor(qb64=m.qb64), f"trait {m.qb64}")
        if len(tag) != 3 or not (tag.isalpha() and tag.islower()):
            refused(lambda: Ilker(ilk=tag), f"message type {tag}")
            refused(lambda: Ilker(qb64=m.qb64), f"message type {m.qb64}")
    else:
        refused(lambda: Tagger(tag=tag.encode() if asbytes else tag), f"tag {tag!r}")
    m = Ilker(ilk=ilk)
    vf.same(m.qb64, "X" + ilk, "message type")
    back(Ilker, m, lambda x: (x.ilk, x.tag), (ilk, ilk))
    m = Traitor(trait=trait)
    vf.same(m.qb64, cesr.encode(cesr.TAGS[len(trait) - 1], trait, b""), "trait")
    back(Traitor, m, lambda x: (x.trait, x.tag), (trait, trait))
    return [f"len{len(tag)}"]


V = st.tuples(st.integers(-1, 64), st.integers(-1, 4096))


@vf.leg(LEGS, st.tuples(st.sampled_from(["KERI", "ACDC"]), V, st.none() | V), quick=2000)
def versions(c):
    from keri.core.coring import Verser
    from keri.kering import Versionage
    proto, pv, gv = c
    ok = all(v is None or 0 <= v[0] <= 63 and 0 <= v[1] <= 4095 for v in (pv, gv))
    pvr, gvr = Versionage(*pv), gv and Versionage(*gv)
    if not ok:
        refused(lambda: Verser(proto=proto, pvrsn=pvr, gvrsn=gvr), f"version {pv} {gv}")
        return "refused"
    m = Verser(proto=proto, pvrsn=pvr, gvrsn=gvr)
    tag = proto + "".join(cesr.b64(v[0], 1) + cesr.b64(v[1], 2) for v in (pv, gv) if v)
    vf.same(m.qb64, cesr.encode(cesr.TAGS[len(tag) - 1], tag, b""), "version field")
    back(Verser, m, lambda x: (x.versage.proto, tuple(x.versage.pvrsn), x.versage.gvrsn and tuple(x.versage.gvrsn)), (proto, pv, gv))
    vf.same(Verser(versage=m.versage).qb64, m.qb64, "from its own versage")
    return "both" if gv else "one"


@vf.leg(LEGS, st.tuples(st.text(max_size=30), LONG, st.booleans()), quick=1500)
def texts(c):
    from keri.core.coring import Texter
    s, n, asbytes = c
    s += "é" * (n * 3 // 8)
    m = Texter(text=s.encode() if asbytes else s)
    raw = s.encode()
    vf.same(m.qb64, cesr.encode(cesr.var_code("B", len(raw)), None, raw), "text")
    back(Texter, m, lambda x: x.text, s)
    return [m.code] if s else None


NONCES = [k for k in ("0A", "a", "E", "F", "G", "H", "I", "0D", "0E", "0F", "0G")]


@vf.leg(LEGS, st.tuples(st.sampled_from(NONCES), st.binary(min_size=64, max_size=64), st.booleans(), st.sampled_from("BCDJ")), quick=1000)
def nonces(c):
    from keri.core.coring import Noncer
    code, raw, asbytes, other = c
    raw = raw[:cesr.raw_size(code)]
    text = cesr.encode(code, "", raw)
    m = Noncer(nonce=text.encode() if asbytes else text)
    back(Noncer, m, lambda x: (x.nonce, x.nonceb, x.raw), (text, text.encode(), raw))
    e = Noncer(nonce=b"" if asbytes else "")
    vf.same((e.nonce, e.nonceb, e.qb64), ("", b"", "1AAP"), "empty nonce")
    vf.same(Noncer(qb64=e.qb64).nonce, "", "empty nonce back")
    refused(lambda: Noncer(nonce=cesr.encode(other, "", raw[:16] * 2)), f"nonce of code {other}")
    for k, size in (("0A", 16), ("a", 32)):
        x, y = Noncer(code=k), Noncer(code=k)
        vf.same(len(x.raw), size, "random size")
        vf.check(x.raw != y.raw, "random nonces repeat")
    return code
