"""C05: digests and self-addressing identifiers commit to exactly the content they are made over."""
import hashlib
import json
from hypothesis import strategies as st
import vf
from . import cesr

RULE = ("every digest code over random bytes; self-addressed data of random nested fields in every serialization kind, digest code, "
        "identifier label, with and without a version string and ignored fields; then one generated alteration of the data. "
        "Non-trivial: digests of non-empty data, and altered self-addressed data.")
ASSUMPTIONS = ["the msgpack and cbor libraries serialize maps faithfully (shared by code and oracle)"]
LEGS = []
DIGS = ["E", "F", "G", "H", "I", "0D", "0E", "0F", "0G"]


def raw_digest(code, b):
    import blake3
    return {"E": lambda: blake3.blake3(b).digest(), "F": lambda: hashlib.blake2b(b, digest_size=32).digest(),
            "G": lambda: hashlib.blake2s(b).digest(), "H": lambda: hashlib.sha3_256(b).digest(), "I": lambda: hashlib.sha256(b).digest(),
            "0D": lambda: blake3.blake3(b).digest(length=64), "0E": lambda: hashlib.blake2b(b).digest(),
            "0F": lambda: hashlib.sha3_512(b).digest(), "0G": lambda: hashlib.sha512(b).digest()}[code]()


def qualified(code, b):
    return cesr.encode(code, "", raw_digest(code, b))


@vf.leg(LEGS, st.tuples(st.sampled_from(DIGS), st.sampled_from(DIGS), st.binary(min_size=1, max_size=200), st.integers(0, 10 ** 6), st.integers(0, 7)), quick=3000)
def digests(c):
    from keri.core.coring import Diger
    code, other, ser, at, bit = c
    want = qualified(code, ser)
    d = Diger(ser=ser, code=code)
    vf.same((d.qb64, d.code, d.digestive), (want, code, True), "digest")
    at %= len(ser)
    diff = ser[:at] + bytes([ser[at] ^ 1 << bit]) + ser[at + 1:]
    for m in (d, Diger(qb64=want), Diger(qb2=d.qb2), Diger(raw=d.raw, code=code)):
        vf.check(m.verify(ser), "does not verify its own data")
        for bad in (diff, ser[:-1] if len(ser) > 1 else b"xx", ser + b"\0", b"\0" + ser):
            vf.check(not m.verify(bad), f"digest of {ser!r} verifies {bad!r}")
    o, od = Diger(ser=ser, code=other), Diger(ser=diff, code=other)
    vf.check(d.compare(ser, dig=o.qb64) and d.compare(ser, dig=o.qb64b) and d.compare(ser, diger=o), "digests of the same data do not compare")
    vf.check(not d.compare(ser, dig=od.qb64b) and not d.compare(ser, diger=od), "digest of other data compares")
    vf.check(not od.compare(ser, diger=d), "digest of other data compares")
    if other != code:
        vf.check(not d.compare(diff, diger=o), "digests of the same data compare for other data")
    return code


VALUES = st.recursive(st.one_of(st.text(max_size=6), st.integers(-5, 1000), st.booleans(), st.none(), st.just(""), st.just("#" * 44)),
                      lambda s: st.one_of(st.lists(s, max_size=3), st.dictionaries(st.text(min_size=1, max_size=4), s, max_size=3)), max_leaves=8)
KEYS = st.lists(st.sampled_from(["a", "b", "t", "s", "x", "i", "d", "$id", "n", "é"]), unique=True, max_size=5)


def dump(sad, kind):
    import msgpack
    import cbor2
    if kind == "JSON":
        return json.dumps(sad, separators=(",", ":"), ensure_ascii=False).encode()
    return msgpack.dumps(sad) if kind == "MGPK" else cbor2.dumps(sad)


def vs(ver, proto, kind, size):
    return f"{proto}10{kind}{size:06x}_" if ver == 1 else f"{proto}CAACAA{kind}{cesr.b64(size, 4)}."


@st.composite
def datas(draw):
    keys = draw(KEYS)
    label = draw(st.sampled_from(["d", "d", "d", "i", "$id", "@id", "id"]))
    keys = [k for k in keys if k != label]
    keys.insert(draw(st.integers(0, len(keys))), label)
    sad = {k: draw(VALUES) for k in keys}
    sad[label] = draw(st.sampled_from(["", "", "E" + "A" * 43, "x"]))
    kind = draw(st.sampled_from(["JSON", "JSON", "MGPK", "CBOR"]))
    ver = draw(st.sampled_from([0, 0, 1, 2]))
    proto = draw(st.sampled_from(["KERI", "ACDC"]))
    ignore = draw(st.sampled_from([[], [], [], ["q"], ["q", "r"]]))
    for k in ignore:
        sad[k] = draw(VALUES)
    return sad, label, kind, ver, proto, ignore, draw(st.sampled_from(DIGS))


EDIT = st.tuples(st.sampled_from(["set", "drop", "add", "swap", "deep", "said", "size", "vsother", "ignored", "vkind"]), st.integers(0, 99))


def edit(sad, label, ignore, e, new):
    how, at = e
    keys = [k for k in sad if k not in ignore and k not in (label, "v")]
    s = dict(sad)
    if how == "set" and keys:
        k = keys[at % len(keys)]
        s[k] = new
    elif how == "drop" and keys:
        del s[keys[at % len(keys)]]
    elif how == "add":
        s["zz"] = new
    elif how == "swap" and len(keys) > 1:
        i = at % (len(keys) - 1)
        a, b = keys[i], keys[i + 1]
        s = {b if k == a else a if k == b else k: sad[b if k == a else a if k == b else k] for k in sad}
    elif how == "deep" and keys:
        k = keys[at % len(keys)]
        if isinstance(s[k], list):
            s[k] = s[k] + [new]
        elif isinstance(s[k], dict):
            s[k] = {**s[k], "zz": new}
        elif isinstance(s[k], str):
            s[k] += "x"
    elif how == "said":
        x = s[label]
        i = len(x) - 1 - at % 40
        s[label] = x[:i] + ("B" if x[i] != "B" else "C") + x[i + 1:]
    elif how == "size" and "v" in s:
        v = s["v"]
        s["v"] = v[:-2] + ("1" if v[-2] != "1" else "2") + v[-1]
    elif how == "vsother" and "v" in s:
        s["v"] = ("ACDC" if s["v"][:4] == "KERI" else "KERI") + s["v"][4:]
    elif how == "vkind" and "v" in s:
        for a, b in (("JSON", "CBOR"), ("CBOR", "MGPK"), ("MGPK", "JSON")):
            if a in s["v"]:
                s["v"] = s["v"].replace(a, b)
                break
    elif how == "ignored" and ignore:
        s[ignore[0]] = new if s[ignore[0]] != new else "other"
        return s
    return s


@vf.leg(LEGS, st.tuples(datas(), EDIT, VALUES, st.booleans()), quick=5000)
def saids(c):
    from keri.core.coring import Saider
    from keri.kering import KeriError
    (sad, label, kind, ver, proto, ignore, code), e, new, implied = c
    given = dict(sad)
    if ver:
        given = {"v": vs(ver, proto, kind, 0), **given}
    before = json.dumps(given)
    kw = dict(label=label)
    if ignore:
        kw["ignore"] = ignore
    if not (implied and (ver or kind == "JSON")):
        kw["kind"] = kind
    saider, out = Saider.saidify(sad=given, code=code, **kw)
    vf.same(json.dumps(given), before, "input data changed")
    want = dict(given)
    want[label] = "#" * cesr.MATTER[code][2]
    if ver:
        want["v"] = vs(ver, proto, kind, len(dump(want, kind)))
    body = {k: v for k, v in want.items() if k not in ignore}
    said = qualified(code, dump(body, kind))
    full = dict(want)
    full[label] = said
    vf.same(json.dumps(out), json.dumps(full), "self-addressed data")
    vf.same((saider.qb64, saider.code), (said, code), "identifier")
    if ver:
        vf.check(vs(ver, proto, kind, len(dump(out, kind))) == out["v"], "version string does not give the size")
    for m in (saider, Saider(qb64=said), Saider(sad=out, **kw)):
        vf.same(m.qb64, said, "identifier of self-addressed data")
        vf.check(m.verify(out, prefixed=True, **kw), "does not verify")
        vf.check(m.verify(given, versioned=False, **kw), "does not verify the data without its identifier")
        vf.same(m.verify(given, prefixed=True, versioned=False, **kw), given[label] == said, "verifies although its identifier is missing")
    if ver:
        vf.same(saider.verify(given, **kw), given["v"] == full["v"], "verifies with a wrong size in the version string")
    vf.same(Saider(sad={**given, label: ""}, code=code, **kw).qb64, said, "from data and code")
    alt = edit(out, label, ignore, e, new)
    same = json.dumps(alt) == json.dumps(out)
    off = e[0] == "ignored" and (not ver or len(dump(alt, kind)) == len(dump(out, kind)))
    if same or off:
        vf.check(saider.verify(alt, prefixed=True, **kw), f"does not verify after {e}")
    else:
        vf.check(not saider.verify(alt, prefixed=True, **kw), f"verifies after {e}: {alt}")
        if e[0] not in ("said", "size", "vkind"):
            try:
                vf.check(Saider.saidify(sad=alt, code=code, **kw)[0].qb64 != said or e[0] == "ignored", f"same identifier after {e}")
            except (KeriError, ValueError):
                pass
    return [f"{kind}{ver}", e[0]] if not same else None
