"""C10: a field map keeps its meaning, its order and its self-addressing digest in every serialization."""
import copy
from hypothesis import strategies as st
import vf
from . import cesr, fmap

RULE = ("nested maps of nulls, truth values, numbers, lists and strings (plain, base64 of every lead size, strings that are themselves "
        "primitives or escapes), in JSON, CBOR, MGPK and native CESR, with and without self-addressing fields of every digest code; "
        "then one change of a value, label, order or digest, and damaged native bytes. Non-trivial: maps that are not empty.")
LEGS = []
TREE = st.recursive(fmap.ATOM, lambda s: st.lists(s, max_size=4) | st.dictionaries(fmap.NAME, s, max_size=4), max_leaves=12)
MAP = st.dictionaries(fmap.NAME, TREE, max_size=6)
LAX = st.dictionaries(fmap.STR, st.recursive(fmap.ATOM, lambda s: st.lists(s, max_size=3) | st.dictionaries(fmap.STR, s, max_size=3), max_leaves=6), max_size=5)
PAD = vf.weighted((30, st.just(0)), (1, st.sampled_from([300, 16360, 16384, 16388])))


def refused(fn, what):
    from keri.kering import KeriError
    try:
        m = fn()
    except (KeriError, ValueError, KeyError, IndexError, TypeError):
        return
    raise vf.Violation(f"{what}: {vf.short(getattr(m, 'raw', m), 300)}")


def forms(raw, kind):
    out = [("raw", raw), ("raw", raw.decode() if kind != "MGPK" and kind != "CBOR" else raw), ("raw", bytearray(raw))]
    if kind == "CESR":
        out += [("qb64", raw.decode()), ("qb64b", raw), ("qb2", cesr.to_bin(raw.decode())), ("qb2", bytearray(cesr.to_bin(raw.decode()))),
                ("raw", raw + b"-AAB"), ("qb64b", raw + b"\0"), ("qb2", cesr.to_bin(raw.decode()) + b"\xff")]
    return out


@vf.leg(LEGS, st.tuples(MAP, LAX, st.booleans(), st.sampled_from(fmap.KINDS), PAD), quick=2500)
def roundtrip(c):
    from keri.core.mapping import Mapper
    m, lax, strict, kind, pad = c
    m = m if strict else lax
    if pad:
        m = dict(m, **{"pad": "B" * pad})
    was = copy.deepcopy(m)
    want = fmap.dumps(m, kind)
    o = Mapper(mad=m, strict=strict, kind=kind)
    vf.check(fmap.exact(m, was), "the caller's map was changed")
    vf.same(o.raw, want, f"{kind} bytes")
    vf.same((o.size, o.qb64b), (len(want), want), "size")
    if kind == "CESR":
        vf.same((o.count, o.qb64, o.qb2, o.byteCount(), o.byteCount(cold="bny")),
                (len(want) // 4, want.decode(), cesr.to_bin(want.decode()), len(want), len(want) // 4 * 3), "native forms")
    if not m:
        return None
    for name, v in forms(want, kind):
        n = Mapper(**{name: v}, strict=strict, kind=kind)
        vf.check(fmap.exact(n.mad, m), f"read back from {name} {type(v).__name__}: got {vf.short(n.mad)} want {vf.short(m)}")
        vf.same(n.raw, want, "kept bytes")
        vf.same(Mapper(mad=n.mad, strict=strict, kind=kind).raw, want, "written again")
    if kind == "CESR":
        for name, v, rest in (("qb64b", bytearray(want + b"-AABxyz"), b"-AABxyz"),
                              ("qb2", bytearray(cesr.to_bin(want.decode()) + b"\1\2\3\4"), b"\1\2\3\4")):
            n = Mapper(**{name: v}, strip=True, strict=strict)
            vf.check(fmap.exact(n.mad, m), "read by stripping")
            vf.same(bytes(v), rest, f"left after stripping {name}")
    return [kind, "strict" if strict else "lax"] + ["big"] * (pad > 300)


def change(m, how, at):
    """a copy of the map changed in one place (or None)"""
    m = copy.deepcopy(m)
    ks = list(m)
    k = ks[at % len(ks)]
    if how == "value":
        v = m[k]
        m[k] = (not v) if isinstance(v, bool) else (v + "x") if isinstance(v, str) else [v] if v is None or isinstance(v, (int, float)) else \
            v + [None] if isinstance(v, list) else dict(v, zz=1)
    elif how == "drop":
        del m[k]
    elif how == "add":
        m["zz9"] = at
    elif how == "label":
        return {(x + "q" if x == k else x): v for x, v in m.items()}
    elif how == "order":
        i = at % len(ks)
        ks = ks[i:] + ks[:i]
        return {x: m[x] for x in ks}
    elif how == "type":
        v = m[k]
        m[k] = str(v) if not isinstance(v, (str, dict)) else [v]
    return m


SAID = st.sampled_from(list(fmap.SIZES))


@vf.leg(LEGS, st.tuples(MAP, st.sampled_from([{"d": "E"}] * 3 + [{"i": "E"}, {"d": "E", "i": "E"}, {"x_1": "E"}]), SAID, st.booleans(),
                        st.integers(0, 5), st.sampled_from(fmap.KINDS), st.sampled_from(["value", "drop", "add", "label", "order", "type"]),
                        st.integers(0, 30), st.booleans(), st.booleans()), quick=2500)
def addressed(c):
    from keri.core.mapping import Mapper
    m, saids, code, given, pos, kind, how, at, nest, blank = c
    saids = {k: code for k in saids}
    ks = [k for k in m if k not in saids]
    m = {k: m[k] for k in ks[:pos]} | {k: "" for k in saids} | {k: m[k] for k in ks[pos:]}
    if nest:
        m["n"] = {"d": "", "y": 1}     # nested self-addressing fields are plain values here
    want = fmap.said(m, kind, saids)
    raw = fmap.dumps(want, kind)
    kw = dict(kind=kind, saidive=True, saids=saids)
    if given:   # the code already there decides
        kw["saids"] = {k: "E" for k in saids}
        m = {k: cesr.encode(code, "", b"\0" * cesr.raw_size(code)) if k in saids else v for k, v in m.items()}
    was = copy.deepcopy(m)
    o = Mapper(mad=m, makify=True, **kw)
    vf.check(fmap.exact(m, was), "the caller's map was changed")
    vf.check(fmap.exact(o.mad, want), f"made: got {vf.short(o.mad)} want {vf.short(want)}")
    vf.same((o.raw, o.said), (raw, want[next(iter(saids))]), "made")
    kw["saids"] = dict(saids) if blank else {k: "E" for k in saids}
    for n in (Mapper(mad=want, **kw), *(Mapper(**{f: v}, **kw) for f, v in forms(raw, kind))):
        vf.check(fmap.exact(n.mad, want), "read back")
        vf.same((n.raw, n.said), (raw, o.said), "read back")
    bad = change(want, how, at)
    braw = fmap.dumps(bad, kind)
    if braw != raw and any(k in bad for k in saids):
        refused(lambda: Mapper(mad=bad, **kw), f"altered ({how}) map verified")
        refused(lambda: Mapper(raw=braw, **kw), f"altered ({how}) map verified")
        if kind == "CESR":
            refused(lambda: Mapper(qb2=cesr.to_bin(braw.decode()), **kw), f"altered ({how}) map verified")
    return [kind, how, code]


BADLABEL = st.sampled_from(["", "$id", "a b", "1a", "a-b", "é", "a\n", "-", "a.b", "\0", " ", "a" * 12 + "!"])


@vf.leg(LEGS, st.tuples(MAP, BADLABEL, st.booleans(), fmap.ATOM), quick=500)
def labels(c):
    """Native maps meant to hold attribute names take nothing else as a label, on either way."""
    from keri.core.mapping import Mapper
    m, bad, nest, v = c
    m[bad] = v
    if nest:
        m = {"a": [m]}
    refused(lambda: Mapper(mad=m), f"label {bad!r} written")
    raw = fmap.dumps(m, "CESR")
    refused(lambda: Mapper(raw=raw), f"label {bad!r} read")
    o = Mapper(mad=m, strict=False)
    vf.same(o.raw, raw, "with any label")
    vf.check(fmap.exact(Mapper(raw=raw, strict=False).mad, m), "read back")
    return "nested" if nest else "top"


@vf.leg(LEGS, st.tuples(MAP, st.sampled_from(["cut", "set", "insert", "swap"]), st.integers(0, 10 ** 4), st.sampled_from(cesr.ALPHA), st.booleans()), quick=3000)
def damage(c):
    """Damaged native bytes are refused, or are some other map whose own bytes read back the same; shortened ones are always refused."""
    from keri.core.mapping import Mapper
    from keri.kering import KeriError
    m, how, at, ch, bny = c
    raw = fmap.dumps(m, "CESR").decode()
    i = at % len(raw)
    if how == "cut":
        bad = raw[:i]
    elif how == "set":
        bad = raw[:i] + ch + raw[i + 1:]
    elif how == "insert":
        bad = raw[:i] + ch + raw[i:]
    else:
        i = i // 4 * 4
        bad = raw[:i] + raw[i + 4:i + 8] + raw[i:i + 4] + raw[i + 8:]
    if bad == raw:
        return None
    kw = {"qb2": cesr.to_bin(bad)} if bny and len(bad) % 4 == 0 else {"qb64": bad}
    if not bad:
        return None
    try:
        o = Mapper(**kw)
    except (KeriError, ValueError, KeyError, IndexError, TypeError):
        return ["refused", how]
    vf.check(how != "cut", f"cut at {i} of {len(raw)} read as {vf.short(o.mad)}")
    again = Mapper(raw=Mapper(mad=o.mad).raw).mad
    vf.check(fmap.exact(again, o.mad), f"{vf.short(bad)} reads as {vf.short(o.mad)}, which reads back as {vf.short(again)}")
    return ["read", how]
