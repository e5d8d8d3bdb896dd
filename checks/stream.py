"""Generated message streams: message bodies and attachments written here in every framing, and what a
parser is to make of them.  Shared by P01 and P02."""
import json
from hypothesis import strategies as st
import vf
from . import cesr, kel

V1, V2 = 1, 2
GENUS = {1: "-_AAABAA", 2: "-_AAACAA"}
GROUPS = ["sigers", "wigers", "cigars", "rsgs", "tsgs", "lsgs", "frcs", "sscs", "ssts", "ptds", "essrs", "tdcs", "bsqs", "bsss", "tmqs"]
CODE1 = dict(sigers="A", wigers="B", cigars="C", rsgs="D", frcs="E", tsgs="F", sscs="G", lsgs="H", ssts="I", ptds="L", essrs="Z")
CODE2 = dict(sigers="K", wigers="L", cigars="M", rsgs="N", frcs="O", ptds="P", sscs="S", ssts="T", tdcs="W", tsgs="X", lsgs="Y", essrs="Z",
             bsqs="a", bsss="b", tmqs="c")
EVENTS = {"ixn": "processEvent", "rot": "processEvent"}

ATT = st.fixed_dictionaries(dict(g=vf.weighted((2, st.sampled_from(GROUPS[:9])), (1, st.sampled_from(GROUPS))), n=st.integers(1, 3), seed=st.integers(0, 9999),
                                 big=st.booleans(), bny=st.booleans()))
BODY = st.fixed_dictionaries(dict(t=st.sampled_from(["ixn", "rot", "rct", "rpy", "qry", "exn", "iss", "acdc", "ixn"]), kind=st.sampled_from(["JSON", "JSON", "MGPK", "CBOR", "CESR"]),
                                  v=st.integers(1, 2), seed=st.integers(0, 10 ** 6), wrap=st.booleans(), big=st.booleans()))


def unit(deep):
    msg = st.fixed_dictionaries(dict(u=st.just("msg"), body=BODY, atts=st.lists(ATT, max_size=4), sig=vf.weighted((5, st.just(True)), (1, st.just(False))),
                                     how=st.sampled_from(["group", "group", "loose", "enclosed", "enclosed-loose"]), big=st.booleans(), over=st.sampled_from([None, None, None, 1, 2]),
                                     inner=st.sampled_from([None, None, None, 1, 2]), bny=st.booleans(), abny=st.booleans(),
                                     nest=vf.weighted((7, st.just([])), (1, st.lists(st.fixed_dictionaries(dict(body=BODY, atts=st.lists(ATT, max_size=2), big=st.booleans())), min_size=1, max_size=2)))))
    ver = st.fixed_dictionaries(dict(u=st.just("ver"), v=st.integers(1, 2), bny=st.booleans()))
    if not deep:
        return vf.weighted((8, msg), (1, ver))
    grp = st.fixed_dictionaries(dict(u=st.just("grp"), units=st.lists(unit(deep - 1), min_size=1, max_size=3), over=st.sampled_from([None, None, 1, 2]), big=st.booleans(), bny=st.booleans()))
    return vf.weighted((8, msg), (1, ver), (2, grp))


def ctr(code, n, big=False):
    return f"--{code}{cesr.b64(n, 5)}" if big else f"-{code}{cesr.b64(n, 2)}"


def quad(code, text, big=False):
    assert len(text) % 4 == 0
    return ctr(code, len(text) // 4, big or len(text) // 4 > 4095) + text


def r(seed, n):
    import hashlib
    return hashlib.shake_128(f"{seed}".encode()).digest(n)


def dig(s):
    return cesr.encode("EFGHI"[s % 5], "", r(("d", s), 32))


def pre(s):
    return cesr.encode(["B", "D", "E", "1AAA"][s % 4], "", r(("p", s), 33 if s % 4 == 3 else 32)) if s % 4 != 3 else cesr.encode("D", "", r(("p", s), 32))


def num(s):
    n = [0, 1, 255, 2 ** 32 + s][s % 4]
    return cesr.encode(["0A", "0H", "0A", "N"][s % 4], "", n.to_bytes([16, 4, 16, 8][s % 4], "big"))


def siger(s):
    i = [0, 1, 5, 70][s % 4]
    return cesr.encode_index("2A" if i > 63 else "A", i, i, r(("s", s), 64)) if s % 3 else cesr.encode_index("B" if i < 64 else "2B", i, 0, r(("s", s), 64))


def text(b):
    letter = "B"
    code = cesr.var_code(letter, len(b))
    return cesr.encode(code, "", b)


def dts(s):
    t = f"20{s % 90 + 10}-06-27T21:26:21.{s % 1000000:06d}+00:00"
    return cesr.encode("1AAG", "", cesr.to_bin(t.replace(":", "c").replace(".", "d").replace("+", "p")))


def tag(t):
    code = cesr.TAGS[len(t) - 1]
    ss, xs, fs, ls = cesr.MATTER[code]
    return code + "_" * xs + t + ("A" * (fs - len(code) - ss) if fs - len(code) - ss else "")


def attach(a, v, bny=False):
    """(text, (name, values)) of an attachment group under stream version v, or None when there is none such"""
    g, big = a["g"], a["big"]
    codes = CODE1 if v == 1 else CODE2
    if g not in codes:
        return None
    s0 = a["seed"]
    items, vals = [], []
    for k in range(a["n"]):
        s = s0 * 7 + k
        sg = [siger(s + i) for i in range(1 + s % 2)]
        sgrp = lambda: ctr("A", len(sg)) + "".join(sg) if v == 1 else quad("K", "".join(sg))
        if g in ("sigers", "wigers"):
            x = siger(s)
            items.append(x), vals.append(x)
        elif g == "cigars":
            p, c = cesr.encode("B", "", r(("c", s), 32)), cesr.encode("0B", "", r(("cs", s), 64))
            items.append(p + c), vals.append((p, c))
        elif g in ("rsgs", "tsgs"):
            p, n, d = pre(s), num(s), dig(s)
            items.append(p + n + d + sgrp()), vals.append((p, n, d, sg))
        elif g == "lsgs":
            p = pre(s)
            items.append(p + sgrp()), vals.append((p, sg))
        elif g == "frcs":
            n, d = num(s), dts(s)
            items.append(n + d), vals.append((n, d))
        elif g == "sscs":
            n, d = num(s), dig(s)
            items.append(n + d), vals.append((n, d))
        elif g == "ssts":
            p, n, d = pre(s), num(s), dig(s)
            items.append(p + n + d), vals.append((p, n, d))
        elif g == "ptds":
            items.append(text(b"path%d" % s) + sgrp())
        elif g == "essrs":
            x = text(r(("e", s), s % 7))
            items.append(x), vals.append(x)
        elif g == "tdcs":
            x, d = tag("KERIBAA") if s % 2 else tag("KERICAACAA"), dig(s)
            items.append(x + d), vals.append((x, d))
        elif g in ("bsqs", "bsss", "tmqs"):
            d, u = dig(s), [cesr.encode("0A", "", r(("u", s), 16)), dig(s + 1), cesr.encode("1AAP", "", b"")][s % 3]
            if g == "tmqs":
                x = (d, u, tag("text"), text(r(("m", s), s % 5)))
            else:
                x = (d, u, dig(s + 2), tag(["issued", "revoked"][s % 2])) + ((num(s), dig(s + 3)) if g == "bsss" else ())
            items.append("".join(x)), vals.append(x)
    t = "".join(items)
    if v == 1:
        if g in ("rsgs", "ptds"):
            t = quad(codes[g], t, big and g == "ptds")
        else:
            t = ctr(codes[g], a["n"], big and g == "essrs") + t
    else:
        t = quad(codes[g], t, big)
    if g == "ptds":
        n = 8 if t.startswith("--") else 4
        vals = [cesr.to_bin(t[n:]) if bny else t[n:].encode()]
    return t, (g, vals)


def body(b, sv):
    """(raw bytes of body, its counter form text or None, method label, kind) for stream version sv"""
    v = min(b["v"], sv)
    t, seed, kind = b["t"], b["seed"], b["kind"]
    i, d = dig(seed * 5), dig(seed * 5 + 1)
    i, d = "E" + i[1:], "E" + d[1:]
    dt = "2021-06-27T21:26:21.233257+00:00"
    rt = ["logs", "ksn", "mbx"][seed % 3]
    native = kind == "CESR" and v == 2 and sv == 2
    if t in ("iss", "acdc"):
        v, native = 1, False
    if kind == "CESR" and not native:
        kind = "JSON"
    x = f"{seed}" * (1 + seed % 40)
    sad = dict(
        ixn=dict(t="ixn", d="", i=i, s=f"{seed % 500:x}", p=d, a=[dict(i=i, s="0", d=d)] if seed % 2 else []),
        rot=dict(t="rot", d="", i=i, s=f"{1 + seed % 500:x}", p=d, kt="1", k=[kel.qkey(seed % 50)], nt="1", n=[d], bt="0", br=[], ba=[], **(dict(c=[]) if v == 2 else {}), a=[]),
        rct=dict(t="rct", d=d, i=i, s=f"{seed % 500:x}"),
        rpy=dict(t="rpy", d="", **(dict(i=i) if v == 2 else {}), dt=dt, r="/end/role/add", a=dict(cid=i, role=x)),
        qry=dict(t="qry", d="", **(dict(i=i) if v == 2 else {}), dt=dt, r=rt, rr="", q=dict(i=i, src=x)),
        exn=dict(t="exn", d="", i=i, **(dict(ri=d, x=d, p=d) if v == 2 else dict(rp="", p="")), dt=dt, r="/a", q={}, a=dict(x=x), **(dict(e={}) if v == 1 else {})),
        iss=dict(t="iss", d="", i=d, s="0", ri=i, dt=dt),
        acdc=dict(d="", i=i, s=d, a=dict(d=d, x=x)))[t]
    said = () if t == "rct" else ("d",)
    if native:
        from keri.core import serdering
        from keri.kering import Vrsn_2_0, Kinds
        sad = dict(v="KERICAACAACESRAAAA.", **sad)
        ser = serdering.SerderKERI(sad=sad, makify=True, pvrsn=Vrsn_2_0, gvrsn=Vrsn_2_0, kind=Kinds.cesr)
        raw = ser.raw
        form = raw.decode()
    else:
        if t == "acdc":
            sad = {"d": "", **sad}
            full = {**sad, "d": "#" * 44}
            vs = f"ACDC10{kind}{len(kel.dump(dict(v='ACDC10' + kind + '000000_', **full), kind)):06x}_"
            full = dict(v=vs, **full)
            full["d"] = kel.qdig(kel.dump(full, kind))
            raw = kel.dump(full, kind)
        else:
            raw, _ = kel.build(sad, kind, said, v)
        form = quad("W" if sv == 1 else "H", text(raw), b["big"])
    return raw, form, t, v, native


def method(t, v, raw, atts, local=True):
    """the calls a parser is to make for a message, as (name, ...) and the derived values"""
    has = {g: sum((vals for n, vals in atts if n == g), []) for g in GROUPS}
    out = []
    if t in ("ixn", "rot"):
        if has["sigers"]:
            n = has["sscs"][-1] if has["sscs"] else None
            f = has["frcs"][-1] if has["frcs"] else None
            out.append(("kvy.processEvent", n, f))
            if has["cigars"]:
                out.append(("kvy.processAttachedReceiptCouples",))
            if has["rsgs"]:
                out.append(("kvy.processAttachedReceiptSigGroups",))
    elif t == "rct":
        if has["cigars"] or has["wigers"] or has["tsgs"] or has["rsgs"]:
            out.append(("kvy.processReceipt",))
    elif v == 2:
        out.append(("kvy.processMsg",))
    elif t == "rpy":
        if has["cigars"] or has["tsgs"]:
            out.append(("rvy.processReply",))
    elif t == "qry":
        if has["lsgs"] or has["cigars"]:
            p, sg = has["lsgs"][-1] if has["lsgs"] else (None, [])
            has["sigers"] = sg
            out.append(("kvy.processQuery", p))
    elif t == "exn":
        if has["cigars"] or has["tsgs"]:
            out.append(("exc.processEvent",))
    elif t == "iss":
        out.append(("tvy.processEvent", has["sscs"][-1] if has["sscs"] else None))
    elif t == "acdc":
        out.append(("vry.processACDC", has["ssts"][-1] if has["ssts"] else None))
    return out, has


class Piece:
    """Bytes of a stream with what they hold: .data, .calls, .bad cut offsets, .end version, .open (a later group would be taken in)"""
    def __init__(self, data=b"", calls=(), cuts=(), v=None):
        self.data, self.calls, self.cuts, self.v = data, list(calls), set(cuts), v
        self.spans = []


SPOILED = []   # bodies whose handler raises
BADS = ["att-counter", "att-short", "att-code", "att-genus", "att-generic", "att-inner", "att-over", "said", "nobody", "twice", "attfirst", "raise"]


def junk(bad, v):
    """attachment text that is malformed under stream version v"""
    s = siger(3)
    grp = lambda x: ctr("A", 1) + x if v == 1 else quad("K", x)
    return {"att-counter": "-yAB" + s, "att-short": grp(s[:-4]) if v == 2 else grp(s)[:-4], "att-code": grp("_AAA" + s), "att-genus": grp(s) + GENUS[v] + grp(s),
            "att-generic": quad("T" if v == 1 else "A", grp(s)),
            "att-inner": (ctr("F", 1) + pre(1) + num(1) + dig(1) + ctr("B", 1) + s) if v == 1 else quad("X", pre(1) + num(1) + dig(1) + quad("L", s)),
            "att-over": ctr("K" if v == 2 else "A", 900) + s}[bad]


def domain(t, bny):
    return cesr.to_bin(t) if bny else t.encode()


def message(m, sv, inside=None):
    """Piece of a message under stream version sv, inside a group of text (False) or binary (True) domain"""
    bny = m["bny"] if inside is None else inside
    how = m["how"]
    iv = m["over"] if how.startswith("enclosed") and m["over"] else sv
    raw, form, t, v, native = body(m["body"], iv)
    plain = not native and not m["body"]["wrap"] and not how.startswith("enclosed") and inside is None
    abny = (m["abny"] if plain else bny) if inside is None else inside
    av = m["inner"] if m["inner"] and how in ("group", "enclosed") else iv
    atts = list(m["atts"])
    if m["sig"]:
        atts.insert(0, dict(g={"ixn": "sigers", "rot": "sigers", "rct": "wigers", "qry": "lsgs"}.get(t, "tsgs"), n=1, seed=m["body"]["seed"] % 99, big=False, bny=False))
    got = [x for x in (attach(a, av, abny) for a in atts) if x]
    texts = [x[0] for x in got]
    nests = []
    if how in ("group", "enclosed"):
        for k in m["nest"]:
            # a nested message is always enclosed
            nraw, nform, nt, nv, _ = body(k["body"], av)
            ng = [x for x in (attach(a, av, abny) for a in k["atts"]) if x]
            inner = nform + quad("V" if av == 1 else "C", "".join(x[0] for x in ng))
            texts.append(quad("U" if av == 1 else "B", inner, k["big"]))
            nests.append((nraw, [x[1] for x in ng]))
    vals = [x[1] for x in got]
    calls, has = method(t, v, raw, vals)
    calls = [(c, raw, {g: has[g] for g in GROUPS}, nests) for c in calls]
    bad = m.get("bad")
    if bad == "raise":
        calls = calls[:1]
        if calls:
            SPOILED.append(raw)
    elif bad:
        calls = []
        if bad.startswith("att-"):
            texts = texts + [junk(bad, av)]
        elif bad == "said":
            form = quad("W" if iv == 1 else "H", text(raw.replace(b"1", b"2") if b"1" in raw[30:] else raw[:-1]), m["body"]["big"])
        else:
            form = dict(nobody="", twice=junk("att-code", iv), attfirst=quad("V" if iv == 1 else "C", ""))[bad]
    p = Piece(calls=calls, v=sv)
    if how in ("group", "enclosed"):
        a = (GENUS[m["inner"]] if m["inner"] else "") + "".join(texts)
        atext = quad("V" if iv == 1 else "C", a, m["big"])
        bounds = []
    else:
        if not texts:
            texts = [quad("V" if iv == 1 else "C", "")]
        atext = "".join(texts)
        bounds, at = [], 0
        for x in texts[:-1]:
            at += len(x)
            bounds.append(at)
    if how.startswith("enclosed"):
        e = quad("U" if sv == 1 else "B", (GENUS[m["over"]] if m["over"] else "") + form + atext, m["big"])
        p.data = domain(e, bny)
        p.text = e
        return p
    if plain:
        p.data = raw + domain(atext, abny)
        p.text = None
        p.cuts = {len(raw) + (b * 3 // 4 if abny else b) for b in bounds}
        return p
    p.text = form + atext
    p.data = domain(p.text, bny)
    n = len(form)
    p.cuts = {(n + b) * 3 // 4 if bny else n + b for b in bounds}
    return p


def stream(units, v, inside=None):
    """Pieces of the units from stream version v on; the version in force after them"""
    out = []
    for n, x in enumerate(units):
        if x["u"] == "msg":
            p = message(x, v, inside)
        elif x["u"] == "ver":
            if inside is not None or n + 1 == len(units) or units[n + 1]["u"] != "msg":
                continue    # before a message at the top only
            v = x["v"]
            p = Piece(domain(GENUS[v], x["bny"]))
        else:
            bny = x["bny"] if inside is None else inside
            iv = x["over"] or v
            ps, _ = stream(x["units"], iv, bny)
            if not ps:
                continue
            t = quad("T" if v == 1 else "A", (GENUS[x["over"]] if x["over"] else "") + "".join(q.text for q in ps), x["big"])
            p = Piece(domain(t, bny), [c for q in ps for c in q.calls])
            p.text = t
        out.append(p)
    return out, v


EXCS = [ValueError, KeyError, AttributeError, RuntimeError, AssertionError]


class Sink:
    """Stands for each of the handlers a parser gives messages to; records what it was given"""
    def __init__(self, log, name):
        self.log, self.name = log, name

    def __getattr__(self, attr):
        if not attr.startswith("process"):
            raise AttributeError(attr)

        def call(**kwa):
            if "kwa" in kwa:
                kwa = kwa["kwa"]
            self.log.append((f"{self.name}.{attr}", kwa))
            if bytes(kwa["serder"].raw) in SPOILED:
                raise EXCS[len(SPOILED) % len(EXCS)]("handler failed")
        return call


def q(o):
    """qualified text of whatever a parser extracted"""
    if o is None or isinstance(o, (bytes, bytearray)):
        return o if o is None else bytes(o)
    if isinstance(o, (list,)):
        return [q(x) for x in o]
    if isinstance(o, tuple):
        return tuple(q(x) for x in o)
    if type(o).__name__ == "Cigar":
        return (o.verfer.qb64, o.qb64)
    return o.qb64


def norm(x):
    if isinstance(x, str):
        return x
    return x


def listed(d):
    get = d.get if isinstance(d, dict) else lambda k: getattr(d, k)
    return {g: q(list(get(g))) for g in GROUPS}


def seen(log):
    """the log of the sinks in the form of the expectation"""
    out = []
    for name, kwa in log:
        extra = ()
        if name == "kvy.processEvent":
            n, d = kwa.get("delsner"), kwa.get("delsger")
            fn, dt = kwa.get("firner"), kwa.get("dater")
            extra = (None if n is None else (n.sn, q(d)), None if fn is None else (q(fn), q(dt)))
        elif name == "kvy.processQuery":
            extra = (q(kwa["source"]),)
        elif name == "tvy.processEvent":
            extra = (None if kwa["seqner"] is None else (q(kwa["seqner"]), q(kwa["saider"])),)
        elif name == "vry.processACDC":
            extra = (None if kwa["seqner"] is None else (q(kwa["prefixer"]), q(kwa["seqner"]), q(kwa["saider"])),)
        nests = [(bytes(n["serder"].raw), {g: v for g, v in listed(n).items()}) if isinstance(n, dict) else (bytes(n.serder.raw), listed(n)) for n in kwa.get("nests", [])]
        out.append(((name,) + extra, bytes(kwa["serder"].raw), listed(kwa), nests))
    return out


def value(n):
    """the number a number primitive holds"""
    return int.from_bytes(cesr.decode(n)[2], "big")


def want(calls):
    out = []
    for c, raw, has, nests in calls:
        if c[0] == "kvy.processEvent":
            c = (c[0], None if c[1] is None else (value(c[1][0]), c[1][1]), c[2])
        out.append((c, raw, has, [(nr, {g: sum((vals for n, vals in na if n == g), []) for g in GROUPS}) for nr, na in nests]))
    return out


def parser(**kwa):
    from keri.core.parsing import Parser
    log = []
    return log, Parser(kvy=Sink(log, "kvy"), tvy=Sink(log, "tvy"), exc=Sink(log, "exc"), rvy=Sink(log, "rvy"), vry=Sink(log, "vry"), **kwa)
