"""M01: every disclosure of the same container, from wholly compact to wholly expanded, has the same identifier and nothing else has."""
import copy
from hypothesis import strategies as st
import vf
from . import cesr, fmap
from .c10 import refused

RULE = ("attribute, edge, rule, schema and aggregate sections with nested self-addressed blocks (some under plain blocks, some in lists), in containers of "
        "every message type and four serializations, each section or nested block disclosed or not at random; then one change "
        "anywhere in what is disclosed. Non-trivial: sections with a nested block, lists disclosing at least one element.")
LEGS = []
E = lambda n: cesr.encode("E", "", bytes([n]) * 32)
NAME = fmap.NAME.filter(lambda s: s not in ("d", "zz9"))
SIMPLE = st.dictionaries(NAME, fmap.ATOM, max_size=2)
LISTS = st.lists(fmap.ATOM | st.builds(lambda m, d: dict(m, d="") if d else m, SIMPLE, st.booleans()), max_size=3)
FLAT = vf.weighted((4, fmap.ATOM), (1, LISTS))


def mark(d, m, at):
    if not d:
        return m
    ks = list(m)
    at = min(at, len(ks))
    return {**{k: m[k] for k in ks[:at]}, "d": "", **{k: m[k] for k in ks[at:]}}


def blocks(fields, p):
    return st.builds(mark, st.integers(0, 9).map(lambda n: n < p), fields, vf.weighted((3, st.just(0)), (1, st.integers(0, 4))))


B0 = blocks(st.dictionaries(NAME, FLAT, max_size=3), 8)
B1 = blocks(st.dictionaries(NAME, vf.weighted((2, FLAT), (2, B0)), min_size=1, max_size=3), 7)
B2 = blocks(st.dictionaries(NAME, vf.weighted((2, FLAT), (1, B0), (2, B1)), min_size=1, max_size=4), 7)
SECT = vf.weighted((12, blocks(st.dictionaries(NAME, vf.weighted((2, FLAT), (1, B0), (1, B1), (2, B2)), min_size=1, max_size=5), 10)),
                   (1, st.dictionaries(NAME, vf.weighted((1, FLAT), (1, B1)), max_size=3)))


def fill(v, kind):
    """(expanded with identifiers, compact with identifiers, has any)"""
    out, com, has = {}, {}, "d" in v
    for k, x in v.items():
        out[k] = com[k] = x
        if isinstance(x, dict):
            out[k], c, h = fill(x, kind)
            has = has or h
            com[k] = c["d"] if "d" in c else c
    if "d" in v:
        com = fmap.said(com, kind, {"d": "E"})
        out["d"] = com["d"]
    return out, com, has


def fold(v, bits):
    """a copy with some of the nested blocks replaced by their identifiers"""
    out = {}
    for k, x in v.items():
        if isinstance(x, dict):
            x = x["d"] if "d" in x and bits.pop() else fold(x, bits)
        out[k] = x
    return out


def unfolds(p, full):
    """p is full with some nested blocks replaced by their identifiers"""
    if not isinstance(p, dict) or not isinstance(full, dict):
        return fmap.exact(p, full) or isinstance(full, dict) and isinstance(p, str) and p == full.get("d")
    return list(p) == list(full) and all(unfolds(p[k], full[k]) for k in p)


class Bits:
    def __init__(self, n):
        self.n = n

    def pop(self):
        self.n, b = divmod(self.n, 2)
        return b


def depth(v):
    return max([depth(x) for x in v.values() if isinstance(x, dict)] or [0]) + ("d" in v)


BITS = vf.weighted((1, st.just(0)), (4, st.integers(0, 2 ** 16)))


@vf.leg(LEGS, st.tuples(SECT, st.sampled_from(fmap.KINDS), BITS, st.booleans()), quick=1200)
def sections(c):
    from keri.core.mapping import Compactor
    blank, kind, bits, greedy = c
    full, com, has = fill(blank, kind)
    part = fold(full, Bits(bits))
    if "d" not in full:
        return None
    for m in (blank, full, part, com):
        was = copy.deepcopy(m)
        o = Compactor(mad=m, makify=True, kind=kind)
        o.compact()
        vf.check(fmap.exact(m, was), "the caller's map was changed")
        vf.check(fmap.exact(o.mad, com), f"compact form: got {vf.short(o.mad)} want {vf.short(com)}")
        vf.same((o.said, o.iscompact), (com["d"], True), "compact form")   # its raw stays that of the map given
        o = Compactor(mad=m, makify=True, compactify=True, kind=kind)
        vf.same(o.said, com["d"], "compacted when made")
        if greedy:
            parts = o.partials
        else:
            o.expand(greedy=False)
            parts = o.partials
        for p in parts.values():
            vf.check(unfolds(p.mad, full), f"partly expanded form {vf.short(p.mad)} is no form of {vf.short(full)}")
            vf.same(p.raw, fmap.dumps(p.mad, kind), "bytes of a partly expanded form")
            again = Compactor(mad=p.mad, makify=True, kind=kind)
            again.compact()
            vf.same(again.said, com["d"], "identifier of a partly expanded form")
        if m is blank or m is full:
            vf.check(any(fmap.exact(p.mad, full) for p in parts.values()), "no wholly expanded form")
        vf.check(any(fmap.exact(p.mad, com) for p in parts.values()), "no compact form")
    d = depth(full)
    return [kind, f"depth{d}"] if d > 1 else None


def element(m, at):
    return mark(True, m, at)


ELEM = st.tuples(st.builds(element, st.dictionaries(NAME, vf.weighted((3, FLAT), (1, B0)), max_size=3), st.integers(0, 3)), st.booleans())


def aggregate(elems, kind, code="E"):
    """(expanded list, list of identifiers, without nested blocks' identifiers filled)"""
    full = [fmap.said(m, kind, {"d": "E"}) for m, shown in elems]
    com = ["#" * fmap.SIZES[code]] + [m["d"] for m in full]
    raw = fmap.dumps(com, kind) if kind != "CESR" else fmap.group("J", "".join(com)).encode()
    agid = fmap.digest(code, raw)
    return [agid] + full, [agid] + com[1:]


def agbytes(v, kind):
    return fmap.dumps(v, kind) if kind != "CESR" else fmap.group("J", "".join(x if isinstance(x, str) else fmap.native(x) for x in v)).encode()


@vf.leg(LEGS, st.tuples(st.lists(ELEM, max_size=5), st.sampled_from(fmap.KINDS), vf.weighted((4, st.just("E")), (1, st.sampled_from(list(fmap.SIZES)))),
                        st.sampled_from(["value", "said", "agid", "swap", "drop", "add", "label", "hide"]), st.integers(0, 40)), quick=1500)
def aggregates(c):
    from keri.core.mapping import Aggor
    elems, kind, code, how, at = c
    full, com = aggregate(elems, kind, code)
    dis = [com[0]] + [f if s else f["d"] for f, (m, s) in zip(full[1:], elems)]
    kw = dict(kind=kind, code=code)
    made = [""] + [m if s else f["d"] for f, (m, s) in zip(full[1:], elems)]
    o = Aggor(ael=[""] + [m for m, s in elems], makify=True, **kw)
    vf.same((o.agid, o.raw, o.size), (full[0], agbytes(full, kind), len(agbytes(full, kind))), "made")
    vf.check(fmap.exact(o.ael, full), f"made: got {vf.short(o.ael)} want {vf.short(full)}")
    shown = [i + 1 for i, (m, s) in enumerate(elems) if s]
    if code == "E":
        got, k = o.disclose(indices=shown + ([0, len(full), len(full) + 3, -1] if at % 2 else []))
        vf.check(fmap.exact(got, dis) and k == kind, f"disclosed {shown}: got {vf.short(got)} want {vf.short(dis)}")
    p = Aggor(ael=made, makify=True, **kw)
    vf.check(fmap.exact(p.ael, dis), "made from a mixture")
    raw = agbytes(dis, kind)
    forms = [("raw", raw)] + ([("qb64", raw.decode()), ("qb64b", raw), ("qb2", cesr.to_bin(raw.decode()))] if kind == "CESR" else [])
    for name, v in forms:
        q = Aggor(**{name: v}, **kw)
        vf.check(fmap.exact(q.ael, dis), "read back")
        vf.same((q.raw, q.agid), (raw, com[0]), "read back")
    vf.same([Aggor.verifyDisclosure(ael=x, kind=kind, code=code) for x in (dis, full, com)], [True] * 3, "true disclosures verify")
    vf.same(Aggor.verifyDisclosure(ael=[], kind=kind, code=code), False, "empty disclosure verifies")
    bad = copy.deepcopy(dis)
    n = len(bad) - 1
    i = 1 + at % n if n else 0
    if how == "agid" or not n:
        bad[0] = cesr.encode(code, "", bytes([at]) * cesr.raw_size(code))
    elif how == "swap" and n > 1:
        j = 1 + (at + 1) % n
        bad[i], bad[j] = bad[j], bad[i]
    elif how == "drop":
        del bad[i]
    elif how == "add":
        bad.insert(i, bad[i])
    elif isinstance(bad[i], str) or how == "hide":
        bad[i] = E(at)
    elif how == "said":
        bad[i]["d"] = E(at)
    elif how == "label":
        k = [k for k in bad[i] if k != "d"]
        bad[i] = {(x + "q" if k and x == k[0] else x): v for x, v in bad[i].items()}
    else:
        bad[i]["zz9"] = at
    if agbytes(bad, kind) == raw or how == "swap" and [x if isinstance(x, str) else x["d"] for x in bad] == com:
        return None
    vf.check(not Aggor.verifyDisclosure(ael=bad, kind=kind, code=code), f"altered ({how}) disclosure verifies: {vf.short(bad)}")
    refused(lambda: Aggor(ael=bad, **kw), f"altered ({how}) list verified")
    refused(lambda: Aggor(raw=agbytes(bad, kind), **kw), f"altered ({how}) list verified")
    return [kind, how] if shown else None


# ---- whole containers

def vstr(kind, n):
    return f"ACDCCAACAA{kind}{cesr.b64(n, 4)}."


def body(sad, kind, blank=False):
    """native container bytes"""
    mapped = sad.get("t") in (None, "acm")
    out = ""
    for k, v in sad.items():
        if mapped:
            out += fmap.text(k)
        if k == "v":
            out += cesr.encode("0O", "", b"") if 0 else "0OACDCCAACAA"
        elif k == "t":
            out += cesr.encode("X", v, b"")
        elif k in ("d", "i"):
            out += v
        elif k in ("u", "rd"):
            out += v or "1AAP"
        elif k == "A":
            out += v if isinstance(v, str) else agbytes(v, kind).decode()
        else:
            out += v if isinstance(v, str) else fmap.native(v)
    return fmap.group("G" if mapped else "F", out).encode()


def put(sad, kind):
    """(bytes, fields) with the version string of its own size"""
    if kind == "CESR":
        raw = body(sad, kind)
        return raw, dict(sad, v=vstr(kind, len(raw)))
    sad = dict(sad, v=vstr(kind, 0))
    sad["v"] = vstr(kind, len(fmap.dumps(sad, kind)))
    return fmap.dumps(sad, kind), sad


SLABELS = ("s", "a", "A", "e", "r")


def container(sad, compact, kind):
    """(bytes, fields, compact bytes, compact fields) of a container whose compact sections are given"""
    com = {k: compact.get(k, v) for k, v in sad.items()}
    d = fmap.digest("E", put(dict(com, d="#" * 44), kind)[0])
    return (*put(dict(sad, d=d), kind), *put(dict(com, d=d), kind))


SCHEMA = st.builds(lambda m, at: {**m, "$id": ""} if at else {"$id": "", **m},
                   st.dictionaries(st.sampled_from(["$schema", "title", "type", "properties", "a b"]), vf.weighted((3, fmap.STR), (1, B0)), max_size=3), st.booleans())
CASE = st.tuples(st.sampled_from(["acm", None, "act", "acg"]), st.sampled_from(fmap.KINDS), SCHEMA, SECT, st.lists(ELEM, max_size=3), st.none() | SECT, st.none() | SECT,
                 st.lists(BITS, min_size=5, max_size=5), st.integers(0, 7), st.booleans(), st.integers(0, 10 ** 6),
                 st.sampled_from(["value", "value", "said", "top", "field", "drop", "label", "hide"]))


def sectioned(c):
    """{label: (blank, full, folded, compact)}"""
    ilk, kind, schema, att, elems, edge, rule, bits, opts, useagg, at, how = c
    out = {}
    s = fmap.said(schema, kind, {"$id": "E"})
    out["s"] = (schema, s, s["$id"] if bits[0] % 3 == 1 else s, s["$id"])
    for k, v, b in (("a", att, bits[1]), ("A", elems, bits[2]), ("e", edge, bits[3]), ("r", rule, bits[4])):
        if v is None:
            if ilk in ("act", "acg"):
                out[k] = ({}, {}, {}, {})
        elif k == "A":
            f, com = aggregate(v, kind)
            out[k] = ([""] + [m for m, _ in v], f, com[0] if b % 3 == 1 else [com[0]] + [x if s else x["d"] for x, (m, s) in zip(f[1:], v)], com[0])
        else:
            f, com, _ = fill(v, kind)
            if "d" in com:
                out[k] = (v, f, com["d"] if b % 5 == 1 else fold(f, Bits(b)), com["d"])
            else:
                out[k] = (f, f, f, f)   # a section without its own identifier is only shown whole
    if ilk == "act" or ilk in ("acm", None) and not useagg:
        out.pop("A")
    else:
        out.pop("a")
    return out


def places(v, path=()):
    """paths of everything inside"""
    out = [path]
    if isinstance(v, (dict, list)):
        for k, x in v.items() if isinstance(v, dict) else enumerate(v):
            out += places(x, path + (k,))
    return out


def altered(sad, how, at, kind):
    """one change to what is disclosed, or None"""
    sad = copy.deepcopy(sad)
    if how == "top":
        return dict(sad, d=E(at % 200))
    if how == "field":
        k = [k for k in sad if k in ("i", "rd", "u")]
        k = k[at % len(k)]
        return dict(sad, **{k: E(at % 200) if k != "u" else cesr.encode("0A", "", bytes([at % 250]) * 16)})
    opn = [k for k in SLABELS if k in sad]
    if how == "drop":
        k = opn[at % len(opn)]
        if sad.get("t") in ("act", "acg") or k in "sa A":
            return dict(sad, **{k: E(at % 200)})
        del sad[k]
        return sad
    opn = [k for k in opn if isinstance(sad[k], (dict, list))]
    spots = [(k,) + p for k in opn for p in places(sad[k]) if p and not (k == "A" and p == (0,))]
    if how == "said":
        ids = [p for p in spots if p[-1] in ("d", "$id")] + ([("A", 0)] if "A" in opn else [])
        spots = ids or spots
    if not spots:
        return None
    p = spots[at % len(spots)]
    at //= len(spots)
    box = sad
    for k in p[:-1]:
        box = box[k]
    k, x = p[-1], box[p[-1]]
    said = k == "d" and isinstance(box, dict) or k == "$id" or p[0] == "A" and len(p) == 2
    if said and isinstance(x, str):
        box[k] = E(at % 200)
    elif how == "label" and isinstance(box, dict):
        box[str(k) + "q"] = box.pop(k)
    elif how == "hide":
        box[k] = E(at % 200)
    elif isinstance(x, dict):
        x["zz9"] = at
    elif isinstance(x, list):
        x.append(at)
    elif isinstance(x, str):
        box[k] = x + "y"
    else:
        box[k] = not x if isinstance(x, bool) else "0"
    return sad


@vf.leg(LEGS, CASE, quick=1500)
def containers(c):
    from keri.core.serdering import SerderACDC
    from keri.acdc import messaging
    ilk, kind, _, _, _, _, _, bits, opts, _, at, how = c
    secs = sectioned(c)
    nd = "" if not opts & 1 else cesr.encode("0A", "", b"\3" * 16)
    rd = "" if not opts & 2 else E(9)

    def form(i):
        sad = {"v": ""} | ({"t": ilk} if ilk else {}) | {"d": ""}
        if ilk in ("act", "acg") or nd:
            sad["u"] = nd
        sad["i"] = E(8) if opts & 4 else cesr.encode("B", "", b"\6" * 32)
        if ilk in ("act", "acg") or rd:
            sad["rd"] = rd
        return sad | {k: secs[k][i] for k in SLABELS if k in secs}
    compact = {k: v[3] for k, v in secs.items()}
    want = [container(form(i), compact, kind) for i in (1, 2, 3)]
    said = want[0][1]["d"]
    for raw, sad, craw, csad in want:
        o = SerderACDC(raw=raw)
        vf.same((o.said, o.raw, o.size, o.kind, o.ilk), (said, raw, len(raw), kind, ilk), "read back")
        vf.check(fmap.exact(o.sad, sad), f"read back: got {vf.short(o.sad)} want {vf.short(sad)}")
        vf.same((o.israid, o.regid, o.uuid), (sad["i"], sad.get("rd"), sad.get("u")), "fields")
        o = SerderACDC(sad=sad)
        vf.same((o.said, o.raw), (said, raw), "from fields")
    for i in (1, 2, 3, 0):
        f = form(i)
        kw = {n: copy.deepcopy(f[k]) for n, k in (("schema", "s"), ("attribute", "a"), ("aggregate", "A"), ("edge", "e"), ("rule", "r")) if k in f}
        kw |= {n: f[k] for n, k in (("uuid", "u"), ("regid", "rd")) if k in f} | dict(kind=kind)
        make = {"acm": messaging.acdcmap, None: lambda *pa, **k: messaging.acdcmap(*pa, ilk=None, **k), "act": messaging.acdcatt, "acg": messaging.acdcagg}[ilk]
        o = make(f["i"], compactify=True, **copy.deepcopy(kw))
        raw, sad = want[2][2:]
        vf.check(o.raw == raw and fmap.exact(o.sad, sad), f"made compact from form {i}: got {vf.short(o.sad)} want {vf.short(sad)}")
        if i:
            o = make(f["i"], **kw)
            raw, sad = want[i - 1][:2]
            vf.check(o.raw == raw and fmap.exact(o.sad, sad), f"made: got {vf.short(o.sad)} want {vf.short(sad)}")
        elif kind != "CESR" or not secs.get("A", [None])[0]:
            vf.same(make(f["i"], **kw).said, said, "identifier when sections' own are left to be filled in")
    raw, sad = want[1][:2]
    bad = altered(sad, how, at, kind)
    labels = [kind, str(ilk), how]
    if bad is not None:
        braw, bad = put(bad, kind)
        if braw != raw:
            refused(lambda: SerderACDC(raw=braw), f"altered ({how}) container verified, was {vf.short(sad)}, became {vf.short(bad)}")
            refused(lambda: SerderACDC(sad=bad), f"altered ({how}) container verified from fields")
    return labels if any(isinstance(v[0], dict) and depth(v[0]) > 1 or k == "A" for k, v in secs.items() if k != "s") else None


@vf.leg(LEGS, CASE, quick=1200)
def parts(c):
    """Section messages carry a section under the identifier its container gives it."""
    from keri.core.serdering import SerderACDC
    from keri.acdc import messaging
    ilk, kind, schema, _, _, _, _, bits, opts, _, at, how = c
    secs = sectioned(c)
    secs = {k: v for k, v in secs.items() if v[1]}
    k = [x for x in SLABELS if x in secs]
    k = k[at % len(k)]
    t, make = {"s": ("sch", messaging.sectschema), "a": ("att", messaging.sectattr), "A": ("agg", messaging.sectaggr), "e": ("edg", messaging.sectedge),
               "r": ("rul", messaging.sectrule)}[k]
    for v in secs[k][1:3]:
        sad = {"v": "", "t": t, "d": "#" * 44, k: v}
        sad["d"] = fmap.digest("E", put(sad, kind)[0])
        raw, sad = put(sad, kind)
        o = SerderACDC(raw=raw)
        vf.check(o.raw == raw and fmap.exact(o.sad, sad), f"read back: got {vf.short(o.sad)} want {vf.short(sad)}")
        o = make(copy.deepcopy(v), kind=kind)
        vf.check(o.raw == raw and fmap.exact(o.sad, sad), f"made: got {vf.short(o.sad)} want {vf.short(sad)}")
        bad = altered(sad, "value" if how in ("drop", "field") else how, at // 7, kind)
        if bad is not None and how == "said" or bad is not None and at % 2:   # a change covered again by the message's own digest
            braw, bad = put(dict(bad, d="#" * 44), kind)
            bad["d"] = fmap.digest("E", braw)
            braw, bad = put(bad, kind)
            sound = isinstance(bad[k], str) or how == "top"
            if not sound and kind != "CESR" or not sound:
                again = refill(bad[k], k, kind)
                sound = fmap.exact(again, bad[k])
            if sound:
                vf.same(SerderACDC(raw=braw).said, bad["d"], "another sound section message")
            else:
                refused(lambda: SerderACDC(raw=braw), f"section with wrong identifier inside verified: {vf.short(bad)}")
        elif bad is not None:
            braw, bad = put(bad, kind)
            if braw != raw:
                refused(lambda: SerderACDC(raw=braw), f"altered ({how}) section message verified")
    kw = {n: copy.deepcopy(secs[x][1]) for n, x in (("schema", "s"), ("attribute", "a"), ("aggregate", "A"), ("edge", "e"), ("rule", "r")) if x in secs}
    if len(kw) == 4:
        got = messaging.sectionate(E(8), ilk=ilk, kind=kind, **kw)
        vf.same([x and x.ilk for x in got], [ilk, "sch", "att" if "a" in secs else None, "agg" if "A" in secs else None, "edg", "rul"], "section messages")
        for x, m in zip("saAer", got[1:]):
            if m is not None:
                vf.check(fmap.exact(m.sad[x], secs[x][1]), f"section {x} sent: got {vf.short(m.sad[x])} want {vf.short(secs[x][1])}")
                vf.check(fmap.exact(got[0].sad[x], secs[x][3]), f"section {x} in the container")
    return [t, kind]


def refill(v, k, kind):
    if k == "s":
        return fmap.said(v, kind, {"$id": "E"})
    if k == "A":
        full = [v[0]] + [fmap.said(x, kind, {"d": "E"}) if isinstance(x, dict) else x for x in v[1:]]
        com = ["#" * 44] + [x["d"] if isinstance(x, dict) else x for x in full[1:]]
        full[0] = fmap.digest("E", agbytes(com, kind))
        return full
    return fill(v, kind)[0] if "d" in v else fill(v, kind)[0]


DOTS = st.sampled_from(["x.y", ".", "x.", ".x", "é", "a b"])


@vf.leg(LEGS, st.tuples(SECT, B1, DOTS, st.sampled_from(fmap.KINDS[:3])), quick=200)
def oddlabels(c):
    """Labels outside the native alphabet are refused or treated like any other; nothing loops."""
    from keri.core.serdering import SerderACDC
    blank, blk, lab, kind = c
    full, com, has = fill(dict(blank, d="", **{lab: dict(blk, d="")}), kind)
    raw, sad, craw, csad = container({"v": "", "t": "acm", "d": "", "i": E(8), "s": E(1), "a": full}, {"a": com["d"]}, kind)
    from keri.kering import KeriError
    try:
        o = SerderACDC(raw=raw)
    except (KeriError, ValueError):
        return "refused"
    vf.same(o.said, sad["d"], "read back")
    return "read"
