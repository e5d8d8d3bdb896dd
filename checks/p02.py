"""P02: a malformed message costs no more of a stream than the group that frames it, and never hangs or breaks the parser."""
import copy
from hypothesis import strategies as st
import vf
from . import p01, stream

RULE = ("the streams of P01 with messages whose body or attachments are malformed inside a sized group (unknown or misplaced codes, cut short or over-long "
        "groups, wrong identifiers) or whose handler raises, whole and in pieces; and streams mutated at random bytes. Non-trivial: malformed streams "
        "that also hold messages which must be delivered.")
ASSUMPTIONS = p01.ASSUMPTIONS
LEGS = []
CASE = st.fixed_dictionaries(dict(units=st.lists(stream.unit(2), min_size=1, max_size=5), v=st.integers(1, 2), cuts=st.lists(st.integers(0, 10 ** 6), max_size=8),
                                  bads=st.lists(st.tuples(st.integers(0, 30), st.sampled_from(stream.BADS)), min_size=1, max_size=3)))


def messages(units):
    for u in units:
        if u["u"] == "msg":
            yield u
        elif u["u"] == "grp":
            yield from messages(u["units"])


def deliver(c, pieces, data, version, calls, what):
    log, psr = stream.parser(version=version, framed=True)
    psr.parse(ims=bytearray(data))
    p01.compare(log, calls, what + " whole")
    keep, at = set(), 0
    for p in pieces:
        keep |= {at + x for x in p.cuts}
        at += len(p.data)
    cuts = sorted({x % len(data) for x in c["cuts"]} - keep | {0, len(data)})
    log, psr = stream.parser(version=version, framed=False)
    gen = psr.parsator()
    for a, b in zip(cuts, cuts[1:]):
        psr.ims.extend(data[a:b])
        for _ in range(3):
            next(gen)
    for _ in range(4 + 2 * len(pieces)):
        next(gen)
    p01.compare(log, calls, what + " in pieces")


@vf.leg(LEGS, CASE, quick=2500, thorough=60000)
def contained(c):
    from keri.kering import Vrsn_1_0, Vrsn_2_0
    units = copy.deepcopy(c["units"])
    ms = list(messages(units))
    if not ms:
        return None
    n = 0
    for i, bad in c["bads"]:
        m = ms[i % len(ms)]
        if "bad" in m:
            continue
        if bad == "said" and m["body"]["t"] == "rct":
            continue    # has no identifier of its own
        m["bad"] = bad
        n += 1
        if bad != "raise" and not bad.startswith("att-"):
            m["how"] = "enclosed"
        elif bad.startswith("att-") and m["how"] == "loose":
            m["how"] = "group"
        if bad == "said":
            m["body"] = dict(m["body"], kind="JSON")
    del stream.SPOILED[:]
    pieces, _ = stream.stream(units + [p01.LAST], c["v"])
    data = b"".join(p.data for p in pieces)
    calls = [x for p in pieces for x in p.calls]
    if any(m.get("bad") == "raise" for m in ms) and len({x[1] for x in calls}) < len([m for m in ms if not m.get("bad") or m["bad"] == "raise"]):
        del stream.SPOILED[:]
        return None   # the same message twice, which one raises cannot be told
    try:
        deliver(c, pieces, data, Vrsn_1_0 if c["v"] == 1 else Vrsn_2_0, calls, "with malformed")
    finally:
        del stream.SPOILED[:]
    return sorted({m["bad"] for m in ms if "bad" in m}) if len(calls) > 1 else None


MUT = st.tuples(st.sampled_from(["flip", "del", "ins", "dup", "cut", "swap"]), st.integers(0, 10 ** 6), st.integers(0, 10 ** 6), st.binary(min_size=1, max_size=12))


@vf.leg(LEGS, st.fixed_dictionaries(dict(units=st.lists(stream.unit(1), min_size=1, max_size=4), v=st.integers(1, 2), muts=st.lists(MUT, min_size=1, max_size=4),
                                         after=st.integers(0, 100), step=st.integers(1, 300), raw=st.none() | st.binary(max_size=300))), quick=1500, thorough=60000)
def mutated(c):
    from keri.kering import Vrsn_1_0, Vrsn_2_0
    version = Vrsn_1_0 if c["v"] == 1 else Vrsn_2_0
    pieces, _ = stream.stream(c["units"] + [p01.LAST], c["v"])
    data = bytearray(b"".join(p.data for p in pieces)) if c["raw"] is None else bytearray(c["raw"])
    lo = len(data) * c["after"] // 101
    first = len(data)
    for how, a, b, x in c["muts"] if data else []:
        i = lo + a % max(1, len(data) - lo)
        first = min(first, i)
        if how == "flip":
            data[i:i + 1] = bytes([data[i] ^ (1 << b % 8)]) if i < len(data) else b""
        elif how == "del":
            del data[i:i + 1 + b % 40]
        elif how == "ins":
            data[i:i] = x
        elif how == "dup":
            data[i:i] = data[i:i + b % 200]
        elif how == "cut":
            del data[i + b % 400:]
        else:
            data[i:i + len(x)] = x
    safe, at = [], 0
    if c["raw"] is None:
        ends = []
        for p in pieces:
            at += len(p.data)
            ends.append((at, p))
        good = [p for e, p in ends if e <= first]
        safe = [x for p in good[:-1] for x in p.calls]   # the one next to the damage may take it in
    for mode in ("whole", "pieces"):
        log, psr = stream.parser(version=version, framed=mode == "whole")
        if mode == "whole":
            ims = bytearray(data)
            psr.parse(ims=ims)
            vf.check(not ims, "%d bytes left after parsing a damaged stream", len(ims))
        else:
            gen = psr.parsator()
            for i in range(0, len(data), c["step"]):
                psr.ims.extend(data[i:i + c["step"]])
                next(gen), next(gen)
        if mode == "pieces":
            continue    # an over-long size or a cut within loose attachments may hold or drop what came before
        got, want = stream.seen(log), stream.want(safe)
        vf.same(got[:len(want)], want, "messages before the damage")
        del log[:]
        last = stream.message(p01.LAST, 1)
        psr.parse(ims=bytearray(stream.GENUS[1].encode() + last.data))
        p01.compare(log, last.calls, "message after the damage")
    return "safe" if safe else None
