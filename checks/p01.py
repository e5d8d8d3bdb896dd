"""P01: a message stream parses into the same messages and attachments however it is framed and arrives."""
from hypothesis import strategies as st
import vf
from . import stream

RULE = ("streams of messages in JSON, MessagePack, CBOR and native form, of both major versions, with every kind of attachment group, loose, grouped, "
        "enclosed with their message, nested and in groups of messages, text and binary, with version overrides; parsed whole, one at a time, and "
        "arriving in pieces cut anywhere. Non-trivial: streams with two or more delivered messages.")
ASSUMPTIONS = ["Ed25519 and BLAKE3 stand-ins compute the published algorithms"]
LEGS = []
LAST = dict(u="msg", body=dict(t="ixn", kind="JSON", v=1, seed=4, wrap=True, big=False), atts=[], sig=True, how="enclosed", big=False, over=1, inner=None, bny=False, abny=False, nest=[])
CASE = st.fixed_dictionaries(dict(units=st.lists(stream.unit(2), min_size=1, max_size=5), v=st.integers(1, 2), cuts=st.lists(st.integers(0, 10 ** 6), max_size=12),
                                  step=st.sampled_from([0, 0, 0, 1, 7, 64])))


def compare(log, calls, what):
    got, want = stream.seen(log), stream.want(calls)
    for i, w in enumerate(want):
        vf.check(i < len(got), "%s: message %d (%s, %d bytes) was not delivered; %d were", what, i, w[0], len(w[1]), len(got))
        vf.same(got[i][:2], w[:2], f"{what}: message {i}")
        for g in stream.GROUPS:
            vf.same(got[i][2][g], w[2][g], f"{what}: {g} of message {i} {w[0]}")
        vf.same(got[i][3], w[3], f"{what}: nested messages of message {i}")
    vf.check(len(got) == len(want), "%s: %d messages delivered of %d", what, len(got), len(want))


@vf.leg(LEGS, CASE, quick=3000, thorough=60000)
def framing(c):
    from keri.kering import Vrsn_1_0, Vrsn_2_0
    pieces, _ = stream.stream(c["units"] + [LAST], c["v"])
    data = b"".join(p.data for p in pieces)
    calls = [x for p in pieces for x in p.calls]
    version = Vrsn_1_0 if c["v"] == 1 else Vrsn_2_0
    log, psr = stream.parser(version=version, framed=True)
    psr.parse(ims=bytearray(data))
    compare(log, calls, "whole")
    # arriving in pieces
    keep, at = set(), 0
    for p in pieces:
        keep |= {at + x for x in p.cuts}
        at += len(p.data)
    cuts = set(range(0, len(data), c["step"])) if c["step"] and len(data) < 6000 else {x % len(data) for x in c["cuts"]}
    cuts = sorted(cuts - keep | {0, len(data)})
    log, psr = stream.parser(version=version, framed=False)
    gen = psr.parsator()
    for a, b in zip(cuts, cuts[1:]):
        psr.ims.extend(data[a:b])
        for _ in range(3):
            next(gen)
    for _ in range(4 + 2 * len(pieces)):
        next(gen)
    compare(log, calls, "in pieces")
    vf.check(not psr.ims, "%d bytes left unparsed", len(psr.ims))
    if not any(u["u"] == "grp" for u in c["units"]):
        log, psr = stream.parser(version=version)
        ims = bytearray(data)
        n = 0
        while ims and n < 100:
            psr.parseOne(ims=ims)
            n += 1
        compare(log, calls, "one at a time")
        ims, out = bytearray(data), []
        while ims and len(out) < 100:
            out.append(psr.parseOne(ims=ims, version=version if not out else None, processive=False))
        raws = [bytes(e.serder.raw) for e in out]
        for x in calls:
            vf.check(x[1] in raws, "message not extracted when unprocessed")
    return f"{min(len(calls) - 1, 4)}-messages" if len(calls) > 2 else None
