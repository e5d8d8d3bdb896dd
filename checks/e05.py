"""E05: the same events in any order, in pieces or repeated, lead to the same key state."""
from hypothesis import strategies as st
import vf
from . import kel

RULE = ("valid histories delivered in a generated order, each event whole, or its signatures in pieces and its witness signatures as separate "
        "receipts before or after it, with repeats, mixed with forged copies, over one or several streams, with escrow processing in between; "
        "after the last piece and escrow processing to a fixpoint the state, logs and stored signatures are those of in-order delivery. With "
        "recoveries: after a further in-order delivery. Non-trivial: some event arrived before its predecessor or in pieces.")
ASSUMPTIONS = ["Ed25519 and BLAKE3 stand-ins compute the published algorithms"]
LEGS = []
ROT = kel.rots(sw=None, fw=None, back=None).map(lambda o: dict(o, nn=max(1, o["nn"]), a=[]))
IXN = kel.GOODIXN.map(lambda o: dict(o, a=[]))
ICP = kel.GOODICP.map(lambda o: dict(o, nn=max(1, o["nn"]), nontrans=False, c=[x for x in o["c"] if x != "EO"], wits=o["wits"][:3]))
STYLE = st.fixed_dictionaries(dict(split=st.integers(0, 3), wit=st.integers(0, 3), forged=vf.weighted((3, st.just(False)), (1, st.just(True))), twice=st.booleans()))


def pieces(m, s, wits):
    """the messages which together carry one event and all its signatures"""
    sigs, wigs = m.sigs, m.wigs
    rcts = []
    pre, sn, said = m.sad["i"], int(m.sad["s"], 16), m.sad["d"]
    if wigs and s["wit"]:
        cut = len(wigs) if s["wit"] > 1 else len(wigs) // 2
        away, wigs = wigs[:cut], wigs[cut:]
        if s["wit"] == 3:
            rcts = [kel.rct(pre, sn, said, m.raw, couples=[(w.k, False, False)]) for w in away]
        else:
            rcts = [kel.rct(pre, sn, said, m.raw, wigs=[w]) for w in away]
    n = max(1, min(s["split"], len(sigs)))
    out = [kel.Msg(m.raw, m.sad, sigs[i::n], wigs if i == 0 else []).stream() for i in range(n)] + rcts
    if s["forged"]:
        bad = [kel.Sig(x.k, x.index, x.ondex, bad=True) for x in sigs[:2]] + [kel.Sig(sigs[0].k, 40, 40)]
        out.append(kel.Msg(m.raw, m.sad, bad, [kel.Sig(w.k, w.index, w.ondex, bad=True) for w in m.wigs[:1]]).stream())
    return out * (2 if s["twice"] else 1)


@st.composite
def deliveries(draw, rot=ROT, size=1):
    ops = [draw(ICP)] + draw(st.lists(vf.weighted((2, rot), (3, IXN)), min_size=size, max_size=size + 5))
    return dict(ops=ops, style=draw(st.lists(STYLE, min_size=1, max_size=4)), order=draw(st.lists(st.integers(0, 100), max_size=40)),
                esc=draw(st.integers(0, 4)), joined=draw(st.booleans()))


def arrange(c, msgs):
    bits = []
    for i, m in enumerate(msgs):
        bits += [(i, b) for b in pieces(m, c["style"][i % len(c["style"])], None)]
    for k, x in enumerate(c["order"]):      # transpositions, first ones first
        i = k % len(bits)
        j = x % len(bits)
        bits[i], bits[j] = bits[j], bits[i]
    return bits


@vf.leg(LEGS, deliveries(), quick=1500, thorough=50000)
def converges(c):
    out, model, ctl = kel.author(c["ops"])
    msgs = [m for m, acc in out if acc]
    if ctl.pre is None:
        return None
    bits = arrange(c, msgs)
    with kel.Val() as val:
        if c["joined"]:
            val.give(b"".join(b for i, b in bits))
        else:
            for n, (i, b) in enumerate(bits):
                val.give(b)
                if c["esc"] and n % c["esc"] == 0:
                    val.escrows(1)
        val.escrows(2 * len(msgs) + 4)
        kel.compare(val, model, ctl.pre, "after all pieces in generated order")
        kel.audit(val, model, ctl.pre, "after all pieces", {m.sad["d"]: (m.sigs, m.wigs) for m in msgs})
    labels = {f"split{s['split']}wit{s['wit']}" for s in c["style"]}
    if [i for i, b in bits] != sorted(i for i, b in bits) or len(bits) > len(msgs):
        return labels


@vf.leg(LEGS, deliveries(kel.rots(sw=None, fw=None, back=1).map(lambda o: dict(o, nn=max(1, o["nn"]), a=[], then=True, k=None)), size=3), quick=800, thorough=25000)
def recovers(c):
    out, model, ctl = kel.author(c["ops"])
    msgs = [m for m, acc in out if acc]
    if ctl.pre is None:
        return None
    bits = arrange(c, msgs)
    with kel.Val() as val:
        pool, fel = kel.Pool(), []
        for m in msgs:
            pool.add(m)
        for n, (i, b) in enumerate(bits):
            val.give(b)
            if c["esc"] and n % c["esc"] == 0:
                val.escrows(1)
            fel, _ = kel.lawful(val, pool, ctl.pre, fel, f"after piece {n}")
        for m in msgs:
            val.give(m.stream())
        val.escrows(2 * len(msgs) + 4)
        fel, mod = kel.lawful(val, pool, ctl.pre, fel, "at the end")
        a, b = dict(mod.state[ctl.pre]), dict(model.state[ctl.pre])
        a.pop("fn"), b.pop("fn")
        vf.same(a, b, "key state after every event was delivered, in order at last")
    return "displaced" if any(len(v) > 1 for v in model.logs[ctl.pre].at.values()) else None
