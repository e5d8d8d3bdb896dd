"""E06: an event with witnesses takes effect only with receipts of enough of them."""
from hypothesis import strategies as st
import vf
from . import kel

RULE = ("histories with witness lists changed by generated cuts and adds and generated thresholds, whose events carry generated sets of "
        "witness signatures (missing, forged, by other witnesses, wrong, repeated or out of range indices, every index form); and single "
        "events whose witness signatures arrive as attachments, indexed receipts or receipt couples, before or after the event, mixed with "
        "receipts of former witnesses and of strangers. Non-trivial: histories with both accepted and refused messages; all gathered ones.")
ASSUMPTIONS = ["Ed25519 and BLAKE3 stand-ins compute the published algorithms"]
LEGS = []
W = dict(sw=None, fw=None)


@st.composite
def histories(draw):
    wig = kel.sigspec(1)
    icp = draw(kel.icps(fw=6, sw=None, wits=5))
    icp.update(nn=max(1, icp["nn"]), nk=1, nontrans=False, basic=draw(st.booleans()), wig=draw(wig),
               f=draw(vf.weighted((5, st.none()), (1, st.sampled_from(["dupwit", "toad0", "toadbig"])))))
    ops = [icp]
    for o in draw(st.lists(vf.weighted((5, kel.rots(sw=None, fw=None, back=9)), (3, kel.ixns(sw=None, fw=None, back=None)), (1, kel.REDO)), min_size=1, max_size=8)):
        if o["op"] == "rot":
            o = dict(o, k=None, nn=1, a=[], wig=draw(wig), f=draw(vf.weighted((5, st.none()), (1, st.sampled_from(["cutdup", "cutnot", "adddup", "addhas", "toad0", "toadbig"])))))
        elif o["op"] == "ixn":
            o = dict(o, a=[], wig=draw(wig))
        ops.append(o)
    return dict(kind="JSON", ops=ops)


@vf.leg(LEGS, histories(), quick=2500, thorough=80000)
def receipts(c):
    model = kel.Model()
    ctl = kel.Ctl(model, 3000)
    with kel.Val() as val:
        labels = kel.run(c, val, model, ctl)
        if ctl.pre:
            kel.audit(val, model, ctl.pre, "end", {d: (m.sigs, m.wigs) for d, m in model.logs[ctl.pre].sads.items()})
    if any("accepted" in x for x in labels) and any("refused" in x for x in labels):
        return labels


BIT = st.tuples(st.sampled_from(["att", "rct", "rct", "couple", "couple"]), st.integers(0, 8), vf.weighted((5, st.just(0)), (1, st.integers(1, 3))), st.booleans())


@st.composite
def pieces(draw):
    wits = draw(st.lists(st.integers(0, 5), min_size=1, max_size=5, unique=True))
    base = [dict(draw(kel.GOODICP), wits=wits, nk=1, nn=1, basic=False, nontrans=False, c=[], sig=None, wig=None)]
    base += [dict(o, k=None, nn=1, a=[], add=o["add"][:2]) if o["op"] == "rot" else o
             for o in draw(st.lists(vf.weighted((1, kel.GOODROT), (1, kel.GOODIXN)), max_size=3))]
    t = draw(vf.weighted((3, kel.GOODROT.map(lambda o: dict(o, k=None, nn=1, a=[]))), (2, kel.GOODIXN), (1, st.just(None))))
    return dict(base=base, target=t, at=draw(st.integers(0, 6)), bits=draw(st.lists(BIT, max_size=9)))


@vf.leg(LEGS, pieces(), quick=1800, thorough=50000)
def gathered(c):
    model = kel.Model()
    ctl = kel.Ctl(model, 2000)
    with kel.Val() as val:
        if c["target"]:
            kel.run(dict(ops=c["base"]), val, model, ctl)
            m = ctl.rotate(c["target"]) if c["target"]["op"] == "rot" else ctl.interact(c["target"])
            b = list(ctl.cur["b"])
            wits = [w for w in b if w not in m.sad.get("br", [])] + m.sad.get("ba", [])
        else:
            m = ctl.incept(c["base"][0])
            ctl.pre = m.sad["i"]
            wits = m.sad["b"]
        pre, sn, said = m.sad["i"], int(m.sad["s"], 16), m.sad["d"]
        got, strangers = [], set()
        bits = list(c["bits"])
        bits.insert(c["at"] % (len(bits) + 1), None)
        come, accepted, labels = False, False, set()
        for n, bit in enumerate(bits):
            what = f"piece {n} {bit}"
            if bit is None:
                val.give(kel.Msg(m.raw, m.sad, m.sigs).stream())
                come = True
            else:
                how, w, bad, esc = bit
                k = ctl.nums[wits[w % len(wits)]] if w < 6 and wits else 900000 + 20 + w    # else a stranger
                i = wits.index(kel.qkey(k, False)) if kel.qkey(k, False) in wits else w
                s = kel.Sig(k, i, i if bad != 3 else None, bad=bad == 1)
                if bad == 2:
                    s = kel.Sig(k, i + 1, i + 1)
                if how == "couple":
                    val.give(kel.rct(pre, sn, said, m.raw, couples=[(k, bad == 1, bad == 2)]))
                    if kel.qkey(k, False) in wits and bad in (0, 3):
                        got.append(kel.Sig(k, i, i))
                    elif bad in (0, 3):
                        strangers.add(kel.qkey(k, False))
                elif how == "rct":
                    val.give(kel.rct(pre, sn, said, m.raw, wigs=[s]))
                    got.append(s)
                else:
                    val.give(kel.Msg(m.raw, m.sad, m.sigs, [s]).stream())
                    got.append(s)
                    come = True
                if esc:
                    val.escrows(1)
            if not accepted and come:
                whole = kel.Msg(m.raw, m.sad, m.sigs, got)
                if model.judge(whole):
                    val.escrows(3)
                    model.accept(whole)
                    accepted = True
            kel.compare(val, model, pre, what)
        val.escrows(4)
        kel.compare(val, model, pre, "at the end")
        if accepted:
            labels.add("accepted")
            kel.audit(val, model, pre, "at the end", {said: (m.sigs, got)} | {d: (x.sigs, x.wigs) for d, x in model.logs[pre].sads.items() if d != said})
            have = {v.qb64 for v, _ in val.db.rcts.get(keys=(pre, said))}
            vf.same(have, strangers, "recorded receipts by others")
        return labels or {"never"}
