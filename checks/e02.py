"""E02: nothing takes effect without signatures meeting the signing threshold."""
from hypothesis import strategies as st
import vf
from . import kel

RULE = ("histories whose every message carries a generated set of signatures (proper, missing, forged, by other keys, wrong, repeated or "
        "out of range indices, every index form) under generated numeric, weighted, multi-clause and nested thresholds; and single events "
        "whose signatures arrive in several parts through escrow. Acceptance and stored signatures against exact threshold arithmetic. "
        "Non-trivial: histories with both accepted and refused messages, and events given in parts.")
ASSUMPTIONS = ["Ed25519 and BLAKE3 stand-ins compute the published algorithms"]
LEGS = []
TH = dict(fw=None, back=None)


@st.composite
def signed(draw):
    icp = draw(kel.icps(sw=2, fw=None, wits=1).map(lambda o: dict(o, nk=max(o["nk"], 2), nn=max(2, o["nn"]), basic=False, nontrans=False)))
    ops = [icp] + draw(st.lists(vf.weighted((3, kel.rots(sw=1, **TH)), (3, kel.ixns(sw=0, **TH)), (1, kel.REDO)), min_size=1, max_size=8))
    for o in ops:
        if o["op"] == "rot":
            o.update(nn=max(2, o["nn"]), wig=None)
        elif o["op"] != "again":
            o["wig"] = None
    return dict(kind="JSON", ops=ops)


@vf.leg(LEGS, signed(), quick=2500, thorough=80000)
def signatures(c):
    model = kel.Model()
    ctl = kel.Ctl(model, 1000)
    sent = {}

    def after(m, acc, what):
        pass
    with kel.Val() as val:
        labels = kel.run(c, val, model, ctl, after)
        if ctl.pre:
            kel.audit(val, model, ctl.pre, "end", {d: (m.sigs, m.wigs) for d, m in model.logs[ctl.pre].sads.items()})
    if any("accepted" in x for x in labels) and any("refused" in x for x in labels):
        return labels


@st.composite
def pieces(draw):
    base = [draw(kel.GOODICP.map(lambda o: dict(o, wits=[], nn=max(2, o["nn"]), nk=max(2, o["nk"]), basic=False, nontrans=False)))]
    base += draw(st.lists(vf.weighted((1, kel.GOODROT), (1, kel.GOODIXN)), max_size=2))
    t = draw(vf.weighted((2, kel.rots(sw=3, **TH)), (1, kel.ixns(sw=3, **TH))))
    for o in base[1:] + [t]:
        if o["op"] == "rot":
            o.update(add=[], nn=max(2, o["nn"]))
    return dict(base=base, target=t, parts=draw(kel.PARTS))


@vf.leg(LEGS, pieces(), quick=1500, thorough=50000)
def parts(c):
    model = kel.Model()
    ctl = kel.Ctl(model, 2000)
    with kel.Val() as val:
        return kel.gathered(c, val, model, ctl)
