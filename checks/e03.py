"""E03: a rotation takes effect only with keys committed to beforehand."""
from hypothesis import strategies as st
import vf
from . import kel

RULE = ("histories of rotations revealing generated subsets, orders, repeats and additions of the committed keys under generated numeric, "
        "weighted, multi-clause and nested current and next thresholds, signed with every dual index form, by holders of the present keys "
        "only, by holders of other keys, and after commitments to nothing; signatures also arriving in parts. Acceptance against exact "
        "arithmetic over the keys actually committed to. Non-trivial: histories with a rotation accepted and one refused, and all gathered ones.")
ASSUMPTIONS = ["Ed25519 and BLAKE3 stand-ins compute the published algorithms"]
LEGS = []

REVEAL = vf.weighted((2, st.none()), (5, st.lists(st.integers(-1, 4), min_size=1, max_size=5)))
SIGS = vf.weighted((3, st.none()), (3, st.lists(st.tuples(st.integers(0, 5), vf.weighted((4, st.just(0)), (1, st.sampled_from([1, 2, 4, 5, 6, 7])))), max_size=6)))


@st.composite
def rots(draw):
    op = draw(kel.rots(sw=None, fw=None, back=None))
    op.update(k=draw(REVEAL), sig=draw(SIGS), wig=None, cut=[], add=[], a=[], nn=draw(vf.weighted((9, st.integers(2, 4)), (1, st.just(0)))),
              f=draw(vf.weighted((5, st.none()), (1, st.sampled_from(["dupkey", "stolen", "thold"])))))
    return op


@st.composite
def histories(draw):
    icp = draw(kel.GOODICP)
    icp.update(nn=draw(st.integers(1, 4)), basic=draw(st.booleans()), nontrans=False, wits=[], c=[], f=None)
    return dict(kind="JSON", ops=[icp] + draw(st.lists(vf.weighted((5, rots()), (1, kel.GOODIXN), (1, kel.REDO)), min_size=1, max_size=8)))


class Ctl(kel.Ctl):
    def rotate(self, op):
        if op.get("f") == "stolen":      # rotation to fresh keys by somebody holding the present signing keys
            op = dict(op, k=[-1], f=None)
            m = super().rotate(op)
            now = [self.nums[k] for k in self.cur["k"]]
            m.sad["k"] = list(self.cur["k"])
            m.sad["kt"] = self.cur["kt"]
            m.raw, m.sad = kel.build(m.sad, self.kind)
            m.sigs = [kel.Sig(k, i, i % max(1, len(self.cur["n"]))) for i, k in enumerate(now)]
            return m
        return super().rotate(op)


@vf.leg(LEGS, histories(), quick=2500, thorough=80000)
def reveals(c):
    model = kel.Model()
    ctl = Ctl(model, 0)
    with kel.Val() as val:
        labels = kel.run(c, val, model, ctl, lambda m, acc, what: val.escrows(1))
    if "rot-accepted" in labels and "rot-refused" in labels:
        return labels


@st.composite
def pieces(draw):
    base = [draw(kel.GOODICP.map(lambda o: dict(o, wits=[], nn=max(2, o["nn"]), basic=False, nontrans=False, c=[])))]
    base += draw(st.lists(kel.GOODROT.map(lambda o: dict(o, nn=max(2, o["nn"]), add=[], cut=[])), max_size=2))
    return dict(base=base, target=draw(rots().map(lambda o: dict(o, f=None))), parts=draw(kel.PARTS))


@vf.leg(LEGS, pieces(), quick=1200, thorough=40000)
def gathered(c):
    model = kel.Model()
    ctl = kel.Ctl(model, 2000)
    with kel.Val() as val:
        return kel.gathered(c, val, model, ctl)
