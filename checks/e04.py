"""E04: first seen wins; only a recovery rotation may displace, and nothing is forgotten."""
from hypothesis import strategies as st
import vf
from . import kel

RULE = ("histories with rival events at every past sequence number (interactions, rotations, signed with the keys of that time or of now), "
        "recovery rotations at every depth, repeats, and escrow processing in between, against the reference rules; and two validators of one "
        "forked history given its events in different orders. Non-trivial: histories where something was displaced or a rival refused.")
ASSUMPTIONS = ["Ed25519 and BLAKE3 stand-ins compute the published algorithms"]
LEGS = []
ROT = kel.rots(sw=None, fw=5, back=1).map(lambda o: dict(o, nn=max(1, o["nn"]), k=None, a=[], sig=None, wig=None))
IXN = kel.ixns(sw=None, fw=6, back=2).map(lambda o: dict(o, a=[]))
ICP = kel.GOODICP.map(lambda o: dict(o, nn=max(1, o["nn"]), nk=min(2, o["nk"]), nontrans=False, c=[x for x in o["c"] if x != "EO"], wits=o["wits"][:2]))


@st.composite
def histories(draw):
    return dict(kind="JSON", ops=[draw(ICP)] + draw(st.lists(vf.weighted((3, ROT), (4, IXN), (3, kel.GOODIXN), (1, kel.REDO), (1, ICP)), min_size=2, max_size=12)),
                esc=draw(st.integers(0, 3)))


@vf.leg(LEGS, histories(), quick=2000, thorough=60000)
def recovery(c):
    model = kel.Model()
    ctl = kel.Ctl(model, 0)
    n = [0]
    with kel.Val() as val:
        def after(m, acc, what):
            n[0] += 1
            if c["esc"] and n[0] % c["esc"] == 0:
                val.escrows(1)
                kel.compare(val, model, m.sad["i"], what + " after escrows")
        labels = kel.run(c, val, model, ctl, after)
        val.escrows(2)
        if ctl.pre:
            kel.compare(val, model, ctl.pre, "end")
            for d, m in model.logs[ctl.pre].sads.items():     # displaced events stay readable
                vf.same(val.db.evts.get(keys=(ctl.pre, d)).raw, m.raw, "stored event")
    if labels & {"superseded", "ixn-refused", "rot-refused"}:
        return labels


@st.composite
def forks(draw):
    base = [draw(ICP)] + draw(st.lists(vf.weighted((1, ROT.map(lambda o: dict(o, back=0))), (2, kel.GOODIXN)), max_size=3))
    arm = st.lists(vf.weighted((2, ROT), (4, kel.GOODIXN)), min_size=1, max_size=4)
    a, b = draw(arm), draw(arm)
    order = st.lists(st.tuples(st.integers(0, 40), st.booleans()), min_size=2, max_size=24)
    return dict(base=base, arms=[a, b], orders=draw(st.lists(order, min_size=1, max_size=2)))


@vf.leg(LEGS, forks(), quick=1200, thorough=40000)
def rivals(c):
    """both arms continue the same past; each validator keeps to a lawful history whatever arrives when"""
    msgs = []
    for arm in c["arms"]:
        model = kel.Model()
        ctl = kel.Ctl(model, 0)
        out, _, _ = kel.author(c["base"], ctl=ctl)
        if ctl.pre is None:
            return None
        ctl.used = 100 + 100 * len(msgs)
        more, _, _ = kel.author(arm, ctl=ctl)
        msgs += [m for m, acc in out + more if acc]
    pre = ctl.pre
    labels = set()
    for order in c["orders"]:
        with kel.Val() as val:
            pool, fel = kel.Pool(), []
            for i, esc in [(k, False) for k in range(len(msgs) // 2)] * (order[0][1]) + order:
                m = msgs[i % len(msgs)]
                pool.add(m)
                val.give(m.stream())
                if esc:
                    val.escrows(1)
                was = fel
                fel, mod = kel.lawful(val, pool, pre, fel, f"after {m.sad['t']} sn={m.sad['s']}")
                labels.add("grew" if len(fel) > len(was) else "kept")
            if any(len(v) > 1 for v in mod.logs.get(pre, kel.Log()).at.values()):
                labels.add("displaced")
            if len(pool) > len(fel):
                labels.add("rival-refused")
    return labels if labels & {"displaced", "rival-refused"} else None
