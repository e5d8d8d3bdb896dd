"""E01: a validator's key state is exactly what its accepted events say."""
from hypothesis import strategies as st
import vf
from . import kel

RULE = ("histories of one identifier's inception, rotations, interactions and repeats, written and signed by an independent simulated "
        "controller, with generated faults in placement, thresholds, witnesses, keys, digests and signatures; after every message the "
        "validator's state, stored state and logs against the reference rules. Non-trivial: histories in which something is accepted after inception.")
ASSUMPTIONS = ["Ed25519 and BLAKE3 stand-ins compute the published algorithms"]
LEGS = []


@st.composite
def histories(draw, first=None, body=None, n=9):
    ops = [draw(first if first is not None else kel.icps())]
    ops += draw(st.lists(body, min_size=1, max_size=n))
    return dict(kind=draw(kel.KIND), ops=ops)


BODY = vf.weighted((4, kel.rots()), (4, kel.ixns()), (1, kel.REDO), (1, kel.icps()))


@vf.leg(LEGS, histories(kel.icps(sw=12, fw=30), BODY), quick=3000, thorough=100000)
def states(c):
    model = kel.Model()
    ctl = kel.Ctl(model, 0, c["kind"])
    with kel.Val() as val:
        labels = kel.run(c, val, model, ctl)
    return labels if any(x.startswith(("rot-acc", "ixn-acc")) for x in labels) else None


@vf.leg(LEGS, histories(kel.icps(sw=1, fw=1), st.nothing() if False else kel.REDO, n=1), quick=800, thorough=20000)
def inceptions(c):
    return states(c) or "inception"


@st.composite
def wide(draw):
    """many keys, witnesses and events, so that every number in the events needs more than one digit in base ten and sixteen"""
    nk = vf.weighted((1, st.integers(1, 3)), (2, st.integers(9, 20)))
    th = st.tuples(st.sampled_from([0, 0, 3, 4, 5]), st.integers(0, 30))
    wits = lambda lo, hi: st.lists(st.integers(0, 40), min_size=lo, max_size=hi, unique=True)
    good = lambda s: s.map(lambda o: dict(o, sig=None, wig=None))
    first = dict(draw(kel.icps(None, None)), nk=draw(nk), nn=draw(nk), kt=draw(th), nt=draw(th), wits=draw(vf.weighted((1, st.just([])), (2, wits(9, 19)))), bt=draw(st.integers(0, 40)), basic=False, nontrans=False)
    first["c"] = draw(st.sampled_from([[], [], ["DND"], ["DND", "EO"], ["EO", "DND"]]))
    ops = [first]
    for _ in range(draw(st.integers(0, 3))):
        ops += [dict(draw(kel.ixns(None, None, 11)))] * 0 + [draw(kel.ixns(None, None, 11)) for _ in range(draw(st.sampled_from([0, 1, 6, 17, 17, 17, 33])))]
        if draw(st.booleans()):
            ops.append(dict(draw(kel.rots(None, None, 11)), nn=draw(nk), kt=draw(th), nt=draw(th), bt=draw(st.integers(0, 40)), cut=draw(wits(0, 6)), add=draw(wits(0, 6))))
    return dict(kind=draw(kel.KIND), ops=ops)


@vf.leg(LEGS, wide(), quick=240, thorough=4000)
def large(c):
    """many keys, witnesses and events; opened again at the end"""
    from keri.core.eventing import Kever
    model = kel.Model()
    ctl = kel.Ctl(model, 0, c["kind"])
    with kel.Val() as val:
        labels = kel.run(c, val, model, ctl)
        if ctl.pre in model.state:
            ks = val.db.states.get(keys=ctl.pre)
            back = Kever(db=val.db, state=ks, local=False)
            vf.same(back.state()._asdict(), ks._asdict(), "key state loaded from its record")
            s = model.state[ctl.pre]
            vf.same((back.toader.num, back.sner.num, back.wits, back.estOnly, back.doNotDelegate), (s["bt"], s["sn"], s["b"], "EO" in s["c"], "DND" in s["c"]), "loaded key state")
            labels = set(labels) | {f"sn>{s['sn'] // 10 * 10}"}
    return labels if any(x.startswith(("rot-acc", "ixn-acc")) for x in labels) else None
