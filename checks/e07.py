"""E07: a delegated event takes effect only when its delegator sealed exactly it."""
from hypothesis import strategies as st
import vf
from . import kel

RULE = ("chains of up to three delegated identifiers, whose delegated inceptions and rotations are sealed by their delegator, by somebody "
        "else, with a seal of another event, number or identifier, in another shape, or not at all, carrying no, the right or a wrong reference "
        "to the sealing event, delivered in generated orders with escrow processing; delegators which forbid delegation, displace the sealing "
        "event, or raise their witness threshold. Non-trivial: scenarios with a delegated event accepted or refused for its seal.")
ASSUMPTIONS = ["Ed25519 and BLAKE3 stand-ins compute the published algorithms"]
LEGS = []


class Model(kel.Model):
    def approved(self, m, e, sn):
        di = e.get("di") or self.state[e["i"]]["di"]
        boss = self.state.get(di)
        if boss is None or "DND" in boss["c"]:
            return False
        log = self.logs[di]
        seal = dict(i=e["i"], s=e["s"], d=e["d"])
        return any(list(a.items()) == list(seal.items()) for n, ds in log.at.items() for a in log.sads[ds[-1]].sad["a"])


SEAL = vf.weighted((6, st.just("good")), (1, st.sampled_from(["none", "digest", "number", "prefix", "order", "extra", "elsewhere", "early"])))
OP = st.fixed_dictionaries(dict(who=st.integers(0, 2), op=st.sampled_from(["rot", "rot", "ixn"]), seal=SEAL, by=st.sampled_from(["ixn", "rot"]),
                                src=st.sampled_from(["none", "none", "right", "right", "past", "future", "digest"]), nn=st.integers(1, 2),
                                kt=kel.TH, twin=st.booleans()))
INC = st.fixed_dictionaries(dict(nk=st.integers(1, 2), nn=st.integers(1, 2), kt=kel.TH, nt=kel.TH, seal=SEAL, by=st.sampled_from(["ixn", "rot"]),
                                 src=st.sampled_from(["none", "right", "past", "future", "digest"]), dnd=vf.weighted((9, st.just(False)), (1, st.just(True))),
                                 wits=st.lists(st.integers(0, 3), max_size=2), twin=st.booleans()))


@st.composite
def scenes(draw):
    return dict(inc=[draw(INC) for _ in range(3)], ops=draw(st.lists(OP, max_size=5)), order=draw(st.lists(st.integers(0, 60), max_size=24)),
                esc=draw(st.integers(0, 3)), levels=draw(st.sampled_from([1, 1, 2])))


def write(c):
    """every message of the scene, in a sensible order, by authors who know their own events to be fine"""
    ctls = [kel.Ctl(kel.Model(), 1000 * i) for i in range(3)]
    out = []

    def put(ctl, m, src=None):
        if ctl.model.accept(m):
            ctl.pre = ctl.pre or m.sad["i"]
            out.append(m)
            return True
        return False

    def base(op):
        return dict(dict(op="rot", k=None, nn=1, kt=(0, 0), nt=(0, 0), cut=[], add=[], bt=0, back=0, then=False, a=[], sig=None, wig=None, f=None), **op)

    def anchor(w, m, op):
        """delegator of controller w seals m as op says; m gets its reference"""
        boss = ctls[w - 1]
        e = m.sad
        seal = dict(i=e["i"], s=e["s"], d=e["d"])
        kind = op["seal"]
        if kind == "digest":
            seal["d"] = kel.qdig(e["d"])
        elif kind == "number":
            seal["s"] = f"{int(e['s'], 16) + 1:x}"
        elif kind == "prefix":
            seal["i"] = boss.pre
        elif kind == "order":
            seal = dict(s=seal["s"], i=seal["i"], d=seal["d"])
        elif kind == "extra":
            seal["x"] = "y"
        if kind == "elsewhere" and w > 1:
            boss = ctls[0]
        elif kind in ("none", "elsewhere"):
            seal = None
        a = ([dict(d=kel.qdig("other"))] if op["twin"] else []) + ([seal] if seal else [])
        n = boss.interact(dict(base({}), a=a)) if op["by"] == "ixn" else boss.rotate(base(dict(a=a)))
        at = (int(n.sad["s"], 16), n.sad["d"])
        m.src = {"none": None, "right": at, "past": (0, boss.model.logs[boss.pre].at[0][0]), "future": (at[0] + 40, at[1]),
                 "digest": (at[0], kel.qdig("wrong"))}[op["src"]]
        m.how = op
        return boss, n

    for w in range(c["levels"] + 1):
        i = c["inc"][w]
        op = dict(base({}), op="icp", nk=i["nk"], nn=i["nn"], kt=i["kt"], nt=i["nt"], wits=i["wits"], c=["DND"] if i["dnd"] else [])
        m = ctls[w].incept(op, delpre=ctls[w - 1].pre if w else None)
        if w:
            boss, n = anchor(w, m, i)
        ctls[w].model.accept(m)
        ctls[w].pre = m.sad["i"]
        out.append(m)
        if w:
            put(boss, n)
    for o in c["ops"]:
        w = o["who"] % (c["levels"] + 1)
        if o["op"] == "ixn":
            put(ctls[w], ctls[w].interact(base({})))
            continue
        m = ctls[w].rotate(base(dict(nn=o["nn"], kt=o["kt"])))
        if w:
            boss, n = anchor(w, m, o)
            put(ctls[w], m)
            put(boss, n)
        else:
            put(ctls[w], m)
    return ctls[:c["levels"] + 1], out


@vf.leg(LEGS, scenes(), quick=1500, thorough=50000)
def trees(c):
    ctls, msgs = write(c)
    for k, x in enumerate(c["order"]):
        i, j = k % len(msgs), x % len(msgs)
        msgs[i], msgs[j] = msgs[j], msgs[i]
    model, pending = Model(), []
    given = set()
    with kel.Val() as val:
        def check(what, end=False):
            for ctl in ctls:
                want = model.logs[ctl.pre].first if ctl.pre in model.logs else []
                got = [d for _, fn, d in val.db.fels.getAllItemIter(keys=ctl.pre)]
                vf.check(got == want[:len(got)], "%s: accepted %r, allowed %r", what, got, want)
                if end:
                    kel.compare(val, model, ctl.pre, what)
        for n, m in enumerate(msgs):
            val.give(m.stream())
            pending.append(m)
            again = True
            while again:
                again = False
                for p in list(pending):
                    if model.accept(p):
                        pending.remove(p)
                        again = True
            if c["esc"] and n % c["esc"] == 0:
                val.escrows(1)
            check(f"after {m.sad['t']} sn={m.sad['s']}")
        for m in msgs:      # once more, without the reference to the sealing event
            m.src = None
            val.give(m.stream())
        val.escrows(len(msgs) + 4)
        check("at the end", True)
        labels = {"sealed" if getattr(m, "how", None) and model.logs.get(m.sad["i"]) and m.sad["d"] in model.logs[m.sad["i"]].sads
                  else "unsealed-" + m.how["seal"] if getattr(m, "how", None) else "" for m in msgs} - {""}
    return labels or None


@st.composite
def displacing(draw):
    return dict(reseal=draw(st.booleans()), src=draw(st.sampled_from(["none", "old", "new"])), order=draw(st.permutations(["dip", "ixn", "rot"])),
                icp=draw(INC), wits=draw(st.lists(st.integers(0, 3), max_size=2)), raised=draw(st.booleans()), fill=draw(st.integers(0, 2)),
                drt=draw(st.booleans()))


@vf.leg(LEGS, displacing(), quick=600, thorough=20000)
def displaced(c):
    """the delegator displaces the sealing interaction with a recovery rotation, sealing again or not"""
    boss, ctl = kel.Ctl(kel.Model(), 0), kel.Ctl(kel.Model(), 1000)
    b = dict(op="rot", k=None, nn=1, kt=(0, 0), nt=(0, 0), cut=[], add=[], bt=0, back=0, then=False, a=[], sig=None, wig=None, f=None)
    i = c["icp"]
    m0 = boss.incept(dict(b, op="icp", nk=1, wits=c["wits"], c=[]))
    boss.model.accept(m0)
    boss.pre = m0.sad["i"]
    pre = []
    for _ in range(c["fill"]):
        x = boss.interact(b)
        boss.model.accept(x)
        pre.append(x)
    dip = ctl.incept(dict(b, op="icp", nk=i["nk"], nn=i["nn"], kt=i["kt"], nt=i["nt"], wits=i["wits"], c=[]), delpre=boss.pre)
    seal = dict(i=dip.sad["i"], s="0", d=dip.sad["d"])
    ixn = boss.interact(dict(b, a=[seal]))
    boss.model.accept(ixn)
    rot = boss.rotate(dict(b, back=1, a=[seal] if c["reseal"] else [], add=[4, 5] if c["raised"] else [], bt=2))
    vf.check(boss.model.judge(rot), "generator: recovery rotation not acceptable")
    at = dict(none=None, old=(int(ixn.sad["s"], 16), ixn.sad["d"]), new=(int(rot.sad["s"], 16), rot.sad["d"]))[c["src"]]
    dip.src = at
    model = Model()
    with kel.Val() as val:
        for m in [m0] + pre:
            model.accept(m)
            val.give(m.stream())
        for k in c["order"]:
            m = dict(dip=dip, ixn=ixn, rot=rot)[k]
            val.give(m.stream())
            model.accept(m)
            if "dip" in c["order"][:c["order"].index(k) + 1]:
                model.accept(dip)
            val.escrows(2)
            kel.compare(val, model, boss.pre, f"delegator after {k}")
            if model.state.get(dip.sad["i"]) is None:
                kel.compare(val, model, dip.sad["i"], f"delegate after {k}")
        dip.src = None
        val.give(dip.stream())
        val.escrows(3)
        kel.compare(val, model, dip.sad["i"], "delegate at the end")
    return "sealed" if dip.sad["i"] in model.state else "displaced-unsealed"


@st.composite
def recovering(draw):
    return dict(ixns=draw(st.integers(0, 4)), back=draw(st.integers(0, 4)), seal=draw(SEAL), src=draw(st.sampled_from(["none", "right", "past"])),
                rots=draw(st.integers(0, 2)), wits=draw(st.lists(st.integers(0, 3), max_size=3, unique=True)), raised=draw(st.booleans()))


@vf.leg(LEGS, recovering(), quick=600, thorough=20000)
def recovery(c):
    """a delegated rotation displaces interactions; the delegator's witness threshold may have risen since it sealed"""
    boss, ctl = kel.Ctl(kel.Model(), 0), kel.Ctl(kel.Model(), 1000)
    b = dict(op="rot", k=None, nn=1, kt=(0, 0), nt=(0, 0), cut=[], add=[], bt=0, back=0, then=False, a=[], sig=None, wig=None, f=None)
    out = []

    def put(x, m):
        vf.check(x.model.accept(m), "generator: message not acceptable")
        x.pre = x.pre or m.sad["i"]
        out.append(m)
    put(boss, boss.incept(dict(b, op="icp", nk=1, wits=c["wits"], c=[])))

    def sealed(m, kind="good", src="right"):
        seal = dict(i=m.sad["i"], s=m.sad["s"], d=m.sad["d"])
        if kind == "digest":
            seal["d"] = kel.qdig("x")
        elif kind != "good":
            seal["s"] = seal["s"] + "0"
        n = boss.interact(dict(b, a=[seal]))
        put(boss, n)
        m.src = dict(none=None, right=(int(n.sad["s"], 16), n.sad["d"]), past=(0, boss.model.logs[boss.pre].at[0][0]))[src]
    m = ctl.incept(dict(b, op="icp", nk=1, wits=[], c=[]), delpre=boss.pre)
    sealed(m)
    put(ctl, m)
    for _ in range(c["rots"]):
        m = ctl.rotate(b)
        sealed(m)
        put(ctl, m)
    for k in range(c["ixns"]):
        put(ctl, ctl.interact(b))
    m = ctl.rotate(dict(b, back=min(c["back"], c["ixns"])))
    sealed(m, c["seal"], c["src"])
    if c["raised"] and c["wits"]:
        put(boss, boss.rotate(dict(b, add=[6, 7], bt=4)))
    model = Model()
    with kel.Val() as val:
        for x in out + [m]:
            val.give(x.stream())
            model.accept(x)
            val.escrows(1)
        if c["src"] == "past":
            m.src = None
            val.give(m.stream())
            val.escrows(1)
        for x in (boss.pre, ctl.pre):
            kel.compare(val, model, x, "after escrows")
    return ("sealed" if c["seal"] == "good" else "unsealed") + f"-back{min(c['back'], c['ixns'])}"
