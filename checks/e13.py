"""E13: which delegated rotation stands when several claim the same place."""
from hypothesis import strategies as st
import vf
from . import kel, e07

RULE = ("histories of one or two delegated identifiers whose controllers write rival rotations for the same place, followed or not by further events; "
        "their delegators seal them in interactions, in rotations, in rotations displacing the sealing interactions, in one event in either order, or in "
        "rival delegated rotations of their own, before or after each is delivered, with no, the right or a wrong reference; everything is delivered again "
        "at the end. Non-trivial: histories in which two rival rotations were judged.")
ASSUMPTIONS = ["Ed25519 and BLAKE3 stand-ins compute the published algorithms",
               "an identifier is not abandoned by one of the rivals, no replaced event is sealed again, and no delegator displaces the interaction sealing "
               "the standing rotation together with events before it"]
LEGS = []


class Model(e07.Model):
    def __init__(self):
        super().__init__()
        self.boss = {}          # accepted delegated event -> (delegator's event that sealed it, place of the seal in it)

    def sealing(self, e):
        """the event in force of the delegator which seals e"""
        di = e.get("di") or self.state[e["i"]]["di"]
        log = self.logs[di]
        seal = [("i", e["i"]), ("s", e["s"]), ("d", e["d"])]
        for n in sorted(log.at):
            b = log.sads[log.at[n][-1]].sad
            for j, a in enumerate(b["a"]):
                if list(a.items()) == seal:
                    return b, j
        return None

    def later(self, new, old):
        """sealing place new prevails over old"""
        (bn, jn), (bo, jo) = new, old
        sn, so = int(bn["s"], 16), int(bo["s"], 16)
        if bn["d"] == bo["d"]:
            return jn > jo
        if sn != so:
            return sn > so
        if bo["t"] == "ixn":
            return bn["t"] in ("rot", "drt")
        return bn["t"] == bo["t"] == "drt" and self.later(self.boss[bn["d"]], self.boss[bo["d"]])

    def rotation(self, m, e, sn, cur):
        log = self.logs[cur["pre"]]
        if e["t"] == "drt" and cur["di"] and sn == cur["es"] and sn > 0 and e["d"] != cur["ed"]:
            was = log.states[log.at[sn - 1][-1]]
            new = super().rotation(m, e, sn, was)
            if new is None or not self.later(self.sealing(e), self.boss[cur["ed"]]):
                return None
            self.rivals = True
            return new
        return super().rotation(m, e, sn, cur)

    def accept(self, m):
        at = self.sealing(m.sad) if m.sad["t"] in ("dip", "drt") and (m.sad.get("di") or m.sad["i"] in self.state) and self.approved(m, m.sad, 0) else None
        if not super().accept(m):
            return False
        if at:
            self.boss[m.sad["d"]] = at
        return True

    def approved(self, m, e, sn):
        if not (e.get("di") or e["i"] in self.state):
            return False
        return super().approved(m, e, sn)


CAND = st.integers(0, 2)
HOW = vf.weighted((4, st.just("ixn")), (3, st.just("rot")), (3, st.just("over")), (3, st.just("rival")))
TOK = vf.weighted(
    (6, st.tuples(st.just("give"), CAND, st.sampled_from(["none", "none", "right", "wrong"]))),
    (5, st.tuples(st.just("seal"), st.lists(CAND, min_size=1, max_size=3, unique=True), HOW)),
    (1, st.tuples(st.just("plain"), st.just(0), st.just(0))),
    (1, st.tuples(st.just("ixn"), st.just(0), st.just(0))),
    (1, st.tuples(st.just("next"), st.just(0), st.just(0))),
    (1, st.tuples(st.just("new"), st.integers(1, 2), st.just(0))))
# rivals sealed one after the other in some way, delivered in some order
PAIR = st.tuples(HOW, HOW, st.permutations(["s0", "s1", "g0", "g1", "g0", "g1"]), st.sampled_from(["none", "right"]), st.booleans()).map(
    lambda t: [("seal", [0, 1] if t[4] and x == "s0" else [int(x[1])], t[int(x[1])]) if x[0] == "s" else ("give", int(x[1]), t[3]) for x in t[2]])
ROT = st.fixed_dictionaries(dict(k=kel.some(None, st.lists(st.integers(-1, 3), min_size=1, max_size=3), 2), nn=st.integers(1, 2), kt=kel.TH, nt=kel.TH, cut=st.lists(st.integers(0, 3), max_size=2),
                                 add=st.lists(st.integers(0, 5), max_size=2), bt=st.integers(0, 5), own=st.booleans()))


@st.composite
def scenes(draw):
    toks = []
    for _ in range(draw(st.integers(1, 3))):
        toks += draw(st.one_of(PAIR, st.lists(TOK, min_size=2, max_size=6)))
        toks += draw(st.lists(TOK, max_size=2))
    return dict(level=draw(st.integers(1, 2)), toks=toks, rots=draw(st.lists(ROT, min_size=3, max_size=6)), wits=draw(st.lists(st.integers(0, 3), max_size=2, unique=True)),
                nn=draw(st.integers(1, 2)))


BASE = dict(op="rot", k=None, nn=1, kt=(0, 0), nt=(0, 0), cut=[], add=[], bt=9, back=0, then=False, a=[], sig=None, wig=None, f=None)


class Run:
    def __init__(self, c, val):
        self.c, self.val, self.model = c, val, Model()
        self.ctls = [kel.Ctl(self.model, 1000 * i) for i in range(3)]
        self.sent, self.pending, self.labels, self.count = [], [], set(), 0
        self.cands = {}
        for w in range(3):
            m = self.ctls[w].incept(dict(BASE, op="icp", nk=1, nn=c["nn"], wits=c["wits"] if w == 2 else [], bt=9, c=[]), delpre=self.ctls[w - 1].pre if w else None)
            self.ctls[w].pre = m.sad["i"]
            if w:
                self.put(self.ctls[w - 1].interact(dict(BASE, a=[self.seal(m)])))
            self.put(m)
            vf.check(m.sad["d"] in self.model.boss or not w, "generator: inception not accepted")

    @staticmethod
    def seal(m):
        return dict(i=m.sad["i"], s=m.sad["s"], d=m.sad["d"])

    def put(self, m, src=None):
        """delivers; False when it has to wait while another one waits already"""
        m.src = src
        now = self.model.judge(m) is not None
        if self.pending and not now and m not in self.pending and m not in self.sent:
            return False
        self.val.give(m.stream())
        if m not in self.sent:
            self.sent.append(m)
        if self.model.accept(m):
            self.settle()
        elif m not in self.pending and m.sad["t"] == "drt" and m.sad["d"] not in self.model.boss:
            self.pending.append(m)
        self.settle()
        self.val.escrows(2)
        for ctl in (x for x in self.ctls if x.pre):
            kel.compare(self.val, self.model, ctl.pre, f"after message {len(self.sent)} ({m.sad['t']} sn={m.sad['s']})")
        return True

    def settle(self):
        for p in list(self.pending):
            sealed = self.model.approved(p, p.sad, 0)
            if p.sad["d"] in self.model.boss or self.model.accept(p) or sealed:     # judged once sealed
                self.pending.remove(p)
                self.settle()

    def start(self, w):
        """rivals for the place after the present state of identifier w"""
        ctl = self.ctls[w]
        self.cands = {}
        self.pending = []
        n = self.c["rots"]
        for k in range(3):
            self.count += 1
            o = n[(self.count + k) % len(n)]
            self.cands[k] = ctl.rotate(dict(BASE, k=o["k"] if o["own"] else None, nn=o["nn"], kt=o["kt"], nt=o["nt"], cut=o["cut"], add=o["add"], bt=o["bt"]))

    def authored(self, w, kind, seals):
        """delegator w's event carrying the seals, itself sealed when it has a delegator"""
        ctl, model = self.ctls[w], self.model
        cur = model.state[ctl.pre]
        op = dict(BASE, a=seals)
        if kind == "ixn":
            return self.put(ctl.interact(op))
        # where the sealing interaction of the standing delegated event is
        bo = model.boss[model.state[self.ctls[w + 1].pre]["ed"]][0]
        at = int(bo["s"], 16) if bo["t"] == "ixn" and cur["es"] < int(bo["s"], 16) <= cur["sn"] and model.logs[ctl.pre].at[int(bo["s"], 16)][-1] == bo["d"] else None
        if kind == "over":
            op["back"] = cur["sn"] + 1 - (at or max(cur["sn"], cur["es"] + 1))
        elif kind == "rival":
            if not w or cur["es"] == 0 or at or int(bo["s"], 16) > cur["es"]:
                return False
            op.update(back=cur["sn"] + 1 - cur["es"], then=True)
        m = ctl.rotate(op)
        if w and not self.put(self.ctls[w - 1].interact(dict(BASE, a=[self.seal(m)]))):
            return False
        return self.put(m)

    def run(self):
        w = self.c["level"]
        self.start(w)
        model = self.model
        for what, x, how in self.c["toks"]:
            ctl, boss = self.ctls[w], self.ctls[w - 1]
            if what == "new":
                w = x
                self.start(w)
            elif what == "give":
                m = self.cands[x]
                at = model.sealing(m.sad)
                src = None if how == "none" else (1, model.logs[boss.pre].at[1][-1]) if how == "wrong" else (int(at[0]["s"], 16), at[0]["d"]) if at else None
                rival = model.state[ctl.pre]["es"] == int(m.sad["s"], 16) and model.state[ctl.pre]["ed"] != m.sad["d"] and at
                if self.put(m, src) and rival:
                    self.labels.add("gave-way" if model.state[ctl.pre]["ed"] == m.sad["d"] else "stood")
            elif what == "seal":
                ks = [k for k in x if model.sealing(self.cands[k].sad) is None and self.cands[k].sad["d"] not in model.boss]
                if ks and (not self.pending or len([k for k in ks if self.cands[k] in self.pending]) <= 1):
                    self.count += 1
                    self.authored(w - 1, how, [self.seal(self.cands[k]) for k in ks])
            elif what == "plain":
                self.authored(w - 1, "ixn", [])
            elif what == "ixn":
                self.put(ctl.interact(BASE))
            elif what == "next":
                if model.state[ctl.pre]["es"] and not self.pending:
                    m = ctl.rotate(BASE)
                    self.put(boss.interact(dict(BASE, a=[self.seal(m)])))
                    self.put(m)
        for m in list(self.sent):
            if m not in self.pending:
                self.put(m)


@vf.leg(LEGS, scenes(), quick=1500, thorough=60000)
def rivals(c):
    with kel.Val() as val:
        r = Run(c, val)
        r.run()
    return r.labels or None
