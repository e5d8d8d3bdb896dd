"""V02: a credential is accepted only issued, sound by its schema and with its chain satisfied; else it waits or is refused."""
import json
from types import SimpleNamespace
from hypothesis import strategies as st
import vf
from . import kel, tel, cesr

RULE = ("two issuers' registries, credentials chained to earlier ones by edges with generated operators and edge schemas, attributes that fit their schema or not, "
        "revocations, forged issuers, altered credentials, credentials never issued; key events, registry events, schemas and credentials given in generated orders, "
        "again, with escrow processing and restarts between; what may be accepted is judged from the definitions here. Non-trivial: a credential with an edge was accepted, or one was refused or waited.")
ASSUMPTIONS = ["registries and key event logs are judged by V01 and E01 to E08"]
LEGS = []
OPSPEC = vf.weighted((5, st.none()), (4, st.sampled_from(["I2I", "NI2I", "NI2I", "E1E", "E1E", "DI2I", "NOT", "XYZ"])),
                     (2, st.lists(st.sampled_from(["I2I", "NI2I", "E1E", "DI2I", "NOT", "XYZ"]), max_size=3)))
EDGE = st.fixed_dictionaries(dict(to=st.integers(0, 5), op=OPSPEC, s=vf.weighted((4, st.none()), (3, st.just("own")), (1, st.integers(0, 4)))))
CRED = st.fixed_dictionaries(dict(reg=st.integers(0, 2), fit=vf.weighted((1, st.just(False)), (5, st.just(True))), who=vf.weighted((1, st.just(0)), (4, st.integers(1, 2)), (2, st.integers(3, 4))), x=vf.weighted((14, st.integers(0, 5)), (2, st.integers(6, 9)), (1, st.just("no")), (1, st.none())),
                                  y=vf.weighted((14, st.just("text")), (1, st.just(3)), (1, st.none())), schema=vf.weighted((3, st.just(0)), (2, st.integers(1, 2)), (1, st.just(3))), edges=vf.weighted((1, st.just([])), (5, st.lists(EDGE, min_size=1, max_size=2))),
                                  aslist=vf.weighted((5, st.just(False)), (1, st.just(True))), secop=vf.weighted((4, st.none()), (1, st.sampled_from(["AND", "I2I"]))),
                                  kind=st.sampled_from(["JSON", "JSON", "CBOR", "MGPK"]), rev=vf.weighted((8, st.just(False)), (1, st.just(True))),
                                  f=vf.weighted((20, st.none()), (1, st.sampled_from(["issuer", "tamper", "noiss", "reg", "bare"])))))
WORLD = st.fixed_dictionaries(dict(eo=st.booleans(), backed=vf.weighted((3, st.just(False)), (1, st.just(True))), creds=st.lists(CRED, min_size=2, max_size=6)))
CASE = st.fixed_dictionaries(dict(world=WORLD, order=st.lists(st.integers(0, 99), max_size=40), tidy=vf.weighted((1, st.just(0)), (2, st.just(1)), (3, st.just(2))),
                                  again=st.lists(st.integers(0, 40), max_size=4), esc=st.lists(st.integers(0, 40), max_size=6), marks=st.lists(st.integers(0, 40), max_size=2)))
NOW = "2024-01-02T04:00:00.000000+00:00"
PEOPLE = 600000
UNARY = ("I2I", "NI2I", "DI2I", "E1E", "NOT")


def made(sad, kind, said=("d",), proto="ACDC"):
    sad = {"v": f"{proto}10{kind}000000_", **sad}
    for f in said:
        sad[f] = "#" * 44
    sad["v"] = f"{proto}10{kind}{len(kel.dump(sad, kind)):06x}_"
    d = kel.qdig(kel.dump(sad, kind))
    for f in said:
        sad[f] = d
    return kel.dump(sad, kind), sad


def block(b, kind, label="d"):
    b = {label: "#" * 44, **b}
    b[label] = kel.qdig(kel.dump(b, kind))
    return b


def schema(n):
    props = {0: {}, 1: {"a": {"type": "object", "required": ["x"], "properties": {"x": {"type": "integer"}}}},
             2: {"a": {"type": "object", "required": ["x", "y"], "properties": {"x": {"type": "integer", "maximum": 5}, "y": {"type": "string"}}}},
             3: {"a": {"type": "object", "properties": {"y": {"type": "string"}}}}, 4: {"z": {"type": "string"}}}[n]
    s = {"$id": "#" * 44, "$schema": "http://json-schema.org/draft-07/schema#", "title": f"S{n}", "type": "object", "required": ["a"] + (["e"] if n == 3 else []), "properties": props}
    s["$id"] = kel.qdig(json.dumps(s, separators=(",", ":"), ensure_ascii=False).encode())
    return s


SCHEMAS = [schema(n) for n in range(5)]


def fits(c, n):
    """does the credential meet schema n"""
    x, y = c.sad["a"].get("x"), c.sad["a"].get("y")
    isint = type(x) is int
    return {0: True, 1: isint, 2: isint and x <= 5 and type(y) is str, 3: "e" in c.sad and (y is None or type(y) is str), 4: True}[n]


class Cred:
    def stream(self):
        seal = b"" if self.src is None else (kel.ctr("V", (4 + 44 + 24 + 44) // 4) + kel.ctr("I", 1) + self.src[0] + kel.num(self.src[1]) + self.src[2]).encode()
        return self.raw + seal


class World:
    def __init__(self, c):
        self.issuers = [tel.Issuer(0), tel.Issuer(1, eo=c["eo"])]
        self.keys, self.tels, self.creds, self.regs, self.need = [(i.msgs[0], ()) for i in self.issuers], [], [], [], {}
        self.count = 0
        self.backers = [kel.qkey(400000 + n, False) for n in range(2)] if c["backed"] else []
        for n in range(3):
            who = self.issuers[n % 2]
            nb = not (self.backers and n == 2)
            ev = tel.event(dict(t="vcp", d="", i="", ii=who.pre, s="0", c=["NB"] if nb else [], bt="0" if nb else "1", b=[] if nb else self.backers, n=cesr.encode("0A", "", bytes([n]) * 16)))
            self.anchor(who, ev, None)
            self.regs.append((who, ev, nb))
        for o in c["creds"]:
            self.cred(o)

    def anchor(self, who, ev, base):
        k = who.anchor([tel.seal(ev.sad)])
        ev.src = (who.sn, k.sad["d"])
        if self.backers and ev.sad["t"] in ("vcp", "bis", "brv") and ev.sad.get("b", 1):
            ev.wigs = [kel.Sig(400001, 1)]
        self.keys.append((k, ()))
        self.tels.append(ev)

    def cred(self, o):
        self.count += 1
        targets = [self.creds[e["to"] % len(self.creds)] for e in o["edges"]] if self.creds else []
        n = o["reg"]
        if o["fit"] and targets:
            n = next((i for i, r in enumerate(self.regs) if r[0].pre == targets[0].subject), n)
        who, reg, nb = self.regs[n]
        f, kind = o["f"], o["kind"]
        c = Cred()
        c.subject = [None, self.issuers[0].pre, self.issuers[1].pre, kel.qkey(PEOPLE), kel.qkey(PEOPLE + 1)][o["who"]]
        a = {k: v for k, v in (("i", c.subject), ("dt", tel.DT.format(self.count)), ("x", o["x"]), ("y", o["y"])) if v is not None}
        c.regk = kel.qdig(b"unknown registry") if f == "reg" else reg.sad["i"]
        c.issuer = next(i for i in self.issuers if i is not who).pre if f == "issuer" else who.pre
        sad = dict(d="", i=c.issuer, ri=c.regk, s=SCHEMAS[o["schema"]]["$id"], a=block(a, kind))
        c.edges, edges = [], {}
        for n, (e, t) in enumerate(zip(o["edges"], targets)):
            s = {"own": t.schema, None: None}.get(e["s"], e["s"])
            node = dict(n=t.said)
            if s is not None:
                node["s"] = SCHEMAS[s]["$id"]
            if e["op"] is not None:
                node["o"] = e["op"]
            edges["pq"[n]] = node
            c.edges.append((t, e["op"], s))
        if edges:
            if o["secop"]:
                edges = {"o": o["secop"], **edges}
            sad["e"] = block(edges, kind)
            if o["aslist"]:
                sad["e"] = [{k: v} for k, v in edges.items()]
        c.schema = o["schema"]
        c.raw, c.sad = made(sad, kind)
        c.said = c.sad["d"]
        if any(x.said == c.said for x in self.creds):
            return
        c.bad = f == "tamper"
        if c.bad:
            c.raw = c.raw.replace(c.said.encode(), kel.qdig(b"v" + c.said.encode()).encode())
        c.owner, c.iss, c.rev = who, None, None
        if f != "noiss":
            dt = tel.DT.format(500000 + self.count)
            ra = dict(i=reg.sad["i"], s="0", d=reg.said)
            c.iss = tel.event(dict(t="iss", d="", i=c.said, s="0", ri=reg.sad["i"], dt=dt) if nb else dict(t="bis", d="", i=c.said, ii=reg.sad["i"], s="0", ra=ra, dt=dt))
            self.anchor(who, c.iss, reg)
            if o["rev"]:
                c.rev = tel.event(dict(t="rev", d="", i=c.said, s="1", ri=reg.sad["i"], p=c.iss.said, dt=dt) if nb else dict(t="brv", d="", i=c.said, s="1", p=c.iss.said, ra=ra, dt=dt))
                self.anchor(who, c.rev, reg)
        c.src = (c.said, 0, c.iss.said if c.iss else kel.qdig(b"no"))
        if f == "bare":
            c.src = None
        self.creds.append(c)


class View(tel.Tel):
    """a validator of credentials"""
    def __init__(self, expiry=None):
        super().__init__(lax=True)
        self.expiry = expiry
        self.verifier()

    def verifier(self):
        from keri.vdr.verifying import Verifier
        from keri.core.parsing import Parser
        from keri.kering import Vrsn_1_0
        hby = SimpleNamespace(db=self.db, kvy=self.val.kvy, inited=True, name="v", temp=True, version=Vrsn_1_0, habs={})
        self.vry = Verifier(hby=hby, reger=self.reger, **({} if self.expiry is None else dict(expiry=self.expiry)))
        self.psr = Parser(kvy=self.val.kvy, tvy=self.tvy, rvy=self.val.rvy, vry=self.vry, version=Vrsn_1_0)

    def restart(self, mine=()):
        super().restart(mine)
        self.tvy.lax = True
        self.verifier()

    def schema(self, n):
        raw = json.dumps(SCHEMAS[n], separators=(",", ":"), ensure_ascii=False).encode()
        self.vry.resolver.add(SCHEMAS[n]["$id"], raw)

    def saved(self):
        return {k[0] for k, _ in self.reger.saved.getTopItemIter()}


def judge(c, accepted, schemas, saved, world):
    """ok, wait:<what is missing>, or refuse"""
    if c.bad or c.src is None:
        return "refuse"
    reg = next((r for r in world.regs if r[1].sad["i"] == c.regk), None)
    if reg is None or reg[1].said not in accepted:
        return "wait:registry"
    if reg[0].pre != c.issuer:
        return "refuse"
    if c.iss is None or c.iss.said not in accepted:
        return "wait:registry"
    if c.schema not in schemas:
        return "wait:schema"
    if not fits(c, c.schema):
        return "refuse"
    for far, op, s in c.edges:
        if far.said not in saved:
            return "wait:chain"
        ops = [o for o in (op if isinstance(op, list) else [op]) if o in UNARY]
        deleg = [o for o in ops if o in ("I2I", "NI2I", "DI2I")][-1:]
        if "NOT" in ops or deleg == ["DI2I"]:
            return "refuse"
        if not ops and far.subject is not None:
            deleg = ["I2I"]
        if "E1E" in ops and (far.subject is None or far.subject != c.subject):
            return "wait:chain"
        if deleg == ["I2I"] and far.subject != c.issuer:
            return "wait:chain"
        if s is not None and s != far.schema:
            if s not in schemas:
                return "wait:schema"
            if not fits(far, s):
                return "wait:chain"
        if far.rev is not None and far.rev.said in accepted:
            return "refuse"
    return "ok"


class Clock:
    def __enter__(self):
        from keri.help import helping
        from keri.vdr import verifying
        import datetime
        self.now = datetime.datetime.fromisoformat(NOW)
        self.mod, self.was = helping, (helping.nowUTC, helping.nowIso8601)
        helping.nowUTC = lambda: self.now
        helping.nowIso8601 = lambda: self.now.isoformat(timespec="microseconds")
        return self

    def pass_(self, s):
        import datetime
        self.now += datetime.timedelta(seconds=s)

    def __exit__(self, *a):
        self.mod.nowUTC, self.mod.nowIso8601 = self.was


def indexes(v, world, what):
    saved = v.saved()
    by = {c.said: c for c in world.creds}
    want = dict(issus=set(), subjs=set(), schms=set())
    for d in saved:
        c = by[d]
        vf.same(v.reger.saved.get(keys=d).qb64, d, f"{what}: saved entry")
        vf.same(v.reger.creds.get(keys=d).raw, c.raw, f"{what}: stored credential")
        p, n, g = v.reger.cancs.get(keys=d)
        vf.same((p.qb64, n.num, g.qb64), c.src, f"{what}: source kept with a credential")
        want["issus"].add((c.issuer, d))
        want["schms"].add((c.sad["s"], d))
        if c.subject is not None:
            want["subjs"].add((c.subject, d))
    for n, w in want.items():
        vf.same({(k[0], s.qb64) for k, s in getattr(v.reger, n).getTopItemIter()}, w, f"{what}: index {n}")


@vf.leg(LEGS, CASE, quick=1500, thorough=25000)
def arrivals(c):
    w = World(c["world"])
    items = [("tel", m) for m in w.tels] + [("schema", n) for n in range(4)]
    creds = [("cred", x) for x in w.creds]
    rank = {i: (c["order"][i] if i < len(c["order"]) else 50) for i in range(99)}
    if c["tidy"] == 2:         # registries and schemas first, credentials in any order
        items = [items[i] for i in sorted(range(len(items)), key=lambda i: (items[i][0] == "tel" and items[i][1].sad["t"] in ("rev", "brv"), i))]
        cut = len([x for x in items if x[0] == "schema" or x[1].sad["t"] not in ("rev", "brv")])
        items[cut:cut] = [creds[i] for i in sorted(range(len(creds)), key=lambda i: (rank[i], i))]
    else:
        items += creds
        if c["tidy"] == 0:
            items = [items[i] for i in sorted(range(len(items)), key=lambda i: (rank[i], i))]
    for n in c["again"]:
        items.insert((n * 7) % (len(items) + 1), ("cred", w.creds[n % len(w.creds)]))
    labels = set()
    with Clock(), View() as v:
        for k, _ in w.keys:
            v.give(k.stream())
        seen, schemas, saved, accepted = set(), set(), set(), set()

        def step(what, waiting=False):
            nonlocal saved, accepted
            accepted = {d for _, _, d in tel.logs(v)}
            new = v.saved()
            vf.check(saved <= new, "%s: an accepted credential is gone", what)
            for d in new - saved:
                x = next((y for y in w.creds if y.said == d), None)
                vf.check(x is not None and x in seen, "%s: a credential never given was accepted", what)
                why = judge(x, accepted, schemas, new, w)
                vf.check(why == "ok", "%s: accepted a credential to %s", what, why)
                if x.edges:
                    labels.add("chained" + ("-late" if waiting else ""))
            saved = new
        for n, (t, x) in enumerate(items):
            what = f"item {n} {t}"
            if t == "schema":
                v.schema(x)
                schemas.add(x)
            elif t == "tel":
                v.give(x.stream())
            else:
                why = judge(x, accepted, schemas, saved, w)
                labels.add(why)
                had, cued = x.said in saved, len(v.vry.cues)
                fresh = x not in seen
                seen.add(x)
                v.give(x.stream())
                if not had:
                    vf.same(x.said in v.saved(), why == "ok", f"{what}: acceptance of a credential to {why}")
                    if fresh and why.startswith("wait") and not x.bad:
                        cue = list(v.vry.cues)[cued:]
                        vf.check(bool(cue) and cue[-1]["kin"] == {"wait:registry": "telquery", "wait:chain": "proof", "wait:schema": "query"}[why], "%s: what is missing is not asked for: %s", what, cue)
                vf.check(all(q["creder"].said in v.saved() for q in v.vry.cues if q["kin"] == "saved"), "%s: announced a credential not accepted", what)
            step(what)
            if n in c["esc"]:
                v.escrows(2)
                v.vry.processEscrows()
                step(what + " escrows", True)
            if n in c["marks"]:
                v.restart()
                step(what + " restart")
                labels.add("restarted")
        for _ in range(8):
            v.escrows(1)
            step("registry escrows at the end", True)
            v.vry.processEscrows()
            step("escrows at the end", True)
        for x in seen:
            if x.said not in saved:
                why = judge(x, accepted, schemas, saved, w)
                vf.check(why != "ok", "a credential given, which nothing is missing of any more, was not accepted")
                labels.add("at end " + why)
        indexes(v, w, "at the end")
        v.restart()
        vf.same(v.saved(), saved, "accepted credentials after reopening")
        indexes(v, w, "reopened")
    return labels if labels - {"ok", "restarted"} else None


def good(o):
    return dict(o, f=None, rev=o["rev"], edges=[dict(e, op=e["op"] if e["op"] in (None, "I2I", "NI2I") else "NI2I", s=None) for e in o["edges"]], schema=0, aslist=False, fit=True)


@vf.leg(LEGS, st.tuples(WORLD, st.booleans()), quick=250, thorough=6000)
def relay(t):
    """What a holder passes on of accepted credentials and their chains is accepted by another validator."""
    from keri.core import Saider
    from keri.kering import Vrsn_1_0
    c, how = t
    w = World(dict(c, creds=[good(o) for o in c["creds"]]))
    js = [x for x in w.creds if x.sad["v"][6:10] == "JSON"]
    with Clock(), View() as a, View() as b:
        for v in (a, b):
            v.schema(0)
            for k, _ in w.keys:
                v.give(k.stream())
        for m in w.tels:
            if m.sad["t"] not in ("rev", "brv"):
                a.give(m.stream())
        for x in w.creds:
            a.give(x.stream())
        for m in w.tels:
            if m.sad["t"] in ("rev", "brv"):
                a.give(m.stream())
        mine = a.saved()
        by = {x.said: x for x in w.creds}

        def chain(x):
            return {f.said for f, _, _ in x.edges}.union(*[chain(f) for f, _, _ in x.edges])
        want = set()
        for m in w.tels:
            if m.sad["t"] == "vcp":
                b.give(m.stream())
        for d in sorted(mine):
            x = by[d]
            if how:
                src = a.reger.sources(a.db, a.reger.creds.get(keys=d))
                vf.same({s.said for s, _ in src}, chain(x), "credentials passed on with a credential")
                for m in w.tels:
                    if m.sad["i"] in chain(x) | {d} and m.sad["t"] not in ("rev", "brv"):
                        b.give(m.stream())
                for s, atc in reversed(src):
                    vf.same(s.raw, by[s.said].raw, "credential passed on")
                    b.give(s.raw + atc)
                b.give(x.stream())
            else:
                got, = a.reger.cloneCreds([Saider(qb64=d)], a.db, gvrsn=Vrsn_1_0)
                take(b, got, by, a)
            want |= {d} | chain(x)
            if how or not any(by[y].rev for y in chain(x)):
                vf.check(d in b.saved(), "a credential passed on with its chain was not accepted")
        vf.check(b.saved() <= mine, "more was accepted than passed on")
        indexes(b, w, "passed on")
        if not want:
            return None
        return ["sources" if how else "clones"] + ["chained"] * any(by[d].edges for d in mine) + ["revoked"] * any(by[d].rev for d in mine)


def take(b, got, by, a):
    """check what a listing of a credential holds, and give it to another validator"""
    x = by[got["sad"]["d"]]
    vf.same(dict(got["sad"]), x.sad, "credential listed")
    vf.same((got["pre"], got["schema"]["$id"], got["status"]["et"], got["status"]["i"]), (x.issuer, x.sad["s"], (x.rev or x.iss).sad["t"], x.said), "listing of a credential")
    vf.same(got["anchor"], dict(pre=x.src[0], sn=x.src[1], d=x.src[2]), "source listed")
    vf.same(dict(got["iss"]), x.iss.sad, "issuance listed")
    vf.same(dict(got["rev"]) if got["rev"] else None, x.rev.sad if x.rev else None, "revocation listed")
    for ev, name in ((x.iss, "anc"), (x.rev, "revanc")):
        if ev is not None:
            vf.same(got[name]["d"], ev.src[1], "anchoring event listed")
    vf.same([y["sad"]["d"] for y in got["chains"]], [f.said for f, _, _ in x.edges], "chain listed")
    for y in got["chains"]:
        take(b, y, by, a)
    b.give(x.iss.raw + got["issatc"].encode())
    b.give(x.raw + got["atc"].encode())
    if x.rev is not None:
        b.give(x.rev.raw + got["revatc"].encode())


@vf.leg(LEGS, st.tuples(CRED, st.sampled_from(["registry", "schema", "chain"]), st.sampled_from([10, 3500, 3700, 90000]), st.sampled_from([None, 1000, 10 ** 6])), quick=200, thorough=3000)
def waits(t):
    """A waiting credential is taken up when what it lacks comes within the time it may wait, never after; one whose state is too old is not accepted."""
    o, lack, s, expiry = t
    w = World(dict(eo=False, backed=False, creds=[dict(good(o), edges=[], kind="JSON"), dict(good(o), edges=[dict(to=0, op="NI2I", s=None)], kind="JSON", rev=False)]))
    if len(w.creds) < 2 or w.creds[0].rev:
        return None
    far, near = w.creds
    with Clock() as clock, View(expiry) as v:
        for k, _ in w.keys:
            v.give(k.stream())
        last = {"registry": lambda: v.give(near.iss.stream()), "schema": lambda: v.schema(0), "chain": lambda: v.give(far.stream())}
        for m in w.tels:
            if m is not near.iss:
                v.give(m.stream())
        if lack != "registry":
            last["registry"]()
        if lack != "schema":
            last["schema"]()
        if lack != "chain":
            last["chain"]()
        v.give(near.stream())
        clock.pass_(s)
        v.vry.processEscrows()
        vf.check(near.said not in v.saved(), "accepted while %s is missing", lack)
        last[lack]()
        v.escrows(1)
        for _ in range(4):
            v.vry.processEscrows()
        # states are dated a little before 03:04:06, the clock began at 04:00
        old = expiry is not None and expiry < 3354
        farin = far.said in v.saved()
        fresh = expiry is None or 3354 + s < expiry - 5
        if old:
            vf.same(v.saved(), set(), "accepted with a state too old")
            return [f"old-{lack}"]
        if s > 3600:
            vf.check(near.said not in v.saved(), "taken up after it may wait no more")
        elif fresh:
            vf.check(near.said in v.saved() and farin, "what was missing came in time, not taken up")
    return [f"{lack}-{s}"]


@vf.leg(LEGS, st.tuples(CRED, st.booleans()), quick=24, thorough=400)
def squats(t):
    """Another registry's event for the same credential does not keep it from being accepted."""
    o, first = t
    w = World(dict(eo=False, backed=False, creds=[dict(good(o), edges=[], kind="JSON", rev=False)]))
    x, = w.creds
    who, reg, _ = next(r for r in w.regs if r[1].sad["i"] != x.regk)
    ev = tel.event(dict(t="iss", d="", i=x.said, s="0", ri=reg.sad["i"], dt=tel.DT.format(7)))
    k = who.anchor([tel.seal(ev.sad)])
    ev.src = (who.sn, k.sad["d"])
    w.keys.append((k, ()))
    w.tels.insert(-1 if first else len(w.tels), ev)
    with Clock(), View() as v:
        v.schema(0)
        for k, _ in w.keys:
            v.give(k.stream())
        for m in w.tels:
            v.give(m.stream())
        v.give(x.stream())
        if not first:
            vf.check(x.said in v.saved(), "issued, yet not accepted")
        elif x.said not in v.saved():
            vf.finding("V02", "squat", "an issuance event for the same credential identifier in another registry, seen first, keeps the genuine issuance from being accepted")
    return ["first" if first else "second"]
