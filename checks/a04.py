"""A04: peer messages reach their handler exactly when their sender's keys signed them, whole and with their attachments."""
import datetime
from hypothesis import strategies as st
import vf
from . import kel, cesr
from .e10 import group, cig, frame, stamp

RULE = ("peer messages by transferable identifiers which rotate and by nontransferable ones, over routes with and without handlers, with embedded "
        "messages and sealed payloads, signed whole or in parts with keys of any establishment event, before or after those events are known, "
        "altered, forged, by others or with stale references; in generated orders with escrow processing, passing time, repeated and partial "
        "copies; and whole credential exchange conversations with replies in and out of turn. Non-trivial: cases in which a message waited and "
        "was then delivered or dropped, or a reply out of turn was refused.")
ASSUMPTIONS = ["Ed25519 and BLAKE3 stand-ins compute the published algorithms"]
LEGS = []
B = dict(op="rot", k=None, nn=1, kt=(0, 0), nt=(0, 0), cut=[], add=[], bt=0, back=0, then=False, a=[], sig=None, wig=None, f=None)
FAULTS = ["forged", "said", "other", "estdig", "ixnest", "foreign", "relay", "payload", "nopayload", "verify"]
LABELS = ["acdc", "iss", "anc", "k_l", "a"]
TEXT = st.text("ABCDEFGHIJabcdefghij0123456789-_", min_size=4, max_size=24).map(lambda s: s[:len(s) // 4 * 4])
MSG = st.fixed_dictionaries(dict(
    by=st.integers(0, 2), route=st.integers(0, 3), est=st.integers(0, 3), prior=st.sampled_from([None, None, 0, 1, 2]),
    f=vf.weighted((4, st.none()), (1, st.sampled_from(FAULTS))),
    parts=vf.weighted((2, st.just([[0, 1]])), (2, st.lists(st.lists(st.integers(0, 1), min_size=1, max_size=2), min_size=1, max_size=3))),
    embeds=st.lists(st.tuples(st.integers(0, 4), TEXT), max_size=3), note=st.integers(0, 3),
    sealed=vf.weighted((3, st.none()), (1, st.lists(st.binary(max_size=40), min_size=1, max_size=3)))))
STEP = vf.weighted((5, st.tuples(st.just("next"), st.integers(0, 60))), (2, st.tuples(st.just("escrow"), st.sampled_from([0, 1, 4, 9, 11, 30]))),
                   (1, st.tuples(st.just("again"), st.integers(0, 8))), (1, st.tuples(st.just("bogus"), st.integers(0, 8))),
                   (1, st.tuples(st.just("fresh"), st.just(0))))


@st.composite
def scenes(draw):
    return dict(ops=[draw(st.lists(st.sampled_from(["rot", "rot", "ixn"]), max_size=3)) for _ in range(2)], th=[draw(st.sampled_from([0, 1])) for _ in range(2)],
                msgs=draw(st.lists(MSG, min_size=1, max_size=5)), steps=draw(st.lists(STEP, min_size=4, max_size=40)))


ROUTES = ["/a", "/a/b", "/free", "/picky"]


class Clock:
    """what the exchanger takes for now"""

    def __init__(self):
        self.t = 0

    def __enter__(self):
        from keri.help import helping
        self.mod, self.old = helping, (helping.nowUTC, helping.nowIso8601)
        base = datetime.datetime(2200, 1, 1, tzinfo=datetime.timezone.utc)
        helping.nowUTC = lambda: base + datetime.timedelta(seconds=self.t)
        helping.nowIso8601 = lambda: helping.nowUTC().isoformat(timespec="microseconds")
        return self

    def __exit__(self, *a):
        self.mod.nowUTC, self.mod.nowIso8601 = self.old


class Handler:
    def __init__(self, resource, log):
        self.resource, self.log = resource, log

    def handle(self, serder, attachments=None, **kwa):
        self.log.append((serder.said, [(tuple(p.rparts), bytes(a)) for p, a in attachments], kwa.get("essr")))


class Picky(Handler):
    def verify(self, serder, attachments=None, **kwa):
        if serder.ked["a"]["note"] == 1:
            return serder.ked.missing()     # an oversight of the handler is not a consent
        return serder.ked["a"]["note"] != 2


def pathed(parts, text):
    from keri.core import Pather
    body = Pather(parts=parts).qb64 + text
    return (kel.ctr("L", len(body) // 4) + body).encode()


def exn(sender, route, a, prior="", e=None, n=1):
    sad = dict(t="exn", d="", i=sender, rp="", p=prior, dt=stamp(n, 0), r=route, q={}, a=a)
    if e is not None:
        import json
        e = dict(e, d="#" * 44)
        e["d"] = kel.qdig(json.dumps(e, separators=(",", ":"), ensure_ascii=False))
    sad["e"] = e or {}
    return kel.build(sad)


def hby_of(val):
    import types
    return types.SimpleNamespace(db=val.db, kevers=val.db.kevers, habs={}, prefixes=set(), name="x")


class M:
    pass


def write(c):
    """controllers, their events and the messages with their deliveries"""
    ctls, events = [], []
    for i, ops in enumerate(c["ops"]):
        ctl = kel.Ctl(kel.Model(), 1000 * i)
        out, _, _ = kel.author([dict(B, op="icp", nk=2, nn=2, wits=[], c=[], kt=(0, c["th"][i]))] + [dict(B, op=o, nn=2, kt=(0, c["th"][i])) for o in ops], ctl=ctl)
        ctls.append(ctl)
        events.append([m for m, a in out if a])
    aids = [x.pre for x in ctls] + [kel.qkey(900000, False)]
    ms = []
    for n, r in enumerate(c["msgs"]):
        x = M()
        f, by = r["f"], r["by"]
        x.aid, x.route = aids[by], ROUTES[r["route"]]
        prior = ms[r["prior"] % len(ms)].said if ms and r["prior"] is not None else ""
        x.prior = prior
        labels = dict(r["embeds"])
        e = {LABELS[k]: dict(v="x", n=i) for i, k in enumerate(labels)} if labels else None
        x.sealed = None
        atc = b""
        a = dict(note=r["note"], n=n)
        x.note = r["note"]
        if r["sealed"] is not None:
            x.sealed = b"".join(r["sealed"])
            payload = r["sealed"] if f != "payload" else r["sealed"][:-1] + [r["sealed"][-1] + b"x"]
            a = kel.qdig(x.sealed)
            if f != "nopayload":
                atc += (kel.ctr("Z", len(payload)) + "".join(cesr.encode(texter(p), "", p) for p in payload)).encode()
        elif f in ("payload", "nopayload"):
            f = None
        if x.route == "/picky" and x.sealed is None:
            if r["note"] in (1, 2):
                f = f or "verify"
            elif f == "verify":
                f = None
        elif f == "verify":
            f = None
        if x.route == "/picky" and x.sealed is not None:
            x.route = "/a"
        x.f = f
        fallback = "verify" if x.route == "/picky" and r["note"] in (1, 2) else None
        x.raw, x.sad = exn(x.aid, x.route, a, prior, e, n)
        x.said = x.sad["d"]
        x.embeds = [((LABELS[k],), t) for k, t in labels.items()]
        for k, t in labels.items():
            atc += pathed(["e", LABELS[k]], t)
        signed = x.raw
        if f == "said":
            x.raw = x.raw.replace(b'"dt":"21', b'"dt":"22')
        x.bits = []
        x.good, x.kt, x.est = set(), None, None
        if by < 2:
            ctl = ctls[by]
            ests = [m for m in events[by] if (m.sad["t"] == "ixn") == (f == "ixnest")]
            if not ests:
                ests = events[by][:1]
                x.f = f = fallback
            x.est = ev = ests[r["est"] % len(ests)]
            keys = ev.sad.get("k") or ctl.model.logs[ctl.pre].states[ev.sad["d"]]["k"]
            x.nums = [ctl.nums[k] for k in keys]
            x.kt = ev.sad.get("kt") or "1"
            sn, sd = int(ev.sad["s"], 16), ev.sad["d"]
            x.ref = (sn, sd)
            x.parts = []
            for p in r["parts"]:
                sigs = [kel.Sig(x.nums[i] + (500 if f == "other" else 0), i, i, bad=f == "forged") for i in p]
                if f == "relay":    # all signed, but by another identifier
                    o, oe = ctls[1 - by], events[1 - by][0]
                    g = group(o.pre, 0, oe.sad["d"], [kel.Sig(o.nums[k], i, i) for i, k in enumerate(oe.sad["k"])], signed)
                else:
                    g = group(x.aid, sn, kel.qdig("?") if f == "estdig" else sd, sigs, signed)
                if f == "foreign":
                    g = cig(900007, signed)
                x.parts.append((frame(x.raw, g + atc), set(p)))
            x.full = frame(x.raw, group(x.aid, sn, sd, [kel.Sig(k, i, i) for i, k in enumerate(x.nums)], signed) + atc)
        else:
            if f in ("estdig", "ixnest"):
                x.f = f = fallback
            k = 900000 + (7 if f in ("other", "foreign", "relay") else 0)
            x.full = frame(x.raw, cig(k, signed, f == "forged") + atc)
            x.parts = [(x.full, {0})]
        x.atc = atc
        ms.append(x)
    return ctls, events, ms


def texter(p):
    return ["4B", "5B", "6B"][-len(p) % 3]


@vf.leg(LEGS, scenes(), quick=2500, thorough=80000)
def delivery(c):
    from keri.peer import exchanging
    from keri.core import Verfer
    ctls, events, ms = write(c)
    todo = [("e", m, None) for es in events for m in es] + [("m", x, p) for x in ms for p in x.parts]
    labels = set()
    known = set()
    log, want = [], []
    waiting, saved, seen = {}, [], {}
    with Clock() as clock, kel.Val() as val:
        hby = hby_of(val)
        db = val.db

        def fresh():
            val.exc = exchanging.Exchanger(hby=hby, handlers=[Handler("/a", log), Handler("/a/b", log), Picky("/picky", log)])
            val.psr.exc = val.exc
        fresh()

        def enough(x, good):
            if x.f not in (None, "verify"):
                return x.f in ("payload", "nopayload") and None     # signatures fine but the payload is not
            if x.est is None:
                return True
            return x.est.sad["d"] in known and kel.met(x.kt, good)

        def accept(x):
            if x.f == "verify":
                return
            if x not in saved:
                saved.append(x)
            if x.route != "/free":
                want.append((x.said, [((l,), t.encode()) for (l,), t in x.embeds], x.sealed))

        def check(what):
            vf.same(log, want, f"{what}: messages handled")
            vf.same(sorted(x for (x,), _ in db.exns.getTopItemIter()), sorted({x.said for x in saved}), f"{what}: messages accepted")
            vf.same(sorted(x for (x,), _ in db.epse.getTopItemIter()), sorted(waiting), f"{what}: messages waiting")
            for x in saved:
                vf.check(val.exc.complete(x.said), "%s: an accepted message is not complete", what)
                s, at = exchanging.cloneMessage(hby, x.said)
                vf.check(bytes(s.raw) == x.raw, "%s: an accepted message is not kept as it was", what)
                vf.same({k: bytes(v) for k, v in at.items()}, {l: t.encode() for (l,), t in x.embeds}, f"{what}: kept attachments")
            for x in ms:
                if x not in saved:
                    vf.same(exchanging.cloneMessage(hby, x.said), (None, None), f"{what}: a message not accepted")
        at = {}
        for kind, n in c["steps"]:
            if kind == "next":
                if not todo:
                    continue
                i = n % len(todo)
                t, m, p = todo.pop(i)
                if t == "e":    # the first of this identifier's events still to give
                    todo.insert(i, (t, m, p))
                    i = min(j for j, b in enumerate(todo) if b[0] == "e" and b[1].sad["i"] == m.sad["i"])
                    t, m, p = todo.pop(i)
                    val.give(m.stream())
                    known.add(m.sad["d"])
                else:
                    val.give(p[0])
                    give(m, p[1], enough, accept, waiting, saved, known, clock, labels)
            elif kind == "again":
                x = ms[n % len(ms)]
                if x.f is None:
                    val.give(x.full)
                    give(x, {0, 1}, enough, accept, waiting, saved, known, clock, labels)
            elif kind == "bogus":   # a copy nobody signed, or only with signatures which cannot be judged, and other attachments
                x = ms[n % len(ms)]
                if x.f is None and x.est is not None:
                    sn, sd = x.ref
                    bad = [kel.Sig(k, i, i, bad=True) for i, k in enumerate(x.nums)]
                    val.give(frame(x.raw, group(x.aid, sn + (30 if n % 2 else 0), sd if n % 4 < 2 else kel.qdig("?"), bad, x.raw) + pathed(["e", "acdc"], "Evil") * (x in saved) + (b"" if x in saved else x.atc)))
                    if x not in saved:
                        waiting.setdefault(x.said, [clock.t, x, set()])
            elif kind == "escrow":
                clock.t += n
                val.exc.processEscrow()
                for said in sorted(waiting):
                    t0, x, good = waiting[said]
                    if clock.t - t0 > 10:
                        del waiting[said]
                        labels.add("dropped")
                        continue
                    ok = enough(x, good)
                    if ok or (ok is None and x.est and x.est.sad["d"] in known and kel.met(x.kt, good)):
                        del waiting[said]
                        if ok:
                            labels.add("waited")
                            accept(x)
            else:
                fresh()
            check(f"after {kind}")
        # what was accepted goes to another validator
        labels |= relay(events, saved, hby)
    return labels or None


def give(x, part, enough, accept, waiting, saved, known, clock, labels):
    if x.f in ("said", "foreign", "relay") or (x.est is None and x.f in ("forged", "other", "payload", "nopayload")):
        labels.add("refused")
        return
    ok = enough(x, part)
    if ok is None:  # payload faults
        if x.est.sad["d"] in known and kel.met(x.kt, part):
            return
        ok = False
    if ok:
        accept(x)
        if x.f is None:
            waiting.pop(x.said, None)
    elif x not in saved:
        waiting.setdefault(x.said, [clock.t, x, set()])[2].update(part if x.f not in ("forged", "other", "estdig", "ixnest") else ())


def relay(events, saved, hby):
    from keri.peer import exchanging
    if not saved:
        return set()
    log = []
    with kel.Val() as to:
        to.psr.exc = exchanging.Exchanger(hby=hby_of(to), handlers=[Handler("/a", log), Handler("/a/b", log), Picky("/picky", log)])
        for es in events:
            for m in es:
                to.give(m.stream())
        for x in saved:
            to.give(exchanging.serializeMessage(hby, x.said))
        vf.same(log, [(x.said, [((l,), t.encode()) for (l,), t in x.embeds], x.sealed) for x in saved if x.route != "/free"], "messages passed on")
        for x in saved:
            vf.check(to.psr.exc.complete(x.said), "an accepted message passed on is not accepted")
    return {"passed-on"}


VERBS = ["apply", "offer", "agree", "grant", "admit", "spurn"]
ANSWERS = {"offer": ["apply"], "agree": ["offer"], "grant": ["agree"], "admit": ["grant"], "spurn": ["apply", "offer", "agree", "grant"]}
TURN = st.tuples(vf.weighted((4, st.none()), (1, st.integers(0, 5))), vf.weighted((4, st.just(-1)), (2, st.integers(0, 7)), (1, st.none()), (1, st.just("lost"))),
                 st.integers(0, 1), st.booleans(), st.booleans(), st.sampled_from(["JSON", "CBOR", "MGPK"]))
TALK = st.tuples(st.integers(0, 2), st.lists(TURN, min_size=2, max_size=8), st.lists(st.tuples(st.integers(0, 7), vf.weighted((3, st.none()), (1, st.sampled_from(["miss", "more", "swap", "order"])))), max_size=10),
                 st.booleans())


class Told:
    def __init__(self):
        self.items = []

    def add(self, attrs):
        self.items.append((attrs["r"], attrs["d"], attrs["m"]))


@vf.leg(LEGS, TALK, quick=900, thorough=30000)
def conversations(c):
    """who answers what, once, with what the answer says it carries"""
    family, turns, more, inorder = c
    new = family == 2
    from keri.kering import Vrsn_2_0
    ctls, events = [], []
    for i in range(2):
        ctl = kel.Ctl(kel.Model(), 1000 * i)
        out, _, _ = kel.author([dict(B, op="icp", nk=2, nn=2, wits=[], c=[], kt=(0, 1))], ctl=ctl)
        ctls.append(ctl)
        events.append([m for m, a in out if a])
    labels = set()
    with Clock(), kel.Val() as val, kel.Val() as to:
        told, told2 = Told(), Told()
        for v in (val, to):
            for es in events:
                v.give(es[0].stream())
        hby = hby_of(val)
        host(val, hby, told, new)
        host(to, hby_of(to), told2, new)
        ms, chain = [], None
        for n, (verb, prior, by, iss, anc, kind) in enumerate(turns):
            at = ms[prior % len(ms)] if ms and isinstance(prior, int) else None
            if verb is None:    # the next in turn
                verb = VERBS.index(at.verb) + 1 if at else 0
                verb = 0 if verb > 5 else verb
                if at and at.verb == "admit":
                    at = None
                    verb = 0
            x = M()
            x.verb, x.by = VERBS[verb], by
            x.prior = "" if prior is None or (at is None and prior != "lost") else kel.qdig(b"lost%d" % n) if prior == "lost" else at.said
            x.at = at
            x.kind = kind
            (make2 if new else make1)(x, n, ctls, events, iss, anc, val)
            ms.append(x)
        todo = list(range(len(ms)))
        if not inorder:
            todo = [i for k, i in sorted((hash((i, len(ms), more[i % len(more)][0] if more else 0)) % 97, i) for i in todo)]
        deliveries = [(i, None) for i in todo]
        for i, (k, f) in enumerate(more):
            deliveries.insert((k * 7 + i) % (len(deliveries) + 1), (k % len(ms), f))
        if inorder:
            deliveries = sorted(deliveries, key=lambda d: (d[0], d[1] is None))
        want, saved, answered = [], [], {}
        for i, f in deliveries:
            x = ms[i]
            if not new or not x.nests:
                f = None if not new or f in ("miss", "swap", "order") else f
            if f == "order" and len(x.nests) < 2:
                f = None
            val.psr.parse(ims=bytearray(x.stream(f)))
            ok = f is None
            if x.prior:
                p = next((m for m in saved if m.said == x.prior), None)
                ok = ok and x.verb != "apply" and p is not None and p.verb in ANSWERS[x.verb] and x.prior not in answered
                if new and x.verb == "spurn" and p is not None and p.verb == "grant":
                    ok = False
            elif x.verb in ("agree", "admit", "spurn"):
                ok = False
            if ok:
                want.append((f"/exn/ipex/{x.verb}", x.said, x.note))
                if x not in saved:
                    saved.append(x)
                if x.prior:
                    answered[x.prior] = x.said
                labels.add(x.verb + ("-answer" if x.prior else ""))
            else:
                labels.add("refused-" + (f or "turn"))
            vf.same(told.items, want, f"after {x.verb} of {x.prior!r} ({f}): told")
            vf.same(sorted(s for (s,), _ in val.db.exns.getTopItemIter()), sorted(m.said for m in saved), "accepted")
            vf.same({k: d.qb64 for (k,), d in val.db.erpy.getTopItemIter()}, answered, "answers")
        from keri.peer import serializeMessage
        for x in saved:
            to.psr.parse(ims=bytearray(serializeMessage(hby, x.said)))
        vf.same(told2.items, [(f"/exn/ipex/{x.verb}", x.said, x.note) for x in saved], "passed on in order")
    return labels


def host(val, hby, told, new):
    from keri.peer import Exchanger
    from keri.kering import Vrsn_1_0, Vrsn_2_0
    from keri.core import Parser
    val.exc = Exchanger(hby=hby, handlers=[])
    if new:
        from keri.acdc.ipexing import loadHandlers
    else:
        from keri.vc.protocoling import loadHandlers
    loadHandlers(hby=hby, exc=val.exc, notifier=told)
    val.psr = Parser(kvy=val.kvy, rvy=val.rvy, exc=val.exc, version=Vrsn_2_0 if new else Vrsn_1_0)


def make1(x, n, ctls, events, iss, anc, val):
    aid, ev = ctls[x.by].pre, events[x.by][0]
    x.note = f"note {n}"
    a = dict(m=x.note)
    if x.verb in ("apply", "grant"):
        a["i"] = ctls[1 - x.by].pre
    e = dict(acdc=dict(v="x", n=n)) if x.verb in ("offer", "grant") else None
    if x.verb == "grant" and iss:
        e["iss"] = dict(v="y", n=n)
    x.raw, sad = exn(aid, "/ipex/" + x.verb, a, x.prior, e, n)
    x.said = sad["d"]
    x.nests = []
    nums = [ctls[x.by].nums[k] for k in ev.sad["k"]]
    atc = group(aid, 0, ev.sad["d"], [kel.Sig(k, i, i) for i, k in enumerate(nums)], x.raw)
    for l in e or {}:
        atc += pathed(["e", l], "AAAA")
    x.stream = lambda f: frame(x.raw, atc)


def make2(x, n, ctls, events, iss, anc, val):
    import types
    from keri.acdc import ipexing, acdcmap, blindate
    from keri.core import messagize, Siger, Number, Diger, Prefixer, Verfer, interact
    from keri.kering import Vrsn_2_0
    aid, ev = ctls[x.by].pre, events[x.by][0]
    other = ctls[1 - x.by].pre
    nums = [ctls[x.by].nums[k] for k in ev.sad["k"]]
    x.note = f"note {n}"

    def sigs(ser, indexed=True):
        return [Siger(qb64=kel.Sig(k, i, i).text(bytes(ser))) for i, k in enumerate(nums)]
    hab = types.SimpleNamespace(pre=aid, kever=val.db.kevers[aid], sign=lambda ser, indexed=True, **k: sigs(ser))
    reg = kel.qdig(b"registry%d" % n)
    acdc = acdcmap(israid=aid, regid=reg, attribute=dict(d="", n=n), iseaid=other, kind=x.kind)
    issue = blindate(regid=reg, prior=reg, blid=kel.qdig("blind"), kind=x.kind, stamp=stamp(n, 0))
    ixn = interact(pre=aid, dig=ev.sad["d"], sn=1, data=[], pvrsn=Vrsn_2_0, gvrsn=Vrsn_2_0, kind=x.kind)
    anchor = messagize(serder=ixn, sigers=sigs(ixn.raw), framed=False, gvrsn=Vrsn_2_0)
    kwa = dict(dt=stamp(n, 0), kind=x.kind, gvrsn=Vrsn_2_0)
    prior = types.SimpleNamespace(said=x.prior, ked=dict(i=other)) if x.prior else None
    none = types.SimpleNamespace(said="", ked=dict(i=other))
    nests = []
    if x.verb == "apply":
        serder, atc = ipexing.apply(hab, other, x.note, kel.qdig("schema"), dict(k=n), **kwa)
        if prior:
            from keri.core import exchange
            serder = exchange(sender=aid, receiver=other, prior=x.prior, route="/ipex/apply", stamp=stamp(n, 0), attributes=dict(serder.ked["a"]), pvrsn=Vrsn_2_0, gvrsn=Vrsn_2_0, kind=x.kind)
            atc = None
    elif x.verb == "offer":
        serder, atc = ipexing.offer(hab, x.note, acdc, apply=prior, recp=other, **kwa)
        nests = [acdc]
    elif x.verb == "grant":
        serder, atc = ipexing.grant(hab, other, x.note, acdc, iss=issue if iss else None, anc=anchor if anc else None, agree=prior, **kwa)
        nests = [acdc] + [issue] * iss + [anchor] * anc
    else:
        serder, atc = getattr(ipexing, x.verb)(hab, x.note, prior or none, **kwa)
    x.said, x.nests = serder.said, nests
    vf.same([serder.ked["i"], serder.ked["ri"], serder.ked["p"], serder.ked["r"], serder.ked["a"]["m"], serder.ked["dt"], serder.kind],
            [aid, other, x.prior, "/ipex/" + x.verb, x.note, stamp(n, 0), x.kind], "the message made says")
    if nests:
        vf.same(serder.ked["a"]["acdc"], acdc.said, "the message made names its credential")

    def stream(f):
        if f is None and atc is not None:
            return bytes(serder.raw) + bytes(atc)
        bad = acdcmap(israid=aid, regid=reg, attribute=dict(d="", n=-1), iseaid=other, kind=x.kind)
        ns = list(nests)
        if f == "miss":
            ns = ns[:-1]
        elif f == "more":
            ns.append(bad)
        elif f == "swap":
            ns[n % len(ns)] = bad
        elif f == "order":
            ns = ns[1:] + ns[:1]
        tsgs = [(Prefixer(qb64=aid), Number(num=0), Diger(qb64=ev.sad["d"]), sigs(serder.raw))]
        return bytes(messagize(serder=serder, tsgs=tsgs, nests=[nest(b) for b in ns] or None, framed=False, gvrsn=Vrsn_2_0))
    x.stream = stream


def nest(item):
    from keri.core import Counter, Codens, Texter, SerderKERI
    from keri.kering import Vrsn_2_0
    if hasattr(item, "raw"):
        body, atc, kind = bytes(item.raw), b"", item.kind
    else:
        s = SerderKERI(raw=bytes(item))
        body, atc, kind = bytes(s.raw), bytes(item)[s.size:], s.kind
    if kind != "CESR":
        body = bytes(Counter.enclose(qb64=Texter(raw=body).qb64b, code=Codens.NonNativeBodyGroup, version=Vrsn_2_0))
    atc = atc or Counter.enclose(qb64=Counter.enclose(qb64=b"", code=Codens.ControllerIdxSigs, version=Vrsn_2_0), code=Codens.AttachmentGroup, version=Vrsn_2_0)
    return Counter.enclose(qb64=body + bytes(atc), code=Codens.BodyWithAttachmentGroup, version=Vrsn_2_0)
