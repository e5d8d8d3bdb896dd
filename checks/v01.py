"""V01: registries and credentials change state only by anchored, backed events in order."""
import copy
from hypothesis import strategies as st
import vf
from . import kel, tel, cesr

RULE = ("histories of registries with and without backers, of two issuers, and of credentials issued and revoked, each event anchored in its issuer's log or "
        "not, late, wrongly or elsewhere, backed by enough genuine signatures or not, well formed or faulty, given once, again, with wrong anchor references, "
        "in any order, with restarts and replays; judged by a reference model. Non-trivial: histories with an accepted credential event or a refused one.")
ASSUMPTIONS = ["the issuers' key event logs are lawful and given in order (E01 to E08)"]
LEGS = []
FAULTS = ["prior", "snskip", "snrep", "otherreg", "dupbak", "toad", "cutnot", "addhas", "style", "ra", "tamper", "iss1"]
ANCHOR = vf.weighted((10, st.just("good")), (2, st.just("among")), (1, st.just("rot")), (1, st.sampled_from(["none", "digest", "number", "other", "src", "srcdig", "nosrc", "issuer"])))
WIGS = vf.weighted((5, st.none()), (2, st.lists(st.tuples(st.integers(0, 5), st.integers(0, 6)), max_size=6)))
COMMON = dict(reg=st.integers(0, 5), anchor=ANCHOR, wigs=WIGS, late=vf.weighted((4, st.just(0)), (1, st.integers(1, 2))), f=vf.weighted((5, st.none()), (1, st.sampled_from(FAULTS))), kind=st.just("JSON"))
VCP = st.fixed_dictionaries(dict(op=st.just("vcp"), who=st.integers(0, 1), nb=st.booleans(), eo=vf.weighted((4, st.just(False)), (1, st.just(True))), baks=st.lists(st.integers(0, 5), max_size=4, unique=True), toad=st.integers(0, 4), **COMMON))
VRT = st.fixed_dictionaries(dict(op=st.just("vrt"), cut=st.lists(st.integers(0, 5), max_size=2), add=st.lists(st.integers(0, 8), max_size=2, unique=True), toad=st.integers(0, 4), **COMMON))
ISS = st.fixed_dictionaries(dict(op=st.just("iss"), vc=st.integers(0, 3), ra=st.integers(0, 2), **COMMON))
REV = st.fixed_dictionaries(dict(op=st.just("rev"), vc=st.integers(0, 3), ra=st.integers(0, 2), **COMMON))
AGAIN = st.fixed_dictionaries(dict(op=st.just("again"), n=st.integers(0, 20), strip=st.booleans()))
OPS = st.lists(vf.weighted((2, VCP), (2, VRT), (4, ISS), (4, REV), (1, AGAIN)), min_size=1, max_size=9)
GOOD = dict(anchor=vf.weighted((3, st.just("good")), (1, st.just("among")), (1, st.just("rot"))), wigs=st.none(), f=st.none())


def good(s):
    return s.flatmap(lambda o: st.fixed_dictionaries(GOOD).map(lambda g: {**o, **g}))


FIRST = vf.weighted((1, VCP), (4, good(VCP).map(lambda o: dict(o, late=0))))
HIST = st.fixed_dictionaries(dict(first=FIRST, ops=OPS, marks=st.lists(st.integers(0, 10), max_size=2), local=vf.weighted((6, st.just(False)), (1, st.just(True)))))


def vc(n):
    return kel.qdig(b"credential%d" % n)


class World:
    """issuers and the registries they keep, with their own consistent view"""
    def __init__(self):
        self.issuers = [tel.Issuer(0), tel.Issuer(1)]
        self.view = tel.Model()
        for i in self.issuers:
            self.view.key(i.msgs[0])
        self.regs = []      # (issuer, regk) as written
        self.count = 0
        self.told = []

    def write(self, op):
        """(key events in order, registry event) of an op, or None when it has nothing to act on"""
        self.count += 1
        f, t = op["f"], op["op"]
        dt = tel.DT.format(self.count)
        if t == "vcp":
            who = self.issuers[op["who"]]
            baks = [] if op["nb"] else [kel.qkey(400000 + b, False) for b in op["baks"]]
            toad = 1 + op["toad"] % len(baks) if baks else 0
            if f == "toad":
                toad = len(baks) + 1 if op["toad"] % 2 or not baks else 0
            if f == "dupbak" and baks:
                baks = baks + baks[:1]
            e = dict(t="vcp", d="", i="", ii=who.pre, s="1" if f == "snskip" else "0", c=(["NB"] if op["nb"] else []) + (["EO"] if op["eo"] else []), bt=f"{toad:x}", b=baks,
                     n=cesr.encode("0A", "", bytes([self.count]) * 16))
            signers = baks
        else:
            if not self.regs:
                return None
            who, rk = self.regs[op["reg"] % len(self.regs)]
            r = self.view.regs.get(rk)
            if r is None:
                return None
            if t == "vrt":
                cuts = list(dict.fromkeys(r["baks"][x % len(r["baks"])] for x in op["cut"])) if r["baks"] else []
                adds = [b for b in (kel.qkey(400000 + x, False) for x in op["add"]) if b not in r["baks"]]
                if f == "cutnot":
                    cuts = cuts + [kel.qkey(400099, False)]
                elif f == "addhas" and r["baks"]:
                    adds = adds + [r["baks"][0]]
                elif f == "dupbak":
                    adds, cuts = (adds * 2, cuts) if adds else (adds, cuts * 2)
                new = [b for b in r["baks"] if b not in cuts] + adds
                toad = 1 + op["toad"] % len(new) if new else 0
                if f == "toad":
                    toad = len(new) + 1 if op["toad"] % 2 or not new else 0
                sn = r["sn"] + (2 if f == "snskip" else 0 if f == "snrep" else 1)
                prior = kel.qdig(b"x") if f == "prior" else r["at"][max(r["sn"] - 1, 0)][0] if f == "snrep" else r["last"]
                e = dict(t="vrt", d="", i=rk, p=prior, s=f"{sn:x}", bt=f"{toad:x}", br=cuts, ba=adds)
                signers = new
            else:
                v = vc(op["vc"])
                own, evs = self.view.vcs.get(v, (rk, []))
                if t == "rev" and f != "otherreg":      # by the registry which issued it
                    rk = own
                    r = self.view.regs[rk]
                    who = next(i for i, k in self.regs if k == rk)
                if t == "iss":
                    sn = 1 if f == "iss1" else 0
                else:
                    sn = len(evs) + (1 if f == "snskip" else 0)
                    if f == "snrep":
                        sn = max(0, len(evs) - 1)
                    if not evs and f is None:
                        sn = 1
                prior = kel.qdig(b"y") if f == "prior" or not evs else evs[-1]["d"]
                simple = r["nb"] != (f == "style")
                ats = sorted(r["at"])
                at = ats[-1 - op["ra"] % len(ats)]
                ra = dict(i=rk, s=f"{at:x}", d=r["at"][at][0])
                if f == "ra":
                    ra["d"] = kel.qdig(b"z") if op["ra"] else next((m.said for m in reversed(self.told) if m.sad["t"] == "vrt" and m.said not in self.view.log), kel.qdig(b"w"))
                if simple:
                    e = dict(t=t, d="", i=v, s=f"{sn:x}", ri=rk)
                    if t == "rev":
                        e["p"] = prior
                else:
                    e = dict(t="b" + {"iss": "is", "rev": "rv"}[t], d="", i=v)
                    if t == "iss":
                        e.update(ii=rk, s=f"{sn:x}")
                    else:
                        e.update(s=f"{sn:x}", p=prior)
                    e["ra"] = ra
                e["dt"] = dt
                signers = r["at"][at][1]
        m = tel.event(e, op["kind"])
        e = m.sad
        if any(x.said == m.said for x in self.told):
            return None
        if t == "vcp":
            self.regs.append((who, e["i"]))
        # anchor
        how = op["anchor"]
        by = self.issuers[1 - self.issuers.index(who)] if how == "issuer" else who
        s = tel.seal(e)
        if how == "digest":
            s["d"] = kel.qdig(b"q")
        elif how == "number":
            s["s"] = f"{tel.num(s['s']) + 1:x}"
        elif how == "other":
            s["i"] = vc(99)
        seals = [s] if how != "among" else [dict(d=kel.qdig(b"a")), s, dict(i=vc(7), s="0", d=kel.qdig(b"b"))][self.count % 2:]
        k = None
        if how != "none":
            k = by.anchor(seals, rot=how == "rot")
            self.view.key(k)
        m.src = (by.sn, by.msgs[-1].sad["d"])
        if how == "src":
            m.src = (by.sn - 1, m.src[1])
        elif how == "srcdig":
            m.src = (m.src[0], kel.qdig(b"r"))
        elif how == "nosrc":
            m.src = None
        m.wigs = self.wigs(op["wigs"], signers, tel.num(e["bt"]) if "bt" in e else r["at"][at][2])
        if f == "tamper":
            m.raw = m.raw.replace(e["d"].encode(), kel.qdig(b"t").encode(), 1)
            m.broken = True
        self.view.accept(m)
        self.told.append(m)
        return ([k] if k else []), m

    @staticmethod
    def wigs(spec, baks, toad):
        ks = {kel.qkey(400000 + n, False): 400000 + n for n in list(range(10)) + [99]}
        if not baks:
            return [kel.Sig(400000, 0)] if spec else []
        if spec is None:
            return [kel.Sig(ks[b], i) for i, b in enumerate(baks)][-max(toad, 1):]
        out = []
        for x, mode in spec:
            i = x % len(baks)
            k = ks[baks[i]]
            out.append({0: kel.Sig(k, i), 1: kel.Sig(k, i), 2: kel.Sig(k, i, bad=True), 3: kel.Sig(k, (i + 1) % len(baks)), 4: kel.Sig(k, len(baks) + i), 5: kel.Sig(k, i, i),
                        6: kel.Sig(400098, i)}[mode])
        return out


def shut(m, strip):
    """the same event given with less"""
    c = tel.Ev(m.raw, m.sad, wigs=[] if strip else m.wigs, src=m.src, broken=m.broken)
    return c


@vf.leg(LEGS, HIST, quick=1500, thorough=20000)
def histories(c):
    w, labels = World(), set()
    with tel.Tel(local=False, lax=True) as v:
        v.tvy.local = c["local"]
        v.tvy.lax = True
        model = tel.Model(local=c["local"])
        for i in w.issuers:
            v.give(i.msgs[0].stream())
            model.key(i.msgs[0])
        waiting, held, sent = [], [], []

        def settle():
            for _ in range(6):
                v.escrows()
                for x in list(waiting):
                    why = model.judge(x)
                    if why == "ok":
                        model.accept(x)
                        labels.add("late-" + x.sad["t"])
                    if why not in ("order", "anchor"):
                        waiting.remove(x)
        for n, op in enumerate([c["first"]] + c["ops"]):
            what = f"op {n} {op['op']}"
            keys = []
            if op["op"] == "again":
                if not sent:
                    continue
                m = shut(sent[op["n"] % len(sent)], op["strip"])
                if m.said not in model.log and op["strip"] and m.wigs != sent[op["n"] % len(sent)].wigs:
                    continue
            else:
                got = w.write(op)
                if got is None:
                    continue
                keys, m = got
                if op["late"]:
                    held.append([op["late"], keys])
                    keys = []
            if held and keys:      # key events are given in order
                held[-1][1].extend(keys)
                keys = []
            for k in keys:
                v.give(k.stream())
                model.key(k)
            why = model.judge(m)
            new = model.accept(m)
            labels.add(f"{m.sad['t']}-{why}")
            if why in ("order", "anchor") and m.src and not any(x.said == m.said for x in waiting):
                waiting.append(m)
            v.give(m.stream())
            sent.append(m)
            what += f" {m.sad['t']} s={m.sad['s']} fault={op.get('f')} anchor={op.get('anchor')} -> {why}"
            if n in c["marks"]:
                v.restart(model.regs if c["local"] else ())
                v.tvy.lax, v.tvy.local = True, c["local"]
                what += " restarted"
                labels.add("restarted")
            tel.compare(v, model, what)
            for h in held:
                h[0] -= 1
            if held and all(h[0] <= 0 for h in held):
                for _, ks in held:
                    for k in ks:
                        v.give(k.stream())
                        model.key(k)
                held.clear()
                settle()
                tel.compare(v, model, what + " then anchored")
        for _, ks in held:
            for k in ks:
                v.give(k.stream())
                model.key(k)
        settle()
        tel.compare(v, model, "at the end")
        v.restart()
        tel.compare(v, model, "opened again")
    return labels


DELIVERY = st.fixed_dictionaries(dict(first=good(VCP), ops=st.lists(vf.weighted((2, good(VCP)), (2, good(VRT)), (4, good(ISS)), (4, good(REV))), min_size=2, max_size=8),
                                      order=st.lists(st.integers(0, 99), max_size=30), spoil=st.lists(st.tuples(st.integers(0, 30), st.sampled_from(["src", "none", "wigs", "bad", "other"])), max_size=4),
                                      esc=st.lists(st.integers(0, 30), max_size=6), marks=st.lists(st.integers(0, 30), max_size=2)))


def spoilt(m, how, n):
    """a copy of the same event with a wrong or missing anchor reference or signatures"""
    c = tel.Ev(m.raw, m.sad, wigs=m.wigs, src=m.src)
    if how == "src":
        c.src = (m.src[0] + 1 + n % 2, m.src[1])
    elif how == "other":
        c.src = (m.src[0], kel.qdig(b"o%d" % n))
    elif how == "none":
        c.src = None
    elif how == "wigs":
        c.wigs = m.wigs[:n % (len(m.wigs) + 1)]
    else:
        c.wigs = [kel.Sig(s.k, s.index, bad=True) for s in m.wigs]
    return c


@vf.leg(LEGS, DELIVERY, quick=700, thorough=15000)
def arrivals(c):
    """Sound events and spoilt copies of them in any order: never anything but a lawful history, and at last all of it."""
    w = World()
    ms = []
    for op in [c["first"]] + c["ops"]:
        got = w.write(op)
        if got and got[1].said in w.view.log:
            ms.append(got)
    tells = [m for _, m in ms]
    keys = [k for i in w.issuers for k in i.msgs]
    items = [("ev", m) for m in tells] + [("ev", spoilt(tells[n % len(tells)], how, n)) for n, how in c["spoil"]]
    order = sorted(range(len(items)), key=lambda i: (c["order"][i] if i < len(c["order"]) else 50, i))
    items = [items[i] for i in order]
    for j, k in enumerate(keys):      # key events spread over the whole, in order
        at = c["order"][-1 - j % len(c["order"])] % (len(items) + 1) if c["order"] else 0
        at = max([at] + [i + 1 for i, (t, x) in enumerate(items) if t == "key" and x.sad["i"] == k.sad["i"]])
        items.insert(at, ("key", k))
    labels = set()
    with tel.Tel(lax=True) as v:
        full = tel.Model()
        given, before = {}, {}
        for n, (t, x) in enumerate(items):
            v.give(x.stream())
            if t == "key":
                full.key(x)
            else:
                given.setdefault(x.said, []).append(x)
            if n in c["esc"]:
                v.escrows(2)
            if n in c["marks"]:
                v.restart()
                v.tvy.lax = True
            before = lawful(v, full, given, before, f"delivery {n}")
        v.escrows(10)
        before = lawful(v, full, given, before, "after escrows")
        whole = {d for _, _, d in tel.logs(v)}
        if whole == set(w.view.log):
            labels.add("whole-from-escrow")
        elif not c["spoil"]:
            raise vf.Violation(f"{len(w.view.log) - len(whole)} of {len(w.view.log)} sound events given once were not accepted")
        for m in tells:
            v.give(m.stream())
        v.escrows(2)
        tel.compare(v, w.view, "after giving all again in order", full=False)
    return labels | {f"events{min(len(tells), 4)}"} if len(tells) > 1 else None


def lawful(v, keys, given, before, what):
    """what is accepted is a history the rules allow, given the key events so far, and only grew"""
    got = {}
    for i, on, d in tel.logs(v):
        got.setdefault(i, []).append((on, d))
    for i, was in before.items():
        vf.same(got.get(i, [])[:len(was)], was, f"{what}: accepted events changed")
    model = tel.Model()
    model.kels = keys.kels
    todo = [d for i in got for _, d in got[i]]
    for d in todo:
        vf.check(d in given, "%s: an event never given was accepted", what)
    while todo:
        for d in todo:
            n, g = v.reger.ancs.get(keys=(given[d][0].sad["i"], d))
            m = tel.Ev(given[d][0].raw, given[d][0].sad, wigs=[s for x in given[d] for s in x.wigs], src=(n.num, g.qb64))
            if model.accept(m):
                todo.remove(d)
                break
        else:
            raise vf.Violation(f"{what}: accepted out of the rules: {[(given[d][0].sad['t'], model.judge(given[d][0])) for d in todo]}")
    tel.compare(v, model, what, full=False)
    return got


@vf.leg(LEGS, st.tuples(DELIVERY, st.sampled_from([1, 2])), quick=250, thorough=8000)
def replay(t):
    """A validator given the replay of another's registries and credentials holds the same."""
    from keri.kering import Vrsn_1_0, Vrsn_2_0
    c, g = t
    w = World()
    for op in [c["first"]] + c["ops"]:
        w.write(op)
    with tel.Tel(lax=True) as a, tel.Tel(lax=True) as b:
        for x in (a, b):
            for i in w.issuers:
                for k in i.msgs:
                    x.give(k.stream())
        for m in w.told:
            a.give(m.stream())
        tel.compare(a, w.view, "original")
        ids = list(w.view.regs) + list(w.view.vcs)
        for i in ids:
            ms = [bytes(x) for x in a.reger.clonePreIter(pre=i, gvrsn=[Vrsn_1_0, Vrsn_2_0][g - 1])]
            want = [d for d, _, _ in w.view.regs[i]["at"].values()] if i in w.view.regs else [e["d"] for e in w.view.vcs[i][1]]
            vf.same([x[:len(w.view.log[d][0].raw)] for x, d in zip(ms, want)], [w.view.log[d][0].raw for d in want], "replayed events")
            vf.same(len(ms), len(want), "number of replayed events")
            for n, x in enumerate(ms):
                vf.same(bytes(a.reger.cloneTvtAt(i, sn=n, gvrsn=[Vrsn_1_0, Vrsn_2_0][g - 1])), x, "replayed event by number")
            vf.same([bytes(x) for x in a.reger.clonePreIter(pre=i, fn=1, gvrsn=[Vrsn_1_0, Vrsn_2_0][g - 1])], ms[1:], "replay from one")
            vf.same(list(a.reger.clonePreIter(pre=i[:-1])), [], "replay of an unknown identifier")
            for x in ms:
                ims = bytearray(x)
                from keri.core.parsing import Parser
                Parser(kvy=b.val.kvy, tvy=b.tvy, version=[Vrsn_1_0, Vrsn_2_0][g - 1]).parse(ims=ims)
        b.escrows(2)
        tel.compare(b, w.view, "replayed")
        for rk, r in w.view.regs.items():      # answers to queries
            for i in [None] + list(w.view.vcs):
                queries(a, w, rk, i)
    return [f"g{g}"] if w.view.vcs else None


def queries(a, w, rk, vc_):
    from keri.core import SerderKERI, Prefixer
    from hio.help import decking
    e = kel.build(dict(t="qry", d="", dt=tel.DT.format(0), r="tels", rr="", q=dict(i=vc_ or "", ri=rk, src="src")))[0]
    src = Prefixer(qb64=kel.qkey(5))
    a.tvy.cues = decking.Deck()
    a.tvy.processQuery(serder=SerderKERI(raw=e), source=src, sigers=[])
    cue, = a.tvy.cues
    want = [bytes(x) for i in ([rk] + ([vc_] if vc_ else [])) for x in a.reger.clonePreIter(pre=i)]
    vf.same((cue["kin"], [bytes(x) for x in cue["msgs"]], cue["dest"]), ("replay", want, src.qb64), "answer to a query for events")
    a.tvy.cues = decking.Deck()
    e = kel.build(dict(t="qry", d="", dt=tel.DT.format(0), r="tsn", rr="", q=dict(i=vc_ or "", ri=rk)))[0]
    if vc_ and w.view.vcs[vc_][0] != rk:
        return
    a.tvy.processQuery(serder=SerderKERI(raw=e), source=src, sigers=[])
    got = [(x["kin"], x["route"], {k: y for k, y in x["data"].items() if k in ("i", "s", "d", "ri", "ii", "et")}) for x in a.tvy.cues]
    r = w.view.regs[rk]
    want = [("reply", "/tsn/registry", dict(i=rk, s=f"{r['sn']:x}", d=r["last"], ii=r["pre"], et=r["t"]))]
    if vc_:
        evs = w.view.vcs[vc_][1]
        want.append(("reply", "/tsn/credential", dict(i=vc_, s=f"{len(evs) - 1:x}", d=evs[-1]["d"], ri=rk, et=evs[-1]["t"])))
    vf.same(got, want, "answer to a query for state")


@vf.leg(LEGS, st.tuples(st.sampled_from(["CBOR", "MGPK"]), DELIVERY), quick=20, thorough=500)
def kinds(t):
    """The other serializations."""
    k, c = t
    w = World()
    for op in [c["first"]] + c["ops"]:
        w.write(dict(op, kind=k))
    with tel.Tel(lax=True) as v:
        for i in w.issuers:
            for x in i.msgs:
                v.give(x.stream())
        try:
            for m in w.told:
                v.give(m.stream())
                v.reger.tvts.get(keys=(m.sad["i"], m.said))
            tel.compare(v, w.view, k)
        except UnicodeDecodeError:
            vf.finding("V01", "registry-kinds", "registry events in CBOR or MGPK are stored where only text reads back")
    return [k]
