"""R01: a protected request gets through once, in its window, with its sender's authority."""
import datetime
from hypothesis import strategies as st
import vf
from . import kel, stream
from .a04 import Clock
RULE = ("histories of two identifiers with one to three keys and a nontransferable one, whose dated queries, exchange openings and exchanges are delivered and delivered "
        "again with all or some signatures (true, forged, of other, earlier or others' keys), seals in their logs, or none, under generated windows per kind and route and exemptions, "
        "as time passes, memory is pruned and keys rotate; and changes of the windows while running. Non-trivial: cases with a redelivery, gathering of signatures, pruning or an untimely message.")
ASSUMPTIONS = ["Ed25519 and BLAKE3 stand-ins compute the published algorithms", "the receiver's clock does not run backwards"]
LEGS = []
UNIT = 250
IDLE = dict(k=None, nn=3, kt=(0, 1), nt=(0, 1), bt=0, cut=[], add=[], back=0, then=False, a=[], sig=None, wig=None, f=None, c=[], wits=[], basic=False, nontrans=False)
KEYS = ["~", "qry", "qry.R.ksn", "exn", "xip", "exn.R./a"]
DENIALS = [[[2, 0], "qry", "ksn"], [[2, 0], "exn", ""], [[2, 0], "xip", "/b"], [[1, 0], "qry", ""], [[2, 0], "", ""], [[2, 0], "ex", "/a"], [[2, 0], "qry", "ks"]]
SPAN = st.integers(1, 8)


@st.composite
def windows(draw, wide=True):
    d = draw(st.sampled_from([0, 0, 1, 3]))
    sl = draw(SPAN)
    ll = sl + draw(st.integers(0, 6))
    xl = ll + draw(st.integers(0, 6))
    return [d, sl, ll, xl, ll + draw(st.integers(0, 3)), ll + draw(st.integers(0, 3)), xl + draw(st.integers(0, 5))]


ATT = st.fixed_dictionaries(dict(how=vf.weighted((5, st.just("lsgs")), (4, st.just("tsgs")), (1, st.just("both")), (2, st.just("seal")), (1, st.just("sealsig")), (1, st.just("cig")), (1, st.just("none"))),
                                 keys=vf.weighted((2, st.just([0, 1, 2])), (1, st.just([0, 1])), (1, st.just([1, 2])), (2, st.lists(st.integers(0, 2), min_size=1, max_size=3))),
                                 f=kel.some(None, st.sampled_from(["forged", "other", "old", "foreign", "mixed", "repeat"]), 4)))


@st.composite
def scenes(draw):
    def op():
        return vf.weighted((12, st.tuples(st.just("send"), st.integers(0, 5), ATT)), (5, st.tuples(st.just("tick"), st.integers(1, 5), st.none())), (2, st.just(("prune", 0, None))),
                           (1, st.tuples(st.just("rot"), st.integers(0, 1), st.none())), (2, st.tuples(st.just("ixn"), st.integers(0, 1), st.integers(0, 5))), (1, st.tuples(st.just("tick"), st.integers(6, 20), st.none())))
    return dict(senders=draw(st.lists(st.tuples(st.integers(1, 3), st.integers(0, 5), st.integers(0, 3)), min_size=2, max_size=2)),
                caches=draw(st.dictionaries(st.sampled_from(KEYS), windows(), max_size=4)), dflt=draw(windows()), denials=draw(st.lists(st.sampled_from(DENIALS), max_size=1)),
                msgs=draw(st.lists(st.fixed_dictionaries(dict(s=vf.weighted((4, st.just(0)), (2, st.just(1)), (1, st.just(2)), (1, st.just(3))), t=st.sampled_from(["qry", "qry", "xip", "exn", "exn"]),
                                                              r=st.integers(0, 1), at=st.integers(-2, 16), x=st.integers(-1, 5))), min_size=2, max_size=6)),
                ops=draw(st.lists(op(), min_size=3, max_size=20)), deny=draw(kel.some(None, st.integers(0, 2), 8)), allow=draw(kel.some(None, st.lists(st.integers(0, 2), max_size=2), 8)),
                enabled=draw(kel.some(True, st.just(False), 15)), late=draw(kel.some(False, st.just(True), 9)))


class Conf:
    def __init__(self, **kwa):
        self.data = dict(kram=kwa)

    def get(self):
        return self.data


def stamp(n):
    return (datetime.datetime(2200, 1, 1, tzinfo=datetime.timezone.utc) + datetime.timedelta(milliseconds=n * UNIT)).isoformat(timespec="microseconds")


def ms(rec):
    return [x * UNIT for x in rec]


def write(m, who, xid):
    """raw, sad of message m by identifier who"""
    route = ("ksn" if m["r"] else "logs") if m["t"] == "qry" else ("/a" if m["r"] else "/b")
    dt = stamp(m["at"])
    if m["t"] == "qry":
        sad = dict(t="qry", d="", i=who, dt=dt, r=route, rr="", q=dict(i=who, src=kel.qkey(7, False)))
    elif m["t"] == "xip":
        sad = dict(t="xip", d="", u="", i=who, ri=kel.qkey(8), dt=dt, r=route, q={}, a=dict(n=m["x"]))
    else:
        sad = dict(t="exn", d="", i=who, ri=kel.qkey(8), x=xid, p="", dt=dt, r=route, q={}, a={})
    return kel.build(sad, v=2)


@vf.leg(LEGS, scenes(), quick=1200, thorough=50000)
def once(c):
    from keri.core.kraming import Kramer, Pruner
    from keri.core.eventing import Kevery
    from keri.core.parsing import Parser
    from keri.kering import Vrsn_2_0
    conf = {"~": c["dflt"], **c["caches"]}
    ctls, labels = [], set()
    passed, seen = [], set()
    with Clock() as clock, kel.Val() as val:
        db = val.db
        kramer = Kramer(db=db, cf=Conf(enabled=c["enabled"], denials=c["denials"], caches={k: ms(v) for k, v in conf.items()}))
        kvy = Kevery(db=db, lax=True, local=False, kramer=kramer)
        psr = Parser(kvy=kvy, version=Vrsn_2_0)
        intake = kramer.intake

        def recorded(serder, kwa=None):
            got = intake(serder, kwa)
            if got is not None:
                passed.append((got.said, sorted({s.index for s in (kwa or {}).get("sigers", [])}), [q[0].qb64 for q in (kwa or {}).get("tsgs", [])]))
            return got
        kramer.intake = recorded
        pruner = Pruner(kramer, 0.0).do(tymth=lambda: 0.0)
        for i, (nk, x, y) in enumerate(c["senders"]):
            ctl = kel.Ctl(kel.Model(), 1000 * i)
            m = ctl.incept(dict(IDLE, op="icp", nk=nk, kt=(x, y), nt=(0, 0), nn=nk))
            assert ctl.model.accept(m)
            ctl.pre = m.sad["i"]
            ctl.waiting = [m] if c["late"] else []
            if not c["late"]:
                val.give(m.stream())
            ctl.first = m
            ctls.append(ctl)
        lone = kel.Ctl(kel.Model(), 5000)
        m = lone.incept(dict(IDLE, op="icp", nk=1, nn=0, kt=(0, 0), nt=(0, 0), basic=True, nontrans=True))
        assert lone.model.accept(m) and m.sad["i"] == m.sad["k"][0]
        val.give(m.stream())
        pres = [x.pre for x in ctls] + [m.sad["i"], kel.qkey(6666)]
        lonek = lone.nums[m.sad["i"]]
        if c["deny"] is not None:
            kvy.denyList.add(pres[c["deny"]])
        if c["allow"]:
            for n in c["allow"]:
                kvy.allowList.add(pres[n])
        msgs = []
        for m in c["msgs"]:
            opens = [y for x, y in zip(c["msgs"], msgs) if x["t"] == "xip"]
            x = opens[m["x"] % len(opens)][1]["d"] if opens and m["x"] >= 0 else ("" if m["x"] < 3 else kel.qdig("none"))
            msgs.append(write(m, pres[m["s"]], x))
        cache, part, tx = {}, {}, {}     # said -> [date, d, prune after]; said -> [indices, keys of, done]; (who, xid, said) -> [opening date, d, prune after, ...]

        def rule(sad):
            for k in (f"{sad['t']}.R.{sad['r']}", sad["t"], "~"):
                if k in conf:
                    return conf[k]

        def state(n):
            """known keys of sender n: (threshold, how many, said of the last establishment)"""
            if n == 2:
                return "1", 1, None
            if n == 3 or ctls[n].waiting:
                return None
            cur = ctls[n].model.state[pres[n]]
            return cur["kt"], len(cur["k"]), cur["ed"]

        def expect(mi, att, genuine, sealed, now):
            """None: dropped; else the indices of the signatures handed on"""
            m, (raw, sad) = c["msgs"][mi], msgs[mi]
            n, said, at = m["s"], sad["d"], m["at"]
            if c["deny"] == n or c["allow"] and n not in c["allow"]:
                return None
            has_seal = att["how"] in ("seal", "sealsig") and att["f"] != "foreign"
            has_sigs = att["how"] in ("lsgs", "tsgs", "both", "sealsig") and att["f"] != "foreign" or att["how"] == "cig" and n == 2 and att["f"] not in ("foreign", "other")
            if not c["enabled"]:
                return "any"
            text = f"CAA.{sad['t']}.{sad['r']}"
            for v, ilk, route in c["denials"] + [[[2, 0], "rpy", "/end/role"], [[2, 0], "rpy", "/loc/scheme"]]:
                if v == [2, 0] and text.startswith(".".join(x for x in ["CAA", ilk, route] if x) + ("" if route else ".")):
                    labels.add("exempt")
                    return "any"
            if not (has_seal or has_sigs):
                return None
            xid = said if sad["t"] == "xip" else sad.get("x") or None
            key = (pres[n], xid, said)
            known = tx.get(key) if xid else cache.get(said)
            st_ = state(n)
            if known:
                labels.add("again")
                p = part.get(said)
                if p is None or st_ is None or not has_sigs or has_seal and sealed or st_[1] == 1 or not genuine:
                    return None
                if p["of"] != st_[2] or p["done"]:
                    return None
                p["have"] |= genuine
                if kel.met(st_[0], p["have"]):
                    p["done"] = True
                    labels.add("gathered")
                    return sorted(p["have"])
                return None
            if st_ is None:
                labels.add("unknown")
                return None
            d, sl, ll, xl, psl, pll, pxl = rule(sad)
            by_seal = has_seal and (not has_sigs or sealed)
            multi = not by_seal and st_[1] > 1
            lag, prune = (ll, pll) if multi else (sl, psl)
            opened = None
            if not now - d - lag <= at <= now + d:
                labels.add("untimely")
                return None
            if xid:
                if sad["t"] == "xip":
                    opened = at
                else:
                    of = [v for k, v in tx.items() if k[:2] == (pres[n], xid)]
                    if not of:
                        labels.add("unopened")
                        return None
                    opened = of[0]["opened"]
                if not opened <= at <= opened + xl:
                    labels.add("outlived")
                    return None
            if by_seal and not sealed or not by_seal and not genuine and not (n == 2 and att["how"] == "cig" and att["f"] in (None, "old", "repeat")):
                labels.add("unproven")
                return None
            if xid:
                tx[key] = dict(opened=opened, last=max(opened + pxl, at + d + prune), d=d)
            else:
                cache[said] = dict(at=at, d=d, prune=prune)
            if by_seal:
                labels.add("seal")
                return "any"
            if multi and not kel.met(st_[0], genuine):
                part[said] = dict(have=set(genuine), of=st_[2], done=False)
                labels.add("partial")
                return None
            labels.add("signed")
            return sorted(genuine) if att["how"] != "cig" else "any"

        def attachment(mi, att):
            """(text, genuine indices, whether a true seal)"""
            m, (raw, sad) = c["msgs"][mi], msgs[mi]
            n, f, how = m["s"], att["f"], att["how"]
            out, genuine, sealed = "", set(), False
            if n == 3:
                nums, ed, es, count = [9999], kel.qdig("no"), 0, 1
            elif n == 2:
                nums, ed, es, count = [lonek], kel.qdig("no"), 0, 1
            else:
                ctl = ctls[n]
                cur = ctl.first.sad if f == "old" else None
                s = ctl.model.state[ctl.pre]
                nums = [ctl.nums[k] for k in (cur["k"] if cur else s["k"])]
                ed, es, count = (cur["d"], 0, len(cur["k"])) if cur else (s["ed"], s["es"], len(s["k"]))
                fresh = cur is None or ed == s["ed"]
            who = pres[n] if f != "foreign" else pres[1 - n] if n < 2 else kel.qkey(31)
            idxs = list(dict.fromkeys(k % count for k in att["keys"]))
            sigs = [kel.Sig(nums[i] + (300 if f == "other" else 0), i, i, bad=f == "forged" or f == "mixed" and k == 0) for k, i in enumerate(idxs)]
            if f == "repeat":
                sigs = sigs + [kel.Sig(nums[idxs[0]], idxs[0], idxs[0])]
            group = stream.quad("K", "".join(s.text(raw) for s in sigs))
            if how in ("lsgs", "tsgs", "both", "sealsig"):
                good = set(idxs) if f in (None, "old", "repeat") else set(idxs[1:]) if f == "mixed" else set()
                genuine = good if n < 2 and fresh else set()
                if how in ("lsgs", "both", "sealsig"):
                    out += stream.quad("Y", who + group)
                if how in ("tsgs", "both"):
                    out += stream.quad("X", who + kel.num(es) + ed + group)
                if n >= 2:
                    genuine = {0} if n == 2 and f in (None, "old", "repeat") and how in ("lsgs", "both", "sealsig") else set()
            if how in ("seal", "sealsig"):
                log = ctls[n].model.logs[ctls[n].pre] if n < 2 else None
                s = next((x for x in log.sads.values() if dict(d=sad["d"]) in x.sad.get("a", [])), None) if log else None
                if s is None and log and f is None:     # an event which seals another message
                    s = next((x for x in log.sads.values() if any("d" in y for y in x.sad.get("a", []))), None)
                sn, sd = (int(s.sad["s"], 16), s.sad["d"]) if s else (0, ctls[n].first.sad["d"] if n < 2 else kel.qdig("x"))
                if f in ("forged", "other"):
                    sd = kel.qdig("forged")
                sealed = s is not None and dict(d=sad["d"]) in s.sad["a"] and f not in ("forged", "other", "foreign") and not (n < 2 and ctls[n].waiting)
                out = stream.quad("T", who + kel.num(sn) + sd) + out if f in ("foreign", "repeat") else stream.quad("S", kel.num(sn) + sd) + out
            if how == "cig":
                k = (lonek if n == 2 else nums[0]) + (300 if f == "other" else 0) if f != "foreign" else 31
                out += stream.quad("M", kel.couple(k, raw, f in ("forged", "mixed"), False))
            return out, genuine, sealed
        for oi, (op, a, b) in enumerate(c["ops"]):
            what = f"op {oi} ({op} {a})"
            passed.clear()
            kvy.cues.clear()
            now = clock.t * 1000 // UNIT
            if op == "tick":
                clock.t += a * UNIT / 1000
            elif op == "prune":
                next(pruner)
                now = round(clock.t * 1000) // UNIT
                for said, r in list(cache.items()):
                    if not now - r["d"] - r["prune"] <= r["at"] <= now + r["d"]:
                        del cache[said]
                        part.pop(said, None)
                        labels.add("pruned")
                for key, r in list(tx.items()):
                    if not r["opened"] - r["d"] <= now <= r["last"]:
                        del tx[key]
                        part.pop(key[2], None)
                        labels.add("pruned")
                vf.same(sorted(k[1] for k, _ in db.kramMSGC.getTopItemIter()), sorted(cache), f"{what}: remembered messages")
                vf.same(sorted(k for k, _ in db.kramTMSC.getTopItemIter()), sorted(tx), f"{what}: remembered exchanges")
                vf.same(sorted(k[1] for k, _ in db.kramPMKM.getTopItemIter()), sorted(part), f"{what}: messages gathering signatures")
            elif op in ("rot", "ixn"):
                ctl = ctls[a]
                if op == "rot":
                    n = len(ctl.model.state[ctl.pre]["k"])
                    m = ctl.rotate(dict(IDLE, op="rot", nn=n, kt=(0, 0), nt=(0, 0)))
                else:
                    m = ctl.interact(dict(IDLE, op="ixn", a=[dict(d=msgs[b % len(msgs)][1]["d"])]))
                if not ctl.model.accept(m):
                    continue
                if ctl.waiting:
                    ctl.waiting.append(m)
                else:
                    val.give(m.stream())
            else:
                mi = a % len(msgs)
                raw, sad = msgs[mi]
                if oi * 2 > len(c["ops"]):
                    for ctl in ctls:
                        for m in ctl.waiting:
                            val.give(m.stream())
                        ctl.waiting = []
                out, genuine, sealed = attachment(mi, b)
                now = round(clock.t * 1000) // UNIT
                want = expect(mi, b, genuine, sealed, now)
                psr.parse(ims=bytearray(raw + stream.quad("C", out).encode() if out else raw + stream.quad("C", "").encode()))
                vf.same([x[0] for x in passed], [sad["d"]] if want is not None else [], f"{what} {sad['t']} {sad['r']} of sender {c['msgs'][mi]['s']} {b} at {now - c['msgs'][mi]['at']}: let through")
                if want not in (None, "any"):
                    vf.same(passed[0][1], want, f"{what}: signatures handed on")
                if want is not None and want != "any":
                    vf.check(sad["d"] not in seen, "%s: let through twice", what)
                    seen.add(sad["d"])
                if sad["t"] == "qry" and sad["r"] == "ksn" and c["msgs"][mi]["s"] < 3 and want not in (None, "any"):
                    vf.same([x["kin"] for x in kvy.cues], ["reply"], f"{what}: answers")
                    labels.add("answered")
                elif want is None:
                    vf.same([x["kin"] for x in kvy.cues if x["kin"] not in ("keystate",)], [], f"{what}: answers")
    return labels & {"gathered", "again", "pruned", "untimely", "partial"} or None


@st.composite
def close(draw):
    """scenes about an exchange's window, keys rotated while gathering, and seals of other messages"""
    kind = draw(st.sampled_from(["window", "window", "keys", "seals"]))
    wins = draw(windows())
    d, sl, ll, xl = wins[:4]
    nk = 1 if kind == "window" and draw(st.booleans()) else draw(st.integers(1, 3)) if kind != "keys" else draw(st.integers(2, 3))
    c = dict(senders=[(nk, draw(st.integers(0, 5)), 0), (1, 0, 0)], caches={}, dflt=wins, denials=[], deny=None, allow=None, enabled=True, late=False)
    full = dict(how=draw(st.sampled_from(["lsgs", "tsgs", "both"])), keys=[0, 1, 2], f=None)
    seal = dict(full, how="seal")
    if kind == "window":
        edge = draw(st.sampled_from([0, -1, -d, -d - 1, xl, xl, xl + 1, xl + 1, xl + d, xl + d + 1, xl + 2, 1]))
        start = draw(st.integers(0, 2))
        at = start + edge
        by = draw(st.sampled_from([full, full, seal]))
        wait = max(0, at - start + draw(st.integers(0, sl)))
        c["msgs"] = [dict(s=0, t="xip", r=0, at=start, x=-1), dict(s=0, t="exn", r=draw(st.integers(0, 1)), at=at, x=0)]
        c["ops"] = [("tick", start, None)] * bool(start) + [("ixn", 0, 1)] * (by is seal) + [("send", 0, full)] + [("tick", wait, None)] * bool(wait) + [("send", 1, by)]
        if wait > 1 and draw(st.booleans()):
            c["ops"][-1:-1] = [("prune", 0, None)]
    elif kind == "keys":
        t = draw(st.sampled_from(["qry", "xip"]))
        c["msgs"] = [dict(s=0, t=t, r=draw(st.integers(0, 1)), at=0, x=-1)]
        some = draw(st.lists(st.integers(0, nk - 1), min_size=1, max_size=nk - 1, unique=True))
        rest = dict(full, keys=[i for i in range(nk) if i not in some])
        turn = draw(st.lists(st.sampled_from([("rot", 0, None), ("ixn", 0, 5), ("send", 0, dict(full, keys=some, f="old"))]), min_size=0, max_size=3))
        c["ops"] = [("send", 0, dict(full, keys=some))] + turn + [("send", 0, rest), ("send", 0, full)]
    else:
        c["msgs"] = [dict(s=0, t="xip", r=0, at=0, x=-1), dict(s=0, t="exn", r=1, at=0, x=0), dict(s=0, t="qry", r=1, at=0, x=-1)]
        c["ops"] = [("ixn", 0, draw(st.integers(0, 2))), ("send", 0, full)] + [("send", i, draw(st.sampled_from([seal, dict(seal, how="sealsig")]))) for i in draw(st.permutations([1, 2]))]
    return c


@vf.leg(LEGS, close(), quick=500, thorough=15000)
def closely(c):
    once(c)
    return [c["msgs"][-1]["t"]]


@st.composite
def changes(draw):
    d = draw(st.sampled_from([0, 2]))

    def conf():
        return {k: [d] + draw(windows())[1:] for k in draw(st.lists(st.sampled_from(KEYS), max_size=3, unique=True))}
    old = dict(conf(), **({"~": [d] + draw(windows())[1:]}))
    out = []
    for _ in range(draw(st.integers(1, 4))):
        new = draw(kel.some("same", st.just("any"), 2))
        new = {k: [d] + draw(windows())[1:] for k in old} if new == "same" else dict(conf(), **draw(kel.some({"~": [d] + draw(windows())[1:]}, st.just({}), 8)))
        out.append((new, draw(st.integers(1, 12)), draw(st.lists(st.integers(1, 8), min_size=1, max_size=4)), draw(kel.some(None, st.sampled_from(["sl", "psl", "text", "short", "pause"]), 9))))
    return dict(old=old, d=d, steps=out, types=draw(st.lists(st.sampled_from([("qry", 1), ("qry", 0), ("xip", 1), ("exn", 1), ("exn", 0)]), min_size=1, max_size=2, unique=True)))


@vf.leg(LEGS, changes(), quick=400, thorough=25000)
def changed(c):
    """windows widen only after a delay, narrow at once, and a refused change changes nothing"""
    from keri.core.kraming import Kramer
    from keri.core.eventing import Kevery
    from keri.core.parsing import Parser
    from keri.kering import Vrsn_2_0, KramConfigurationError, KramError
    labels = set()
    with Clock() as clock, kel.Val() as val:
        db = val.db
        kramer = Kramer(db=db, cf=Conf(enabled=True, caches={k: ms(v) for k, v in c["old"].items()}))
        kvy = Kevery(db=db, lax=True, local=False, kramer=kramer)
        psr = Parser(kvy=kvy, version=Vrsn_2_0)
        passed, intake = [], kramer.intake

        def recorded(serder, kwa=None):
            got = intake(serder, kwa)
            if got is not None:
                passed.append(got.said)
            return got
        kramer.intake = recorded
        ctls = []
        for i in range(2):
            ctl = kel.Ctl(kel.Model(), 1000 * i)
            m = ctl.incept(dict(IDLE, op="icp", nk=1 + i, nn=1, kt=(0, i), nt=(0, 0)))
            assert ctl.model.accept(m)
            ctl.first, ctl.pre = m, m.sad["i"]
            val.give(m.stream())
            ctls.append(ctl)
        cur = {k: list(v) for k, v in c["old"].items()}     # kind -> windows in effect
        later = {}                                           # kind -> [when, windows]
        count = [0]

        def now():
            return round(clock.t * 1000) // UNIT

        def settle():
            for k, (t, w) in list(later.items()):
                if now() >= t:
                    cur[k] = w
                    del later[k]
                    labels.add("widened")

        def probe(what):
            for t, r in c["types"]:
                for many in (0, 1):
                    m = dict(t=t, r=r, x=0)
                    route = ("ksn" if r else "logs") if t == "qry" else ("/a" if r else "/b")
                    settle()
                    w = next((cur[k] for k in (f"{t}.R.{route}", t, "~") if k in cur), None)
                    ctl = ctls[many]
                    lag = w[2] if w and many else w[1] if w else 3
                    for at, ok in ((now() - c["d"] - lag, True), (now() - c["d"] - lag - 1, False), (now() + c["d"], True), (now() + c["d"] + 1, False)):
                        count[0] += 1
                        raw, sad = write(dict(m, at=at), ctl.pre, "")
                        raw, sad = kel.build(dict({k: v for k, v in sad.items() if k != "v"}, **({"q": dict(i=ctl.pre, n=count[0])} if t == "qry" else {"a": dict(n=count[0])})), v=2)
                        sigs = "".join(kel.Sig(ctl.nums[k], i, i).text(raw) for i, k in enumerate(ctl.first.sad["k"]))
                        passed.clear()
                        psr.parse(ims=bytearray(raw + stream.quad("C", stream.quad("Y", ctl.pre + stream.quad("K", sigs))).encode()))
                        vf.same(passed, [sad["d"]] if ok and w else [], f"{what}: {t} {route} of an identifier with {many + 1} keys dated {at - now()} (window {w})")
        probe("at first")
        for n, (new, over, ticks, bad) in enumerate(c["steps"]):
            what = f"change {n}"
            settle()
            conf = {k: ms(v) for k, v in new.items()}
            holes = [k for k in cur if not any(x == "~" or k != "~" and (x == k or x == k.split(".R.")[0]) for x in new)]
            same = set(new) == set(cur)
            some = next(iter(conf), None)
            delta = None if same else over * UNIT
            if bad == "pause":
                delta = -5
            elif bad and some:
                conf[some] = {"sl": conf[some][:1] + [0] + conf[some][2:], "psl": conf[some][:4] + [conf[some][1] - 1] + conf[some][5:], "text": conf[some][:6] + ["x"], "short": conf[some][:6] + [conf[some][3] - 1]}[bad]
            if bad == "pause" or bad and some or holes:
                try:
                    kramer.changeConfig(Conf(caches=conf), deltaOverride=delta)
                except (KramConfigurationError, KramError):
                    labels.add("refused")
                else:
                    vf.check(False, "%s: accepted with %s", what, bad or f"{holes} no longer covered")
            else:
                kramer.changeConfig(Conf(caches=conf), deltaOverride=delta)
                low = [min(v[i] for v in cur.values()) for i in (1, 2, 3)]
                was = {k: list(v) for k, v in cur.items()}
                for k in list(cur):
                    if k not in new:
                        del cur[k]
                        later.pop(k, None)
                for k, v in new.items():
                    if k not in was:
                        cur[k] = v[:1] + [min(a, b) for a, b in zip(low, v[1:4])] + v[4:]
                        later[k] = (now() + over, v)
                    elif all(a <= b for a, b in zip(v[1:], was[k][1:])):
                        cur[k] = v
                        later.pop(k, None)
                        labels.add("narrowed")
                    else:
                        wait = over if not same else max(0, max(a - b for a, b in zip(v[1:4], was[k][1:4])))
                        cur[k] = v[:1] + [min(a, b) for a, b in zip(was[k][1:4], v[1:4])] + v[4:]
                        later[k] = (now() + wait, v)
                        labels.add("staged")
            probe(what)
            for t in ticks:
                clock.t += t * UNIT / 1000
                probe(f"{what} and some time")
    return labels & {"widened", "narrowed", "refused"} or None
