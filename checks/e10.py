"""E10: of signed replies about endpoints, the latest authorised one is in force, in any order."""
import datetime
from hypothesis import strategies as st
import vf
from . import kel

RULE = ("replies adding and cutting endpoint roles, setting locations and watched identifiers, by transferable identifiers which rotate and "
        "nontransferable ones, dated in any order and offset, signed whole or in parts with keys of any establishment event, before or after "
        "those events are known, altered, misdirected, signed by others or with stale keys, and replayed afterwards with forged signatures; "
        "in generated orders with escrow processing. Non-trivial: scenes where a reply in force was replaced or refused to be.")
ASSUMPTIONS = ["Ed25519 and BLAKE3 stand-ins compute the published algorithms"]
LEGS = []
B = dict(op="rot", k=None, nn=1, kt=(0, 0), nt=(0, 0), cut=[], add=[], bt=0, back=0, then=False, a=[], sig=None, wig=None, f=None)
ROLES = ["controller", "witness", "watcher", "mailbox", "agent", "registrar", "judge", "juror", "peer", "gateway", "indexer"]
FAULTS = ["forged", "said", "field", "value", "other", "estdig", "action", "ixnest", "transcig", "unsigned"]
REPLY = st.fixed_dictionaries(dict(
    kind=st.sampled_from(["end", "end", "loc", "watch"]), by=st.integers(0, 3), slot=st.integers(0, 1), on=st.booleans(), when=st.integers(0, 40),
    off=st.sampled_from([0, 0, 5, -11]), est=st.integers(0, 3), f=vf.weighted((5, st.none()), (1, st.sampled_from(FAULTS))),
    parts=vf.weighted((3, st.just([[0, 1]])), (1, st.lists(st.lists(st.integers(0, 1), min_size=1, max_size=2), min_size=1, max_size=3))),
    extra=st.sampled_from([None, None, "foreign", "cig"])))


@st.composite
def scenes(draw):
    return dict(ops=[draw(st.lists(st.sampled_from(["rot", "rot", "ixn"]), max_size=3)) for _ in range(2)], th=[draw(st.sampled_from([0, 1])) for _ in range(2)],
                replies=draw(st.lists(REPLY, min_size=1, max_size=8)), order=draw(st.lists(st.integers(0, 80), max_size=30)), esc=draw(st.integers(1, 3)),
                after=draw(st.lists(st.tuples(st.integers(0, 9), st.sampled_from(["future", "pastdig", "forged", "again", "cig", "tie", "tie"])), max_size=3)),
                kel_first=draw(st.booleans()))


def stamp(n, off):
    t = datetime.datetime(2190, 1, 1, tzinfo=datetime.timezone.utc) + datetime.timedelta(seconds=n * 1800, microseconds=n)
    return t.astimezone(datetime.timezone(datetime.timedelta(hours=off))).isoformat(timespec="microseconds")


def reply(route, data, dt):
    return kel.build(dict(t="rpy", d="", dt=dt, r=route, a=data))


def group(pre, sn, said, sigs, raw):
    return (kel.ctr("F", 1) + pre + kel.num(sn) + said + kel.ctr("A", len(sigs)) + "".join(s.text(raw) for s in sigs)).encode()


def cig(k, raw, bad=False, trans=False):
    return (kel.ctr("C", 1) + kel.couple(k, raw, bad, trans)).encode()


def frame(raw, atc):
    return raw + (f"-V{kel.cesr.b64(len(atc) // 4, 2)}".encode() + atc if atc else b"")


class R:
    pass


@vf.leg(LEGS, scenes(), quick=2500, thorough=80000)
def bada(c):
    ctls, events = [], []
    for i, ops in enumerate(c["ops"]):
        ctl = kel.Ctl(kel.Model(), 1000 * i)
        out, _, _ = kel.author([dict(B, op="icp", nk=2, nn=2, wits=[], c=[], kt=(0, c["th"][i]))] + [dict(B, op=o, nn=2, kt=(0, c["th"][i])) for o in ops], ctl=ctl)
        ctls.append(ctl)
        events.append([m for m, a in out if a])
    aids = [x.pre for x in ctls] + [kel.qkey(900000 + i, False) for i in range(2)]
    eids = [kel.qkey(910000, False), kel.qkey(910001, True)]
    used, rs = set(), []
    for r in c["replies"]:
        x = R()
        n = r["when"]
        while n in used:
            n += 1
        used.add(n)
        by, f = r["by"], r["f"]
        aid = aids[by]
        x.aid, x.when, x.f, x.kind, x.on = aid, n, f, r["kind"], r["on"]
        if r["kind"] == "end":
            role = ROLES[:2][r["slot"]] if r["slot"] < 2 else "agent"
            eid = eids[0]
            data, route = dict(cid=aid, role=role, eid=eid), "/end/role/" + ("add" if r["on"] else "cut")
            x.key = ("end", aid, role, eid)
            if f == "value":
                data["role"] = "wizard"
        elif r["kind"] == "loc":
            scheme = ["http", "tcp"][r["slot"]]
            x.url = f"{scheme}://h{n}:80/" if r["on"] else ""
            data, route = dict(eid=aid, scheme=scheme, url=x.url), "/loc/scheme"
            x.key = ("loc", aid, scheme)
            if f == "value":
                data["url"] = "https://h:80/"
        else:
            data, route = dict(cid=aid, oid=eids[r["slot"]]), f"/watcher/{eids[0]}/" + ("add" if r["on"] else "cut")
            x.key = ("watch", aid, eids[0], eids[r["slot"]])
        if f == "field":
            data.pop(list(data)[-1])
        if f == "action":
            route = route + "x" if r["kind"] != "loc" else "/loc/schemes"
        x.raw, x.sad = reply(route, data, stamp(n, r["off"]))
        x.said = x.sad["d"]
        signed = x.raw
        if f == "said":     # altered after it was signed
            x.raw = x.raw.replace(b'"dt":"21', b'"dt":"22')
        if f == "value" and r["kind"] == "watch":
            x.f = f = None
        x.good, x.rank = set(), None
        x.bits = []
        if by < 2:
            ctl = ctls[by]
            ests = [m for m in events[by] if (m.sad["t"] == "ixn") == (f == "ixnest")]
            if not ests:
                ests, x.f = events[by][:1], None
                f = None
            e = ests[r["est"] % len(ests)]
            x.est = e
            keys = e.sad.get("k") or ctl.model.logs[ctl.pre].states[e.sad["d"]]["k"]
            x.nums = nums = [ctl.nums[k] for k in keys]
            x.kt = e.sad.get("kt")
            sn, sd = int(e.sad["s"], 16), e.sad["d"]
            x.rank = (sn, n)
            x.parts = []
            for p in r["parts"]:
                sigs = [kel.Sig(nums[i] + (500 if f == "other" else 0), i, i, bad=f == "forged") for i in p]
                atc = b"" if f == "unsigned" else group(aid, sn, kel.qdig("?") if f == "estdig" else sd, sigs, signed)
                if r["extra"] == "foreign":
                    o = ctls[1 - by]
                    oe = events[1 - by][0]
                    atc += group(o.pre, 0, oe.sad["d"], [kel.Sig(o.nums[k], i, i) for i, k in enumerate(oe.sad["k"])], signed)
                elif r["extra"] == "cig":
                    atc += cig(nums[0], signed, False, r["slot"] > 0)
                x.parts.append((frame(x.raw, atc), set(p)))
        else:
            x.rank = (0, n)
            k = 900000 + by - 2
            atc = b"" if f == "unsigned" else cig(k + (7 if f in ("other", "estdig", "ixnest") else 0), signed, f == "forged", f == "transcig")
            if r["extra"] == "foreign":
                oe = events[0][0]
                atc = cig(900009, signed) + atc + group(ctls[0].pre, 0, oe.sad["d"], [kel.Sig(ctls[0].nums[k], i, i) for i, k in enumerate(oe.sad["k"])], signed)
            x.est, x.parts = None, [(frame(x.raw, atc), {0})]
        if by < 2 and f == "transcig":
            x.parts = [(frame(x.raw, cig(x.nums[0], signed, False, True)), set())]
        rs.append(x)
    bits = [("e", m, None) for ms in events for m in ms]
    todo = [("r", x, p) for x in rs for p in x.parts]
    bits = bits + todo
    if not c["kel_first"]:
        for k, x in enumerate(c["order"]):
            i, j = k % len(bits), x % len(bits)
            bits[i], bits[j] = bits[j], bits[i]
        # the events of one identifier in their order
        for ms in events:
            at = [i for i, b in enumerate(bits) if b[0] == "e" and b[1] in ms]
            for i, m in zip(at, ms):
                bits[i] = ("e", m, None)
    known = set()
    labels = set()
    with kel.Val() as val:
        db = val.db

        def holds(x):
            if x.f is not None:
                return False
            if x.est is None:
                return bool(x.good)
            return x.est.sad["d"] in known and kel.met(x.kt, x.good)

        def force():
            best = {}
            for x in rs:
                if holds(x) and (x.key not in best or x.rank > best[x.key].rank):
                    best[x.key] = x
            return best

        def check(what):
            best = force()
            for key in {x.key for x in rs}:
                kind, x = key[0], best.get(key)
                auth = dict(end=db.eans, loc=db.lans, watch=db.wwas)[kind].get(keys=key[1:])
                vf.same(auth.qb64 if auth else None, x.said if x else None, f"{what}: reply in force for {kind}")
                rec = dict(end=db.ends, loc=db.locs, watch=db.obvs)[kind].get(keys=key[1:])
                vf.same((rec.allowed if kind == "end" else rec.url if kind == "loc" else rec.enabled) if rec else None,
                        (x.url if kind == "loc" else x.on) if x else None, f"{what}: {kind} record")
                if x:
                    s = db.rpys.get(keys=(x.said,))
                    vf.check(s is not None and bytes(s.raw) == x.raw, "%s: the reply in force for %s is not stored", what, kind)
                    vf.check(db.sdts.get(keys=(x.said,)) is not None, "%s: the date of the reply in force for %s is not stored", what, kind)
                    if x.est is None:
                        vf.same([(v.qb64, v.verify(g.raw, x.raw)) for v, g in db.scgs.get(keys=(x.said,))], [(x.aid, True)], f"{what}: stored signatures")
                    else:
                        from keri.core import Verfer
                        quad = (x.said, x.aid, f"{int(x.est.sad['s'], 16):032x}", x.est.sad["d"])
                        got = db.tsgs.get(keys=quad)
                        for g in got:
                            vf.check(Verfer(qb64=kel.qkey(x.nums[g.index])).verify(g.raw, x.raw), "%s: stored signature %d does not verify", what, g.index)
                        have = {g.index for g in got}
                        vf.check(kel.met(x.kt, have) and have <= x.good, "%s: stored signatures %r of given %r", what, have, x.good)
            for x in rs:
                if best.get(x.key) is not x and holds(x):
                    labels.add("replaced")
        for n, (t, m, p) in enumerate(bits):
            if t == "e":
                val.give(m.stream())
                known.add(m.sad["d"])
            else:
                val.give(p[0])
                m.good |= p[1] if m.f is None else set()
                if m.f:
                    labels.add("refused-" + m.f)
            if n % c["esc"] == 0:
                val.escrows(1)
                val.rvy.processEscrowReply()
                check(f"after {n}")
        val.escrows(1)
        val.rvy.processEscrowReply()
        check("at the end")
        for i, how in c["after"]:
            x = rs[i % len(rs)]
            if x.f is not None:
                continue
            if how == "tie":    # the opposite said at the same instant: not newer
                if force().get(x.key) is not x:
                    continue
                data, route = dict(x.sad["a"]), x.sad["r"]
                if x.kind == "loc":
                    data["url"] = "" if x.url else f"{data['scheme']}://tie:80/"
                else:
                    route = route[:-3] + ("cut" if x.on else "add")
                raw, _ = reply(route, data, stamp(x.when, 0))
                if x.est is None:
                    val.give(frame(raw, cig(900000 + aids.index(x.aid) - 2, raw)))
                else:
                    val.give(frame(raw, group(x.aid, int(x.est.sad["s"], 16), x.est.sad["d"], [kel.Sig(k, i, i) for i, k in enumerate(x.nums)], raw)))
                labels.add("tie")
            elif how == "again":
                val.give(x.parts[0][0])
            elif how == "cig" or x.est is None:
                val.give(frame(x.raw, cig(900000 + (i % 2), x.raw, True)))
            else:
                sn, sd = int(x.est.sad["s"], 16), x.est.sad["d"]
                sigs = [kel.Sig(k, i, i, bad=True) for i, k in enumerate(x.nums)]
                ref = dict(future=(sn + 40, sd), pastdig=(0, kel.qdig("??")), forged=(sn, sd))[how]
                val.give(frame(x.raw, group(x.aid, ref[0], ref[1], sigs, x.raw)))
            check(f"after forged copy ({how})")
            val.rvy.processEscrowReply()
            check(f"after escrow processing of a forged copy ({how})")
    return labels or None
