"""E12: queries are answered with exactly what was accepted, once it is there; key state notices are kept from trusted sources."""
from hypothesis import strategies as st
import vf
from . import kel, cesr, e10
from .a04 import Clock

RULE = ("histories of a controller, plain or delegated, whose messages come in generated order with faults, between queries for its log from a first seen number, "
        "up to a sequence number or a sealing event, for its key state and for its mailbox, signed by indexed or single signatures, for known and unknown "
        "identifiers, some before they can be answered, with time passing; and notices of its key state by itself, its witnesses, watchers and strangers, true and altered, "
        "early and late. Non-trivial: cases with an answer given or a notice kept.")
ASSUMPTIONS = ["Ed25519 and BLAKE3 stand-ins compute the published algorithms", "queries are not authenticated: the validator answers anyone"]
LEGS = []
B = dict(op="rot", k=None, nn=1, kt=(0, 0), nt=(0, 0), cut=[], add=[], bt=9, back=0, then=False, a=[], sig=None, wig=None, f=None)
QRY = st.fixed_dictionaries(dict(
    route=vf.weighted((4, st.just("logs")), (2, st.just("ksn")), (1, st.just("mbx")), (1, st.sampled_from(["other", "log"]))), who=vf.weighted((5, st.just(0)), (2, st.just(1)), (1, st.just(2))),
    src=st.integers(0, 1), fn=kel.some(None, st.integers(0, 9)), s=kel.some(None, st.integers(0, 9), 1), a=kel.some(None, st.integers(0, 5), 2), by=st.sampled_from(["last", "last", "cig", "none", "cigtrans"]),
    kind=st.sampled_from(["JSON", "CBOR", "MGPK"]), drop=kel.some(None, st.sampled_from(["i", "src"]), 9), at=st.integers(0, 12), wait=st.sampled_from([0, 0, 0, 100, 301])))


@st.composite
def asked(draw):
    return dict(ops=[draw(kel.icps())] + draw(st.lists(st.one_of(kel.rots(), kel.ixns()), max_size=7)), deleg=draw(st.booleans()), seals=draw(st.lists(st.integers(0, 5), max_size=6)),
                qs=draw(st.lists(QRY, min_size=1, max_size=6)), late=draw(st.integers(0, 3)))


def query(q, pre, seal):
    data = dict(i=pre, src=kel.qkey(930000 + q["src"]))
    if q["route"] == "mbx":
        data["topics"] = {"/receipt": q["s"] or 0}
    if q["fn"] is not None:
        data["fn"] = f"{q['fn']:x}"
    if q["s"] is not None:
        data["s"] = f"{q['s']:x}"
    if seal:
        data["a"] = seal
    if q["drop"]:
        del data[q["drop"]]
    raw, sad = kel.build(dict(t="qry", d="", dt=e10.stamp(q["at"], 0), r=q["route"], rr="", q=data), q["kind"])
    k = 940000 + q["src"]
    if q["by"] == "last":
        who = kel.qkey(k)
        s = kel.Sig(k, 0, 0)
        atc = (kel.ctr("H", 1) + who + kel.ctr("A", 1) + s.text(raw)).encode()
    elif q["by"].startswith("cig"):
        who = kel.qkey(k, q["by"] == "cigtrans")
        atc = e10.cig(k, raw, False, q["by"] == "cigtrans")
    else:
        who, atc = None, b""
    return e10.frame(raw, atc), sad, who


@vf.leg(LEGS, asked(), quick=900, thorough=40000)
def queries(c):
    model = kel.Model()
    boss, ctl = kel.Ctl(model, 0), kel.Ctl(model, 1000)
    labels = set()
    from keri.kering import Vrsn_1_0 as V1
    with Clock() as clock, kel.Val() as val:
        val.kvy.cues.clear()
        waiting, sealed = [], []     # [query, who, sad, deadline]

        def answer(q, sad):
            """what is to be answered now; None: not yet"""
            d = sad["q"]
            pre = d["i"]
            cur = model.state.get(pre)
            if cur is None:
                return None
            if q["route"] == "mbx":
                return dict(kin="stream", pre=pre, src=d["src"], topics=d["topics"], said=sad["d"])
            if q["route"] == "ksn":
                return dict(kin="reply", pre=pre, src=d["src"], state=dict(cur))
            if d.get("a"):
                if not any(d["a"] in m.sad.get("a", []) and list(d["a"]) == ["i", "s", "d"] for m in model.logs[pre].sads.values()):
                    return None
            elif "s" in d and cur["sn"] < int(d["s"], 16):
                return None
            msgs = [(pre, x) for x in model.logs[pre].first[int(d.get("fn", "0"), 16):]]
            if cur["di"]:
                msgs += [(cur["di"], x) for x in model.logs[cur["di"]].first]
            return dict(kin="replay", pre=pre, src=d["src"], msgs=msgs)

        def took(want, what):
            """the answers pushed since, compared with those expected: list of (who, answer)"""
            got = [x for x in val.kvy.cues if x["kin"] in ("replay", "reply", "stream")]
            val.kvy.cues.clear()
            vf.same([(x["kin"], x.get("dest")) for x in got], [(a["kin"], w if a["kin"] != "stream" else None) for w, a in want], f"{what}: answers")
            for x, (w, a) in zip(got, want):
                labels.add(a["kin"])
                vf.same(x["src"], a["src"], f"{what}: responder named")
                if a["kin"] == "stream":
                    vf.same((x["pre"], x["topics"], x["serder"].said), (a["pre"], a["topics"], a["said"]), f"{what}: mailbox asked for")
                elif a["kin"] == "reply":
                    s, d = a["state"], x["serder"].ked
                    ks = d["a"]
                    vf.same((d["t"], d["r"], x["route"]), ("rpy", f"/ksn/{a['src']}", "/ksn"), f"{what}: reply")
                    exp = dict(i=s["pre"], s=f"{s['sn']:x}", p=s["p"], d=s["d"], f=f"{s['fn']:x}", et=s["t"], kt=s["kt"], k=s["k"], nt=s["nt"], n=s["n"],
                               bt=f"{s['bt']:x}", b=s["b"], c=sorted(s["c"], reverse=True), ee=dict(s=f"{s['es']:x}", d=s["ed"], br=s["br"], ba=s["ba"]), di=s["di"])
                    vf.same({k: v for k, v in ks.items() if k not in ("vn", "dt")}, exp, f"{what}: key state answered")
                else:
                    vf.same(x["pre"], a["pre"], f"{what}: identifier")
                    ims = b"".join(bytes(m) for m in x["msgs"])
                    want_ims = b"".join(bytes(m) for p in dict.fromkeys(p for p, _ in a["msgs"])
                                        for m in list(val.db.clonePreIter(pre=p, fn=0, version=V1))[-sum(q == p for q, _ in a["msgs"]):])
                    vf.same(len(x["msgs"]), len(a["msgs"]), f"{what}: number of messages")
                    for m, (p, said) in zip(x["msgs"], a["msgs"]):
                        raw = model.logs[p].sads[said].raw
                        vf.check(bytes(m).startswith(raw), "%s: an event replayed is not the one first seen there", what)
                    vf.check(ims == want_ims, "%s: replayed messages differ from the accepted ones with their attachments", what)
                    if not int(x.get("fn", 0)) and a["msgs"] and a["msgs"][0][1] == model.logs[a["pre"]].first[0]:
                        labels.add("whole")

        def escrows(what):
            want = []
            for w in list(waiting):
                q, who, sad, since = w
                if clock.t - since > 300:
                    waiting.remove(w)
                    labels.add("lapsed")
                    continue
                a = answer(q, sad)
                if a is not None:
                    waiting.remove(w)
                    if a["kin"] != "replay" or a["msgs"]:
                        want.append((who, a))
                    labels.add("waited")
            val.kvy.processQueryNotFound()
            want.sort(key=lambda t: (t[0], 0))
            took(want, what)
            vf.same(sorted(k for k, _ in val.db.qnfs.getTopItemIter()), sorted((w[1], w[2]["d"]) for w in waiting), f"{what}: waiting queries")

        def ask(q, what):
            pre = {0: ctl.pre or kel.qkey(77), 1: boss.pre or kel.qkey(78), 2: kel.qkey(79)}[q["who"]]
            seal = SEALS[q["a"]] if q["a"] is not None else None
            ims, sad, who = query(q, pre, seal)
            if any(w[2]["d"] == sad["d"] and w[1] == who for w in waiting) or (who, sad["d"]) in seen:
                return
            val.give(ims)
            want = []
            if who and not q["drop"] and q["route"] in ("logs", "ksn", "mbx"):
                a = answer(q, sad)
                if a is None:
                    seen.add((who, sad["d"]))
                    waiting.append((q, who, sad, clock.t))
                    waiting.sort(key=lambda w: (w[1], w[2]["d"]))
                elif a["kin"] != "replay" or a["msgs"]:
                    want.append((who, a))
            took(want, what)
        seen = set()
        SEALS = [dict(i=kel.qkey(55), s=f"{n:x}", d=kel.qdig(f"s{n}")) for n in range(4)] + [dict(d=kel.qdig("s4")), dict(s="5", i=kel.qkey(55), d=kel.qdig("s5"))]

        def deliver(m):
            val.give(m.stream())
            return model.accept(m)
        if c["deleg"]:
            m = boss.incept(dict(B, op="icp", nk=1, wits=[], c=[]))
            boss.pre = m.sad["i"]
            deliver(m)
        for i, op in enumerate(c["ops"]):
            val.kvy.cues.clear()
            for q in [q for q in c["qs"] if q["at"] == i]:
                clock.t += q["wait"]
                ask(q, f"query {q['route']} before message {i}")
            if op["op"] == "icp":
                m = ctl.incept(op, delpre=boss.pre if c["deleg"] and not op.get("basic") and not op.get("nontrans") else None)
            elif ctl.cur is None or not ctl.cur["k"]:
                continue
            else:
                a = [SEALS[c["seals"][i % len(c["seals"])]]] if c["seals"] else []
                if c["deleg"]:
                    op = dict(op, back=0)  # rival delegated rotations are E13's
                m = ctl.rotate(dict(op, a=a)) if op["op"] == "rot" else ctl.interact(dict(op, a=a))
            if m.sad["t"] in ("dip", "drt") and c["deleg"]:
                s = boss.interact(dict(B, a=[dict(i=m.sad["i"], s=m.sad["s"], d=m.sad["d"])]))
                deliver(s)
                m.src = (int(s.sad["s"], 16), s.sad["d"])
            if deliver(m) and ctl.pre is None:
                ctl.pre = m.sad["i"]
            val.kvy.cues.clear()
            if i % (c["late"] + 1) == 0:
                escrows(f"after message {i}")
        for q in [q for q in c["qs"] if q["at"] >= len(c["ops"])]:
            clock.t += q["wait"]
            ask(q, f"query {q['route']} at the end")
        escrows("at the end")
    return labels or None


NOTE = st.fixed_dictionaries(dict(
    who=vf.weighted((4, st.just("self")), (3, st.just("wit")), (2, st.just("watcher")), (1, st.sampled_from(["stranger", "trans"]))), n=st.integers(0, 3), event=st.integers(0, 7), est=st.integers(0, 3),
    alter=kel.some(None, st.sampled_from(["digest", "keys", "extra", "sn", "wits"]), 4), f=kel.some(None, st.sampled_from(["forged", "other", "unsigned", "part", "estdig", "said"]), 4),
    at=st.integers(0, 8), kind=st.sampled_from(["JSON", "CBOR", "MGPK"])))


@st.composite
def told(draw):
    return dict(ops=[draw(kel.icps(None, None, 4))] + draw(st.lists(st.one_of(kel.rots(None, None, 1), kel.ixns(None, None, 1)), max_size=6)),
                notes=draw(st.lists(NOTE, min_size=1, max_size=6)), lax=draw(st.sampled_from([False, False, True])), watch=draw(st.lists(st.integers(0, 3), max_size=2)))


@vf.leg(LEGS, told(), quick=900, thorough=40000)
def notices(c):
    from keri.recording import HabitatRecord
    ctl = kel.Ctl(kel.Model(), 1000)
    ops = [dict(o, nk=2 if o["op"] == "icp" else None, nn=2, basic=False, nontrans=False, kt=(0, 1), k=None) for o in c["ops"]]
    out, _, _ = kel.author([{k: v for k, v in o.items() if v is not None or k in ("k", "sig", "wig", "f")} for o in ops], ctl=ctl)
    evs = [m for m, a in out if a]
    if not evs:
        return None
    pre, log = ctl.pre, ctl.model.logs[ctl.pre]
    model = kel.Model()
    labels, waits = set(), []
    knas, ksns, kdts = {}, {}, {}
    watchers = [kel.qkey(920000 + n, False) for n in c["watch"]]
    with kel.Val(lax=c["lax"]) as val:
        val.kvy.lax = c["lax"]
        db = val.db
        if watchers:
            db.habs.pin(keys=(kel.qkey(1, True),), val=HabitatRecord(hid=kel.qkey(1, True), name="x", watchers=watchers))

        def ready(x):
            return int(x["est"].sad["s"], 16) in model.logs.get(pre, kel.Log()).at if x["est"] is not None else True

        def met(x):
            if x["f"] in ("forged", "other", "unsigned"):
                return False
            return x["f"] != "part"

        def judge(x):
            """keep, drop or wait"""
            d = x["data"]
            if x["alter"] == "extra" or not c["lax"] and x["aid"] != pre and x["aid"] not in d["b"] and x["aid"] not in watchers:
                return "drop"
            cur = model.state.get(pre)
            if cur and int(d["s"], 16) < cur["sn"]:
                return "drop"
            if x["est"] is not None:
                if not ready(x):
                    return "wait" if x["f"] != "unsigned" else "drop"
                at = model.logs[pre].at[int(x["est"].sad["s"], 16)][-1]
                if at != x["est"].sad["d"] or x["f"] == "estdig":
                    return "drop"
                if not met(x):
                    return "wait" if x["f"] == "part" else "drop"
            elif not met(x):
                return "drop"
            at = model.logs[pre].at.get(int(d["s"], 16)) if pre in model.logs else None
            return "keep" if at is None or at[-1] == d["d"] else "drop"

        def keep(x):
            d = x["data"]
            knas[(pre, x["aid"])] = d["d"]
            ksns[d["d"]] = d
            kdts.setdefault(d["d"], d["dt"])
            labels.add("kept-" + x["who"])

        def check(what, kept):
            got = [x["ksn"]["d"] for x in val.kvy.cues if x["kin"] == "keyStateSaved"]
            val.kvy.cues.clear()
            vf.same(sorted(got), sorted(x["data"]["d"] for x in kept), f"{what}: notices kept just now")
            vf.same({k: v.qb64 for k, v in db.knas.getTopItemIter()}, knas, f"{what}: notice in force by source")
            vf.same({k[0]: {n: v for n, v in val_._asdict().items()} for k, val_ in db.ksns.getTopItemIter()}, ksns, f"{what}: notices kept")
            vf.same({k[0]: v.dts for k, v in db.kdts.getTopItemIter()}, kdts, f"{what}: dates of notices")

        def give(x, n):
            what = f"notice {n} ({x['who']} of {x['data'].get('s')} alter={x['alter']} f={x['f']})"
            val.give(x["ims"])
            j = "drop" if x["f"] == "said" else judge(x)
            labels.add(j)
            if j == "keep":
                keep(x)
            elif j == "wait":
                waits.append(x)
            check(what, [x] if j == "keep" else [])

        made = []
        for n, q in enumerate(c["notes"]):
            m = evs[q["event"] % len(evs)]
            s = log.states[m.sad["d"]]
            d = dict(vn=[1, 0], i=pre, s=f"{s['sn']:x}", p=s["p"], d=s["d"], f=f"{s['fn']:x}", dt=e10.stamp(n, 0), et=s["t"], kt=s["kt"], k=s["k"], nt=s["nt"], n=s["n"], bt=f"{s['bt']:x}",
                     b=s["b"], c=s["c"], ee=dict(s=f"{s['es']:x}", d=s["ed"], br=s["br"], ba=s["ba"]), di="")
            if q["alter"] == "digest":
                d["d"] = kel.qdig("nowhere")
            elif q["alter"] == "keys":
                d["k"] = [kel.qkey(4242)]
            elif q["alter"] == "extra":
                d["extra"] = 1
            elif q["alter"] == "sn":
                d["s"] = f"{s['sn'] + 1:x}"
            elif q["alter"] == "wits":
                d["b"] = []
            est, k = None, None
            if q["who"] == "self":
                ests = [e for e in evs if e.sad["t"] != "ixn"]
                est = ests[q["est"] % len(ests)]
                aid = pre
            elif q["who"] == "wit":
                if not s["b"]:
                    continue
                aid = s["b"][q["n"] % len(s["b"])]
                k = ctl.nums[aid]
            else:
                k = (920000 if q["who"] == "watcher" else 925000) + q["n"]
                aid = kel.qkey(k, q["who"] == "trans")
            raw, sad = kel.build(dict(t="rpy", d="", dt=e10.stamp(n, 0), r=f"/ksn/{aid}", a=d), q["kind"])
            f = q["f"]
            if est is not None:
                nums = [ctl.nums[x] for x in est.sad["k"]]
                sigs = [kel.Sig(x + (500000 if f == "other" else 0), i, i, bad=f == "forged") for i, x in enumerate(nums)]
                if f == "part":
                    if kel.met(est.sad["kt"], [0]):
                        f = None
                    sigs = sigs[:1]
                atc = b"" if f == "unsigned" else e10.group(pre, int(est.sad["s"], 16), kel.qdig("?") if f == "estdig" else est.sad["d"], sigs, raw)
            else:
                if f in ("part", "estdig"):
                    f = None
                atc = b"" if f == "unsigned" else e10.cig(k + (7 if f == "other" else 0), raw, f == "forged", q["who"] == "trans")
                if q["who"] == "trans":
                    f = "unsigned"
            if f == "said":
                raw = raw.replace(d["d"].encode(), kel.qdig("changed").encode())
            if f == "unsigned" and q["who"] == "trans":
                f = "other"
            made.append(dict(q, f=f, aid=aid, est=est, data=d, ims=e10.frame(raw, atc), said=sad["d"]))
        for i, m in enumerate(evs):
            for n, x in enumerate(made):
                if x["at"] == i:
                    give(x, n)
            val.give(m.stream())
            model.accept(m)
            val.kvy.cues.clear()
            kept = []
            for x in sorted(waits, key=lambda x: x["aid"]):  # as looked at again: by route, then as they came
                j = judge(x)
                if j != "wait":
                    waits.remove(x)
                if j == "keep":
                    keep(x)
                    kept.append(x)
                    labels.add("kept-late")
            val.rvy.processEscrowReply()
            check(f"after event {i}", kept)
        for n, x in enumerate(made):
            if x["at"] >= len(evs):
                give(x, n)
    return labels - {"drop", "wait"} or None
