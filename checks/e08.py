"""E08: receipts are recorded exactly when they verify, with the event they are of."""
from hypothesis import strategies as st
import vf
from . import kel

RULE = ("an identifier whose witnesses change, receipted by present, former and future witnesses, by strangers and by transferable "
        "identifiers which themselves rotate, as indexed signatures, couples, groups, separate or attached to a repeated event, genuine or "
        "forged, with wrong indices, events, keys or establishment references, given before or after the events concerned. The recorded "
        "witness signatures and receipts against the genuine ones given. Non-trivial: all scenarios in which a receipt was recorded.")
ASSUMPTIONS = ["Ed25519 and BLAKE3 stand-ins compute the published algorithms"]
LEGS = []
B = dict(op="rot", k=None, nn=1, kt=(0, 0), nt=(0, 0), cut=[], add=[], bt=0, back=0, then=False, a=[], sig=None, wig=None, f=None)
FAULT = vf.weighted((6, st.none()), (1, st.sampled_from(["forged", "index", "event", "key", "est", "said"])))
RCT = st.fixed_dictionaries(dict(n=st.integers(0, 8), how=st.sampled_from(["wig", "couple", "couple", "group", "group", "quad", "attached", "attquad"]),
                                 by=st.integers(0, 8), est=st.integers(0, 3), f=FAULT))


@st.composite
def scenes(draw):
    ops = draw(st.lists(vf.weighted((2, kel.GOODROT.map(lambda o: dict(o, k=None, nn=1, a=[], add=o["add"][:2]))), (2, kel.GOODIXN)), min_size=1, max_size=4))
    return dict(icp=dict(draw(kel.GOODICP), nk=1, nn=1, basic=draw(st.booleans()), nontrans=False, c=[], wits=draw(st.lists(st.integers(0, 5), max_size=4, unique=True)), kt=(0, 0)),
                ops=ops, watch=draw(st.lists(st.lists(st.sampled_from(["rot", "ixn"]), max_size=3), min_size=1, max_size=2)), nk=draw(st.integers(1, 2)),
                rcts=draw(st.lists(RCT, min_size=1, max_size=10)), late=draw(st.booleans()), order=draw(st.lists(st.integers(0, 60), max_size=16)),
                esc=draw(st.integers(0, 3)))


@vf.leg(LEGS, scenes(), quick=2500, thorough=80000)
def recorded(c):
    out, model, ctl = kel.author([c["icp"]] + c["ops"])
    msgs = [m for m, acc in out if acc]
    pre = ctl.pre
    log = model.logs[pre]
    watchers = []
    for w, ops in enumerate(c["watch"]):
        wm = kel.Model()
        wc = kel.Ctl(wm, 5000 + 100 * w)
        wout, _, _ = kel.author([dict(B, op="icp", nk=c["nk"], nn=c["nk"], wits=[], c=[])] + [dict(B, op=o, nn=c["nk"]) for o in ops], ctl=wc)
        watchers.append((wc, [m for m, a in wout]))
    want = {m.sad["d"]: (set(), set(), set()) for m in msgs}     # witness indices, couples, groups
    for m in msgs:     # some witness signatures come with the event: enough
        n = int(log.states[m.sad["d"]]["bt"])
        m.wigs = m.wigs[:n]
        want[m.sad["d"]][0].update(w.index for w in m.wigs)
    bits = [("e", m.stream()) for m in msgs] + [("w", m.stream()) for wc, ms in watchers for m in ms]
    after = []
    for r in c["rcts"]:
        m = msgs[r["n"] % len(msgs)]
        d, sn = m.sad["d"], int(m.sad["s"], 16)
        wits = log.wits_at[d]
        k = 900000 + r["by"]
        q = kel.qkey(k, False)
        f = r["f"]
        raw = msgs[(r["n"] + 1) % len(msgs)].raw if f == "event" and len(msgs) > 1 else m.raw
        bad = f == "forged" or f == "event" and len(msgs) > 1
        wi, co, gr = want[d]
        how = r["how"]
        if how == "wig":
            i = wits.index(q) if q in wits else r["by"]
            if f == "index":
                i += 1
            s = kel.Sig(k, i, i, bad=f == "forged")
            bits.append(("r", kel.rct(pre, sn, kel.qdig("?") if f == "said" else d, raw, wigs=[s])))
            if not bad and f != "said" and i < len(wits) and wits[i] == q:
                wi.add(i)
        elif how in ("couple", "attached"):
            trans = f == "key"
            if how == "couple":
                bits.append(("r", kel.rct(pre, sn, kel.qdig("?") if f == "said" else d, raw, couples=[(k, f == "forged", trans)])))
            else:
                a = kel.couple(k, raw, f == "forged", trans).encode()
                after.append(kel.Msg(m.raw, m.sad, m.sigs, m.wigs, extra=kel.ctr("C", 1).encode() + a).stream())
            if not bad and not trans and (f != "said" or how == "attached"):
                if q in wits:
                    wi.add(wits.index(q))
                else:
                    co.add(q)
        else:
            wc, ms = watchers[r["by"] % len(watchers)]
            e = ms[r["est"] % len(ms)]
            est = e.sad["t"] != "ixn"
            keys = e.sad.get("k") or wc.model.logs[wc.pre].states[e.sad["d"]]["k"]
            nums = [wc.nums[x] for x in keys]
            if f == "key":
                nums = [x + 50 for x in nums]
            sigs = [kel.Sig(x, i + (9 if f == "index" else 0), i + (9 if f == "index" else 0), bad=f == "forged") for i, x in enumerate(nums)]
            ed = kel.qdig("?") if f == "est" else e.sad["d"]
            es = int(e.sad["s"], 16)
            said = kel.qdig("?") if f == "said" and how != "attquad" else d
            good = not bad and est and f not in ("key", "index", "est") and (f != "said" or how == "attquad")
            g = wc.pre + kel.num(es) + ed + kel.ctr("A", len(sigs)) + "".join(s.text(raw) for s in sigs)
            if how == "group":
                g = kel.ctr("F", 1) + g
            else:
                g = kel.ctr("D", len(g) // 4) + g
            if how == "attquad":
                after.append(kel.Msg(m.raw, m.sad, m.sigs, m.wigs, extra=g.encode()).stream())
            else:
                body, _ = kel.build(dict(t="rct", d=said, i=pre, s=f"{sn:x}"), said=())
                n = len(g) // 4
                bits.append(("r", body + f"-V{kel.cesr.b64(n, 2)}{g}".encode()))
            if good:
                gr.update((wc.pre, es, ed, i) for i in range(len(sigs)))
    if not c["late"]:
        for k, x in enumerate(c["order"]):
            i, j = k % len(bits), x % len(bits)
            bits[i], bits[j] = bits[j], bits[i]
    with kel.Val() as val:
        for n, (_, b) in enumerate(bits):
            val.give(b)
            if c["esc"] and n % c["esc"] == 0:
                val.escrows(1)
        val.escrows(len(msgs) + 4)
        for b in after:
            val.give(b)
        val.escrows(2)
        kel.compare(val, model, pre, "at the end")
        some = set()
        for m in msgs:
            d = m.sad["d"]
            wi, co, gr = want[d]
            vf.same({s.index for s in val.db.wigs.get(keys=(pre, d))}, wi, f"witness signatures of {m.sad['t']} sn={m.sad['s']}")
            vf.same({v.qb64 for v, _ in val.db.rcts.get(keys=(pre, d))}, co, f"receipts by others of {m.sad['t']} sn={m.sad['s']}")
            got = {(k[2], int(k[3], 16), k[4], s.index) for k, s in val.db.vrcs.getTopItemIter(keys=(pre, d))}
            vf.same(got, gr, f"transferable receipts of {m.sad['t']} sn={m.sad['s']}")
            if len(wi) > len(m.wigs):
                some.add("witness")
            some |= {x for x, s in (("couple", co), ("group", gr)) if s}
        for wc, ms in watchers:
            kel.compare(val, wc.model, wc.pre, "receipter")
    return some or None


@st.composite
def displacing(draw):
    return dict(fill=draw(st.integers(0, 2)), wits=draw(st.lists(st.integers(0, 3), max_size=2, unique=True)), to=draw(st.sampled_from(["old", "new", "rival"])),
                how=draw(st.sampled_from(["group", "quad", "couple", "wig"])), by=draw(st.integers(0, 4)), when=draw(st.sampled_from(["before", "after"])),
                esc=draw(st.booleans()))


@vf.leg(LEGS, displacing(), quick=500, thorough=10000)
def displaced(c):
    """receipts of a displaced interaction, of the rotation which displaced it, and of a refused rival of it"""
    model = kel.Model()
    ctl = kel.Ctl(model, 0)
    wc = kel.Ctl(kel.Model(), 5000)
    w0 = wc.incept(dict(B, op="icp", nk=1, wits=[], c=[]))
    wc.model.accept(w0)
    wc.pre = w0.sad["i"]
    ms = [ctl.incept(dict(B, op="icp", nk=1, wits=c["wits"], c=[], bt=9))]
    model.accept(ms[0])
    pre = ctl.pre = ms[0].sad["i"]
    for _ in range(c["fill"]):
        ms.append(ctl.interact(B))
        model.accept(ms[-1])
    old = ctl.interact(dict(B, a=[dict(d="old")]))
    rival = ctl.interact(dict(B, a=[dict(d="rival")]))
    model.accept(old)
    new = ctl.rotate(dict(B, back=1, bt=9))
    vf.check(model.judge(new), "generator: recovery not acceptable")
    m = dict(old=old, new=new, rival=rival)[c["to"]]
    sn, d = int(m.sad["s"], 16), m.sad["d"]
    wits = model.state[pre]["b"]
    k = 900000 + c["by"]
    q = kel.qkey(k, False)
    i = wits.index(q) if q in wits else 0
    sig = kel.Sig(wc.nums[w0.sad["k"][0]], 0, 0)
    if c["how"] == "quad":
        g = wc.pre + kel.num(0) + w0.sad["d"] + kel.ctr("A", 1) + sig.text(m.raw)
        g = kel.ctr("D", len(g) // 4) + g
        body, _ = kel.build(dict(t="rct", d=d, i=pre, s=f"{sn:x}"), said=())
        r = body + f"-V{kel.cesr.b64(len(g) // 4, 2)}{g}".encode()
    else:
        r = kel.rct(pre, sn, d, m.raw, **dict(group=dict(groups=[(wc.pre, 0, w0.sad["d"], [sig])]), couple=dict(couples=[(k, False, False)]),
                                              wig=dict(wigs=[kel.Sig(k, i, i)]))[c["how"]])
    with kel.Val() as val:
        for x in [w0] + ms + [old, rival]:
            val.give(x.stream())
        if c["when"] == "before":
            val.give(r)
            val.escrows(2 if c["esc"] else 0)
        model.accept(new)
        val.give(new.stream())
        kel.compare(val, model, pre, "after recovery")
        val.give(r)
        val.escrows(2)
        for x in ms + [old, new]:
            e = x.sad["d"]
            got = {kk[4] for kk, s in val.db.vrcs.getTopItemIter(keys=(pre, e))}, {v.qb64 for v, _ in val.db.rcts.get(keys=(pre, e))}
            if e == d:
                if x is new:
                    vf.same(got, ({w0.sad["d"]} if c["how"] in ("group", "quad") else set(), {q} if c["how"] == "couple" and q not in wits else set()),
                            f"receipts of {x.sad['t']} sn={x.sad['s']}")
                continue
            vf.same(got, (set(), set()), f"receipts of {x.sad['t']} sn={x.sad['s']}, none given")
            vf.same({s.index for s in val.db.wigs.get(keys=(pre, e))}, {s.index for s in x.wigs}, "witness signatures")
    return c["to"] + c["how"]
