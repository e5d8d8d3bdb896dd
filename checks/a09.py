"""A09: what is looked up about an identifier's endpoints, or told to others, is exactly what stands authorised."""
import datetime
from hypothesis import strategies as st
import vf
from . import env

RULE = ("histories in which controllers with and without witnesses authorise and cut endpoint providers in several roles, providers (transferable or not) "
        "announce, change and withdraw locations of several schemes, and witnesses rotate, told in order to a third party; then look-ups by role, scheme "
        "and provider, answers to others who start with nothing; and OOBIs asked of a node about own, "
        "witnessed and other identifiers, with receipts missing, delegators unknown. Non-trivial: cases with a cut or withdrawn entry among standing ones, an answer "
        "filtered to a proper part, or OOBIs answered in two ways.")
ASSUMPTIONS = ["Ed25519 and BLAKE3 stand-ins compute the published algorithms"]
LEGS = []
ROLES = ["controller", "mailbox", "agent", "watcher", "indexer", "registrar"]
SCHEMES = ["http", "https", "tcp"]
OPS = vf.weighted(
    (4, st.tuples(st.just("role"), st.integers(0, 1), st.integers(0, 5), st.integers(0, 3), vf.weighted((3, st.just(True)), (1, st.just(False))))),
    (4, st.tuples(st.just("loc"), st.integers(0, 3), st.integers(0, 2), vf.weighted((4, st.integers(1, 3)), (1, st.just(0))))),
    (1, st.tuples(st.just("rot"), st.integers(0, 1), st.integers(0, 3))))
ASK = st.tuples(st.integers(0, 1), st.sampled_from([None, "witness", "controller", "mailbox", "agent", "watcher"]), st.sampled_from(["", "http", "https", "tcp"]),
                vf.weighted((2, st.just([])), (1, st.lists(st.integers(0, 3), min_size=1, max_size=2, unique=True))))
CASE = st.fixed_dictionaries(dict(v=st.sampled_from([1, 2]), wits=st.tuples(st.integers(0, 2), st.integers(0, 1)), by=st.integers(0, 2),
                                  ops=st.lists(OPS, min_size=3, max_size=14), asks=st.lists(ASK, min_size=2, max_size=4)))


def plain(m):
    """a nested Mict as plain values"""
    return {k: sorted(v for v in m.nabone(k)) for k in m.keys()} if m else {}


@vf.leg(LEGS, CASE, quick=250, thorough=8000)
def endpoints(c):
    labels = set()
    base = datetime.datetime(2030, 1, 1, tzinfo=datetime.timezone.utc)
    n = [0]

    def stamp():
        n[0] += 1
        return (base + datetime.timedelta(seconds=n[0])).isoformat(timespec="microseconds")
    with env.place() as make:
        C, A = make("c", v=c["v"]), make("a", v=c["v"], salt=b"1123456789abcdef")
        kw, kg = dict(version=C.v), dict(version=C.v, gvrsn=C.v)
        habs = [C.hby.makeHab(f"e{i}", transferable=i == 3, **kw) for i in range(4)]
        eids = [h.pre for h in habs]
        asker = A.hby.makeHab("a", **kw)
        ctls, wits = [], []
        for i in range(2):
            w = eids[:c["wits"][i]]
            h = C.hby.makeHab(f"c{i}", wits=w, toad=len(w), **kw)
            ctls.append(h)
            wits.append(list(w))
            if w:
                ev = h.msgOwnInception(allowPartiallySigned=True, gvrsn=C.v)
                witness(C, habs, w, ev, kg)
            vf.check(h.pre in C.hby.kevers, "a fully witnessed inception is not accepted")
        told = {h.pre: 0 for h in ctls}

        def tell():
            for h in ctls:
                for m in list(C.db.clonePreIter(pre=h.pre, fn=told[h.pre], version=C.v)):
                    A.give(m)
                    told[h.pre] += 1
        tell()
        A.give(C.log(eids[3]))
        roles, locs = {}, {}
        for op in c["ops"]:
            if op[0] == "role":
                _, k, r, e, allow = op
                A.give(ctls[k].makeEndRole(eid=eids[e], role=ROLES[r], allow=allow, stamp=stamp(), **kg))
                roles[ctls[k].pre, ROLES[r], eids[e]] = allow
            elif op[0] == "loc":
                _, e, s, u = op
                url = f"{SCHEMES[s]}://127.0.0.1:{5000 + 10 * e + u}/" if u else ""
                A.give(habs[e].makeLocScheme(url=url, scheme=SCHEMES[s], stamp=stamp(), **kg))
                locs[eids[e], SCHEMES[s]] = url
            else:
                _, k, e = op
                e %= 3
                h = ctls[k]
                cuts = [eids[e]] if eids[e] in wits[k] else []
                adds = [] if cuts else [eids[e]]
                new = [w for w in wits[k] if w not in cuts] + adds
                msg = h.rotate(cuts=cuts, adds=adds, toad=len(new), **kg)
                witness(C, habs, new, msg, kg)
                wits[k] = new
                vf.same(list(h.kever.wits), new, "witnesses after rotating")
                tell()
        vf.same([list(A.hby.kevers[h.pre].wits) for h in ctls], wits, "witnesses known to another")
        if not all(roles.values()) or not all(locs.values()):
            labels.add("cut")
        urls = lambda e, s="": {k: v for (x, k), v in locs.items() if x == e and v and s in ("", k)}

        def standing(cid):
            out = {}
            for (x, r, e), ok in roles.items():
                if x == cid and ok:
                    out.setdefault(r, []).append(e)
            return out
        for h, w in zip(ctls, wits):
            want = {r: {e: urls(e) for e in es} for r, es in standing(h.pre).items()}
            if w:
                want["witness"] = {e: urls(e) for e in w}
            vf.same({r: {e: dict(u) for e, u in es.items()} for r, es in asker.endsFor(h.pre).items()}, want, "endpoints of a controller")
            for r in ROLES:
                for e in eids:
                    ok = roles.get((h.pre, r, e))
                    vf.same([asker.fetchEndAllowed(h.pre, r, e), bool(asker.fetchEndAuthzed(h.pre, r, e))], [ok, bool(ok)], f"standing of a {r}")
        for e in eids:
            for s in SCHEMES:
                vf.same(asker.fetchUrl(e, s), locs.get((e, s)), f"the {s} location of a provider")
                vf.same(dict(asker.fetchUrls(e, s).firsts()), urls(e, s), f"the {s} locations of a provider")
            vf.same(dict(asker.fetchUrls(e).firsts()), urls(e), "locations of a provider")
        # and what others are told
        who = [asker, ctls[0], habs[0]][c["by"]]
        E = [A, C, C][c["by"]]
        if E is C:      # these know what the third party knows
            for m in (asker.loadLocScheme(e, gvrsn=C.v) for e in eids):
                C.give(m)
            for (cid, r, e), ok in sorted(roles.items()):
                if ok:
                    C.give(asker.loadEndRole(cid, e, r, gvrsn=C.v), local=True)
        for k, (i, role, scheme, es) in enumerate(c["asks"]):
            cid, some = ctls[i].pre, [eids[e] for e in es]
            sel = lambda e: not some or e in some
            if E is A:
                want = []
                if role == "witness":
                    want += [("witness", e, s, u) for e in wits[i] if sel(e) for s, u in urls(e, scheme).items()]
                want += [(r, e, s, u) for r, xs in standing(cid).items() if role in (None, r) for e in xs if sel(e) for s, u in urls(e, scheme).items()]
                got = who.fetchRoleUrls(cid, role=role or "", scheme=scheme, eids=some)
                flat = [(r, e, s, u) for r, es_ in got.items() for e, us in es_.items() for s, u in us.items()]
                vf.same(sorted(flat), sorted(want), f"locations by role {role}, scheme {scheme!r} and providers {es}")
            msgs = who.replyEndRole(cid, role=role, eids=some, scheme=scheme, **kg)
            B = make(f"b{k}", v=c["v"], salt=b"2123456789abcdef")
            B.give(C.log(eids[3]))
            B.give(msgs)
            vf.check(cid in B.hby.kevers and B.hby.kevers[cid].sn == ctls[i].kever.sn, "an answer about endpoints does not carry the controller's log")
            ends = {r: xs for r, xs in standing(cid).items() if role in (None, r)}
            want = sorted((cid, r, e) for r, xs in ends.items() for e in xs if sel(e))
            if role == "witness" and who.pre == cid:
                want = sorted(want + [(cid, "witness", e) for e in wits[i] if sel(e)])
            got = sorted(k for k, v in B.db.ends.getTopItemIter() if v.allowed)
            vf.same(got, want, f"roles told about {role} {es}")
            want_e = {e for _, r, e in want} | ({e for e in wits[i] if sel(e)} if role == "witness" else set())
            got = {k: v.url for k, v in B.db.locs.getTopItemIter() if v.url}
            vf.same(got, {(e, s): u for e in want_e for s, u in urls(e, scheme).items()}, f"locations told about {role} {scheme!r} {es}")
            if 0 < len(want) < sum(map(len, standing(cid).values())):
                labels.add("part")
    return sorted(labels) or None


EVS = st.lists(st.tuples(st.sampled_from(["ixn", "ixn", "rot"]), st.sampled_from([3, 3, 2, 1, 0])), max_size=3)
SERVE = st.fixed_dictionaries(dict(
    v=st.sampled_from([1, 2]), wits=st.tuples(st.sampled_from([3, 3, 3, 1, 2, 0]), st.integers(0, 2)), first=st.sampled_from([3, 3, 2, 1, 0]), more=EVS, kind=st.sampled_from(["plain", "plain", "del"]), knows=st.sampled_from([True, True, False]),
    own=st.booleans(), roles=st.lists(st.tuples(st.integers(0, 2), st.integers(0, 2), st.integers(0, 1), vf.weighted((3, st.just(True)), (1, st.just(False)))), min_size=1, max_size=7),
    locs=st.lists(st.tuples(st.integers(0, 1), st.integers(0, 2), vf.weighted((4, st.integers(1, 3)), (1, st.just(0)))), min_size=1, max_size=5), default=st.integers(0, 3), flip=st.booleans(),
    asks=st.lists(st.tuples(vf.weighted((4, st.just(2)), (2, st.just(1)), (1, st.integers(0, 5))), st.sampled_from([None, "witness", "controller", "mailbox", "agent"]), st.sampled_from([None, None, 0, 1])), min_size=2, max_size=5)))
SROLES = ["controller", "mailbox", "agent"]


class Reply:
    def __init__(self):
        self.status, self.data, self.text, self.content_type, self.headers = None, None, None, None, {}

    def set_header(self, k, v):
        self.headers[k.lower()] = v


@vf.leg(LEGS, SERVE, quick=240, thorough=6000)
def served(c):
    """a node answers an OOBI asked of it exactly for its own identifiers and those it witnesses, once fully witnessed"""
    from keri.core import SerderKERI, eventing
    from keri.end.ending import OOBIEnd
    labels = set()
    base = datetime.datetime(2030, 1, 1, tzinfo=datetime.timezone.utc)
    n = [0]

    def stamp():
        n[0] += 1
        return (base + datetime.timedelta(seconds=n[0])).isoformat(timespec="microseconds")
    with env.place() as make:
        C, W = make("c", v=c["v"]), make("w", v=c["v"], salt=b"1123456789abcdef")
        kw, kg = dict(version=C.v), dict(version=C.v, gvrsn=C.v)
        w, x = W.hby.makeHab("w", transferable=False, **kw), C.hby.makeHab("x", transferable=False, **kw)
        both = [w, x]
        d = C.hby.makeHab("d", **kw)
        o = W.hby.makeHab("o", **kw)
        p = W.hby.makeHab("p", wits=[x.pre], toad=1, **kw)
        u = C.hby.makeHab("u", **kw)

        def receipts(ser, wits, mask, to):
            for k, h in enumerate(both):
                if mask >> k & 1 and h.pre in wits:
                    ws = h.mgr.sign(ser=ser.raw, pubs=[h.pre], indices=[wits.index(h.pre)])
                    rct = eventing.receipt(pre=ser.pre, sn=ser.sn, said=ser.said, kind="JSON", version=kw["version"])
                    for e in to:
                        e.give(eventing.messagize(rct, wigers=ws, gvrsn=kg["gvrsn"]), local=True)
        if c["own"]:
            receipts(p.kever.serder if p.pre in W.hby.kevers else SerderKERI(raw=bytes(p.msgOwnInception(allowPartiallySigned=True, gvrsn=C.v))), [x.pre], 2, [W])
            W.settle()
        wits = [h.pre for k, h in enumerate(both) if c["wits"][0] >> k & 1][::-1 if c["flip"] else 1]
        toad = min(max(c["wits"][1], 1), len(wits))
        if c["knows"]:
            W.give(C.log(d.pre))
        W.give(C.log(u.pre))
        f = C.hby.makeHab("f", wits=wits, toad=toad, delpre=d.pre if c["kind"] == "del" else None, **kw)
        msg = bytes(f.msgOwnInception(allowPartiallySigned=True, gvrsn=C.v))
        full = True     # whether the latest event known to the node has receipts enough
        last, known, whole = None, True, True
        for step in [("icp", c["first"]), *c["more"]]:
            if step[0] != "icp":
                if c["kind"] == "del" and step[0] == "rot":
                    continue
                msg = bytes(f.rotate(**kg) if step[0] == "rot" else f.interact(data=[], **kg))
            ser = SerderKERI(raw=msg)
            C.give(msg, local=True)
            receipts(ser, wits, 3, [C])
            C.settle()
            if c["kind"] == "del" and step[0] == "icp":
                d.interact(data=[dict(i=ser.pre, s=ser.snh, d=ser.said)], **kg)
                if c["knows"]:
                    W.give(C.log(d.pre))
                C.settle()
            vf.check(f.pre in C.hby.kevers and C.hby.kevers[f.pre].sn == ser.sn, "a fully witnessed event is not accepted")
            if w.pre in wits or bin(step[1] & c["wits"][0]).count("1") >= toad:
                W.give(msg, local=w.pre in wits)
                receipts(ser, wits, step[1], [W])
                W.settle()
                if f.pre not in W.hby.kevers or W.hby.kevers[f.pre].sn != ser.sn:
                    vf.check(w.pre not in wits, "a witness does not accept an event")
                    known = False
                    break
                last, full = ser, bin(step[1] & c["wits"][0]).count("1") >= toad
                whole = whole and full
            else:
                known = False
                break
        pres = [o.pre, p.pre, f.pre, u.pre, x.pre, "EAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAA"]
        roles, locs = {}, {}
        for e, s, k in c["locs"]:
            url = f"{SCHEMES[s]}://127.0.0.1:{5000 + 10 * e + k}/" if k else ""
            W.give(both[e].makeLocScheme(url=url, scheme=SCHEMES[s], stamp=stamp(), **kg), local=e == 0)
            locs[both[e].pre, SCHEMES[s]] = url
        for k, r, e, allow in c["roles"]:
            h = [o, p, f][k]
            if h.pre not in W.hby.kevers or (h is f and not known):
                continue
            W.give(h.makeEndRole(eid=both[e].pre, role=SROLES[r], allow=allow, stamp=stamp(), **kg), local=h is not f)
            roles[h.pre, SROLES[r], both[e].pre] = allow
        default = [None, o.pre, f.pre, p.pre][c["default"]]
        end = OOBIEnd(hby=W.hby, default=default)
        urls = lambda e: {s: v for (y, s), v in locs.items() if y == e and v}
        for j, (i, role, eid) in enumerate(c["asks"] + [(None, None, None)]):
            aid = pres[i] if i is not None else None
            ek = {} if eid is None else dict(eid=both[eid].pre)
            rep = Reply()
            end.on_get(None, rep, **({} if aid is None else dict(aid=aid)), **({} if role is None else dict(role=role)), **ek)
            aid = aid or default
            there = aid in (o.pre, w.pre) or aid == p.pre and c["own"] or aid == u.pre or aid == f.pre and last is not None
            if aid in (x.pre, pres[5]) or not there:
                want = 404
            elif aid == f.pre:
                want = 404 if not full or c["kind"] == "del" and not c["knows"] else 200 if w.pre in wits else 406
            else:
                want = 406 if aid == u.pre else 200
            vf.same(int(str(rep.status)[:3]), want, f"status of the answer to an OOBI ({'fd' if aid == f.pre else 'other'}, role {role})")
            labels.add(str(want))
            if want != 200:
                vf.check(not rep.data, "an OOBI not to be answered is answered")
                continue
            vf.same([rep.content_type, rep.headers.get("keri-aid")], ["application/cesr", aid], "headers of the answer")
            who = o.pre if aid == o.pre else p.pre if aid == p.pre else w.pre
            B = make(f"b{j}", v=c["v"], salt=b"2123456789abcdef")
            if aid == f.pre and not whole:
                continue        # of an earlier event receipts are missing, and so in what is told
            if c["kind"] == "del" and aid == f.pre:
                at = [bytes(rep.data).find(bytes(W.hby.db.evts.get(keys=(q, g)).raw)) for q in (d.pre, f.pre) for g in W.hby.db.kels.get(keys=q, on=0)]
                vf.check(min(at) >= 0 and at == sorted(at), "an answer about a delegated identifier does not carry its delegator's log first")
                labels.add("delegated")
                continue
            B.give(bytes(rep.data))
            for _ in range(2):
                B.settle()
            vf.check(aid in B.hby.kevers and B.hby.kevers[aid].serder.said == W.hby.kevers[aid].serder.said, "an answer to an OOBI does not carry the log of its identifier")
            sel = lambda e: eid is None or e == both[eid].pre
            want = sorted((aid, r, e) for (y, r, e), ok in roles.items() if y == aid and ok and role in (None, r) and sel(e))
            aw = list(W.hby.kevers[aid].wits)
            if role == "witness" and who == aid:
                want = sorted(want + [(aid, "witness", e) for e in aw if sel(e)])
            got = sorted(k for k, v in B.db.ends.getTopItemIter() if v.allowed)
            vf.same(got, want, f"roles told in answer to an OOBI of role {role}")
            es = {e for _, _, e in want} | ({e for e in aw if sel(e)} if role == "witness" else set())
            vf.same({k: v.url for k, v in B.db.locs.getTopItemIter() if v.url}, {(e, s): y for e in es for s, y in urls(e).items()}, f"locations told in answer to an OOBI of role {role}")
            if es:
                labels.add("told")
    return sorted(labels) if len(labels) > 1 else None


def witness(C, habs, w, ev, kg):
    """lets the witnesses receipt the controller's own event"""
    from keri.core import SerderKERI
    ser = SerderKERI(raw=bytes(ev))
    C.give(ev, local=True)
    for h in habs:
        if h.pre in w:
            keys = (ser.pre, ser.said)
            ws = h.mgr.sign(ser=ser.raw, pubs=[h.pre], indices=[w.index(h.pre)])
            from keri.core import eventing
            rct = eventing.receipt(pre=ser.pre, sn=ser.sn, said=ser.said, kind="JSON", version=kg["version"])
            C.give(eventing.messagize(rct, wigers=ws, gvrsn=kg["gvrsn"]), local=True)
    C.settle()
