"""A08: a mailbox hands its owner every message put in it, whole and in order, wherever the reading stops and starts again."""
import datetime, shutil, tempfile
from hypothesis import strategies as st
import vf

RULE = ("mailboxes with several owners and topics (some names beginning others), text and binary messages, repeated ones, entries taken out, crashes while "
        "storing, reopening, and readers which poll, break off and resume; and whole deliveries in which a sender forwards signed messages to a recipient "
        "through mailboxes, witnesses or directly, forwards altered, unsigned or lost, and the recipient polls its mailbox over several sessions. "
        "Non-trivial: cases in which a reader resumed past the start, or a crash or removal left a gap, or messages of several topics came through.")
ASSUMPTIONS = ["Ed25519, BLAKE3 and HTTP carrying are stand-ins; the HTTP exchange itself is replaced by handing over the bytes"]
LEGS = []
TOPICS = ["/receipt", "/credential", "/credential2", "/challenge", "/replay/more", "/replay"]
OWNERS = ["BKxy123_-abcdefghijklmnopqrstuvwxyz0123456789", "EKxy123_-abcdefghijklmnopqrstuvwxyz012345678"]
BODY = vf.weighted((3, st.text("ab{}\":é ", max_size=8)), (1, st.binary(max_size=6)))
W = st.tuples(st.integers(0, 1), st.integers(0, len(TOPICS) - 1))
OP = vf.weighted(
    (6, st.tuples(st.just("put"), W, BODY)),
    (1, st.tuples(st.just("crash"), W, BODY, st.integers(0, 3))),
    (1, st.tuples(st.just("take"), W, st.integers(0, 5))),
    (2, st.tuples(st.just("read"), W, st.integers(0, 6))),
    (4, st.tuples(st.just("poll"), st.integers(0, 2))),
    (2, st.tuples(st.just("session"), st.integers(0, 2))),
    (1, st.tuples(st.just("open"))))


def events(data):
    """the events of a text/event-stream body: (id, event, data)"""
    out = []
    for block in bytes(data).split(b"\n\n"):
        d = {}
        for line in block.split(b"\n"):
            k, _, v = line.partition(b": ")
            if k:
                d[k] = v
        if b"data" in d:
            out.append((int(d[b"id"]), d[b"event"].decode(), d[b"data"]))
    return out


@vf.leg(LEGS, st.lists(OP, min_size=3, max_size=30), quick=800, thorough=60000)
def box(ops):
    from keri.app.storing import Mailboxer
    from keri.app.indirecting import MailboxIterable
    import lmdb
    tmp = tempfile.mkdtemp(prefix="a08")
    kw = dict(name="box", headDirPath=tmp, temp=False, reopen=True)
    mbx = None
    labels = set()
    boxes = {}      # (owner, topic): [(number, message)]
    count = {}      # (owner, topic): numbers used
    readers = {}    # n: [positions, iterator]
    try:
        mbx = Mailboxer(**kw)
        for op in ops:
            kind, w = op[0], op[1] if len(op) > 1 else None
            if kind in ("put", "crash"):
                o, t = w
                msg = op[2] if isinstance(op[2], bytes) else op[2].encode()
                key = OWNERS[o] + TOPICS[t]
                give = op[2]
                if not msg:
                    continue
                if b"\n" in msg:
                    msg = give = msg.replace(b"\n", b"-")
                n = count.get(key, 0)
                if kind == "put":
                    mbx.storeMsg(topic=key if len(msg) % 2 else key.encode(), msg=give)
                else:
                    lmdb._vf_fault(op[3])
                    try:
                        mbx.storeMsg(topic=key, msg=give)
                        lmdb._vf_fault(None)
                    except lmdb._VfCrash:
                        lmdb._vf_fault(None)
                        mbx.close()
                        mbx = Mailboxer(**kw)
                        readers.clear()
                        labels.add("crash")
                        got = list(mbx.cloneTopicIter(key, 0))
                        want = [(k, key, m) for k, m in boxes.get(key, [])]
                        if len(got) == len(want):       # not stored; whether its number is used up shows with the next
                            vf.same(got, want, "messages after a crash")
                            mbx.storeMsg(topic=key, msg=give)
                            got = list(mbx.cloneTopicIter(key, 0))
                            vf.check(got[:-1] == want and len(got) == len(want) + 1 and got[-1][0] in (n, n + 1) and got[-1][2] == msg,
                                     "after a crash while storing and storing again the mailbox has %r, not %r and the message", got, want)
                            n = got[-1][0]
                        else:
                            vf.same(got, want + [(n, key, msg)], "messages after a crash")
                boxes.setdefault(key, []).append((n, msg))
                count[key] = n + 1
            elif kind == "take":
                key = OWNERS[w[0]] + TOPICS[w[1]]
                have = boxes.get(key, [])
                if len(have) > 1:       # not the newest
                    k, _ = have[op[2] % (len(have) - 1)]
                    vf.check(mbx.delTopic(key, k), "an entry of a topic is not taken out")
                    boxes[key] = [(i, m) for i, m in have if i != k]
                    labels.add("gap")
                else:
                    vf.check(not mbx.delTopic(key, count.get(key, 0)), "an entry a topic does not have is taken out")
            elif kind == "read":
                key = OWNERS[w[0]] + TOPICS[w[1]]
                want = [(k, m) for k, m in boxes.get(key, []) if k >= op[2]]
                vf.same([bytes(m) for m in mbx.getTopicMsgs(key, op[2])], [m for _, m in want], "messages of a topic")
                vf.same([(k, t, bytes(m)) for k, t, m in mbx.cloneTopicIter(key, op[2])], [(k, key, m) for k, m in want], "numbered messages of a topic")
            elif kind in ("session", "poll"):
                r = w
                own = OWNERS[r % 2]
                st_ = readers.get(r)
                if st_ is None or kind == "session":
                    pos = st_[0] if st_ else {t: 0 for t in (TOPICS if r < 2 else TOPICS[:1])}
                    it = iter(MailboxIterable(mbx=mbx, pre=own, topics=dict(pos), retry=1000))
                    vf.same(events(next(it)), [], "first of a stream")
                    readers[r] = st_ = [pos, it]
                    if st_ and any(pos.values()):
                        labels.add("resumed")
                got = []
                for _ in range(2):
                    got += events(next(st_[1]))
                want = []
                for t in st_[0]:
                    new = [(k, t, m) for k, m in boxes.get(own + t, []) if k >= st_[0][t]]
                    if new:
                        st_[0][t] = new[-1][0] + 1
                    want += new
                vf.same(got, want, "messages a poll gives")
                if len({t for _, t, _ in got}) > 1:
                    labels.add("topics")
            else:
                mbx.close()
                mbx = Mailboxer(**kw)
                readers = {r: [p, iter(MailboxIterable(mbx=mbx, pre=OWNERS[r % 2], topics=dict(p), retry=1000))] for r, (p, _) in readers.items()}
                for p, it in readers.values():
                    next(it)
    finally:
        lmdb._vf_fault(None)
        if mbx:
            mbx.close()
        shutil.rmtree(tmp, ignore_errors=True)
    return sorted(labels) or None


# -- whole deliveries --

ROLES = ["mailbox", "mailbox", "controller", "agent", "watcher"]
MSG = st.tuples(st.sampled_from(["kel", "kel", "rpy", "exn"]), st.integers(0, 3),
                vf.weighted((6, st.just("ok")), (1, st.just("lost")), (1, st.just("unsigned")), (1, st.just("forged")), (1, st.just("altered"))))
SCENE = st.fixed_dictionaries(dict(
    v=st.sampled_from([1, 2]), wits=st.integers(0, 2), roles=st.lists(st.tuples(st.integers(0, 4), st.integers(0, 2), vf.weighted((3, st.just(True)), (1, st.just(False)))), max_size=3),
    mode=vf.weighted((3, st.just("post")), (2, st.just("stream"))), steps=st.lists(vf.weighted(
        (4, st.tuples(st.just("send"), st.lists(MSG, min_size=1, max_size=3))),
        (1, st.tuples(st.just("rot"))),
        (4, st.tuples(st.just("poll"), st.integers(0, 1), st.sampled_from([5, 5, 3, 2, 1, 0]), vf.weighted((3, st.just(False)), (1, st.just(True)))))),
        min_size=3, max_size=8)))
WANTED = ["/receipt", "/replay", "/credential"]


class Carrier:
    """stands for the carrying of messages to an endpoint"""

    def __init__(self, log, pre, urls, msg=None):
        self.log, self.pre, self.urls, self.idle = log, pre, urls, True
        self.msgs = self
        if msg is not None:
            self.append(msg)

    def append(self, msg):
        self.log.append((self.pre, dict(self.urls), bytes(msg)))


class Client:
    def __init__(self):
        from hio.help import decking
        self.requests, self.events = decking.Deck(), decking.Deck()


@vf.leg(LEGS, SCENE, quick=240, thorough=5000)
def carried(c):
    from . import env
    from keri.app import forwarding, indirecting, storing
    from keri.core import SerderKERI
    from keri import kering
    labels = set()
    base = datetime.datetime(2030, 1, 1, tzinfo=datetime.timezone.utc)
    now = [base]
    sent = []
    asked = []
    carrier = lambda hab, pre, urls, msg=None, **kw: Carrier(sent, pre, urls, msg)
    client = lambda hab, wit: (clients.setdefault(wit, Client()), None)
    clients = {}
    with env.place() as make, env.patched(
            (forwarding, "messengerFrom", carrier), (forwarding, "streamMessengerFrom", carrier), (indirecting, "httpClient", client),
            (indirecting, "nowUTC", lambda: now[0]), (indirecting, "createCESRRequest", lambda msg, cl, dest=None, **kw: asked.append(bytes(msg)))):
        S, R, H = make("s", v=c["v"]), make("r", v=c["v"], salt=b"1123456789abcdef"), make("h", v=c["v"], mailbox=True, salt=b"2123456789abcdef")
        kw = dict(version=S.v)
        kg = dict(version=S.v, gvrsn=S.v)
        s = S.hby.makeHab("s", **kw)
        own = S.hby.makeHab("own", transferable=False, **kw)
        hosts = [H.hby.makeHab(f"h{i}", transferable=i == 1 and c["wits"] < 2, **kw) for i in range(2)]
        for e in (S, R):
            e.give(H.log(hosts[1].pre))
        eids = [hosts[0].pre, hosts[1].pre, own.pre]
        wits = eids[:c["wits"]]
        r = R.hby.makeHab("r", wits=wits, toad=len(wits), **kw)
        icp = r.msgOwnInception(allowPartiallySigned=True, framed=False, gvrsn=R.v)
        H.give(icp, local=True)     # as its witness
        for h in hosts[:len(wits)]:
            R.give(h.witness(SerderKERI(raw=icp), **kg))
        box_ = storing.Mailboxer(name="own", headDirPath=S.path, reopen=True)
        try:
            locs = {}
            for i, h in enumerate([*hosts, own]):
                m = h.makeLocScheme(url=f"http://127.0.0.1:{5000 + i}/", scheme="http", **kg)
                for e in (S, R):
                    e.give(m)
                locs[eids[i]] = {"http": f"http://127.0.0.1:{5000 + i}/"}
            for e in (S, H):
                e.give(R.log(r.pre))
            vf.check(r.pre in S.hby.kevers and r.pre in H.hby.kevers, "an inception is not accepted by others")
            roles = {}
            for k, (role, eid, allow) in enumerate(c["roles"]):
                role, eid = ROLES[role], eids[eid]
                t = (base + datetime.timedelta(seconds=k)).isoformat(timespec="microseconds")
                S.give(r.makeEndRole(eid=eid, role=role, allow=allow, stamp=t, **kg))
                roles[role, eid] = allow
            ends = {}
            for (role, eid), allow in sorted(roles.items()):
                if allow:
                    ends.setdefault(role, []).append(eid)
            if wits:
                ends["witness"] = wits
            vf.same({k: {e: dict(u) for e, u in v.items()} for k, v in s.endsFor(r.pre).items() if v},
                    {k: {e: locs[e] for e in v} for k, v in ends.items()}, "endpoints of the recipient")
            want = {}       # (mailbox, topic) -> messages
            readers = {}
            for step in c["steps"]:
                if step[0] == "rot":
                    s.rotate(**kg)
                elif step[0] == "send":
                    msgs = []
                    for kind, n, fate in step[1]:
                        if kind == "kel":
                            raw = bytearray(list(S.db.clonePreIter(pre=s.pre, fn=0, version=S.v))[-1])
                        elif kind == "rpy":
                            raw = bytearray(s.makeEndRole(eid=eids[n % 3], role="watcher", **kg))
                        else:
                            serder = exn(s, n, S.v)
                            raw = bytearray(s.endorse(serder, framed=bool(n % 2), gvrsn=S.v))
                        serder = SerderKERI(raw=raw)
                        msgs.append((serder, bytes(raw[serder.size:]), WANTED[n % 3], fate))
                    mixed = {"controller", "agent"} & set(ends) and "mailbox" in ends or any(own.pre in v for k, v in ends.items() if k in ("mailbox", "witness"))
                    deliver(dict(c, mode="post") if mixed else c, S, s, r, msgs, ends, locs, sent, box_, own, H, want, labels)
                else:
                    got = sorted({h for h, _ in want if h != own.pre})
                    host = got[step[1] % len(got)] if got else eids[step[1]]
                    read(R, r, H, host, step[2], step[3], now, asked, clients, readers, labels)
                for (host, topic), ms in want.items():
                    b = box_ if host == own.pre else H.mbx
                    if host == own.pre:
                        vf.same([bytes(m) for m in b.getTopicMsgs(r.pre + topic)], ms, f"messages in the mailbox for {topic}")
                for topic in WANTED:
                    ms = [m for (host, t), l in want.items() if t == topic and host != own.pre for m in l]
                    stored = [bytes(m) for m in H.mbx.getTopicMsgs(r.pre + topic)]
                    vf.same(sorted(stored), sorted(ms), f"messages in the mailbox for {topic}")
            for host in sorted({h for h, _ in want if h != own.pre}):
                read(R, r, H, host, 99, False, now, asked, clients, readers, labels)
        finally:
            box_.close()
    return sorted(labels) or None


def exn(hab, n, v):
    from keri.peer import exchanging
    from keri.kering import Vrsn_1_0
    ser, _ = exchanging.specialExchange(sender=hab.pre, route="/x", attributes=dict(n=n, text="a: b \u00e9"), version=Vrsn_1_0)
    return ser


def deliver(c, S, s, r, msgs, ends, locs, sent, box_, own, H, want, labels):
    from keri.app import forwarding
    direct = [x for x in ("controller", "agent", "mailbox") if x in ends]
    plan = direct or (["witness"] if "witness" in ends else [])
    groups = [[m] for m in msgs] if c["mode"] == "post" else [msgs]
    if c["mode"] == "post":
        poster = forwarding.Poster(hby=S.hby, mbx=box_, version=S.v)
        poster.extend = poster.remove = lambda x: None
        gen = poster.deliverDo(tymth=lambda: 0.0)
        next(gen)
        for ser, atc, topic, _ in msgs:
            poster.send(dest=r.pre, topic=topic[1:], serder=ser, hab=s, attachment=atc)
        mark = len(sent)
        for _ in range(3 * len(msgs) + 3):
            next(gen)
        vf.check(not poster.evts, "messages are not sent")
        for ser, *_ in msgs:
            vf.same(poster.sent(ser.said), bool(plan), "message counted as sent")
        out = sent[mark:]
        gen.close()
        for ser, atc, topic, fate in msgs:
            msg = ser.raw + atc
            for role in plan:
                if role in ("controller", "agent"):
                    for e in ends[role]:
                        vf.check(out and out[0] == (e, locs[e], msg), "sent directly is not the message to the %s", role)
                        out = out[1:]
                elif own.pre in ends[role]:
                    want.setdefault((own.pre, topic), []).append(msg)
                    labels.add("local")
                else:
                    vf.check(out and out[0][0] in ends[role] and out[0][1] == locs[out[0][0]], "a message is not forwarded to a mailbox of its recipient")
                    carry(H, out[0][0], out[0][2], fate, {topic: [msg]}, want, s, labels)
                    out = out[1:]
        vf.same(out, [], "sent beyond the messages")
    else:
        topic = msgs[0][2]
        poster = forwarding.StreamPoster(hby=S.hby, recp=r.pre, hab=s, mbx=box_, topic=topic[1:], version=S.v)
        mark = len(sent)
        for ser, atc, _, _ in msgs:
            try:
                poster.send(serder=ser, attachment=atc)
                vf.check(plan, "a message to someone without endpoints is taken")
            except Exception as ex:
                vf.check(not plan and type(ex).__name__ == "ValidationError", "sending fails with %r", ex)
        if not plan:
            return
        poster.deliver()
        out = sent[mark:]
        one = plan[0]
        whole = [m[0].raw + m[1] for m in msgs]
        if one in ("mailbox", "witness"):
            if own.pre in ends[one]:
                want.setdefault((own.pre, topic), []).extend(whole)
                labels.add("local")
                vf.same(out, [], "sent")
            else:
                vf.check(len(out) == 1 and out[0][0] in ends[one], "messages are not forwarded to a mailbox of their recipient")
                carry(H, out[0][0], out[0][2], msgs[0][3], {topic: whole}, want, s, labels)
        elif "mailbox" not in plan:
            vf.same(out, [(e, locs[e], b"".join(whole)) for e in ends[one]], "sent directly")


def carry(H, host, data, fate, msgs, want, s, labels):
    """gives what was sent to a mailbox host"""
    if fate == "lost" or fate != "ok" and sum(map(len, msgs.values())) > 1:
        return
    data = bytearray(data)
    if fate != "ok":
        at = data.find(b'"r":"/fwd"')
        if fate == "altered":
            for t in list(msgs):
                k = data.find(b'"topic":"' + t[1:].encode(), at)
                data[k + 9:k + 10] = b"X"
        else:
            mine = data[:data.rfind(b'{"v":', 0, data.find(b'"r":"/fwd"'))]
            if fate == "unsigned":
                from keri.core import SerderKERI
                one = SerderKERI(raw=data[len(mine):])
                data = mine + one.raw
            else:
                import re
                from keri.core import SerderKERI
                one = SerderKERI(raw=data[len(mine):])
                k = len(mine) + one.size
                m = re.search(rb"A[AB][A-Za-z0-9_-]{86}", bytes(data[k:]))
                p = k + m.start() + 40
                data[p:p + 1] = b"A" if data[p:p + 1] != b"A" else b"B"
        H.give(data)
        H.settle()
        labels.add("refused")
        return
    H.give(data)
    H.settle()
    for t, ms in msgs.items():
        want.setdefault((host, t), []).extend(ms)


def read(R, r, H, host, upto, crash, now, asked, clients, readers, labels):
    """one polling session of the recipient at a mailbox host"""
    from keri.app import indirecting
    from hio.help import decking
    hab = [h for h in H.hby.habs.values() if h.pre == host][0]
    clients[host] = Client()
    poller = indirecting.Poller(hab=r, witness=host, topics=WANTED, version=R.v, gvrsn=R.v, kind="JSON")
    poller.extend = poller.remove = lambda x: None
    gen = poller.eventDo(tymth=lambda: 0.0)
    mark = len(asked)
    next(gen)
    for _ in range(5):
        next(gen)
        if len(asked) > mark:
            break
    vf.check(len(asked) == mark + 1, "a poller asks %s times", len(asked) - mark)
    H.cues.clear()
    H.give(asked[-1])
    cues = decking.Deck(x for x in H.cues if x["kin"] == "stream")
    vf.check(len(cues) == 1, "a signed query for one's mailbox is not let through")
    from keri.core import SerderKERI
    it = iter(indirecting.QryRpyMailboxIterable(cues=cues, mbx=H.mbx, said=SerderKERI(raw=asked[-1]).said))
    evs = []
    for _ in range(5):
        evs += events(next(it))
    have = {}
    for n, t, m in evs:
        have.setdefault(t, []).append((n, m))
    for t in WANTED:
        done = readers.setdefault((host, t), [0, []])
        all_ = list((k, bytes(m)) for k, _, m in H.mbx.cloneTopicIter(r.pre + t, 0))
        vf.same(have.get(t, []), [x for x in all_ if x[0] >= done[0]], f"messages of {t} given to a reader who has those before {done[0]}")
        if done[0] and have.get(t):
            labels.add("resumed")
    if len(have) > 1:
        labels.add("topics")
    evs = evs[:upto]
    for n, t, m in evs:
        clients[host].events.append(dict(id=str(n), name=t, data=m.decode(), retry=5000))
    if crash and evs:       # stops while it has the first but has not noted so
        next(gen)
        vf.same([bytes(m) for m in poller.msgs], [m for _, _, m in evs[:1]], "messages of a broken session")
        gen.close()
        labels.add("broken")
        return
    for _ in range(len(evs) + 2):
        next(gen)
    vf.same([bytes(m) for m in poller.msgs], [m for _, _, m in evs], "messages of a session")
    for n, t, m in evs:
        readers[host, t][0] = n + 1
    gen.close()
    for m in poller.msgs:
        R.give(m)
