"""A05: contacts, notices and signals say what was last recorded of them, and records which were tampered with are not shown as one's own."""
import datetime
from hypothesis import strategies as st
import vf
from . import env

RULE = ("histories of recording, changing and removing contact data and pictures of several identifiers in two address books, of adding, marking and "
        "removing notices, with stored records altered behind its back; and of signals pushed, replaced and consumed between the turns of what expires "
        "them. Non-trivial: cases in which a record changed or went after others were made, was altered, or a signal was replaced or expired.")
ASSUMPTIONS = ["Ed25519 and BLAKE3 stand-ins compute the published algorithms"]
LEGS = []
AIDS = ["EAaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaa", "BAaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaa", "EAaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaab"]
FIELDS = ["alias", "company", "a.b", "al", "note"]
VALS = ["", "Bob", "bobby", "ACME x", "\u00e9t\u00e9", "x" * 300]
DATA = st.dictionaries(st.integers(0, len(FIELDS) - 1), st.integers(0, len(VALS) - 1), min_size=1, max_size=3)
WHO = st.tuples(st.integers(0, 1), st.integers(0, 2))
OPS = vf.weighted(
    (4, st.tuples(st.just("update"), WHO, DATA)), (1, st.tuples(st.just("replace"), WHO, DATA)),
    (2, st.tuples(st.just("set"), WHO, st.integers(0, 4), st.integers(0, 5))), (1, st.tuples(st.just("unset"), WHO, st.integers(0, 4))),
    (1, st.tuples(st.just("rem"), WHO)), (2, st.tuples(st.just("img"), WHO, st.sampled_from([0, 1, 4095, 4096, 4097, 9000, 41000]), st.integers(0, 255))),
    (1, st.tuples(st.just("alter"), WHO, st.integers(0, 2))))


@vf.leg(LEGS, st.lists(OPS, min_size=2, max_size=16), quick=250, thorough=9000)
def contacts(ops):
    import io
    from keri.app.organizing import Organizer, IdentifierOrganizer
    from keri.kering import ValidationError
    labels = set()
    with env.place() as make:
        E = make("e")
        books = [Organizer(hby=E.hby), IdentifierOrganizer(hby=E.hby)]
        have, pics, bad = [{}, {}], [{}, {}], [set(), set()]
        for op in ops:
            b, i = op[1]
            org, pre, mine = books[b], AIDS[i], have[b]
            d = {FIELDS[f]: VALS[v] for f, v in op[2].items()} if op[0] in ("update", "replace") else None
            if pre in bad[b] and op[0] in ("update", "set", "unset"):
                continue
            if op[0] == "update":
                org.update(pre, dict(d))
                if pre in mine:
                    labels.add("changed")
                mine.setdefault(pre, {}).update(d)
            elif op[0] == "replace":
                org.replace(pre, dict(d))
                mine[pre] = d
                bad[b].discard(pre)
            elif op[0] == "set":
                org.set(pre, FIELDS[op[2]], VALS[op[3]])
                mine.setdefault(pre, {})[FIELDS[op[2]]] = VALS[op[3]]
            elif op[0] == "unset":
                if FIELDS[op[2]] not in mine.get(pre, {}):
                    continue
                org.unset(pre, FIELDS[op[2]])
                del mine[pre][FIELDS[op[2]]]
                labels.add("changed")
            elif op[0] == "rem":
                org.rem(pre)
                if mine.pop(pre, None) and any(have):
                    labels.add("removed")
                bad[b].discard(pre)
            elif op[0] == "img":
                data = bytes((op[3] + k // 7) % 256 for k in range(op[2]))
                org.setImg(pre, f"image/{op[3]}", io.BytesIO(data))
                pics[b][pre] = (f"image/{op[3]}", data)
            elif pre in mine and pre not in bad[b]:
                raw = org.datadb.get(keys=(pre,))
                if op[2] == 0:
                    new = raw[:-1] + ', "x": "y"}' if raw != "{}" else '{"x": "y"}'
                    org.datadb.pin(keys=(pre,), val=new)
                elif op[2] == 1:
                    org.cigsdb.pin(keys=(pre,), val=E.hby.signator.sign(ser=raw.encode() + b" "))
                else:       # another's data and signature
                    other = [p for p in mine if p != pre and org.datadb.get(keys=(p,)) != raw]
                    if not other:
                        continue
                    org.datadb.pin(keys=(pre,), val=org.datadb.get(keys=(other[0],)))
                bad[b].add(pre)
                labels.add("altered")
            for b, org in enumerate(books):
                mine = have[b]
                for pre in AIDS:
                    if pre in bad[b]:
                        for f in [None, *FIELDS]:
                            try:
                                got = org.get(pre, f)
                            except ValidationError:
                                continue
                            raise vf.Violation(f"altered contact data is given: {got}")
                        continue
                    got = org.get(pre)
                    vf.same(got, dict(mine[pre], id=pre) if pre in mine else None, "data of a contact")
                    for f in FIELDS:
                        vf.same(org.get(pre, f), mine.get(pre, {}).get(f), f"{f} of a contact")
                    img = pics[b].get(pre)
                    vf.same(org.getImgData(pre), dict(type=img[0], length=len(img[1])) if img else None, "what is said of a picture")
                    vf.same(b"".join(org.getImg(pre)), img[1] if img else b"", "picture of a contact")
                ok = {p: d for p, d in mine.items() if d}
                vf.same(sorted(org.list(), key=lambda x: x["id"]), sorted((dict(d, id=p) for p, d in ok.items()), key=lambda x: x["id"]), "contacts listed")
                for f in FIELDS:
                    vf.same(sorted(org.values(f)), sorted({d[f] for d in ok.values() if f in d}), f"values of {f}")
                    vf.same(sorted(org.values(f, "BOB")), sorted({d[f] for d in ok.values() if f in d and "bob" in d[f].lower()}), f"values of {f} like BOB")
                    if not bad[b]:
                        for v in ("Bob", "ACME x", "", "xx"):
                            ids = lambda ds: sorted(x["id"] for x in ds)
                            vf.same(ids(org.find(f, v)), sorted(p for p, d in ok.items() if f in d and v.lower() in d[f].lower()), f"contacts whose {f} is like {v!r}")
                            vf.same(ids(org.findExact(f, v)), sorted(p for p, d in ok.items() if d.get(f) == v), f"contacts whose {f} is {v!r}")
    return sorted(labels) or None


class Clock:
    def __init__(self):
        self.t = 0

    def now(self):
        return datetime.datetime(2030, 1, 1, tzinfo=datetime.timezone.utc) + datetime.timedelta(seconds=self.t)

    def iso(self):
        return self.now().isoformat(timespec="microseconds")


NOPS = vf.weighted((5, st.tuples(st.just("add"), st.integers(0, 3))), (2, st.tuples(st.just("mar"), st.integers(0, 9))),
                   (2, st.tuples(st.just("rem"), st.integers(0, 9))), (1, st.tuples(st.just("wait"), st.integers(-3, 100))),
                   (2, st.tuples(st.just("get"), st.integers(0, 6), st.integers(0, 6))), (1, st.tuples(st.just("alter"), st.integers(0, 9), st.integers(0, 1))),
                   (1, st.tuples(st.just("open"))))


@vf.leg(LEGS, st.lists(NOPS, min_size=3, max_size=24), quick=250, thorough=9000)
def notices(ops):
    from keri.app import notifying, signaling
    from keri.kering import ValidationError
    labels = set()
    clock = Clock()
    with env.place() as make, env.patched((notifying, "nowIso8601", clock.iso), (signaling, "nowIso8601", clock.iso)):
        E = make("e")
        kw = dict(name="not", headDirPath=E.path, reopen=True)
        noter = notifying.Noter(**kw)
        try:
            sig = signaling.Signaler()
            ntr = notifying.Notifier(hby=E.hby, signaler=sig, noter=noter)
            notes, bad = [], set()      # [dt, rid, attrs, read]
            for op in ops:
                order = sorted(notes, key=lambda x: (x[0], x[1]))
                sig.signals.clear()
                sigs = None
                if op[0] == "add":
                    attrs = dict(n=op[1], r="/x")
                    before = {n.rid for n, _ in noter.getNotes(0, -1)}
                    vf.check(ntr.add(attrs=dict(attrs)), "a notice is not added")
                    new = [n for n, _ in noter.getNotes(0, -1) if n.rid not in before]
                    vf.check(len(new) == 1, "%s notices are added", len(new))
                    notes.append([clock.iso(), new[0].rid, attrs, False])
                    sigs = ("add", new[0].rid)
                elif op[0] == "wait":
                    clock.t += op[1]
                elif op[0] == "open":
                    noter.close()
                    noter = ntr.noter = notifying.Noter(**kw)
                elif op[0] in ("mar", "rem", "alter"):
                    x = order[op[1] % len(order)] if order and op[1] < 9 else None
                    rid = x[1] if x else "0AAAAAAAAAAAAAAAAAAAAAAA"
                    if op[0] == "mar":
                        ok = bool(x) and rid not in bad and not x[3]
                        vf.same(ntr.mar(rid), ok, "marking a notice as read")
                        if ok:
                            x[3] = True
                            sigs = ("mar", rid)
                            labels.add("marked")
                    elif op[0] == "rem":
                        vf.same(ntr.rem(rid), bool(x), "removing a notice")
                        if x:
                            notes.remove(x)
                            sigs = ("rem", rid) if rid not in bad else None
                            bad.discard(rid)
                            labels.add("removed")
                    elif x and rid not in bad:
                        note, cig = noter.get(rid)
                        if op[2]:
                            pad = dict(note.pad, a=dict(n=99))
                            noter.update(notifying.Notice(pad=pad), cig)
                        else:
                            noter.update(note, E.hby.signator.sign(ser=note.raw + b" "))
                        bad.add(rid)
                        labels.add("altered")
                order = sorted(notes, key=lambda x: (x[0], x[1]))
                got = [(s.attrs["action"], s.attrs["note"]["i"]) for s in sig.signals]
                vf.same(got, [sigs] if sigs else [], "signals of a change of notices")
                vf.same(ntr.getNoteCnt(), len(notes), "number of notices")
                spans = [(0, -1)] + ([(op[1], op[1] + op[2])] if op[0] == "get" else [])
                for a, z in spans:
                    want = order[a:] if z == -1 else order[a:z + 1]
                    try:
                        got = [[n.datetime, n.rid, n.attrs, n.read] for n in ntr.getNotes(a, z)]
                    except ValidationError:
                        vf.check(any(x[1] in bad for x in want), "sound notices from %s to %s are refused", a, z)
                        continue
                    vf.check(not any(x[1] in bad for x in want), "altered notices are given: %s", got)
                    vf.same(got, want, f"notices from {a} to {z}")
        finally:
            noter.close()
    return sorted(labels) or None


SOPS = vf.weighted((5, st.tuples(st.just("push"), st.integers(0, 2), st.integers(0, 3), st.sampled_from([0, 0, 0, -300, -700]))),
                   (3, st.tuples(st.just("turn"), st.integers(1, 6))), (1, st.tuples(st.just("read"), st.integers(1, 2))),
                   (1, st.tuples(st.just("wait"), st.sampled_from([1, 299, 301, 600, 601]))))


@vf.leg(LEGS, st.lists(SOPS, min_size=3, max_size=30), quick=2500, thorough=90000)
def signals(ops):
    import json
    from keri.app import signaling
    labels = set()
    clock = Clock()
    with env.patched((signaling, "nowIso8601", clock.iso), (signaling, "nowUTC", clock.now)):
        sig = signaling.Signaler()
        gen = sig.expireDo(tymth=lambda: 0.0)
        next(gen)
        it = iter(signaling.SignalIterable(signals=sig.signals, retry=1000))
        vf.same(next(it), b"retry: 1000\n\n", "first of a stream")
        mine, n, over = [], 0, 0       # [key, date, number, topic]

        def swept():
            """as many turns as it takes to look at all signals twice"""
            for _ in range(2 * len(mine) + 4):
                next(gen)
            gone = [x for x in mine if clock.t - x[1] > 600]
            if gone:
                labels.add("expired")
            mine[:] = [x for x in mine if x not in gone]
        for op in ops:
            if op[0] == "push":
                n += 1
                key = [None, "/a", "/b"][op[1]]
                topic = ["/x", "/y", "/z", None][op[2]]
                t = clock.t + op[3]
                sig.push(attrs=dict(n=n), topic=topic, ckey=key, dt=clock.now() + datetime.timedelta(seconds=op[3]))
                new = [key, t, n, topic]
                same = [k for k, x in enumerate(mine) if key is not None and x[0] == key]
                if same:
                    mine[same[0]] = new
                    labels.add("replaced")
                else:
                    mine.append(new)
            elif op[0] == "turn":
                for _ in range(op[1]):
                    next(gen)
                    # what went has expired; nothing else changed
                    left = [s.attrs["n"] for s in sig.signals]
                    vf.check(all(x[2] in left or clock.t - x[1] > 600 for x in mine), "a signal which has not expired is gone")
                    mine[:] = [x for x in mine if x[2] in left]
            elif op[0] == "wait":
                clock.t += op[1]
            else:
                got = []
                for _ in range(op[1]):
                    for block in next(it).split(b"\n\n"):
                        if block:
                            d = dict(line.split(b": ", 1) for line in block.split(b"\n"))
                            body = json.loads(d[b"data"])
                            vf.same(d[b"id"].decode(), body["i"], "id of a signal")
                            got.append([d.get(b"event", b"").decode() or None, body["a"]["n"]])
                vf.same(got, [[x[3], x[2]] for x in mine], "signals given")
                mine.clear()
            vf.same([s.attrs["n"] for s in sig.signals], [x[2] for x in mine], "signals waiting")
        swept()
        vf.same([s.attrs["n"] for s in sig.signals], [x[2] for x in mine], "signals waiting in the end")
    return sorted(labels) or None
