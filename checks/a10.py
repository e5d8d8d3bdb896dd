"""A10: an OOBI given is followed to what verifies, whatever is answered."""
import datetime, json
from types import SimpleNamespace
from collections import deque
from hypothesis import strategies as st
import vf
from . import env as environ, v02

RULE = ("histories in which OOBIs of every form (of endpoints, blind, data, well known, multi, senseless) are given, again and by signed introductions, with or without a name, "
        "answered in any order with logs, endpoints, schemas, lists of further OOBIs, tampered or senseless content, or not found, with time passing, restarts and retries. "
        "Non-trivial: cases in which one became resolved and another failed, was retried, or was made of several.")
ASSUMPTIONS = ["Ed25519 and BLAKE3 are stand-ins", "who asks by HTTP is a stand-in which takes questions and gives the answers generated"]
LEGS = []
URL = vf.weighted((5, st.integers(0, 9)), (1, st.integers(10, 13)))
LOG = st.tuples(st.just("log"), st.integers(0, 2), st.integers(1, 5), st.booleans())
BODY = vf.weighted(
    (12, st.tuples(st.just("fit"), st.integers(1, 5), st.lists(URL, max_size=3))), (3, LOG), (1, st.tuples(st.just("bad"), st.integers(0, 2))),
    (3, st.tuples(st.just("schema"), st.integers(0, 2))), (1, st.tuples(st.just("wrong"), st.integers(0, 2))),
    (4, st.tuples(st.just("multi"), st.integers(0, 2), st.lists(URL, max_size=3), st.sampled_from(["/oobi/witness", "/oobi/controller", "/oobi/witness", "/other"]))),
    (2, st.tuples(st.just("odd"), st.integers(0, 9))), (1, st.tuples(st.just("junk"), st.binary(max_size=12))))
CTYPE = vf.weighted((8, st.just(None)), (1, st.sampled_from(["application/cesr", "application/json+cesr", "application/cesr+json", "application/json", "application/json; charset=utf-8", "application/schema+json", "text/html", ""])),
                    (1, st.just("none")))
ANS = st.tuples(st.just("answer"), st.integers(0, 5), vf.weighted((7, st.just(200)), (2, st.just(404)), (1, st.sampled_from([500, 401, 204, 301]))), BODY, CTYPE, vf.weighted((2, st.just(None)), (1, st.integers(0, 2))))
STEP = vf.weighted(
    (5, st.tuples(st.just("give"), URL, vf.weighted((2, st.just(None)), (1, st.sampled_from(["eve", "a b"]))))),
    (3, st.tuples(st.just("intro"), URL, st.integers(0, 2), st.sampled_from(["ok", "ok", "ok", "ok", "bare", "other", "scheme", "lacking"]))),
    (9, ANS), (6, st.just(("run",))), (5, st.tuples(st.just("round"), vf.weighted((4, st.just(200)), (2, st.just(404)), (1, st.just(500))))), (2, st.tuples(st.just("later"), st.sampled_from([10, 29, 31, 31, 100]))),
    (1, st.tuples(st.just("restart"), st.booleans())))
CASE = st.fixed_dictionaries(dict(v=st.sampled_from([1, 1, 2]), steps=st.lists(STEP, min_size=12, max_size=36)))
BASE = datetime.datetime(2200, 1, 1, tzinfo=datetime.timezone.utc)


class Now:
    """what oobiing takes for now"""

    def __init__(self):
        self.t = 0

    def now(self):
        return BASE + datetime.timedelta(seconds=self.t)

    def iso(self):
        return self.now().isoformat(timespec="microseconds")

    def patch(self):
        from keri.app import oobiing
        return environ.patched((oobiing, "nowUTC", self.now), (oobiing, "nowIso8601", self.iso))


class Clienter:
    """who asks"""

    def __init__(self):
        self.open = []

    def request(self, method, url, body=None, headers=None):
        vf.check(method == "GET", "asked by %s", method)
        if "nohost" in url:
            return None
        c = SimpleNamespace(url=url, responses=deque())
        self.open.append(c)
        return c

    def remove(self, client):
        self.open = [c for c in self.open if c is not client]


class Rec:
    def __init__(self, date, alias=None, cid=None):
        self.date, self.alias, self.cid, self.said, self.urls = date, alias, cid, None, None

    def copy(self):
        r = Rec(self.date, self.alias, self.cid)
        r.said, r.urls = self.said, self.urls
        return r


class World:
    def __init__(self, c, make, now):
        self.c, self.make, self.now, self.labels = c, make, now, set()
        self.P = make("p", v=c["v"], salt=b"1123456789abcdef")
        kw, kg = dict(version=self.P.v), dict(version=self.P.v, gvrsn=self.P.v)
        self.habs = [self.P.hby.makeHab(f"p{i}", **kw) for i in range(3)]
        self.logs, self.ends = [], []
        for i, h in enumerate(self.habs):
            for k in range(3):
                (h.rotate if k == 1 and i != 2 else h.interact)(framed=True, **kg)
            stamp = f"2030-01-0{i + 1}T00:00:00.000000+00:00"
            self.ends.append(bytes(h.makeEndRole(eid=h.pre, role="controller", stamp=stamp, framed=True, **kg)) +
                             bytes(h.makeLocScheme(url=f"http://127.0.0.1:{9000 + i}", scheme="http", stamp=stamp, framed=True, **kg)))
            self.logs.append([bytes(m) for m in self.P.db.clonePreIter(pre=h.pre, fn=0, version=self.P.v)])
        a, b, d = (h.pre for h in self.habs)
        from keri.core import Schemer
        self.schemas = [Schemer(raw=json.dumps(s, separators=(",", ":"), ensure_ascii=False).encode()) for s in v02.SCHEMAS[:3]]
        s = [x.said for x in self.schemas]
        # url, kind, cid, name, said
        self.urls = [(f"http://h0:5/oobi/{a}/witness/{b}?name=ann", "oobi", a, "ann", None), (f"http://h0:5/oobi/{b}/controller", "oobi", b, None, None),
                     (f"https://h1/OOBI/{d}/agent?name=dee&name=x&t=1", "oobi", d, "dee", None), ("http://h2/oobi?name=bob", "blind", None, "bob", None), ("http://h2/oobi", "blind", None, None, None),
                     (f"http://h3/oobi/{s[0]}", "data", None, None, s[0]), (f"http://h3/oobi/{s[1]}?name=s", "data", None, None, s[1]), (f"http://h4/oobi/{a}", "data", None, None, a),
                     (f"http://h4/.well-known/keri/oobi/{a}?name=root", "well", a, "root", None), (f"http://h4/.well-known/keri/oobi/{b}", "well", b, None, None),
                     ("http://h5/other", "none", None, None, None), ("http://[bad/oobi", "none", None, None, None), ("http://nohost/oobi", "nohost", None, None, None),
                     (f"http://h0:5/oobi/{a}/witness/{b}/{d}", "none", None, None, None)]
        self.info = {u[0]: u for u in self.urls}
        self.T = make("t", v=c["v"], salt=b"3123456789abcdef")
        self.twin = self.taker(self.T)
        self.I = make("i", v=c["v"])
        self.oobis, self.coobi, self.eoobi, self.roobi, self.moobi, self.contacts = {}, {}, {}, {}, {}, {}
        self.schema = set()
        self.stamped = 0
        self.begin()

    def taker(self, e):
        from keri.core import Router, Revery, Kevery, Parser
        rtr = Router()
        rvy = Revery(db=e.db, rtr=rtr)
        kvy = Kevery(db=e.db, lax=True, local=False, rvy=rvy)
        kvy.registerReplyRoutes(router=rtr)
        return Parser(framed=True, kvy=kvy, rvy=rvy, version=e.v)

    def begin(self):
        from keri.app.oobiing import Oobiery
        self.clienter = Clienter()
        self.obi = Oobiery(hby=self.I.hby, rvy=self.I.rvy, clienter=self.clienter)
        self.clients = {}

    def restart(self, whole):
        if whole:
            self.I.close()
            self.I = self.make("i", v=self.c["v"])
        self.begin()
        self.labels.add("restart")

    # -- what is given --

    def give(self, u, alias):
        from keri.recording import OobiRecord
        url = self.urls[u][0]
        self.I.db.oobis.pin(keys=(url,), val=OobiRecord(date=self.now.iso(), oobialias=alias))
        self.oobis[url] = Rec(self.now.now(), alias)

    def introduce(self, u, by, how):
        h, url = self.habs[by], self.urls[u][0]
        if u % 3 == 0 and self.oobis:
            url = min(self.oobis)
        if how == "scheme":
            url = "ftp" + url[url.index(":"):]
        if "[bad" in url:
            return      # not a URL: refused
        if h.pre not in self.I.hby.kevers or self.I.hby.kevers[h.pre].sn < 3:
            if u % 2:
                return
            for e in (self.I, self.T):      # otherwise learnt of before
                e.give(b"".join(self.logs[by]))
                e.settle()
        self.stamped += 1
        t = BASE + datetime.timedelta(seconds=[self.stamped, -self.stamped][by % 2] - 500)
        data = dict(cid=h.pre, oobi=url)
        if how == "lacking":
            del data["oobi"]
        kg = dict(version=self.P.v, gvrsn=self.P.v)
        from keri.core import SerderKERI
        msg = bytes((self.habs[(by + 1) % 3] if how == "other" else h).reply(route="/introduce", data=data, stamp=t.isoformat(timespec="microseconds"), framed=True, **kg))
        if how == "bare":
            msg = msg[:SerderKERI(raw=msg).size]
        self.I.give(msg)
        self.I.settle()
        if how == "ok":
            self.oobis.setdefault(url, Rec(t, None, h.pre))
            self.labels.add("introduced")

    # -- what is answered --

    def content(self, b):
        """content type and body"""
        from keri.core import SerderKERI  # noqa
        from keri.core import eventing
        if b[0] == "log":
            return ["application/cesr", "application/cesr", "application/cesr+json", "application/json+cesr"][b[2] % 4], b"".join(self.logs[b[1]][:b[2]]) + (self.ends[b[1]] if b[3] else b"")
        if b[0] == "bad":
            raw = bytearray(b"".join(self.logs[b[1]][:2]))
            raw[-7] = ord("A") if raw[-7] != ord("A") else ord("B")
            return "application/cesr", bytes(raw)
        if b[0] == "schema":
            return ["application/schema+json", "application/json", "application/json; charset=utf-8"][b[1]], bytes(self.schemas[b[1]].raw)
        if b[0] == "wrong":
            return "application/schema+json", bytes(self.schemas[b[1]].raw).replace(b'"type"', b'"title":"x","type"', 1)
        if b[0] == "multi":
            data = dict(aid=self.habs[b[1]].pre, urls=[self.urls[k][0] for k in b[2]])
            return "application/json", bytes(self.rpy(b[3], data))
        if b[0] == "odd":
            k = b[1]
            pre = self.habs[0].pre
            if k < 5:
                data = [dict(urls=[]), dict(aid=pre), dict(aid=pre, urls=5), dict(aid=pre, urls=[1, "x"]), dict(aid=pre, urls={"a": "b"})][k]
                return "application/json", bytes(self.rpy("/oobi/witness", data))
            return "application/json", [b"[]", b"5", b'{"v":"KERI10JSON000011_","t":"rpy"}', b'{"$id":5}', self.logs[0][0]][k - 5]
        return "text/plain", b[1]

    def fit(self, url, b):
        """an answer which fits what is asked"""
        kind, cid, said = [self.info.get(url, (url, "none", None, None, None))[i] for i in (1, 2, 4)]
        pres = [h.pre for h in self.habs]
        saids = [x.said for x in self.schemas]
        if said in saids or b[1] == 1 and b[2][:1] == [0]:
            return ("schema", saids.index(said) if said in saids and b[1] > 1 else len(b[2]) % 3)
        who = pres.index(cid) if cid in pres else b[1] % 3
        if kind == "well" or b[1] == 5 and kind == "oobi":
            return ("multi", who, b[2], "/oobi/witness")
        return ("log", who, b[1], True)

    def rpy(self, route, data):
        from keri.core import eventing
        from keri.kering import Vrsn_1_0
        return eventing.reply(route=route, data=data, stamp="2030-01-01T00:00:00.000000+00:00", version=Vrsn_1_0, kind="JSON").raw

    def answer(self, k, status, b, ctype, head):
        asked = [c for c in self.clienter.open if not c.responses]
        if not asked:
            return
        client = asked[k % len(asked)]
        if b[0] == "fit":
            b = self.fit(client.url, b)
        ct, body = self.content(b)
        if ctype is not None:
            ct = ctype
        headers = {} if ct == "none" else {"Content-Type": ct}
        if head is not None:
            headers["KERI-AID"] = self.habs[head].pre
        client.responses.append(dict(status=status, headers=headers, body=bytearray(body)))
        client.said = (status, b, "" if ct == "none" else ct, body, head)

    # -- the model --

    def fail(self, url):
        self.oobis.pop(url, None)
        self.coobi.pop(url, None)
        self.end(url, "failed")

    def end(self, url, state):
        self.roobi[url] = state
        self.labels.add(state)

    def ask(self, url, rec):
        if "nohost" in url:
            return self.fail(url)
        self.oobis.pop(url, None)
        self.coobi[url] = rec
        self.clients[url] = None

    def run(self):
        before = list(self.clienter.open)
        answered = {id(c): c for c in before if c.responses}
        live = {u: self.obi.clients.get(u) for u in self.coobi}
        for url, rec in sorted(self.oobis.items()):
            _, kind, cid, name, said = self.info.get(url, (url, "none", None, None, None))
            if self.roobi.get(url) == "resolved" and url in self.eoobi:
                del self.oobis[url]
                continue
            if kind in ("none",):
                self.fail(url)
                continue
            if kind in ("oobi", "well"):
                rec.cid = cid
            if kind != "data" and rec.alias is None:
                rec.alias = name
            if kind == "data":
                rec.said = said
            live.pop(url, None)
            self.ask(url, rec)
        for url, rec in sorted(self.coobi.items()):
            if url not in self.clients:
                self.ask(url, rec)
                continue
            c = live.get(url)
            if c is None or not hasattr(c, "said") or id(c) not in answered:
                continue
            status, b, ct, body, head = c.said
            del self.coobi[url]
            if status == 404:
                self.eoobi[url] = rec
                self.labels.add("not found")
            elif status != 200:
                self.end(url, "failed")
            elif ct in ("application/cesr", "application/json+cesr", "application/cesr+json"):
                self.twin.parse(ims=bytearray(body))
                cid = rec.cid or (self.habs[head].pre if head is not None else None)
                rec.cid = cid
                if rec.alias and cid:
                    self.contacts[cid] = dict(alias=rec.alias, oobi=url)
                    self.labels.add("contact")
                self.end(url, "resolved")
            elif ct == "application/schema+json" or ct.startswith("application/json"):
                if b[0] == "schema":
                    ok = self.schemas[b[1]].said == rec.said
                    if ok:
                        self.schema.add(rec.said)
                        self.labels.add("schema")
                    self.end(url, "resolved" if ok else "failed")
                elif ct != "application/schema+json" and b[0] == "multi" and b[3] != "/other" and self.habs[b[1]].pre == rec.cid:
                    for k in b[2]:
                        self.oobis.setdefault(self.urls[k][0], Rec(self.now.now(), rec.alias, rec.cid))
                    rec.urls = [self.urls[k][0] for k in b[2]]
                    self.moobi[url] = rec
                    self.labels.add("multi")
                else:
                    self.end(url, "failed")
            else:
                self.end(url, "failed")
        for url, rec in sorted(self.eoobi.items()):
            if self.now.now() - rec.date > datetime.timedelta(seconds=30):
                rec.date = self.now.now()
                del self.eoobi[url]
                self.oobis[url] = rec
                self.labels.add("retried")
        for url, rec in sorted(self.moobi.items()):
            if all(u in self.roobi for u in rec.urls):
                del self.moobi[url]
                self.end(url, "failed" if any(self.roobi[u] == "failed" for u in rec.urls) else "resolved")
                self.labels.add("all parts")
        self.obi.processFlows()
        db = self.I.db
        for name in ("oobis", "coobi", "eoobi", "moobi"):
            got = {u: (r.oobialias, r.cid) for (u,), r in getattr(db, name).getTopItemIter()}
            vf.same(got, {u: (r.alias, r.cid) for u, r in getattr(self, name).items()}, f"OOBIs ({name})")
        vf.same({u: r.state for (u,), r in db.roobi.getTopItemIter()}, self.roobi, "OOBIs which ended")
        got = {u: [k.date, k.urls] for (u,), k in [*db.eoobi.getTopItemIter(), *db.moobi.getTopItemIter()]}
        want = {u: [r.date.isoformat(timespec="microseconds"), r.urls] for u, r in [*self.eoobi.items(), *self.moobi.items()]}
        vf.same(got, want, "OOBIs to retry or of several")
        old = {id(c) for c in before}
        new = sorted(c.url for c in self.clienter.open if id(c) not in old)
        vf.check(len(new) == len(set(new)), "asked twice: %s", new)
        vf.same(sorted(u for u in self.coobi if self.obi.clients.get(u) is None), [], "OOBIs not asked")
        from keri.app.organizing import Organizer
        got = {}
        for r in Organizer(hby=self.I.hby).list():
            got[r["id"]] = {k: v for k, v in r.items() if k != "id"}
        vf.same(got, self.contacts, "contacts")
        vf.same({k[0] for k, _ in db.schema.getTopItemIter()}, self.schema, "schemas")
        for e in (self.I, self.T):
            e.settle()
        vf.same(self.known(self.I), self.known(self.T), "what is known")

    def known(self, e):
        out = {h.pre: (k.sn, k.serder.said) for h in self.habs if h.pre in e.hby.kevers and (k := e.hby.kevers[h.pre])}
        ends = sorted((tuple(k), v.allowed) for k, v in e.db.ends.getTopItemIter())
        locs = sorted((tuple(k), v.url) for k, v in e.db.locs.getTopItemIter())
        return out, ends, locs


@vf.leg(LEGS, CASE, quick=600, thorough=8000)
def follow(c):
    now = Now()
    with environ.place() as make, now.patch():
        w = World(c, make, now)
        for s in c["steps"]:
            if s[0] == "give":
                w.give(*s[1:])
            elif s[0] == "intro":
                w.introduce(*s[1:])
            elif s[0] == "answer":
                w.answer(*s[1:])
            elif s[0] == "run":
                w.run()
            elif s[0] == "round":
                w.run()
                for _ in range(6):
                    w.answer(0, s[1], ("fit", 4, [1, 3]), None, None)
                w.run()
            elif s[0] == "later":
                now.t += s[1]
            else:
                w.restart(s[1])
        w.run()
        hard = w.labels & {"failed", "retried", "all parts"}
        return sorted(w.labels) if "resolved" in w.labels and hard else None


WELL = vf.weighted((6, st.integers(0, 3)), (1, st.integers(4, 6)))
FSTEP = vf.weighted((4, st.tuples(st.just("give"), WELL)), (5, st.just(("run",))), (5, st.tuples(st.just("answer"), st.integers(0, 3), st.sampled_from([200, 200, 204, 301, 399, 400, 404, 500, 199, 100]))),
                    (1, st.just(("restart",))), (1, st.tuples(st.just("learn"), st.integers(0, 1))))


@vf.leg(LEGS, st.fixed_dictionaries(dict(know=vf.weighted((4, st.just([0, 1])), (1, st.just([0]))), steps=st.lists(FSTEP, min_size=12, max_size=36))), quick=120, thorough=4000)
def factors(c):
    """well known OOBIs of known identifiers authenticate exactly when answered well"""
    from keri.app.oobiing import Authenticator
    from keri.recording import OobiRecord
    labels = set()
    with environ.place() as make:
        P, I = make("p", salt=b"1123456789abcdef"), make("i")
        habs = [P.hby.makeHab(f"p{i}", version=P.v) for i in range(2)]
        pre = [h.pre for h in habs]
        urls = [f"http://a/.well-known/keri/oobi/{pre[0]}", f"http://b/.well-known/keri/oobi/{pre[0]}?x=1", f"https://c:7/.well-known/keri/oobi/{pre[1]}", f"http://a/.well-known/keri/oobi/{pre[1]}",
                f"http://a/oobi/{pre[0]}", f"http://nohost/.well-known/keri/oobi/{pre[0]}", f"http://a/.well-known/keri/oobi/{pre[0]}/x"]
        cid = [pre[0], pre[0], pre[1], pre[1], None, pre[0], None]
        wait, asked, done, known, auth = set(), {}, {}, set(), {}
        for i in c["know"]:
            I.give(P.log(pre[i]))
            known.add(pre[i])
        cl = Clienter()
        au = Authenticator(I.hby, clienter=cl)
        for s in c["steps"]:
            if s[0] == "give":
                I.db.woobi.pin(keys=(urls[s[1]],), val=OobiRecord(date="2030-01-01T00:00:00.000000+00:00"))
                wait.add(s[1])
            elif s[0] == "learn":
                I.give(P.log(pre[s[1]]))
                known.add(pre[s[1]])
            elif s[0] == "restart":
                cl = Clienter()
                au = Authenticator(I.hby, clienter=cl)
                asked = {k: None for k in asked}
            elif s[0] == "answer":
                q = [x for x in cl.open if not x.responses]
                if q:
                    x = q[s[1] % len(q)]
                    x.responses.append(dict(status=s[2], headers={}, body=b""))
                    x.status = s[2]
            else:
                new = []
                for k in sorted(wait, key=lambda k: urls[k].encode()):
                    if cid[k] is None:
                        wait.remove(k)
                    elif cid[k] in known:
                        wait.remove(k)
                        new.append(k)
                had = {k: au.clients.get(urls[k]) for k in asked if asked[k] is not None}
                for k in new:
                    if k == 5:
                        done[k] = "failed"
                    else:
                        asked[k] = True
                for k in list(asked):
                    if asked[k] is None:
                        asked[k] = True
                    elif k not in new and k in had and getattr(had[k], "status", None):
                        ok = 200 <= had[k].status <= 399
                        done[k] = "resolved" if ok else "failed"
                        labels.add(done[k])
                        if ok:
                            auth.setdefault(cid[k], set()).add(urls[k])
                        del asked[k]
                au.processFlows()
                vf.same({u for (u,), _ in I.db.woobi.getTopItemIter()}, {urls[k] for k in wait}, "well known OOBIs given")
                vf.same({u: r.cid for (u,), r in I.db.mfa.getTopItemIter()}, {urls[k]: cid[k] for k in asked}, "well known OOBIs asked")
                vf.same({u: r.state for (u,), r in I.db.rmfa.getTopItemIter()}, {urls[k]: v for k, v in done.items()}, "well known OOBIs which ended")
                for p in pre:
                    vf.same({w.url for w in I.db.wkas.get(keys=(p,))}, auth.get(p, set()), "what an identifier was authenticated by")
        return sorted(labels) if len(labels) > 1 else None
