"""D02: a message builder makes exactly the message asked for, or refuses."""
from hypothesis import strategies as st
import vf
from . import kel
from .c10 import refused
from .d01 import SEAL, MAP, DIGS, digest, said, seal

RULE = ("every builder of key event, receipt, query, reply, prod, bare, exchange, registry and credential event messages and of key, registry and credential state records, "
        "called with generated keys, thresholds in every written form, witness and backer lists, cuts, adds, seals, numbers, routes, defaults and values out of bounds, in both protocol "
        "versions and every serialization; fields, order, identifiers and refusals recomputed from the definitions. Non-trivial: all.")
ASSUMPTIONS = ["native encoding of version 2 only", "missing thresholds default to half the keys rounded up, missing witness thresholds to the ample number"]
LEGS = []
V = {1: "1", 2: "2"}


def ample(n):
    """the smaller of the two immune witness thresholds for the greatest tolerable number of faults, at least 1"""
    if n < 1:
        return 0
    lo, hi = max(1, (n - 1) // 3), max(1, -(-(n - 1) // 3))
    return min(n, -(-(n + lo + 1) // 2), -(-(n + hi + 1) // 2))


TH = vf.weighted((2, st.none()), (3, st.tuples(st.just("int"), st.integers(-1, 7))), (3, st.tuples(st.just("hex"), st.integers(0, 7))), (4, st.tuples(st.just("spec"), kel.TH, st.integers(-1, 1))),
                 (1, st.tuples(st.just("json"), kel.TH, st.just(0))))
NUM = vf.weighted((1, st.none()), (3, st.tuples(st.just("int"), st.integers(-1, 6))), (2, st.tuples(st.just("hex"), st.integers(0, 6))))
SN = vf.weighted((3, st.integers(0, 20)), (1, st.sampled_from([-1, 255, 256, 2 ** 32, 2 ** 64, 2 ** 128 - 1])))
IX = st.lists(st.integers(0, 6), max_size=5)
FEW = vf.weighted((4, st.lists(st.integers(0, 6), max_size=5, unique=True)), (1, IX))
KINDS = st.tuples(st.sampled_from([1, 2]), st.sampled_from(["JSON", "JSON", "CBOR", "MGPK", "CESR"])).map(lambda t: t if t[0] == 2 or t[1] != "CESR" else (2, "CESR"))
LABEL = st.from_regex(r"\A[a-zA-Z_][a-zA-Z0-9_]{0,6}\Z")
COMMON = dict(vk=KINDS, seed=st.integers(0, 999), intive=st.booleans(), stamp=st.booleans())
TRAITS = kel.some([], st.lists(st.sampled_from(["EO", "DND", "NB", "RB"]), unique=True, max_size=3), 2)
DATA = vf.weighted((2, st.just([])), (3, st.lists(SEAL, max_size=5)), (1, st.none()), (1, st.just("bad")))
EST = dict(nk=st.integers(0, 5), nn=st.integers(-1, 4), kt=TH, nt=TH, bt=NUM, data=DATA, c=TRAITS, cbad=kel.some(False, st.just(True), 12))


def fixed(**kw):
    return st.fixed_dictionaries({**COMMON, **kw})


BUILD = st.one_of(
    fixed(fn=st.just("incept"), wits=FEW, dele=kel.some(False, st.just(True), 2), code=kel.some(None, st.sampled_from(["E", "F", "G", "H", "I", "0D", "0F", "D"]), 2), **EST),
    fixed(fn=st.just("rotate"), wits=FEW, cuts=FEW, adds=kel.some([], FEW, 1), same=st.booleans(), sn=SN, hexsn=st.booleans(), dele=kel.some(False, st.just(True), 2), **EST),
    fixed(fn=st.just("interact"), sn=SN, hexsn=st.booleans(), data=DATA),
    fixed(fn=st.just("receipt"), sn=SN, hexsn=st.booleans()),
    fixed(fn=st.sampled_from(["query", "prod"]), route=st.lists(LABEL, max_size=3), rroute=st.lists(LABEL, max_size=2), m=MAP, pre=st.booleans()),
    fixed(fn=st.sampled_from(["reply", "bare"]), route=st.lists(LABEL, max_size=3), m=MAP, pre=st.booleans(), none=st.booleans()),
    fixed(fn=st.just("exchept"), route=st.lists(LABEL, max_size=3), m=MAP, q=MAP, nonce=st.booleans(), opt=st.integers(0, 7)),
    fixed(fn=st.just("exchange"), route=st.lists(LABEL, max_size=3), m=MAP, q=MAP, opt=st.integers(0, 15)))
TEL = st.one_of(
    fixed(fn=st.just("vcp"), baks=FEW, bt=NUM, c=TRAITS, nonce=st.booleans()),
    fixed(fn=st.just("vrt"), baks=FEW, cuts=FEW, adds=kel.some([], FEW, 1), same=st.booleans(), bt=NUM, sn=SN),
    fixed(fn=st.sampled_from(["iss", "rev"])),
    fixed(fn=st.sampled_from(["bis", "brv"]), sn=st.integers(0, 2 ** 70)),
    fixed(fn=st.just("telquery"), opt=st.integers(0, 15), route=st.lists(LABEL, max_size=3)),
    fixed(fn=st.just("rip"), nonce=st.booleans()),
    fixed(fn=st.sampled_from(["bup", "upd"]), sn=SN))
STATE = st.one_of(
    fixed(fn=st.just("state"), sn=SN, fno=SN, ilk=st.sampled_from(["icp", "rot", "ixn", "dip", "drt", "rct", "vcp"]), wits=FEW, br=kel.some([], FEW, 2), ba=kel.some([], FEW, 2), eesn=st.integers(0, 20),
          ee=kel.some(0, st.integers(1, 2), 5), dele=st.booleans(), **{k: v for k, v in EST.items() if k not in ("data", "cbad")}),
    fixed(fn=st.just("regstate"), sn=SN, ilk=st.sampled_from(["vcp", "vcp", "vrt", "iss"]), wits=FEW, bt=NUM, c=TRAITS),
    fixed(fn=st.just("vcstate"), sn=SN, ilk=st.sampled_from(["iss", "bis", "rev", "brv", "vcp"]), ra=st.booleans()))
DT = "2024-05-06T07:08:09.123456+00:00"


class No(Exception):
    pass


def no(cond):
    if cond:
        raise No


def threshold(t, n, intive, least, label):
    """(argument, field) of a threshold over n keys"""
    if t is None:
        k = max(least, -(-n // 2))
        arg, out = None, f"{k:x}"
    elif t[0] in ("int", "hex"):
        k = t[1]
        arg, out = (k if t[0] == "int" else f"{k:x}"), f"{k:x}" if k >= 0 else None
    else:
        spec = kel.thold(t[1], max(1, n + t[2]))
        arg = out = spec
        if t[0] == "json" and not isinstance(spec, str):
            import json
            arg = json.dumps(spec)
    no(out is None)
    if isinstance(out, str):
        no(int(out, 16) < least or int(out, 16) > n)
        return arg, int(out, 16) if intive else out
    no(kel.size(out) > n)
    return arg, out


def args_of_threshold(t, n):
    if t is None:
        return None
    if t[0] == "int":
        return t[1]
    if t[0] == "hex":
        return f"{t[1]:x}"
    spec = kel.thold(t[1], max(1, n + t[2]))
    if t[0] == "json" and not isinstance(spec, str):
        import json
        return json.dumps(spec)
    return spec


def number(t, n, intive):
    """field of a witness threshold over n witnesses"""
    k = ample(n) if t is None else t[1]
    no(k < 0 or k > n or n and k < 1)
    return k if intive else f"{k:x}"


def arg_num(t):
    return None if t is None else t[1] if t[0] == "int" else f"{t[1]:x}"


def data_of(c):
    d = c["data"]
    if d is None or d == "bad":
        return d
    return [seal(*s) for s in d]


def lists(c):
    w = lambda ns: [kel.qkey(c["seed"] + 100 + i, False) for i in ns]
    wits = c.get("wits", c.get("baks"))
    cuts = [wits[i % len(wits)] for i in c["cuts"]] if c["same"] and wits else c["cuts"]
    adds = [i + 10 for i in c["adds"]] if c["same"] else c["adds"]
    return wits, cuts, adds, w


def changes(wits, cuts, adds):
    for x in (wits, cuts, adds):
        no(len(set(x)) != len(x))
    no(set(cuts) - set(wits) or set(adds) & set(wits) or set(adds) & set(cuts))
    return len(wits) - len(cuts) + len(adds)


def snum(sn, least, hexed=False):
    return (f"{sn:x}" if hexed and sn >= 0 else sn), (lambda: no(sn < least or sn >= 2 ** 128))


@vf.leg(LEGS, BUILD, quick=4000, dd=True)
def events(c):
    """key event and other KERI messages are made as asked or refused"""
    from keri.core import eventing
    from keri import kering
    v, kind = c["vk"]
    n = c["seed"]
    base = dict(version=kering.Vrsn_1_0 if v == 1 else kering.Vrsn_2_0, kind=kind)
    if n % 3 == 0:
        base["pvrsn"] = base.pop("version")
    if v == 2 and n % 2:
        base["gvrsn"] = kering.Vrsn_2_0
    fn = c["fn"]
    route = "/".join(c.get("route", []))
    stamp = DT if c["stamp"] else None
    said_ids, codes = ["d"], {"d": "E"}
    want, free = None, set()
    if fn in ("incept", "rotate"):
        keys = [kel.qkey(n + i) for i in range(c["nk"])]
        ndigs = None if c["nn"] < 0 else [said(n + i) for i in range(c["nn"])]
        nn = max(0, c["nn"])
        data = data_of(c)
        cn = dict(EO=1) if c["cbad"] else c["c"] or (None if n % 2 else [])
        kw = dict(isith=args_of_threshold(c["kt"], c["nk"]), ndigs=ndigs, nsith=args_of_threshold(c["nt"], nn), toad=arg_num(c["bt"]), cnfg=cn, data=data, intive=c["intive"])
    if fn == "incept":
        wits = [kel.qkey(n + 100 + i, False) for i in c["wits"]]
        kw["wits"] = wits or None
        if c["dele"]:
            call = lambda: eventing.delcept(keys, said(n + 60), **kw, code=c["code"], **base)
        else:
            call = lambda: eventing.incept(keys, **kw, code=c["code"], **base)

        def model():
            ki = threshold(c["kt"], len(keys), c["intive"], 1, "kt")[1]
            ni = threshold(c["nt"], nn, c["intive"], 0, "nt")[1]
            no(len(set(wits)) != len(wits) or c["cbad"] or data == "bad")
            bt = number(c["bt"], len(wits), c["intive"])
            digs = c["code"] if c["code"] in DIGS else None
            basic = not c["dele"] and digs is None and len(keys) == 1
            if c["code"] == "D" and not basic:
                raise Skip
            if not basic:
                said_ids.append("i")
                codes["i"] = digs or "E"
            w = dict(t="dip" if c["dele"] else "icp", i=keys[0] if basic else None, s="0", kt=ki, k=keys, nt=ni, n=ndigs or [], bt=bt, b=wits, c=c["c"], a=data or [])
            if c["dele"]:
                w["di"] = said(n + 60)
            return w
    elif fn == "rotate":
        ws, cs, as_, w = lists(c)
        sn, chk = snum(c["sn"], 1, c["hexsn"])
        kw.update(wits=w(ws), cuts=w(cs), adds=w(as_), sn=sn)
        if not cs and n % 2:
            kw["cuts"] = None
        call = lambda: (eventing.deltate if c["dele"] else eventing.rotate)(said(n + 61), keys, said(n + 62), **kw, **base)

        def model():
            chk()
            ki = threshold(c["kt"], len(keys), c["intive"], 1, "kt")[1]
            ni = threshold(c["nt"], nn, c["intive"], 0, "nt")[1]
            no(c["cbad"] or data == "bad")
            bt = number(c["bt"], changes(ws, cs, as_), c["intive"])
            m = dict(t="drt" if c["dele"] else "rot", i=said(n + 61), s=f"{c['sn']:x}", p=said(n + 62), kt=ki, k=keys, nt=ni, n=ndigs or [], bt=bt, br=w(cs), ba=w(as_))
            if v == 2:
                m["c"] = c["c"]
            elif c["c"]:
                raise Skip
            m["a"] = data or []
            return m
    elif fn == "interact":
        data = data_of(c)
        sn, chk = snum(c["sn"], 1, c["hexsn"])
        call = lambda: eventing.interact(said(n), said(n + 1), sn=sn, data=data, **base)

        def model():
            chk()
            no(data == "bad")
            return dict(t="ixn", i=said(n), s=f"{c['sn']:x}", p=said(n + 1), a=data or [])
    elif fn == "receipt":
        sn, chk = snum(c["sn"], 0, c["hexsn"])
        call = lambda: eventing.receipt(said(n), sn, said(n + 1), **base)
        said_ids.clear()

        def model():
            chk()
            return dict(t="rct", d=said(n + 1), i=said(n), s=f"{c['sn']:x}")
    elif fn in ("query", "prod"):
        pre = said(n) if c["pre"] else ""
        if v == 2 and not pre:
            return None
        call = lambda: getattr(eventing, fn)(pre=pre, route=route, replyRoute="/".join(c["rroute"]), query=c["m"], stamp=stamp, **base)
        model = lambda: dict(t=dict(query="qry", prod="pro")[fn], **(dict(i=pre) if v == 2 else {}), dt=stamp, r=route, rr="/".join(c["rroute"]), q=c["m"])
    elif fn in ("reply", "bare"):
        pre = said(n) if c["pre"] else ""
        if v == 2 and not pre:
            return None
        m = None if c["none"] and not c["m"] else c["m"]
        call = lambda: getattr(eventing, fn)(pre=pre, route=route, data=m, stamp=stamp, **base)
        model = lambda: dict(t=dict(reply="rpy", bare="bar")[fn], **(dict(i=pre) if v == 2 else {}), dt=stamp, r=route, a=c["m"])
    elif fn == "exchept":
        o = [said(n + i) if c["opt"] >> i & 1 else "" for i in range(3)]
        u = kel.cesr.encode("0A", "", bytes([n % 256]) * 16) if c["nonce"] else None
        if v == 1 or not o[0]:
            return None
        if u is None:
            free.add("u")
        call = lambda: eventing.exchept(sender=o[0], receiver=o[1], route=route, modifiers=c["q"] or None, attributes=c["m"] or None, nonce=u, stamp=stamp, **base)
        model = lambda: dict(t="xip", u=u, i=o[0], ri=o[1], dt=stamp, r=route, q=c["q"], a=c["m"])
    else:
        o = [said(n + i) if c["opt"] >> i & 1 else ("" if n % 2 else None) for i in range(4)]
        t = [x or "" for x in o]
        if not t[0]:
            return None
        call = lambda: eventing.exchange(sender=o[0], receiver=o[1], xid=o[2], prior=o[3], route=route, modifiers=c["q"] or None, attributes=c["m"] or None, stamp=stamp, **base)
        if v == 1:
            model = lambda: dict(t="exn", i=t[0], rp=t[1], p=t[3], dt=stamp, r=route, q=c["q"], a=c["m"], e={})
        elif kind == "CESR" and not (t[1] or t[2] or t[3]):
            return None
        else:
            model = lambda: dict(t="exn", i=t[0], ri=t[1], x=t[2], p=t[3], dt=stamp, r=route, q=c["q"], a=c["m"])
    return judge(c, fn, call, model, said_ids, codes, free)


class Skip(Exception):
    pass


def judge(c, fn, call, model, ids, codes, free=(), acdc=False):
    v, kind = c["vk"]
    try:
        want = model()
    except Skip:
        return None
    except No:
        refused(call, f"{fn} with values out of bounds")
        return [fn, "refused"]
    serder = call()
    got = serder.sad
    fields = list(got)
    if list(want)[:1] == ["t"] and "d" not in want:
        at = 1
        want = dict(list(want.items())[:at] + [("d", None)] + list(want.items())[at:])
    vf.same(fields, ["v"] + list(want), f"{fn}: fields")
    free = set(free) | {f for f in ("dt", "u") if want.get(f, 1) is None}
    for f, x in want.items():
        if f in ids:
            vf.check(got[f][:len(codes[f])] == codes[f] and len(got[f]) == DIGS[codes[f]], f"{fn}: identifier {f} {got[f]}")
        elif f in free:
            vf.check(isinstance(got[f], str) and got[f], f"{fn}: default {f} {got[f]!r}")
        else:
            vf.check(got[f] == x and type(got[f]) is type(x), f"{fn}: field {f} got {got[f]!r} want {x!r}")
    raw = serder.raw
    vf.same(got["v"], vstring(acdc, v, kind, len(raw)), f"{fn}: version string")
    if kind != "CESR":
        dummy = {f: ("#" * DIGS[codes[f]] if f in ids else x) for f, x in got.items()}
        vf.same(raw, kel.dump(dict(got), kind), f"{fn}: bytes")
        for f in ids:
            vf.same(got[f], digest(codes[f], kel.dump(dummy, kind)), f"{fn}: identifier {f}")
    again = type(serder)(raw=raw)
    canon = lambda s: {k: f"{x:x}" if k in ("kt", "nt", "bt") and isinstance(x, int) else x for k, x in s.items()}
    vf.same(list(canon(again.sad).items()), list(canon(got).items()), f"{fn}: read back")
    vf.same(again.said, serder.said, f"{fn}: identifier read back")
    return [fn, kind, f"v{v}"]


def vstring(acdc, v, kind, n):
    p = "ACDC" if acdc else "KERI"
    return f"{p}10{kind}{n:06x}_" if v == 1 else f"{p}CAACAA{kind}{kel.cesr.b64(n, 4)}."


@vf.leg(LEGS, TEL, quick=2000, dd=True)
def registries(c):
    """registry and credential events are made as asked or refused"""
    from keri.vdr import eventing
    from keri.acdc import messaging
    from keri import kering
    fn, n = c["fn"], c["seed"]
    stamp = DT if c["stamp"] else None
    ids, codes = ["d"], {"d": "E"}
    if fn in ("rip", "bup", "upd"):
        c["vk"] = (2, c["vk"][1])
        kw = dict(pvrsn=kering.Vrsn_2_0, gvrsn=kering.Vrsn_2_0, kind=c["vk"][1], stamp=stamp)
        if fn == "rip":
            u = kel.cesr.encode("0A", "", bytes([n % 256]) * 16) if c["nonce"] else None
            return judge(c, fn, lambda: messaging.regcept(said(n), uuid=u, **kw), lambda: dict(t="rip", u=u, i=said(n), n="0", dt=stamp), ids, codes, acdc=True)
        sn, chk = snum(c["sn"], 0)
        a, b = said(n + 2), "issued"
        if n % 4 == 0:
            a, b = "", ""
        if fn == "bup":
            call = lambda: messaging.blindate(said(n), said(n + 1), said(n + 2), sn=sn, **kw)
            m = lambda: (chk(), dict(t="bup", rd=said(n), n=f"{sn:x}", p=said(n + 1), dt=stamp, b=said(n + 2)))[1]
        else:
            call = lambda: messaging.update(said(n), said(n + 1), a, b, sn=sn, **kw)
            m = lambda: (chk(), dict(t="upd", rd=said(n), n=f"{sn:x}", p=said(n + 1), dt=stamp, td=a, ts=b))[1]
        return judge(c, fn, call, m, ids, codes, acdc=True)
    if c["vk"][1] == "CESR":
        return None
    if fn != "telquery":
        c["vk"] = (1, c["vk"][1])
    v, kind = c["vk"]
    base = dict(version=kering.Vrsn_1_0 if v == 1 else kering.Vrsn_2_0, kind=kind)
    if fn == "vcp":
        baks = [kel.qkey(n + 100 + i, False) for i in c["baks"]]
        u = kel.cesr.encode("0A", "", bytes([n % 256]) * 16) if c["nonce"] else None
        ids.append("i")
        codes["i"] = "E"
        call = lambda: eventing.incept(said(n), toad=arg_num(c["bt"]), baks=baks or None, nonce=u, cnfg=c["c"] or None, **base)

        def m():
            no("NB" in c["c"] and baks or len(set(baks)) != len(baks))
            return dict(t="vcp", i=None, ii=said(n), s="0", c=c["c"], bt=number(c["bt"], len(baks), False), b=baks, n=u)
        return judge(c, fn, call, m, ids, codes, free={"n"} if u is None else ())
    if fn == "vrt":
        bs, cs, as_, w = lists(c)
        sn, chk = snum(c["sn"], 1)
        call = lambda: eventing.rotate(said(n), said(n + 1), sn=sn, toad=arg_num(c["bt"]), baks=w(bs), cuts=w(cs), adds=w(as_), **base)

        def m():
            chk()
            return dict(t="vrt", i=said(n), p=said(n + 1), s=f"{sn:x}", bt=number(c["bt"], changes(bs, cs, as_), False), br=w(cs), ba=w(as_))
        if c["sn"] >= 2 ** 128:
            return None
        return judge(c, fn, call, m, ids, codes)
    if fn == "telquery":
        o = c["opt"]
        opts = {k: DT for i, k in enumerate(("dt", "dta", "dtb")) if o >> i & 1}
        route = "/".join(c["route"])
        want = dict(i=said(n), ri=said(n + 1), **(dict(src=said(n + 2)) if v == 2 else {}), **opts)
        call = lambda: eventing.query(regk=said(n + 1), vcid=said(n), route=route, replyRoute="r", stamp=stamp, pre=said(n + 2) if v == 2 else "", **opts, **base)
        return judge(c, fn, call, lambda: dict(t="qry", **(dict(i=said(n + 2)) if v == 2 else {}), dt=stamp, r=route, rr="r", q=want), ids, codes)
    ra = dict(i=said(n + 1), s=f"{c.get('sn', 0):x}", d=said(n + 2))
    call, m = {
        "iss": (lambda: eventing.issue(said(n), said(n + 1), dt=stamp, **base), lambda: dict(t="iss", i=said(n), s="0", ri=said(n + 1), dt=stamp)),
        "rev": (lambda: eventing.revoke(said(n), said(n + 1), said(n + 3), dt=stamp, **base), lambda: dict(t="rev", i=said(n), s="1", ri=said(n + 1), p=said(n + 3), dt=stamp)),
        "bis": (lambda: eventing.backerIssue(said(n), said(n + 1), c["sn"], said(n + 2), dt=stamp, **base), lambda: dict(t="bis", i=said(n), ii=said(n + 1), s="0", ra=ra, dt=stamp)),
        "brv": (lambda: eventing.backerRevoke(said(n), said(n + 1), c["sn"], said(n + 2), said(n + 3), dt=stamp, **base), lambda: dict(t="brv", i=said(n), s="1", p=said(n + 3), ra=ra, dt=stamp))}[fn]
    return judge(c, fn, call, m, ids, codes)


@vf.leg(LEGS, STATE, quick=1500, dd=True)
def states(c):
    """records of key, registry and credential state hold what was asked or are refused"""
    from keri.core import eventing
    from keri.vdr import eventing as tel
    from keri import kering
    fn, n, v = c["fn"], c["seed"], c["vk"][0]
    vn = [v, 0]
    version = kering.Vrsn_1_0 if v == 1 else kering.Vrsn_2_0
    stamp = DT if c["stamp"] else None
    sn, chk = snum(c["sn"], 0)
    w = lambda ns: [kel.qkey(n + 100 + i, False) for i in ns]
    if fn == "state":
        keys = [kel.qkey(n + i) for i in range(c["nk"])]
        ndigs = None if c["nn"] < 0 else [said(n + i) for i in range(c["nn"])]
        nn, wits = max(0, c["nn"]), w(c["wits"])
        ee = eventing.StateEstEvent(s=f"{c['eesn']:x}", d=said(n + 5), br=w(c["br"]) or None, ba=w([i + 3 for i in c["ba"]]))
        eevt = [ee, None, dict(s="0", d=said(n))][c["ee"]]
        call = lambda: eventing.state(said(n), sn, said(n + 1), said(n + 2), c["fno"], c["ilk"], keys, eevt, stamp=stamp, sith=args_of_threshold(c["kt"], len(keys)), ndigs=ndigs,
                                      nsith=args_of_threshold(c["nt"], nn), toad=arg_num(c["bt"]), wits=wits, cnfg=c["c"] or None, dpre=said(n + 9) if c["dele"] else None, version=version, intive=c["intive"])

        def m():
            chk()
            no(c["fno"] < 0 or c["fno"] >= 2 ** 128 or c["ilk"] not in ("icp", "rot", "ixn", "dip", "drt") or c["ee"])
            kt = threshold(c["kt"], len(keys), c["intive"], 1, "kt")[1]
            nt = threshold(c["nt"], nn, c["intive"], 0, "nt")[1]
            no(len(set(wits)) != len(wits))
            br, ba = c["br"], [i + 3 for i in c["ba"]]
            no(len(set(br)) != len(br) or len(set(ba)) != len(ba) or set(br) & set(ba))
            if c["bt"] is None and wits:
                raise Skip  # the default here is not the same everywhere
            bt = number(c["bt"], len(wits), c["intive"])
            return dict(vn=vn, i=said(n), s=f"{c['sn']:x}", p=said(n + 1), d=said(n + 2), f=f"{c['fno']:x}", dt=stamp, et=c["ilk"], kt=kt, k=keys, nt=nt, n=ndigs or [], bt=bt, b=wits, c=c["c"],
                        ee=dict(s=f"{c['eesn']:x}", d=said(n + 5), br=w(br), ba=w(ba)), di=said(n + 9) if c["dele"] else "")
    elif fn == "regstate":
        wits = w(c["wits"])
        toad = None if c["bt"] is None else c["bt"][1]
        call = lambda: tel.state(said(n), said(n + 1), sn, said(n + 2), c["ilk"], dts=stamp, toad=toad, wits=wits or None, cnfg=c["c"] or None, version=version)

        def m():
            no(sn < 0 or c["ilk"] not in ("vcp", "vrt") or len(set(wits)) != len(wits))
            if c["bt"] is None and wits:
                raise Skip
            return dict(vn=vn, i=said(n + 2), s=f"{sn:x}", d=said(n + 1), ii=said(n), dt=stamp, et=c["ilk"], bt=number(c["bt"], len(wits), False), b=wits, c=c["c"])
    else:
        a, ra = dict(s=3, d=said(n + 7)), dict(i=said(n), s="1", d=said(n)) if c["ra"] else None
        call = lambda: tel.vcstate(said(n), said(n + 1), sn, said(n + 2), c["ilk"], a, ra=ra, dts=stamp, version=version)

        def m():
            no(sn < 0 or c["ilk"] not in ("iss", "bis", "rev", "brv"))
            return dict(vn=vn, i=said(n), s=f"{sn:x}", d=said(n + 1), ri=said(n + 2), ra=ra or {}, a=a, dt=stamp, et=c["ilk"])
    try:
        want = m()
    except Skip:
        return None
    except No:
        refused(call, f"{fn} with values out of bounds")
        return [fn, "refused"]
    got = call()._asdict()
    if stamp is None:
        want.pop("dt")
        vf.check(got.pop("dt"), f"{fn}: no date")
    if fn == "state" and got["ee"].get("br") is None:
        got["ee"]["br"] = []
    vf.same(got, want, f"{fn}: record")
    return [fn]


ATT = st.tuples(st.sampled_from(["sigers", "wigers", "cigars", "rsgs", "tsgs", "lsgs", "frcs", "sscs", "ssts", "tdcs", "bsqs", "bsss", "tmqs"]), st.integers(1, 3), st.integers(0, 9999), st.booleans())
FRAMING = st.fixed_dictionaries(dict(
    t=st.sampled_from(["ixn", "rot", "rct", "rpy", "qry", "exn", "iss", "acdc"]), kind=st.sampled_from(["JSON", "JSON", "MGPK", "CBOR", "CESR"]), v=st.integers(1, 2), seed=st.integers(0, 10 ** 6),
    atts=st.lists(ATT, max_size=6, unique_by=lambda a: a[0]), gv=st.sampled_from([1, 2, None]), framed=kel.some(False, st.just(True), 2), nested=kel.some(False, st.just(True), 3),
    genus=st.booleans(), nests=kel.some([], st.lists(st.tuples(st.sampled_from(["ixn", "exn"]), st.lists(ATT, max_size=2, unique_by=lambda a: a[0]), st.booleans(), st.integers(0, 99)), min_size=1, max_size=2), 3),
    badcig=kel.some(False, st.just(True), 15)))
BONDS = dict(frcs="FirstSeen", sscs="SealSource", ssts="SealEvent", tdcs="SealKind", bsqs="BlindState", bsss="BoundState", tmqs="TypeMedia")


def numbers(x):
    """values with every number in it as an integer"""
    from .stream import value
    if isinstance(x, (list, tuple)):
        return [numbers(y) for y in x]
    if isinstance(x, str):
        try:
            code = kel.cesr.decode(x)[0]
        except Exception:
            return x
        if code in ("0A", "0H", "M", "N", "R", "S", "T", "U"):
            return value(x)
    return x


def primitives(g, vals, plain):
    """arguments of messagize for the attachments of group g"""
    from keri.core import coring, indexing, signing, structing
    out = []
    for x in vals:
        if g in ("sigers", "wigers"):
            out.append(indexing.Siger(qb64=x))
        elif g == "cigars":
            out.append(signing.Cigar(qb64=x[1], verfer=coring.Verfer(qb64=x[0])) if hasattr(signing, "Cigar") else coring.Cigar(qb64=x[1], verfer=coring.Verfer(qb64=x[0])))
        elif g in ("rsgs", "tsgs"):
            out.append((coring.Prefixer(qb64=x[0]), coring.Number(qb64=x[1]), coring.Diger(qb64=x[2]), [indexing.Siger(qb64=s) for s in x[3]]))
        elif g == "lsgs":
            out.append((coring.Prefixer(qb64=x[0]), [indexing.Siger(qb64=s) for s in x[1]]))
        else:
            clan = getattr(structing, BONDS[g])
            klas = {"i": coring.Prefixer, "s": coring.Number, "f": coring.Number, "dt": coring.Dater}
            if g in ("frcs", "sscs", "ssts"):
                ps = [klas.get(f, coring.Diger)(qb64=y) for f, y in zip(clan._fields, x)]
                if plain:
                    out.append(clan(*[p.numh if isinstance(p, coring.Number) else p.dts if isinstance(p, coring.Dater) else p.qb64 for p in ps]))
                else:
                    out.append(clan(*ps))
            else:
                s = structing.Structor(clan=clan, qb64="".join(x))
                out.append(s.crew if plain else s.data)
    return out


@vf.leg(LEGS, FRAMING, quick=2500, dd=True)
def framing(c):
    """a message framed with signatures, receipts, seals and nested messages carries exactly those"""
    from keri.core import eventing, serdering, coring
    from keri.core.counting import Counter
    from keri import kering
    from . import stream
    vrsn = {1: kering.Vrsn_1_0, 2: kering.Vrsn_2_0}
    b = dict(t=c["t"], kind=c["kind"], v=c["v"], seed=c["seed"], wrap=False, big=False)
    raw, form, t, v, native = stream.body(b, 2 if c["v"] == 2 else 1)
    gv = max(v, c["gv"] or 2)
    if c["nested"] or c["nests"]:
        gv = 2
    cls = serdering.SerderACDC if t == "acdc" else serdering.SerderKERI
    groups, args, bonds = [], {}, []
    atts = [("sigers" if t in ("ixn", "rot") else "lsgs" if t == "qry" else "ssts" if t == "acdc" else "tsgs", 1, c["seed"], False)]
    atts += [a for a in c["atts"] if a[0] != atts[0][0]]
    bad = False
    for g, k, seed, plain in atts:
        if g in ("tdcs", "bsqs", "bsss", "tmqs") and gv == 1:
            continue
        if g in ("bsss", "tmqs"):
            plain = False
        _, (_, vals) = stream.attach(dict(g=g, n=k, seed=seed, big=False), gv)
        ps = primitives(g, vals, plain)
        if g == "cigars" and c["badcig"]:
            ps[0].verfer = coring.Verfer(qb64=kel.qkey(seed))
            bad = True
        groups.append((g, vals))
        if g in BONDS:
            bonds += ps
        else:
            args[g] = ps
    nests, nargs = [], []
    for nt, na, asbytes, s in c["nests"]:
        nraw, nform, _, _, nnative = stream.body(dict(t=nt, kind=c["kind"], v=c["v"], seed=s, wrap=False, big=False), 2)
        ng = [x for x in (stream.attach(dict(g=a[0], n=a[1], seed=a[2], big=False), 2) for a in na) if x]
        text = stream.quad("B", nform + stream.quad("C", "".join(x[0] for x in ng)))
        nargs.append(text.encode() if asbytes else text)
        nests.append((nraw, [x[1] for x in ng]))
    if bonds and len(bonds) == 1 and c["seed"] % 2:
        args["bonds"] = bonds[0]
    elif bonds:
        args["bonds"] = bonds
    if c["gv"]:
        args["gvrsn"] = vrsn[c["gv"]]
    call = lambda: eventing.messagize(cls(raw=raw), nests=nargs or None, framed=c["framed"], nested=c["nested"], genusify=c["genus"], **args)
    if bad:
        refused(call, "a receipt couple of a transferable key")
        return ["refused"]
    msg = call()
    calls, has = stream.method(t, v, raw, groups)
    calls = [(x, raw, has, nests) for x in calls]
    if gv == 1 or not (c["nested"] or c["nests"] and c["framed"]):
        vf.check(bytes(msg)[8 if c["genus"] else 0:].startswith(raw), "the message itself is not there")
    log, psr = stream.parser(version=vrsn[gv] if not c["genus"] else vrsn[1 + c["seed"] // 2 % 2], framed=c["framed"])
    psr.parse(ims=bytearray(msg))
    got, want = stream.seen(log), stream.want(calls)
    vf.check(len(got) == len(want), "%d messages read back of %d", len(got), len(want))
    for g, w in zip(got, want):
        vf.same(bytes(g[1]), bytes(w[1]), "message")
        vf.same(g[0][0], w[0][0], "handler")
        for name in stream.GROUPS:
            vf.same(numbers(g[2][name]), numbers(w[2][name]), f"{name} of {t}")
        vf.same([n[0] for n in g[3]], [n[0] for n in w[3]], "nested messages")
        for n, m in zip(g[3], w[3]):
            for name in stream.GROUPS:
                vf.same(numbers(n[1][name]), numbers(m[1][name]), f"{name} of nested message")
    return [t, f"v{gv}"] if calls else None
