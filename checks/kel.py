"""Reference model of KERI key event logs: simulated controllers which write and sign their own
events (raw JSON/MGPK/CBOR bytes, digests and signatures computed here, not by keri) and the rules by
which a validator moves from one key state to the next, written from the KERI specification."""
import hashlib
import json
from fractions import Fraction
from hypothesis import strategies as st
import vf
from . import cesr

_keys = {}


def key(n):
    """(public, secret) of key number n"""
    if n not in _keys:
        import pysodium
        _keys[n] = pysodium.crypto_sign_seed_keypair(hashlib.blake2b(b"key%d" % n, digest_size=32).digest())
    return _keys[n]


def qkey(n, trans=True):
    return cesr.encode("D" if trans else "B", "", key(n)[0])


def seed(n):
    return cesr.encode("A", "", hashlib.blake2b(b"key%d" % n, digest_size=32).digest())


def qdig(b):
    import blake3
    return cesr.encode("E", "", blake3.blake3(b if isinstance(b, bytes) else b.encode()).digest())


def sign(n, b):
    import pysodium
    return pysodium.crypto_sign_detached(b, key(n)[1])


def dump(sad, kind="JSON"):
    if kind == "JSON":
        return json.dumps(sad, separators=(",", ":"), ensure_ascii=False).encode()
    import msgpack
    import cbor2
    return msgpack.dumps(sad) if kind == "MGPK" else cbor2.dumps(sad)


def build(sad, kind="JSON", said=("d",), v=1):
    """(raw, sad) with size and self-addressing fields filled in"""
    sad = dict(sad)
    for f in said:
        sad[f] = "#" * 44
    vs = (lambda n: f"KERI10{kind}{n:06x}_") if v == 1 else (lambda n: f"KERICAACAA{kind}{cesr.b64(n, 4)}.")
    sad = {"v": vs(0), **sad}
    sad["v"] = vs(len(dump(sad, kind)))
    d = qdig(dump(sad, kind))
    for f in said:
        sad[f] = d
    return dump(sad, kind), sad


def ctr(code, n):
    return f"-{code}{cesr.b64(n, 2)}"


def idx(index, ondex, raw):
    """indexed Ed25519 signature text; ondex None: current only"""
    if ondex is None:
        code = "B" if index < 64 else "2B"
    elif ondex == index and index < 64:
        code = "A"
    else:
        code = "2A"
    return cesr.encode_index(code, index, ondex, raw)


def num(n):
    return cesr.encode("0A", "", n.to_bytes(16, "big"))


# ---- thresholds -------------------------------------------------------------------------------
def thold(spec, n):
    """a canonical threshold over n keys from a small spec"""
    style, x = spec
    style = style % 6 if n > 1 else style % 2 * 2
    if style == 0:
        return f"{1 + x % n:x}" if n else "0"
    if n == 0:
        return "0"
    if style == 1:
        d = 1 + x % n
        return [f"1/{d}" if d > 1 else "1"] * n
    if style == 2:
        return ["1"] + ["0"] * (n - 1) if x % 2 else ["1"] * n
    if style == 3:
        h = 1 + x % (n - 1)
        return [[f"1/{h}" if h > 1 else "1"] * h, [f"1/{n - h}" if n - h > 1 else "1"] * (n - h)]
    if style == 4:
        h = 1 + x % (n - 1)
        return [{"1": [f"1/{h}" if h > 1 else "1"] * h}] + ["1/2" if n - h > 1 else "0"] * (n - h)
    return ["1/2"] * n


def met(th, indices):
    have = set(indices)
    if isinstance(th, str):
        k = int(th, 16)
        return k > 0 and len(have) >= k
    if not have:
        return False
    cs = th if th and isinstance(th[0], list) else [th]
    at = 0
    good = True
    for c in cs:
        w = Fraction(0)
        for e in c:
            if isinstance(e, dict):
                (ow, ws), = e.items()
                got = Fraction(0)
                for x in ws:
                    got += Fraction(x) if at in have else 0
                    at += 1
                w += Fraction(ow) if got >= 1 else 0
            else:
                w += Fraction(e) if at in have else 0
                at += 1
        good = good and w >= 1
    return good


def size(th):
    if isinstance(th, str):
        return int(th, 16)
    cs = th if th and isinstance(th[0], list) else [th]
    return sum(len(list(e.values())[0]) if isinstance(e, dict) else 1 for c in cs for e in c)


# ---- messages -----------------------------------------------------------------------------------
class Sig:
    """one attached signature: key number, indices and whether its bytes are genuine"""
    def __init__(self, k, index, ondex=None, bad=False, code=None):
        self.k, self.index, self.ondex, self.bad, self.code = k, index, ondex, bad, code

    def text(self, raw):
        s = bytearray(sign(self.k, raw))
        if self.bad:
            s[5] ^= 4
        if self.code:
            return cesr.encode_index(self.code, self.index, self.ondex, bytes(s))
        return idx(self.index, self.ondex, bytes(s))

    def __repr__(self):
        return f"Sig({self.k},{self.index},{self.ondex},{self.bad},{self.code})"


class Msg:
    def __init__(self, raw, sad, sigs=(), wigs=(), src=None, extra=b"", broken=False):
        self.raw, self.sad, self.sigs, self.wigs = raw, sad, list(sigs), list(wigs)
        self.src, self.extra, self.broken = src, extra, broken

    def atts(self):
        a = b""
        if self.sigs:
            a += (ctr("A", len(self.sigs)) + "".join(s.text(self.raw) for s in self.sigs)).encode()
        if self.wigs:
            a += (ctr("B", len(self.wigs)) + "".join(s.text(self.raw) for s in self.wigs)).encode()
        if self.src:
            a += (ctr("G", 1) + num(self.src[0]) + self.src[1]).encode()
        return a + self.extra

    def stream(self, group=True):
        a = self.atts()
        if group and a:
            n = len(a) // 4
            a = (f"-V{cesr.b64(n, 2)}" if n < 4096 else f"--V{cesr.b64(n, 5)}").encode() + a
        return self.raw + a


def verified(raw_ok, keys, sigs):
    """the signatures which are genuine for these keys, as (index, ondex) pairs"""
    out = []
    for s in sigs:
        if not s.bad and s.index < len(keys) and keys[s.index][1:] == qkey(s.k)[1:]:
            out.append((s.index, s.index if s.code is None and s.ondex == s.index else s.ondex))
    return out


class Log:
    """what one validator has accepted for one identifier"""
    def __init__(self):
        self.sads = {}      # said -> sad of accepted events
        self.first = []     # saids in first seen order
        self.at = {}        # sn -> saids in order of acceptance
        self.states = {}    # said -> key state it led to
        self.wits_at = {}   # said -> witness list in force


class Model:
    """One validator's view: which messages change the key state, and to what."""
    def __init__(self):
        self.state, self.logs = {}, {}

    def judge(self, m):
        """the new state when the message is acceptable right now, else None"""
        if m.broken:
            return None
        e, t = m.sad, m.sad["t"]
        pre, sn = e["i"], int(e["s"], 16)
        cur = self.state.get(pre)
        if t in ("icp", "dip"):
            return None if cur else self.inception(m, e, sn)
        if cur is None or not (cur["n"] and cur["trans"]):
            return None
        return self.rotation(m, e, sn, cur) if t in ("rot", "drt") else self.interaction(m, e, sn, cur) if t == "ixn" else None

    @staticmethod
    def backed(wits, toad, wigs):
        if len(set(wits)) != len(wits):
            return False
        if not wits:
            return toad == 0
        if not 1 <= toad <= len(wits):
            return False
        return len({i for i, o in verified(True, wits, wigs)}) >= toad

    def inception(self, m, e, sn):
        if sn != 0 or len(e["k"]) < size(e["kt"]):
            return None
        trans = e["i"][0] != "B"
        if not trans and (e["n"] or e["b"] or e["a"]):
            return None
        if e["i"][0] in "BD" and (e["k"] != [e["i"]] or e["kt"] != "1"):
            return None
        v = verified(True, e["k"], m.sigs)
        if not met(e["kt"], [i for i, o in v]) or not self.backed(e["b"], int(e["bt"], 16), m.wigs):
            return None
        if e["t"] == "dip" and not self.approved(m, e, sn):
            return None
        return dict(pre=e["i"], sn=0, d=e["d"], t=e["t"], kt=e["kt"], k=e["k"], nt=e["nt"], n=e["n"], bt=int(e["bt"], 16),
                    b=e["b"], br=[], ba=[], es=0, ed=e["d"], c=e["c"], di=e.get("di", ""), trans=trans, p="")

    def approved(self, m, e, sn):
        return True

    def rotation(self, m, e, sn, cur):
        if cur["di"] and e["t"] != "drt" or not cur["di"] and e["t"] == "drt":
            return None
        log = self.logs[cur["pre"]]
        if sn == cur["sn"] + 1:
            if e["p"] != cur["d"]:
                return None
        elif cur["es"] < sn <= cur["sn"]:
            if e["p"] != log.at[sn - 1][-1]:
                return None
        else:
            return None
        if len(e["k"]) < size(e["kt"]):
            return None
        cuts, adds, wits = e["br"], e["ba"], cur["b"]
        if (len(set(cuts)) != len(cuts) or len(set(adds)) != len(adds) or not set(cuts) <= set(wits)
                or set(adds) & set(wits) or set(cuts) & set(adds)):
            return None
        wits = [w for w in wits if w not in cuts] + adds
        v = verified(True, e["k"], m.sigs)
        if not met(e["kt"], [i for i, o in v]):
            return None
        exposed = [o for i, o in v if o is not None and o < len(cur["n"]) and cur["n"][o] == qdig(e["k"][i])]
        if not met(cur["nt"], exposed):
            return None
        if not self.backed(wits, int(e["bt"], 16), m.wigs):
            return None
        if e["t"] == "drt" and not self.approved(m, e, sn):
            return None
        return dict(cur, sn=sn, d=e["d"], t=e["t"], kt=e["kt"], k=e["k"], nt=e["nt"], n=e["n"], bt=int(e["bt"], 16),
                    b=wits, br=cuts, ba=adds, es=sn, ed=e["d"], p=e["p"])

    def interaction(self, m, e, sn, cur):
        if "EO" in cur["c"] or sn != cur["sn"] + 1 or e["p"] != cur["d"]:
            return None
        v = verified(True, cur["k"], m.sigs)
        if not met(cur["kt"], [i for i, o in v]) or not self.backed(cur["b"], cur["bt"], m.wigs):
            return None
        return dict(cur, sn=sn, d=e["d"], t=e["t"], p=e["p"])

    def accept(self, m):
        new = self.judge(m)
        if new is None:
            return False
        log = self.logs.setdefault(new["pre"], Log())
        new["fn"] = len(log.first)
        log.first.append(new["d"])
        log.at.setdefault(new["sn"], []).append(new["d"])
        log.sads[new["d"]] = m
        log.states[new["d"]] = new
        log.wits_at[new["d"]] = new["b"]
        self.state[new["pre"]] = new
        return True


# ---- simulated controller -------------------------------------------------------------------------
class Ctl:
    """Writes events for one identifier on top of a key state; remembers the keys behind its digests."""
    def __init__(self, model, base, kind="JSON"):
        self.model, self.base, self.kind, self.used = model, base, kind, 0
        self.nums = {}      # qualified key -> key number
        self.pre = None

    def fresh(self, trans=True):
        self.used += 1
        n = self.base + self.used
        self.nums[qkey(n)] = self.nums[qkey(n, False)] = n
        return n

    def wit(self, w):
        n = 900000 + w
        self.nums[qkey(n, False)] = n
        return qkey(n, False)

    @property
    def cur(self):
        return self.model.state.get(self.pre)

    def digests(self, n):
        ks = [qkey(self.fresh()) for _ in range(n)]
        for k in ks:
            self.nums[qdig(k)] = self.nums[k]
        return [qdig(k) for k in ks]

    def incept(self, op, delpre=None):
        nk = max(1, op["nk"])
        trans = not op.get("nontrans")
        if not trans or op.get("basic") and delpre is None:
            nk = 1
        ks = [self.fresh() for _ in range(nk)]
        nxt = self.digests(op["nn"]) if trans else []
        wits = [self.wit(w) for w in dict.fromkeys(op["wits"])] if trans else []
        k = [qkey(x, trans) for x in ks]
        e = dict(t="dip" if delpre is not None else "icp", d="", i="", s="0", kt=thold(op["kt"], nk), k=k, nt=thold(op["nt"], len(nxt)), n=nxt,
                 bt=f"{1 + op['bt'] % len(wits):x}" if wits else "0", b=wits, c=list(op["c"]), a=[])
        if delpre is not None:
            e["di"] = delpre
        basic = op.get("basic") and delpre is None or not trans
        if basic:
            e["i"] = k[0]
            e["kt"] = "1" if op["kt"][1] else e["kt"]
        self.faulty_icp(e, op.get("f"))
        raw, sad = build(e, self.kind, said=("d",) if basic else ("d", "i"))
        m = Msg(raw, sad)
        m.sigs = self.sigs(op["sig"], ks, [None] * nk, establish=True)
        m.wigs = self.wigs(op["wig"], e["b"])
        self.spoil(m, op.get("f"))
        return m

    def faulty_icp(self, e, f):
        if f == "dupwit" and e["b"]:
            e["b"] = e["b"] + [e["b"][0]]
        elif f == "toad0" and e["b"]:
            e["bt"] = "0"
        elif f == "toadbig":
            e["bt"] = f"{len(e['b']) + 1:x}"
        elif f == "sn":
            e["s"] = "1"
        elif f == "thold":
            e["kt"] = f"{len(e['k']) + 1:x}"
        elif f == "ntnext" and e["i"][:1] == "B":
            e["n"], e["nt"] = self.digests(1), "1"
        elif f == "ntwits" and e["i"][:1] == "B":
            e["b"], e["bt"] = [self.wit(1)], "1"
        elif f == "ntdata" and e["i"][:1] == "B":
            e["a"] = [dict(d=qdig("x"))]
        elif f == "basickey" and e["i"]:
            e["k"] = [qkey(self.fresh(), e["i"][0] != "B")]
        elif f == "basicmany" and e["i"]:
            e["k"] = e["k"] + [qkey(self.fresh(), e["i"][0] != "B")]

    def spoil(self, m, f):
        if f == "said":          # not the digest of its content
            d = m.sad["d"]
            other = d[:20] + ("x" if d[20] != "x" else "y") + d[21:]
            m.raw = m.raw.replace(d.encode(), other.encode(), 1)
            m.broken = True
        elif f == "tamper":      # content altered after the digest was made
            raw = m.raw.replace(b'"a":[]', b'"a":{}') if self.kind == "JSON" else m.raw
            m.broken = raw != m.raw
            m.raw = raw

    def sigs(self, spec, ks, at, establish=False):
        """spec None: everybody signs properly; else picks (which key, mode)"""
        out = []
        for w, mode in ([(i, 0) for i in range(len(ks))] if spec is None else spec):
            i = w % len(ks)
            k, o = ks[i], at[i]
            if mode == 0:
                out.append(Sig(k, i, i if (o is None and not establish is None and at == [None] * len(ks)) else o))
            elif mode == 1:
                out.append(Sig(k, i, None))
            elif mode == 2:
                out.append(Sig(k, i, (o if o is not None else i) + 1))
            elif mode == 3:
                out.append(Sig(k, len(ks) + i, len(ks) + i))
            elif mode == 4:
                out.append(Sig(k, i, o if o is not None else i, code="2A"))
            elif mode == 5:
                out.append(Sig(k, i, o, bad=True))
            elif mode == 6:
                out.append(Sig(ks[(i + 1) % len(ks)] if len(ks) > 1 else k + 500000, i, o))
            elif mode == 7:
                out.append(Sig(k, i, None, code="2B"))
        return out

    def wigs(self, spec, wits):
        if not wits:
            return [Sig(900001, 0, 0)] if spec else []
        out = []
        for w, mode in ([(i, 0) for i in range(len(wits))] if spec is None else spec):
            i = w % len(wits)
            k = self.nums[wits[i]]
            if mode == 0:
                out.append(Sig(k, i, i))
            elif mode in (1, 7):
                out.append(Sig(k, i, None))
            elif mode in (2, 3):
                out.append(Sig(k, len(wits) + i, len(wits) + i))
            elif mode == 4:
                out.append(Sig(k, i, i, code="2A"))
            elif mode == 5:
                out.append(Sig(k, i, i, bad=True))
            elif mode == 6:
                out.append(Sig(self.nums[wits[(i + 1) % len(wits)]], i, i, bad=len(wits) == 1))
        return out

    def place(self, op, cur):
        """sequence number and prior digest the event claims"""
        back = op.get("back", 0)
        sn = max(0, cur["sn"] + 1 - back)
        log = self.model.logs[cur["pre"]]
        prior = log.at[sn - 1][-1] if sn >= 1 and sn - 1 in log.at else cur["d"]
        return sn, prior

    def misplace(self, e, f, cur):
        if f == "snskip":
            e["s"] = f"{int(e['s'], 16) + 1:x}"
        elif f == "prior":
            e["p"] = qdig(e["p"])
        elif f == "priorold":
            log = self.model.logs[cur["pre"]]
            e["p"] = next((d for d in log.first if d != e["p"]), qdig("none"))

    def rotate(self, op):
        cur = self.cur
        sn, prior = self.place(op, cur)
        if op.get("then"):
            cur = self.model.logs[cur["pre"]].states.get(prior, cur)
        nxt = cur["n"]
        ks, at = [], []
        for x in (range(len(nxt)) if op["k"] is None else op["k"]):
            j = x % len(nxt) if x >= 0 and nxt else None
            if j is not None and j not in at:
                ks.append(self.nums[nxt[j]])
                at.append(j)
            else:
                ks.append(self.fresh())
                at.append(None)
        if not ks:
            ks, at = [self.fresh()], [None]
        rep = op.get("f") == "dupkey"
        if rep:
            ks.append(ks[0])
            at.append(at[0])
        wits = cur["b"]
        cuts = list(dict.fromkeys(wits[c % len(wits)] for c in op["cut"])) if wits else []
        adds = list(dict.fromkeys(a for a in (self.wit(a) for a in op["add"]) if a not in wits))
        new = [w for w in wits if w not in cuts] + adds
        f = op.get("f")
        bt = f"{1 + op['bt'] % len(new):x}" if new else "0"
        n = self.digests(op["nn"])
        e = dict(t="drt" if cur["di"] else "rot", d="", i=self.pre, s=f"{sn:x}", p=prior, kt=thold(op["kt"], len(ks)), k=[qkey(x) for x in ks],
                 nt=thold(op["nt"], len(n)), n=n, bt=bt, br=cuts, ba=adds, a=list(op.get("a", ())))
        if f == "cutdup" and cuts:
            e["br"] = cuts + [cuts[0]]
        elif f == "cutnot":
            e["br"] = cuts + [self.wit(77)]
        elif f == "adddup" and adds:
            e["ba"] = adds + [adds[0]]
        elif f == "addhas" and wits:
            e["ba"] = adds + [wits[0]]
        elif f == "toad0" and new:
            e["bt"] = "0"
        elif f == "toadbig":
            e["bt"] = f"{len(new) + 1:x}"
        elif f == "thold":
            e["kt"] = f"{len(ks) + 1:x}"
        elif f == "otherilk":
            e["t"] = "rot" if cur["di"] else "drt"
        self.misplace(e, f, cur)
        raw, sad = build(e, self.kind)
        m = Msg(raw, sad)
        m.sigs = self.sigs(op["sig"], ks, at, establish=None)
        m.wigs = self.wigs(op["wig"], new)
        self.spoil(m, f)
        return m

    def interact(self, op):
        cur = self.cur
        sn, prior = self.place(op, cur)
        if op.get("then"):
            cur = self.model.logs[cur["pre"]].states.get(prior, cur)
        e = dict(t="ixn", d="", i=self.pre, s=f"{sn:x}", p=prior, a=list(op.get("a", ())))
        self.misplace(e, op.get("f"), cur)
        raw, sad = build(e, self.kind)
        m = Msg(raw, sad)
        ks = [self.nums[k] for k in cur["k"]]
        if op.get("f") == "oldkeys":    # signed with keys in force before the last rotation
            ks = [k + 1 for k in ks]
        m.sigs = self.sigs(op["sig"], ks, [None] * len(ks), establish=True)
        m.wigs = self.wigs(op["wig"], cur["b"])
        self.spoil(m, op.get("f"))
        return m


# ---- generation ---------------------------------------------------------------------------------
TH = st.tuples(st.integers(0, 5), st.integers(0, 5))
MODES = vf.weighted((6, st.just(0)), (1, st.integers(1, 7)))
SIGS = st.lists(st.tuples(st.integers(0, 5), MODES), max_size=6)


def some(always, s, w=3):
    if w is None:
        return st.just(always)
    return vf.weighted((w, st.just(always)), (1, s))


def sigspec(w):
    return some(None, SIGS, w)


def fault(names, w):
    return some(None, st.sampled_from(names), w) if names and w is not None else st.none()


DATA = some([], st.lists(st.dictionaries(st.sampled_from(["d", "x", "é"]), st.text(max_size=4), min_size=1), max_size=2))


def icps(sw=4, fw=9, wits=4):
    return st.fixed_dictionaries(dict(
        op=st.just("icp"), nk=st.integers(1, 4), nn=vf.weighted((6, st.integers(1, 4)), (1, st.just(0))), kt=TH, nt=TH,
        wits=st.lists(st.integers(0, 5), max_size=wits), bt=st.integers(0, 4), c=some([], st.sampled_from([["EO"], ["DND"], ["EO", "DND"]]), 5),
        basic=some(False, st.just(True), 4), nontrans=some(False, st.just(True), 11), sig=sigspec(sw), wig=sigspec(sw),
        f=fault(["dupwit", "toad0", "toadbig", "sn", "thold", "said", "tamper", "ntnext", "ntwits", "ntdata", "basickey", "basicmany"], fw)))


def rots(sw=2, fw=4, back=4):
    return st.fixed_dictionaries(dict(
        op=st.just("rot"), k=some(None, st.lists(st.integers(-1, 4), min_size=1, max_size=4), 2), nn=vf.weighted((9, st.integers(1, 4)), (1, st.just(0))),
        kt=TH, nt=TH, cut=some([], st.lists(st.integers(0, 5), max_size=3), 2), add=some([], st.lists(st.integers(0, 8), max_size=3), 2),
        bt=st.integers(0, 5), back=some(0, st.integers(0, 4), back), then=st.booleans(), a=DATA, sig=sigspec(sw), wig=sigspec(sw),
        f=fault(["cutdup", "cutnot", "adddup", "addhas", "toad0", "toadbig", "thold", "otherilk", "snskip", "prior", "priorold", "said",
                 "tamper", "dupkey"], fw)))


def ixns(sw=3, fw=4, back=5):
    return st.fixed_dictionaries(dict(
        op=st.just("ixn"), a=DATA, back=some(0, st.integers(0, 4), back), then=st.booleans(), sig=sigspec(sw), wig=sigspec(sw),
        f=fault(["snskip", "prior", "priorold", "said", "tamper", "oldkeys"], fw)))


REDO = st.fixed_dictionaries(dict(op=st.just("again"), which=st.integers(0, 20)))
KIND = some("JSON", st.sampled_from(["MGPK", "CBOR"]), 2)


# ---- the code under test ----------------------------------------------------------------------------
class Val:
    """A real validator (database, Kevery, Parser)"""
    count = 0

    def __init__(self, **kwa):
        from keri.db.basing import Baser
        from keri.core.eventing import Kevery
        from keri.core.parsing import Parser
        from keri.core.routing import Router, Revery
        from keri.kering import Vrsn_1_0
        Val.count += 1
        self.db = Baser(**kwa.pop("db", dict(name=f"val{Val.count}", temp=True, reopen=True)))
        self.rtr = Router()
        self.rvy = Revery(db=self.db, rtr=self.rtr, lax=kwa.get("lax", True), local=kwa.get("local", False))
        self.kvy = Kevery(db=self.db, rvy=self.rvy, **kwa)
        self.kvy.registerReplyRoutes(self.rtr)
        self.psr = Parser(kvy=self.kvy, rvy=self.rvy, version=Vrsn_1_0)

    def give(self, stream, local=None):
        ims = bytearray(stream)
        self.psr.parse(ims=ims, local=local)
        return ims

    def escrows(self, n=1):
        for _ in range(n):
            self.kvy.processEscrows()

    def close(self):
        self.db.close(clear=True)

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.close()


def canonical(th):
    return th


def compare(val, model, pre, what="", db=None):
    """the validator's key state and logs for pre against the model"""
    db = db or val.db
    want = model.state.get(pre)
    if want is None:
        vf.check(pre not in db.kevers, "%s: an identifier was accepted whose inception is not acceptable", what)
        vf.same([x for x in db.fels.getAllItemIter(keys=pre)], [], f"{what}: first seen log of an unaccepted identifier")
        return
    vf.check(pre in db.kevers, "%s: an acceptable inception was not accepted", what)
    kv = db.kevers[pre]
    got = dict(pre=kv.prefixer.qb64, sn=kv.sner.num, d=kv.serder.said, t=kv.ilk, kt=kv.tholder.sith, k=[v.qb64 for v in kv.verfers],
               nt=kv.ntholder.sith, n=[d.qb64 for d in kv.ndigers], bt=kv.toader.num, b=list(kv.wits), br=list(kv.cuts), ba=list(kv.adds),
               es=kv.lastEst.s, ed=kv.lastEst.d, di=kv.delpre or "", fn=kv.fner.num,
               c=[x for x, on in (("EO", kv.estOnly), ("DND", kv.doNotDelegate)) if on])
    exp = {k: v for k, v in want.items() if k not in ("p", "trans")}
    exp["c"] = sorted(exp["c"], reverse=True)   # EO before DND
    bad = {k: (got[k], exp[k]) for k in got if got[k] != exp[k]}
    vf.check(not bad, "%s: key state differs (got, want): %r", what, bad)
    ks = db.states.get(keys=pre)
    vf.check(ks is not None, "%s: no stored key state", what)
    stored = dict(pre=ks.i, sn=int(ks.s, 16), d=ks.d, t=ks.et, kt=ks.kt, k=list(ks.k), nt=ks.nt, n=list(ks.n), bt=int(ks.bt, 16),
                  b=list(ks.b), br=list(ks.ee.br or []), ba=list(ks.ee.ba or []), es=int(ks.ee.s, 16), ed=ks.ee.d, di=ks.di, fn=int(ks.f, 16),
                  c=sorted(ks.c, reverse=True), p=ks.p)
    exp["p"] = want["p"]
    bad = {k: (stored[k], exp[k]) for k in stored if stored[k] != exp[k]}
    vf.check(not bad, "%s: stored key state differs (got, want): %r", what, bad)
    log = model.logs[pre]
    vf.same([(fn, d) for _, fn, d in db.fels.getAllItemIter(keys=pre)], list(enumerate(log.first)), f"{what}: first seen log")
    vf.same([(sn, d) for _, sn, d in db.kels.getAllItemIter(keys=pre)],
            [(sn, d) for sn in sorted(log.at) for d in log.at[sn]], f"{what}: events by sequence number")


def label(m, new):
    t = m.sad["t"]
    return f"{t}-{'accepted' if new else 'refused'}"


def run(case, val, model, ctl, after=None):
    """drives one controller's history of ops; each message judged, delivered and compared"""
    labels, sent = set(), []
    for i, op in enumerate(case["ops"]):
        o = op["op"]
        if o == "icp":
            if ctl.cur:
                continue
            m = ctl.incept(op)
        elif o == "again":
            if not sent:
                continue
            m = sent[op["which"] % len(sent)]
        elif ctl.cur is None or not ctl.cur["k"]:
            continue
        else:
            m = ctl.rotate(op) if o == "rot" else ctl.interact(op)
        pre = m.sad["i"]
        was = model.state.get(pre)
        acc = model.accept(m)
        if acc and ctl.pre is None:
            ctl.pre = pre
        labels.add(("again-" if o == "again" else "") + label(m, acc))
        if acc and was and int(m.sad["s"], 16) <= was["sn"]:
            labels.add("superseded")
        left = val.give(m.stream())
        what = f"message {i} ({o} sn={m.sad['s']} fault={op.get('f')})"
        vf.check(not left, "%s: %d bytes left in the stream", what, len(left))
        compare(val, model, pre, what)
        sent.append(m)
        if after:
            after(m, acc, what)
    return labels


def audit(val, model, pre, what="", sigs=None):
    """every signature stored with an accepted event is genuine, and no genuine one given is missing"""
    from keri.core import Verfer
    for said, m in model.logs[pre].sads.items():
        keys = m.sad.get("k") or model.logs[pre].states[said]["k"]
        wits = model.logs[pre].wits_at[said]
        for name, db, ks in (("signature", val.db.sigs, keys), ("witness signature", val.db.wigs, wits)):
            for s in db.get(keys=(pre, said)):
                vf.check(s.index < len(ks), "%s: stored %s %d of event %s is out of range", what, name, s.index, m.sad["s"])
                vf.check(Verfer(qb64=ks[s.index]).verify(s.raw, m.raw), "%s: stored %s %d of event sn=%s does not verify", what, name, s.index, m.sad["s"])
        if sigs is not None:
            for name, db, given, ks in (("signature", val.db.sigs, sigs[said][0], keys), ("witness signature", val.db.wigs, sigs[said][1], wits)):
                have = {s.index for s in db.get(keys=(pre, said))}
                miss = {i for i, o in verified(True, ks, given)} - have
                vf.check(not miss, "%s: given genuine %ss %r of event sn=%s are not stored (%r are)", what, name, sorted(miss), m.sad["s"], sorted(have))


def gathered(case, val, model, ctl):
    """proper base history, then one event whose signatures arrive in parts; accepted exactly when together they suffice"""
    labels = run(dict(ops=case["base"]), val, model, ctl)
    if ctl.cur is None or not ctl.cur["n"] and case["target"]["op"] == "rot":
        return None
    if "EO" in ctl.cur["c"] and case["target"]["op"] == "ixn":
        return None
    m = ctl.rotate(case["target"]) if case["target"]["op"] == "rot" else ctl.interact(case["target"])
    pre, said = m.sad["i"], m.sad["d"]
    keys = m.sad.get("k", ctl.cur["k"])
    full, fullw = m.sigs, m.wigs
    got, gotw, late = [], [], 0
    accepted = False
    probe = Model.judge(model, m)
    for i, (ss, ws, esc) in enumerate(case["parts"]):
        part = Msg(m.raw, m.sad, [full[x % len(full)] for x in ss] if full else [], [fullw[x % len(fullw)] for x in ws] if fullw else [])
        what = f"part {i} of {m.sad['t']} sn={m.sad['s']}"
        usable = bool(verified(True, keys, part.sigs))
        if usable:
            got += part.sigs
            gotw += part.wigs
        val.give(part.stream())
        if esc or accepted:
            val.escrows(2)
        if not accepted:
            whole = Msg(m.raw, m.sad, got, gotw)
            if model.judge(whole) and (esc or model.judge(part)):
                model.accept(whole)
                accepted = True
        else:
            late += 1
        compare(val, model, pre, what)
    if not accepted:
        val.escrows(2)
        if model.accept(Msg(m.raw, m.sad, got, gotw)):
            accepted = True
        compare(val, model, pre, "after escrows")
    if accepted:
        sads = model.logs[pre].sads
        audit(val, model, pre, "gathered", {d: (sads[d].sigs, sads[d].wigs) if d != said else (got, gotw) for d in sads})
    return ["accepted" + ("-late" if late else "") if accepted else "never-met", "first-part-enough" if accepted and len(case["parts"]) == 1 else "parts"]


GOODICP = icps(sw=None, fw=None)
GOODROT = rots(sw=None, fw=None, back=None)
GOODIXN = ixns(sw=None, fw=None, back=None)


PICK = vf.weighted((4, st.lists(st.integers(0, 5), max_size=3)), (1, st.lists(st.integers(0, 5), min_size=3, max_size=6)), (1, st.just([0, 1, 2, 3, 4, 5])))
PARTS = st.lists(st.tuples(PICK, PICK, st.booleans()), min_size=1, max_size=5)


def lawful(val, pool, pre, before=(), what=""):
    """The validator's first seen log for pre only grew, is a history the rules allow given everything
    delivered so far (pool: said -> Msg with all signatures given), and led to its state.  Returns the log."""
    db = val.db
    fel = [d for _, fn, d in db.fels.getAllItemIter(keys=pre)]
    vf.check(fel[:len(before)] == list(before), "%s: first seen events changed: %r then %r", what, before, fel)
    vf.check(len(set(fel)) == len(fel), "%s: an event was first seen twice: %r", what, fel)
    model = Model()
    for d in fel:
        vf.check(d in pool, "%s: event %s accepted but never delivered", what, d)
        vf.check(model.accept(pool[d]), "%s: event %s sn=%s accepted out of the rules after %r", what, pool[d].sad["t"], pool[d].sad["s"],
                 [(pool[x].sad["t"], pool[x].sad["s"]) for x in fel[:fel.index(d)]])
    compare(val, model, pre, what)
    return fel, model


class Pool(dict):
    """said -> message carrying every signature delivered with that event so far"""
    def add(self, m):
        if m.broken:
            return
        d = m.sad["d"]
        if d not in self:
            self[d] = Msg(m.raw, m.sad)
        self[d].sigs = self[d].sigs + m.sigs
        self[d].wigs = self[d].wigs + m.wigs


def author(ops, base=0, kind="JSON", ctl=None):
    """messages of a controller acting on ops against its own always consistent view; (messages, model, ctl)"""
    model = Model() if ctl is None else ctl.model
    ctl = ctl or Ctl(model, base, kind)
    out = []
    for op in ops:
        o = op["op"]
        if o == "icp":
            if ctl.cur:
                continue
            m = ctl.incept(op)
        elif ctl.cur is None or not ctl.cur["k"]:
            continue
        elif o == "rot":
            if not ctl.cur["n"]:
                continue
            m = ctl.rotate(op)
        elif o == "ixn":
            if "EO" in ctl.cur["c"]:
                continue
            m = ctl.interact(op)
        acc = model.accept(m)
        if acc and ctl.pre is None:
            ctl.pre = m.sad["i"]
        out.append((m, acc))
    return out, model, ctl


def couple(k, raw, bad=False, trans=False):
    """nontransferable receipt couple of key number k over raw"""
    sig = bytearray(sign(k, raw))
    if bad:
        sig[7] ^= 1
    return qkey(k, trans) + cesr.encode("0B", "", bytes(sig))


def rct(pre, sn, said, raw, wigs=(), couples=(), groups=(), kind="JSON"):
    """a receipt message of the event whose bytes are raw: indexed witness signatures, nontransferable
    couples (key number, bad, transferable), transferable groups (prefix, sn, said, Sigs)"""
    body, _ = build(dict(t="rct", d=said, i=pre, s=f"{sn:x}"), kind, said=())
    a = b""
    if wigs:
        a += (ctr("B", len(wigs)) + "".join(s.text(raw) for s in wigs)).encode()
    if couples:
        a += (ctr("C", len(couples)) + "".join(couple(k, raw, b, t) for k, b, t in couples)).encode()
    for p, n, d, sigs in groups:
        a += (ctr("F", 1) + p + num(n) + d + ctr("A", len(sigs)) + "".join(s.text(raw) for s in sigs)).encode()
    n = len(a) // 4
    return body + f"-V{cesr.b64(n, 2)}".encode() + a
