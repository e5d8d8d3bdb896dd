"""A03: signature headers of a request are read as written, and a signature made for a request covers exactly what it names."""
import re, time
from hypothesis import strategies as st
import vf
from . import kel

RULE = ("lists of signature groups of every form (indexed, unindexed, tagged, with signer, ordinal, digest and kind) written to a header, merged and spaced as servers do; and requests with "
        "methods, paths, headers and chosen fields and parameters, signed and then changed in one place or none. Non-trivial: cases with two groups or a tag, or with a change.")
ASSUMPTIONS = ["Ed25519 and BLAKE3 are stand-ins", "the structured field library is a stand-in written from RFC 8941"]
LEGS = []
TAG = st.from_regex(r"[a-z][a-z0-9_]{0,7}", fullmatch=True).filter(lambda t: t not in ("indexed", "signer", "ordinal", "digest", "kind"))
GROUP = st.fixed_dictionaries(dict(
    idx=st.booleans(), told=st.booleans(), keys=st.lists(st.integers(0, 12), min_size=1, max_size=4, unique=True), tags=vf.weighted((2, st.none()), (1, st.lists(TAG, min_size=4, max_size=4, unique=True))),
    signer=st.booleans(), ordinal=vf.weighted((1, st.none()), (1, st.integers(0, 40))), digest=st.booleans(), kind=vf.weighted((1, st.none()), (1, st.just("CESR")))))


@vf.leg(LEGS, st.fixed_dictionaries(dict(groups=st.lists(GROUP, min_size=1, max_size=3), space=st.booleans())), quick=300, thorough=10000)
def marks(c):
    from keri.end.ending import signature, designature, Signage
    from keri.core import Signer, Cigar, Siger  # noqa
    from keri.core import Number
    groups, want = [], []
    for g in c["groups"]:
        ms = []
        for i, k in enumerate(g["keys"]):
            signer = Signer(qb64=kel.seed(k), transferable=g["idx"])
            ms.append(signer.sign(b"text", index=k, only=i % 2 == 1) if g["idx"] else signer.sign(b"text"))
        tags = g["tags"][:len(ms)] if g["tags"] else None
        signer = kel.qkey(50) if g["signer"] else None
        ordinal = f"{g['ordinal']:x}" if g["ordinal"] is not None else None
        digest = kel.qdig("d") if g["digest"] else None
        # no marker can be told apart once written under the same tag
        names = tags or [str(m.index) if g["idx"] else m.verfer.qb64 for m in ms]
        groups.append(Signage(markers=dict(zip(tags, ms)) if tags else ms, indexed=g["idx"] if g["told"] else None, signer=signer, ordinal=ordinal, digest=digest, kind=g["kind"]))
        want.append((dict(zip(names, [m.qb64 for m in ms])), g["idx"], signer, ordinal, digest, g["kind"] or "CESR"))
    got = signature(groups)
    vf.same(list(got), ["Signature"], "header")
    text = got["Signature"]
    for g, w in zip(groups, want):
        if not isinstance(g.markers, dict):
            try:
                bad = signature([g._replace(indexed=not w[1])])
            except ValueError:
                continue
            raise vf.Violation(f"signatures are written as another kind: {bad}")
    for t in [text.replace('indexed="?', 'other="?', 1), text.replace('="', '', 1)]:
        try:
            bad = designature(t)
        except ValueError:
            continue
        raise vf.Violation(f"a header which says not whether signatures are indexed is read: {t}")
    items = re.fullmatch(r'([A-Za-z0-9_\-]+="[^"]*"[;,]?)+', text)
    vf.check(items is not None, "a header not written as named texts: %s", text)
    vf.same(text.count('kind="CESR"'), sum(g["kind"] is not None for g in c["groups"]), "kinds written")
    if c["space"]:
        text = text.replace(",", " , ").replace(";", "; ")
    back = designature(text)
    vf.same([({t: m.qb64 for t, m in s.markers.items()}, s.indexed, s.signer, s.ordinal, s.digest, s.kind) for s in back], want, "signatures read")
    for s in back:
        for m in s.markers.values():
            vf.check(type(m) is (Siger if s.indexed else Cigar), "a signature is read as another kind")
    return "several" if len(groups) > 1 else "tags" if c["groups"][0]["tags"] else None


NAMES = ["Signify-Resource", "signify-timestamp", "Content-Type", "X-A", "x-absent"]
TEXT = st.text("abcXYZ 019:/.;,=-\"'", min_size=1, max_size=16)
REQ = st.fixed_dictionaries(dict(
    method=st.sampled_from(["GET", "POST", "PUT", "DELETE"]), path=st.from_regex(r"/[a-z0-9/%._-]{0,12}", fullmatch=True), heads=st.lists(TEXT, min_size=4, max_size=4),
    fields=st.lists(st.sampled_from(NAMES + ["@method", "@path", "@method", "@path"]), min_size=1, max_size=6, unique=True),
    params=st.fixed_dictionaries(dict(expires=st.one_of(st.none(), st.integers(0, 2**40)), nonce=st.one_of(st.none(), st.from_regex(r"[A-Za-z0-9_-]{1,8}", fullmatch=True)), keyid=st.one_of(st.none(), st.just("pre")),
                                      alg=st.one_of(st.none(), st.just("ed25519")), context=st.one_of(st.none(), st.from_regex(r"[a-z ]{1,8}", fullmatch=True)))),
    hab=st.booleans(), change=st.sampled_from([None, None, "method", "path", "param", "created", "order", "name", 0, 1, 2, 3])))


def base(inp, method, path, heads):
    """what is signed, from what the header says: every field in order, then the parameters"""
    out = [f'"{f}": {method if f == "@method" else path if f == "@path" else heads[f].strip()}' for f in inp["fields"]]
    ps = [f"({' '.join(inp['fields'])})"] + [f"{k}={inp[k]}" for k in ("created", "expires", "nonce", "keyid", "context", "alg") if inp[k] is not None]
    return "\n".join([*out, f'"@signature-params: {";".join(ps)}"']).encode()


@vf.leg(LEGS, REQ, quick=300, thorough=10000)
def covers(c):
    from hio.help import Hict
    from keri.end.ending import siginput, desiginput
    from keri.core import Signer, Verfer
    from types import SimpleNamespace
    signer = Signer(qb64=kel.seed(3), transferable=True)
    pre = kel.qkey(60)
    heads = dict(zip([n for n in NAMES[:4]], c["heads"]))
    params = {k: pre if v == "pre" else v for k, v in c["params"].items()}
    seen = []

    def sign(ser, verfers=None, indexed=True):
        seen.append((ser, indexed))
        return [signer.sign(ser)]
    hab = SimpleNamespace(sign=sign, kever=SimpleNamespace(verfers=[signer.verfer]), pre=pre)
    kw = dict(hab=hab) if c["hab"] else dict(signers=[signer])
    t0 = int(time.time())
    head, cigar = siginput("sig0", c["method"], c["path"], Hict(heads), list(c["fields"]), **kw, **params)
    vf.same(list(head), ["Signature-Input"], "header")
    inputs = desiginput(head["Signature-Input"].encode())
    vf.same(len(inputs), 1, "inputs read")
    inp = inputs[0]._asdict()
    low = {k.lower(): v for k, v in heads.items()}
    want = [f if f.startswith("@") else f.lower() for f in c["fields"] if f.startswith("@") or f.lower() in low]
    vf.same((inp["name"], inp["fields"]), ("sig0", want), "fields covered")
    vf.same({k: inp[k] for k in params}, params, "parameters read")
    vf.check(isinstance(inp["created"], int) and t0 <= inp["created"] <= time.time() + 1, "created is not now: %s", inp["created"])
    ser = base(inp, c["method"], c["path"], low)
    vf.check(signer.verfer.verify(cigar.raw, ser), "a signature does not verify over what it names: %s", ser)
    if c["hab"]:
        vf.same(seen, [(ser, False)], "what is signed")
    try:
        bad = desiginput(re.sub(r";created=[0-9]+", "", head["Signature-Input"]).encode())
    except ValueError:
        bad = None
    vf.check(bad is None, "an input without creation time is read: %s", bad)
    # a change of what is covered shows, of what is not does not
    ch, covered = c["change"], False
    method, path, low2, inp2 = c["method"], c["path"], dict(low), dict(inp)
    if ch is None:
        return None
    if ch == "method":
        method, covered = "PATCH", "@method" in want
    elif ch == "path":
        path, covered = path + "x", "@path" in want
    elif ch == "param":
        inp2["nonce"], covered = (params["nonce"] or "") + "x", True
    elif ch == "created":
        inp2["created"], covered = inp["created"] + 1, True
    elif ch == "order":
        inp2["fields"] = want[::-1]
        covered = len(want) > 1
    elif ch == "name":
        if not want:
            return None
        inp2["fields"], covered = want[:-1], True
    else:
        n = NAMES[ch].lower()
        low2[n], covered = low[n].strip() + "x", n in want
    vf.same(signer.verfer.verify(cigar.raw, base(inp2, method, path, low2)), not covered, f"whether a signature verifies after a change of {ch}")
    return "covered" if covered else "not covered"
