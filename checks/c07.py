"""C07: what is encrypted to a key comes back whole with that key's seed, and not at all otherwise."""
from hypothesis import strategies as st
import vf
from . import cesr

RULE = ("seeds, salts, keys, signatures and free streams of random content and size, encrypted under every cipher code to public "
        "keys derived from random signing seeds, decrypted by every route; then cipher text altered by one bit, cut, or opened with "
        "another key. Non-trivial: every round trip.")
ASSUMPTIONS = ["the sealed box stand-in is authenticated encryption as libsodium documents"]
LEGS = []
SEED = st.binary(min_size=32, max_size=32)


def refused(fn, what):
    from keri.kering import KeriError
    try:
        r = fn()
    except (KeriError, ValueError, KeyError, IndexError, TypeError):
        return
    raise vf.Violation(f"{what}: {vf.short(getattr(r, 'qb64', r), 200)}")


@vf.leg(LEGS, st.tuples(SEED, SEED, st.booleans(), st.sampled_from(["seed", "salt", "big", "qb64", "qb2", "stream", "streamer"]),
                        st.binary(min_size=64, max_size=64), st.sampled_from(["B", "D", "E", "0B", "A", "0A", "1AAB", "X"]),
                        st.one_of(st.binary(min_size=1, max_size=100), st.binary(min_size=1, max_size=40).map(lambda b: b * 400)),
                        st.integers(0, 10 ** 6), st.integers(0, 7), st.booleans()), quick=600)
def roundtrip(c):
    import pysodium
    from keri.core.coring import Matter
    from keri.core.signing import Encrypter, Decrypter, Cipher, Signer, Salter, Streamer
    seed, other, trans, what, raw, code, stream, at, bit, viaqb2 = c
    signer = Signer(raw=seed, transferable=trans)
    pub = pysodium.crypto_sign_pk_to_box_pk(signer.verfer.raw)
    enc = Encrypter(verkey=signer.verfer.qb64)
    vf.same((enc.code, enc.raw), ("C", pub), "encryption key")
    vf.same(Encrypter(verkey=signer.verfer.qb64b).qb64, enc.qb64, "encryption key")
    vf.check(enc.verifySeed(signer.qb64), "seed does not match its encryption key")
    vf.same(enc.verifySeed(Signer(raw=other).qb64), other == seed, "another seed matches the encryption key")
    dec = Decrypter(seed=signer.qb64b)
    vf.same(Decrypter(qb64=dec.qb64).raw, dec.raw, "decryption key")
    kw = dict(transferable=trans)
    if what == "seed":
        prim = Signer(raw=raw[:32], transferable=trans)
        cip = enc.encrypt(prim=prim) if at % 2 else enc.encrypt(ser=prim.qb64, code="P")
        plain, get, ccode = prim.qb64b, lambda d: (d.qb64b, d.verfer.qb64 == prim.verfer.qb64, type(d)), "P"
        want = (plain, True, Signer)
    elif what == "salt":
        prim = Salter(raw=raw[:16])
        cip = enc.encrypt(prim=prim) if at % 2 else enc.encrypt(ser=bytearray(prim.qb64b), code="1AAH")
        plain, get, ccode, want = prim.qb64b, lambda d: (d.qb64b, type(d)), "1AAH", (prim.qb64b, Salter)
    elif what in ("qb64", "qb2", "big"):
        if what == "big":
            prim = Matter(raw=stream, code="4B")
        elif code == "X":
            prim = Matter(soft="icp", code="X")
        else:
            prim = Matter(raw=raw[:cesr.raw_size(code)], code=code)
        letter = "E" if what == "qb2" else "D"
        asked = ["4", "5", "6", "7AA"][at % 4] + letter
        cip = enc.encrypt(prim=prim, code=asked)
        plain = prim.qb2 if what == "qb2" else prim.qb64b
        n = len(plain) + 48
        ccode = cesr.var_code(letter, n) if asked[0] in "456" else "789"[-n % 3] + "AA" + letter
        kw["klas"] = Matter if what != "qb64" else type(prim)
        get, want = lambda d: (d.qb64, d.raw), (prim.qb64, prim.raw)
    else:
        cip = enc.encrypt(ser=stream) if what == "stream" else enc.encrypt(prim=Streamer(stream), code="4C")
        plain, ccode = stream, cesr.var_code("C", len(stream) + 48)
        get, want = lambda d: (type(d), bytes(d.stream)), (Streamer, stream)
    vf.same(cip.code, ccode, "cipher code")
    vf.same(cip.qb64, cesr.encode(ccode, "", cip.raw), "encoded cipher text")
    vf.check(plain not in cip.raw, "plain text shows")
    forms = [lambda k: dec.decrypt(cipher=cip, **k), lambda k: dec.decrypt(qb64=cip.qb64, **k), lambda k: dec.decrypt(qb2=cip.qb2, **k),
             lambda k: cip.decrypt(seed=signer.qb64, **k), lambda k: cip.decrypt(prikey=dec.qb64, **k),
             lambda k: Cipher(qb64=cip.qb64).decrypt(seed=signer.qb64b, **k)]
    for i, f in enumerate(forms):
        vf.same(get(f(kw)), want, f"decrypted by way {i}")
        vf.same(bytes(f(dict(bare=True))), bytes(plain), f"plain text by way {i}")
    again = enc.encrypt(ser=plain, code=ccode)
    vf.check(again.raw != cip.raw, "same cipher text twice")
    alt = bytearray(cip.raw)
    alt[at % len(alt)] ^= 1 << bit
    kw["bare"] = True
    refused(lambda: dec.decrypt(cipher=Cipher(raw=bytes(alt), code=cip.code), **kw), "altered cipher text decrypted")
    if other != seed:
        refused(lambda: Decrypter(seed=Signer(raw=other).qb64).decrypt(cipher=cip, **kw), "decrypted with another key")
        refused(lambda: cip.decrypt(seed=Signer(raw=other).qb64, **kw), "decrypted with another key")
    refused(lambda: Encrypter(verkey=cesr.encode("1AAI", "", b"\2" + raw[:32])), "encrypts to a key of another scheme")
    return [what, cip.code]
