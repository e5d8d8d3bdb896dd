"""C06: a signature verifies for exactly the data and key it was made with; keys are reproducible from salt and path."""
from hypothesis import strategies as st
import vf
from . import cesr

RULE = ("seeds of all three signature schemes, random data, unindexed signatures and every pair of indices across the code "
        "boundaries; each verified, parsed back and verified again, then data, signature, key or scheme altered by one bit; "
        "salts and paths stretched against the key derivation called directly. Non-trivial: every altered or indexed case.")
ASSUMPTIONS = ["libsodium, OpenSSL and argon2 stand-ins compute the published algorithms"]
LEGS = []
# seed code -> (transferable key, non-transferable key, signature, index codes: both, only, big both, big only)
SUITES = {"A": ("D", "B", "0B", ("A", "B", "2A", "2B")), "Q": ("1AAJ", "1AAI", "0I", ("E", "F", "2E", "2F")),
          "J": ("1AAB", "1AAA", "0C", ("C", "D", "2C", "2D"))}
SEED = st.binary(min_size=32, max_size=32).filter(lambda b: b[0] < 0xff and any(b))


def keypair(code, seed):
    """public key computed apart from keri"""
    if code == "A":
        import pysodium
        return pysodium.crypto_sign_seed_keypair(seed)[0]
    p, a, b, g, _ = CURVES[code]
    x, y = mul(int.from_bytes(seed, "big"), g, p, a)
    return bytes([2 + (y & 1)]) + x.to_bytes(32, "big")


CURVES = {"Q": (0xffffffff00000001000000000000000000000000ffffffffffffffffffffffff, -3,
                0x5ac635d8aa3a93e7b3ebbd55769886bc651d06b0cc53b0f63bce3c3e27d2604b,
                (0x6b17d1f2e12c4247f8bce6e563a440f277037d812deb33a0f4a13945d898c296,
                 0x4fe342e2fe1a7f9b8ee7eb4a7c0f9e162bce33576b315ececbb6406837bf51f5),
                0xffffffff00000000ffffffffffffffffbce6faada7179e84f3b9cac2fc632551),
          "J": (2 ** 256 - 2 ** 32 - 977, 0, 7,
                (0x79be667ef9dcbbac55a06295ce870b07029bfcdb2dce28d959f2815b16f81798,
                 0x483ada7726a3c4655da4fbfc0e1108a8fd17b448a68554199c47d08ffb10d4b8),
                0xfffffffffffffffffffffffffffffffebaaedce6af48a03bbfd25e8cd0364141)}


def add(P, Q, p, a):
    if P is None:
        return Q
    if Q is None:
        return P
    if P[0] == Q[0] and (P[1] + Q[1]) % p == 0:
        return None
    m = (3 * P[0] * P[0] + a) * pow(2 * P[1], -1, p) if P == Q else (Q[1] - P[1]) * pow(Q[0] - P[0], -1, p)
    x = (m * m - P[0] - Q[0]) % p
    return x, (m * (P[0] - x) - P[1]) % p


def mul(k, P, p, a):
    R = None
    while k:
        if k & 1:
            R = add(R, P, p, a)
        P = add(P, P, p, a)
        k >>= 1
    return R


def ok(code, key, sig, ser):
    """reference verification"""
    if code == "A":
        import pysodium
        try:
            pysodium.crypto_sign_verify_detached(sig, ser, key)
            return True
        except ValueError:
            return False
    import hashlib
    p, a, b, g, n = CURVES[code]
    r, s = int.from_bytes(sig[:32], "big"), int.from_bytes(sig[32:], "big")
    if not (0 < r < n and 0 < s < n):
        return False
    x = int.from_bytes(key[1:], "big")
    y = pow(x ** 3 + a * x + b, (p + 1) // 4, p)
    if y & 1 != key[0] & 1:
        y = p - y
    z, w = int.from_bytes(hashlib.sha256(ser).digest(), "big"), pow(s, -1, n)
    R = add(mul(z * w % n, g, p, a), mul(r * w % n, (x, y), p, a), p, a)
    return R is not None and R[0] % n == r


INDEX = st.one_of(st.integers(0, 3), st.sampled_from([62, 63, 64, 65, 4094, 4095]), st.integers(0, 4095))


@vf.leg(LEGS, st.tuples(st.sampled_from("AAAQJ"), SEED, st.booleans(), st.binary(max_size=60), st.none() | INDEX,
                        st.none() | INDEX, st.booleans(), st.integers(0, 10 ** 6), st.integers(0, 7), SEED), quick=1600)
def signatures(c):
    from keri.core.signing import Signer
    from keri.core.coring import Verfer, Cigar
    from keri.core.indexing import Siger
    code, seed, trans, ser, index, ondex, only, at, bit, other = c
    s = Signer(raw=seed, code=code, transferable=trans)
    kt, kn, sc, idx = SUITES[code]
    kcode = kt if trans else kn
    pub = keypair(code, seed)
    vf.same(s.verfer.qb64, cesr.encode(kcode, "", pub), "public key")
    vf.same(s.qb64, cesr.encode(code, "", seed), "private key")
    vf.same(Signer(qb64=s.qb64, transferable=trans).verfer.qb64, s.verfer.qb64, "public key of the same seed")
    sig = s.sign(ser, index=index, ondex=ondex, only=only)
    if index is None:
        vf.same((type(sig), sig.code, sig.verfer.qb64), (Cigar, sc, s.verfer.qb64), "unindexed signature")
        again = Cigar(qb64=sig.qb64)
    else:
        small = index <= 63 and (only or ondex in (None, index))
        want = idx[(1 if only else 0) + (0 if small else 2)]
        od = None if only else index if ondex is None else ondex
        vf.same((type(sig), sig.code, sig.index, sig.ondex, sig.verfer.qb64), (Siger, want, index, od, s.verfer.qb64), "indexed signature")
        vf.same(sig.qb64, cesr.encode_index(want, index, od, sig.raw), "encoded signature")
        again = Siger(qb64=sig.qb64)
        vf.same((again.code, again.index, again.ondex), (want, index, od), "indexed signature back")
    vf.same(again.raw, sig.raw, "signature back")
    vf.check(ok(code, pub, sig.raw, ser), "signature is not valid by the reference")
    for v in (s.verfer, Verfer(qb64=s.verfer.qb64), Verfer(raw=pub, code=kn if trans else kt)):
        vf.check(v.verify(sig=again.raw, ser=ser), "signature does not verify")
        sgn = bytearray(sig.raw)
        sgn[at % 64] ^= 1 << bit
        alts = [(bytes(sgn), ser), (sig.raw, ser + b"\0"), (sig.raw, ser[:-1] if ser else b"x"), (bytes(64), ser), (sig.raw[32:] + sig.raw[:32], ser)]
        if ser:
            k = at % len(ser)
            alts.append((sig.raw, ser[:k] + bytes([ser[k] ^ 1 << bit]) + ser[k + 1:]))
        for a, m in alts:
            vf.same(v.verify(sig=a, ser=m), False, f"altered signature or data {a.hex()} {m!r} verifies")
    if other != seed:
        o = Signer(raw=other, code=code)
        vf.check(not o.verfer.verify(sig=sig.raw, ser=ser), "signature verifies with another key")
    return [code, "cigar" if index is None else sig.code]


@vf.leg(LEGS, st.tuples(st.binary(min_size=16, max_size=16), st.text(max_size=8), st.integers(0, 40), st.integers(1, 3), st.sampled_from("AQJ"),
                        st.booleans(), st.text(max_size=3)), quick=400)
def salted(c):
    import pysodium
    from keri.core.signing import Salter
    salt, path, start, n, code, trans, more = c
    s = Salter(raw=salt)
    vf.same(s.qb64, cesr.encode("0A", "", salt), "salt")
    got = s.signers(count=n, start=start, path=path, code=code, transferable=trans, temp=True)
    vf.same(len(got), n, "count")
    for i, g in enumerate(got):
        p = f"{path}{start + i:x}"
        seed = pysodium.crypto_pwhash(32, p, salt, 1, 8192, 2)
        vf.same((g.raw, g.code, g.verfer.code), (seed, code, SUITES[code][0 if trans else 1]), f"key at {p!r}")
        one = Salter(qb64=s.qb64).signer(path=p, code=code, transferable=trans, temp=True)
        vf.same((one.qb64, one.verfer.qb64), (g.qb64, g.verfer.qb64), "same key on its own")
    if more:
        vf.check(s.signer(path=p + more, code=code, temp=True).raw != got[-1].raw, "paths share a key")
    vf.same(len({g.qb64 for g in got}), n, "keys differ")
    vf.same(s.stretch(size=16 + n, path=path, temp=True), pysodium.crypto_pwhash(16 + n, path, salt, 1, 8192, 2), "stretched")
    return code


@vf.leg(LEGS, cases=[("low", 0), ("low", 1), ("med", 0), ("med", 1), ("high", 0), ("high", 1), ("bad", 0)])
def tiers(c):
    """the security tier sets the work factor; temp must be asked for"""
    import pysodium
    from keri.core.signing import Salter
    tier, dflt = c
    calls = []
    real = pysodium.crypto_pwhash
    pysodium.crypto_pwhash = lambda outlen, passwd, salt, opslimit, memlimit, alg: (
        calls.append((outlen, passwd, salt, opslimit, memlimit, alg)), bytes(outlen))[1]
    try:
        salt = bytes(range(16))
        s = Salter(raw=salt, tier=tier) if dflt else Salter(raw=salt)
        kw = {} if dflt else dict(tier=tier)
        if tier == "bad":
            try:
                s.stretch(path="x", **kw)
            except ValueError:
                return "refused"
            raise vf.Violation("unknown tier accepted")
        s.stretch(path="x", **kw)
        ops, mem = {"low": (2, 67108864), "med": (3, 268435456), "high": (4, 1073741824)}[tier]
        vf.same(calls, [(32, "x", salt, ops, mem, 2)], f"work of tier {tier}")
    finally:
        pysodium.crypto_pwhash = real
    return tier


@vf.leg(LEGS, st.tuples(st.sampled_from("AQJ"), st.integers(0, 3)), quick=60)
def fresh(c):
    """keys and salts made without a given secret are random, never repeated"""
    from keri.core.signing import Signer, Salter
    code, n = c
    got = [Signer(code=code).raw for _ in range(n + 2)]
    vf.same(len(set(got)), n + 2, "random keys repeat")
    vf.check(all(len(g) == 32 and any(g) for g in got), "key size")
    salts = [Salter().raw for _ in range(n + 2)]
    vf.same(len(set(salts)), n + 2, "random salts repeat")
    return code
