"""ECDSA over secp256r1 / secp256k1, pure Python, RFC 6979 nonces."""
import hashlib
import hmac
from functools import lru_cache
from ....exceptions import InvalidSignature
from . import utils
from ..serialization import Encoding, PublicFormat


class SECP256R1:
    name = "secp256r1"
    p = 0xffffffff00000001000000000000000000000000ffffffffffffffffffffffff
    a = p - 3
    b = 0x5ac635d8aa3a93e7b3ebbd55769886bc651d06b0cc53b0f63bce3c3e27d2604b
    n = 0xffffffff00000000ffffffffffffffffbce6faada7179e84f3b9cac2fc632551
    G = (0x6b17d1f2e12c4247f8bce6e563a440f277037d812deb33a0f4a13945d898c296,
         0x4fe342e2fe1a7f9b8ee7eb4a7c0f9e162bce33576b315ececbb6406837bf51f5)


class SECP256K1:
    name = "secp256k1"
    p = 2**256 - 2**32 - 977
    a = 0
    b = 7
    n = 0xfffffffffffffffffffffffffffffffebaaedce6af48a03bbfd25e8cd0364141
    G = (0x79be667ef9dcbbac55a06295ce870b07029bfcdb2dce28d959f2815b16f81798,
         0x483ada7726a3c4655da4fbfc0e1108a8fd17b448a68554199c47d08ffb10d4b8)


def _dbl(c, P):
    X, Y, Z = P
    if not Z or not Y:
        return (1, 1, 0)
    p = c.p
    S = 4 * X * Y * Y % p
    Z2 = Z * Z % p
    M = (3 * X * X + c.a * Z2 * Z2) % p
    X3 = (M * M - 2 * S) % p
    Y3 = (M * (S - X3) - 8 * pow(Y, 4, p)) % p
    return (X3, Y3, 2 * Y * Z % p)


def _add(c, P, Q):
    if not P[2]:
        return Q
    if not Q[2]:
        return P
    p = c.p
    X1, Y1, Z1 = P
    X2, Y2, Z2 = Q
    A, B = Z1 * Z1 % p, Z2 * Z2 % p
    U1, U2 = X1 * B % p, X2 * A % p
    S1, S2 = Y1 * B * Z2 % p, Y2 * A * Z1 % p
    if U1 == U2:
        return _dbl(c, P) if S1 == S2 else (1, 1, 0)
    H, R = (U2 - U1) % p, (S2 - S1) % p
    H2 = H * H % p
    H3 = H2 * H % p
    V = U1 * H2 % p
    X3 = (R * R - H3 - 2 * V) % p
    return (X3, (R * (V - X3) - S1 * H3) % p, Z1 * Z2 * H % p)


def _mul(c, k, P):
    R = (1, 1, 0)
    for bit in bin(k)[2:]:
        R = _dbl(c, R)
        if bit == "1":
            R = _add(c, R, P)
    return R


def _aff(c, P):
    if not P[2]:
        return None
    zi = pow(P[2], -1, c.p)
    return (P[0] * zi * zi % c.p, P[1] * zi * zi * zi % c.p)


class ECDSA:
    def __init__(self, algorithm):
        self.algorithm = algorithm


class EllipticCurvePublicKey:
    def __init__(self, curve, pt):
        self.curve, self.pt = curve, pt

    @classmethod
    def from_encoded_point(cls, curve, data):
        data = bytes(data)
        c = curve
        if len(data) == 33 and data[0] in (2, 3):
            x = int.from_bytes(data[1:], "big")
            if x >= c.p:
                raise ValueError("Invalid EC key.")
            y2 = (x**3 + c.a * x + c.b) % c.p
            y = pow(y2, (c.p + 1) // 4, c.p)
            if y * y % c.p != y2:
                raise ValueError("Invalid EC key.")
            if y & 1 != data[0] & 1:
                y = c.p - y
        elif len(data) == 65 and data[0] == 4:
            x, y = int.from_bytes(data[1:33], "big"), int.from_bytes(data[33:], "big")
            if x >= c.p or y >= c.p or (y * y - x**3 - c.a * x - c.b) % c.p:
                raise ValueError("Invalid EC key.")
        else:
            raise ValueError("Unsupported elliptic curve point type")
        return cls(curve, (x, y))

    def public_bytes(self, encoding=None, format=None):
        x, y = self.pt
        if format is PublicFormat.CompressedPoint:
            return bytes([2 + (y & 1)]) + x.to_bytes(32, "big")
        return b"\x04" + x.to_bytes(32, "big") + y.to_bytes(32, "big")

    def verify(self, signature, data, signature_algorithm):
        c = self.curve
        try:
            r, s = utils.decode_dss_signature(signature)
        except Exception:
            raise InvalidSignature
        if not (0 < r < c.n and 0 < s < c.n):
            raise InvalidSignature
        e = int.from_bytes(hashlib.sha256(bytes(data)).digest(), "big")
        w = pow(s, -1, c.n)
        P = _aff(c, _add(c, _mul(c, e * w % c.n, c.G + (1,)), _mul(c, r * w % c.n, self.pt + (1,))))
        if P is None or P[0] % c.n != r:
            raise InvalidSignature


class EllipticCurvePrivateKey:
    def __init__(self, d, curve):
        self.d, self.curve = d, curve

    def public_key(self):
        return EllipticCurvePublicKey(self.curve, _pub(self.d, type(self.curve)))

    def sign(self, data, signature_algorithm):
        c = self.curve
        h = hashlib.sha256(bytes(data)).digest()
        e = int.from_bytes(h, "big")
        x = self.d.to_bytes(32, "big")
        hh = (e % c.n).to_bytes(32, "big")
        V, K = b"\x01" * 32, b"\x00" * 32
        mac = lambda k, m: hmac.new(k, m, hashlib.sha256).digest()
        K = mac(K, V + b"\x00" + x + hh)
        V = mac(K, V)
        K = mac(K, V + b"\x01" + x + hh)
        V = mac(K, V)
        while True:
            V = mac(K, V)
            k = int.from_bytes(V, "big")
            if 0 < k < c.n:
                P = _aff(c, _mul(c, k, c.G + (1,)))
                r = P[0] % c.n
                s = pow(k, -1, c.n) * (e + r * self.d) % c.n
                if r and s:
                    return utils.encode_dss_signature(r, s)
            K = mac(K, V + b"\x00")
            V = mac(K, V)


@lru_cache(maxsize=4096)
def _pub(d, curvecls):
    return _aff(curvecls, _mul(curvecls, d, curvecls.G + (1,)))


def derive_private_key(d, curve, backend=None):
    if not 0 < d < curve.n:
        raise ValueError("private_value must be in range")
    return EllipticCurvePrivateKey(d, curve)


def generate_private_key(curve, backend=None):
    import pysodium
    while True:
        d = int.from_bytes(pysodium.randombytes(32), "big")
        if 0 < d < curve.n:
            return EllipticCurvePrivateKey(d, curve)
