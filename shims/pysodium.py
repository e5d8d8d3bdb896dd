"""Stand-in for `pysodium` over OpenSSL's libcrypto (Ed25519, X25519),
libargon2 (Argon2id) and pure Python XSalsa20-Poly1305.

Random bytes come from a seedable generator so that a run is a pure function of
its seed: `_vf_seed(n)` restarts it.
"""
import ctypes
import functools
import hashlib
import struct

_c = ctypes.CDLL("libcrypto.so.3")
_vp, _sz = ctypes.c_void_p, ctypes.c_size_t
for _n, _r, _a in (
    ("EVP_PKEY_new_raw_private_key", _vp, [ctypes.c_int, _vp, ctypes.c_char_p, _sz]),
    ("EVP_PKEY_new_raw_public_key", _vp, [ctypes.c_int, _vp, ctypes.c_char_p, _sz]),
    ("EVP_PKEY_get_raw_public_key", ctypes.c_int, [_vp, ctypes.c_char_p, ctypes.POINTER(_sz)]),
    ("EVP_PKEY_free", None, [_vp]),
    ("EVP_MD_CTX_new", _vp, []),
    ("EVP_MD_CTX_free", None, [_vp]),
    ("EVP_DigestSignInit", ctypes.c_int, [_vp, _vp, _vp, _vp, _vp]),
    ("EVP_DigestSign", ctypes.c_int, [_vp, ctypes.c_char_p, ctypes.POINTER(_sz), ctypes.c_char_p, _sz]),
    ("EVP_DigestVerifyInit", ctypes.c_int, [_vp, _vp, _vp, _vp, _vp]),
    ("EVP_DigestVerify", ctypes.c_int, [_vp, ctypes.c_char_p, _sz, ctypes.c_char_p, _sz]),
    ("EVP_PKEY_CTX_new", _vp, [_vp, _vp]),
    ("EVP_PKEY_CTX_free", None, [_vp]),
    ("EVP_PKEY_derive_init", ctypes.c_int, [_vp]),
    ("EVP_PKEY_derive_set_peer", ctypes.c_int, [_vp, _vp]),
    ("EVP_PKEY_derive", ctypes.c_int, [_vp, ctypes.c_char_p, ctypes.POINTER(_sz)]),
):
    _f = getattr(_c, _n)
    _f.restype, _f.argtypes = _r, _a

_ED, _X = 1087, 1034
P = 2**255 - 19

crypto_sign_SEEDBYTES = 32
crypto_sign_PUBLICKEYBYTES = 32
crypto_sign_SECRETKEYBYTES = 64
crypto_sign_BYTES = 64
crypto_box_SEALBYTES = 48
crypto_box_PUBLICKEYBYTES = 32
crypto_box_SECRETKEYBYTES = 32
crypto_box_NONCEBYTES = 24
crypto_box_MACBYTES = 16
crypto_pwhash_SALTBYTES = 16
crypto_pwhash_ALG_ARGON2I13 = 1
crypto_pwhash_ALG_ARGON2ID13 = 2
crypto_pwhash_ALG_DEFAULT = 2
crypto_pwhash_OPSLIMIT_MIN = 1
crypto_pwhash_MEMLIMIT_MIN = 8192
crypto_pwhash_OPSLIMIT_INTERACTIVE = 2
crypto_pwhash_MEMLIMIT_INTERACTIVE = 67108864
crypto_pwhash_OPSLIMIT_MODERATE = 3
crypto_pwhash_MEMLIMIT_MODERATE = 268435456
crypto_pwhash_OPSLIMIT_SENSITIVE = 4
crypto_pwhash_MEMLIMIT_SENSITIVE = 1073741824

_state = [b"verif", 0]


def _vf_seed(n):
    _state[0] = str(n).encode()
    _state[1] = 0


def randombytes(size, seed=None):
    if size < 0:
        raise ValueError("size")
    _state[1] += 1
    return hashlib.shake_256(b"%s|%d" % (_state[0], _state[1])).digest(size)


@functools.lru_cache(maxsize=20000)
def _ed_pub(seed):
    k = _c.EVP_PKEY_new_raw_private_key(_ED, None, seed, 32)
    out, n = ctypes.create_string_buffer(32), _sz(32)
    _c.EVP_PKEY_get_raw_public_key(k, out, ctypes.byref(n))
    _c.EVP_PKEY_free(k)
    return out.raw


def crypto_sign_seed_keypair(seed):
    seed = bytes(seed)
    if len(seed) != 32:
        raise ValueError("seed must be 32 bytes")
    pk = _ed_pub(seed)
    return pk, seed + pk


def crypto_sign_keypair():
    return crypto_sign_seed_keypair(randombytes(32))


def crypto_sign_sk_to_pk(sk):
    return bytes(sk)[32:]


def crypto_sign_sk_to_seed(sk):
    return bytes(sk)[:32]


@functools.lru_cache(maxsize=20000)
def _sign(m, seed):
    k = _c.EVP_PKEY_new_raw_private_key(_ED, None, seed, 32)
    ctx = _c.EVP_MD_CTX_new()
    out, n = ctypes.create_string_buffer(64), _sz(64)
    ok = _c.EVP_DigestSignInit(ctx, None, None, None, k) == 1 and \
        _c.EVP_DigestSign(ctx, out, ctypes.byref(n), m, len(m)) == 1
    _c.EVP_MD_CTX_free(ctx)
    _c.EVP_PKEY_free(k)
    if not ok:
        raise ValueError
    return out.raw


def crypto_sign_detached(m, sk):
    m, sk = bytes(m), bytes(sk)
    if len(sk) != 64:
        raise ValueError("sk must be 64 bytes")
    sig = _sign(m, sk[:32])
    if _ed_pub(sk[:32]) != sk[32:]:  # libsodium would hash the wrong key in
        sig = sig[:32] + bytes([sig[32] ^ 1]) + sig[33:]
    return sig


@functools.lru_cache(maxsize=20000)
def _verify(sig, m, pk):
    k = _c.EVP_PKEY_new_raw_public_key(_ED, None, pk, 32)
    if not k:
        return False
    ctx = _c.EVP_MD_CTX_new()
    ok = _c.EVP_DigestVerifyInit(ctx, None, None, None, k) == 1 and \
        _c.EVP_DigestVerify(ctx, sig, 64, m, len(m)) == 1
    _c.EVP_MD_CTX_free(ctx)
    _c.EVP_PKEY_free(k)
    return ok


def crypto_sign_verify_detached(sig, msg, pk):
    sig, msg, pk = bytes(sig), bytes(msg), bytes(pk)
    if len(sig) != 64:
        raise ValueError("sig must be 64 bytes")
    if len(pk) != 32:
        raise ValueError("pk must be 32 bytes")
    if not _verify(sig, msg, pk):
        raise ValueError


def crypto_sign(m, sk):
    return crypto_sign_detached(m, sk) + bytes(m)


def crypto_sign_open(sm, pk):
    sm = bytes(sm)
    crypto_sign_verify_detached(sm[:64], sm[64:], pk)
    return sm[64:]


def crypto_sign_pk_to_box_pk(pk):
    pk = bytes(pk)
    if len(pk) != 32:
        raise ValueError
    y = int.from_bytes(pk, "little") & ((1 << 255) - 1)
    if y >= P:
        raise ValueError
    d = -121665 * pow(121666, P - 2, P) % P
    x2 = (y * y - 1) * pow(d * y * y + 1, P - 2, P) % P
    if x2 == 0 or pow(x2, (P - 1) // 2, P) != 1:
        raise ValueError
    return ((1 + y) * pow(1 - y, P - 2, P) % P).to_bytes(32, "little")


def crypto_sign_sk_to_box_sk(sk):
    h = bytearray(hashlib.sha512(bytes(sk)[:32]).digest()[:32])
    h[0] &= 248
    h[31] = (h[31] & 127) | 64
    return bytes(h)


@functools.lru_cache(maxsize=20000)
def _x_pub(sk):
    k = _c.EVP_PKEY_new_raw_private_key(_X, None, sk, 32)
    out, n = ctypes.create_string_buffer(32), _sz(32)
    _c.EVP_PKEY_get_raw_public_key(k, out, ctypes.byref(n))
    _c.EVP_PKEY_free(k)
    return out.raw


def crypto_scalarmult_curve25519_base(sk):
    sk = bytes(sk)
    if len(sk) != 32:
        raise ValueError
    return _x_pub(sk)


def crypto_scalarmult_curve25519(sk, pk):
    k = _c.EVP_PKEY_new_raw_private_key(_X, None, bytes(sk), 32)
    p = _c.EVP_PKEY_new_raw_public_key(_X, None, bytes(pk), 32)
    ctx = _c.EVP_PKEY_CTX_new(k, None)
    out, n = ctypes.create_string_buffer(32), _sz(32)
    ok = _c.EVP_PKEY_derive_init(ctx) == 1 and _c.EVP_PKEY_derive_set_peer(ctx, p) == 1 and \
        _c.EVP_PKEY_derive(ctx, out, ctypes.byref(n)) == 1
    _c.EVP_PKEY_CTX_free(ctx)
    _c.EVP_PKEY_free(k)
    _c.EVP_PKEY_free(p)
    if not ok:
        raise ValueError
    return out.raw


def crypto_box_keypair():
    sk = randombytes(32)
    return _x_pub(sk), sk


# --- XSalsa20-Poly1305 -----------------------------------------------------
_M = 0xFFFFFFFF
_SIG = struct.unpack("<4I", b"expand 32-byte k")


def _core(x):
    for _ in range(10):
        for a, b, c, d in ((0, 4, 8, 12), (5, 9, 13, 1), (10, 14, 2, 6), (15, 3, 7, 11),
                           (0, 1, 2, 3), (5, 6, 7, 4), (10, 11, 8, 9), (15, 12, 13, 14)):
            t = (x[a] + x[d]) & _M; x[b] ^= ((t << 7) | (t >> 25)) & _M
            t = (x[b] + x[a]) & _M; x[c] ^= ((t << 9) | (t >> 23)) & _M
            t = (x[c] + x[b]) & _M; x[d] ^= ((t << 13) | (t >> 19)) & _M
            t = (x[d] + x[c]) & _M; x[a] ^= ((t << 18) | (t >> 14)) & _M
    return x


def _init(k, n4):
    k = struct.unpack("<8I", k)
    return [_SIG[0], *k[:4], _SIG[1], *n4, _SIG[2], *k[4:], _SIG[3]]


def _hsalsa(k, n16):
    x = _core(_init(k, struct.unpack("<4I", n16)))
    return struct.pack("<8I", *(x[i] for i in (0, 5, 10, 15, 6, 7, 8, 9)))


def _salsa(k, n8, size):
    out = bytearray()
    n = struct.unpack("<2I", n8)
    ctr = 0
    while len(out) < size:
        s = _init(k, (*n, ctr & _M, ctr >> 32))
        x = _core(list(s))
        out += struct.pack("<16I", *((a + b) & _M for a, b in zip(x, s)))
        ctr += 1
    return bytes(out[:size])


def _poly(key, m):
    r = int.from_bytes(key[:16], "little") & 0x0ffffffc0ffffffc0ffffffc0fffffff
    s = int.from_bytes(key[16:32], "little")
    a = 0
    for i in range(0, len(m), 16):
        a = (a + int.from_bytes(m[i:i + 16] + b"\x01", "little")) * r % (2**130 - 5)
    return ((a + s) % 2**128).to_bytes(16, "little")


def _secretbox(m, n, k):
    ks = _salsa(_hsalsa(k, n[:16]), n[16:], 32 + len(m))
    c = bytes(a ^ b for a, b in zip(m, ks[32:]))
    return _poly(ks[:32], c) + c


def _secretbox_open(c, n, k):
    ks = _salsa(_hsalsa(k, n[:16]), n[16:], 16 + len(c))
    if _poly(ks[:32], c[16:]) != c[:16]:
        raise ValueError
    return bytes(a ^ b for a, b in zip(c[16:], ks[32:]))


def _beforenm(pk, sk):
    return _hsalsa(crypto_scalarmult_curve25519(sk, pk), bytes(16))


def crypto_box(msg, nonce, pk, sk):
    return _secretbox(bytes(msg), bytes(nonce), _beforenm(pk, sk))


def crypto_box_open(c, nonce, pk, sk):
    return _secretbox_open(bytes(c), bytes(nonce), _beforenm(pk, sk))


def crypto_box_seal(msg, pk):
    pk = bytes(pk)
    if len(pk) != 32:
        raise ValueError("pk must be 32 bytes")
    epk, esk = crypto_box_keypair()
    n = hashlib.blake2b(epk + pk, digest_size=24).digest()
    return epk + crypto_box(msg, n, pk, esk)


def crypto_box_seal_open(c, pk, sk):
    c, pk, sk = bytes(c), bytes(pk), bytes(sk)
    if len(c) < 48:
        raise ValueError
    n = hashlib.blake2b(c[:32] + pk, digest_size=24).digest()
    return crypto_box_open(c[32:], n, c[:32], sk)


_argon = None


@functools.lru_cache(maxsize=20000)
def _pwhash(outlen, passwd, salt, ops, mem, alg):
    global _argon
    if _argon is None:
        _argon = ctypes.CDLL("libargon2.so.1")
    fn = _argon.argon2id_hash_raw if alg == 2 else _argon.argon2i_hash_raw
    out = ctypes.create_string_buffer(outlen)
    rc = fn(ctypes.c_uint32(ops), ctypes.c_uint32(mem // 1024), ctypes.c_uint32(1),
            passwd, _sz(len(passwd)), salt, _sz(len(salt)), out, _sz(outlen))
    if rc != 0:
        raise ValueError(f"argon2 rc {rc}")
    return out.raw


def crypto_pwhash(outlen, passwd, salt, opslimit, memlimit, alg=2):
    if hasattr(passwd, "encode"):
        passwd = passwd.encode("utf-8")
    salt = bytes(salt)
    if len(salt) != 16:
        raise ValueError("salt must be 16 bytes")
    return _pwhash(outlen, bytes(passwd), salt, opslimit, memlimit, alg)
