"""Independent writer of field maps in every serialization, and strategies for them."""
import json
import cbor2
import msgpack
from hypothesis import strategies as st
import vf
from . import cesr

KINDS = ["JSON", "CBOR", "MGPK", "CESR"]
ESCAPED = {"1AAO", "1AAK", "1AAL", "1AAM", "1AAP", "V", "W"} | set(cesr.TAGS) | \
    {d + f for d in "456" for f in "ABH"} | {d + "AA" + f for d in "789" for f in "ABH"}


def chars(letter, s):
    """Base64 characters embedded as they are, zero bits in front."""
    ws = -len(s) % 4
    q = (len(s) + ws) // 4
    ls = {0: 0, 1: 2, 2: 1, 3: 0}[len(s) % 4]
    return (("456"[ls] + letter + cesr.b64(q, 2)) if q < 4096 else ("789"[ls] + "AA" + letter + cesr.b64(q, 4))) + "A" * ws + s


def text(s):
    if all(c in cesr.POS for c in s):
        if not s:
            return "1AAP"
        if len(s) <= 11:
            return cesr.encode(cesr.TAGS[len(s) - 1], s, b"")
        return chars("A", "-" + s if s[0] == "-" or s[0] == "A" and len(s) % 4 in (0, 3) else s)
    b = s.encode()
    return cesr.encode("V" if len(b) == 1 else "W" if len(b) == 2 else cesr.var_code("B", len(b)), "", b)


def group(code, body):
    n = len(body) // 4
    return (f"-{code}" + cesr.b64(n, 2) if n < 4096 else f"--{code}" + cesr.b64(n, 5)) + body


def native(v, dummy=()):
    """Text of a value; the fields named in dummy of the outermost map go in as they are."""
    if v is None:
        return "1AAK"
    if isinstance(v, bool):
        return "1AAM" if v else "1AAL"
    if isinstance(v, (int, float)):
        return chars("H", repr(v).replace("+", "").replace(".", "p"))
    if isinstance(v, str):
        r = cesr.decode(v)
        if not isinstance(r, tuple) or r[3] != len(v):
            return text(v)
        return ("1AAO" if r[0] in ESCAPED else "") + v
    if isinstance(v, dict):
        return group("I", "".join(text(k) + (x if k in dummy else native(x)) for k, x in v.items()))
    return group("J", "".join(native(x) for x in v))


def dumps(v, kind, dummy=()):
    if kind == "JSON":
        return json.dumps(v, separators=(",", ":"), ensure_ascii=False).encode()
    if kind == "CBOR":
        return cbor2.dumps(v)
    if kind == "MGPK":
        return msgpack.dumps(v)
    return native(v, dummy).encode()


SIZES = {"E": 44, "F": 44, "G": 44, "H": 44, "I": 44, "0D": 88, "0E": 88, "0F": 88, "0G": 88}


def digest(code, b):
    import hashlib
    import blake3
    h = {"E": lambda: blake3.blake3(b).digest(), "F": lambda: hashlib.blake2b(b, digest_size=32).digest(),
         "G": lambda: hashlib.blake2s(b, digest_size=32).digest(), "H": lambda: hashlib.sha3_256(b).digest(),
         "I": lambda: hashlib.sha256(b).digest(), "0D": lambda: blake3.blake3(b).digest(length=64),
         "0E": lambda: hashlib.blake2b(b).digest(), "0F": lambda: hashlib.sha3_512(b).digest(),
         "0G": lambda: hashlib.sha512(b).digest()}[code]()
    return cesr.encode(code, "", h)


def said(m, kind, saids):
    """m with its self-addressing fields filled in; saids is {label: code}"""
    here = [k for k in saids if k in m]
    blank = {k: "#" * SIZES[saids[k]] if k in here else v for k, v in m.items()}
    raw = dumps(blank, kind, here)
    return {k: digest(saids[k], raw) if k in here else v for k, v in m.items()}


def exact(a, b):
    """equal with the same types and the same order of labels"""
    if type(a) is not type(b):
        return False
    if isinstance(a, dict):
        return list(a) == list(b) and all(exact(a[k], b[k]) for k in a)
    if isinstance(a, list):
        return len(a) == len(b) and all(map(exact, a, b))
    return a == b and repr(a) == repr(b)


PRIMS = st.sampled_from([cesr.encode("E", "", b"\5" * 32), cesr.encode("M", "", b"\0\1"), cesr.encode("0A", "", b"\7" * 16),
                         cesr.encode("X", "icp", b""), cesr.encode("1AAF", "abcd", b""), "1AAK", "1AAL", "1AAM", "1AAO", "1AAP",
                         cesr.encode("4A", "", b"abc"), cesr.encode("5B", "", b"ab"), cesr.encode("V", "", b"."), cesr.encode("4H", "", b"abc"),
                         cesr.encode("6H", "", b"a"), cesr.encode("7AAB", "", b"abc"), "0J_a", "0J_", "MAA", "MAAAA", "EAAA", "-AAB", "-IAB",
                         cesr.encode("1AAG", "", b"\1" * 24), cesr.encode("W", "", b"ab"), "WAAA", cesr.encode("6A", "", b"a"), "4AAA"])
B64 = st.builds(lambda a, b: a + b, st.sampled_from(["", "A", "-", "_", "--", "AA", "-A", "AAA", "4", "5A", "1AA", "0"]),
                st.text(alphabet="A-_09azZ", max_size=16))
FREE = st.text(max_size=8) | st.sampled_from(["\n", "a b", "é", "\0", "ab\n", "x=", "\u20ac", "\U0001f600", " ", "..", "1.5", "/", "日本"])
STR = vf.weighted((3, B64), (2, FREE), (3, PRIMS))
INT = vf.weighted((3, st.integers(-20, 300)), (2, st.integers(-2 ** 63, 2 ** 63 - 1)), (1, st.sampled_from([10 ** 10, 10 ** 11, -10 ** 9, 0])))
FLOAT = vf.weighted((2, st.floats(allow_nan=False, allow_infinity=False)), (1, st.sampled_from([0.0, -0.0, 1.0, 1e22, 1e-7, 1.5e300, -2.5])))
ATOM = vf.weighted((4, STR), (2, INT), (1, FLOAT), (1, st.none()), (1, st.booleans()))
NAME = st.from_regex(r"[a-zA-Z_][a-zA-Z0-9_]{0,14}", fullmatch=True)
