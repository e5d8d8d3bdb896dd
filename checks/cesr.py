"""Reference CESR codec, written from the CESR specification's master code tables
(RFC-style: hard, soft, extra, full and lead sizes) over big integers; shares nothing with keri."""
import base64

ALPHA = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789-_"
POS = {c: i for i, c in enumerate(ALPHA)}

# code -> (soft size, extra prepad of soft, full size in chars or None, lead bytes)
MATTER = {}
for _c in "ABCDEFGHIJOQa":
    MATTER[_c] = (0, 0, 44, 0)
MATTER.update({"K": (0, 0, 76, 0), "L": (0, 0, 76, 0), "M": (0, 0, 4, 0), "N": (0, 0, 12, 0), "P": (0, 0, 124, 0),
               "R": (0, 0, 8, 0), "S": (0, 0, 16, 0), "T": (0, 0, 20, 0), "U": (0, 0, 24, 0), "V": (0, 0, 4, 1),
               "W": (0, 0, 4, 0), "X": (3, 0, 4, 0), "Y": (7, 0, 8, 0), "Z": (11, 0, 12, 0), "b": (3, 0, 8, 0),
               "0A": (0, 0, 24, 0), "0H": (0, 0, 8, 0), "0J": (2, 1, 4, 0), "0K": (2, 0, 4, 0), "0L": (6, 1, 8, 0),
               "0M": (6, 0, 8, 0), "0N": (10, 1, 12, 0), "0O": (10, 0, 12, 0),
               "1AAA": (0, 0, 48, 0), "1AAB": (0, 0, 48, 0), "1AAC": (0, 0, 80, 0), "1AAD": (0, 0, 80, 0),
               "1AAE": (0, 0, 156, 0), "1AAF": (4, 0, 8, 0), "1AAG": (0, 0, 36, 0), "1AAH": (0, 0, 100, 0),
               "1AAI": (0, 0, 48, 0), "1AAJ": (0, 0, 48, 0), "1AAK": (0, 0, 4, 0), "1AAL": (0, 0, 4, 0),
               "1AAM": (0, 0, 4, 0), "1AAN": (8, 0, 12, 0), "1AAO": (0, 0, 4, 0), "1AAP": (0, 0, 4, 0),
               "1__-": (2, 0, 12, 0), "1___": (0, 0, 8, 0), "2__-": (2, 1, 12, 1), "2___": (0, 0, 8, 1),
               "3__-": (2, 0, 12, 2), "3___": (0, 0, 8, 2)})
for _c in "BCDEFGI":
    MATTER["0" + _c] = (0, 0, 88, 0)
for _f in "ABCDEFH":
    for _l in range(3):
        MATTER["456"[_l] + _f] = (2, 0, None, _l)
        MATTER["789"[_l] + "AA" + _f] = (4, 0, None, _l)

TAGS = ["0J", "0K", "X", "1AAF", "0L", "0M", "Y", "1AAN", "0N", "0O", "Z"]   # by length 1 to 11

# code -> (main index size, other index size, full size or None); 'both' and 'current only' by code letter
INDEXER = {}
for _c in "ABCDEF":
    INDEXER[_c] = (1, 0, 88)
    INDEXER["2" + _c] = (2, 2, 92)
for _c in "AB":
    INDEXER["0" + _c] = (1, 1, 156)
    INDEXER["3" + _c] = (3, 3, 160)
INDEXER["0z"] = (2, 0, None)
CURRENT_ONLY = {"B", "D", "F", "0B", "2B", "2D", "2F", "3B"}

COUNTER = {1: {f"-{c}" for c in "ABCDEFGHILTUVWZ"} | {f"--{c}" for c in "LTUVWZ"} | {"-_AAA"},
           2: {f"-{c}" for c in "ABCDEFGHIJKLMNOPQRSTUVWXYZabc"} | {f"--{c}" for c in "ABCDEFGHIJKLMNOPQRSTUVWXYZabc"} | {"-_AAA"}}
# version 1 codes that count quadlets rather than items
QUADS1 = {"-L", "--L", "-T", "--T", "-U", "--U", "-V", "--V", "-W", "--W", "-Z", "--Z"}


def b64(i, n):
    out = []
    for _ in range(n):
        out.append(ALPHA[i & 63])
        i >>= 6
    assert i == 0
    return "".join(reversed(out))


def unb64(s):
    i = 0
    for c in s:
        i = i << 6 | POS[c]
    return i


def to_bin(text):
    """The binary domain is the text domain's sextets concatenated."""
    assert len(text) % 4 == 0
    return unb64(text).to_bytes(len(text) * 3 // 4, "big")


def to_text(b):
    assert len(b) % 3 == 0
    return b64(int.from_bytes(b, "big"), len(b) * 4 // 3)


def encode(code, soft, raw):
    ss, xs, fs, ls = MATTER[code]
    if fs is None:
        n = len(raw) + ls
        assert n % 3 == 0
        soft, fs = b64(n // 3, ss), len(code) + ss + n // 3 * 4
    body = fs - len(code) - ss
    return code + "_" * xs + soft + b64(int.from_bytes(raw, "big"), body)


def raw_size(code):
    ss, xs, fs, ls = MATTER[code]
    return (fs - len(code) - ss) * 3 // 4 - ls


def var_code(letter, n):
    """The code a value of n raw bytes takes: lead by n mod 3, big above 4095 triplets."""
    ls = -n % 3
    return ("456"[ls] + letter) if (n + ls) // 3 < 64 ** 2 else ("789"[ls] + "AA" + letter)


def hard_size(first):
    return {"0": 2, "4": 2, "5": 2, "6": 2}.get(first, 4 if first in "123789" else 1)


SHORT, BAD = "short", "bad"


def decode(text):
    """(code, soft, raw, consumed) or SHORT (a prefix of something acceptable so far) or BAD."""
    if not text:
        return SHORT
    if text[0] not in POS or text[0] in "-_":
        return BAD
    hs = hard_size(text[0])
    if len(text) < hs:
        return SHORT
    code = text[:hs]
    if code not in MATTER:
        return BAD
    ss, xs, fs, ls = MATTER[code]
    if len(text) < hs + ss:
        return SHORT
    soft = text[hs:hs + ss]
    if any(c not in POS for c in soft) or soft[:xs] != "_" * xs:
        return BAD
    soft = soft[xs:]
    if fs is None:
        fs = hs + ss + unb64(soft) * 4
    if len(text) < fs:
        return SHORT
    body = text[hs + ss:fs]
    if any(c not in POS for c in body):
        return BAD
    rs = len(body) * 3 // 4 - ls
    i = unb64(body) if body else 0
    if rs < 0 or i >> (8 * rs):
        return BAD
    return code, soft, i.to_bytes(rs, "big"), fs


def decode_index(text):
    """(code, index, ondex, raw, consumed) or SHORT or BAD."""
    if not text:
        return SHORT
    if text[0] not in POS or text[0] in "-_" or text[0] in "56789":
        return BAD
    hs = 2 if text[0].isdigit() else 1
    if len(text) < hs:
        return SHORT
    code = text[:hs]
    if code not in INDEXER:
        return BAD
    ms, os, fs = INDEXER[code]
    cs = hs + ms + os
    if len(text) < cs:
        return SHORT
    if any(c not in POS for c in text[hs:cs]):
        return BAD
    index = unb64(text[hs:hs + ms])
    ondex = unb64(text[hs + ms:cs]) if os else index
    if code in CURRENT_ONLY:
        if os and ondex:
            return BAD
        ondex = None
    if fs is None:
        fs = cs + index * 4
    if len(text) < fs:
        return SHORT
    body = text[cs:fs]
    if any(c not in POS for c in body):
        return BAD
    rs = len(body) * 3 // 4
    i = unb64(body) if body else 0
    if i >> (8 * rs):
        return BAD
    return code, index, ondex, i.to_bytes(rs, "big"), fs


def encode_index(code, index, ondex, raw):
    ms, os, fs = INDEXER[code]
    cs = len(code) + ms + os
    if fs is None:
        fs = cs + index * 4
    return code + b64(index, ms) + (b64(ondex or 0, os) if os else "") + b64(int.from_bytes(raw, "big"), fs - cs)


def decode_count(text, major):
    """(code, count, consumed) or SHORT or BAD."""
    if len(text) < 2:
        return SHORT
    if text[0] != "-" or text[1] not in POS or text[1].isdigit():
        return BAD
    hs = {"-": 3, "_": 5}.get(text[1], 2)
    if len(text) < hs:
        return SHORT
    code = text[:hs]
    if code not in COUNTER[major]:
        return BAD
    fs = 4 if hs == 2 else 8
    if len(text) < fs:
        return SHORT
    if any(c not in POS for c in text[hs:fs]):
        return BAD
    return code, unb64(text[hs:fs]), fs


def std_to_url(b):
    return base64.urlsafe_b64encode(b).decode()
