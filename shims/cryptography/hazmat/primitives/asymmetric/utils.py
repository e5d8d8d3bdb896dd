def _int(n):
    b = n.to_bytes(n.bit_length() // 8 + 1, "big")
    return b"\x02" + bytes([len(b)]) + b


def encode_dss_signature(r, s):
    if r < 0 or s < 0:
        raise ValueError("negative")
    body = _int(r) + _int(s)
    assert len(body) < 128
    return b"\x30" + bytes([len(body)]) + body


def decode_dss_signature(der):
    der = bytes(der)
    if der[0] != 0x30 or der[1] != len(der) - 2:
        raise ValueError("bad DER")
    i = 2
    out = []
    for _ in range(2):
        if der[i] != 2:
            raise ValueError("bad DER")
        n = der[i + 1]
        out.append(int.from_bytes(der[i + 2:i + 2 + n], "big"))
        i += 2 + n
    return tuple(out)
