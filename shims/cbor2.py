"""Offline stand-in for cbor2: RFC 8949 subset (no shared refs), same error
family (CBORDecodeError is a ValueError subclass; trailing data ignored by
loads, as in cbor2)."""
import struct
import math


class CBORError(Exception):
    pass


class CBOREncodeError(CBORError):
    pass


class CBOREncodeTypeError(CBOREncodeError, TypeError):
    pass


class CBORDecodeError(CBORError):
    pass


class CBORDecodeValueError(CBORDecodeError, ValueError):
    pass


class CBORDecodeEOF(CBORDecodeError, EOFError):
    pass


class CBORTag:
    def __init__(self, tag, value):
        self.tag = tag
        self.value = value

    def __eq__(self, other):
        return isinstance(other, CBORTag) and (self.tag, self.value) == (other.tag, other.value)

    def __hash__(self):
        return hash((self.tag, self.value))


class CBORSimpleValue:
    def __init__(self, value):
        self.value = value

    def __eq__(self, other):
        return isinstance(other, CBORSimpleValue) and self.value == other.value

    def __hash__(self):
        return hash(self.value)


class _Undef:
    pass


undefined = _Undef()


def _head(mt, n, out):
    mt <<= 5
    if n < 24:
        out.append(mt | n)
    elif n < 1 << 8:
        out += struct.pack(">BB", mt | 24, n)
    elif n < 1 << 16:
        out += struct.pack(">BH", mt | 25, n)
    elif n < 1 << 32:
        out += struct.pack(">BI", mt | 26, n)
    else:
        out += struct.pack(">BQ", mt | 27, n)


def _enc(o, out):
    if o is None:
        out.append(0xf6)
    elif o is True:
        out.append(0xf5)
    elif o is False:
        out.append(0xf4)
    elif isinstance(o, int):
        if o >= 0:
            if o < 1 << 64:
                _head(0, o, out)
            else:
                b = o.to_bytes((o.bit_length() + 7) // 8, "big")
                out.append(0xc2)
                _head(2, len(b), out)
                out += b
        else:
            n = -1 - o
            if n < 1 << 64:
                _head(1, n, out)
            else:
                b = n.to_bytes((n.bit_length() + 7) // 8, "big")
                out.append(0xc3)
                _head(2, len(b), out)
                out += b
    elif isinstance(o, float):
        if math.isnan(o):
            out += b"\xf9\x7e\x00"
        elif math.isinf(o):
            out += b"\xf9\x7c\x00" if o > 0 else b"\xf9\xfc\x00"
        else:
            out += struct.pack(">Bd", 0xfb, o)
    elif isinstance(o, str):
        b = o.encode("utf-8")
        _head(3, len(b), out)
        out += b
    elif isinstance(o, (bytes, bytearray, memoryview)):
        b = bytes(o)
        _head(2, len(b), out)
        out += b
    elif isinstance(o, (list, tuple)):
        _head(4, len(o), out)
        for v in o:
            _enc(v, out)
    elif isinstance(o, dict) or (hasattr(o, "items") and hasattr(o, "keys")):
        _head(5, len(o), out)
        for k, v in o.items():
            _enc(k, out)
            _enc(v, out)
    elif isinstance(o, CBORTag):
        _head(6, o.tag, out)
        _enc(o.value, out)
    else:
        raise CBOREncodeTypeError(f"cannot serialize type {type(o).__name__}")


def dumps(obj, **kwa):
    out = bytearray()
    try:
        _enc(obj, out)
    except UnicodeEncodeError as ex:
        raise CBOREncodeError(str(ex)) from ex
    return bytes(out)


class _Dec:
    def __init__(self, raw):
        self.raw = bytes(raw)
        self.i = 0
        self.depth = 0

    def take(self, n):
        if self.i + n > len(self.raw):
            raise CBORDecodeEOF("premature end of stream (expected to read "
                                f"{n} bytes, got {len(self.raw) - self.i} instead)")
        b = self.raw[self.i:self.i + n]
        self.i += n
        return b

    def arg(self, ai):
        if ai < 24:
            return ai
        if ai == 24:
            return self.take(1)[0]
        if ai == 25:
            return struct.unpack(">H", self.take(2))[0]
        if ai == 26:
            return struct.unpack(">I", self.take(4))[0]
        if ai == 27:
            return struct.unpack(">Q", self.take(8))[0]
        if ai == 31:
            return None
        raise CBORDecodeValueError(f"unknown unsigned integer subtype 0x{ai:x}")

    def chunks(self, mt):
        parts = []
        while True:
            ib = self.take(1)[0]
            if ib == 0xff:
                return b"".join(parts)
            if ib >> 5 != mt:
                raise CBORDecodeValueError("non-matching chunk in indefinite length string")
            n = self.arg(ib & 31)
            if n is None:
                raise CBORDecodeValueError("nested indefinite string")
            parts.append(self.take(n))

    def text(self, b):
        try:
            return b.decode("utf-8")
        except UnicodeDecodeError as ex:
            raise CBORDecodeValueError("error decoding unicode string") from ex

    def item(self, brk=False):
        self.depth += 1
        if self.depth > 400:
            raise CBORDecodeError("nesting too deep")
        try:
            return self._item(brk)
        finally:
            self.depth -= 1

    def _item(self, brk):
        ib = self.take(1)[0]
        mt, ai = ib >> 5, ib & 31
        if mt == 7:
            if ai < 20:
                return CBORSimpleValue(ai)
            if ai == 20:
                return False
            if ai == 21:
                return True
            if ai == 22:
                return None
            if ai == 23:
                return undefined
            if ai == 24:
                return CBORSimpleValue(self.take(1)[0])
            if ai == 25:
                return struct.unpack(">e", self.take(2))[0]
            if ai == 26:
                return struct.unpack(">f", self.take(4))[0]
            if ai == 27:
                return struct.unpack(">d", self.take(8))[0]
            if ai == 31:
                if brk:
                    return _BREAK
                raise CBORDecodeValueError("unexpected break")
            raise CBORDecodeValueError(f"undefined reserved major type 7 subtype 0x{ai:x}")
        n = self.arg(ai)
        if n is None and mt in (0, 1, 6):
            raise CBORDecodeValueError("indefinite length not allowed")
        if mt == 0:
            return n
        if mt == 1:
            return -1 - n
        if mt == 2:
            return self.chunks(2) if n is None else self.take(n)
        if mt == 3:
            return self.text(self.chunks(3) if n is None else self.take(n))
        if mt == 4:
            out = []
            if n is None:
                while (v := self.item(True)) is not _BREAK:
                    out.append(v)
            else:
                if n > len(self.raw):
                    raise CBORDecodeEOF("premature end of stream")
                for _ in range(n):
                    out.append(self.item())
            return out
        if mt == 5:
            d = {}
            left = n
            while left is None or left > 0:
                k = self.item(True) if n is None else self.item()
                if k is _BREAK:
                    break
                v = self.item()
                try:
                    d[k] = v
                except TypeError:
                    raise CBORDecodeValueError("error decoding map: unhashable key")
                if left is not None:
                    left -= 1
            return d
        v = self.item()
        if n == 2 and isinstance(v, bytes):
            return int.from_bytes(v, "big")
        if n == 3 and isinstance(v, bytes):
            return -1 - int.from_bytes(v, "big")
        return CBORTag(n, v)


_BREAK = object()


def loads(raw, **kwa):
    return _Dec(raw).item()


def dump(obj, fp, **kwa):
    fp.write(dumps(obj))


def load(fp, **kwa):
    return loads(fp.read())
