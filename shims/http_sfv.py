"""Offline stand-in for http_sfv (RFC 8941): Dictionary of Items / InnerLists."""
import base64 as _b64


def _ser_bare(v):
    if v is True:
        return "?1"
    if v is False:
        return "?0"
    if isinstance(v, int):
        if not -999999999999999 <= v <= 999999999999999:
            raise ValueError("integer out of range")
        return str(v)
    if isinstance(v, float):
        s = f"{round(v, 3):.3f}".rstrip("0")
        return s + "0" if s.endswith(".") else s
    if isinstance(v, (bytes, bytearray)):
        return ":" + _b64.b64encode(bytes(v)).decode() + ":"
    if isinstance(v, Token):
        return str(v)
    if isinstance(v, str):
        if any(not (0x20 <= ord(c) < 0x7f) for c in v):
            raise ValueError("String contains disallowed characters")
        return '"' + v.replace("\\", "\\\\").replace('"', '\\"') + '"'
    raise ValueError(f"Can't serialise; unrecognised type {type(v)}")


class Token(str):
    pass


_KEY1 = set("abcdefghijklmnopqrstuvwxyz*")
_KEY = _KEY1 | set("0123456789_-.")


def _chk_key(k):
    if not k or k[0] not in _KEY1 or any(c not in _KEY for c in k):
        raise ValueError(f"Key {k!r} contains disallowed characters")


class _Params(dict):
    def __setitem__(self, k, v):
        _chk_key(k)
        super().__setitem__(k, v)

    def __str__(self):
        out = ""
        for k, v in self.items():
            out += ";" + k
            if v is not True:
                out += "=" + _ser_bare(v)
        return out


class Item:
    def __init__(self, value=None):
        self.value = value
        self.params = _Params()

    def __str__(self):
        return _ser_bare(self.value) + str(self.params)


class InnerList(list):
    def __init__(self, values=()):
        super().__init__(v if isinstance(v, Item) else Item(v) for v in values)
        self.params = _Params()

    def __str__(self):
        return "(" + " ".join(map(str, self)) + ")" + str(self.params)


class _P:
    def __init__(self, s):
        if isinstance(s, (bytes, bytearray)):
            s = bytes(s).decode("ascii")
        self.s, self.i = s, 0

    def peek(self):
        return self.s[self.i] if self.i < len(self.s) else ""

    def sp(self, chars=" "):
        while self.peek() and self.peek() in chars:
            self.i += 1

    def key(self):
        j = self.i
        if self.peek() not in _KEY1 or not self.peek():
            raise ValueError("bad key")
        while self.peek() and self.peek() in _KEY:
            self.i += 1
        return self.s[j:self.i]

    def bare(self):
        c = self.peek()
        if not c:
            raise ValueError("Empty item")
        if c == '"':
            self.i += 1
            out = []
            while True:
                c = self.peek()
                if not c:
                    raise ValueError("unterminated string")
                self.i += 1
                if c == "\\":
                    n = self.peek()
                    if n not in ('"', "\\") or not n:
                        raise ValueError("bad escape")
                    out.append(n)
                    self.i += 1
                elif c == '"':
                    return "".join(out)
                elif not 0x20 <= ord(c) < 0x7f:
                    raise ValueError("bad char in string")
                else:
                    out.append(c)
        if c == "?":
            v = self.s[self.i + 1:self.i + 2]
            if v not in ("0", "1") or not v:
                raise ValueError("bad boolean")
            self.i += 2
            return v == "1"
        if c == ":":
            j = self.s.find(":", self.i + 1)
            if j < 0:
                raise ValueError("bad binary")
            b = self.s[self.i + 1:j]
            self.i = j + 1
            try:
                return _b64.b64decode(b, validate=True)
            except Exception as ex:
                raise ValueError("bad base64") from ex
        if c in "-0123456789":
            j = self.i
            self.i += 1
            while self.peek() and self.peek() in "0123456789.":
                self.i += 1
            t = self.s[j:self.i]
            return float(t) if "." in t else int(t)
        if c.isalpha() or c == "*":
            j = self.i
            while self.peek() and (self.peek().isalnum() or self.peek() in ":/!#$%&'*+-.^_`|~"):
                self.i += 1
            return Token(self.s[j:self.i])
        raise ValueError(f"bad item at {self.s[self.i:]!r}")

    def params(self, into):
        while self.peek() == ";":
            self.i += 1
            self.sp()
            k = self.key()
            v = True
            if self.peek() == "=":
                self.i += 1
                v = self.bare()
            into[k] = v

    def item(self):
        it = Item(self.bare())
        self.params(it.params)
        return it

    def inner(self):
        self.i += 1
        il = InnerList()
        while True:
            self.sp()
            if not self.peek():
                raise ValueError("unterminated inner list")
            if self.peek() == ")":
                self.i += 1
                self.params(il.params)
                return il
            il.append(self.item())
            if self.peek() not in (" ", ")") or not self.peek():
                raise ValueError("bad inner list")


class Dictionary(dict):
    def __setitem__(self, k, v):
        _chk_key(k)
        if not isinstance(v, (Item, InnerList)):
            v = InnerList(v) if isinstance(v, (list, tuple)) else Item(v)
        super().__setitem__(k, v)

    def parse(self, s):
        p = _P(s)
        p.sp()
        while p.peek():
            k = p.key()
            if p.peek() == "=":
                p.i += 1
                v = p.inner() if p.peek() == "(" else p.item()
            else:
                v = Item(True)
                p.params(v.params)
            super().__setitem__(k, v)
            p.sp(" \t")
            if not p.peek():
                return
            if p.peek() != ",":
                raise ValueError("trailing characters in dictionary")
            p.i += 1
            p.sp(" \t")
            if not p.peek():
                raise ValueError("trailing comma")

    def __str__(self):
        out = []
        for k, v in self.items():
            if isinstance(v, Item) and v.value is True:
                out.append(k + str(v.params))
            else:
                out.append(f"{k}={v}")
        return ", ".join(out)
