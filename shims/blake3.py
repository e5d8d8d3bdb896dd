"""Stand-in for the `blake3` package: unkeyed hash mode, any output length."""
from _vfnative import blake3 as _b3


class blake3:
    name = "blake3"
    digest_size = 32
    block_size = 64

    def __init__(self, data=b"", **kwa):
        if kwa:
            raise NotImplementedError(f"blake3 stand-in has no option {sorted(kwa)}")
        self._buf = bytearray(data)

    def update(self, data):
        self._buf += data
        return self

    def copy(self):
        return blake3(bytes(self._buf))

    def digest(self, length=32, *, seek=0):
        return _b3(bytes(self._buf), length + seek)[seek:]

    def hexdigest(self, length=32, *, seek=0):
        return self.digest(length, seek=seek).hex()
