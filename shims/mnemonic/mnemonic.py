import hashlib


class Mnemonic:
    """Offline stand-in: words are synthetic (not the BIP-39 list)."""
    def __init__(self, language="english", **kwa):
        self.language = language

    def generate(self, strength=128):
        import pysodium
        n = strength // 32 * 3
        raw = pysodium.randombytes(2 * n)
        return " ".join("w%04d" % (int.from_bytes(raw[2*i:2*i+2], "big") % 2048) for i in range(n))
