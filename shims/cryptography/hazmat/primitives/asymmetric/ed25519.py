class Ed25519PrivateKey:
    def __init__(self, raw):
        self.raw = bytes(raw)

    @classmethod
    def from_private_bytes(cls, raw):
        return cls(raw)


class Ed25519PublicKey(Ed25519PrivateKey):
    @classmethod
    def from_public_bytes(cls, raw):
        return cls(raw)
