from ..base import doing, tyming


class Held(tyming.Tymee):
    """Keeps its constructor arguments; refuses any network operation."""

    def __init__(self, *pa, tymth=None, **kwa):
        super().__init__(tymth=tymth)
        self.opened = False
        self.accepted = self.connected = False
        self.tx = self.txbs = bytearray()
        self.rxbs = bytearray()
        self.ixes = {}
        self.requests, self.responses = [], []
        for k, v in kwa.items():
            setattr(self, k, v)

    def reopen(self, *a, **k):
        raise NotImplementedError("network is not available in this stand-in")

    def close(self):
        self.opened = False

    def service(self, *a, **k):
        raise NotImplementedError("network is not available in this stand-in")


class HeldDoer(doing.Doer):
    def __init__(self, *pa, client=None, server=None, **kwa):
        super().__init__(**kwa)
        self.client, self.server = client, server

    def recur(self, tyme):
        return False
