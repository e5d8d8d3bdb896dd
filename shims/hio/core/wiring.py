from ._net import Held, HeldDoer


class WireLog(Held):
    pass


class WireLogDoer(HeldDoer):
    def __init__(self, wl=None, **kwa):
        super().__init__(**kwa)
        self.wl = wl
