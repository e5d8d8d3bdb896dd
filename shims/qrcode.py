class QRCode:
    """Offline stand-in."""
    def __init__(self, *pa, **kwa):
        self.data = []

    def add_data(self, d):
        self.data.append(d)

    def print_ascii(self, *pa, **kwa):
        pass

    def make(self, **kwa):
        pass
