from .._net import Held


class Console(Held):
    pass
