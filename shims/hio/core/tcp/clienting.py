from .._net import Held, HeldDoer


class Client(Held):
    pass


class ClientTls(Client):
    pass


class ClientDoer(HeldDoer):
    pass
