from .._net import Held, HeldDoer


class Server(Held):
    pass


class ServerTls(Server):
    pass


class ServerDoer(HeldDoer):
    pass
