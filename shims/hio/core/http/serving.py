from .._net import Held, HeldDoer


class Server(Held):
    pass


class ServerTls(Server):
    pass


class ServerDoer(HeldDoer):
    pass


class StaticSink:
    DefaultStaticSinkBasePath = "/"

    def __init__(self, staticDirPath=None, **kwa):
        self.staticDirPath = staticDirPath

    def __call__(self, req, rep, **kwa):
        raise NotImplementedError
