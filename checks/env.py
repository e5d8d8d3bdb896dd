"""Whole environments (store, keys, identifiers, parser, exchanger) which exchange bytes."""
import contextlib, datetime, shutil, tempfile
import vf
from . import a02
from .a02 import KEYFAKE  # noqa
DBG = 0


class Env:
    def __init__(self, path, name, v=1, salt=b"0123456789abcdef", handlers=None, mailbox=False, kram=False):
        from keri.app.habbing import Habery
        from keri.app.keeping import Keeper
        from keri.app.configing import Configer
        from keri.db.basing import Baser
        from keri.core import Salter, eventing, routing, parsing
        from keri.peer.exchanging import Exchanger
        from keri.kering import Vrsn_1_0, Vrsn_2_0
        self.name, self.path = name, path
        self.v = Vrsn_1_0 if v == 1 else Vrsn_2_0
        kw = dict(name=name, headDirPath=path, reopen=True)
        self.hby = Habery(name=name, ks=Keeper(**kw), db=Baser(**kw), cf=Configer(**kw), temp=False, salt=Salter(raw=salt).qb64, version=self.v)
        from hio.help import decking
        self.cues = decking.Deck()
        self.mbx = None
        hs = []
        if mailbox:
            from keri.app.storing import Mailboxer
            from keri.app.forwarding import ForwardHandler
            self.mbx = Mailboxer(name=name + "mbx", headDirPath=path, reopen=True)
            hs.append(ForwardHandler(hby=self.hby, mbx=self.mbx))
        self.exc = Exchanger(hby=self.hby, handlers=hs + list(handlers(self.hby) if handlers else []))
        self.rvy = routing.Revery(db=self.hby.db, cues=self.cues)
        self.kvy = eventing.Kevery(db=self.hby.db, lax=True, local=False, rvy=self.rvy, cues=self.cues)
        self.kvy.registerReplyRoutes(router=self.rvy.rtr)
        self.psr = parsing.Parser(framed=True, kvy=self.kvy, rvy=self.rvy, exc=self.exc, version=self.v)

    @property
    def db(self):
        return self.hby.db

    def give(self, msg, **kw):
        if DBG: print("GIVE", self.name, bytes(msg))
        self.psr.parse(ims=bytearray(msg), **kw)

    def settle(self):
        self.kvy.processEscrows()
        self.rvy.processEscrowReply()
        self.exc.processEscrow()

    def log(self, pre):
        """a copy of an identifier's log"""
        return b"".join(bytes(m) for m in self.db.clonePreIter(pre=pre, fn=0, version=self.v))

    def close(self):
        if self.mbx:
            self.mbx.close()
        self.hby.close()


@contextlib.contextmanager
def place():
    import pysodium
    keep = pysodium.crypto_pwhash
    pysodium.crypto_pwhash = a02.KEYFAKE
    tmp = tempfile.mkdtemp(prefix="env")
    envs = []

    def make(name, **kw):
        envs.append(Env(tmp, name, **kw))
        return envs[-1]
    try:
        yield make
    finally:
        for e in envs:
            with contextlib.suppress(Exception):
                e.close()
        pysodium.crypto_pwhash = keep
        shutil.rmtree(tmp, ignore_errors=True)


@contextlib.contextmanager
def patched(*triples):
    """sets attributes for a while: (object, name, value)"""
    old = [(o, n, getattr(o, n)) for o, n, _ in triples]
    for o, n, v in triples:
        setattr(o, n, v)
    try:
        yield
    finally:
        for o, n, v in old:
            setattr(o, n, v)
