import logging
import sys


def initOgler(level=logging.CRITICAL, **kwa):
    return Ogler(level=level, **kwa)


class Ogler:
    """Logger factory: console only, never writes files."""
    Prefix = "hio"

    def __init__(self, name="main", level=logging.CRITICAL, temp=False, prefix=None,
                 headDirPath=None, reopen=False, clear=False, consoled=True, syslogged=False,
                 filed=False, **kwa):
        self.name, self.level, self.temp = name, level, temp
        self.prefix = prefix or self.Prefix
        self.headDirPath = headDirPath
        self.dirPath = self.path = None
        self.opened = False
        self.filed = filed
        self.consoled = consoled
        self.syslogged = syslogged
        self.baseFormatter = logging.Formatter("%(prefix)s: %(message)s" if False else "%(message)s")
        self.baseConsoleHandler = logging.StreamHandler(sys.stderr)
        self.baseConsoleHandler.setFormatter(self.baseFormatter)
        self.baseSysLogHandler = logging.NullHandler()

    def reopen(self, **kwa):
        for k in ("name", "temp", "headDirPath"):
            if kwa.get(k) is not None:
                setattr(self, k, kwa[k])
        self.opened = True
        return True

    def close(self, clear=False):
        self.opened = False

    def resetLevel(self, name=__name__, level=None, globally=False):
        self.level = level if level is not None else self.level
        logging.getLogger(name).setLevel(self.level)

    def resetLevels(self, *a, level=None, **kwa):
        self.level = level if level is not None else self.level

    def getLogger(self, name=__name__, level=None):
        logger = logging.getLogger(name)
        logger.propagate = False
        logger.setLevel(level if level is not None else self.level)
        if not logger.handlers:
            logger.addHandler(self.baseConsoleHandler)
        return logger


ogler = initOgler()
