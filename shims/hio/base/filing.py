import os
import shutil
import stat
import tempfile
from contextlib import contextmanager

from .. import hioing
from . import doing


@contextmanager
def openFiler(cls=None, name="test", temp=True, reopen=True, clear=False, **kwa):
    filer = None
    cls = cls if cls is not None else Filer
    try:
        filer = cls(name=name, temp=temp, reopen=reopen, clear=clear, **kwa)
        yield filer
    finally:
        if filer:
            filer.close(clear=filer.temp or clear)


class Filer(hioing.Mixin):
    HeadDirPath = os.path.join(os.path.sep, "usr", "local", "var")
    TailDirPath = "hio"
    CleanTailDirPath = os.path.join("hio", "clean")
    AltHeadDirPath = os.path.expanduser("~")
    AltTailDirPath = ".hio"
    AltCleanTailDirPath = os.path.join(".hio", "clean")
    TempHeadDir = tempfile.gettempdir()
    TempPrefix = "hio_"
    TempSuffix = "_test"
    Perm = stat.S_ISVTX | stat.S_IRUSR | stat.S_IWUSR | stat.S_IXUSR
    Mode = "r+"
    Fext = "text"

    def __init__(self, *, name="main", base="", temp=False, headDirPath=None, perm=None,
                 reopen=True, clear=False, reuse=False, clean=False, filed=False,
                 extensioned=False, mode=None, fext=None, **kwa):
        super().__init__(**kwa)
        if os.path.isabs(name):
            raise hioing.FilerError(f"Not relative name={name} path.")
        if os.path.isabs(base):
            raise hioing.FilerError(f"Not relative base={base} path.")
        self.name = name
        self.base = base
        self.temp = bool(temp)
        self.headDirPath = headDirPath if headDirPath is not None else self.HeadDirPath
        self.perm = perm if perm is not None else self.Perm
        self.path = None
        self.filed = bool(filed)
        self.extensioned = bool(extensioned)
        self.mode = mode if mode is not None else self.Mode
        self.fext = fext if fext is not None else self.Fext
        self.file = None
        self.opened = False
        if reopen:
            self.reopen(clear=clear, reuse=reuse, clean=clean, **kwa)

    def reopen(self, temp=None, headDirPath=None, perm=None, clear=False, reuse=False,
               clean=False, mode=None, fext=None, **kwa):
        if temp is not None:
            self.temp = bool(temp)
        if headDirPath is not None:
            self.headDirPath = headDirPath
        if perm is not None:
            self.perm = perm
        if mode is not None:
            self.mode = mode
        if fext is not None:
            self.fext = fext
        if self.opened:
            if self.file:
                self.file.close()
            self.opened = False
        if clear:
            self._clearPath()
        if not self.path or not os.path.exists(self.path) or not reuse:
            self.path, self.file = self.remake(name=self.name, base=self.base, temp=self.temp,
                                               headDirPath=self.headDirPath, perm=self.perm,
                                               clean=clean, filed=self.filed,
                                               extensioned=self.extensioned,
                                               mode=self.mode, fext=self.fext)
        elif self.filed:
            self.file = open(self.path, self.mode)
        self.opened = True if not self.filed else bool(self.file and not self.file.closed)
        return self.opened

    @classmethod
    def _paths(cls, name, base, headDirPath, clean):
        tail = cls.CleanTailDirPath if clean else cls.TailDirPath
        alt = cls.AltCleanTailDirPath if clean else cls.AltTailDirPath
        head = headDirPath if headDirPath is not None else cls.HeadDirPath
        return (os.path.abspath(os.path.expanduser(os.path.join(head, tail, base, name))),
                os.path.abspath(os.path.expanduser(
                    os.path.join(cls.AltHeadDirPath, alt, base, name))))

    def exists(self, name="", base="", headDirPath=None, clean=False, filed=False,
               extensioned=False, fext=None, **kwa):
        if self.temp:
            return False
        head = headDirPath if headDirPath is not None else self.headDirPath
        for p in self._paths(name, base, head, clean):
            if filed and not extensioned:
                p = f"{os.path.splitext(p)[0]}.{fext or self.fext}"
            if os.path.exists(p):
                return True
        return False

    def remake(self, *, name="", base="", temp=None, headDirPath=None, perm=None, clean=False,
               filed=False, extensioned=False, mode=None, fext=None, **kwa):
        file = None
        if temp:
            head = tempfile.mkdtemp(prefix=self.TempPrefix, suffix=self.TempSuffix,
                                    dir=self.TempHeadDir)
            tail = self.CleanTailDirPath if clean else self.TailDirPath
            cands = [os.path.abspath(os.path.join(head, tail, base, name))]
        else:
            cands = list(self._paths(name, base, headDirPath, clean))
        err = None
        for path in cands:
            if filed:
                if not os.path.splitext(path)[1] or not extensioned:
                    path = f"{os.path.splitext(path)[0] if extensioned else path}.{fext}"
            try:
                d = os.path.dirname(path) if filed else path
                os.makedirs(d, exist_ok=True)
                if not os.access(d, os.R_OK | os.W_OK):
                    raise PermissionError(d)
                if filed:
                    if os.path.exists(path):
                        file = open(path, mode)
                    else:
                        file = open(path, mode.replace("r", "w", 1) if mode.startswith("r") else mode)
                        if mode.startswith("r"):
                            file.close()
                            file = open(path, mode)
                else:
                    if perm is not None:
                        os.chmod(path, perm)
                return path, file
            except OSError as ex:
                err = ex
                continue
        raise err

    def close(self, clear=False):
        if self.file:
            self.file.close()
            self.file = None
        self.opened = False
        if clear:
            self._clearPath()
        return not self.opened

    def flush(self):
        self.file.flush()

    def _clearPath(self):
        if self.path and os.path.exists(self.path):
            if self.file and not self.file.closed:
                self.file.close()
            if os.path.isfile(self.path):
                os.remove(self.path)
            else:
                shutil.rmtree(self.path)
            if self.temp:  # drop now empty made up parents
                d = os.path.dirname(self.path)
                top = os.path.realpath(self.TempHeadDir)
                while os.path.realpath(d) != top and os.path.realpath(d).startswith(top):
                    try:
                        os.rmdir(d)
                    except OSError:
                        break
                    d = os.path.dirname(d)


class FilerDoer(doing.Doer):
    def __init__(self, filer, **kwa):
        super().__init__(**kwa)
        self.filer = filer

    def enter(self, *, temp=None):
        if not self.filer.opened:
            self.filer.reopen(temp=temp)

    def exit(self):
        self.filer.close(clear=self.filer.temp)
