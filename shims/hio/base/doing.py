import functools
import inspect
import time
import types
from collections import deque

from . import tyming
from .. import hioing


class Doist(tyming.Tymist):
    def __init__(self, real=False, limit=None, doers=None, temp=False, name="doist", **kwa):
        super().__init__(**kwa)
        self.real = bool(real)
        self.limit = abs(float(limit)) if limit is not None else None
        self.doers = doers if doers is not None else []
        self.done = None
        self.deeds = deque()
        self.temp = temp
        self.name = name

    def do(self, doers=None, limit=None, tyme=None, temp=None):
        try:
            if doers is not None:
                self.doers = list(doers)
            if limit is not None:
                self.limit = abs(float(limit))
            if tyme is not None:
                self.tyme = tyme
            self.done = False
            self.enter()
            tymer = tyming.Tymer(tymth=self.tymen(), duration=self.limit or 0.0)
            while True:
                try:
                    self.recur()
                    if not self.deeds:
                        self.done = True
                        break
                    if self.limit and tymer.expired:
                        break
                except KeyboardInterrupt:
                    break
        finally:
            self.exit()

    def enter(self, doers=None, **kwa):
        deeds = deque()
        own = doers is None
        for doer in (self.doers if own else doers):
            dog = doer(tymth=self.tymen(), tock=doer.tock, **_opts(doer))
            try:
                next(dog)
            except StopIteration as ex:
                doer.done = ex.value
            else:
                deeds.append((dog, self.tyme, doer))
                doer.done = False
        if own:
            self.deeds = deeds
            self.done = False
        else:
            return deeds

    def recur(self, deeds=None):
        deeds = deeds if deeds is not None else self.deeds
        for _ in range(len(deeds)):
            dog, retyme, doer = deeds.popleft()
            if self.tyme >= retyme:
                try:
                    tock = dog.send(self.tyme)
                except StopIteration as ex:
                    doer.done = ex.value
                    continue
                deeds.append((dog, self.tyme + tock if tock else self.tyme, doer))
            else:
                deeds.append((dog, retyme, doer))
        self.tick()

    def exit(self, deeds=None):
        deeds = deeds if deeds is not None else self.deeds
        while deeds:
            dog, retyme, doer = deeds.pop()
            try:
                dog.close()
            except StopIteration:
                pass

    def extend(self, doers):
        self.doers.extend(doers)
        self.deeds.extend(self.enter(doers=doers))

    def remove(self, doers):
        for doer in list(doers):
            self.doers.remove(doer)
        keep = deque()
        for dog, retyme, doer in self.deeds:
            if doer in doers:
                dog.close()
            else:
                keep.append((dog, retyme, doer))
        self.deeds = keep


def _opts(doer):
    return dict(getattr(doer, "opts", None) or {})


def doify(f, *, name=None, tock=0.0, **opts):
    @functools.wraps(f)
    def inner(*pa, **kwa):
        return f(*pa, **kwa)
    inner.done = None
    if name is not None:
        inner.__name__ = name
    inner.tock = tock
    inner.opts = dict(opts)
    return inner


def doize(*, tock=0.0, **opts):
    def decorator(f):
        f.done = None
        f.tock = tock
        f.opts = dict(opts)
        return f
    return decorator


class Doer(tyming.Tymee):
    def __init__(self, *, tymth=None, tock=0.0, opts=None, temp=False, **kwa):
        super().__init__(tymth=tymth, **kwa)
        self.done = None
        self.tock = tock
        self.opts = opts if opts is not None else {}
        self.temp = temp

    def __call__(self, **kwa):
        return self.do(**kwa)

    def do(self, tymth, *, tock=0.0, **opts):
        try:
            self.wind(tymth)
            self.tock = tock
            self.done = False
            self.enter()
            if inspect.isgeneratorfunction(self.recur):
                self.done = yield from self.recur()
            else:
                while not self.done:
                    tyme = yield self.tock
                    self.done = self.recur(tyme=tyme)
        except GeneratorExit:
            self.close()
        except Exception as ex:
            self.abort(ex=ex)
            raise
        else:
            self.clean()
        finally:
            self.exit()
        return self.done

    def enter(self, *, temp=None):
        pass

    def recur(self, tyme):
        return False

    def clean(self):
        pass

    def close(self):
        pass

    def abort(self, ex):
        pass

    def exit(self):
        pass


class ReDoer(Doer):
    def recur(self):
        while True:
            yield self.tock


class DoDoer(Doer):
    def __init__(self, doers=None, always=False, **kwa):
        super().__init__(**kwa)
        self.doers = doers if doers is not None else []
        self.always = always
        self.deeds = deque()

    def do(self, tymth, *, tock=0.0, doers=None, always=None, **opts):
        try:
            self.wind(tymth)
            self.tock = tock
            self.done = False
            self.enter(doers=doers) if False else self._enterown(doers)
            while True:
                tyme = yield self.tock
                self.done = self.recur(tyme)
                if self.done and not (self.always if always is None else always):
                    break
        except GeneratorExit:
            self.close()
        except Exception as ex:
            self.abort(ex=ex)
            raise
        else:
            self.clean()
        finally:
            self.exit()
        return self.done

    def wind(self, tymth):
        super().wind(tymth)
        for doer in self.doers:
            if hasattr(doer, "wind"):
                try:
                    doer.wind(tymth)
                except TypeError:
                    pass

    def _enterown(self, doers=None):
        if doers is not None:
            self.doers = list(doers)
        try:
            self.enter()
        except TypeError:
            self.enter(temp=None)

    def enter(self, doers=None, deeds=None, *, temp=None):
        out = deque()
        own = doers is None
        for doer in (self.doers if own else doers):
            dog = doer(tymth=self.tymth, tock=doer.tock, **_opts(doer))
            try:
                next(dog)
            except StopIteration as ex:
                doer.done = ex.value
            else:
                out.append((dog, self.tyme, doer))
                doer.done = False
        if own:
            self.deeds = out
        else:
            return out

    def recur(self, tyme, deeds=None):
        deeds = deeds if deeds is not None else self.deeds
        for _ in range(len(deeds)):
            if not deeds:
                break
            dog, retyme, doer = deeds.popleft()
            if tyme >= retyme:
                try:
                    tock = dog.send(tyme)
                except StopIteration as ex:
                    doer.done = ex.value
                    if doer in self.doers and False:
                        self.doers.remove(doer)
                    continue
                deeds.append((dog, tyme + (tock or 0.0), doer))
            else:
                deeds.append((dog, retyme, doer))
        return not deeds

    def exit(self, deeds=None):
        deeds = deeds if deeds is not None else self.deeds
        while deeds:
            dog, retyme, doer = deeds.pop()
            try:
                dog.close()
            except StopIteration:
                pass

    def extend(self, doers):
        self.doers.extend(doers)
        self.deeds.extend(self.enter(doers=doers))

    def remove(self, doers):
        for doer in list(doers):
            self.doers.remove(doer)
        keep = deque()
        gone = []
        for e in self.deeds:
            (gone if e[2] in doers else keep).append(e)
        self.deeds.clear()
        self.deeds.extend(keep)
        for dog, _, _ in gone:
            try:
                dog.close()
            except (StopIteration, ValueError):
                pass


class TryDoer(Doer):
    pass


class ExDoer(Doer):
    pass
