from .. import hioing


class TymeError(hioing.HioError):
    pass


class Tymist(hioing.Mixin):
    Tock = 0.03125

    def __init__(self, *, tyme=0.0, tock=None, **kwa):
        super().__init__(**kwa)
        self.tyme = float(tyme)
        self.tock = float(tock) if tock is not None else self.Tock

    def tick(self, tock=None):
        self.tyme += float(tock if tock is not None else self.tock)
        return self.tyme

    def tymen(self):
        return lambda: self.tyme


class Tymee(hioing.Mixin):
    def __init__(self, *, tymth=None, **kwa):
        super().__init__(**kwa)
        self._tymth = None
        if tymth:
            self.wind(tymth=tymth)

    @property
    def tyme(self):
        return self._tymth() if self._tymth else None

    @property
    def tymth(self):
        return self._tymth

    def wind(self, tymth):
        self._tymth = tymth


class Tymer(Tymee):
    Duration = 0.0

    def __init__(self, *, duration=None, start=None, **kwa):
        super().__init__(**kwa)
        self._start = 0.0
        self._stop = 0.0
        if self.tymth:
            self.start(duration=duration if duration is not None else self.Duration, start=start)
        else:
            self._stop = duration or 0.0

    @property
    def duration(self):
        return self._stop - self._start

    @property
    def elapsed(self):
        return self.tyme - self._start

    @property
    def remaining(self):
        return max(0.0, self._stop - self.tyme)

    @property
    def expired(self):
        return self.tyme >= self._stop

    def start(self, duration=None, start=None):
        d = duration if duration is not None else self.duration
        self._start = start if start is not None else self.tyme
        self._stop = self._start + d
        return self._start

    def restart(self, duration=None):
        return self.start(duration=duration, start=self._stop)
