import datetime
import time


class Timer:
    def __init__(self, duration=0.0, start=None, **kwa):
        self._start = start if start is not None else time.time()
        self._stop = self._start + duration

    @property
    def duration(self):
        return self._stop - self._start

    @property
    def elapsed(self):
        return time.time() - self._start

    @property
    def remaining(self):
        return max(0.0, self._stop - time.time())

    @property
    def expired(self):
        return time.time() >= self._stop

    def start(self, duration=None, start=None):
        d = duration if duration is not None else self.duration
        self._start = start if start is not None else time.time()
        self._stop = self._start + d
        return self._start

    def restart(self, duration=None):
        return self.start(duration=duration, start=self._stop)


MonoTimer = Timer


def nowIso8601():
    return datetime.datetime.now(datetime.timezone.utc).isoformat(timespec="microseconds")
