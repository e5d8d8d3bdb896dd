"""Offline stand-in for semver 3 (parse, compare, Version)."""
import re
_RX = re.compile(r"^(0|[1-9]\d*)\.(0|[1-9]\d*)\.(0|[1-9]\d*)"
                 r"(?:-((?:0|[1-9]\d*|\d*[a-zA-Z-][0-9a-zA-Z-]*)(?:\.(?:0|[1-9]\d*|\d*[a-zA-Z-][0-9a-zA-Z-]*))*))?"
                 r"(?:\+([0-9a-zA-Z-]+(?:\.[0-9a-zA-Z-]+)*))?$")


class Version:
    def __init__(self, major, minor=0, patch=0, prerelease=None, build=None):
        self.major, self.minor, self.patch = int(major), int(minor), int(patch)
        self.prerelease, self.build = prerelease, build

    @classmethod
    def parse(cls, s):
        if isinstance(s, bytes):
            s = s.decode()
        if not isinstance(s, str):
            raise TypeError("not expecting type '%s'" % type(s))
        m = _RX.match(s)
        if not m:
            raise ValueError(f"{s} is not valid SemVer string")
        return cls(*m.groups())

    def __str__(self):
        v = f"{self.major}.{self.minor}.{self.patch}"
        if self.prerelease:
            v += f"-{self.prerelease}"
        if self.build:
            v += f"+{self.build}"
        return v

    def _key(self):
        if self.prerelease is None:
            pre = (1,)
        else:
            pre = (0, tuple((0, int(p), "") if p.isdigit() else (1, 0, p)
                            for p in self.prerelease.split(".")))
        return (self.major, self.minor, self.patch, pre)

    def compare(self, other):
        if isinstance(other, str):
            other = Version.parse(other)
        a, b = self._key(), other._key()
        return (a > b) - (a < b)

    def __eq__(self, other):
        return self.compare(other) == 0

    def __lt__(self, other):
        return self.compare(other) < 0

    def __gt__(self, other):
        return self.compare(other) > 0

    def __le__(self, other):
        return self.compare(other) <= 0

    def __ge__(self, other):
        return self.compare(other) >= 0

    def __hash__(self):
        return hash(self._key())


VersionInfo = Version


def compare(a, b):
    return Version.parse(a).compare(Version.parse(b))
