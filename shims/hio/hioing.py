class Mixin:
    """Base class to enable consistent MRO: eats leftover keyword arguments."""

    def __init__(self, *pa, **kwa):
        super().__init__()


class HioError(Exception):
    pass


class SizeError(HioError):
    pass


class ValidationError(HioError):
    pass


class VersionError(ValidationError):
    pass


class OglerError(HioError):
    pass


class FilerError(HioError):
    pass
