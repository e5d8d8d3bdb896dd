from .core import APISpec  # noqa
