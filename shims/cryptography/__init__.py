"""Offline stand-in for the parts of cryptography keri uses."""
from . import exceptions
