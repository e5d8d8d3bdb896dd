"""Stand-in for `hio`: scheduling, decks, files and logging as keripy uses
them. The network classes only hold state: nothing opens a socket."""
__version__ = "0.7.19"
from .hioing import Mixin, HioError, ValidationError, VersionError
