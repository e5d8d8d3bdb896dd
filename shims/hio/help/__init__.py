from . import ogling
ogler = ogling.initOgler(prefix="hio", syslogged=False)
from .decking import Deck
from .hicting import Hict, Mict
from .helping import isNonStringIterable, isNonStringSequence, isIterator, NonStringIterable, NonStringSequence, attributize
from . import decking, hicting, helping, timing
