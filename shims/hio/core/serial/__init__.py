from . import serialing
from .serialing import Console
