from .._net import Held, HeldDoer
from . import clienting, serving
from .clienting import Client, ClientTls, ClientDoer
from .serving import Server, ServerTls, ServerDoer
