from . import wiring, tcp, http, serial
