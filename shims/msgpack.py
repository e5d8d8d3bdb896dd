"""Offline stand-in: the pure-Python msgpack that ships inside pip."""
from pip._vendor.msgpack import *  # noqa
from pip._vendor.msgpack import (packb, unpackb, Packer, Unpacker, ExtType,
                                 Timestamp, pack, unpack)
from pip._vendor.msgpack import exceptions  # noqa
from pip._vendor.msgpack.exceptions import *  # noqa
dumps = packb
loads = unpackb
dump = pack
load = unpack
