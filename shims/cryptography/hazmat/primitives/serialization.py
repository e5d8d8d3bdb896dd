import enum


class Encoding(enum.Enum):
    PEM = "PEM"
    DER = "DER"
    OpenSSH = "OpenSSH"
    Raw = "Raw"
    X962 = "ANSI X9.62"


class PublicFormat(enum.Enum):
    SubjectPublicKeyInfo = 1
    OpenSSH = 2
    Raw = 3
    CompressedPoint = 4
    UncompressedPoint = 5


class PrivateFormat(enum.Enum):
    PKCS8 = 1
    Raw = 2
    OpenSSH = 3


class NoEncryption:
    pass
