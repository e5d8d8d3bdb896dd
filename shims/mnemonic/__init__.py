from .mnemonic import Mnemonic  # noqa
