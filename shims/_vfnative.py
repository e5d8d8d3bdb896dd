"""Builds and loads the native stand-in code (blake3) once per process."""
import ctypes
import hashlib
import os
import subprocess
import tempfile

_HERE = os.path.dirname(os.path.abspath(__file__))
_SRC = os.path.join(os.path.dirname(_HERE), "native", "blake3.c")


def _build():
    with open(_SRC, "rb") as f:
        tag = hashlib.sha256(f.read()).hexdigest()[:16]
    name = f"libvb3-{tag}.so"
    for base in (os.path.join(os.path.dirname(_HERE), "build"),
                 os.path.join(tempfile.gettempdir(), f"verif-native-{os.getuid()}")):
        out = os.path.join(base, name)
        if os.path.exists(out):
            try:
                return ctypes.CDLL(out)
            except OSError:
                pass
        try:
            os.makedirs(base, exist_ok=True)
            tmp = f"{out}.{os.getpid()}"
            subprocess.run(["gcc", "-O2", "-shared", "-fPIC", "-o", tmp, _SRC],
                           check=True, stdin=subprocess.DEVNULL)
            os.replace(tmp, out)
            return ctypes.CDLL(out)
        except (OSError, subprocess.CalledProcessError):
            continue
    raise RuntimeError("cannot build native blake3 stand-in")


lib = _build()
lib.vb3.argtypes = [ctypes.c_char_p, ctypes.c_size_t, ctypes.c_char_p, ctypes.c_size_t]
lib.vb3.restype = None


def blake3(data: bytes, length: int) -> bytes:
    out = ctypes.create_string_buffer(length)
    lib.vb3(data, len(data), out, length)
    return out.raw
