"""Builds and uses the preloaded rand()."""
import ctypes
import os
import subprocess
import tempfile

HERE = os.path.dirname(os.path.abspath(__file__))
N = 4096


def build():
    """-> path of the library, or None when it cannot be built"""
    fd, path = tempfile.mkstemp(prefix='verif-rand-', suffix='.so')
    os.close(fd)
    try:
        r = subprocess.run(['gcc', '-shared', '-fPIC', '-O1', '-o', path, os.path.join(HERE, 'crand.c')],
                           stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, timeout=60)
        if r.returncode == 0:
            return path
    except (OSError, subprocess.SubprocessError):
        pass
    os.unlink(path)
    return None


_keep = []


def load(values):
    """give rand() its values; False when the library is not preloaded"""
    try:
        f = ctypes.CDLL(None).verif_rand_set
    except AttributeError:
        return False
    arr = (ctypes.c_int * len(values))(*values)
    _keep.append(arr)
    f(arr, ctypes.c_long(len(values)))
    return True
