"""Puts NumPy's data allocations against inaccessible pages (native/guard.c)."""
import ctypes
import os
import subprocess
import tempfile

from . import core

SRC = os.path.join(core.VERIF, 'native', 'guard.c')
SO = os.path.join(core.VERIF, 'build', 'libguard.so')


def compile():
    os.makedirs(os.path.dirname(SO), exist_ok=True)
    if os.path.exists(SO) and os.path.getmtime(SO) >= os.path.getmtime(SRC):
        return
    fd, tmp = tempfile.mkstemp(dir=os.path.dirname(SO))
    os.close(fd)
    subprocess.check_call(['gcc', '-O2', '-g', '-fPIC', '-shared', '-o', tmp, SRC])
    os.rename(tmp, SO)


class Guard(object):
    def __init__(self):
        import numpy.core._multiarray_umath as mu
        self.lib = ctypes.CDLL(SO)
        for n in ('guard_allocs', 'guard_frees', 'guard_bytes'):
            getattr(self.lib, n).restype = ctypes.c_ulong
        api = ctypes.pythonapi
        api.PyCapsule_New.restype = ctypes.py_object
        api.PyCapsule_New.argtypes = [ctypes.c_void_p, ctypes.c_char_p, ctypes.c_void_p]
        api.PyCapsule_GetPointer.restype = ctypes.c_void_p
        api.PyCapsule_GetPointer.argtypes = [ctypes.py_object, ctypes.c_char_p]
        table = ctypes.cast(api.PyCapsule_GetPointer(mu._ARRAY_API, None),
                            ctypes.POINTER(ctypes.c_void_p))
        # PyDataMem_SetHandler is entry 304 of NumPy's C API since 1.22
        self.set = ctypes.PYFUNCTYPE(ctypes.py_object, ctypes.py_object)(table[304])
        addr = ctypes.addressof(ctypes.c_char.in_dll(self.lib, 'guard_handler'))
        self.capsule = api.PyCapsule_New(addr, b'mem_handler', None)
        self.old = None

    def __enter__(self):
        self.old = self.set(self.capsule)
        return self

    def __exit__(self, *a):
        self.set(self.old)

    @property
    def allocs(self):
        return self.lib.guard_allocs()

    @property
    def frees(self):
        return self.lib.guard_frees()
