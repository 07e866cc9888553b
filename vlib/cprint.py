"""pointless_debug_print and pointless_recreate, through ctypes."""
import contextlib
import os

from capi import *

sig("pointless_recreate_64", c_int, c_char_p, c_char_p, ERR)
sig("pointless_recreate_value", U, P, VP, P, ERR)
sig("pointless_recreate_vector_slice", U, P, VP, U, U, P, ERR)
sig("pointless_debug_print", c_int, P, P, ERR)
sig("pointless_debug_print_value", c_int, P, VP, P, ERR)
C = ctypes.PyDLL(None)
C.open_memstream.restype, C.open_memstream.argtypes = P, (POINTER(c_void_p), POINTER(c_size_t))
C.fclose.argtypes = (P,)
C.free.argtypes = (P,)


def printed(p, v):
    """what is printed of a value (None: of all), the result, and the message"""
    q, n, err = c_void_p(), c_size_t(), c_char_p()
    f = C.open_memstream(byref(q), byref(n))
    try:
        ok = L.pointless_debug_print(p, f, byref(err)) if v is None else L.pointless_debug_print_value(p, byref(v), f, byref(err))
    finally:
        C.fclose(f)
        text = ctypes.string_at(q, n.value)
        C.free(q)
    return ok, text, err.value


@contextlib.contextmanager
def quiet():
    """without what is written to the standard error output"""
    old = os.dup(2)
    new = os.open("/dev/null", os.O_WRONLY)
    os.dup2(new, 2)
    try:
        yield
    finally:
        os.dup2(old, 2)
        os.close(old)
        os.close(new)
