"""The C API of the library, called through ctypes within the (sanitized) extension built as variant 'capi'."""
import ctypes
from ctypes import POINTER, byref, c_char_p, c_float, c_int, c_int32, c_int64, c_size_t, c_uint8, c_uint16, c_uint32, c_uint64, c_void_p, c_int8, c_int16

import pointless

L = ctypes.PyDLL(pointless.__file__)
FAIL = 0xffffffff


class V(ctypes.Structure):
    """pointless_value_t"""
    _pack_ = 1
    _fields_ = [("type", c_uint32), ("data", c_uint32)]

    def td(self):
        return (self.type, self.data)


VP, VPP = POINTER(V), POINTER(POINTER(V))
U32P, ERR = POINTER(c_uint32), POINTER(c_char_p)
ITEM = {"i8": c_int8, "u8": c_uint8, "i16": c_int16, "u16": c_uint16, "i32": c_int32, "u32": c_uint32, "i64": c_int64, "u64": c_uint64, "float": c_float}
WALK = ctypes.CFUNCTYPE(c_uint32, c_void_p, VP, c_uint32, c_void_p)
EQ = ctypes.CFUNCTYPE(c_uint32, c_void_p, POINTER(ctypes.c_ubyte), c_void_p, ERR)


def sig(name, res, *args):
    f = getattr(L, name)
    f.restype, f.argtypes = res, args
    return f


P = c_void_p
sig("capi_sizeof", c_size_t, c_char_p)
sig("capi_vector_item", c_uint32, P, VP, c_uint32, POINTER(c_uint64))
sig("capi_cmp", c_int, P, VP, P, VP, ERR)
sig("capi_intop", c_int, c_int, c_int, c_uint64, c_int, c_uint64, c_int, POINTER(c_uint64))
sig("capi_intop_eval", c_int, P, POINTER(c_uint64), ERR)
sig("capi_memdup", P, c_char_p, c_size_t)
SIZES = {n: L.capi_sizeof(n.encode()) for n in ("pointless_t", "pointless_create_t", "pointless_hash_iter_state_t", "intop_eval_context_t")}
assert all(SIZES.values())

for s in ("f", "f_skip_validate"):
    sig("pointless_open_" + s, c_int, P, c_char_p, ERR)
for s in ("b", "b_skip_validate"):
    sig("pointless_open_" + s, c_int, P, c_char_p, c_size_t, ERR)
sig("pointless_close", None, P)
sig("pointless_root", VP, P)
for s in ("unicode_len", "string_len", "vector_n_items", "bitvector_n_bits", "set_n_items", "set_n_buckets", "map_n_items", "map_n_buckets"):
    sig("pointless_reader_" + s, c_uint32, P, VP)
sig("pointless_reader_unicode_value_ucs4", POINTER(c_uint32), P, VP)
sig("pointless_reader_string_value_ascii", POINTER(c_uint8), P, VP)
sig("pointless_reader_vector_value", VP, P, VP)
for s, t in ITEM.items():
    sig("pointless_reader_vector_" + s, POINTER(t), P, VP)
sig("pointless_reader_bitvector_is_set", c_uint32, P, VP, c_uint32)
sig("pointless_reader_set_iter", c_uint32, P, VP, VPP, U32P)
sig("pointless_reader_map_iter", c_uint32, P, VP, VPP, VPP, U32P)
sig("pointless_reader_set_lookup", None, P, VP, VP, VPP, ERR)
sig("pointless_reader_map_lookup", None, P, VP, VP, VPP, VPP, ERR)
for s in ("map", "set"):
    sig("pointless_reader_%s_iter_hash_init" % s, None, P, VP, c_uint32, P)
sig("pointless_reader_map_iter_hash", c_uint32, P, VP, c_uint32, VPP, VPP, P)
sig("pointless_reader_set_iter_hash", c_uint32, P, VP, c_uint32, VPP, P)
for s in ("set_hash_vector", "set_key_vector", "map_hash_vector", "map_key_vector", "map_value_vector"):
    sig("pointless_" + s, VP, P, VP)
sig("pointless_n_containers", c_uint32, P)
sig("pointless_container_id", c_uint32, P, VP)
sig("pointless_walk", None, P, WALK, P)
sig("pointless_hash_reader_32", c_uint32, P, VP)
sig("pointless_is_hashable_reader", c_uint32, P, VP)

sig("pointless_get_mapping_string_to_u32", c_int, P, VP, c_char_p, U32P)
sig("pointless_get_mapping_string_to_i64", c_int, P, VP, c_char_p, POINTER(c_int64))
for s in ("string_to_set", "string_to_map", "string_to_value"):
    sig("pointless_get_mapping_" + s, c_int, P, VP, c_char_p, VP)
sig("pointless_get_mapping_int_to_value", c_int, P, VP, c_int64, VP)
sig("pointless_get_mapping_string_n_to_value", c_int, P, VP, c_char_p, c_size_t, VP)
sig("pointless_get_mapping_unicode_to_value", c_int, P, VP, U32P, VP)
sig("pointless_get_mapping_unicode_to_u32", c_int, P, VP, U32P, U32P)
sig("pointless_get_mapping_string_to_vector", c_int, P, VP, c_char_p, VP, U32P)
for s, t in ITEM.items():
    sig("pointless_get_mapping_string_to_vector_" + s, c_int, P, VP, c_char_p, POINTER(POINTER(t)), U32P)
sig("pointless_get_mapping_string_to_vector_value", c_int, P, VP, c_char_p, VPP, U32P)
for s in ("set", "map"):
    sig("pointless_is_int_in_" + s, c_int, P, VP, c_int64)
    sig("pointless_is_in_%s_acyclic" % s, c_int, P, VP, VP)
sig("pointless_has_same_keys_set_map", c_int, P, VP, VP)
sig("pointless_has_same_keys_map_map", c_int, P, VP, VP)

U = c_uint32
for s in ("begin_64", "end"):
    sig("pointless_create_" + s, None, P)
sig("pointless_create_output_and_end_f", c_int, P, c_char_p, ERR)
sig("pointless_create_output_and_end_b", c_int, P, POINTER(c_void_p), POINTER(c_size_t), ERR)
sig("pointless_create_set_root", None, P, U)
for s, t in (("i32", c_int32), ("u32", U), ("float", c_float), ("boolean", c_int32)):
    sig("pointless_create_" + s, U, P, t)
for s in ("null", "boolean_true", "boolean_false", "empty_slot", "set", "map", "vector_value"):
    sig("pointless_create_" + s, U, P)
sig("pointless_create_unicode_ucs4", U, P, U32P)
sig("pointless_create_unicode_ucs2", U, P, POINTER(c_uint16))
sig("pointless_create_unicode_ascii", U, P, c_char_p, ERR)
sig("pointless_create_string_ucs4", U, P, U32P)
sig("pointless_create_string_ucs2", U, P, POINTER(c_uint16))
sig("pointless_create_string_ascii", U, P, c_char_p)
sig("pointless_create_bitvector", U, P, c_char_p, U)
sig("pointless_create_bitvector_no_normalize", U, P, c_char_p, U)
sig("pointless_create_bitvector_compressed", U, P, VP)
for s, t in ITEM.items():
    sig("pointless_create_vector_" + s, U, P)
    sig("pointless_create_vector_%s_append" % s, U, P, U, t)
    sig("pointless_create_vector_%s_owner" % s, U, P, POINTER(t), U)
sig("pointless_create_vector_value_append", U, P, U, U)
sig("pointless_create_vector_value_set", None, P, U, U, U)
for s in ("u32", "value"):
    sig("pointless_create_vector_%s_transfer" % s, U, P, U, P, U)
sig("pointless_create_set_add", U, P, U, U)
sig("pointless_create_map_add", U, P, U, U, U)

sig("intop_eval_compile", c_int, c_char_p, P, ERR)
sig("capi_free", None, P)
free = L.capi_free


class Alloc:
    """the library's allocations: how many are live; which is refused"""
    live, seen, refused, fail_at = (ctypes.c_long.in_dll(L, "capi_" + x) for x in ("live", "seen", "refused", "fail_at"))
    later = c_int.in_dll(L, "capi_fail_later")


class File:
    """an open pointless_t"""

    def __init__(self, data=None, fname=None, validate=True):
        self.p = ctypes.create_string_buffer(SIZES["pointless_t"])
        err = c_char_p()
        s = "" if validate else "_skip_validate"
        if fname is not None:
            ok = getattr(L, "pointless_open_f" + s)(self.p, fname, byref(err))
        else:
            ok = getattr(L, "pointless_open_b" + s)(self.p, data, len(data), byref(err))
        if not ok:
            self.p = None
            raise ValueError("pointless_open: %s" % (err.value,))

    def close(self):
        if self.p is not None:
            L.pointless_close(self.p)
            self.p = None

    __del__ = close


def ucs4(s):
    return (c_uint32 * (len(s) + 1))(*map(ord, s))


def ucs2(s):
    return (c_uint16 * (len(s) + 1))(*map(ord, s))
