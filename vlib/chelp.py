"""The helpers of the C library for strings, bitvectors, arrays and sorting, through ctypes."""
from capi import *

CT = {8: c_uint8, 16: c_uint16, 32: c_uint32}
sig("pointless_is_ucs4_ascii", c_int, P)
sig("pointless_is_ucs2_ascii", c_int, P)
for n in ("ucs4", "ucs2", "ascii", "ucs1"):
    sig("pointless_%s_len" % n, c_size_t, P)
for n in ("ucs4", "ucs2", "ascii"):
    sig("pointless_%s_cpy" % n, None, P, P)
for n in ("ucs4_to_ascii", "ucs2_to_ucs4", "ucs2_to_ascii", "ascii_to_ucs4"):
    sig("pointless_" + n, P, P)
for a in CT:
    for b in CT:
        sig("pointless_cmp_string_%d_%d" % (a, b), c_int32, P, P)
for a in (8, 32):
    sig("pointless_cmp_string_%d_8_n" % a, c_int32, P, P, c_size_t)
sig("pointless_hash_string_v1_32", U, P)
sig("pointless_hash_string_v1_32_", U, P, c_size_t)
sig("pointless_hash_unicode_ucs2_v1_32", U, P)
sig("pointless_hash_unicode_ucs4_v1_32", U, P)

for n in ("is_any_set", "n_bits", "hash_32"):
    sig("pointless_bitvector_" + n, U, U, P, P)
sig("pointless_bitvector_is_set", U, U, P, P, U)
sig("pointless_bitvector_hash_64", c_uint64, U, P, P)
sig("pointless_bitvector_cmp_buffer_buffer", c_int32, U, P, P, U, P, P)
sig("pointless_bitvector_cmp_bits_buffer", c_int32, U, P, P, P)
sig("pointless_bitvector_cmp_buffer_bits", c_int32, P, P, U, P)
sig("pointless_bitvector_cmp_buffer", c_int32, P, P)
sig("pointless_bitvector_hash_buffer_32", U, P)
sig("pointless_bitvector_hash_buffer_64", c_uint64, P)
sig("pointless_bitvector_hash_n_bits_bits_32", U, U, P)
sig("pointless_bitvector_hash_n_bits_bits_64", c_uint64, U, P)
sig("bm_set_", None, P, c_uint64)
sig("bm_reset_", None, P, c_uint64)
sig("bm_is_set_", c_uint8, P, c_uint64)
sig("pointless_hash_compute_n_buckets", U, U)


class Array(ctypes.Structure):
    """pointless_dynarray_t"""
    _fields_ = [("data", P), ("n_items", c_size_t), ("n_alloc", c_size_t), ("item_size", c_size_t)]


AP = POINTER(Array)
D = {}
for n, res, args in (("init", None, (c_size_t,)), ("n_items", c_size_t, ()), ("n_heap_bytes", c_size_t, ()), ("pop", None, ()), ("push", c_int, (P,)), ("push_bulk", c_int, (P, c_size_t)),
                     ("clear", None, ()), ("destroy", None, ()), ("item_at", P, (c_size_t,)), ("buffer", P, ()), ("swap", None, (c_size_t, c_size_t)), ("give_data", None, (P, c_size_t))):
    D[n] = sig("pointless_dynarray_" + n, res, AP, *args)

CMP = ctypes.CFUNCTYPE(c_int, c_int, c_int, POINTER(c_int), c_void_p)
SWAP = ctypes.CFUNCTYPE(None, c_int, c_int, c_void_p)
sig("bentley_sort_", c_int, c_int, CMP, SWAP, P)
