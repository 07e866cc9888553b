"""C27: the helpers of the C library: strings, bitvectors, arrays, sorting."""
import struct

import fmt
from capi import *
from chelp import *
from gen import *
from wk import check

VARIANT = "capi"
CASES = {"quick": 9000, "thorough": 600000}
RULE = ("one case = one random input for one family of helpers of the C library: strings of one, two and four bytes in heap blocks of their exact size (measuring, copying, converting, comparing in all "
        "nine combinations and against unterminated text, hashing), bitvectors in each of the six stored forms (length, bits, any set, the two hashes, comparison in every combination of forms), "
        "programs of operations on a dynamic array of some item size while allocations are refused, and sorting with a comparison which fails at times; the oracle is Python's str, list and sort; "
        "non-trivial = a string, bitvector, array or order of at least two items; distinct by the input")
MUST_OBSERVE = ("strings", "pairs", "unterminated", "bitvectors", "bit_pairs", "equal_in_two_forms", "arrays", "refused", "sorts", "failed_sorts", "given", "buckets", "bit_fields")
MIN_EVAL = 3000
NAME = {8: "ascii", 16: "ucs2", 32: "ucs4"}


class Heap:
    """blocks of exactly the size asked for, so that reading past them is an error"""

    def __init__(self):
        self.all = []

    def put(self, b):
        p = L.capi_memdup(b, len(b))
        self.all.append(p)
        return p

    def string(self, s, w, end=True):
        return self.put(pack(s, w) + (b"\0" * (w // 8) if end else b""))

    def drop(self):
        for p in self.all:
            free(p)


def pack(s, w):
    return struct.pack("<%d%s" % (len(s), {8: "B", 16: "H", 32: "I"}[w]), *s)


def sign(x):
    return (x > 0) - (x < 0)


def text(r, top):
    """code points, none of them zero"""
    edge = [x for x in (1, 0x7f, 0x80, 0xff, 0x100, 0xd800, 0xfffe, 0xffff, 0x10000, 0x10ffff, 0x7fffffff, 0x80000000, 0xffffffff, 0x41, 0x4100, 0x41000000) if x < top]
    n = r.choice([0, 1, 1, 2, 3, 4, 5, 7, 8, 9, 16, r.randint(0, 40), r.choice([255, 256, 1000])])
    k = r.random()
    return [r.choice(edge) if k < .5 else r.randint(1, min(top - 1, 0x7f)) if r.random() < .8 else r.randint(1, top - 1) for _ in range(n)]


def strings(r, T, H):
    w = r.choice([8, 16, 32])
    s = text(r, 1 << w)
    p = H.string(s, w)
    name = NAME[w]
    check(getattr(L, "pointless_%s_len" % name)(p) == len(s), "length:" + name, lambda: "%r" % (s,))
    if w == 8:
        check(L.pointless_ucs1_len(p) == len(s), "length:ucs1", lambda: "%r" % (s,))
    raw = pack(s, w) + b"\0" * (w // 8)
    q = H.put(b"\xa5" * len(raw))
    getattr(L, "pointless_%s_cpy" % name)(q, p)
    check(ctypes.string_at(q, len(raw)) == raw, "copy:" + name, lambda: "%r" % (s,))
    narrow = all(x < 256 for x in s)
    if w > 8:
        check(bool(getattr(L, "pointless_is_%s_ascii" % name)(p)) == narrow, "range:" + name, lambda: "%r" % (s,))
    todo = {8: [("ascii_to_ucs4", 32)], 16: [("ucs2_to_ucs4", 32)], 32: []}[w] + ([(name + "_to_ascii", 8)] if w > 8 and narrow else [])
    for f, to in todo:
        live = Alloc.live.value
        no = r.random() < .2
        Alloc.fail_at.value = Alloc.seen.value if no else -1
        o = getattr(L, "pointless_" + f)(p)
        Alloc.fail_at.value = -1
        if no:
            check(not o and Alloc.live.value == live, "convert-refused:" + f, "")
            T.count("refused")
            continue
        check(o and ctypes.string_at(o, (len(s) + 1) * to // 8) == pack(s, to) + b"\0" * (to // 8), "convert:" + f, lambda: "%r" % (s,))
        check(Alloc.live.value == live + 1, "convert-leak:" + f, "")
        free(o)
    h = {8: L.pointless_hash_string_v1_32, 16: L.pointless_hash_unicode_ucs2_v1_32, 32: L.pointless_hash_unicode_ucs4_v1_32}[w](p)
    check(h == fmt.hash_string(s), "hash:" + name, lambda: "%r" % (s,))
    if w == 8:
        u = H.string(s, 8, False)
        check(L.pointless_hash_string_v1_32_(u, len(s)) == h, "hash:n", lambda: "%r" % (s,))
    T.count("strings")
    # the same text compares alike whatever its width, and its hash is the same
    t = r.choice([list(s), s[:-1], s + text(r, 256)[:1], text(r, 1 << r.choice([8, 16, 32]))])
    if t and r.random() < .5:
        j = r.randrange(len(t))
        t = t[:j] + [r.choice([t[j] ^ (1 << r.choice([0, 7, 8, 15, 16, 31])) or 1, r.randint(1, 255)])] + t[j + 1:]
    for a, b, x, y in ((w, v, s, t) for v in (8, 16, 32)):
        for _ in range(2):
            if all(c < 1 << a for c in x) and all(c < 1 << b for c in y):
                got = getattr(L, "pointless_cmp_string_%d_%d" % (a, b))(H.string(x, a), H.string(y, b))
                check(sign(got) == (x > y) - (x < y), "compare:%d:%d" % (a, b), lambda: "%r %r: %d" % (x, y, got))
                T.count("pairs")
            a, b, x, y = b, a, y, x
    if w != 16:
        y = [c & 255 for c in t]
        if r.random() < .3:
            y = [c & 255 for c in s] + y[:r.choice([0, 0, 1])]
        if 0 in y and r.random() < .7:
            y = [c or 1 for c in y]
        if 0 not in y:
            got = getattr(L, "pointless_cmp_string_%d_8_n" % w)(p, H.string(y, 8, False), len(y))
            check(sign(got) == (s > y) - (s < y), "compare:%d:8:n" % w, lambda: "%r %r: %d" % (s, y, got))
            T.count("unterminated")
    if len(s) > 1:
        T.key(("s", w, tuple(s), tuple(t)))


NAME = {8: "ascii", 16: "ucs2", 32: "ucs4"}
B, B0, B1, B01, B10, BP = 11, 12, 13, 14, 15, 16


def forms(bits):
    """every stored form of a bitvector: (type, data, has a buffer)"""
    n = len(bits)
    out = [(B, 0)]
    if not any(bits):
        out.append((B0, n))
    if all(bits):
        out.append((B1, n))
    for a in {bits.count(True), bits.count(False)}:
        if a < 65536 and n - a < 65536:
            if bits == [False] * a + [True] * (n - a):
                out.append((B01, a | (n - a) << 16))
            if bits == [True] * a + [False] * (n - a):
                out.append((B10, a | (n - a) << 16))
    if n < 28:
        out.append((BP, n | sum(x << (5 + j) for j, x in enumerate(bits))))
    return out


def packed(bits, r):
    """the bits as bytes; those past the end are anything"""
    n = len(bits)
    b = bytearray((n + 7) // 8)
    for j, x in enumerate(bits):
        b[j // 8] |= x << (j % 8)
    if n % 8 and r.random() < .5:
        b[-1] |= (r.randrange(256) << (n % 8)) & 255
    return bytes(b)


def some_bits(r):
    n = r.choice([0, 1, 2, 3, 7, 8, 9, 15, 16, 17, 26, 27, 28, 31, 32, 33, 63, 64, 65, r.randint(0, 30), r.randint(0, 300), r.choice([1000, 4097])])
    if r.random() < .02:
        n = r.choice([65535, 65536, 70000])
    k = r.random()
    a = r.choice([0, n, n // 2, r.randint(0, n)])
    if k < .3:
        return [False] * a + [True] * (n - a)
    if k < .6:
        return [True] * a + [False] * (n - a)
    out = [r.random() < .5 for _ in range(n)]
    if k < .7:
        out = [False] * n
        if n:
            out[r.randrange(n)] = True
    return out


def hash64(bits):
    h = 1
    for j in range(0, len(bits), 8):
        h = (h * 1000000001 + sum(1 << k for k, x in enumerate(bits[j:j + 8]) if x)) & (2 ** 64 - 1)
    return h


def bitvectors(r, T, H):
    x = some_bits(r)
    y = r.choice([list(x), x[:-1], x + [r.random() < .5], some_bits(r), [not b for b in x]])
    if y and r.random() < .4:
        y = list(y)
        j = r.choice([len(y) - 1, 0, r.randrange(len(y))])
        y[j] = not y[j]
    side = []
    for bits in (x, y):
        got = []
        for t, d in forms(bits):
            raw = packed(bits, r)
            buf = H.put(struct.pack("<I", len(bits)) + raw) if t == B else None
            v = V(t, d)
            data = byref(v, 4)
            what = "%d" % t
            check(L.pointless_bitvector_n_bits(t, data, buf) == len(bits), "bits-length:" + what, "%d" % len(bits))
            check(bool(L.pointless_bitvector_is_any_set(t, data, buf)) == any(bits), "bits-any:" + what, lambda: "%r" % (bits,))
            for j in range(len(bits)) if len(bits) < 300 else [r.randrange(len(bits)) for _ in range(100)] + [0, len(bits) - 1, 65535 % len(bits), 255, 256]:
                check(bool(L.pointless_bitvector_is_set(t, data, buf, j)) == bits[j], "bits-set:" + what, lambda: "%d of %r" % (j, bits[:300]))
            check(L.pointless_bitvector_hash_32(t, data, buf) == fmt.hash_bits(bits), "bits-hash32:" + what, lambda: "%r" % (bits,))
            check(L.pointless_bitvector_hash_64(t, data, buf) == hash64(bits), "bits-hash64:" + what, lambda: "%r" % (bits,))
            if buf:
                check(L.pointless_bitvector_hash_buffer_32(buf) == fmt.hash_bits(bits) and L.pointless_bitvector_hash_buffer_64(buf) == hash64(bits), "bits-hash-buffer", lambda: "%r" % (bits,))
                loose = H.put(raw)
                check(L.pointless_bitvector_hash_n_bits_bits_32(len(bits), loose) == fmt.hash_bits(bits) and L.pointless_bitvector_hash_n_bits_bits_64(len(bits), loose) == hash64(bits),
                      "bits-hash-loose", lambda: "%r" % (bits,))
            got.append((v, buf, data))
            T.count("bitvectors")
        side.append(got)
    exp = (x > y) - (x < y)
    T.count("equal_in_two_forms", exp == 0 and len(side[0]) > 1)
    lx, ly = (H.put(packed(b, r)) for b in (x, y))
    for v, buf, data in side[0]:
        for w, buf2, data2 in side[1]:
            c = L.pointless_bitvector_cmp_buffer_buffer(v.type, data, buf, w.type, data2, buf2)
            d = L.pointless_bitvector_cmp_buffer_buffer(w.type, data2, buf2, v.type, data, buf)
            check(sign(c) == exp and sign(d) == -exp, "bits-compare:%d:%d" % (v.type, w.type), lambda: "%r %r: %d %d" % (x, y, c, d))
            if buf and buf2:
                check(sign(L.pointless_bitvector_cmp_buffer(buf, buf2)) == exp, "bits-compare-buffer", lambda: "%r %r" % (x, y))
            T.count("bit_pairs")
        check(sign(L.pointless_bitvector_cmp_buffer_bits(byref(v), buf, len(y), ly)) == exp, "bits-compare-loose:%d" % v.type, lambda: "%r %r" % (x, y))
    for w, buf2, data2 in side[1]:
        check(sign(L.pointless_bitvector_cmp_bits_buffer(len(x), lx, byref(w), buf2)) == exp, "bits-compare-loose2:%d" % w.type, lambda: "%r %r" % (x, y))
    # setting and clearing single bits
    n = max(len(x), 1)
    b = H.put(packed(x, random.Random(0)) or b"\0")
    m = (x or [False]) + [False] * (-n % 8)
    raw = bytearray(ctypes.string_at(b, (n + 7) // 8))
    for _ in range(8):
        j, on = r.randrange(n), r.random() < .5
        (L.bm_set_ if on else L.bm_reset_)(b, j)
        raw[j // 8] = raw[j // 8] & ~(1 << j % 8) | on << j % 8
        k = r.randrange(n)
        check(bool(L.bm_is_set_(b, k)) == bool(raw[k // 8] >> k % 8 & 1) and ctypes.string_at(b, (n + 7) // 8) == bytes(raw), "bit-field", "%d of %d" % (j, n))
        T.count("bit_fields")
    if len(x) > 1:
        T.key(("b", tuple(x[:300]), tuple(y[:300])))


def arrays(r, T, H):
    size = r.choice([1, 2, 4, 8, 3, 5, 7, 12, 16, 24, 40])
    a = Array()
    D["init"](a, size)
    m = []

    def item():
        return r.randbytes(size) if r.random() < .9 else bytes([r.choice([0, 255])]) * size

    ops = []
    for _ in range(r.choice([3, 10, 40, 150])):
        k = r.random()
        no = r.random() < .15
        if no:
            Alloc.fail_at.value = Alloc.seen.value + r.choice([0, 0, 1])
        ref = Alloc.refused.value
        if k < .45:
            it = item()
            ops.append("push")
            ok = D["push"](a, H.put(it) if not no else ctypes.cast(ctypes.create_string_buffer(it, size), P))
            if ok:
                m.append(it)
        elif k < .6:
            n = r.choice([0, 1, 2, 5, 16, 17, 33, 100])
            its = [item() for _ in range(n)]
            raw = b"".join(its)
            ops.append("bulk %d" % n)
            ok = D["push_bulk"](a, ctypes.create_string_buffer(raw, len(raw)) if raw else ctypes.create_string_buffer(1), n)
            if ok:
                m += its
        elif k < .7:
            ok = 1
            if m:
                ops.append("pop")
                D["pop"](a)
                m.pop()
        elif k < .9:
            ok = 1
            if m:
                i, j = r.randrange(len(m)), r.randrange(len(m))
                ops.append("swap %d %d" % (i, j))
                D["swap"](a, i, j)
                m[i], m[j] = m[j], m[i]
        elif k < .95:
            ok = 1
            if r.random() < .5:
                ops.append("clear")
                D["clear"](a)
                m = []
                check(D["n_heap_bytes"](a) == 0, "cleared", "")
        else:
            ok = 1
            Alloc.fail_at.value = -1
            D["clear"](a)
            n = r.choice([1, 2, 9, 40])
            m = [item() for _ in range(n)]
            ops.append("give %d" % n)
            D["give_data"](a, L.capi_memdup(b"".join(m), n * size), n)
            T.count("given")
        hit = Alloc.refused.value != ref
        Alloc.fail_at.value = -1
        check(bool(ok) != hit, "array-refusal", lambda: "%s: returned %d, refused %d" % (ops[-1], ok, hit))
        T.count("refused", hit)
        n = D["n_items"](a)
        check(n == len(m), "array-length", lambda: "%d != %d after %r" % (n, len(m), ops))
        check(ctypes.string_at(D["buffer"](a), n * size) == b"".join(m) if n else True, "array-items", lambda: "size %d: %r" % (size, ops))
        check(D["n_heap_bytes"](a) >= n * size, "array-heap", "")
        if m:
            j = r.randrange(len(m))
            check(ctypes.string_at(D["item_at"](a, j), size) == m[j], "array-item", "")
        T.count("arrays")
    D["destroy"](a)
    check(D["n_items"](a) == 0 and D["n_heap_bytes"](a) == 0, "array-destroyed", "")
    if len(ops) > 5:
        T.key(("a", size, tuple(ops)))


def sorts(r, T, H):
    n = r.choice([0, 1, 2, 3, 6, 7, 8, 9, 20, 39, 40, 41, 42, 64, 100, r.randint(0, 60), 300])
    k = r.random()
    keys = [r.randint(0, r.choice([1, 3, 10, 1000])) for _ in range(n)]
    if k < .1:
        keys.sort()
    elif k < .2:
        keys.sort(reverse=True)
    elif k < .3:
        keys = sorted(keys)
        for _ in range(min(n, 3)):
            i, j = r.randrange(n), r.randrange(n)
            keys[i], keys[j] = keys[j], keys[i]
    elif k < .35:
        keys = [abs(j - n // 2) for j in range(n)]
    elif k < .4:
        keys = [7] * n
    v = list(enumerate(keys))
    wide = r.choice([1, 1, 7, 1000000])
    fail = r.randint(0, 3 * n + 1) if r.random() < .3 else -1
    seen, bad = [0], []

    def cmp(a, b, c, user):
        if not (0 <= a < n and 0 <= b < n):
            bad.append((a, b))
            return 0
        seen[0] += 1
        if seen[0] - 1 == fail:
            c[0] = r.choice([0, 1, -1])
            return 0
        c[0] = wide * ((v[a][1] > v[b][1]) - (v[a][1] < v[b][1]))
        return 1

    def swap(a, b, user):
        if not (0 <= a < n and 0 <= b < n):
            bad.append((a, b))
            return
        v[a], v[b] = v[b], v[a]

    ok = L.bentley_sort_(n, CMP(cmp), SWAP(swap), None)
    check(not bad, "sort-range", lambda: "%r of %d" % (bad[:3], n))
    check(sorted(v) == list(enumerate(keys)), "sort-permutation", lambda: "%r -> %r" % (keys, v))
    failed = 0 <= fail < seen[0]
    check(bool(ok) != failed, "sort-result", lambda: "%d, failed %d" % (ok, failed))
    if ok:
        check([x[1] for x in v] == sorted(keys), "sort-order", lambda: "%r -> %r" % (keys, v))
    T.count("sorts")
    T.count("failed_sorts", failed)
    if n > 1:
        T.key(("o", tuple(keys), fail))
    # number of buckets: a power of two with an empty one to spare, at most about two thirds full
    for m in (r.choice([0, 1, 2, 3, 2 ** 31, 2 ** 32 - 1]), r.randrange(1 << r.randint(1, 32)), max(0, min(2 ** 32 - 1, r.choice([(1 << r.randint(1, 32)) * 2 // 3, 1 << r.randint(0, 31)]) + r.randint(-2, 2)))):
        b = L.pointless_hash_compute_n_buckets(m)
        e = 2 if m == 1 else 1
        while e < m + m // 2:
            e *= 2
        check(b == (e if e < 2 ** 32 else 0), "buckets", "%d: %d, not %d" % (m, b, e))
        T.count("buckets")


def case(i, r, T):
    H = Heap()
    live = Alloc.live.value
    try:
        [strings, strings, bitvectors, bitvectors, arrays, sorts][i % 6](r, T, H)
    finally:
        Alloc.fail_at.value = -1
    check(Alloc.live.value - len(H.all) == live, "leak", lambda: "%d" % (Alloc.live.value - len(H.all) - live))
    H.drop()
    T.ev()
