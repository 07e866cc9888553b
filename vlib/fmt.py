"""The file format, independently of the library: a decoder, the hash function, a checker of hash tables, and an encoder.

Layout (little endian): an 8 byte root value, 6 u32 counts (strings, vectors, bitvectors, sets, maps, version = 2), u64 heap
offsets of each of them, then the heap. A value is u32 type, u32 data; references are indices into the offset tables.
"""
import struct
from math import modf

(V_VALUE, V_HASHABLE, V_I8, V_U8, V_I16, V_U16, V_I32, V_U32, V_FLOAT, V_EMPTY, UNICODE, BITS, BITS_0, BITS_1, BITS_01, BITS_10, BITS_PACKED, SET, MAP,
 EMPTY_SLOT, I32, U32, FLOAT, BOOL, NULL, V_I64, V_U64, I64, U64, STRING) = range(30)
PRIM = {V_I8: ("b", "i8"), V_U8: ("B", "u8"), V_I16: ("h", "i16"), V_U16: ("H", "u16"), V_I32: ("i", "i32"), V_U32: ("I", "u32"), V_FLOAT: ("f", "f"),
        V_I64: ("q", "i64"), V_U64: ("Q", "u64")}
PRIM_OF = {v[1]: k for k, v in PRIM.items()}
VECTORS = (V_VALUE, V_HASHABLE, V_EMPTY) + tuple(PRIM)
BITVECTORS = (BITS, BITS_0, BITS_1, BITS_01, BITS_10, BITS_PACKED)
M32 = 0xffffffff


class Bad(Exception):
    """the file does not follow the format"""


def need(c, what):
    if not c:
        raise Bad(what)


# --- values of a decoded file; they have the interface of the library's objects as far as gen.same() needs it
class FBits(tuple):
    pass


class FVector:
    def __init__(self, t, i):
        self.t, self.container_id, self.items_ = t, i, []

    def __len__(self):
        return len(self.items_)

    def __getitem__(self, i):
        return self.items_[i]

    @property
    def typecode(self):
        return PRIM[self.t][1]


class FSet:
    def __init__(self, i):
        self.container_id, self.keys_ = i, []

    def __len__(self):
        return len(self.keys_)

    def __iter__(self):
        return iter(self.keys_)


class FMap:
    def __init__(self, i):
        self.container_id, self.items_ = i, []

    def __len__(self):
        return len(self.items_)

    def items(self):
        return iter(self.items_)

    def __getitem__(self, k):
        """for plain keys only"""
        return [v for a, v in self.items_ if type(a) is type(k) and a == k][0]


def n_buckets(n):
    if n == 1:
        return 2
    p = 1
    while p < n + n // 2:
        p <<= 1
    return p


class File:
    def __init__(self, b):
        self.b = b = bytes(b)
        need(len(b) >= 32, "shorter than a header")
        rt, rd, *n = struct.unpack_from("<II6I", b)
        self.root = (rt, rd)
        self.n = n[:5]
        need(n[5] == 2, "version %d" % n[5])
        pos = 32
        self.off = []
        for c in self.n:
            need(pos + 8 * c <= len(b), "offset tables end after the file")
            self.off.append(struct.unpack_from("<%dQ" % c, b, pos))
            pos += 8 * c
        self.heap = pos
        self.memo = {}
        self.spans = []
        self.steps, self.max_steps = 0, 1 << 62

    def at(self, kind, i, fmt_size):
        need(i < self.n[kind], "reference %d of kind %d out of range" % (i, kind))
        o = self.off[kind][i]
        need(o % 4 == 0, "unaligned heap item")
        need(self.heap + o + fmt_size <= len(self.b), "heap item ends after the file")
        return self.heap + o

    def string(self, i, wide):
        p = self.at(0, i, 4)
        n, = struct.unpack_from("<I", self.b, p)
        w = 4 if wide else 1
        need(p + 4 + (n + 1) * w <= len(self.b), "string ends after the file")
        u = struct.unpack_from("<%d%s" % (n + 1, "I" if wide else "B"), self.b, p + 4)
        need(u[-1] == 0, "string is not terminated")
        need(0 not in u[:-1], "string has a null character inside")
        need(all(x < 0x110000 for x in u), "character out of range")
        self.spans.append((p, p + 4 + (n + 1) * w))
        return "".join(map(chr, u[:-1])), u[:-1]

    def raw_vector(self, t, i):
        """(position, count)"""
        size = 8 if t in (V_VALUE, V_HASHABLE) else struct.calcsize("<" + PRIM[t][0])
        p = self.at(1, i, 4)
        n, = struct.unpack_from("<I", self.b, p)
        need(p + 4 + n * size <= len(self.b), "vector ends after the file")
        self.spans.append((p, p + 4 + n * size))
        return p + 4, n

    def bits(self, t, d):
        if t == BITS:
            p = self.at(2, d, 4)
            n, = struct.unpack_from("<I", self.b, p)
            m = (n + 7) // 8
            need(p + 4 + m <= len(self.b), "bitvector ends after the file")
            self.spans.append((p, p + 4 + m))
            x = int.from_bytes(self.b[p + 4:p + 4 + m], "little")
            return FBits(bool(x >> k & 1) for k in range(n)) if n < 4096 else FBits(c == "1" for c in bin(x | 1 << (8 * m))[:2:-1][:n])
        if t == BITS_0:
            return FBits([False] * d)
        if t == BITS_1:
            return FBits([True] * d)
        if t in (BITS_01, BITS_10):
            a, c = d & 0xffff, d >> 16
            return FBits([t == BITS_10] * a + [t == BITS_01] * c)
        n = d & 31
        need(n <= 27, "packed bitvector of %d bits" % n)
        return FBits(bool(d >> (5 + k) & 1) for k in range(n))

    def value(self, t, d, todo):
        if t == I32:
            return struct.unpack("<i", struct.pack("<I", d))[0]
        if t == U32:
            return d
        if t == FLOAT:
            return struct.unpack("<f", struct.pack("<I", d))[0]
        if t == BOOL:
            need(d in (0, 1), "boolean %d" % d)
            return bool(d)
        if t == NULL:
            return None
        if t in (UNICODE, STRING):
            k = ("s", t, d)
            if k not in self.memo:
                self.memo[k] = self.string(d, t == UNICODE)[0]
            return self.memo[k]
        if t in BITVECTORS:
            return self.bits(t, d)
        if t == V_EMPTY:
            return FVector(t, 0)
        if t in VECTORS:
            k = ("v", d)
            if k not in self.memo:
                v = self.memo[k] = FVector(t, d)
                todo.append((v, t, d))
            need(self.memo[k].t == t, "one vector referenced as two types")
            return self.memo[k]
        if t in (SET, MAP):
            k = (t, d)
            if k not in self.memo:
                v = self.memo[k] = (FSet if t == SET else FMap)(d)
                todo.append((v, t, d))
            return self.memo[k]
        raise Bad("value of type %d" % t)

    def table(self, t, d):
        size = 24 if t == SET else 32
        p = self.at(3 if t == SET else 4, d, size)
        self.spans.append((p, p + size))
        n, pad, *r = struct.unpack_from("<%dI" % (size // 4), self.b, p)
        need(pad == 0, "padding of a set/map header is not zero")
        need(r[0] == V_U32, "hash vector of type %d" % r[0])
        need(r[2] == V_HASHABLE, "key vector of type %d" % r[2])
        hp, hn = self.raw_vector(r[0], r[1])
        kp, kn = self.raw_vector(r[2], r[3])
        nb = n_buckets(n)
        need(hn == kn == nb or n == 0 and hn == kn, "%d and %d buckets for %d items" % (hn, kn, n))
        hs = struct.unpack_from("<%dI" % hn, self.b, hp)
        ks = struct.unpack_from("<%dI" % (2 * kn), self.b, kp)
        ks = list(zip(ks[::2], ks[1::2]))
        vs = None
        if t == MAP:
            need(r[4] in (V_VALUE, V_HASHABLE), "value vector of type %d" % r[4])
            vp, vn = self.raw_vector(r[4], r[5])
            need(vn == kn, "as many values as keys")
            vs = struct.unpack_from("<%dI" % (2 * vn), self.b, vp)
            vs = list(zip(vs[::2], vs[1::2]))
        need(sum(k[0] != EMPTY_SLOT for k in ks) == n, "count of the items")
        for j, k in enumerate(ks):
            if k[0] == EMPTY_SLOT:
                need(hs[j] == 0 and k[1] == 0, "empty slot with a hash")
                need(vs is None or vs[j] == (EMPTY_SLOT, 0), "empty slot with a value")
            else:
                need(self.hash(k[0], k[1]) == hs[j], "the hash of key %s is %d, not the %d stored" % (k, self.hash(k[0], k[1]), hs[j]))
                # the probe sequence of the hash must reach the bucket before any empty slot
                perturb = i = hs[j]
                for _ in range(40 * (kn + 64)):
                    b = i & (kn - 1)
                    if b == j:
                        break
                    need(ks[b][0] != EMPTY_SLOT, "key in bucket %d can not be found by probing" % j)
                    i = (5 * i + perturb + 1) & M32
                    perturb >>= 5
                else:
                    raise Bad("probing does not end")
        return ks, vs

    def hash(self, t, d, depth=0):
        need(depth < 600, "keys too deep")
        self.steps += 1
        need(self.steps < self.max_steps, "keys too large")
        if t == I32 or t == U32 or t == BOOL:
            return d
        if t == NULL:
            return 0
        if t == FLOAT:
            return hash_f32(d)
        if t in (UNICODE, STRING):
            k = ("h", t, d)
            if k not in self.memo:
                self.memo[k] = hash_string(self.string(d, t == UNICODE)[1])
            return self.memo[k]
        if t in BITVECTORS:
            return hash_bits(self.bits(t, d))
        if t == V_EMPTY:
            return hash_vector([])
        if t in PRIM:
            p, n = self.raw_vector(t, d)
            items = struct.unpack_from("<%d%s" % (n, "I" if t == V_FLOAT else PRIM[t][0]), self.b, p)
            return hash_vector([hash_f32(x) if t == V_FLOAT else x & M32 for x in items])
        need(t == V_HASHABLE, "key of type %d" % t)
        k = ("h", t, d)
        if k not in self.memo:
            p, n = self.raw_vector(t, d)
            r = struct.unpack_from("<%dI" % (2 * n), self.b, p)
            self.memo[k] = hash_vector([self.hash(r[2 * i], r[2 * i + 1], depth + 1) for i in range(n)])
        return self.memo[k]

    def decode(self):
        todo = []
        root = self.value(*self.root, todo)
        while todo:
            v, t, d = todo.pop()
            if t in (V_VALUE, V_HASHABLE):
                p, n = self.raw_vector(t, d)
                r = struct.unpack_from("<%dI" % (2 * n), self.b, p)
                v.items_ = [self.value(r[2 * i], r[2 * i + 1], todo) for i in range(n)]
            elif t in PRIM:
                p, n = self.raw_vector(t, d)
                v.items_ = list(struct.unpack_from("<%d%s" % (n, PRIM[t][0]), self.b, p))
            else:
                ks, vs = self.table(t, d)
                for j, k in enumerate(ks):
                    if k[0] != EMPTY_SLOT:
                        kk = self.value(k[0], k[1], todo)
                        if t == SET:
                            v.keys_.append(kk)
                        else:
                            v.items_.append((kk, self.value(vs[j][0], vs[j][1], todo)))
        return root

    def spans_of(self, kind):
        """(start, end) of the heap items of strings (0) or bitvectors (2) which were reached"""
        starts = {self.heap + o for o in self.off[kind]}
        return {s for s in self.spans if s[0] in starts}

    def overlaps(self):
        """the heap items do not overlap"""
        s = sorted(set(self.spans))
        for a, b in zip(s, s[1:]):
            need(a[1] <= b[0], "heap items overlap: %s %s" % (a, b))


# --- hash functions
def hash_string(u):
    x = (u[0] << 7) & M32 if u else 0
    for c in u:
        x = ((1000003 * x) & M32) ^ c
    return (x ^ len(u)) & M32


def hash_f32(bits):
    f, = struct.unpack("<f", struct.pack("<I", bits))
    if f == f and f not in (float("inf"), float("-inf")) and modf(f)[0] == 0.0:
        i = int(f)
        if -2 ** 31 <= i <= M32:
            return i & M32
    return bits


def hash_vector(hs):
    mult, x, n = 1000003, 0x345678, len(hs)
    for h in hs:
        x = ((x ^ h) * mult) & M32
        mult = (mult + 82520 + 2 * n) & M32
    return (x + 97531) & M32


def hash_bits(bits):
    h = 1
    for i in range(0, len(bits), 8):
        b = sum(1 << j for j, x in enumerate(bits[i:i + 8]) if x)
        h = (h * 1000000001 + b) & M32
    return h


def hash_key(k):
    """hash of a Python key, once stored"""
    if isinstance(k, bool) or isinstance(k, int):
        return int(k) & M32
    if k is None:
        return 0
    if isinstance(k, float):
        try:
            return hash_f32(struct.unpack("<I", struct.pack("<f", k))[0])
        except OverflowError:
            return hash_f32(struct.unpack("<I", struct.pack("<f", float("inf") if k > 0 else float("-inf")))[0])
    if isinstance(k, str):
        return hash_string([ord(c) for c in k])
    if isinstance(k, FBits):
        return hash_bits(k)
    if isinstance(k, (tuple, list, FVector)):
        return hash_vector([hash_key(x) for x in k])
    raise TypeError(type(k))


# --- encoder
class Enc:
    """Builds a file by hand. Values are (type, data) pairs; the tables are filled by the methods."""

    def __init__(self):
        self.t = [[], [], [], [], []]     # heap items of each kind
        self.order = None

    def add(self, kind, data):
        self.t[kind].append(bytes(data))
        return len(self.t[kind]) - 1

    def i32(self, v):
        return (I32, v & M32)

    def u32(self, v):
        return (U32, v)

    def f(self, v):
        return (FLOAT, struct.unpack("<I", struct.pack("<f", v))[0])

    def string(self, s, wide=False):
        n = len(s)
        if not wide:
            return (STRING, self.add(0, struct.pack("<I%dB" % (n + 1), n, *map(ord, s), 0)))
        return (UNICODE, self.add(0, struct.pack("<I%dI" % (n + 1), n, *map(ord, s), 0)))

    def prim(self, t, items):
        return (t, self.add(1, struct.pack("<I%d%s" % (len(items), PRIM[t][0]), len(items), *items)))

    def vector(self, items, t=V_HASHABLE):
        i = self.add(1, b"")
        self.set_vector(i, items)
        return (t, i)

    def set_vector(self, i, items):
        self.t[1][i] = struct.pack("<I%dI" % (2 * len(items)), len(items), *[x for v in items for x in v])

    def bits(self, bits):
        x = sum(1 << i for i, b in enumerate(bits) if b)
        return (BITS, self.add(2, struct.pack("<I", len(bits)) + x.to_bytes((len(bits) + 7) // 8, "little")))

    def table(self, hashes, keys, values=None, nb=None):
        n = len(keys)
        nb = nb or n_buckets(n)
        hs, ks, vs = [0] * nb, [(EMPTY_SLOT, 0)] * nb, [(EMPTY_SLOT, 0)] * nb
        for j in range(n):
            perturb = i = hashes[j]
            while ks[i & (nb - 1)][0] != EMPTY_SLOT:
                i = (5 * i + perturb + 1) & M32
                perturb >>= 5
            b = i & (nb - 1)
            hs[b], ks[b] = hashes[j], keys[j]
            if values is not None:
                vs[b] = values[j]
        r = [n, 0, *self.prim(V_U32, hs), *self.vector(ks)]
        if values is not None:
            r += self.vector(vs, V_VALUE)
        return r

    def set(self, hashes, keys):
        return (SET, self.add(3, struct.pack("<6I", *self.table(hashes, keys))))

    def map(self, hashes, keys, values):
        return (MAP, self.add(4, struct.pack("<8I", *self.table(hashes, keys, values))))

    def finish(self, root, shuffle=None, gap=0):
        """the file; heap items may be laid out in any order, with gaps"""
        all_ = [(k, i) for k in range(5) for i in range(len(self.t[k]))]
        if shuffle:
            shuffle.shuffle(all_)
        off, heap = {}, bytearray()
        for k, i in all_:
            off[k, i] = len(heap)
            heap += self.t[k][i]
            heap += b"\0" * (-len(heap) % 4 + 4 * (shuffle.randint(0, gap) if shuffle else 0))
        h = struct.pack("<II6I", root[0], root[1], *[len(x) for x in self.t], 2)
        for k in range(5):
            h += struct.pack("<%dQ" % len(self.t[k]), *[off[k, i] for i in range(len(self.t[k]))])
        return h + bytes(heap)
