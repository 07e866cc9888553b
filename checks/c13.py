"""C13: a corrupt or hostile file is refused, or is safe to use."""
import gc
import mmap as _mmap
import os
import sys

import fmt
import pointless
from c02 import graph
from gen import *
from wk import Violation, check

CASES = {"quick": 7000, "thorough": 300000}
RULE = ("one case = one file image: a file written by the library or by an independent encoder, with up to six faults (bits, bytes, words replaced by interesting values, counts, "
        "offsets, references and types exchanged, truncation, extension, splices of two files), or a structurally hostile file made by the encoder (items across the end of the file, random references and "
        "types between vectors, sets and maps, aliased and overlapping heap items, cycles, wrong hash tables); opened from a file, a bytearray or a PrimVector and, if it "
        "is accepted, everything reachable is read, hashed, compared, printed, looked up and serialized again under ASan+UBSan; any exception but ValueError, TypeError, "
        "KeyError, IndexError, OSError, MemoryError and RecursionError is a violation; non-trivial = the image differs from a valid one; distinct by the outcome, "
        "the fault kinds and the shape of what was accepted")
MUST_OBSERVE = ("refused", "accepted", "truncated", "word", "structural", "reserialized", "lookups", "hashed", "printed", "huge_count", "deep", "edge")
MIN_EVAL = 1000
CASE_S = 120
OK = (ValueError, TypeError, KeyError, IndexError, OSError, MemoryError, RecursionError, OverflowError, StopIteration, BufferError)
M32 = fmt.M32


def words(b):
    return len(b) // 4


def get(b, w):
    return struct.unpack_from("<I", b, 4 * w)[0]


def put(b, w, x):
    struct.pack_into("<I", b, 4 * w, x & M32)


def interesting(r, b):
    k = r.randrange(8)
    if k == 0:
        return r.randrange(31)
    if k == 1:
        return r.choice([0, 1, 2, 3, 4, 7, 8, 15, 16, 0x7fffffff, 0x80000000, 0xffffffff, 0xfffffffe, 0xfffffffc, 0x3fffffff, 0x40000000, 0x1fffffff, 0x20000000, 0x55555555])
    if k == 2:
        return len(b) + r.randint(-40, 40)
    if k == 3:
        return words(b) + r.randint(-12, 12)
    if k == 4:
        return get(b, r.randrange(words(b)))
    if k == 5:
        return r.getrandbits(32)
    if k == 6:
        return r.randrange(64)
    return (1 << r.randrange(32)) + r.choice([-1, 0, 1])


def mutate(r, b, other, kinds):
    """one fault; returns the image"""
    n = len(b)
    if n < 8:
        return b
    hdr = 8 + 2 * sum(get(b, i) for i in range(2, 7)) if n >= 32 and all(get(b, i) < 10000 for i in range(2, 7)) else 8
    hdr = max(2, min(hdr, words(b)))
    k = r.randrange(13)
    if k == 0:
        i = r.randrange(n)
        b[i] ^= 1 << r.randrange(8)
        kinds.append("bit")
    elif k == 1:
        b[r.randrange(n)] = r.choice([0, 1, 255, r.randrange(30), r.getrandbits(8)])
        kinds.append("byte")
    elif k in (2, 3, 4):
        w = r.randrange(words(b)) if k == 2 else r.randrange(min(8, words(b))) if k == 3 else r.randrange(hdr)
        put(b, w, interesting(r, b))
        kinds.append("word")
    elif k == 5:
        w = r.randrange(words(b))
        put(b, w, get(b, w) + r.choice([-1, 1, -4, 4, 8, -8, 256]))
        kinds.append("word")
    elif k == 6:
        i, j = r.randrange(words(b)), r.randrange(words(b))
        x, y = get(b, i), get(b, j)
        put(b, i, y)
        put(b, j, x)
        kinds.append("swap")
    elif k == 7 and hdr > 10:
        # one heap item at the place of another
        i, j = r.randrange(8, hdr - 1, 2), r.randrange(8, hdr - 1, 2)
        put(b, i, get(b, j) + r.choice([0, 0, 4, -4, 8]))
        kinds.append("alias")
    elif k == 8:
        m = r.choice([r.randrange(n), n - r.randint(1, 8), n - 1, 4 * r.randrange(words(b) + 1), 31, 32, 4 * hdr])
        del b[max(0, min(m, n)):]
        kinds.append("truncated")
    elif k == 9:
        b += bytes(r.getrandbits(8) for _ in range(r.choice([1, 3, 4, 8, 100])))
        kinds.append("extended")
    elif k == 10 and len(other) >= 8:
        i, j = 4 * r.randrange(words(b)), 4 * r.randrange(words(other))
        m = 4 * r.randint(1, 16)
        b[i:i + m] = other[j:j + m]
        kinds.append("splice")
    elif k == 11:
        # a type, in what looks like a value
        ws = [w for w in range(hdr, words(b) - 1) if get(b, w) < 30] or [0]
        w = r.choice(ws)
        put(b, w, r.randrange(31))
        kinds.append("type")
    else:
        ws = [w for w in range(hdr, words(b) - 1) if get(b, w) < 30] or [0]
        w = r.choice(ws)
        put(b, w + 1, r.choice([0, 1, 2, 3, get(b, w + 1) + 1, r.randrange(12), M32, r.getrandbits(32)]))
        kinds.append("word")
    return b


def structural(r, kinds):
    """an image whose references are random, but mostly in range"""
    e = fmt.Enc()
    nv, ns, nm = r.randint(1, 9), r.choice([0, 1, 2]), r.choice([0, 1, 2])
    for _ in range(r.choice([1, 2, 3])):
        s = "".join(chr(r.choice([97, 98, 255, r.randint(1, 255)])) for _ in range(r.choice([0, 1, 2, 5])))
        e.string(s, wide=r.random() < .4)
    for _ in range(r.choice([0, 1, 2])):
        e.bits([r.random() < .5 for _ in range(r.choice([0, 1, 8, 28, 33]))])
    vt = {}
    fast = r.random() < .5
    for i in range(nv):
        e.add(1, b"")
        vt[i] = r.choice([fmt.V_VALUE, fmt.V_HASHABLE, fmt.V_HASHABLE] + ([] if fast else list(fmt.PRIM)))
    for i in range(ns):
        e.add(3, b"")
    for i in range(nm):
        e.add(4, b"")

    def ref(level=0):
        k = r.random()
        if k < .25:
            return r.choice([e.i32(r.randint(-3, 3)), e.u32(r.randint(0, 3)), e.f(float(r.randint(-2, 2))), (fmt.BOOL, r.randrange(2)), (fmt.NULL, 0)])
        if k < .35:
            return (r.choice([fmt.STRING, fmt.UNICODE]), r.randrange(len(e.t[0])))
        if k < .42:
            return r.choice([(fmt.BITS_PACKED, r.randint(0, 27) | r.getrandbits(27) << 5), (fmt.BITS_0, r.randrange(50)), (fmt.BITS_1, r.randrange(50)), (fmt.BITS_01, r.randrange(40) | r.randrange(40) << 16),
                             (fmt.BITS_10, r.randrange(40) | r.randrange(40) << 16), (fmt.BITS, r.randrange(len(e.t[2]) or 1)), (fmt.BITS_PACKED, r.getrandbits(32))]) if r.random() < .9 or level == 0 else (fmt.NULL, 0)
        if k < .46:
            return (fmt.V_EMPTY, 0)
        if k < .49:
            return (fmt.EMPTY_SLOT, 0)
        if k < .62 and ns:
            return (fmt.SET, r.randrange(ns))
        if k < .72 and nm:
            return (fmt.MAP, r.randrange(nm))
        i = r.randrange(nv)
        # one vector referenced as other types than its own
        t = vt[i] if r.random() < .85 else r.choice([fmt.V_VALUE, fmt.V_HASHABLE] + list(fmt.PRIM))
        return (t, i)
    for i in range(nv):
        t = vt[i]
        n = r.choice([0, 1, 2, 2, 3, 4])
        if t in fmt.PRIM and r.random() < .8:
            c = fmt.PRIM[t][0]
            it = [float(r.randint(-2, 2)) if c == "f" else r.randint(0, 3) for _ in range(r.choice([0, 1, 2, 8, 9]))]
            e.t[1][i] = struct.pack("<I%d%s" % (len(it), c), len(it), *it)
        else:
            e.set_vector(i, [ref() for _ in range(n)])
    for kind, cnt in ((3, ns), (4, nm)):
        for i in range(cnt):
            n = r.choice([0, 1, 2, 3, 4])
            keys = [ref(1) for _ in range(n)]
            if r.random() < .3:
                # nesting of keys
                keys = [(fmt.V_HASHABLE, r.randrange(nv)) for _ in range(n)]
            if r.random() < .15 and n:
                keys = [keys[0]] * n
            hs = []
            for k in keys:
                try:
                    dec = fmt.File(e.finish((fmt.NULL, 0)))
                    dec.max_steps = 3000
                    bits = dec.bits
                    dec.bits = lambda t, d: bits(t, d) if d < 1 << 20 or t not in (fmt.BITS_0, fmt.BITS_1) else bits(t, 1)
                    h = dec.hash(*k)
                except (fmt.Bad, struct.error, IndexError, RecursionError):
                    h = r.getrandbits(32)
                hs.append(h)
            if r.random() < .1 and hs:
                hs[r.randrange(n)] ^= 1 << r.randrange(32)
            vals = [ref() for _ in range(n)] if kind == 4 else None
            nb = None if r.random() < .9 else r.choice([1 << r.randrange(n.bit_length() + 1, 8), 16])
            try:
                t = e.table(hs, keys, vals, nb=nb)
            except (ValueError, IndexError):
                t = e.table(hs, keys, vals)
            if r.random() < .15:
                t[r.randrange(len(t))] = r.choice([0, 1, n + 1, fmt.V_VALUE, fmt.V_HASHABLE, fmt.V_U32, fmt.V_I32, r.randrange(len(e.t[1]))])
                kinds.append("table")
            e.t[kind][i] = struct.pack("<%dI" % len(t), *t)
    root = ref()
    if r.random() < .5:
        root = e.vector([ref() for _ in range(r.randint(1, 6))], r.choice([fmt.V_VALUE, fmt.V_HASHABLE]))
    kinds.append("structural")
    return bytearray(e.finish(root, shuffle=r, gap=r.choice([0, 0, 2])))


def deep(r):
    """a long chain of containers"""
    e = fmt.Enc()
    n = r.choice([200, 250, 255, 256, 257, 300, 1000, 5000, 40000])
    t = r.choice([fmt.V_VALUE, fmt.V_HASHABLE])
    x = e.i32(1)
    for i in range(n):
        x = e.vector([x], t)
    if r.random() < .3:
        x = e.set([fmt.hash_vector([1])], [x])
    elif r.random() < .3:
        # the chain is a cycle
        e.set_vector(0, [x])
    return bytearray(e.finish(x))


def chain_maps(r):
    e = fmt.Enc()
    n = r.choice([50, 120, 127, 128, 129, 600, 5000])
    x = (fmt.NULL, 0)
    for i in range(n):
        x = e.map([1], [e.i32(1)], [x])
    return bytearray(e.finish(x))


def huge(r):
    """counts the file has no room for, or nearly"""
    e = fmt.Enc()
    k = r.choice([0, 0, 1, 1, 1, 2, 2, 3, 4, 5])
    if k == 5:
        x = (r.choice([fmt.BITS_0, fmt.BITS_1, fmt.BITS_01, fmt.BITS_10]), r.choice([M32, M32 - 1, 1 << 31, 0x7fffffff, 0xffff0000]))
    elif k == 0:
        t = r.choice(list(fmt.PRIM) + [fmt.V_VALUE, fmt.V_HASHABLE])
        x = (t, e.add(1, struct.pack("<I", r.choice([M32, 1 << 31, 1 << 30, 1 << 29, (1 << 29) + 1, 1 << 28, 0x15555556, 2, 3])) + bytes(r.choice([0, 4, 16, 64]))))
    elif k == 1:
        x = (r.choice([fmt.STRING, fmt.UNICODE]), e.add(0, struct.pack("<I", r.choice([M32, M32, M32, M32 - 1, 1 << 30, (1 << 30) - 1, 0x3ffffffe, 3, 4, 5, 16])) + r.choice([b"aaa\0", b"a\0\0\0\0\0\0\0", b"abcdefghijklmnop\0"])))
    elif k == 2:
        x = (fmt.BITS, e.add(2, struct.pack("<I", r.choice([M32, M32 - 6, M32 - 7, M32 - 8, 1 << 31, 33, 64])) + bytes(r.choice([0, 4, 5, 8]))))
    else:
        a = e.prim(fmt.V_U32, [0, 0])
        b = e.vector([(fmt.EMPTY_SLOT, 0)] * 2)
        c = e.vector([(fmt.EMPTY_SLOT, 0)] * 2, fmt.V_VALUE)
        n = r.choice([0, 1, 2, 3, M32, 1 << 31, (1 << 31) + 1, 0xaaaaaaaa, 0xaaaaaaab, 0x55555556, 1 << 30, 0xc0000000])
        if k == 3:
            x = (fmt.SET, e.add(3, struct.pack("<6I", n, 0, *a, *b)))
        else:
            x = (fmt.MAP, e.add(4, struct.pack("<8I", n, 0, *a, *b, *c)))
    b = bytearray(e.finish(x))
    if k < 3 and r.random() < .5:
        # no zero byte stops whoever reads on
        for j in range(44, len(b)):
            b[j] = b[j] or 97
    return b


def edge(r):
    """one heap item which ends some bytes after, or before, the end of the file"""
    e = fmt.Enc()
    k = r.randrange(7)
    if k < 2:
        u = "".join(chr(r.choice([97, 98, 255])) for _ in range(r.choice([0, 1, 2, 3, 4, 5, 7, 8])))
        x = e.string(u, wide=k == 1)
    elif k == 2:
        t = r.choice(list(fmt.PRIM))
        n = r.choice([1, 2, 3, 4, 5])
        x = e.prim(t, [1.0] * n if fmt.PRIM[t][0] == "f" else [1] * n)
    elif k == 3:
        x = e.vector([e.i32(j) for j in range(r.choice([1, 2, 3]))], r.choice([fmt.V_VALUE, fmt.V_HASHABLE]))
    elif k == 4:
        x = e.bits([r.random() < .5 for _ in range(r.choice([28, 32, 33, 40, 41, 64, 65]))])
    elif k == 5:
        x = e.set([1, 2], [e.i32(1), e.i32(2)])
    else:
        x = e.map([1, 2], [e.i32(1), e.i32(2)], [e.i32(3), (fmt.NULL, 0)])
    kind = 0 if k < 2 else 1 if k < 4 else k - 2
    it = e.t[kind][-1]
    # a set or map is made of vectors as well, which come first
    b = e.finish(x)
    b = bytearray(b[:len(b) + len(it) - (len(it) + -len(it) % 4)])
    if r.random() < .5:
        m = r.choice([1, 1, 2, 3, 4, 5, 6, 7, 8, 12])
        if r.random() < .8:
            del b[-m:]
        else:
            b += bytes(r.choice([0, 97, 255]) for _ in range(m))
    elif k < 5:
        w = len(b) - len(it)
        struct.pack_into("<I", b, w, max(0, struct.unpack_from("<I", b, w)[0] + r.choice([-1, 1, 1, 1, 2, 3, 4, 7, 8, 9])))
    else:
        # another item starts where the last one does not fit any more
        o = 32 + 8 * (sum(len(t) for t in e.t) - 1)
        struct.pack_into("<Q", b, o, struct.unpack_from("<Q", b, o)[0] + r.choice([-4, 4, 8, 16, 20, 24, 28, 32]))
    return b


class Last:
    """lays one heap item out after all others"""

    def __init__(self, item):
        self.item = item

    def shuffle(self, items):
        items.remove(self.item)
        items.append(self.item)

    def randint(self, a, b):
        return 0


def unterminated(r):
    """a string at the end of the file which nothing ends, referenced more than once"""
    e = fmt.Enc()
    wide = r.random() < .7
    n = r.choice([0, 0, 1, 2, 3, 4, 7, 8])
    u = "".join(chr(r.choice([97, 98, 255])) for _ in range(n))
    if r.random() < .5:
        e.string("b", wide=r.random() < .5)
    x = e.string(u, wide=wide)
    y = (x[0] if r.random() < .8 else r.choice([fmt.STRING, fmt.UNICODE]), x[1])
    h = fmt.hash_key(u)
    k = r.randrange(4)
    if k == 0:
        root = e.vector([x, y, x], r.choice([fmt.V_VALUE, fmt.V_HASHABLE]))
    elif k == 1:
        root = e.vector([e.vector([x]), e.vector([y])], r.choice([fmt.V_VALUE, fmt.V_HASHABLE]))
    elif k == 2:
        root = e.vector([x, e.set([h], [x])], fmt.V_VALUE)
    else:
        root = e.vector([e.map([h], [x], [y]), x], fmt.V_VALUE)
    b = bytearray(e.finish(root, shuffle=Last((0, x[1]))))
    w = 4 if wide else 1
    end = len(b) - (-(4 + (n + 1) * w) % 4)
    if r.random() < .9:
        t = r.choice([97, 98, 255, 1])
        b[end - w:end] = struct.pack("<I", t) if wide else bytes([t])
    for j in range(end, len(b)):
        b[j] = r.choice([97, 1, 255])
    if r.random() < .4:
        # the file ends right there
        del b[end:]
    return b


class Use:
    """reads everything reachable from a value, with a budget"""

    def __init__(self, r, T):
        self.r, self.T = r, T
        self.n = 0
        self.sizes = {}
        self.seen = {}
        self.sig = []
        self.bits = 0         # in the longest bitvector

    def guard(self, f, *a):
        try:
            return True, f(*a)
        except OK:
            return False, None

    def tree(self, x, limit=20000):
        """how many values there are in x when it is written out in full"""
        stack, n = [(x, 0)], 0
        while stack:
            v, d = stack.pop()
            n += 1
            if n > limit or d > 900:
                return limit + 1
            ok = True
            if isinstance(v, PointlessVector):
                if len(v) > limit:
                    return limit + 1
                ok, it = self.guard(list, v)
                if ok:
                    stack += [(y, d + 1) for y in it]
            elif isinstance(v, PointlessSet):
                ok, it = self.guard(list, v)
                if ok:
                    stack += [(y, d + 1) for y in it]
            elif isinstance(v, PointlessMap):
                ok, it = self.guard(lambda: list(v.items()))
                if ok:
                    stack += [(z, d + 1) for y in it for z in y]
            elif isinstance(v, PointlessBitvector):
                n += len(v)
        return n

    def walk(self, root):
        stack = [root]
        while stack and self.n < 3000:
            v = stack.pop()
            self.n += 1
            if isinstance(v, (PointlessVector, PointlessSet, PointlessMap)):
                key = (type(v).__name__, v.container_id, len(v), getattr(v, "typecode", 0) if not isinstance(v, PointlessVector) else self.guard(lambda: v.typecode)[1])
                if key in self.seen:
                    continue
                self.seen[key] = v
                self.sig.append((key[0], key[2], key[3]))
            if isinstance(v, PointlessVector):
                stack += self.vector(v)
            elif isinstance(v, PointlessSet):
                stack += self.set_(v)
            elif isinstance(v, PointlessMap):
                stack += self.map_(v)
            elif isinstance(v, PointlessBitvector):
                self.bitv(v)
            elif isinstance(v, str):
                v.encode("utf-8", "surrogatepass")
                self.sig.append("s")
            else:
                check(v is None or isinstance(v, (int, float)), "strange-value", repr(type(v)))
                self.sig.append(type(v).__name__)

    def vector(self, v):
        r, g, n = self.r, self.guard, len(v)
        out = []
        for i in {0, 1, 2, n // 2, n - 1, -1, -n, n, -n - 1, r.randint(-n - 1, n + 1)}:
            ok, y = g(lambda: v[i])
            if ok:
                out.append(y)
        ok, y = g(lambda: v[r.randint(-2, 3):n + 2])
        if ok and len(y):
            g(lambda: y[len(y) - 1])
        if n < 5000:
            g(list, v)
            g(lambda: list(reversed(v)))
            ok, y = g(lambda: list(v))
            if ok:
                check(len(y) == n, "length", "%d items, %d by iteration" % (n, len(y)))
                out += y[:40]
        g(lambda: v.typecode)
        ok, m = g(memoryview, v)
        if ok:
            check(m.readonly, "writable-buffer")
            # the buffer is one of bytes
            check(n == 0 or m.nbytes == struct.calcsize("<" + FMT[v.typecode]) * n, "buffer-size", lambda: "%d bytes, %d items of %s" % (m.nbytes, n, v.typecode))
            if n < 5000:
                m.tobytes()
        if n < 300:
            for x in (1, 1.0, "a", None, True, out[0] if out else 2):
                g(lambda: x in v)
            for f in (v.max, v.min) if hasattr(v, "max") else ():
                g(f)
            g(lambda: v.bisect_left(1))
        return out

    def keys_of(self, c):
        r = self.r
        ok, it = self.guard(lambda: [k for _, k in zip(range(300), c)])
        return it if ok else []

    def set_(self, s):
        ks = self.keys_of(s)
        for k in ks[:30]:
            if self.tree(k) < 5000:
                ok, y = self.guard(lambda: k in s)
                self.T.count("lookups")
                if ok:
                    check(y is True, "own-key-missing", "%.100r" % (type(k),))
        for k in (1, 1.5, "a", None, (), (1, 2), False):
            self.guard(lambda: k in s)
        return ks[:40]

    def map_(self, m):
        ks = self.keys_of(m)
        out = ks[:40]
        ok, it = self.guard(lambda: list(m.items()))
        if ok:
            check(len(it) == len(m), "map-length", "")
            out += [v for _, v in it[:40]]
        self.guard(lambda: list(m.values()))
        self.guard(lambda: list(m.keys()))
        for k in ks[:30]:
            if self.tree(k) < 5000:
                ok, y = self.guard(lambda: k in m)
                self.T.count("lookups")
                if ok:
                    check(y is True, "own-key-missing", "%.100r" % (type(k),))
                self.guard(lambda: m[k])
                self.guard(m.get, k)
        for k in (1, 1.5, "a", None, (), (1, 2), False):
            self.guard(m.get, k)
        return out

    def bitv(self, b):
        n = len(b)
        self.sig.append("b")
        self.bits = max(self.bits, n)
        for i in {0, 1, 7, 8, 31, 32, n // 2, n - 1, -1, -n, n, -n - 1}:
            self.guard(lambda: b[i])
        if n < 5000:
            check(len([x for x in b]) == n, "bitvector-length")
            self.guard(lambda: b.copy() if hasattr(b, "copy") else None)
            self.guard(lambda: PointlessBitvector(sequence=b))
        if n < 1 << 24:
            self.guard(lambda: b.IsAnySet())

    def whole(self, root, T):
        r = self.r
        items = [root] + [v for v in self.seen.values()][:6]
        small = [v for v in items if self.tree(v) < 3000]
        for v in small:
            ok, _ = self.guard(pointless.pyobject_hash, v)
            T.count("hashed" if ok else "hash_refused")
            ok, s = self.guard(repr, v)
            if ok:
                T.count("printed")
            self.guard(str, v)
        for v in items if self.bits < 1 << 20 else small:
            self.guard(pointless.pointless_cmp, v, v)
            w = r.choice(items if self.bits < 1 << 20 else small + [None])
            if isinstance(v, PointlessVector) and 1 < len(v) < 300:
                # the items with each other, and with the vector
                for f in (pointless.pointless_cmp, pointless.pointless_is_eq):
                    self.guard(lambda: f(v[0], v[1]))
                self.guard(lambda: v[0] in v)
                self.guard(lambda: v[:1] == v[1:2])
                self.guard(lambda: v[1:] < v)
            for f in (pointless.pointless_cmp, pointless.pointless_is_eq, lambda a, b: a == b, lambda a, b: a < b):
                self.guard(f, v, w)
                self.guard(f, v, [1, 2])
        v = r.choice(items)
        if self.n < 3000 and self.bits < 1 << 24:
            ok, b = self.guard(pointless.serialize_to_bytearray, v)
            if ok:
                T.count("reserialized")
                ok, q = self.guard(pointless.Pointless, b)
                check(ok, "reserialized-unreadable", "what was written from an accepted file is refused")
                if ok:
                    u = Use(r, T)
                    u.n = 2900
                    u.walk(q.GetRoot())


def case(i, r, T):
    kinds = []
    k = r.random()
    if k < .08:
        b = huge(r)
        kinds.append("huge")
        T.count("huge_count")
    elif k < .11:
        b = deep(r) if r.random() < .6 else chain_maps(r)
        kinds.append("deep")
        T.count("deep")
    elif k < .15:
        b = edge(r) if r.random() < .7 else unterminated(r)
        kinds.append("edge")
        T.count("edge")
    elif k < .4:
        b = structural(r, kinds)
        T.count("structural")
    else:
        def valid():
            x = graph(r)[0] if r.random() < .25 else G(r).value()
            if r.random() < .3:
                x = r.choice([{1, 2, "a"}, {"a": 1, "b": [1, 2], 3: None}, {(1, 2): "x", (1, "b"): {4}}, {1.5: [PointlessBitvector(sequence=[1] * 40), "\u1234"]}, [{(): ()}, {"k": {"k": 1}}]])
            return bytearray(pointless.serialize_to_bytearray(x))
        b, other = valid(), valid()
    if k >= .4 or "edge" not in kinds and r.random() < .25:
        if k < .4:
            other = b[:]
        for _ in range(r.choice([1, 1, 1, 2, 3, 6])):
            b = mutate(r, b, other, kinds)
    if "huge" not in kinds:
        # what takes seconds for each bitvector of billions of bits is not what is looked for
        for w in range(words(b) - 1):
            if get(b, w) in (fmt.BITS_0, fmt.BITS_1) and get(b, w + 1) >= 1 << 17:
                put(b, w + 1, get(b, w + 1) & 0xffff)
    for x in set(kinds):
        if x in ("truncated", "word", "alias", "splice", "type", "table"):
            T.count(x)
    T.about("faults %s, %d bytes%s" % (kinds, len(b), (": " + b.hex()) if len(b) < 1500 else ""))
    use_image(b, r, T, kinds, i)


def use_image(b, r, T, kinds, i):
    how = r.choice([0, 1, 1, 1, 2])
    path = None
    try:
        if how == 0:
            path = os.path.join(T.tmp, "h-%d.map" % os.getpid())
            with open(path, "wb") as f:
                f.write(b)
            p = pointless.Pointless(path)
        elif how == 1:
            p = pointless.Pointless(b)
        else:
            p = pointless.Pointless(prim("u8", b))
    except (ValueError, OSError) as e:
        T.ev()
        T.count("refused")
        T.key(("refused", str(e)[-60:], tuple(sorted(set(kinds)))))
        return
    root = None
    u = Use(r, T)
    try:
        root = p.GetRoot()
    except OK:
        T.count("root_refused")
    if r.random() < .3:
        del p
    if root is not None:
        u.walk(root)
        u.whole(root, T)
    u.seen.clear()
    T.ev()
    T.count("accepted")
    T.key(("accepted", tuple(sorted(set(kinds))), tuple(u.sig[:12])))
    if i < 40 and len(u.sig) > 2:
        T.sample("accepted with faults %s: %s" % (kinds, u.sig[:5]))
