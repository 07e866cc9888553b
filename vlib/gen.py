"""Generators of serializable values, and the reference semantics which stored values are compared with."""
import array
import ctypes
import math
import os
import random
import struct

import pointless
import fmt
from fmt import FBits, FMap, FSet, FVector
from pointless import PointlessBitvector, PointlessMap, PointlessPrimVector, PointlessSet, PointlessVector

I32_MIN, I32_MAX, U32_MAX = -2 ** 31, 2 ** 31 - 1, 2 ** 32 - 1
RANGES = {"i8": (-2 ** 7, 2 ** 7 - 1), "u8": (0, 2 ** 8 - 1), "i16": (-2 ** 15, 2 ** 15 - 1), "u16": (0, 2 ** 16 - 1),
          "i32": (I32_MIN, I32_MAX), "u32": (0, U32_MAX), "i64": (-2 ** 63, 2 ** 63 - 1), "u64": (0, 2 ** 64 - 1)}
TYPES = list(RANGES) + ["f"]
FMT = {"i8": "b", "u8": "B", "i16": "h", "u16": "H", "i32": "i", "u32": "I", "i64": "q", "u64": "Q", "f": "f"}
INT_EDGES = sorted({x + d for e in (0, 127, 128, 255, 256, 32767, 32768, 65535, 65536, 2 ** 31 - 1, 2 ** 31, 2 ** 32 - 1, 2 ** 24, 10 ** 4, 10 ** 6,
                                   -128, -129, -32768, -32769, -10 ** 4, -2 ** 24, -2 ** 31) for x in (e,) for d in (-1, 0, 1)
                    if I32_MIN <= x + d <= U32_MAX})
FLOAT_EDGES = [0.0, -0.0, 1.0, -1.0, 0.5, 1.5, math.inf, -math.inf, 1e-45, 1.1754943508222875e-38, 3.4028234663852886e+38, 1e300, -1e300,
               0.1, 1 / 3, 16777216.0, 16777217.0, 2147483648.0, 4294967295.0, -2147483648.0, 1e-300, 255.0, 256.0]


def f32(x):
    return ctypes.c_float(x).value


def fbits(x):
    return "nan" if x != x else struct.pack("<d", x)


VECS, SETS, MAPS, BITVS = (PointlessVector, FVector), (PointlessSet, FSet), (PointlessMap, FMap), (PointlessBitvector, FBits)


def bits_of(bv):
    if type(bv) is FBits:
        return tuple(bv)
    return tuple(bool(bv[i]) for i in range(len(bv)))


def pv_items(v):
    return [v[i] for i in range(len(v))]


def prim(t, items):
    return PointlessPrimVector(t, sequence=items)


class G:
    def __init__(self, rng, profile=None):
        self.r = rng
        self.nan = True
        self.slack = 60       # containers still to be made
        self.pool = []        # containers made so far, for sharing
        self.share = 0.15
        self.flavour = profile or rng.choice(["mixed", "mixed", "strings", "ints", "floats", "prims", "tiny"])

    # --- scalars
    def int_(self):
        r = self.r
        k = r.random()
        if k < 0.35:
            return r.choice(INT_EDGES)
        if k < 0.7:
            return r.randint(-20, 300)
        return r.randint(I32_MIN, U32_MAX)

    def float_(self, nan=False):
        r = self.r
        k = r.random()
        if k < 0.4:
            return r.choice(FLOAT_EDGES)
        if nan and k < 0.45:
            return math.nan
        if k < 0.6:
            return float(r.randint(-1000, 1000))
        if k < 0.8:
            return r.uniform(-1e6, 1e6)
        return struct.unpack("<d", struct.pack("<Q", r.getrandbits(64)))[0] if nan else r.gauss(0, 1) * 10 ** r.randint(-40, 40)

    def str_(self):
        r = self.r
        n = r.choice([0, 1, 1, 2, 3, 3, 4, 5, 7, 8, 12, 15, 16, 17, 31, 40, 100, 300])
        k = r.random()
        if k < 0.4:
            return "".join(chr(r.randint(1, 127)) for _ in range(n))
        if k < 0.55:
            return "".join(r.choice("abc") for _ in range(n))
        if k < 0.7:
            return "".join(chr(r.randint(1, 255)) for _ in range(n))
        if k < 0.85:
            return "".join(chr(r.choice([r.randint(1, 0xffff), r.randint(0x100, 0x17f)])) for _ in range(n))
        return "".join(chr(r.choice([r.randint(1, 0x10ffff), r.randint(0x1f600, 0x1f64f), r.randint(1, 127), r.randint(0xd800, 0xdfff)])) for _ in range(n))

    def scalar(self, nan=None):
        r, f = self.r, self.flavour
        nan = self.nan if nan is None else nan
        k = r.random()
        if f == "strings" and k < 0.7:
            return self.str_()
        if f == "ints" and k < 0.7:
            return self.int_()
        if f == "floats" and k < 0.7:
            return self.float_(nan)
        k = r.random()
        if k < 0.3:
            return self.int_()
        if k < 0.5:
            return self.float_(nan)
        if k < 0.8:
            return self.str_()
        if k < 0.9:
            return r.random() < 0.5
        return None

    # --- leaves with a type of their own
    def n_items(self, big=True):
        r = self.r
        k = r.random()
        if k < 0.12:
            return 0
        if k < 0.25:
            return 1
        if k < 0.8:
            return r.randint(2, 9)
        if k < 0.97 or not big:
            return r.randint(10, 60)
        return r.choice([64, 127, 128, 129, 255, 256, 257, 500, 1000])

    def prim_items(self, t, n):
        r = self.r
        if t == "f":
            return [self.float_(self.nan) for _ in range(n)]
        lo, hi = RANGES[t]
        return [r.choice([lo, hi, r.randint(lo, hi), r.randint(max(lo, -5), 5), max(lo, -1), hi - 1]) for _ in range(n)]

    def prim_(self):
        t = self.r.choice(TYPES)
        return prim(t, self.prim_items(t, self.n_items()))

    def bits(self):
        r = self.r
        n = r.choice([65534, 65535, 65536, 65537, 70000]) if r.random() < 0.01 else r.choice([0, 1, 2, 3, 5, 7, 8, 9, 15, 16, 20, 26, 27, 28, 29, 31, 32, 33, 40, 63, 64, 65, 100, r.randint(0, 300)])
        k = r.random()
        if k < 0.2:
            return [False] * n
        if k < 0.35:
            return [True] * n
        if k < 0.5 and n:
            m = r.choice([r.randint(0, n), 0, 1, n - 1, max(0, n - 65535)])
            return [False] * m + [True] * (n - m)
        if k < 0.65 and n:
            m = r.choice([r.randint(0, n), 0, 1, n - 1, min(n, 65535)])
            return [True] * m + [False] * (n - m)
        return [r.random() < 0.5 for _ in range(n)]

    def bitvector(self):
        return PointlessBitvector(sequence=self.bits())

    # --- keys: hashable for both Python and pointless
    def key(self, depth=0):
        r = self.r
        k = r.random()
        if depth < 3 and k < 0.16:
            n = r.choice([0, 1, 1, 2, 2, 3, 5, 12])
            k2 = r.random()
            if k2 < 0.25:
                return tuple(r.randint(0, 255) for _ in range(n))
            if k2 < 0.4:
                return tuple(self.int_() for _ in range(n))
            if k2 < 0.55:
                return tuple(self.float_() for _ in range(n))
            return tuple(self.key(depth + 1) for _ in range(n))
        if k < 0.20:
            nan, self.nan = self.nan, False
            v = self.prim_()
            self.nan = nan
            return v
        if k < 0.25:
            return self.bitvector()
        return self.scalar(nan=False)

    def keys(self, n):
        """n keys, no two of which are equal once stored"""
        out, seen = [], set()
        for _ in range(n * 4):
            if len(out) >= n:
                break
            k = self.key()
            e = eqkey(k)
            if e not in seen:
                seen.add(e)
                out.append(k)
        return out

    # --- values
    def value(self, depth=0):
        r = self.r
        self.slack -= 1
        if depth >= 6 or self.slack <= 0 or (depth > 0 and r.random() < 0.45):
            k = r.random()
            if k < 0.12:
                return self.prim_()
            if k < 0.2:
                return self.bitvector()
            return self.scalar()
        if self.pool and r.random() < self.share:
            return r.choice(self.pool)
        k = r.random()
        n = self.n_items(big=False)
        if k < 0.18:
            f = r.choice([self.int_, self.float_, self.str_, lambda: r.randint(0, 255), lambda: r.randint(-100, 100), lambda: r.randint(0, 65535),
                          lambda: r.random() < 0.5, lambda: None, lambda: r.randint(-30000, 30000), lambda: r.randint(0, U32_MAX), self.bitvector])
            v = [f() for _ in range(self.n_items())]
        elif k < 0.5:
            v = [self.value(depth + 1) for _ in range(n)]
        elif k < 0.62:
            v = tuple(self.value(depth + 1) for _ in range(n))
        elif k < 0.82:
            v = {k: self.value(depth + 1) for k in self.keys(n)}
        elif k < 0.94:
            ks = self.keys(n)
            v = set(ks) if r.random() < 0.6 else frozenset(ks)
        elif k < 0.97:
            v = bytearray(r.getrandbits(8) for _ in range(n))
        else:
            v = self.prim_()
        self.pool.append(v)
        return v


def eqkey(k):
    """A key of a Python set which is equal exactly when the stored keys are."""
    if isinstance(k, bool):
        return ("n", int(k))
    if isinstance(k, int):
        return ("n", k)
    if isinstance(k, float):
        return ("n", f32(k))
    if isinstance(k, str):
        return ("s", k)
    if k is None:
        return ("0",)
    if isinstance(k, BITVS):
        return ("b",) + bits_of(k)
    if isinstance(k, (tuple, list)):
        return ("v",) + tuple(eqkey(x) for x in k)
    if isinstance(k, (PointlessPrimVector,) + VECS):
        return ("v",) + tuple(eqkey(x) for x in pv_items(k))
    raise TypeError(type(k))


def canon_key(k):
    """As eqkey, but it also tells apart values of different types."""
    if isinstance(k, bool):
        return ("B", k)
    if isinstance(k, int):
        return ("i", k)
    if isinstance(k, float):
        return ("f", fbits(f32(k)))
    if isinstance(k, str):
        return ("s", k)
    if k is None:
        return ("0",)
    if isinstance(k, BITVS):
        return ("b",) + bits_of(k)
    if isinstance(k, (tuple, list)):
        return ("v",) + tuple(canon_key(x) for x in k)
    if isinstance(k, (PointlessPrimVector,) + VECS):
        return ("v",) + tuple(canon_key(x) for x in pv_items(k))
    raise TypeError(type(k))


def store(x, r, T, how=None, **kw):
    """serializes to one of the targets, returns an open Pointless object"""
    k = r.randrange(3) if how is None else how
    val = r.random() < 0.7
    kw.setdefault("unwiden_strings", r.random() < .4)
    if k == 0:
        p = os.path.join(T.tmp, "%s-%d.map" % (r.choice(["s", "s", "s", "\xe9", "\u4e00 x", "\U0001f600", "a'b"]), os.getpid()))
        pointless.serialize(x, p, **kw)
        T.count("opened_file")
        return pointless.Pointless(p, validate=val)
    T.count("opened_bytearray" if k == 1 else "opened_buffer")
    b = (pointless.serialize_to_bytearray if k == 1 else pointless.serialize_to_buffer)(x, **kw)
    if type(b) is not (bytearray if k == 1 else PointlessPrimVector) or k == 2 and b.typecode != "u8":
        from wk import Violation
        raise Violation("target-type", "%r" % (type(b),))
    return pointless.Pointless(b, validate=val)


class Cyclic(Exception):
    pass


def rebuild(x, r, memo=None, keep=None):
    """an equal value with the same sharing, which was made by another history of operations: its containers once had other items, its
    strings, integers and vectors are other objects. Sets, and what they contain, are the same objects, as they could be iterated in another
    order. Raises Cyclic for tuples which are part of a cycle."""
    top = memo is None
    if top:
        memo, keep = {}, []
        stack, seen = [(x, False)], set()
        while stack:
            v, fixed = stack.pop()
            fixed = fixed or isinstance(v, (set, frozenset))
            if (id(v), fixed) in seen:
                continue
            seen.add((id(v), fixed))
            if fixed:
                memo[id(v)] = v
            if isinstance(v, dict):
                stack.extend((k, fixed) for k in v)
                stack.extend((k, fixed) for k in v.values())
            elif isinstance(v, (list, tuple, set, frozenset)):
                stack.extend((k, fixed) for k in v)
    if id(x) in memo:
        if memo[id(x)] is None:
            raise Cyclic()
        return memo[id(x)]
    t = type(x)
    keep.append(x)
    extra = r.randint(0, 3)
    if t is int:
        y = int(str(x))
    elif t is float:
        y = x
    elif t is str:
        y = ("\U0001f600" + x)[1:] if r.random() < .5 else "".join(list(x))
    elif t is bytearray:
        y = bytearray(b"abcdefgh"[:extra])
        y += x + b"\xff" * r.randint(0, 9)
        del y[:extra]
        del y[len(x):]
    elif t is list:
        y = memo[id(x)] = [7] * extra
        for v in x:
            y.append(rebuild(v, r, memo, keep))
        del y[:extra]
        y.extend(["x", 9.5])
        del y[-2:]
    elif t is tuple:
        memo[id(x)] = None
        y = tuple([rebuild(v, r, memo, keep) for v in x])
    elif t is dict:
        y = memo[id(x)] = {"gone%d" % j: j for j in range(extra)}
        add = [(rebuild(k, r, memo, keep), v) for k, v in x.items()]
        for k, v in add:
            y[k] = None if r.random() < .5 else rebuild(v, r, memo, keep)
        for k, v in add:
            y[k] = rebuild(v, r, memo, keep)
        for j in range(extra):
            del y["gone%d" % j]
    elif t is PointlessPrimVector:
        y = PointlessPrimVector(x.typecode)
        items, one = pv_items(x), 1.0 if x.typecode == "f" else 1
        for v in items[:extra]:
            y.append(v)
        for j in range(r.randint(0, 3)):
            y.append(one)
        while len(y) > min(extra, len(items)):
            y.pop()
        if r.random() < .5:
            y.append_bulk(items[extra:])
        else:
            for v in items[extra:]:
                y.append(v)
        if r.random() < .3:
            y.append_bulk([one] * 70)
            y.pop_bulk(70)
    elif t is PointlessBitvector:
        bits = bits_of(x)
        if r.random() < .3:
            y = PointlessBitvector(len(bits))
            for j, v in enumerate(bits):
                y[j] = not v
            for j, v in enumerate(bits):
                y[j] = v
        else:
            y = PointlessBitvector()
            for v in bits:
                if r.random() < .2:
                    y.append(not v)
                    y.pop()
                y.append(v)
        if r.random() < .7:
            n = r.choice([1, 2, 8, 31, 100])
            y.extend_true(n)
            for j in range(n):
                y.pop()
        if r.random() < .3:
            y = y.copy()
    else:
        y = x
    memo[id(x)] = y
    if top:
        keep.clear()
    return y


class Differ(Exception):
    pass


def ident(got):
    return (type(got).__name__, got.container_id)


def same(src, got, shared=None):
    """Raises Differ unless the stored value 'got' is what the Python value 'src' must be stored as. With shared=({}, {}) the
    containers of both are required to correspond one to one. Returns the number of values compared."""
    n = 0
    seen = set()
    stack = [(src, got, "root")]
    while stack:
        s, g, path = stack.pop()
        n += 1

        def no(what):
            raise Differ("%s at %s: %.200r stored as %.200r" % (what, path[-300:], s, g))
        if s is None or isinstance(s, bool):
            if g is not s:
                no("singleton")
            continue
        if isinstance(s, int):
            if type(g) is not int or g != s:
                no("int")
            continue
        if isinstance(s, float):
            if type(g) is not float or fbits(g) != fbits(f32(s)):
                no("float")
            continue
        if isinstance(s, str):
            if type(g) is not str or g != s:
                no("string")
            continue
        if isinstance(s, PointlessBitvector):
            if type(g) not in BITVS or len(g) != len(s) or bits_of(g) != bits_of(s):
                no("bitvector")
            continue
        container = isinstance(g, VECS + SETS + MAPS)
        if not container:
            no("type")
        if shared is not None and not (isinstance(g, VECS) and len(g) == 0):
            a = shared[0].setdefault(id(s), ident(g))
            b = shared[1].setdefault(ident(g), id(s))
            if a != ident(g):
                no("one object stored as two containers (%s, %s)" % (a, ident(g)))
            if b != id(s):
                no("two objects stored as one container (%s)" % (ident(g),))
        v = (id(s), ident(g), len(g))
        if v in seen and not (isinstance(g, VECS) and len(g) == 0):
            continue
        seen.add(v)
        if len(g) != len(s):
            no("length %d != %d" % (len(g), len(s)))
        if isinstance(s, (list, tuple)):
            if type(g) not in VECS:
                no("type")
            for i in range(len(s)):
                stack.append((s[i], g[i], path + "[%d]" % i))
        elif isinstance(s, bytearray):
            if type(g) not in VECS or (len(s) and g.typecode != "u8") or bytes(pv_items(g)) != bytes(s):
                no("bytearray")
        elif isinstance(s, PointlessPrimVector):
            if type(g) not in VECS:
                no("type")
            if len(s) and g.typecode != s.typecode:
                no("typecode %s != %s" % (g.typecode, s.typecode))
            a, b = pv_items(s), pv_items(g)
            if s.typecode == "f":
                a, b = list(map(fbits, a)), list(map(fbits, b))
            if a != b:
                no("items")
            n += len(a)
        elif isinstance(s, (set, frozenset)):
            if type(g) not in SETS:
                no("type")
            a, b = {canon_key(k) for k in s}, {canon_key(k) for k in g}
            if a != b or len(list(g)) != len(s):
                no("items: missing %.200r, extra %.200r" % (a - b, b - a))
            n += len(a)
        elif isinstance(s, dict):
            if type(g) not in MAPS:
                no("type")
            a = {canon_key(k): v for k, v in s.items()}
            items = list(g.items())
            b = {canon_key(k): v for k, v in items}
            if set(a) != set(b) or len(items) != len(s):
                no("keys: missing %.200r, extra %.200r" % (set(a) - set(b), set(b) - set(a)))
            for k in a:
                stack.append((a[k], b[k], path + "{%.30r}" % (k,)))
        else:
            no("unexpected source type")
    return n


def shape(x, limit=400):
    """A short signature of a value, to count distinct ones: types and sizes, in order, cut off."""
    out, stack, seen = [], [x], set()
    while stack and len(out) < limit:
        v = stack.pop()
        if isinstance(v, (list, tuple, set, frozenset, dict)):
            if id(v) in seen:
                out.append("^")
                continue
            seen.add(id(v))
            out.append("%s%d" % (type(v).__name__[0], len(v)))
            stack.extend(v)
            if isinstance(v, dict):
                stack.extend(v.values())
        elif isinstance(v, PointlessPrimVector):
            out.append("%s%d" % (v.typecode, len(v)))
        elif isinstance(v, PointlessBitvector):
            out.append("b%d" % len(v))
        elif isinstance(v, str):
            out.append("s%d%d" % (len(v), max(map(ord, v), default=0).bit_length()))
        elif isinstance(v, float):
            out.append("F")
        elif isinstance(v, int):
            out.append("I%d" % v.bit_length())
        else:
            out.append(type(v).__name__)
    return "".join(out)
