"""Key sets for the set and map checks: collisions, spellings of equal keys, near misses; and their model."""
import struct

import fmt
from gen import *
from strcoll import GROUPS

M32 = 0xffffffff
INV = pow(1000003, -1, 2 ** 32)


def int_with_hash(h, r):
    """an integer whose stored hash is h"""
    return r.choice([h, h - 2 ** 32]) if h >= 2 ** 31 else h


def float_with_hash(h):
    f, = struct.unpack("<f", struct.pack("<I", h))
    if f != f or fmt.hash_f32(h) != h or f in (math.inf, -math.inf):
        return None
    return f


def last_with_hash(prefix, h):
    """the last item hash of a tuple with the given hashes before it so that the tuple's hash is h"""
    n = len(prefix) + 1
    mult, x = 1000003, 0x345678
    for p in prefix:
        x = ((x ^ p) * mult) & M32
        mult = (mult + 82520 + 2 * n) & M32
    if mult % 2 == 0:
        return None
    return (((h - 97531) * pow(mult, -1, 2 ** 32)) & M32) ^ x


def colliding(r, g):
    """a list of different keys which all have the same hash"""
    same = list(r.choice(GROUPS)) if r.random() < .5 else []
    base = r.choice(same) if same else r.choice([lambda: g.str_(), lambda: g.int_(), lambda: g.float_(), lambda: tuple(g.key(2) for _ in range(3)), lambda: 0, lambda: None])()
    h = fmt.hash_key(eq_form(base))
    out = [base, int_with_hash(h, r)] + same
    f = float_with_hash(h)
    if f is not None:
        out.append(f)
    for _ in range(r.choice([2, 5, 20, 60])):
        m = r.choice([0, 1, 1, 2, 4])
        pre = [r.randint(0, 2 ** 31) for _ in range(m)]
        x = last_with_hash(pre, h)
        if x is not None:
            out.append(tuple(pre + [x]))
    return out


def eq_form(k):
    """k with prims as tuples and bitvectors decoded, for fmt.hash_key"""
    if isinstance(k, BITVS):
        return FBits(bits_of(k))
    if isinstance(k, (tuple, list)):
        return tuple(eq_form(x) for x in k)
    if isinstance(k, (PointlessPrimVector,) + VECS):
        return tuple(pv_items(k))
    return k


def key_set(r, g):
    """distinct keys, of one of several kinds"""
    k = r.random()
    n = r.choice([0, 1, 1, 2, 2, 3, 4, 5, 6, 8, 10, 11, 12, 21, 22, 42, 43, 85, 86, 100, 170, 171, 341, 400])
    if k < .4:
        ks = [g.key() for _ in range(min(n, 120))]
    elif k < .55:
        ks = colliding(r, g) + [g.key() for _ in range(5)]
    elif k < .65:
        m = r.choice([1, 2 ** 8, 2 ** 16, 2 ** 24, 3, 5, 2 ** 27])
        ks = [(i * m) % 2 ** 32 for i in range(n)]
    elif k < .72:
        ks = [r.choice(["k", "", "x" * 20, "é"]) + str(i) for i in range(n)]
    elif k < .8:
        ks = [x for i in range(n // 3 + 1) for x in (i, i + .5, str(i), (i,), (i, "a"), None, True, -i)]
    elif k < .88:
        ks = [r.choice([float(i), i, i * .1, i * 2.0 ** 20, 2.0 ** i if i < 120 else i]) for i in range(n)]
    elif k < .94:
        ks = ["".join(r.choice("ab\xe9\u0101\U00010000") for _ in range(r.randint(0, 6))) for _ in range(n)]
    else:
        ks = [tuple(r.choice([0, 1, 0.0, 1.0, True, False, "0", None]) for _ in range(r.randint(0, 4))) for _ in range(n)] + \
             [PointlessBitvector(sequence=[r.random() < .5 for _ in range(r.choice([0, 1, 2, 3, 30]))]) for _ in range(n // 4)]
    r.shuffle(ks)
    # distinct once stored, and distinct for Python, which does not round floats
    out, seen, py = [], set(), set()
    for x in ks:
        e = eqkey(x)
        if e not in seen and x not in py:
            seen.add(e)
            py.add(x)
            out.append(x)
    return out


def deep_key(r):
    """a tuple of tuples, nearly as deep as can be stored as a key of a dict within a list"""
    k = r.choice([(), 1, "a", (1, 2.5), None])
    for j in range(r.choice([20, 100, 200, 248, 249, 250])):
        k = (k,) if r.random() < .97 else (k, j)
    return k


def usable(k):
    """can be asked for: no PrimVector inside, which can not be compared, and no integer beyond 32 bits"""
    if isinstance(k, PointlessPrimVector):
        return False
    if isinstance(k, int):
        return I32_MIN <= k <= U32_MAX
    return not isinstance(k, (tuple, list)) or all(map(usable, k))


def spellings(k, r):
    """keys which are equal to k"""
    out = [k]
    if isinstance(k, (bool, int, float)):
        v = f32(k) if isinstance(k, float) else k
        if v == v and v not in (math.inf, -math.inf):
            if v == int(v) and I32_MIN <= v <= U32_MAX:
                out.append(int(v))
            if f32(v) == v:
                out.append(float(v))
            if v in (0, 1):
                out.append(bool(v))
            if v == 0:
                out.append(-0.0)
        else:
            out.append(float(v))
    elif isinstance(k, str):
        out.append("".join(list(k)))
    elif isinstance(k, tuple):
        out.append(tuple(r.choice(spellings(x, r)) if not has_prim(x) and not isinstance(x, PointlessBitvector) else x for x in k))
    elif isinstance(k, PointlessBitvector):
        out.append(PointlessBitvector(sequence=[int(x) for x in bits_of(k)]))
    return [x for x in out if usable(x)]


def has_prim(k):
    if isinstance(k, PointlessPrimVector):
        return True
    return isinstance(k, (tuple, list)) and any(has_prim(x) for x in k)


def near_misses(k, r, g):
    out = []
    if isinstance(k, bool) or isinstance(k, int):
        out += [x for x in (k + 1, k - 1, k ^ 2 ** 31 if k >= 0 else k + 2 ** 32, k + 0.5) if I32_MIN <= x <= U32_MAX]
        out += [str(int(k)), (k,), k * 2 ** 20 % 2 ** 32]
    elif isinstance(k, float):
        b, = struct.unpack("<I", struct.pack("<f", f32(k)))
        out += [struct.unpack("<f", struct.pack("<I", x & M32))[0] for x in (b + 1, b - 1, b ^ 2 ** 31)] + [repr(k)]
        out.append(int_with_hash(b, r))
        out = [x for x in out if x == x]
    elif isinstance(k, str):
        out += [k + "a", k[:-1], k[1:], k[::-1], k.swapcase(), k + "\U0001f600"]
        out.append(int_with_hash(fmt.hash_key(k), r))
    elif isinstance(k, tuple):
        k = tuple(x for x in k)
        out += [k + (0,), k[:-1], k[1:], (k,), k[::-1], k + (None,)]
        out.append(int_with_hash(fmt.hash_key(eq_form(k)), r))
        if k:
            i = r.randrange(len(k))
            out.append(k[:i] + (g.key(2),) + k[i + 1:])
            out.append(k[:i] + ("x",) + k[i + 1:])
    elif k is None:
        out += [(None,), "None", ()]
    elif isinstance(k, PointlessBitvector):
        b = list(bits_of(k))
        out += [PointlessBitvector(sequence=b + [False]), PointlessBitvector(sequence=b[:-1]), tuple(b), PointlessBitvector(sequence=b[::-1])]
        out.append(int_with_hash(fmt.hash_key(FBits(b)), r))
    elif isinstance(k, PointlessPrimVector):
        out += [tuple(pv_items(k)) + (1,)]
    return [x for x in out if usable(x)]
