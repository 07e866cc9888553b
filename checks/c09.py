"""C09: a stored vector behaves as the read-only sequence it was made from."""
import gc

import fmt
import pointless
from gen import *
from wk import Violation, check

CASES = {"quick": 2200, "thorough": 80000}
RULE = ("one case = a history of up to 60 operations on a pool of vectors, slices of them and slices of slices (index, slice, iterate, resume and drop iterators, reverse, membership, "
        "comparison, min/max/range, bisect_left, type code, buffer), for every element type, with arguments at and beyond the ends; the oracle is a Python list (or "
        "the bisect module); the Pointless object and the parent vectors are dropped on the way; non-trivial = at least 5 operations on a vector of two items or more; "
        "distinct by vector type, sizes and operations")
MUST_OBSERVE = ("index", "index_error", "slice", "iter_step", "reversed", "contains_hit", "contains_miss", "compare", "minmax", "bisect", "buffer", "foreign")
MIN_EVAL = 500


def vals(r, t, n):
    if t == "f":
        return [f32(r.choice([r.uniform(-9, 9), float(r.randint(-3, 3)), math.inf, -math.inf, -0.0])) for _ in range(n)]
    lo, hi = RANGES[t]
    k = r.random()
    if k < .3:
        return [r.randint(max(lo, -3), 3) for _ in range(n)]
    if k < .5:
        return [r.choice([lo, lo + 1, hi - 1, hi]) for _ in range(n)]
    return [r.randint(lo, hi) for _ in range(n)]


def model(v):
    """the list (of scalars, lists, bitvectors and unique objects) a vector of values is compared as"""
    if isinstance(v, (list, tuple)):
        return [model(x) for x in v]
    if isinstance(v, (bytearray,)):
        return list(v)
    if isinstance(v, PointlessPrimVector):
        return pv_items(v)
    if isinstance(v, float):
        return f32(v)
    if isinstance(v, (set, frozenset, dict)):
        return object()
    return v


def vectors(r, g, T):
    """[(name, Python source, model list, type code or None)]: the stored vectors of a case"""
    out = []
    for _ in range(r.choice([1, 2, 3])):
        n = r.choice([0, 1, 2, 3, 4, 7, 8, 9, 30, 100, 257])
        k = r.random()
        if k < .45:
            t = r.choice(TYPES)
            it = vals(r, t, n)
            if r.random() < .3:
                it.sort()
            out.append((prim(t, it), it, t if n else None))
        elif k < .55:
            it = sorted(vals(r, "u64", n))
            out.append((prim("u64", it), it, "u64" if n else None))
        elif k < .65:
            it = bytearray(r.getrandbits(8) for _ in range(n))
            out.append((it, list(it), "u8" if n else None))
        else:
            it = [r.choice([g.scalar(False), g.key(), [g.scalar(False)], {1: 2}, {1}, prim("i16", [1, -1]), (), [[]], "a", 1, 1.0, True, None]) for _ in range(n)]
            if r.random() < .2:
                it = [r.choice([1, 2, 3, 1.0]) for _ in range(n)]
            out.append((it, model(it), "?"))
    return out


class V:
    def __init__(self, got, m, t, src):
        self.v, self.m, self.t, self.src = got, m, t, src


def eq_item(a, b):
    """is a stored item the model item"""
    if isinstance(b, list):
        return isinstance(a, PointlessVector) and len(a) == len(b) and all(eq_item(x, y) for x, y in zip(a, b))
    if type(b) is object:
        return isinstance(a, (PointlessSet, PointlessMap))
    if isinstance(b, PointlessBitvector):
        return type(a) is PointlessBitvector and bits_of(a) == bits_of(b)
    if isinstance(b, float):
        return type(a) is float and fbits(a) == fbits(b)
    return type(a) is type(b) and a == b


def outcome(f):
    try:
        return ("ok", f())
    except (IndexError, ValueError, TypeError, BufferError, RecursionError) as e:
        return (type(e).__name__, None)


def case(i, r, T):
    g = G(r, "mixed")
    g.nan = False
    vs = vectors(r, g, T)
    k = r.random()
    if k < .15 and all(t not in (None, "?") for _, _, t in vs):
        # written by the independent encoder
        T.count("foreign")
        e = fmt.Enc()
        hs = [e.prim(fmt.PRIM_OF[t], m) for _, m, t in vs]
        p = pointless.Pointless(bytearray(e.finish(e.vector(hs), shuffle=r, gap=2)))
    else:
        p = store([s for s, _, _ in vs], r, T)
    root = p.GetRoot()
    pool = [V(root[j], m, t, s) for j, (s, m, t) in enumerate(vs)]
    pool.append(V(root, [m for _, m, _ in vs], "?", None))
    iters = []
    log = []
    T.about("")
    for _ in range(r.randint(5, 60)):
        x = r.choice(pool)
        v, m, n = x.v, x.m, len(x.m)
        op = r.randrange(15)
        log.append(op)
        T.about("ops %r on %.500r" % (log, m))
        check(len(v) == n and bool(v) == bool(n), "len", "%d %d" % (len(v), n))
        if op <= 1:
            j = r.choice([r.randint(-n - 2, n + 1), 0, -1, n, n - 1, -n, -n - 1, 2 ** 31, 2 ** 32, 2 ** 32 + 1, -2 ** 32, 2 ** 63 - 1, -2 ** 63, 2 ** 64, 2 ** 70, -2 ** 70, True, False])
            a, b = outcome(lambda: v[j]), outcome(lambda: m[j])
            check(a[0] == b[0] and (a[0] != "ok" or eq_item(a[1], b[1])), "index", lambda: "[%r]: %r not %.200r" % (j, a, b))
            T.count("index" if b[0] == "ok" else "index_error")
        elif op == 2:
            j = r.choice([1.0, "1", None, (1,), [0], 1j])
            a = outcome(lambda: v[j])
            check(a[0] == "TypeError", "index-type", lambda: "[%r]: %r" % (j, a))
        elif op <= 5:
            a, b = [r.choice([None, r.randint(-n - 3, n + 3), 0, n, -1, 2 ** 32, -2 ** 32, 2 ** 32 + 1, 2 ** 70, -2 ** 70, 2 ** 31]) for _ in range(2)]
            s = v[a:b]
            w = m[a:b]
            check(type(s) is PointlessVector and len(s) == len(w), "slice-length", lambda: "[%r:%r]: %d not %d" % (a, b, len(s), len(w)))
            check(s.container_id == v.container_id, "slice-identity", lambda: "%r %r" % (s.container_id, v.container_id))
            pool.append(V(s, w, x.t, None))
            if r.random() < .3:
                st = r.choice([2, -1, 3, 0])
                check(outcome(lambda: v[a:b:st])[0] == "ValueError", "slice-step", lambda: "%r" % st)
            T.count("slice")
        elif op == 6:
            iters.append(r.choice([lambda: (iter(v), iter(m)), lambda: (reversed(v), iter(m[::-1]))])())
            if len(iters) > 6:
                iters.pop(0)
        elif op == 7 and iters:
            it, mt = r.choice(iters)
            for _ in range(r.randint(1, 6)):
                a, b = next(it, iters), next(mt, iters)
                check((a is iters) == (b is iters) and (a is iters or eq_item(a, b)), "iterator", lambda: "%r not %r" % (a, b))
                T.count("iter_step")
        elif op == 8:
            a = [list(v), list(reversed(v))]
            check(eq_all(a[0], m) and eq_all(a[1], m[::-1]), "iteration", lambda: "%r not %r" % (a, m))
            T.count("reversed")
        elif op <= 10:
            if m and r.random() < .6:
                w = r.choice(m)
                w = r.choice([w, near(r, w)])
            else:
                w = r.choice([g.scalar(False), g.key(), 1, 1.0, True, None, "", "a", [], ["a"], [1]])
            if not usable(w, m):
                continue
            want = any(mem_eq(y, w) for y in m)
            a = outcome(lambda: w in v)
            check(a == ("ok", want), "contains", lambda: "%r in it: %r, expected %r" % (w, a, want))
            T.count("contains_hit" if want else "contains_miss")
        elif op == 11:
            y = r.choice(pool)
            if r.random() < .3:
                # a vector with a common prefix, of another file
                w = list(m)
                if w and r.random() < .7:
                    j = r.randrange(len(w))
                    w[j:] = r.choice([[], w[j + 1:], [w[j]] * 2])
                try:
                    y = V(pointless.Pointless(pointless.serialize_to_buffer(strip(w))).GetRoot(), strip(w), "?", None)
                except TypeError:
                    continue
            for o in ("__eq__", "__ne__", "__lt__", "__le__", "__gt__", "__ge__"):
                a = outcome(lambda: OPS[o](v, y.v))
                b = outcome(lambda: OPS[o](m, y.m))
                if b[0] == "ok" and not _plain(m) | _plain(y.m):
                    continue     # a map or a set: its objects are never equal
                check(a == b, "compare", lambda: "%s with %.200r: %r not %r" % (o, y.m, a, b))
            T.count("compare")
            check(outcome(lambda: v < [1])[0] == "TypeError" and (v == m) is False and (v != m) is True, "compare-list", "")
        elif op == 12:
            for nm, f in (("max", max), ("min", min), ("range", None)):
                a = outcome(getattr(v, nm))
                if value_based(v):
                    b = ("ValueError", None)
                else:
                    b = outcome((lambda: f(m)) if f else (lambda: (min(m), max(m))))
                ok = a[0] == b[0] and (a[0] != "ok" or (eq_item(a[1], b[1]) if f else (type(a[1]) is tuple and eq_all(list(a[1]), list(b[1])))))
                check(ok, "minmax", lambda: "%s of %s: %r not %r" % (nm, x.t, a, b))
            T.count("minmax")
        elif op == 13:
            w = r.choice([r.choice(m) if m else 1, 0, -1, 2 ** 64 - 1, 2 ** 64, r.randint(0, 2 ** 64), "a", None, 1.5])
            if type(w) is int and m and r.random() < .5:
                w += r.choice([-1, 1])
            a = outcome(lambda: v.bisect_left(w))
            if x.t == "u64" and isinstance(w, int) and 0 <= w < 2 ** 64 and type(w) is int:
                if m == sorted(m):
                    import bisect
                    check(a == ("ok", bisect.bisect_left(m, w)), "bisect_left", lambda: "%r in %r: %r" % (w, m, a))
                    T.count("bisect")
                else:
                    check(a[0] == "ok" and 0 <= a[1] <= n, "bisect_left-range", lambda: "%r" % (a,))
            else:
                check(a[0] == "ValueError", "bisect_left-error", lambda: "%r of %s: %r" % (w, x.t, a))
        else:
            # type code and buffer
            tc = outcome(lambda: v.typecode)
            if x.t not in ("?",):
                check(tc == (("ok", x.t) if x.t else ("ValueError", None)), "typecode", lambda: "%r, expected %r" % (tc, x.t))
            if value_based(v):
                check(outcome(lambda: memoryview(v))[0] == "BufferError", "buffer-of-values", "")
            else:
                mv = memoryview(v)
                t = tc[1]
                want = array.array(FMT[t], m).tobytes() if t else b""
                check(mv.readonly and mv.tobytes() == want and bytes(v) == want, "buffer", lambda: "%s: %r not %r" % (t, mv.tobytes(), want))
                check(mv.nbytes == len(want), "buffer-size", "")
                mv.release()
                T.count("buffer")
        T.ev()
        if r.random() < .03:
            p = root = None
            pool[:] = r.sample(pool, max(1, len(pool) // 2))
            gc.collect()
    if sum(len(x.m) for x in pool) >= 2 and len(log) >= 5:
        T.key(([(x[2], len(x[1])) for x in vs], log))
    if i < 2:
        T.sample("%.200r ops %r" % (vs[0][1], log))


def value_based(v):
    try:
        v.typecode
        return False
    except ValueError as e:
        return "value-based" in str(e)


def eq_all(a, b):
    return len(a) == len(b) and all(eq_item(x, y) for x, y in zip(a, b))


def near(r, w):
    if isinstance(w, bool) or w is None:
        return r.choice([0, 1, False])
    if isinstance(w, int):
        return r.choice([w + 1, w - 1, w])
    if isinstance(w, float):
        return r.choice([f32(w * 1.5), -w, w])
    if isinstance(w, str):
        return r.choice([w + "a", w[:-1], w[1:]])
    if isinstance(w, list):
        return r.choice([w + [1], w[:-1], tuple(w) if _plain(w) else w])
    return w


def usable(w, m):
    """is membership of w defined: maps, sets and PrimVectors can not be compared"""
    if isinstance(w, (PointlessPrimVector, set, frozenset, dict)) or type(w) is object:
        return False
    if isinstance(w, int) and not -2 ** 63 <= w < 2 ** 64:
        return False
    if isinstance(w, (list, tuple)):
        # an item-wise comparison may meet a map
        return all(usable(y, m) for y in w) and all(_plain(y) for y in m if isinstance(y, list))
    return True


def _plain(m):
    if isinstance(m, (list, tuple)):
        return all(_plain(x) for x in m)
    return type(m) is not object


def strip(w):
    """the model as a value to be serialized: 64 bit items can not be"""
    if isinstance(w, list):
        return [strip(x) for x in w]
    if type(w) is object or isinstance(w, int) and not I32_MIN <= w <= U32_MAX:
        raise TypeError
    return w


def mem_eq(a, w):
    if isinstance(a, PointlessBitvector) or isinstance(w, PointlessBitvector):
        return isinstance(a, PointlessBitvector) and isinstance(w, PointlessBitvector) and bits_of(a) == bits_of(w)
    if isinstance(a, (list, tuple)) or isinstance(w, (list, tuple)):
        return isinstance(a, (list, tuple)) and isinstance(w, (list, tuple)) and len(a) == len(w) and all(mem_eq(x, y) for x, y in zip(a, w))
    if isinstance(w, float):
        w = f32(w)
    return a == w


import operator
OPS = {"__%s__" % k: getattr(operator, k) for k in ("eq", "ne", "lt", "le", "gt", "ge")}
