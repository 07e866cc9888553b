"""C10: a primitive vector behaves as the array of its type."""
import gc

import fmt
import pointless
from gen import *
from wk import Violation, check

CASES = {"quick": 2400, "thorough": 80000}
RULE = ("one case = a history of up to 80 operations on two primitive vectors of one of the nine types (append, append_bulk from lists, generators, primitive and stored vectors and "
        "itself, failing ones too, item access and assignment, slices, pop, pop_bulk, remove, fast_remove, index, membership, clear, min/max/range, iterators, constructors, "
        "serialize and its reverse, FromRemap, re-initialisation), with values at and beyond the limits of the type; the oracle is an array.array; non-trivial = "
        "at least 5 operations; distinct by type, sizes and operations")
MUST_OBSERVE = ("refused_value", "rolled_back", "self_append", "removed", "stored_append", "remap", "deserialized", "iter_step", "reserialized", "large")
MIN_EVAL = 500
SIZE = {"i8": 1, "u8": 1, "i16": 2, "u16": 2, "i32": 4, "u32": 4, "i64": 8, "u64": 8, "f": 4}


def good(r, t):
    if t == "f":
        return r.choice([r.uniform(-1e3, 1e3), float(r.randint(-4, 4)), math.inf, -math.inf, -0.0, 1e300, 1e-300, 0.1, 3.4028235e38, 16777217.0])
    lo, hi = RANGES[t]
    return r.choice([lo, hi, r.randint(lo, hi), r.randint(max(lo, -4), 4), r.randint(max(lo, -4), 4), hi - 1, lo + 1, True])


def bad(r, t):
    if t == "f":
        return r.choice([1, True, "1", None, 1j, [1.0], b"1"])
    lo, hi = RANGES[t]
    return r.choice([lo - 1, hi + 1, 1.0, "1", None, 2 ** 64, -2 ** 63 - 1, 2 ** 70, -2 ** 70, 1j, b"1", (1,), lo - 256 ** SIZE[t], hi + 256 ** SIZE[t], -1 if lo == 0 else hi + 1])


def stored_as(t, v):
    return f32(v) if t == "f" else int(v)


def err(f, *kinds):
    try:
        x = f()
    except kinds:
        return
    raise Violation("not-refused", "%r" % (x,))


def items_eq(t, a, b):
    if len(a) != len(b):
        return False
    if t == "f":
        return all(type(x) is float for x in a) and list(map(fbits, a)) == list(map(fbits, b))
    return all(type(x) is int for x in a) and list(a) == list(b)


def whole(v, m, t):
    check(len(v) == len(m) and bool(v) == bool(m), "length", lambda: "%d not %d" % (len(v), len(m)))
    check(items_eq(t, list(v), m), "items", lambda: "%s: %.800r not %.800r" % (t, list(v), m))
    check(items_eq(t, list(reversed(v)), m[::-1]), "reversed", "")
    check(v.typecode == t, "typecode", "")
    check(v.__sizeof__() >= SIZE[t] * len(m), "sizeof", lambda: "%d bytes for %d items of %s" % (v.__sizeof__(), len(m), t))
    check(bytes(memoryview(v)) == array.array(FMT[t], m).tobytes(), "buffer", "")


def case(i, r, T):
    t = r.choice(TYPES)
    log = []

    def src(n, allow_bad=False):
        xs = [good(r, t) for _ in range(n)]
        if allow_bad:
            xs.insert(r.randint(0, n), bad(r, t))
        return xs

    def make(n):
        xs = src(n)
        k = r.randrange(4)
        v = PointlessPrimVector(t, sequence=xs) if k == 0 else PointlessPrimVector(t, sequence=(x for x in xs)) if k == 1 else PointlessPrimVector(type=t)
        if k == 2:
            v.append_bulk(tuple(xs))
        elif k == 3:
            for x in xs:
                v.append(x)
        return v, [stored_as(t, x) for x in xs]
    size = r.choice([0, 1, 3, 5, 10, 17, 40, 200])
    if i % 60 == 0:
        size = r.choice([5000, 20000, 66000])
        T.count("large")
    vs = [make(size), make(r.randint(0, 6))]
    its = []
    for _ in range(r.randint(5, 80) if size < 1000 else 8):
        w = 0 if r.random() < .75 else 1
        v, m = vs[w]
        n = len(m)
        op = r.randrange(24)
        log.append(op)
        T.about("type %s ops %r now %.600r" % (t, log, m))
        T.ev()
        changed = False
        if op <= 1:
            x = good(r, t)
            check(v.append(x) is None, "append-result", "")
            m.append(stored_as(t, x))
        elif op == 2:
            x = bad(r, t)
            err(lambda: v.append(x), TypeError, ValueError)
            err(lambda: v.append(), TypeError)
            T.count("refused_value")
        elif op == 3:
            xs = src(r.randint(0, 12))
            v.append_bulk(r.choice([lambda: xs, lambda: tuple(xs), lambda: iter(xs), lambda: (x for x in xs)])())
            m.extend(stored_as(t, x) for x in xs)
        elif op == 4:
            xs = src(r.randint(0, 12), True)
            err(lambda: v.append_bulk(iter(xs)), TypeError, ValueError)

            def gen():
                for x in xs[:2]:
                    if x in (None, "1") or isinstance(x, (list, tuple, complex, bytes)):
                        break
                    yield x
                raise KeyError("stop")
            err(lambda: v.append_bulk(gen()), KeyError, TypeError, ValueError)
            err(lambda: v.append_bulk(5), TypeError)
            T.count("rolled_back")
        elif op == 5 and n < 400:
            v.append_bulk(v)
            m.extend(list(m))
            T.count("self_append")
        elif op == 6:
            o, om = vs[1 - w]
            if len(om) < 400:
                v.append_bulk(o)
                m.extend(om)
        elif op == 7:
            # another type, through a primitive vector or a stored one
            t2 = r.choice(TYPES)
            fit = t2 != "f" and t != "f"
            xs = [x for x in [good(r, t2) for _ in range(r.randint(0, 6))]]
            m2 = [stored_as(t2, x) for x in xs]
            o = prim(t2, xs)
            if r.random() < .6:
                p = pointless.Pointless(pointless.serialize_to_buffer(o))
                o = p.GetRoot()
                a = r.randint(0, len(m2))
                b = r.randint(a, len(m2))
                if r.random() < .7:
                    o, m2 = o[a:b], m2[a:b]
                p = None
                T.count("stored_append")
            ok = t == t2 or (all(RANGES[t][0] <= x <= RANGES[t][1] for x in m2) if fit else not m2)
            if ok:
                v.append_bulk(o)
                m.extend(m2)
            else:
                err(lambda: v.append_bulk(o), TypeError, ValueError)
                T.count("rolled_back")
        elif op == 8:
            if m:
                check(items_eq(t, [v.pop()], [m.pop()]), "pop", "")
            else:
                err(v.pop, IndexError)
        elif op == 9:
            k = r.choice([0, min(1, n), min(2, n), n // 2, n, -1, -5])
            v.pop_bulk(k)
            if k > 0:
                del m[n - k:]
            err(lambda: v.pop_bulk(len(m) + r.choice([1, 5, 2 ** 32, 2 ** 62])), ValueError)
            err(lambda: v.pop_bulk(2 ** 70), OverflowError)
        elif op == 10:
            x = r.choice(m) if m and r.random() < .7 else good(r, t)
            y = stored_as(t, x)
            for f in ("remove", "fast_remove", "index"):
                if y not in m:
                    err(lambda: getattr(v, f)(x), ValueError)
                    continue
                j = m.index(y)
                if f == "index":
                    check(v.index(x) == j, "index", lambda: "%r" % (x,))
                else:
                    getattr(v, f)(x)
                    if f == "remove":
                        del m[j]
                    else:
                        m[j] = m[-1]
                        m.pop()
                    T.count("removed")
                check(items_eq(t, list(v), m), f, lambda: "%r: %r not %r" % (x, list(v), m))
        elif op == 11:
            x = r.choice(m) if m and r.random() < .5 else good(r, t)
            check((x in v) is (stored_as(t, x) in m), "contains", lambda: "%r" % (x,))
            x = bad(r, t)
            if t == "f":
                want = isinstance(x, int) and float(x) in m
            else:
                want = isinstance(x, int) and x in m
            if not isinstance(x, float):
                check((x in v) is want, "contains", lambda: "%r" % (x,))
            err(lambda: v.index("x"), ValueError, TypeError)
            err(lambda: v.remove([]), ValueError, TypeError)
        elif op <= 13:
            j = r.choice([r.randint(-n - 2, n + 1), 0, -1, n, n - 1, -n, -n - 1, 2 ** 32, -2 ** 32, 2 ** 63 - 1, -2 ** 63, 2 ** 70, -2 ** 70])
            if -n <= j < n:
                check(items_eq(t, [v[j]], [m[j]]), "item", lambda: "[%d]: %r" % (j, v[j]))
                x = good(r, t)
                v[j] = x
                m[j] = stored_as(t, x)
            else:
                err(lambda: v[j], IndexError)
                err(lambda: v.__setitem__(j, good(r, t)), IndexError)
            if n:
                x = bad(r, t)
                err(lambda: v.__setitem__(r.randrange(-n, n), x), TypeError, ValueError)
                err(lambda: v.__delitem__(r.randrange(-n, n)), TypeError)
                T.count("refused_value")
            x = r.choice(["0", 0.0, None, (0,)])
            err(lambda: v[x], TypeError)
            err(lambda: v.__setitem__(x, good(r, t)), TypeError)
        elif op == 14:
            a, b = [r.choice([None, r.randint(-n - 3, n + 3), 0, n, -1, 2 ** 32, -2 ** 32, 2 ** 70, -2 ** 70]) for _ in range(2)]
            s = v[a:b]
            check(type(s) is PointlessPrimVector, "slice-type", "")
            whole(s, m[a:b], t)
            err(lambda: v[a:b:2], ValueError)
            # the slice is a copy
            s.append(good(r, t))
            if r.random() < .3 and len(s) < 400:
                vs[1 - w] = (s, [x for x in m[a:b]] + [s[-1]])
                its = []
        elif op == 15:
            v.clear()
            del m[:]
        elif op == 16:
            for nm, f in (("max", max), ("min", min)):
                if m:
                    check(items_eq(t, [getattr(v, nm)()], [f(m)]), nm, lambda: "%r of %r" % (getattr(v, nm)(), m))
                else:
                    err(getattr(v, nm), ValueError)
            if m:
                x = v.range()
                check(type(x) is tuple and items_eq(t, list(x), [min(m), max(m)]), "range", lambda: "%r" % (x,))
            else:
                err(v.range, ValueError)
        elif op == 17:
            its.append((iter(v), m, iter(m)))
        elif op == 18 and its:
            it, _, mt = r.choice(its)
            for _ in range(r.randint(1, 5)):
                a, b = next(it, its), next(mt, its)
                check((a is its) == (b is its) and (a is its or items_eq(t, [a], [b])), "iterator", lambda: "%r not %r" % (a, b))
                T.count("iter_step")
        elif op == 19:
            s = v.serialize()
            check(type(s) is bytearray and len(s) == 8 + SIZE[t] * len(m), "serialized-size", "")
            for b in (s, bytes(s), memoryview(s), PointlessPrimVector("u8", sequence=s)):
                x = PointlessPrimVector(buffer=b)
                whole(x, m, t)
            for z in (s[:-1], s + b"x", s[:7], b"", bytes([9 + r.randrange(200), 0, 0, 0]) + bytes(s[4:]), bytes(s[:4]) + struct.pack("<I", len(m) + r.choice([1, 2 ** 29, 2 ** 31])) + bytes(s[8:])):
                err(lambda: PointlessPrimVector(buffer=z), ValueError)
            T.count("deserialized")
        elif op == 20:
            # remap
            if t == "f":
                ti = r.choice([x for x in TYPES if x != "f"])
            else:
                ti = r.choice(TYPES)
            k = r.randint(0, 10)
            idx = [r.randrange(n) for _ in range(k)] if n else []
            if ti != "f":
                idx = [x for x in idx if x <= RANGES[ti][1]]
            ok = ti != "f" or not idx
            xs = [float(x) for x in idx] if ti == "f" else list(idx)
            if r.random() < .3 and ti != "f":
                xs.insert(r.randint(0, len(xs)), r.choice([min(n, RANGES[ti][1]), -1 if ti[0] == "i" else RANGES[ti][1], RANGES[ti][1], RANGES[ti][0]]))
                ok = all(0 <= x < n for x in xs)
            o = prim(ti, xs)
            if r.random() < .5:
                o = pointless.Pointless(pointless.serialize_to_buffer(o)).GetRoot()
                if r.random() < .5 and ok:
                    a = r.randint(0, len(xs))
                    o, xs = o[a:], xs[a:]
            if ok:
                x = PointlessPrimVector.FromRemap(v, o)
                whole(x, [m[int(j)] for j in xs], t)
                T.count("remap")
            else:
                err(lambda: PointlessPrimVector.FromRemap(v, o), ValueError)
            err(lambda: PointlessPrimVector.FromRemap(v, [0]), ValueError)
            err(lambda: PointlessPrimVector.FromRemap([0], o), TypeError)
        elif op == 21:
            xs = src(r.randint(0, 8), True)
            err(lambda: PointlessPrimVector(t, sequence=xs), TypeError, ValueError)
            err(lambda: PointlessPrimVector(r.choice(["x", "", "I8", "i128", "ff"])), TypeError)
            err(lambda: PointlessPrimVector(), TypeError)
            err(lambda: PointlessPrimVector(t, buffer=v.serialize()), TypeError)
            err(lambda: PointlessPrimVector(buffer=v.serialize(), sequence=[]), ValueError)
            err(lambda: PointlessPrimVector(t, sequence=5), TypeError)
        elif op == 22 and r.random() < .4:
            xs = src(r.randint(0, 5))
            v.__init__(t, sequence=xs)
            m[:] = [stored_as(t, x) for x in xs]
        elif op == 23 and size < 1000:
            p = store(v, r, T)
            x = p.GetRoot()
            check(items_eq(t, list(x), m) and (not m or x.typecode == t), "stored", "")
            T.count("reserialized")
        whole(v, m, t)
    if len(log) >= 5:
        T.key((t, size, log))
    if i < 2:
        T.sample("%s ops %r" % (t, log))


def extra(D):
    D.giant("vectors")
