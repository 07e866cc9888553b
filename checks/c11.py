"""C11: sort and sort_proj."""
from collections import Counter

import pointless
from gen import *
from wk import Violation, check

CASES = {"quick": 1600, "thorough": 60000}
RULE = ("one case = one primitive vector (nine types; random, few distinct values, sorted, reversed, organ pipe, sawtooth, nearly sorted, extremes; 0 to 131073 items) "
        "which is sorted, and one projection (eight types) which is sorted by 1..16 key vectors, primitive or stored, slices of them, of any types, with ties and infinities; the result must be a "
        "permutation of the items which is in order; projections which are out of bounds in one item, or keys of different lengths, must be refused and left alone; "
        "non-trivial = at least 2 items; distinct by types, sizes and pattern")
MUST_OBSERVE = ("sorted", "projected", "refused", "ties", "stored_keys", "many_keys", "large", "very_large", "nan")
MIN_EVAL = 500
PATTERNS = ("alternate", "random", "few", "sorted", "reversed", "pipe", "saw", "nearly", "edges", "same", "shifted", "blocks")


def items(r, t, n, pat):
    if t == "f":
        mk = lambda: f32(r.choice([r.uniform(-100, 100), float(r.randint(-5, 5)), math.inf, -math.inf, 0.0, -0.0, 1e30, -1e-30]))
        edge = [math.inf, -math.inf, 0.0, -0.0, f32(1e-45), f32(3.4028234e38)]
    else:
        lo, hi = RANGES[t]
        mk = lambda: r.randint(lo, hi)
        edge = [lo, lo + 1, hi, hi - 1, 0, max(lo, -1), 1]
    if pat == "few":
        pool = [mk() for _ in range(r.randint(1, 4))]
        return [r.choice(pool) for _ in range(n)]
    if pat == "edges":
        return [r.choice(edge) for _ in range(n)]
    if pat == "same":
        return [mk()] * n
    if pat == "alternate":
        # in order but for every k-th neighbour
        k = r.choice([2, 2, 3, 4, 5, 7, 16, 100])
        pool = sorted(mk() for _ in range(k))
        xs = [pool[j % k] for j in range(n)]
        return xs[r.randrange(k):] or xs
    xs = [mk() for _ in range(n)]
    if pat == "random":
        return xs
    if pat == "saw":
        k = r.randint(1, 9)
        pool = sorted(mk() for _ in range(k))
        return [pool[j % k] for j in range(n)]
    if pat == "blocks":
        pool = [mk() for _ in range(3)]
        return [x for x in pool for _ in range(n // 3)]
    xs.sort()
    if pat == "reversed":
        xs.reverse()
    elif pat == "pipe":
        xs = xs[::2] + xs[1::2][::-1]
    elif pat == "shifted" and n:
        k = r.randrange(n)
        xs = xs[k:] + xs[:k]
    elif pat == "nearly":
        for _ in range(r.randint(1, 3)):
            if n:
                a, b = r.randrange(n), r.randrange(n)
                xs[a], xs[b] = xs[b], xs[a]
    return xs


def bits(t, xs):
    return Counter(map(fbits, xs)) if t == "f" else Counter(xs)


def case(i, r, T):
    n = r.choice([0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 15, 30, 39, 40, 41, 42, 60, 100, 300])
    t, pat = r.choice(TYPES), r.choice(PATTERNS)
    if i % 50 == 0:
        n = r.choice([1000, 5000, 20000])
        T.count("large")
    elif i % 50 == 25:
        # regular ones, which are quick to make and to sort
        n = r.choice([32768, 32769, 40000, 65535, 65536, 65537, 70000, 131073])
        pat = ("alternate", "alternate", "alternate", "few", "same", "blocks", "saw")[i // 50 % 7]
        T.count("very_large")
    xs = items(r, t, n, pat)
    T.about("sort %s %s %d: %.600r" % (t, pat, n, xs))
    nan = t == "f" and xs and r.random() < .2
    if nan:
        xs = [math.nan if r.random() < .3 else x for x in xs]
    v = prim(t, xs)
    mv = memoryview(v) if r.random() < .2 else None
    check(v.sort() is None, "sort-result", "")
    got = list(v)
    check(bits(t, got) == bits(t, xs) and len(got) == len(xs), "sort-permutation", lambda: "%.400r" % (got,))
    if nan:
        T.count("nan")
    else:
        check(got == sorted(xs), "sort-order", lambda: "%.400r" % (got,))
        T.count("sorted")
    mv = None

    # projection
    nk = r.choice([1, 1, 2, 2, 3, 5, 15, 16])
    m = r.choice([1, 2, 3, 7, 20, 100, 127, 128, 255, 256, 1000]) if n < 1000 or n > 20000 else n
    keys, kv = [], []
    for k in range(nk):
        tk, pk = r.choice(TYPES), r.choice(("few", "few", "same", "random", "edges", "sorted"))
        it = items(r, tk, m, pk)
        o = prim(tk, it)
        q = r.random()
        if q < .5:
            # stored, whole or a slice
            a, b = r.choice([(0, 0), (r.randint(1, 4), r.randint(0, 4))])
            o = prim(tk, items(r, tk, a, "random") + it + items(r, tk, b, "random"))
            o = pointless.Pointless(pointless.serialize_to_buffer([o, 1])).GetRoot()[0][a:a + m]
            T.count("stored_keys")
        keys.append(o)
        kv.append(it)
    ti = r.choice([x for x in TYPES if x != "f"])
    hi = min(m - 1, RANGES[ti][1])
    pn = r.choice([0, 1, 2, 3, 6, 7, 8, 40, 41, 50, 200]) if n < 1000 or n > 20000 else n
    idx = r.choice([lambda: [r.randint(0, hi) for _ in range(pn)], lambda: list(range(hi + 1)), lambda: list(range(hi, -1, -1)), lambda: r.sample(range(hi + 1), hi + 1),
                    lambda: [hi] * pn])()
    p = prim(ti, idx)
    T.about("sort_proj %s %.300r by %d keys of %d: %.900r" % (ti, idx, nk, m, kv))
    if nk > 4:
        T.count("many_keys")
    check(p.sort_proj(*keys) is None, "sort_proj-result", "")
    got = list(p)
    check(Counter(got) == Counter(idx) and len(got) == len(idx), "sort_proj-permutation", lambda: "%.400r" % (got,))
    rows = [tuple(k[j] for k in kv) for j in got]
    check(all(rows[j] <= rows[j + 1] for j in range(len(rows) - 1)), "sort_proj-order", lambda: "%.400r" % (got,))
    T.count("projected")
    if len(set(rows)) < len(set(got)):
        T.count("ties")
    for k, it in zip(keys, kv):
        check(list(k) == it, "key-changed", "")

    # refusals: nothing is changed
    T.about("refusals %s %.300r by %d keys of %d" % (ti, idx, nk, m))
    bad = [x for x in (m, m + 1, -1, RANGES[ti][1], RANGES[ti][0], m + 2 ** 32, m - 2 ** 32, 2 ** 63, 2 ** 64 - m) if RANGES[ti][0] <= x <= RANGES[ti][1] and not 0 <= x < m]
    if bad:
        y = list(idx)
        y.insert(r.randint(0, len(y)), r.choice(bad))
        refused(prim(ti, y), y, keys, ValueError, T)
    if nk > 1:
        y = list(keys)
        z = r.randrange(nk)
        y[z] = y[z][:m - 1] if m > 1 else prim("i8", [1, 2])
        refused(prim(ti, idx), idx, y, ValueError, T)
    y = list(keys)
    y[r.randrange(nk)] = r.choice([lambda: [1] * m, lambda: None, lambda: pointless.Pointless(pointless.serialize_to_buffer(["a"] * m)).GetRoot(), lambda: bytearray(m), lambda: 5])()
    refused(prim(ti, idx), idx, y, ValueError, T)
    refused(prim("f", [0.0]), [0.0], keys, ValueError, T)
    refused(prim(ti, idx), idx, [], TypeError, T)
    refused(prim(ti, idx), idx, [keys[0]] * 17, TypeError, T)
    if idx:
        e = r.choice([prim("u8", []), keys[0][:0], pointless.Pointless(pointless.serialize_to_buffer([])).GetRoot()])
        refused(prim(ti, idx), idx, [e], ValueError, T)
    T.ev()
    if n > 1 or pn > 1:
        T.key((t, pat, n, ti, nk, m, pn))
    if i < 2:
        T.sample("%s %.100r; %s %.100r by %.200r" % (t, xs, ti, idx, kv))


def refused(p, idx, keys, kind, T):
    try:
        p.sort_proj(*keys)
    except kind:
        T.count("refused")
        check(list(p) == idx, "refused-but-changed", "")
        return
    raise Violation("not-refused", "%.300r by %d keys" % (idx, len(keys)))
