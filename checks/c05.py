"""C05: a stored map behaves as the dict it was made from."""
import fmt
import pointless
from gen import *
from keyed import *
from wk import Violation, check

CASES = {"quick": 2600, "thorough": 80000}
RULE = ("one case = one dict of up to 400 keys (random, colliding in the whole hash, colliding in their low bits, numerically equal spellings, table sizes around "
        "powers of two), stored by the library or by an independent writer of the format; every key is looked up in every spelling of it which is equal, as a "
        "stored value, and with near misses, missing keys and unhashable keys; the oracle is a Python dict; non-trivial = at least two keys; "
        "distinct by the hashes of the keys in order")
MUST_OBSERVE = ("hits", "misses", "collisions", "foreign", "refused", "deep_keys")
MIN_EVAL = 500
MISSING = object()
UNHASHABLE = [lambda: [1], lambda: {}, lambda: set(), lambda: 2 ** 40, lambda: -2 ** 40, lambda: b"a", lambda: object(), lambda: 1j, lambda: ([],), lambda: bytearray(b"a")]


def foreign(r, ks, vs=None):
    """the same table written by the independent encoder, with the heap in any order and 64-bit keys"""
    e = fmt.Enc()

    def put(k):
        if isinstance(k, bool):
            return (fmt.BOOL, int(k))
        if k is None:
            return (fmt.NULL, 0)
        if isinstance(k, int):
            return (fmt.I32, k & M32) if k < 0 or k < 2 ** 31 and r.random() < .5 else (fmt.U32, k)
        if isinstance(k, float):
            return e.f(f32(k))
        if isinstance(k, str):
            return e.string(k, wide=any(ord(c) > 255 for c in k) or r.random() < .3)
        if isinstance(k, BITVS):
            return e.bits(bits_of(k)) if len(k) else (fmt.BITS_0, 0)
        items = list(k) if isinstance(k, tuple) else pv_items(k)
        if not items:
            return (fmt.V_EMPTY, 0)
        if isinstance(k, PointlessPrimVector):
            return e.prim(fmt.PRIM_OF[k.typecode], items)
        if all(type(x) is int for x in items) and r.random() < .6:
            fit = [t for t in RANGES if all(RANGES[t][0] <= x <= RANGES[t][1] for x in items)]
            if fit:
                return e.prim(fmt.PRIM_OF[r.choice(fit)], items)
        return e.vector([put(x) for x in items])
    hs = [fmt.hash_key(eq_form(k)) for k in ks]
    keys = [put(k) for k in ks]
    root = e.map(hs, keys, [put(v) for v in vs]) if vs is not None else e.set(hs, keys)
    return pointless.Pointless(bytearray(e.finish(root, shuffle=r, gap=2)))


def lookup(m, k):
    """what the map says about k, all ways of asking it agreeing"""
    inn = k in m
    try:
        v = m[k]
    except KeyError:
        v = MISSING
    g = m.get(k)
    d = m.get(k, MISSING)
    check(type(inn) is bool and inn == (v is not MISSING), "ways-of-lookup", lambda: "in gives %r, [] gives %r for %r" % (inn, v, k))
    check((d is MISSING) == (v is MISSING), "ways-of-lookup", lambda: "get with default %r, [] %r for %r" % (d, v, k))
    check(v is not MISSING or g is None, "ways-of-lookup", lambda: "get %r for %r" % (g, k))
    if v is not MISSING:
        for w in (g, d):
            check(type(w) is type(v) and (fbits(w) == fbits(v) if isinstance(v, float) else w == v or isinstance(v, PointlessVector) and list(w) == list(v)), "ways-of-lookup",
                  lambda: "values %r, %r" % (v, w))
    return v


def refuses(f, what):
    try:
        x = f()
    except (ValueError, TypeError):
        return
    raise Violation("unhashable-key-accepted", "%s gave %r" % (what, x))


def case(i, r, T):
    g = G(r)
    ks = key_set(r, g)
    if r.random() < .04:
        ks += {eqkey(k): k for k in (deep_key(r) for _ in range(3))}.values()
        T.count("deep_keys")
    vs = [j if r.random() < .7 else g.scalar(nan=False) for j in range(len(ks))]
    T.about("keys %.1500r" % (ks,))
    model = {eqkey(k): v for k, v in zip(ks, vs)}
    src = dict(zip(ks, vs))
    if r.random() < .25:
        T.count("foreign")
        p = foreign(r, ks, vs)
        m = p.GetRoot()
    else:
        key = r.random() < .3
        p = store([src, ks] if key else src, r, T)
        m = p.GetRoot()[0] if key else p.GetRoot()
        if key:
            # the stored values themselves, of this file and another, are keys
            for q in (p, store([0, ks], r, T)):
                for j, k in enumerate(q.GetRoot()[1]):
                    check(not is_diff(lookup(m, k), vs[j]), "stored-key", lambda: "key %r" % (ks[j],))
                    T.count("hits")
    check(len(m) == len(ks), "len", "%d != %d" % (len(m), len(ks)))
    hs = [fmt.hash_key(eq_form(k)) for k in ks]
    T.count("collisions", len(hs) - len(set(hs)))
    for j, k in enumerate(ks):
        for s in spellings(k, r):
            v = lookup(m, s)
            T.count("hits")
            check(v is not MISSING, "key-not-found", lambda: "%r as %r" % (k, s))
            check(not is_diff(v, vs[j]), "wrong-value", lambda: "%r as %r gives %r not %r" % (k, s, v, vs[j]))
        if has_prim(k):
            try:
                v = m[k]
                check(not is_diff(v, vs[j]), "wrong-value", lambda: "%r" % (k,))
            except ValueError:
                T.count("primvector_lookup_refused")
    for k in r.sample(ks, min(len(ks), 12)) + [g.key() for _ in range(6)]:
        for s in [k] + near_misses(k, r, g):
            if not usable(s):
                continue
            v = lookup(m, s)
            e = model.get(eqkey(s), MISSING)
            T.count("misses" if e is MISSING else "hits")
            check((v is MISSING) == (e is MISSING), "wrong-membership", lambda: "%r: %r, expected %r" % (s, v, e))
            check(v is MISSING or not is_diff(v, e), "wrong-value", lambda: "%r: %r, expected %r" % (s, v, e))
    # iteration
    a, b, c, d = list(m), list(m.keys()), list(m.values()), list(m.items())
    T.ev()
    check(len(a) == len(b) == len(c) == len(d) == len(ks), "iteration-length", "%d %d %d %d" % (len(a), len(b), len(c), len(d)))
    want = {canon_key(k): v for k, v in src.items()}
    seen = set()
    for x, y, z, (k, v) in zip(a, b, c, d):
        cx = canon_key(k)
        check(cx == canon_key(x) == canon_key(y), "iteration-order", lambda: "%r %r %r" % (x, y, k))
        check(not is_diff(z, v), "iteration-order", lambda: "values %r %r" % (z, v))
        check(cx in want and cx not in seen, "iterated-keys", lambda: "%r" % (k,))
        seen.add(cx)
        check(not is_diff(v, want[cx]), "iterated-value", lambda: "%r: %r" % (k, v))
    for it in (iter(m), m.keys(), m.items(), m.values()):
        k = r.randint(0, len(ks))
        for _ in range(k):
            next(it)
        rest = list(it)
        check(len(rest) == len(ks) - k, "iterator-resume", "%d after %d of %d" % (len(rest), k, len(ks)))
        check(next(it, MISSING) is MISSING, "iterator-exhausted", "")
    f = r.choice(UNHASHABLE)()
    for q, what in ((lambda: f in m, "in"), (lambda: m[f], "[]"), (lambda: m.get(f), "get"), (lambda: m.get(f, 1), "get")):
        refuses(q, "%s %r" % (what, f))
        T.count("refused")
    if len(ks) > 1:
        T.key(hs)
    if i < 2:
        T.sample("%.300r" % (ks,))


def is_diff(got, v):
    """does a looked up value differ from the scalar or key it was stored as"""
    if got is MISSING:
        return True
    try:
        same(v, got)
    except Differ:
        return True
    return False
