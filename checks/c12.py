"""C12: a bitvector behaves as the list of its bits, however it is stored."""
import gc

import fmt
import pointless
from gen import *
from wk import Violation, check

CASES = {"quick": 2500, "thorough": 90000}
RULE = ("one case = a history of up to 60 operations (append, extend, append_bulk from other bitvectors and itself, pop, item assignment, copies, prefix/postfix counts, "
        "IsAnySet, iteration, comparison, hash, storing and reading back) on a pool of bitvectors: mutable ones, stored ones of each storage class (constant runs, packed, "
        "full; written by the library or by the independent encoder); sizes around 27 bits, bytes, words and 65536; the oracle is a list of bools; "
        "non-trivial = at least 5 operations; distinct by sizes and operations")
MUST_OBSERVE = ("stored", "foreign", "readonly_refused", "value_refused", "self_append", "hash_equal", "compare", "copied", "restored", "popped", "iter_step", "large", "drained", "big")
MIN_EVAL = 500


def run_of(m, v, end):
    n = 0
    for x in (reversed(m) if end else m):
        if x is not v:
            break
        n += 1
    return n


def whole(v, m):
    check(len(v) == len(m) and bool(v) == bool(m), "length", lambda: "%d not %d" % (len(v), len(m)))
    check(bits_of(v) == tuple(m), "bits", lambda: "%s not %s" % ("".join("01"[x] for x in bits_of(v))[:600], "".join("01"[x] for x in m)[:600]))
    check(all(x is y for x, y in zip(v, m)) and len(list(v)) == len(m), "iteration", "")
    got = (v.NumZeroPrefix(), v.NumZeroPostfix(), v.NumOnePrefix(), v.NumOnePostfix(), v.IsAnySet())
    want = (run_of(m, False, 0), run_of(m, False, 1), run_of(m, True, 0), run_of(m, True, 1), any(m))
    check(got == want and type(got[4]) is bool, "counts", lambda: "%r not %r" % (got, want))


def err(f, *kinds):
    try:
        x = f()
    except kinds:
        return
    raise Violation("not-refused", "%r" % (x,))


def big(r, T):
    """some 2**19 bits and more; the model is an integer"""
    n = r.choice([524279, 524280, 524281, 524287, 524288, 524289, 700000, 1048576, 1048577])
    log = [n]

    def same(v, n, x):
        check(len(v) == n, "length", lambda: "%d not %d" % (len(v), n))
        want = bin(x)[2:].zfill(n) + "b" if n else "b"
        got = str(v)
        check(got == want, "bits", lambda: "%d bits, first difference at %d; %r" % (n, next((j for j in range(min(len(got), len(want))) if got[-2 - j] != want[-2 - j]), -1), log))
        full = (1 << n) - 1
        zp = (x & -x).bit_length() - 1 if x else n
        op = (~x & x + 1).bit_length() - 1
        y = full ^ x
        got = (v.NumZeroPrefix(), v.NumZeroPostfix(), v.NumOnePrefix(), v.NumOnePostfix(), v.IsAnySet())
        want = (zp, n - x.bit_length(), op, n - y.bit_length(), x != 0)
        check(got == want, "counts", lambda: "%r not %r: %r" % (got, want, log))
    k = r.randrange(4)
    if k == 0:
        v, x = PointlessBitvector(size=n), 0
    elif k == 1:
        v, x = PointlessBitvector(sequence=b"\1" * n), (1 << n) - 1
    else:
        x = r.getrandbits(n)
        v = PointlessBitvector(sequence=[c == "1" for c in reversed(bin(x)[2:].zfill(n))])
    old = []
    for _ in range(r.randint(1, 7)):
        op = r.choice(["set", "set", "append", "extend_true", "extend_false", "pop", "copy", "bulk", "store"])
        log.append(op)
        if op == "set":
            for _ in range(20):
                j, b = r.choice([r.randrange(n), n - 1, 0, r.choice([65535, 65536, 524287, 524288 - 8]) % n]), r.random() < .5
                v[r.choice([j, j])] = b
                x = x | 1 << j if b else x & ~(1 << j)
        elif op == "append":
            for _ in range(r.choice([1, 8, 17])):
                b = r.random() < .5
                v.append(b)
                x |= b << n
                n += 1
        elif op in ("extend_true", "extend_false"):
            m = r.choice([0, 1, 7, 8, 65535, 65537, 524288])
            getattr(v, op)(m)
            if op == "extend_true":
                x |= ((1 << m) - 1) << n
            n += m
        elif op == "pop":
            for _ in range(r.choice([1, 9])):
                b = v.pop()
                n -= 1
                check(b is bool(x >> n & 1), "pop", "")
                x &= (1 << n) - 1
        elif op == "copy":
            old.append((v, n, x))
            v = v.copy()
        elif op == "bulk":
            w = old[-1] if old and r.random() < .5 else (v, n, x)
            v.append_bulk(w[0])
            x |= w[2] << n
            n += w[1]
        else:
            p = store([v, 1], r, T)
            q = p.GetRoot()[0]
            same(q, n, x)
            check(pointless.pyobject_hash(q) == pointless.pyobject_hash(v), "hash-representation", "")
            check(q == v and pointless.pointless_cmp(q, v) == 0, "compare", "")
            if r.random() < .5:
                old.append((q, n, x))
                v = q.copy()
        same(v, n, x)
        if n > 3000000:
            break
    for o in old:
        same(*o)
    T.count("big")
    T.key(log)
    T.ev()


def case(i, r, T):
    if i % 100 == 7:
        return big(r, T)
    g = G(r)
    pool = []     # [bitvector, model, mutable]
    its = []
    log = []
    if i % 80 == 0:
        n = r.choice([65535, 65536, 65537, 100000])
        m = r.choice([lambda: [False] * n, lambda: [True] * n, lambda: [False] * (n - 65536) + [True] * 65536 if n > 65536 else [True] * n, lambda: [r.random() < .5 for _ in range(n)]])()
        pool.append([PointlessBitvector(sequence=m), m, True])
        T.count("large")
    sizes = []

    def new(m):
        k = r.randrange(6)
        if k == 0:
            return [PointlessBitvector(sequence=m), list(m), True]
        if k == 1:
            return [PointlessBitvector(sequence=[r.choice([int(x), bool(x)]) for x in m]), list(m), True]
        if k == 2:
            v = PointlessBitvector(size=len(m))
            for j, x in enumerate(m):
                if x:
                    v[j] = r.choice([1, True])
            return [v, list(m), True]
        if k == 3 and len(m):
            T.count("foreign")
            e = fmt.Enc()
            h = e.bits(m)
            return [pointless.Pointless(bytearray(e.finish(e.vector([h, h]), shuffle=r, gap=2))).GetRoot()[0], list(m), False]
        T.count("stored")
        v = PointlessBitvector(sequence=m)
        if r.random() < .5:
            return [store([v, 1], r, T, normalize_bitvector=r.random() < .5).GetRoot()[0], list(m), False]
        return [store(v, r, T).GetRoot(), list(m), False]
    for _ in range(r.choice([1, 2, 3])):
        m = [x for x in g.bits()]
        if len(m) > 60000:
            m = m[:400]
        sizes.append(len(m))
        pool.append(new(m))
    for _ in range(r.randint(5, 60) if len(pool[0][1]) < 60000 else 6):
        e = r.choice(pool)
        v, m, mut = e
        n = len(m)
        op = r.randrange(16)
        log.append(op)
        T.about("ops %r now %s (mutable %r)" % (log, "".join("01"[x] for x in m)[:300], mut))
        T.ev()
        if op <= 1:
            x = r.random() < .5
            if mut:
                check(v.append(x) is None, "append-result", "")
                m.append(x)
                err(lambda: v.append(r.choice([1, 0, None, "1", 1.0])), TypeError)
            else:
                err(lambda: v.append(x), ValueError)
                T.count("readonly_refused")
        elif op == 2:
            k = r.choice([0, 1, 7, 8, 9, 26, 27, 28, 64, 100])
            x = r.random() < .5
            f = v.extend_true if x else v.extend_false
            if mut:
                f(k)
                m.extend([x] * k)
                err(lambda: f(-1), ValueError)
                err(lambda: f(2 ** 31), OverflowError)
                err(lambda: f("1"), TypeError)
            else:
                err(lambda: f(k), ValueError)
                T.count("readonly_refused")
        elif op <= 4:
            o = r.choice(pool)
            if len(o[1]) > 3000 or n > 60000:
                continue
            om = list(o[1])
            if mut:
                v.append_bulk(o[0])
                m.extend(om)
                if o is e:
                    T.count("self_append")
                err(lambda: v.append_bulk([True]), TypeError)
            else:
                err(lambda: v.append_bulk(o[0]), ValueError)
                T.count("readonly_refused")
        elif op <= 6:
            if not mut:
                err(v.pop, ValueError)
                T.count("readonly_refused")
            elif not m:
                err(v.pop, IndexError)
            else:
                for _ in range(r.choice([1, 1, 3, 9])):
                    if m:
                        x = m.pop()
                        check(v.pop() is x, "pop", "")
                        T.count("popped")
        elif op <= 8:
            j = r.choice([r.randint(-n - 2, n + 1), 0, -1, n, n - 1, -n, -n - 1, 2 ** 32, 2 ** 32 + 1, -2 ** 32, 2 ** 63 - 1, -2 ** 63, 2 ** 70])
            x = r.choice([True, False, 1, 0])
            if -n <= j < n:
                check(v[j] is m[j], "item", lambda: "[%d]" % j)
            else:
                err(lambda: v[j], IndexError)
            if mut:
                if -n <= j < n:
                    v[j] = x
                    m[j] = bool(x)
                    y = r.choice([2, -1, None, "1", 2 ** 70, 1.0, [], 256])
                    err(lambda: v.__setitem__(j, y), ValueError, TypeError, OverflowError)
                    err(lambda: v.__delitem__(j), TypeError)
                    T.count("value_refused")
                else:
                    err(lambda: v.__setitem__(j, x), IndexError)
            else:
                err(lambda: v.__setitem__(j, x), ValueError)
                T.count("readonly_refused")
            y = r.choice([1.0, "1", None, slice(0, 1)])
            err(lambda: v[y], TypeError)
        elif op == 9:
            c = v.copy()
            check(type(c) is PointlessBitvector, "copy-type", "")
            whole(c, m)
            if r.random() < .5:
                pool.append([c, list(m), True])
            else:
                # a copy is independent
                c.append(True)
                if n:
                    c[0] = not m[0]
            T.count("copied")
        elif op == 10:
            its.append([iter(v), e, 0])
        elif op == 11 and its:
            h = r.choice(its)
            for _ in range(r.randint(1, 9)):
                x = next(h[0], its)
                if h[2] is None or h[2] >= len(h[1][1]):
                    # it stays at its end
                    check(x is its, "iterator-end", "")
                    h[2] = None
                else:
                    check(x is h[1][1][h[2]], "iterator", "")
                    h[2] += 1
            T.count("iter_step")
        elif op == 12:
            o = r.choice(pool)
            om = o[1]
            if r.random() < .5:
                om = list(m)
                if om and r.random() < .7:
                    j = r.randrange(len(om))
                    om = r.choice([om[:j], om[:j] + [not om[j]] + om[j + 1:], om + [False], om + [True]])
                o = new(om)
            for nm, a, b in (("==", v == o[0], m == om), ("!=", v != o[0], m != om), ("<", v < o[0], m < om), ("<=", v <= o[0], m <= om), (">", v > o[0], m > om), (">=", v >= o[0], m >= om)):
                check(a is b, "compare", lambda: "%s %s: %r" % (nm, "".join("01"[x] for x in om)[:300], a))
            T.count("compare")
            check((hash(v) == hash(o[0])) or m != om, "hash", lambda: "%s" % "".join("01"[x] for x in om)[:300])
            check((v == list(m)) is False and (v != m) is True, "compare-list", "")
            err(lambda: v < list(m), TypeError)
        elif op == 13:
            # every representation of the same bits
            hs = set()
            for _ in range(4):
                o = new(m)
                whole(o[0], m)
                check(o[0] == v, "equal", "")
                hs.add(hash(o[0]))
                hs.add(hash(o[0].copy()))
                check(pointless.pyobject_hash(o[0]) == pointless.pyobject_hash(v) == fmt.hash_bits(m), "pyobject_hash", "")
            hs.add(hash(v))
            check(len(hs) == 1, "hash-representation", lambda: "%r" % (hs,))
            T.count("hash_equal")
        elif op == 14:
            x = store([v, {v: 1}, {v}], r, T).GetRoot()
            whole(x[0], m)
            check(x[1][v] == 1 and v in x[2], "as-key", "")
            if r.random() < .4 and len(pool) < 6:
                pool.append([x[0], list(m), False])
            T.count("restored")
        else:
            err(lambda: PointlessBitvector(size=r.choice([-1, 2 ** 32, 2 ** 63, 1.0, "1", None])), ValueError, OverflowError, TypeError)
            err(lambda: PointlessBitvector(sequence=list(m) + [r.choice([2, -1, None, "1", 2 ** 70])]), ValueError)
            err(lambda: PointlessBitvector(size=1, sequence=[]), TypeError)
            err(lambda: PointlessBitvector(sequence=5), ValueError, TypeError)
            if mut and r.random() < .3:
                m2 = [x for x in g.bits()][:300]
                v.__init__(sequence=m2)
                m[:] = m2
        if len(m) < 3000 or r.random() < .2:
            whole(v, m)
        if r.random() < .02:
            pool[:] = r.sample(pool, max(1, len(pool) // 2))
            gc.collect()
    if pool and r.random() < .3 or len(pool[0][1]) > 60000:
        # a copy, or a mutable one, to its end and back
        v, m, mut = pool[0] if len(pool[0][1]) > 60000 else r.choice(pool)
        T.about("ops %r then drained of %d" % (log, len(m)))
        if not mut or r.random() < .7:
            v, m = v.copy(), list(m)
        left = sum(m)
        while m and len(m) + left < 300000:
            x = m.pop()
            left -= x
            if v.pop() is not x or v.IsAnySet() is not (left > 0):
                raise Violation("drained", "%d left, %d set" % (len(m), left))
        if not m:
            err(v.pop, IndexError)
            for x in [False] * r.choice([0, 1, 8, 9]) + [True, False]:
                v.append(x)
                m.append(x)
            whole(v, m)
            T.count("drained")
    if len(log) >= 5:
        T.key((sizes, log))
    if i < 2:
        T.sample("sizes %r ops %r" % (sizes, log))


def extra(D):
    D.giant("bits")
