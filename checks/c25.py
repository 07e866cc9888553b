"""C25: the Judy arrays which come with the library."""
import bisect

from capi import *
from wk import check, Violation

VARIANT = "capi"
JUDY_SAN = True
CASES = {"quick": 3000, "thorough": 120000}
RULE = ("one case = one history of a few hundred to thousands of insertions, deletions, changes and queries of one JudyL, Judy1, JudySL or JudyHS array, with keys which are dense, random, clustered at any byte of the "
        "word, at the limits, or have common prefixes, growing and shrinking through the sizes at which the representation changes, some while the allocator refuses requests; every result is compared with a sorted "
        "list, and the whole array at the end; non-trivial = more than ten keys; distinct by history")
MUST_OBSERVE = ("JudyL", "Judy1", "JudySL", "JudyHS", "inserted", "deleted", "neighbours", "empty_neighbours", "counts", "by_count", "bulk", "out_of_memory", "emptied", "large")
MIN_EVAL = 300
ASSUMPTIONS = ["JudySL and JudyHS, which are made of several JudyL arrays, are not run out of memory; nor is deletion"]
TOP = 2 ** 64 - 1
JERR = TOP



def bind():
    W, WP, A, AP = c_uint64, POINTER(c_uint64), c_void_p, POINTER(c_void_p)
    for j, res in (("JudyL", WP), ("Judy1", c_int)):
        for s in ("First", "Next", "Last", "Prev"):
            sig(j + s, res, A, WP, c_void_p)
            sig(j + s + "Empty", c_int, A, WP, c_void_p)
        sig(j + "Count", W, A, W, W, c_void_p)
        for s in ("MemUsed", "MemActive"):
            sig(j + s, W, A)
        sig(j + "FreeArray", W, AP, c_void_p)
    sig("JudyLGet", WP, A, W, c_void_p)
    sig("JudyLIns", WP, AP, W, c_void_p)
    sig("JudyLDel", c_int, AP, W, c_void_p)
    sig("JudyLByCount", WP, A, W, WP, c_void_p)
    sig("JudyLInsArray", c_int, AP, W, WP, WP, c_void_p)
    sig("Judy1Test", c_int, A, W, c_void_p)
    sig("Judy1Set", c_int, AP, W, c_void_p)
    sig("Judy1Unset", c_int, AP, W, c_void_p)
    sig("Judy1ByCount", c_int, A, W, WP, c_void_p)
    sig("Judy1SetArray", c_int, AP, W, WP, c_void_p)
    sig("JudySLGet", WP, A, c_char_p, c_void_p)
    sig("JudySLIns", WP, AP, c_char_p, c_void_p)
    sig("JudySLDel", c_int, AP, c_char_p, c_void_p)
    sig("JudySLFreeArray", W, AP, c_void_p)
    for s in ("First", "Next", "Last", "Prev"):
        sig("JudySL" + s, WP, A, c_char_p, c_void_p)
    sig("JudyHSGet", WP, A, c_void_p, W)
    sig("JudyHSIns", WP, AP, c_void_p, W, c_void_p)
    sig("JudyHSDel", c_int, AP, c_void_p, W, c_void_p)
    sig("JudyHSFreeArray", W, AP, c_void_p)


def setup(T):
    bind()


def words(r):
    """a source of keys"""
    base = r.choice([0, 0, 0, TOP - 300, 2 ** 63, 2 ** 32 - 150, 2 ** 32, r.getrandbits(64), r.getrandbits(64) & ~0xff, r.getrandbits(40) << 16])
    k = r.random()
    if k < .2:
        n = r.choice([8, 40, 200, 300, 1000, 5000])
        return lambda: (base + r.randrange(n)) & TOP
    if k < .3:
        return lambda: r.getrandbits(64)
    if k < .6:
        # each byte from few or many
        al = [r.choice([[0], [r.randrange(256)], [0, 255], [r.randrange(256) for _ in range(4)], list(range(r.randrange(200), 256)), list(range(256))]) for _ in range(8)]
        while sum(len(a) > 1 for a in al) == 0:
            al[r.randrange(8)] = list(range(256))
        return lambda: sum(r.choice(a) << (8 * j) for j, a in enumerate(al))
    if k < .75:
        step = r.choice([2, 3, 256, 257, 65536, 2 ** 24, 2 ** 32, 2 ** 40 + 1, 2 ** 56])
        n = r.choice([10, 100, 600])
        return lambda: (base + step * r.randrange(n)) & TOP
    if k < .9:
        centres = [r.getrandbits(64) for _ in range(r.choice([2, 5, 30]))]
        w = r.choice([4, 16, 256, 2 ** 12])
        return lambda: (r.choice(centres) + r.randrange(w)) & TOP
    b = r.choice([8, 12, 16, 24])
    return lambda: r.choice([r.getrandbits(b), TOP - r.getrandbits(b), r.getrandbits(r.randint(1, 64))])


def strings(r):
    pre = [bytes(r.choice(b"ab\xff\x01") for _ in range(r.choice([0, 1, 7, 8, 9, 15, 16, 17, 30]))) for _ in range(r.choice([1, 2, 4]))]
    al = r.choice([b"ab", b"\x01\xff", bytes(range(1, 256)), b"0123456789", b"\x7f\x80"])
    n = r.choice([3, 8, 9, 20])

    def one():
        return r.choice(pre) + bytes(r.choice(al) for _ in range(r.randint(0, n)))
    return one


def blobs(r):
    s, al = r.choice([0, 1, 3, 5, 9, 20]), r.choice([b"\0\1", b"\0", bytes(range(256)), b"ab"])
    pre = r.randbytes(r.choice([0, 0, 4, 8, 9, 40, 300]))
    return lambda: (pre[:r.choice([len(pre)] * 5 + [8, 4, 0])] + bytes(r.choice(al) for _ in range(r.randint(0, s + 2))))


class Arr:
    """an array and its model"""

    def __init__(self, kind):
        self.kind, self.a, self.m, self.s = kind, c_void_p(), {}, []
        self.ref = byref(self.a)

    def fn(self, name):
        return getattr(L, self.kind + name)

    def jerr(self):
        return None

    def get(self, k):
        if self.kind == "Judy1":
            return L.Judy1Test(self.a, k, None) or None
        if self.kind == "JudyHS":
            p = L.JudyHSGet(self.a, k, len(k))
        else:
            p = self.fn("Get")(self.a, k, None)
        return p[0] if p else None

    def ptr(self, p):
        """a pointer to a value, or None when memory ran out"""
        if ctypes.cast(p, c_void_p).value == JERR:
            return None
        check(p, "no-value", "")
        return p

    def ins(self, k, v):
        """False if memory ran out"""
        new = k not in self.m
        if self.kind == "Judy1":
            ok = L.Judy1Set(self.ref, k, None)
            if ok == -1:
                return False
            check(ok == int(new), "set-result", "%d" % ok)
            v = 1
        else:
            p = self.ptr(L.JudyHSIns(self.ref, k, len(k), None) if self.kind == "JudyHS" else self.fn("Ins")(self.ref, k, None))
            if p is None:
                return False
            check(p[0] == self.m.get(k, 0), "value-of-insertion", lambda: "%d, not %d" % (p[0], self.m.get(k, 0)))
            p[0] = v
        self.m[k] = v
        if new:
            bisect.insort(self.s, k)
        return True

    def delete(self, k):
        old = k in self.m
        if self.kind == "JudyHS":
            ok = L.JudyHSDel(self.ref, k, len(k), None)
        elif self.kind == "Judy1":
            ok = L.Judy1Unset(self.ref, k, None)
        else:
            ok = self.fn("Del")(self.ref, k, None)
        if ok == -1:
            return False
        check(ok == int(old), "deletion-result", "%d" % ok)
        if old:
            del self.m[k]
            self.s.pop(bisect.bisect_left(self.s, k))
        return True

    def neighbour(self, k, how):
        i = bisect.bisect_left(self.s, k) if how in ("First", "Prev") else bisect.bisect_right(self.s, k)
        if how in ("Last", "Prev"):
            i -= 1
        e = self.s[i] if 0 <= i < len(self.s) else None
        if self.kind == "JudySL":
            b = ctypes.create_string_buffer(k, 96)
            p = self.fn(how)(self.a, b, None)
            got = b.value
        else:
            x = c_uint64(k)
            p = self.fn(how)(self.a, byref(x), None)
            got = x.value
        if e is None:
            check(not p, "neighbour-of:" + how, lambda: "%r of %r, not none" % (got, k))
        else:
            check(p and got == e, "neighbour:" + how, lambda: "%r of %r, not %r" % (got, k, e))
            if self.kind != "Judy1":
                check(p[0] == self.m[e], "neighbour-value:" + how, lambda: "%d not %d" % (p[0], self.m[e]))

    def empty(self, k, how):
        d = 1 if how in ("First", "Next") else -1
        e = k + d if how in ("Next", "Prev") else k
        while 0 <= e <= TOP and e in self.m:
            e += d
        x = c_uint64(k)
        ok = self.fn(how + "Empty")(self.a, byref(x), None)
        if not 0 <= e <= TOP:
            check(ok == 0, "empty-neighbour-of:" + how, lambda: "%d of %d" % (x.value, k))
        else:
            check(ok == 1 and x.value == e, "empty-neighbour:" + how, lambda: "%d %d of %d, not %d" % (ok, x.value, k, e))

    def counts(self, a, b):
        lo, hi = bisect.bisect_left(self.s, a), bisect.bisect_right(self.s, b)
        got = self.fn("Count")(self.a, a, b, None)
        check(got == max(0, hi - lo), "count", lambda: "%d to %d: %d, not %d" % (a, b, got, hi - lo))

    def by_count(self, n):
        x = c_uint64(77)
        p = self.fn("ByCount")(self.a, n, byref(x), None)
        if 1 <= n <= len(self.s):
            check(p and x.value == self.s[n - 1], "by-count", lambda: "%d: %d, not %d" % (n, x.value, self.s[n - 1]))
            if self.kind == "JudyL":
                check(p[0] == self.m[x.value], "by-count-value", "")
        else:
            check(not p, "by-count-none", "%d" % n)

    def all(self):
        """everything, in order, both ways"""
        for k, v in self.m.items():
            check(self.get(k) == v, "lookup", lambda: "%r: %r, not %r" % (k, self.get(k), v))
        if self.kind == "JudyHS":
            return
        for first, nxt, s in (("First", "Next", self.s), ("Last", "Prev", self.s[::-1])):
            got = []
            if self.kind == "JudySL":
                b = ctypes.create_string_buffer(b"" if first == "First" else b"\xff" * 80, 96)
                p = self.fn(first)(self.a, b, None)
                while p and len(got) <= len(s):
                    got.append(b.value)
                    p = self.fn(nxt)(self.a, b, None)
            else:
                x = c_uint64(0 if first == "First" else TOP)
                q = byref(x)
                p = self.fn(first)(self.a, q, None)
                f = self.fn(nxt)
                while p and len(got) <= len(s):
                    got.append(x.value)
                    p = f(self.a, q, None)
            check(got == s, "traversal:" + first, lambda: "%d keys, not %d: %r" % (len(got), len(s), sorted(set(got) ^ set(s))[:5]))
        if self.kind != "JudySL":
            check(self.fn("Count")(self.a, 0, TOP, None) == len(self.s), "count-all", "")
            used = self.fn("MemUsed")(self.a)
            check((used > 0) == (len(self.s) > 0) and self.fn("MemActive")(self.a) <= used, "mem-used", "%d for %d keys" % (used, len(self.s)))

    def free(self):
        used = self.fn("MemUsed")(self.a) if self.kind in ("JudyL", "Judy1") else None
        n = self.fn("FreeArray")(self.ref, None)
        check(self.a.value is None, "not-freed", "")
        check(n == used or used is None, "freed-bytes", lambda: "%d, %d were used" % (n, used))
        self.m, self.s = {}, []


def case(i, r, T):
    kind = ("JudyL", "Judy1", "JudyL", "Judy1", "JudySL", "JudyHS")[i % 6]
    key = words(r) if kind in ("JudyL", "Judy1") else strings(r) if kind == "JudySL" else blobs(r)
    before = Alloc.live.value
    A = Arr(kind)
    n = r.choice([30, 100, 300, 700, 1500]) if T.tier == "quick" or r.random() < .8 else 20000
    oom = kind in ("JudyL", "Judy1") and r.random() < .3
    h = 0
    if kind in ("JudyL", "Judy1") and r.random() < .2:
        ks = sorted({key() for _ in range(r.choice([0, 1, 2, 5, 30, 31, 32, 300, 2000]))})
        ka = (c_uint64 * (len(ks) or 1))(*ks)
        vs = [r.getrandbits(64) for _ in ks]
        if kind == "JudyL":
            ok = L.JudyLInsArray(A.ref, len(ks), ka, (c_uint64 * (len(ks) or 1))(*vs), None)
        else:
            ok = L.Judy1SetArray(A.ref, len(ks), ka, None)
            vs = [1] * len(ks)
        check(ok == 1, "bulk", "%d for %d" % (ok, len(ks)))
        A.m, A.s = dict(zip(ks, vs)), ks
        A.all()
        T.count("bulk")
    grow, top = True, r.choice([5, 20, 40, 100, 400, n])
    near = key()
    fails = 0
    for j in range(n):
        if grow and len(A.s) >= top:
            grow = r.random() < .3
        elif not grow and len(A.s) <= r.choice([0, 0, 3, 20]):
            grow, top = True, r.choice([5, 20, 40, 100, 400, n])
            if not A.s:
                check(A.a.value is None, "empty-not-null", "")
                T.count("emptied")
        k = r.random()
        x = key() if r.random() < .6 or not A.s else r.choice(A.s)
        if oom and k < (.6 if grow else .15) and r.random() < .2:
            Alloc.seen.value, Alloc.fail_at.value, Alloc.later.value = 0, r.choice([0, 0, 1, 2, 5]), r.random() < .5
        if k < (.6 if grow else .15):
            x = key() if r.random() < .8 else x
            op, ok = "ins", A.ins(x, r.getrandbits(64))
            T.count("inserted", int(ok))
        elif k < .75:
            x = r.choice(A.s) if A.s and r.random() < .85 else x
            op, ok = "del", A.delete(x)
            T.count("deleted", int(ok))
        else:
            op, ok = "", True
        failed, Alloc.fail_at.value = Alloc.fail_at.value >= 0, -1
        h = hash((h, op, x))
        if not ok:
            check(failed, "failed:" + op, lambda: "%r" % (x,))
            T.count("out_of_memory")
            # nothing has happened
            check(A.get(x) == A.m.get(x), "changed-by-failure:" + op, lambda: "%r: %r, was %r" % (x, A.get(x), A.m.get(x)))
            fails += 1
            if r.random() < .1:
                A.all()
        elif op:
            check(A.get(x) == A.m.get(x), "after:" + op, lambda: "%r: %r, not %r" % (x, A.get(x), A.m.get(x)))
        if k > .7:
            if kind != "JudyHS":
                A.neighbour(x, r.choice(["First", "Next", "Last", "Prev"]))
                T.count("neighbours")
            y = key()
            check(A.get(y) == A.m.get(y), "lookup", lambda: "%r: %r, not %r" % (y, A.get(y), A.m.get(y)))
            if kind in ("JudyL", "Judy1"):
                y = r.choice([x, y, 0, TOP, (x + 1) & TOP, (x - 1) & TOP])
                A.empty(y, r.choice(["First", "Next", "Last", "Prev"]))
                A.counts(min(x, y), max(x, y))
                A.by_count(r.choice([1, len(A.s), len(A.s) + 1, r.randint(1, len(A.s) + 1)]))
                T.count("empty_neighbours")
                T.count("counts")
                T.count("by_count")
    A.all()
    T.ev()
    T.count(kind)
    if len(A.s) > 300:
        T.count("large")
    if n > 10:
        T.key((kind, h))
    size = len(A.s)
    if r.random() < .3:
        for k in r.sample(A.s, len(A.s)):
            A.delete(k)
            if len(A.s) in (1, 2, 31, 32, 100):
                A.all()
        check(A.a.value is None, "empty-not-null", "")
        T.count("emptied")
    A.free()
    check(Alloc.live.value <= before, "leak", lambda: "%d allocations live" % (Alloc.live.value - before))
    if i < 6:
        T.sample("%s, %d operations, %d keys at the end, %d failed" % (kind, n, size, fails))
