"""C14: nothing leaks, whether a call succeeds or fails."""
import ctypes
import gc
import importlib
import os
import sys

import misuse
import pointless
from gen import *
from wk import Violation

CASES = {"quick": 1610, "thorough": 40000}
RULE = ("one case = one deterministic workload (a case of one of the other checks: stores, refusals, lookups, comparisons, histories of vectors and bitvectors, hostile files; or a session of "
        "arbitrary calls) which drops everything it made; it is run again and again, the bytes the allocator has handed out (AddressSanitizer's count), open file descriptors, mapped files and "
        "the reference counts of the module's types and of constants are compared between runs; a case leaks when every one of many consecutive runs leaves more behind; "
        "non-trivial = the workload called the library; distinct by workload and seed")
MUST_OBSERVE = ("runs", "stable", "c01", "c04", "c13", "misuse", "storing", "exceptions")
MIN_EVAL = 200
CASE_S = 150
ASSUMPTIONS = ["memory still reachable from a growing structure counts as leaked; caches which stop growing do not"]
WORK = ["c01", "c02", "c04", "c04", "c05", "c06", "c07", "c08", "c09", "c10", "c10", "c11", "c12", "c13", "c13", "misuse", "misuse", "misuse", "direct", "direct", "storing", "storing", "storing"]
CONST = [pointless.Pointless, pointless.PointlessVector, pointless.PointlessSet, pointless.PointlessMap, pointless.PointlessBitvector, pointless.PointlessPrimVector]
CONST_STR = "a constant used as a key \u1234"
CONST_T = (CONST_STR, 12345678, 1.5)
CONST_D = {CONST_STR: CONST_T, CONST_T: 7}


def setup(T):
    global allocated
    allocated = getattr(ctypes.CDLL(None), "__sanitizer_get_current_allocated_bytes")
    allocated.restype = ctypes.c_size_t


class Null:
    """a tally which remembers nothing"""

    def __init__(self, T):
        self.tmp, self.tier, self.seed, self.note, self.raised = T.tmp, T.tier, T.seed, "", 0

    def ev(self, n=1):
        pass

    count = key = sample = about = lambda self, *a: None


def direct(i, r, N):
    """single calls, many of which fail, on constants"""
    P, S = pointless.Pointless, pointless.serialize_to_bytearray
    f = os.path.join(N.tmp, "lk-%d" % os.getpid())
    short = f + "-short"
    with open(short, "wb") as h:
        h.write(bytes(S(CONST_D))[:r.choice([0, 0, 1, 31, 32, 40, 60])])
    v = P(S([1, "a", CONST_T, CONST_D, {1, 2}, prim("u8", [1, 2, 3]), PointlessBitvector(sequence=[1] * 30), 2.5, None])).GetRoot()
    calls = [
        lambda: S(CONST_D), lambda: S([CONST_D, CONST_T, object()]), lambda: S({CONST_T, frozenset([1])}), lambda: pointless.serialize(CONST_D, f), lambda: pointless.serialize(CONST_T, f + "/x"),
        lambda: pointless.serialize([CONST_T, 2 ** 40], f), lambda: P(f), lambda: P(short), lambda: P(N.tmp), lambda: P("/dev/null"), lambda: P("/dev/zero"), lambda: P("a\0b"), lambda: P(f, 1, 2, 3, 4), lambda: P("/nonexistent"), lambda: P(bytearray(b"x" * 40)), lambda: P(b"x"), lambda: P(prim("u16", [1])), lambda: P(5),
        lambda: v[3][CONST_T], lambda: v[3]["missing"], lambda: v[3].get(CONST_STR, CONST_T), lambda: v[3].get([1]), lambda: v[3][{}], lambda: CONST_T in v[3], lambda: list(v[3].items()), lambda: next(v[3].items()),
        lambda: CONST_STR in v[4], lambda: [] in v[4], lambda: list(v[4]), lambda: next(iter(v[4])),
        lambda: v[99], lambda: v["a"], lambda: v[1:3], lambda: v[::2], lambda: list(v), lambda: next(reversed(v)), lambda: CONST_T in v, lambda: object() in v, lambda: v == CONST_T, lambda: v < CONST_D, lambda: v[2] == CONST_T,
        lambda: v.max(), lambda: v[5].max(), lambda: v[5].range(), lambda: v[5].min(), lambda: v.range(), lambda: v[5].bisect_left(2), lambda: v[5].bisect_left(2, lambda a, b: 0), lambda: v.bisect_left(CONST_T), lambda: v[5].bisect_left("x"),
        lambda: v.typecode, lambda: v[5].typecode, lambda: memoryview(v[5]), lambda: memoryview(v), lambda: repr(v), lambda: str(v[3]), lambda: v.__sizeof__(), lambda: v.container_id,
        lambda: pointless.pyobject_hash(v), lambda: pointless.pyobject_hash(CONST_T), lambda: pointless.pyobject_hash(CONST_D), lambda: pointless.pyobject_hash([]), lambda: pointless.pyobject_hash(v[2]), lambda: pointless.pyobject_hash(CONST_T, 99),
        lambda: pointless.pointless_cmp(v, CONST_T), lambda: pointless.pointless_cmp(v[2], CONST_T), lambda: pointless.pointless_cmp(CONST_T, CONST_T), lambda: pointless.pointless_cmp(object(), 1), lambda: pointless.pointless_is_eq(CONST_T, v), lambda: pointless.pointless_is_eq(v, object()),
        lambda: hash(v[6]), lambda: v[6] == v[6], lambda: v[6] < 1, lambda: v[6].copy(), lambda: v[6].append(True), lambda: v[6][0], lambda: v[6][100], lambda: list(v[6]), lambda: v[6].pop(), lambda: repr(v[6]),
        lambda: PointlessBitvector(sequence=[1, 0, 5]), lambda: PointlessBitvector(sequence=[1, 0, CONST_STR]), lambda: PointlessBitvector(sequence=5), lambda: PointlessBitvector(size=10).append_bulk(v[6]), lambda: PointlessBitvector(size=10, sequence=[]),
        lambda: prim("i8", [1, 2, CONST_STR]), lambda: prim("i8", [1, 200]), lambda: prim("zz", []), lambda: prim("f", [1.5, CONST_T]), lambda: prim("u8", [1]).append(CONST_T), lambda: prim("u8", [1]).append_bulk(CONST_T), lambda: prim("u8", [1]).append_bulk(v[5]),
        lambda: prim("u8", [1]).remove(CONST_STR), lambda: prim("u8", [1]).index(9), lambda: prim("f", [1.0]).remove(2.0), lambda: prim("u8", [1, 2])[0:1], lambda: prim("u8", [1]).sort_proj(CONST_T), lambda: prim("u8", [1, 0]).sort_proj(prim("i64", [4, 3]), v[5]),
        lambda: PointlessPrimVector.FromRemap(v[5], prim("u8", [0, 9])), lambda: PointlessPrimVector.FromRemap(prim("f", [1.0]), prim("u8", [0, 0])), lambda: PointlessPrimVector.FromRemap(prim("f", [1.0]), CONST_T),
        lambda: PointlessPrimVector(buffer=prim("u32", [1, 2]).serialize()), lambda: PointlessPrimVector(buffer=b"\1\0\0\0\xff\0\0\0"), lambda: PointlessPrimVector("u8").__init__("u8", sequence=[1, CONST_T]), lambda: repr(prim("f", [1.5])), lambda: prim("u8", [1]).max(), lambda: prim("u8", []).max(),
        lambda: PointlessVector(), lambda: PointlessMap(), lambda: PointlessSet(), lambda: P(S(CONST_D)).GetRoot(), lambda: P(S(1)).__init__(S(2)), lambda: P(S(1)).__init__(CONST_T), lambda: P(f, validate=CONST_T), lambda: P(buffer=1), lambda: P(S(1)).GetFileNo(), lambda: P(S(1)).GetINode(), lambda: P(S(1)).GetRefs(),
    ]
    for j in r.sample(range(len(calls)), 14):
        for _ in range(3):
            try:
                calls[j]()
            except Exception:
                N.raised += 1


def storing(i, r, N):
    """values which are stored, equal ones made again and again, with and without something among them which is refused"""
    g = G(r)
    seeds = [r.getrandbits(50) for _ in range(r.randint(1, 5))]
    make = [r.choice([lambda q: G(q).value(), lambda q: G(q).bitvector(), lambda q: PointlessBitvector(sequence=[q.random() < .5 for _ in range(q.choice([40, 300, 3000]))]), lambda q: G(q).key(),
                      lambda q: G(q).scalar(), lambda q: prim("u16", [q.randrange(9) for _ in range(q.randint(0, 20))]), lambda q: bytearray(q.randbytes(q.randint(0, 40))),
                      lambda q: "\u1234" * q.randint(0, 9), lambda q: [q.choice([1, "a", 2.5]) for _ in range(q.randint(0, 9))], lambda q: {G(q).key(): G(q).scalar() for _ in range(3)}]) for _ in seeds]
    opts = [dict(), dict(unwiden_strings=True), dict(normalize_bitvector=False)]
    for k in range(4):
        v = [m(random.Random(s)) for m, s in zip(make, seeds) for _ in range(r.randint(1, 3))]
        if k > 1:
            bad = r.choice([object(), 2 ** 40, -2 ** 40, 1j, b"x", len, float, {1: object()}, {frozenset([2 ** 33])}, ["a", ["b", Ellipsis]], r.choice("ab") + "\ud800"])
            v.insert(r.randint(0, len(v)), bad)
            if r.random() < .3:
                v = {"a": v[0], "b": v, "c": v[-1]}
        for f in (pointless.serialize_to_bytearray, pointless.serialize_to_buffer, lambda v, **o: pointless.serialize(v, os.path.join(N.tmp, "st-%d" % os.getpid()), **o)):
            try:
                b = f(v, **r.choice(opts))
                if b is not None:
                    pointless.Pointless(b).GetRoot()
            except Exception:
                N.raised += 1


def session(i, r, N):
    s = misuse.Session(r, N)
    s.pool += [s.stored(), s.value()]
    s.run(25, Exception)


def state():
    gc.collect()
    return allocated()


def counts(T):
    n = len(os.listdir("/proc/self/fd"))
    with open("/proc/self/maps") as f:
        m = sum(T.tmp in ln for ln in f)
    return [n, m] + [sys.getrefcount(x) for x in CONST] + [sys.getrefcount(CONST_STR), sys.getrefcount(CONST_T), sys.getrefcount(CONST_D)]


def case(i, r, T):
    w = WORK[i % len(WORK)]
    f = direct if w == "direct" else storing if w == "storing" else session if w == "misuse" else importlib.import_module(w).case
    seed = r.getrandbits(60)
    # some of the cases with very long histories take too long to be repeated
    j = 100 * r.randrange(1000) + 17
    N = Null(T)
    T.about("workload %s seed %d" % (w, seed))

    def run():
        try:
            f(j, random.Random(seed), N)
        except Exception:
            # what is wrong with the result is for the other checks to say
            return 1
        return 0

    def grows(n):
        """did each of n runs leave more than the one before; how much, and which counts"""
        # nothing may be allocated by the measurement itself
        t = array.array("q", [0] * (n + 1))
        c0 = counts(T)
        t[0] = state()
        for k in range(n):
            run()
            t[k + 1] = state()
        c1 = counts(T)
        return [t[k + 1] - t[k] for k in range(n)], c0, c1
    for _ in range(2):
        if run():
            N.raised += 1
    T.count("exceptions", N.raised)
    d, c0, c1 = grows(3)
    T.count("runs", 5)
    # growth, or a count which went up with each run
    if min(d) > 0 or any(b >= a + 3 for a, b in zip(c0, c1)):
        d, c0, c1 = grows(12)
        T.count("runs", 12)
        if min(d) > 0:
            d2, c0, c1 = grows(30)
            if min(d2) > 0:
                raise Violation("memory:" + w, "bytes left behind by each run: %s" % d2)
        if any(b >= a + 12 for a, b in zip(c0, c1)):
            raise Violation("count:" + w, "open files, mapped files, reference counts: %s then %s" % (c0, c1))
    T.count("stable")
    T.count(w)
    T.ev()
    T.key((w, seed))
    if i < 2 * len(WORK):
        T.sample("%s: %s bytes per run" % (w, d))
