"""Values at the limits of 32 bits: giant.py vectors|strings|bits. Prints "ok NAME" or "WRONG NAME DETAIL" per observation."""
import sys
import pointless
from pointless import PointlessBitvector, PointlessPrimVector

print("start", flush=True)
U32 = 2 ** 32 - 1


def see(name, f, want):
    try:
        got = f()
    except Exception as e:
        got = type(e)
    print("ok %s" % name if got == want and type(got) is type(want) else "WRONG %s %.200r instead of %.200r" % (name, got, want), flush=True)


def grown(n):
    w = PointlessPrimVector("u8", sequence=bytes(range(1, 255)))
    while len(w) < n:
        w.append_bulk(w if 2 * len(w) <= n else w[:n - len(w)])
    return w


def root(x):
    return pointless.Pointless(pointless.serialize_to_bytearray(x)).GetRoot()


if sys.argv[1] == "vectors":
    n = 2 ** 32 + 3
    w = grown(n)
    w[2 ** 32] = 255
    w[3] = 0
    see("len", lambda: len(w), n)
    see("item", lambda: w[2 ** 32], 255)
    see("item-negative", lambda: (w[-n], w[-3]), (1, 255))
    see("index", lambda: w.index(255), 2 ** 32)
    see("contains", lambda: 255 in w, True)
    see("slice", lambda: (len(w[2 ** 32 - 1:]), w[2 ** 32 - 1:][1]), (4, 255))
    see("slice-length", lambda: len(w[1:]), n - 1)
    see("range", lambda: w.range(), (0, 255))
    it = reversed(w)
    see("reversed", lambda: (next(it), next(it), next(it))[2], 255)
    see("buffer", lambda: memoryview(w).nbytes, n)
    see("sort", lambda: w.sort(), ValueError)
    see("sort_proj", lambda: w.sort_proj(w), ValueError)
    see("serialize", lambda: w.serialize(), ValueError)
    see("store", lambda: pointless.serialize_to_bytearray([w]), ValueError)
    see("unchanged", lambda: (len(w), w[2 ** 32], w[3]), (n, 255, 0))
    see("remove", lambda: (w.remove(255), len(w), 255 in w), (None, n - 1, False))
    see("fast_remove", lambda: (w.fast_remove(0), len(w), 0 in w), (None, n - 2, False))
    see("pop_bulk", lambda: (w.pop_bulk(2), len(w)), (None, U32))
    w[U32 - 1] = 255
    # the largest which can be stored
    v = root([w, 5])[0]
    see("stored-len", lambda: len(v), U32)
    see("stored-items", lambda: (v[0], v[-1], v[U32 - 1], v[2 ** 31] == w[2 ** 31]), (1, 255, 255, True))
    see("stored-slice", lambda: (len(v[1:]), v[1:][-1], list(v[U32 - 1:])), (U32 - 1, 255, [255]))
    see("stored-max", lambda: v.max(), 255)
    see("stored-bounds", lambda: v[U32], IndexError)
    del v
    b = w.serialize()
    see("serialize-length", lambda: len(b), U32 + 8)
    del w
    x = PointlessPrimVector(buffer=b)
    see("deserialized", lambda: (len(x), x[0], x[-1]), (U32, 1, 255))
elif sys.argv[1] == "strings":
    for n, c, end in ((U32 - 1, "a", "b"), (U32, "a", "b"), (U32, "\xe9", "\xff"), (U32 + 1, "a", "b"), (U32 + 2, "a", "b"), (U32 + 6, "\xe9", "b")):
        s = c * (n - 1) + end
        see("string-%d" % n, lambda: (lambda r: (r[0] == s, r[1]))(root([s, 5])), (True, 5) if n <= U32 else ValueError)
    n = 2 ** 30 + 2
    s = "\u4e00" * (n - 1) + "\u4e01"
    see("wide-string-%d" % n, lambda: (lambda r: (r[0] == s, r[1]))(root([s, 5])), (True, 5))
    b = bytearray(U32)
    b[-1] = 3
    see("bytearray-%d" % U32, lambda: (lambda v: (len(v), v[-1], v[0]))(root([b])[0]), (U32, 3, 0))
    b.append(4)
    see("bytearray-%d" % (U32 + 1), lambda: root([b]), ValueError)
else:
    v = PointlessBitvector(size=U32)
    v[U32 - 1] = 1
    v[2 ** 31] = 1
    see("bits-len", lambda: len(v), U32)
    see("bits-append", lambda: v.append(True), ValueError)
    see("bits-extend", lambda: v.extend_true(2 ** 31 - 1), ValueError)
    see("bits-unchanged", lambda: (len(v), v[U32 - 1], v[2 ** 31], v[2 ** 31 - 1]), (U32, True, True, False))
    see("bits-prefix", lambda: (v.NumZeroPrefix(), v.NumOnePostfix(), v.IsAnySet()), (2 ** 31, 1, True))
    r = root([v, 5])[0]
    see("bits-stored", lambda: (len(r), r[-1], r[2 ** 31], r[0], r.NumZeroPrefix()), (U32, True, True, False, 2 ** 31))
    see("bits-pop", lambda: (v.pop(), v.pop(), len(v)), (True, False, U32 - 2))
    c = v.copy()
    see("bits-copy", lambda: (len(c), c[2 ** 31], c.NumZeroPrefix()), (U32 - 2, True, 2 ** 31))
    del c, r, v
    n = 2 ** 31 + 5
    v = PointlessBitvector(size=n)
    v[1] = 1
    r = root([v, 5])[0]
    see("bits-stored-str", lambda: (lambda s: (len(s), s[-5:], s.count("1")))(str(r)), (n + 1, "0010b", 1))
    see("bits-str", lambda: (lambda s: (len(s), s[-5:], s.count("1")))(str(v)), (n + 1, "0010b", 1))
print("end", flush=True)
