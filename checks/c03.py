"""C03: output is valid, the same for all targets, deterministic, and follows the file format (decoded by vlib/fmt.py)."""
import hashlib
import os

import fmt
import pointless
from c02 import graph
from gen import *
from keyed import has_prim
from wk import Violation

CASES = {"quick": 2500, "thorough": 60000}
RULE = ("one case = one generated value or object graph, serialized to a file, a buffer and a bytearray, twice, and with each option; every output is opened "
        "with validation, decoded by an independent decoder of the file format (hashes and probe sequences of every set/map included) and compared with the "
        "source; all cases run in two processes with different heap contents, whose outputs must be the same; non-trivial = the file has a heap; distinct by bytes")
MUST_OBSERVE = ("outputs", "decoded", "option_bitvector", "tables", "passes", "rebuilt", "large")
MIN_EVAL = 500
ASSUMPTIONS = ["the independent decoder describes the format of version 2 files"]


def run(D):
    n = D.ncases or CASES[D.tier]
    for k, fill in enumerate(("190", "7")):
        D.run_workers(extra_env={"VERIF_PASS": str(k)}, extra_asan="max_malloc_fill_size=4194304:malloc_fill_byte=%s" % fill)
        D.count("passes")
    dig = [{}, {}]
    for f in os.listdir(D.tmp):
        if f.startswith("digest-"):
            with open(os.path.join(D.tmp, f)) as fd:
                for ln in fd:
                    i, h = ln.split()
                    dig[int(f.split("-")[1])][int(i)] = h
    for i in sorted(set(dig[0]) & set(dig[1])):
        D.count("compared_between_processes")
        if dig[0][i] != dig[1][i]:
            D.violation("process-dependent", "the output of case %d differs between two processes" % i, case=i)
            break


def address_ordered(x):
    """does the value contain a set which Python orders by the addresses of its items (PrimVectors are hashed by identity)"""
    stack, seen = [x], set()
    while stack:
        v = stack.pop()
        if isinstance(v, (list, tuple, set, frozenset, dict)):
            if id(v) in seen:
                continue
            seen.add(id(v))
            if isinstance(v, (set, frozenset)) and len(v) > 1 and any(has_prim(k) for k in v):
                return True
            stack.extend(v)
            if isinstance(v, dict):
                stack.extend(v.values())
    return False


def to_file(x, T, **kw):
    p = os.path.join(T.tmp, "c03-%d.map" % os.getpid())
    pointless.serialize(x, p, **kw)
    with open(p, "rb") as f:
        return f.read()


def decode(b, x, T, what):
    T.count("decoded")
    try:
        f = fmt.File(b)
        root = f.decode()
        f.overlaps()
        T.count("tables", f.n[3] + f.n[4])
        same(x, root, ({}, {}))
        # equal strings, and equal bitvectors if asked for, are stored once
        once = {f.b[a:b] for a, b in f.spans_of(0)}
        fmt.need(len(once) == f.n[0], "%d strings stored, %d of them distinct" % (f.n[0], len(once)))
        once = {f.b[a:b] for a, b in f.spans_of(2)}
        fmt.need(what in ("option_bitvector", "option_both") or len(once) == f.n[2], "%d bitvectors stored, %d of them distinct" % (f.n[2], len(once)))
    except fmt.Bad as e:
        raise Violation("format", "%s output: %s" % (what, e))
    except Differ as e:
        raise Violation("decoded-differs", "%s output: %s" % (what, e))


def case(i, r, T):
    if i % 3 == 2:
        x = graph(r)[0]
    else:
        g = G(r)
        x = g.value() if r.random() < .9 else g.scalar()
        if r.random() < .2:
            # equal, but distinct, bitvectors and strings
            bits = [[r.random() < .5 for _ in range(r.choice([28, 33, 64, 200]))] for _ in range(2)]
            ss = [g.str_() for _ in range(3)]
            x = [x, [PointlessBitvector(sequence=r.choice(bits)) for _ in range(r.randint(2, 6))], ["".join(list(r.choice(ss))) for _ in range(6)]]
        if i % 60 == 1:
            # beyond the sizes of buffers and pages, with items which do not end on a word
            big = lambda: r.choice([lambda: chr(r.randint(97, 122)) * (r.choice([4096, 8192, 65536, 65537, 131072]) + r.randint(-9, 9)), lambda: bytearray(r.randbytes(r.choice([4096, 65536, 70000]) + r.randint(-5, 5))),
                                    lambda: prim("u16", [r.getrandbits(16) for _ in range(r.choice([2048, 40000]) + r.randint(-3, 3))]), lambda: [r.choice([1, 2.5, "abc", None]) for _ in range(20001)]])()
            x = [big() for _ in range(r.randint(1, 3))] + [x, "end" * r.randint(0, 3), bytearray(r.randint(0, 9))]
            r.shuffle(x)
            T.count("large")
    T.about("value %.600s" % shape(x))
    a = bytes(pointless.serialize_to_bytearray(x))
    outs = [("buffer", bytes(memoryview(pointless.serialize_to_buffer(x)))), ("file", to_file(x, T)), ("second", bytes(pointless.serialize_to_bytearray(x)))]
    T.count("outputs", 1 + len(outs))
    for what, b in outs:
        if a != b:
            k = next((j for j in range(min(len(a), len(b))) if a[j] != b[j]), min(len(a), len(b)))
            raise Violation("targets", "%s output (%d bytes) differs from the bytearray (%d bytes) at byte %d" % (what, len(b), len(a), k))
    try:
        y = rebuild(x, r)
    except Cyclic:
        T.count("not_rebuilt")
    else:
        T.count("rebuilt")
        b = bytes(pointless.serialize_to_bytearray(y))
        if a != b:
            raise Violation("history", "an equal value which was made in another way is stored differently, as %s instead of %s" % (b[:200].hex(), a[:200].hex()))
    decode(a, x, T, "default")
    p = pointless.Pointless(bytearray(a), validate=True)
    try:
        same(x, p.GetRoot(), ({}, {}))
    except Differ as e:
        raise Violation("differs", str(e))
    # the default values of the options are the documented ones
    if bytes(pointless.serialize_to_bytearray(x, unwiden_strings=False, normalize_bitvector=True)) != a:
        raise Violation("defaults", "")
    all_ = hashlib.sha1(a)
    for kw, name in (({"unwiden_strings": True}, "option_unwiden"), ({"normalize_bitvector": False}, "option_bitvector"),
                     ({"unwiden_strings": True, "normalize_bitvector": False}, "option_both")):
        b = bytes(pointless.serialize_to_bytearray(x, **kw))
        c = to_file(x, T, **kw) if r.random() < .5 else bytes(memoryview(pointless.serialize_to_buffer(x, **kw)))
        if b != c:
            raise Violation("targets", "with %s" % kw)
        all_.update(b)
        if b != a:
            T.count(name)
            decode(b, x, T, name)
            try:
                same(x, pointless.Pointless(bytearray(b), validate=True).GetRoot(), ({}, {}))
            except Differ as e:
                raise Violation("differs", "with %s: %s" % (kw, e))
    T.ev()
    if len(a) > 32:
        T.key(a)
    if i < 3:
        T.sample("%s: %s" % (shape(x, 30), a[:64].hex()))
    if address_ordered(x):
        T.count("address_ordered")
        return
    with open(os.path.join(T.tmp, "digest-%s-%d" % (os.environ.get("VERIF_PASS", "0"), os.getpid())), "a") as f:
        f.write("%d %s\n" % (i, all_.hexdigest()))
