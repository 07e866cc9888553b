"""C18: threads."""
import os
import subprocess
import sys
import threading

import pointless
from c02 import graph
from gen import *
from wk import check, Violation

VARIANT = "tsan"
JUDY_SAN = True
HARNESS = ("threads.c",)
CASES = {"quick": 130, "thorough": 5000}
CASE_S = 150
RULE = ("one case = either up to 14 C threads sharing one opened file, each running random tasks (reading everything, lookups, comparisons, paths, expressions, creating, recreating, opening, cycle search, "
        "sorting) in its own order, all at once; or 5 Python threads sharing opened files, buffers and values, reading, opening, replacing, initialising again, serializing, resizing buffers; every result "
        "is compared with that of the same task run alone, all memory accesses are watched by ThreadSanitizer; non-trivial = tasks overlapped; distinct by file and seed")
MUST_OBSERVE = ("c_tasks", "c_overlaps", "reads", "opens", "replaced", "serialized", "same_file", "reinit", "reinit_refused", "exported", "resize_refused", "sorted")
MIN_EVAL = 60
ASSUMPTIONS = ["C: one pointless_t may be read by many threads, a pointless_create_t belongs to one", "Python: containers being serialized, and buffers being opened, are not written to meanwhile by other threads (resizing aside)"]


def c_threads(i, r, T):
    d = os.path.join(T.tmp, "thr-%d" % os.getpid())
    os.makedirs(d, exist_ok=True)
    f = os.path.join(d, "f")
    g = G(r)
    k = r.randrange(4)
    if k == 0:
        x = graph(r)
    elif k == 1:
        x = [{str(j): [j, g.value(), {j, j + 1}] for j in range(r.randint(1, 60))}, {j: str(j) for j in range(r.randint(0, 90))}, set(range(r.randint(0, 99)))] + [g.value() for _ in range(4)]
    else:
        x = [g.value() for _ in range(r.randint(1, 10))]
    pointless.serialize(x, f)
    b = os.path.join(os.environ["VERIF_BUILD_ROOT"], "bin", "threads")
    env = {k: v for k, v in os.environ.items() if k != "LD_PRELOAD"}
    n = r.choice([2, 4, 8, 8, 14])
    seed = r.getrandbits(40)
    with open(os.path.join(d, "out"), "w+b") as o:
        p = subprocess.run([b, f, d, str(seed), str(n), str(2)], env=env, stdout=o, stderr=o, stdin=subprocess.DEVNULL)
        o.seek(0)
        out = o.read().decode("utf-8", "replace")
    if p.returncode != 0 and "ThreadSanitizer" in out:
        import drv
        key, ex = drv.san_headline(out)
        raise Violation(key or "tsan", ex)
    check(p.returncode == 0, "c-threads:%d" % p.returncode, "\n".join(x for x in out.split("\n") if not x.startswith("temp_fname"))[-3000:])
    w = out[out.rindex("ran "):].split()
    T.count("c_tasks", int(w[1]))
    T.count("c_overlaps", int(w[3]))
    if int(w[3]):
        T.key((i, T.seed, w[5]))


class Shared:
    pass


def py_threads(i, r, T):
    S = Shared()
    g = G(r)
    # sources, what they are stored as, and what is open
    S.src = [[g.value() for _ in range(3)], {str(j): [j, (j, "x")] for j in range(r.randint(2, 60))}, [list(range(r.randint(10, 3000))), "big", {j: {j} for j in range(40)}], g.value()]
    S.bytes = [pointless.serialize_to_bytearray(x) for x in S.src]
    S.name = [os.path.join(T.tmp, "py-%d-%d.map" % (os.getpid(), j)) for j in range(len(S.src))]
    for x, n in zip(S.src, S.name):
        pointless.serialize(x, n)
    S.open = [pointless.Pointless(n) if r.random() < .5 else pointless.Pointless(b) for n, b in zip(S.name, S.bytes)]
    S.common = os.path.join(T.tmp, "py-%d-common.map" % os.getpid())
    pointless.serialize(["common", 0, list(range(50))], S.common)
    S.victim = pointless.Pointless(S.bytes[0])
    n = 12000
    S.big = ["victim", list(range(n)), {j: str(j) for j in range(n // 12)}]
    S.bigname = os.path.join(T.tmp, "py-%d-big.map" % os.getpid())
    pointless.serialize(S.big, S.bigname)
    S.bigbytes = pointless.serialize_to_bytearray(S.big)
    S.tail = [bytearray(S.bigbytes), PointlessPrimVector("u8", sequence=list(S.bigbytes))]
    S.proj = PointlessPrimVector("u32", sequence=[r.randrange(20) for _ in range(30)])
    S.fail, S.counts, S.lock = [], {}, threading.Lock()
    S.go = threading.Barrier(5)

    def run(t, seed):
        q = random.Random(seed)
        c = {}

        def did(k):
            c[k] = c.get(k, 0) + 1
        try:
            S.go.wait()
            for _ in range(14):
                if S.fail:
                    break
                OPS[q.randrange(len(OPS))](S, q, did, t)
        except BaseException as e:  # noqa: B902
            import traceback
            S.fail.append((e, traceback.format_exc()))
        with S.lock:
            for k, v in c.items():
                S.counts[k] = S.counts.get(k, 0) + v
    ts = [threading.Thread(target=run, args=(t, r.getrandbits(50))) for t in range(5)]
    sw = sys.getswitchinterval()
    sys.setswitchinterval(r.choice([1e-6, 1e-5, 1e-4]))
    try:
        for t in ts:
            t.start()
        for t in ts:
            t.join()
    finally:
        sys.setswitchinterval(sw)
    for e, tb in S.fail[:1]:
        if isinstance(e, Violation):
            raise e
        raise Violation("thread:%s" % type(e).__name__, tb)
    for j, (x, p) in enumerate(zip(S.src, S.open)):
        compare(x, p, "afterwards")
    refs = S.victim.GetRefs()
    check(not any(refs.values()), "refs", "the victim is still referred to: %r" % refs)
    for k, v in S.counts.items():
        T.count(k, v)
    T.key((i, T.seed))
    for n in S.name + [S.common, S.bigname]:
        os.unlink(n)


def compare(x, p, what):
    try:
        same(x, p.GetRoot())
    except Differ as d:
        raise Violation("differs", "%s: %s" % (what, d))


def op_read(S, q, did, t):
    j = q.randrange(len(S.src))
    p = S.open[j]
    compare(S.src[j], p, "shared")
    did("reads")


def op_open(S, q, did, t):
    j = q.randrange(len(S.src))
    p = pointless.Pointless(S.name[j] if q.random() < .5 else S.bytes[j], validate=q.random() < .6)
    compare(S.src[j], p, "opened")
    did("opens")


def op_replace(S, q, did, t):
    j = q.randrange(len(S.src))
    S.open[j] = pointless.Pointless(S.name[j] if q.random() < .5 else S.bytes[j])
    did("replaced")


def op_serialize(S, q, did, t):
    j = q.randrange(len(S.src))
    b = pointless.serialize_to_bytearray(S.src[j])
    check(b == S.bytes[j], "bytes", "a value serialized while others are gives other bytes than alone")
    did("serialized")


def op_recreate(S, q, did, t):
    j = q.randrange(len(S.src))
    root = S.open[j].GetRoot()
    b = pointless.serialize_to_bytearray([root])
    got = pointless.Pointless(b).GetRoot()
    try:
        same([S.src[j]], got)
    except Differ as d:
        raise Violation("differs", "stored value serialized again: %s" % d)
    did("recreated")


def op_common(S, q, did, t):
    # several writers and readers of one name: any of the values, complete
    if q.random() < .5:
        pointless.serialize(["common", t, list(range(50 + t))], S.common)
    p = pointless.Pointless(S.common)
    v = p.GetRoot()
    k = v[1]
    check(v[0] == "common" and list(v[2]) == list(range(50 + k)), "common", "the file written by several threads holds %r" % (list(v),))
    did("same_file")


def op_reinit(S, q, did, t):
    v = S.victim
    for _ in range(3):
        try:
            k = q.random()
            if k < .4:
                v.__init__(S.bigname, validate=q.random() < .5)
            elif k < .7:
                v.__init__(S.bigbytes, validate=q.random() < .5)
            elif k < .8:
                v.__init__(S.bigname + ".missing")
            else:
                v.__init__(S.bytes[0])
            did("reinit")
        except ValueError:
            did("reinit_refused")
        except OSError:
            did("reinit_failed")
        try:
            root = v.GetRoot()
        except ValueError:
            did("not_open")
            continue
        n = len(root)
        if n == 3 and root[0] == "victim":
            check(root[1][11999] == 11999 and root[2][500] == "500" and len(root[2]) == 1000, "victim", "other values than those stored")
        else:
            try:
                same(S.src[0], root)
            except Differ as d:
                raise Violation("differs", "victim: %s" % d)
        v.__sizeof__()
        v.GetRefs()


def op_tail(S, q, did, t):
    # resizing a buffer, which others may be opening
    b = S.tail[q.randrange(2)]
    k = q.random()
    if k < .6:
        try:
            p = pointless.Pointless(b, validate=False)
        except BufferError:
            raise Violation("tail", "a buffer could not be opened while another opens it")
        root = p.GetRoot()
        check(root[0] == "victim" and root[1][11999] == 11999, "tail", "a buffer opened while it is appended to gives other values")
        did("exported")
        return
    for _ in range(8):
        try:
            b.append(0)
            did("resized")
        except (BufferError, ValueError):
            did("resize_refused")


def op_sort(S, q, did, t):
    n = q.randint(1, 300)
    x = [q.randrange(100) for _ in range(n)]
    v = PointlessPrimVector("u32", sequence=x)
    v.sort()
    check(list(v) == sorted(x), "sort", "a vector sorted while others are is not")
    y = [q.randrange(30) for _ in range(n)]
    v = PointlessPrimVector("u32", sequence=y)
    v.sort_proj(S.proj)
    got = [S.proj[k] for k in v]
    check(sorted(v) == sorted(y) and got == sorted(got), "sort_proj", "a vector sorted by projection while others are is not")
    did("sorted")


OPS = (op_read, op_open, op_replace, op_serialize, op_recreate, op_common, op_reinit, op_reinit, op_tail, op_tail, op_sort)


def case(i, r, T):
    (c_threads if i % 4 == 0 else py_threads)(i, r, T)
    T.ev()
