"""C28: copying and printing of stored data by the C library."""
import functools
import os
import struct

import c22
import fmt
import pointless
from capi import *
from cprint import *
from gen import *
from keyed import key_set
from wk import check

VARIANT = "capi"
CASES = {"quick": 1500, "thorough": 120000}
RULE = ("one case = one stored value (written by the library, with sharing and cycles, or by an independent encoder in another layout), copied file to file by pointless_recreate_64, copied in parts and slices into "
        "another value by pointless_recreate_value and _vector_slice, and printed, whole and from random inner values; also onto itself, to bad destinations, from damaged files, and with memory refused; "
        "copies are decoded independently and matched to the original one to one, the text is compared with a model of it; non-trivial = a file with at least one container; distinct by the bytes of the file")
MUST_OBSERVE = ("copied", "onto_itself", "bad_destination", "damaged", "damaged_refused", "copy_out_of_memory", "printed", "print_out_of_memory", "cycles_printed", "parts", "slices", "compared", "foreign", "characters")
MIN_EVAL = 500


def items(F, t, d):
    """of a vector: stored values, or numbers"""
    if t == fmt.V_EMPTY:
        return []
    p, n = F.raw_vector(t, d)
    if t in fmt.PRIM:
        c = fmt.PRIM[t][0]
        return [(("f", x) if t == fmt.V_FLOAT else ("i", x)) for x in struct.unpack_from("<%d%s" % (n, "I" if t == fmt.V_FLOAT else c), F.b, p)]
    x = struct.unpack_from("<%dI" % (2 * n), F.b, p)
    return list(zip(x[::2], x[1::2]))


def entries(F, t, d):
    ks, vs = F.table(t, d)
    return [(k, vs[j] if vs else None) for j, k in enumerate(ks) if k[0] != fmt.EMPTY_SLOT]


def scalar(F, t, d):
    """what is not a container, exactly"""
    if t in ("i", "f"):
        return (t, d)
    if t == fmt.I32:
        return ("i", d - (d >> 31 << 32))
    if t == fmt.U32:
        return ("i", d)
    if t == fmt.FLOAT:
        return ("f", d)
    if t == fmt.BOOL:
        return ("b", bool(d))
    if t == fmt.NULL:
        return ("n",)
    if t in c22.STRS:
        return ("s", tuple(F.string(d, t == fmt.UNICODE)[1]))
    if t in fmt.BITVECTORS:
        return ("v", tuple(F.bits(t, d)))
    return None


def canon(F, t, d):
    s = scalar(F, t, d)
    return s if s is not None else ("t",) + tuple(canon(F, *x) for x in items(F, t, d))


def isvec(t):
    return t in fmt.VECTORS or t == fmt.V_EMPTY


def match(A, B, pairs, fwd, T, what):
    """what is stored at each value of A is what is stored at its partner in B, container by container"""
    back, todo = {}, list(pairs)
    while todo:
        a, b = todo.pop()
        T.count("compared")
        s, u = scalar(A, *a), scalar(B, *b)
        if s is not None or u is not None:
            check(s == u, what + ":scalar", lambda: "%r became %r" % (s, u))
            continue
        check(isvec(a[0]) == isvec(b[0]) and (isvec(a[0]) or a[0] == b[0]), what + ":type", lambda: "%r became %r" % (a, b))
        if isvec(a[0]):
            x, y = items(A, *a), items(B, *b)
            check(len(x) == len(y), what + ":length", lambda: "%d became %d" % (len(x), len(y)))
            if not x:
                continue
            if a[0] in fmt.PRIM:
                check(a[0] == b[0], what + ":item-type", lambda: "%d became %d" % (a[0], b[0]))
        ia, ib = (isvec(a[0]) or a[0], a[1]), (isvec(b[0]) or b[0], b[1])
        check(back.setdefault(ib, ia) == ia, what + ":merged", lambda: "%r" % (ib,))
        if ia in fwd:
            check(fwd[ia] == ib, what + ":split", lambda: "%r" % (ia,))
            continue
        fwd[ia] = ib
        if isvec(a[0]):
            if x == y and x[0][0] in ("i", "f"):
                continue
            todo += zip(x, y)
            continue
        ea, eb = entries(A, *a), entries(B, *b)
        ka, kb = {canon(A, *k): (k, v) for k, v in ea}, {canon(B, *k): (k, v) for k, v in eb}
        check(ka.keys() == kb.keys() and len(ea) == len(eb) == len(ka), what + ":keys", lambda: "%r became %r" % (list(ka)[:20], list(kb)[:20]))
        for k in ka:
            todo.append((ka[k][0], kb[k][0]))
            if ka[k][1] is not None:
                todo.append((ka[k][1], kb[k][1]))


class Big(Exception):
    pass


class Text:
    """what the library prints for a value"""

    def __init__(self, F, p, limit=60000):
        self.F, self.p, self.room, self.out, self.stack, self.cycles, self.depth = F, p, limit, [], [], 0, 0

    def add(self, s):
        self.out.append(s)
        self.room -= len(s)
        if self.room < 0:
            raise Big

    def order(self, a, b):
        err = c_char_p()
        c = L.capi_cmp(self.p, byref(V(*a[0])), self.p, byref(V(*b[0])), byref(err))
        check(err.value is None, "compare-failed", "")
        return c

    def put(self, t, d):
        F = self.F
        s = scalar(F, t, d)
        if s is not None:
            k = s[0]
            self.add({"i": lambda: "%d" % s[1], "f": lambda: real(s[1], "%f"), "b": lambda: str(s[1]), "n": lambda: "NULL", "s": lambda: '"%s"' % "".join(chr(c) if c < 128 else "?" for c in s[1]),
                      "v": lambda: "<%s>" % "".join("01"[x] for x in s[1])}[k]())
            return
        if t == fmt.V_EMPTY:
            self.add("[]")
            return
        if t in fmt.PRIM:
            self.add("H[%s]" % ",".join(real(x[1], "%.f") if x[0] == "f" else "%d" % x[1] for x in items(F, t, d)))
            return
        me = (isvec(t) or t, d)
        if me in self.stack:
            self.cycles += 1
            self.add("[...]" if isvec(t) else "set([...])" if t == fmt.SET else "{...}")
            return
        self.stack.append(me)
        self.depth = max(self.depth, len(self.stack))
        if isvec(t):
            self.add("H[" if t == fmt.V_HASHABLE else "[")
            for j, x in enumerate(items(F, t, d)):
                self.add("," if j else "")
                self.put(*x)
            self.add("]")
        else:
            self.add("set([" if t == fmt.SET else "{")
            es = sorted(entries(F, t, d), key=functools.cmp_to_key(self.order))
            for j in range(len(es)) if len(es) < 40 else random.Random(len(es)).sample(range(len(es)), 40):
                for k in range(j):
                    check(self.order(es[k], es[j]) < 0 < self.order(es[j], es[k]), "order", lambda: "%r %r" % (es[k], es[j]))
            for j, (k, v) in enumerate(es):
                self.add(", " if j else "")
                self.put(*k)
                if v is not None:
                    self.add(": ")
                    self.put(*v)
            self.add("])" if t == fmt.SET else "}")
        self.stack.pop()


def real(bits, f):
    x, = struct.unpack("<f", struct.pack("<I", bits))
    if x != x:
        return "-nan" if bits >> 31 else "nan"
    return f.replace("%.f", "%.0f") % x


def prints(F, p, reach, r, T):
    todo = [None, F.root] if r.random() < .5 else [None]
    todo += r.sample(reach, min(len(reach), 4))
    for v in todo:
        m = Text(F, p)
        try:
            m.put(*(v or F.root))
        except Big:
            T.count("too_long")
            continue
        exp = ("".join(m.out) + "\n").encode("latin-1")
        live = Alloc.live.value
        ok, text, err = printed(p, V(*v) if v else None)
        check(ok and err is None, "print-failed", lambda: "%r" % (err,))
        check(text == exp, "text", lambda: "%r not %r" % (text[:2000], exp[:2000]))
        check(Alloc.live.value <= live, "print-leak", "")
        T.count("printed")
        T.count("characters", len(exp))
        T.count("cycles_printed", m.cycles)
        if r.random() < .2 and any(x.startswith(("set([", "{")) for x in m.out):
            Alloc.refused.value = 0
            Alloc.fail_at.value, Alloc.later.value = Alloc.seen.value + r.choice([0, 0, 1, 2, 5]), r.random() < .3
            ok, text, err = printed(p, V(*v) if v else None)
            Alloc.fail_at.value, Alloc.later.value = -1, 0
            if Alloc.refused.value:
                check(not ok and err is not None, "print-refused", lambda: "%r %r" % (ok, err))
                T.count("print_out_of_memory")
            else:
                check(ok and text == exp, "text", lambda: "%r" % (text[:2000],))
            check(Alloc.live.value <= live, "print-leak", "memory refused")


def decode(b, what, T):
    try:
        G_ = fmt.File(b)
        G_.decode()
        return G_
    except (fmt.Bad, struct.error, IndexError) as x:
        check(False, what, "%s: %r" % (x, b[:100]))


def copies(b, F, r, T):
    d = os.path.join(T.tmp, "c28-%d" % os.getpid())
    os.makedirs(d, exist_ok=True)
    a, o = os.path.join(d, "in.map"), os.path.join(d, "out.map")
    for n in os.listdir(d):
        os.unlink(os.path.join(d, n)) if not os.path.isdir(os.path.join(d, n)) else os.rmdir(os.path.join(d, n))

    def put(n, x):
        with open(n, "wb") as f:
            f.write(x)

    def get(n):
        with open(n, "rb") as f:
            return f.read()
    put(a, b)
    k = r.random()
    good, dest, old = b, o, None
    mode = "copy"
    if k < .15:
        mode, dest = "onto_itself", a
    elif k < .25:
        mode = "bad_destination"
        if r.random() < .5:
            dest = os.path.join(d, "missing", "out.map")
        else:
            dest = os.path.join(d, "dir")
            os.mkdir(dest)
    elif k < .45:
        mode = "damaged"
        good = bytearray(b)
        j = r.random()
        if j < .3:
            del good[r.randrange(len(good)):]
        elif j < .4:
            struct.pack_into("<I", good, 28, r.choice([3, 77, 2 ** 32 - 1]))
        elif j < .5:
            os.unlink(a)
            good = None
        else:
            for _ in range(r.choice([1, 1, 2, 3])):
                good[r.randrange(len(good))] = r.choice([0, 1, 255, r.randrange(256)])
        if good is not None:
            good = bytes(good)
            put(a, good)
    elif k < .65:
        mode = "copy_out_of_memory"
    if dest == o and r.random() < .5:
        old = r.randbytes(20)
        put(o, old)
    listed = set(os.listdir(d))
    live, fds, err = Alloc.live.value, len(os.listdir("/proc/self/fd")), c_char_p()
    Alloc.refused.value = 0
    if mode == "copy_out_of_memory":
        Alloc.fail_at.value, Alloc.later.value = Alloc.seen.value + r.choice([0, 1, 2, 3, 4, 5, 6, 7, 8, r.randint(0, 100), r.randint(0, 40)]), r.random() < .3
    if mode == "bad_destination":
        with quiet():
            ok = L.pointless_recreate_64(a.encode(), dest.encode(), byref(err))
    else:
        ok = L.pointless_recreate_64(a.encode(), dest.encode(), byref(err))
    Alloc.fail_at.value, Alloc.later.value = -1, 0
    check(Alloc.live.value <= live and len(os.listdir("/proc/self/fd")) == fds, "copy-leak:" + mode, lambda: "%d allocations, %d files; ok %d %r" % (
        Alloc.live.value - live, len(os.listdir("/proc/self/fd")) - fds, ok, err.value))
    if ok:
        check(mode != "bad_destination", "copied-nowhere", "")
        check(good is not None, "copied-nothing", "")
        if mode == "damaged":
            # what the library accepts is the matter of C13
            try:
                F = fmt.File(good)
                F.decode()
            except (fmt.Bad, struct.error, IndexError):
                F = None
        if F is not None:
            C = decode(get(dest), "copy-malformed:" + mode, T)
            match(F, C, [(F.root, C.root)], {}, T, mode)
        check(set(os.listdir(d)) == listed | {os.path.basename(dest)}, "files-left:" + mode, lambda: "%r" % (os.listdir(d),))
    else:
        check(err.value is not None, "no-message:" + mode, "")
        check(mode in ("bad_destination", "damaged") or Alloc.refused.value, "copy-refused:" + mode, lambda: "%r" % (err.value,))
        check(set(os.listdir(d)) == listed, "files-left:" + mode, lambda: "%r, was %r" % (os.listdir(d), listed))
        if old is not None:
            check(get(o) == old, "destination-changed:" + mode, "")
        if mode == "damaged":
            T.count("damaged_refused")
    if mode != "onto_itself" and good is not None:
        check(get(a) == good, "source-changed", "")
    T.count(mode if mode != "copy" else "copied")


def reachable(F):
    seen, todo = set(), [F.root]
    while todo:
        t, d = todo.pop()
        if (t, d) in seen or len(seen) > 4000:
            continue
        seen.add((t, d))
        if t in (fmt.SET, fmt.MAP):
            for k, v in entries(F, t, d):
                todo.append(k)
                if v is not None:
                    todo.append(v)
        elif t in (fmt.V_VALUE, fmt.V_HASHABLE):
            todo += items(F, t, d)
    return sorted(seen)


def parts(F, p, F2, p2, reach, r, T):
    """some values and slices of two files put together into a third"""
    c = ctypes.create_string_buffer(SIZES["pointless_create_t"])
    live = Alloc.live.value
    L.pointless_create_begin_64(c)
    root = L.pointless_create_vector_value(c)
    exp = []
    oom = r.random() < .15
    ok = root != FAIL
    for _ in range(r.choice([1, 2, 4, 7])):
        if not ok:
            break
        X, q, vs = (F, p, reach) if r.random() < .7 else (F2, p2, reachable(F2))
        long = [x for x in vs if x[0] in (fmt.V_VALUE, fmt.V_HASHABLE)]
        t, d = r.choice(long if long and r.random() < .4 else vs)
        err = c_char_p()
        Alloc.refused.value = 0
        if oom:
            Alloc.fail_at.value = Alloc.seen.value + r.randint(0, 30)
        if t in (fmt.V_VALUE, fmt.V_HASHABLE) and r.random() < .7:
            n = len(items(X, t, d))
            i = r.randint(0, n)
            m = r.randint(0, n - i)
            h = L.pointless_recreate_vector_slice(q, byref(V(t, d)), i, m, c, byref(err))
            e = (X, (t, d), i, m)
            T.count("slices")
        else:
            h = L.pointless_recreate_value(q, byref(V(t, d)), c, byref(err))
            e = (X, (t, d), None, None)
            T.count("parts")
        Alloc.fail_at.value = -1
        if h == FAIL:
            check(err.value is not None and Alloc.refused.value, "part-refused", lambda: "%r" % (err.value,))
            ok = False
            break
        if L.pointless_create_vector_value_append(c, root, h) == FAIL:
            check(False, "append", "")
        exp.append(e)
    if not ok:
        L.pointless_create_end(c)
        check(Alloc.live.value <= live, "part-leak", "")
        T.count("part_out_of_memory")
        return
    L.pointless_create_set_root(c, root)
    buf, n, err = c_void_p(), c_size_t(), c_char_p()
    check(L.pointless_create_output_and_end_b(c, byref(buf), byref(n), byref(err)), "part-output", lambda: "%r" % (err.value,))
    b = ctypes.string_at(buf, n.value)
    free(buf)
    check(Alloc.live.value <= live, "part-leak", "")
    B = decode(b, "part-malformed", T)
    got = items(B, *B.root)
    check(len(got) == len(exp), "part-count", "")
    used = set()
    for (X, v, i, m), h in zip(exp, got):
        if h[0] in ("i", "f"):
            B_ = h
        fwd = {}
        if i is None:
            match(X, B, [(v, h)], fwd, T, "part")
        else:
            check(isvec(h[0]), "slice-type", "")
            y = items(B, *h)
            check(len(y) == m, "slice-length", "%d %d" % (len(y), m))
            match(X, B, zip(items(X, *v)[i:i + m], y), fwd, T, "slice")
        # copies made by separate calls are separate containers
        mine = set(fwd.values())
        check(not (mine & used), "parts-merged", "")
        used |= mine


def case(i, r, T):
    g = G(r)
    k = r.random()
    if k < .25:
        ks = key_set(r, g)[:r.choice([60, 60, 400])]
        b = c22.foreign_bytes(r, ks, [g.scalar() for _ in ks])
        T.count("foreign")
    else:
        if k < .5:
            src = c22.source(r, g)
            if r.random() < .5:
                src = [src, g.value(), set(src), src]
        else:
            src = g.value()
        if r.random() < .03:
            lists = r.random() < .5
            for _ in range(r.choice([60, 200]) if lists else r.choice([60, 100])):
                src = [src] if lists or r.random() < .5 else {"k": src}
        elif r.random() < .4:
            cyc = [g.scalar(), src, {}, []]
            cyc[2]["me"], cyc[2]["list"] = cyc[2], cyc
            cyc[3] += [cyc, cyc[3], cyc[2]] if r.random() < .5 else [cyc[3]]
            src = cyc
        b = bytes(pointless.serialize_to_bytearray(src, normalize_bitvector=r.random() < .7, unwiden_strings=r.random() < .5))
    F = fmt.File(b)
    T.about("file of %d bytes" % len(b))
    f = File(data=b)
    reach = reachable(F)
    prints(F, f.p, reach, r, T)
    copies(b, F, r, T)
    if r.random() < .5:
        b2 = bytes(pointless.serialize_to_bytearray(g.value()))
        F2, f2 = fmt.File(b2), File(data=b2)
        parts(F, f.p, F2, f2.p, reach, r, T)
        f2.close()
    f.close()
    T.ev()
    if F.root[0] in fmt.VECTORS + (fmt.SET, fmt.MAP):
        T.key(b)
