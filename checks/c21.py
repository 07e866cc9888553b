"""C21: stored data can not be changed, and memory which was handed out stays where it is."""
import ctypes
import io
import os
import struct

import pointless
from gen import *
from wk import check, Violation

CASES = {"quick": 2500, "thorough": 80000}
RULE = ("one case = either one stored value on which every way of writing is tried (item and attribute assignment, deletion, in-place operators, mutating methods of lists, dicts and sets, writing through the buffer "
        "protocol), or one history of a primitive vector with up to three buffers exported, in which every operation is tried, or an operation of a vector whose buffer is exported by the argument of the operation; the value, the file and the source are compared with what they were, the vector "
        "and its buffers with a model; non-trivial = something was refused; distinct by the value or history")
MUST_OBSERVE = ("refused_writes", "readonly_buffers", "source_changed", "locked", "unlocked", "written_through", "sorted_exported", "locked_by_argument", "files", "bits_refused")
MIN_EVAL = 1500
SIZE = {"i8": "b", "u8": "B", "i16": "h", "u16": "H", "i32": "i", "u32": "I", "i64": "q", "u64": "Q", "f": "f"}


def refused(what, f, T):
    try:
        f()
    except (TypeError, AttributeError, ValueError, BufferError, IndexError, KeyError, OverflowError):
        T.count("refused_writes")
        return
    except SystemError as e:
        raise Violation("write:" + what, "SystemError: %s" % e)
    raise Violation("write:" + what, "%s did not fail" % what)


def setitem(o, k, v):
    o[k] = v


def delitem(o, k):
    del o[k]


def iadd(o):
    o += type(o).__mro__ and o


def attempts(v, r):
    """ways to change a stored value, all of which must fail"""
    n = type(v).__name__
    out = []
    if "Bitvector" in n:
        L = len(v)
        out += [("set", lambda: setitem(v, r.randrange(L) if L else 0, r.random() < .5)), ("append", lambda: v.append(True)), ("append_bulk", lambda: v.append_bulk([True, False])),
                ("extend_true", lambda: v.extend_true(3)), ("extend_false", lambda: v.extend_false(3)), ("pop", lambda: v.pop()), ("del", lambda: delitem(v, 0))]
    elif "Vector" in n:
        L = len(v)
        out += [("set", lambda: setitem(v, r.randrange(L) if L else 0, r.choice([0, None, "x", v]))), ("del", lambda: delitem(v, 0)), ("slice-set", lambda: setitem(v, slice(0, 1), [1])), ("slice-del", lambda: delitem(v, slice(None))),
                ("typecode", lambda: setattr(v, "typecode", "i8")), ("container_id", lambda: setattr(v, "container_id", 3)),
                ("sort", lambda: pointless.PointlessPrimVector.sort(v)), ("pv-append", lambda: pointless.PointlessPrimVector.append(v, 1)), ("pv-init", lambda: pointless.PointlessPrimVector.__init__(v, "u8"))]
    elif "Set" in n:
        out += [("container_id", lambda: setattr(v, "container_id", 3)), ("ior", lambda: v.__ior__({1})), ("update", lambda: set.update(v, {1})), ("set", lambda: setitem(v, 0, 1))]
    elif "Map" in n:
        out += [("set", lambda: setitem(v, r.choice([0, "x", None]), 1)), ("del", lambda: delitem(v, next(iter(v)) if len(v) else 0)), ("container_id", lambda: setattr(v, "container_id", 3)),
                ("update", lambda: dict.update(v, {1: 2})), ("ior", lambda: v.__ior__({1: 2}))]
    else:
        return out
    out += [("method-" + m, lambda m=m: getattr(v, m)(*r.choice([(), (1,), (1, 2)]))) for m in ("insert", "extend", "clear", "remove", "discard", "add", "setdefault", "update", "popitem", "reverse", "fast_remove", "pop_bulk",
                                                                                              "difference_update", "__setstate__", "__delitem__", "__setitem__", "__iadd__", "__imul__")
            if not ("Bitvector" in n and m in ("append",))]
    out += [("attribute", lambda: setattr(v, r.choice(["x", "_pp", "slice_n", "__class__", "__len__"]), 1)), ("reinit", lambda: type(v)())]
    return out


def through_buffer(v, T, r):
    n = type(v).__name__
    if "Vector" not in n or "Bitvector" in n:
        return
    try:
        m = memoryview(v)
    except BufferError:
        return
    T.count("readonly_buffers")
    check(m.readonly, "writable", "the buffer of a stored vector is not read-only")
    if m.nbytes == 0:
        return
    k = r.randrange(m.nbytes)
    refused("memoryview", lambda: setitem(m, k, 65), T)
    refused("memoryview slice", lambda: setitem(m, slice(k, k + 1), b"A"), T)
    refused("pack_into", lambda: struct.pack_into("B", v, 0, 65), T)
    refused("readinto", lambda: io.BytesIO(b"A" * 64).readinto(v), T)
    refused("from_buffer", lambda: (ctypes.c_ubyte * 1).from_buffer(v), T)
    refused("writable cast", lambda: setitem(m.cast("B"), 0, 65), T)


def parts(v, out, depth=0):
    if len(out) > 60 or depth > 12:
        return
    n = type(v).__name__
    if "Bitvector" in n:
        out.append(v)
    elif hasattr(v, "container_id"):
        out.append(v)
        for x in (list(v) if "Map" not in n else [y for p in v.items() for y in p])[:30]:
            parts(x, out, depth + 1)


def stored(i, r, T):
    g = G(r)
    x = r.choice([lambda: g.value(), lambda: [g.value() for _ in range(4)], lambda: {"a": [1, 2, 3], "b": {1, 2}, 3: [1.5, 2.5], (1, 2): PointlessBitvector(sequence=[True, False] * r.randint(1, 90))}])()
    how = r.randrange(3)
    raw = pointless.serialize_to_bytearray(x)
    f = None
    if how == 0:
        T.count("files")
        f = os.path.join(T.tmp, "ro-%d.map" % os.getpid())
        pointless.serialize(x, f)
        s0 = os.stat(f)
        with open(f, "rb") as fd:
            f0 = fd.read()
        p = pointless.Pointless(f, validate=r.random() < .5)
    else:
        src = bytearray(raw) if how == 1 else PointlessPrimVector("u8", sequence=list(raw))
        p = pointless.Pointless(src, validate=r.random() < .5)
        # the source is no longer needed, whatever becomes of it
        T.count("source_changed")
        k = r.randrange(4)
        if k == 0:
            for j in range(len(src)):
                src[j] = 0xff
        elif k == 1:
            src.clear()
        elif k == 2:
            del src
        else:
            for _ in range(min(40, len(raw))):
                src[r.randrange(len(raw))] = r.randrange(256)
                src.append(7)
    root = p.GetRoot()
    try:
        same(x, root)
        vs = []
        parts(root, vs)
        for v in r.sample(vs, min(len(vs), 8)):
            if "Vector" in type(v).__name__ and "Bit" not in type(v).__name__ and r.random() < .4:
                a = r.randint(0, len(v))
                v = v[a:r.randint(a, len(v))]
            for what, f_ in attempts(v, r):
                if what == "reinit":
                    # types of stored values can not be made by themselves, bitvectors aside
                    if "Bitvector" in type(v).__name__:
                        continue
                refused("%s of %s" % (what, type(v).__name__), f_, T)
                if "Bitvector" in type(v).__name__:
                    T.count("bits_refused")
            through_buffer(v, T, r)
            if "Bitvector" in type(v).__name__:
                # a copy can be changed, and does not change the stored one
                c = v.copy()
                b = bits_of(v)
                c.append(True)
                for j in range(len(v)):
                    c[j] = not b[j] if hasattr(c, "__setitem__") else None
                check(bits_of(v) == b, "copy", "changing a copy of a bitvector changed the stored one")
        same(x, root)
        same(x, p.GetRoot())
    except Differ as d:
        raise Violation("changed", "after attempts to write: %s" % d)
    if f:
        s1 = os.stat(f)
        with open(f, "rb") as fd:
            check(fd.read() == f0, "file", "the file was changed by reading it")
        check(s0.st_mtime_ns == s1.st_mtime_ns and s0.st_size == s1.st_size and s0.st_mode == s1.st_mode, "file", "the file was touched by reading it")
        os.unlink(f)
    T.key(shape(x))


def exported(i, r, T):
    t = r.choice(list(SIZE))
    fmt = SIZE[t]
    sz = struct.calcsize(fmt)

    def val():
        if t == "f":
            return f32(r.uniform(-50, 50))
        return r.randint(0, 100)
    m = [val() for _ in range(r.choice([0, 1, 2, 3, 5, 17, 40]))]
    v = prim(t, m)
    bufs = []
    log = []

    def raw():
        return struct.pack("=%d%s" % (len(m), fmt), *m)
    for step in range(r.randint(4, 30)):
        k = r.randrange(18)
        log.append(k)
        T.about("%s: %s, %d buffers, %d items" % (t, log, len(bufs), len(m)))
        if k < 4 and len(bufs) < 3:
            b = r.choice([lambda: memoryview(v), lambda: memoryview(v).cast("B"), lambda: memoryview(v)[0:len(m) * sz]])()
            check(not b.readonly, "readonly", "the buffer of a primitive vector can not be written")
            a = ctypes.addressof((ctypes.c_ubyte * 1).from_buffer(b)) if len(m) else 0
            bufs.append((b, a))
        elif k < 6 and bufs:
            bufs.pop(r.randrange(len(bufs)))[0].release()
        elif k == 6 and bufs and m:
            b, a = r.choice(bufs)
            j = r.randrange(len(m))
            m[j] = val()
            b[j * sz:(j + 1) * sz] = struct.pack("=" + fmt, m[j])
            T.count("written_through")
        elif k == 7 and m:
            j = r.randrange(len(m))
            m[j] = val()
            v[j] = m[j]
        elif k == 8:
            v.sort()
            m.sort()
            if bufs:
                T.count("sorted_exported")
        else:
            y = val()
            ops = {9: ("append", lambda: v.append(y), lambda: m.append(y), True), 10: ("append_bulk", lambda: v.append_bulk([y, y]), lambda: m.extend([y, y]), True),
                   11: ("append_bulk vector", lambda: v.append_bulk(prim(t, [y])), lambda: m.append(y), True),
                   12: ("pop", lambda: v.pop(), lambda: m.pop(), len(m) > 0), 13: ("pop_bulk", lambda: v.pop_bulk(1), lambda: m.pop(), len(m) > 0),
                   14: ("clear", lambda: v.clear(), lambda: m.clear(), True), 15: ("remove", lambda: v.remove(m[0]), lambda: m.remove(m[0]), len(m) > 0 and t != "f"),
                   16: ("fast_remove", lambda: v.fast_remove(m[-1]), lambda: None, len(m) > 0 and t != "f"),
                   17: ("init", lambda: v.__init__(t, sequence=[y]), lambda: m.__setitem__(slice(None), [y]), True)}
            if k not in ops:
                continue
            what, f, g, can = ops[k]
            if not can:
                continue
            if bufs:
                try:
                    f()
                except BufferError:
                    T.count("locked")
                else:
                    raise Violation("resized:" + what, "%s of a vector which is exported did not fail" % what)
            else:
                if what == "fast_remove":
                    y = m[-1]
                    j = m.index(y)
                    m[j] = m[-1]
                    m.pop()
                    v.fast_remove(y)
                else:
                    f()
                    g()
                T.count("unlocked")
        e = raw()
        check(len(v) == len(m) and bytes(memoryview(v)) == e, "vector", lambda: "the vector is %r instead of %r" % (list(v), m))
        for b, a in bufs:
            check(bytes(b) == e, "buffer", lambda: "a buffer is %r while the vector is %r" % (bytes(b), e))
            check(not len(m) or ctypes.addressof((ctypes.c_ubyte * 1).from_buffer(v)) == a, "moved", "the memory of an exported vector moved")
    if bufs and r.random() < .5:
        # the memory outlives the vector's name
        e = raw()
        v = None
        for b, a in bufs:
            check(bytes(b) == e, "buffer", "a buffer changed when its vector was dropped")
    T.key((t, tuple(log), i))


def hooked(i, r, T):
    """the buffer is exported by the argument of the operation which would resize the vector"""
    t = r.choice(list(SIZE))
    fmt = SIZE[t]
    m = [f32(r.uniform(-50, 50)) if t == "f" else r.randint(0, 100) for _ in range(r.choice([1, 2, 3, 8, 16, 17, 40]))]
    v = prim(t, m)
    got = []

    class A:
        def __init__(self, x):
            self.x = x

        def export(self):
            b = memoryview(v)
            got.append((b, ctypes.addressof((ctypes.c_ubyte * 1).from_buffer(b)), bytes(b)))

        def __float__(self):
            self.export()
            return float(self.x)

        def __index__(self):
            self.export()
            return int(self.x)

    def items():
        yield m[0]
        A(0).export()
        yield m[0]

    what, f = r.choice([("remove", lambda: v.remove(A(m[0]))), ("fast_remove", lambda: v.fast_remove(A(m[-1]))), ("pop_bulk", lambda: v.pop_bulk(A(1))), ("append", lambda: v.append(A(m[0]))),
                        ("append_bulk", lambda: v.append_bulk([A(m[0]), m[0]])), ("append_bulk of a generator", lambda: v.append_bulk(items())), ("init", lambda: v.__init__(t, sequence=items())),
                        ("set", lambda: setitem(v, A(0), m[0])), ("get", lambda: v[A(0):A(1)])])
    T.about("%s of %d items of type %s" % (what, len(m), t))
    try:
        f()
    except (TypeError, ValueError, BufferError, OverflowError, IndexError) as e:
        # an operation which failed changed nothing, unless the vector was being made anew
        if what != "init":
            check(list(v) == m, "hooked:" + what, lambda: "after %r the vector is %r instead of %r" % (e, list(v), m))
        if isinstance(e, BufferError):
            T.count("locked_by_argument")
    else:
        if got and what not in ("set", "get"):
            raise Violation("hooked:" + what, "%s of a vector which was exported by its argument did not fail" % what)
    for b, a, e in got:
        check(bytes(b) == e, "buffer", lambda: "%s: a buffer is %r instead of %r" % (what, bytes(b), e))
        b.release()
    v.append(m[0])
    check(v[-1] == m[0], "vector", "append() after the buffers were released")
    T.key((t, what, len(m), i))


def case(i, r, T):
    T.ev()
    (hooked if i % 10 == 4 else stored if i % 2 else exported)(i, r, T)
