"""C17: memory which runs out is an exception, and nothing else."""
import ctypes
import functools
import gc
import operator
import os

import pointless
from gen import *
from wk import Violation, check

VARIANT = "oom"
CASES = {"quick": 3600, "thorough": 150000}
RULE = ("one evaluation = one call of the library with one of the memory allocations it makes refused, or that one and all later ones (the library's own, the interpreter's on its behalf, or both): "
        "the call raises, or gives what it gives without the fault; what it was to change is as before or, where it added items one after the other, has some of the first of them; "
        "the same call then works; repeated, the failing call leaves no memory behind; "
        "non-trivial = an allocation was refused; distinct by call, allocation and outcome")
MUST_OBSERVE = ("refused", "raised", "absorbed", "leak_checked", "store", "open", "read", "primvec", "bitvec", "library", "interpreter")
MIN_EVAL = 5000
LEVEL = "fault_enumeration"
ASSUMPTIONS = ["CPython itself copes with refused allocations", "what the C library allocates internally (stdio) is not refused here but in C16"]

NOT = object()


def setup(T):
    global oom, allocated
    oom = ctypes.PyDLL(pointless.__file__)
    oom.oom_run.restype = ctypes.py_object
    oom.oom_run.argtypes = [ctypes.py_object, ctypes.py_object, ctypes.c_long, ctypes.c_int, ctypes.c_int]
    oom.oom_install()
    allocated = getattr(ctypes.CDLL(None), "__sanitizer_get_current_allocated_bytes")
    allocated.restype = ctypes.c_size_t


def canon(x, depth=0):
    """something to compare, which holds on to nothing"""
    if depth > 12:
        return "..."
    if isinstance(x, PointlessVector):
        return ("v", [canon(y, depth + 1) for y in x])
    if isinstance(x, PointlessMap):
        return ("m", [(canon(k, depth + 1), canon(y, depth + 1)) for k, y in x.items()])
    if isinstance(x, PointlessSet):
        return ("s", [canon(y, depth + 1) for y in x])
    if isinstance(x, PointlessBitvector):
        return ("b", list(x))
    if isinstance(x, PointlessPrimVector):
        return ("p", x.typecode, list(x))
    if isinstance(x, pointless.Pointless):
        try:
            root = x.GetRoot()
        except ValueError as e:
            return ("P", str(e))
        return ("P", canon(root))
    if isinstance(x, (list, tuple)):
        return (type(x).__name__, [canon(y, depth + 1) for y in x])
    if isinstance(x, (bytes, bytearray)):
        return bytes(x)
    if isinstance(x, float):
        return repr(x)
    if x is None or isinstance(x, (int, str, bool)):
        return x
    if isinstance(x, memoryview):
        return ("mv", x.tobytes(), x.format)
    if hasattr(x, "__next__"):
        return ("it", [canon(y, depth + 1) for y in x])
    return type(x).__name__


# --- the calls: each is made anew from a seed as (kind, function, arguments, what it changes or None)
def values(r, g):
    return r.choice([lambda: g.value(), lambda: [g.scalar() for _ in range(r.randint(0, 12))], lambda: {k: str(k) for k in range(r.randint(0, 9))}, lambda: set(range(r.randint(0, 9))),
                     lambda: [r.choice(["a", "b" * 9, "abcdefghijkl", "\u1234\u1235", "\U0001f600"]) + str(r.randrange(5)) for _ in range(r.randint(0, 9))],
                     lambda: [PointlessBitvector(sequence=[r.random() < .5 for _ in range(r.choice([3, 40, 100]))]) for _ in range(3)],
                     lambda: [prim("u16", [1, 2, 3]), bytearray(b"abc"), (1.5, 2.5), (1, None), ((1, 2), (3,))], lambda: {(1, "a"): {2: 3}, "k": [None, True]}])()


def small(r):
    g = G(r)
    if r.random() < .04:
        n = r.choice([100, 400, 1500])
        return r.choice([lambda: ["%d" % k for k in range(n)], lambda: {k: "long string number %d" % (k // 2) for k in range(n)}, lambda: [[k] for k in range(n)], lambda: [[[k], (k,)] for k in range(n)],
                         lambda: set(range(n)), lambda: [PointlessBitvector(sequence=[r.random() < .5 for _ in range(64)]) for _ in range(n)], lambda: [{k: [k]} for k in range(n)]])()
    for _ in range(50):
        x = values(r, g)
        if count(x) < 400 and not by_address(x):
            return x
    return [1]


def by_address(x):
    """is there something in it whose order depends on where it is in memory"""
    if isinstance(x, (dict, set, frozenset)):
        todo = list(x)
        while todo:
            y = todo.pop()
            if isinstance(y, (tuple, frozenset)):
                todo += y
            elif not isinstance(y, (int, float, str, bool, type(None))):
                return True
        return isinstance(x, dict) and any(by_address(y) for y in x.values())
    return isinstance(x, (list, tuple)) and any(by_address(y) for y in x)


def count(x, lim=500):
    n, todo = 0, [x]
    while todo and n < lim:
        y = todo.pop()
        n += 1
        if isinstance(y, dict):
            todo += list(y) + list(y.values())
        elif isinstance(y, (list, tuple, set, frozenset)):
            todo += list(y)
        elif isinstance(y, (str, bytearray, PointlessPrimVector, PointlessBitvector)):
            n += len(y) // 50
    return n


def c_store(r, T):
    x = small(r)
    f = r.choice([pointless.serialize_to_bytearray, pointless.serialize_to_buffer, pointless.serialize])
    o = r.choice([{}, {}, {"unwiden_strings": True}, {"normalize_bitvector": False}])
    if f is pointless.serialize:
        return functools.partial(f, **o), (x, os.path.join(T.tmp, "oom-%d" % os.getpid())), None
    return functools.partial(f, **o), (x,), None


def c_open(r, T):
    b = pointless.serialize_to_bytearray(small(r))
    k = r.randrange(6)
    if k == 0:
        b = b[:r.randint(0, len(b))]
    if k == 1:
        for _ in range(3):
            b[r.randrange(len(b))] ^= 1 << r.randrange(8)
    if k == 2:
        return pointless.Pointless, (prim("u8", list(b)),), None
    if k == 3:
        f = os.path.join(T.tmp, "oomo-%d" % os.getpid())
        with open(f, "wb") as h:
            h.write(b)
        return pointless.Pointless, (f,), None
    return pointless.Pointless, (b,), None


def inside(v):
    """all the containers of a stored value"""
    out, todo = [], [v]
    while todo and len(out) < 60:
        x = todo.pop()
        if isinstance(x, (PointlessVector, PointlessMap, PointlessSet, PointlessBitvector)):
            out.append(x)
        if isinstance(x, PointlessMap):
            todo += list(x.keys()) + list(x.values())
        elif isinstance(x, (PointlessVector, PointlessSet)):
            todo += list(x)
    return out


def c_read(r, T):
    x = [small(r), {"a": [1, 2], (1, 2): None, 5: "x"}, {1, "s", (2, 3)}, prim("f", [1.5, 2.5]), (1, 2, 3), [1, "a", None, 2.5]]
    b = pointless.serialize_to_bytearray(x)
    c = inside(pointless.Pointless(b).GetRoot())
    v, w = r.choice(c), r.choice(c)
    q = r.choice([1, "a", (1, 2), None, 2.5, [1, 2], "zz", w, (w,), b"x"])
    fs = [(repr, (v,)), (str, (v,)), (len, (v,)), (operator.eq, (v, w)), (operator.lt, (v, w)), (operator.eq, (v, q)), (pointless.pointless_cmp, (v, w)), (pointless.pointless_is_eq, (v, w)),
          (pointless.pointless_cmp, (q, v)), (pointless.pyobject_hash, (v,)), (pointless.pyobject_hash, (q,)), (v.__sizeof__, ()), (iter, (v,)), (list, (v,)), (operator.contains, (v, q)),
          (pointless.serialize_to_bytearray, (v,)), (pointless.serialize_to_bytearray, ([v, w],)), (type(v), ())]
    if isinstance(v, PointlessVector):
        # compared with vectors which begin alike
        u = next(u for k, u in zip(c, inside(pointless.Pointless(b).GetRoot())) if k is v)
        m = r.randint(0, len(v))
        alike = r.choice([(v, u), (u, v), (v, v), (v[:m], u), (u, v[:m])])
        fs += [(op, alike) for op in (operator.eq, operator.ne, operator.lt, operator.le, operator.gt, operator.ge, pointless.pointless_cmp)]
        a, b = r.randint(-6, 6), r.randint(-6, 6)
        fs += 2 * [(operator.getitem, (v, a)), (operator.getitem, (v, slice(a, b))), (operator.getitem, (v, slice(a, b, r.choice([1, 2, -1])))), (reversed, (v,)), (v.max, ()), (v.min, ()), (v.range, ()), (v.bisect_left, (q,)),
                   (getattr, (v, "typecode")), (getattr, (v, "container_id")), (memoryview, (v,)), (v.bisect_left, (q, pointless.pointless_cmp))]
    elif isinstance(v, PointlessMap):
        fs += 4 * [(operator.getitem, (v, q)), (v.get, (q,)), (v.get, (q, 5)), (v.keys, ()), (v.values, ()), (v.items, ()), (list, (v.items(),)), (list, (v.values(),)), (dict, (v.items(),)), (next, (v.items(),))]
    elif isinstance(v, PointlessSet):
        fs += 2 * [(next, (iter(v),)), (operator.contains, (v, q)), (set, (v,))]
    f, a = r.choice(fs)
    return f, a, None


def c_primvec(r, T):
    t = r.choice(["i8", "u8", "i16", "u16", "i32", "u32", "i64", "u64", "f"])
    it = [float(x) if t == "f" else x for x in [5, 1, 3, 100, 7, 1, 0, 9, 2, 2]]
    items = [r.choice(it) for _ in range(r.choice([0, 1, 3, 7, 8, 20]))]
    v, w = prim(t, items), prim(t, [r.choice(it) for _ in range(5)])
    idx = prim("u32", [r.randrange(max(1, len(items))) for _ in range(3)])
    V = PointlessPrimVector
    stored = pointless.Pointless(pointless.serialize_to_bytearray([w, prim("u16", [0, 1, 1])])).GetRoot()
    q = r.choice(it)
    k = sorted(range(len(items)))
    fs = [(V, (t,)), (functools.partial(V, t, sequence=items), ()), (functools.partial(V, t, sequence=iter(items)), ()), (functools.partial(V, buffer=v.serialize()), ()), (v.serialize, ()), (v.append, (q,)), (v.append, (q,)),
          (v.append_bulk, (items,)), (v.append_bulk, (w,)), (v.append_bulk, (stored[0],)), (v.append_bulk, (it * 3,)), (v.append_bulk, (v,)), (v.append_bulk, (iter(it),)), (v.pop, ()), (v.pop_bulk, (1,)), (v.index, (q,)), (v.remove, (q,)), (v.fast_remove, (q,)), (v.sort, ()),
          (prim("u32", k).sort_proj, (v,)), (prim("u32", k).sort_proj, (v, v)), (v.clear, ()), (v.__sizeof__, ()), (V.FromRemap, (v, idx)), (V.FromRemap, (stored[0], stored[1])), (v.max, ()), (v.min, ()), (v.range, ()), (reversed, (v,)), (list, (v,)),
          (repr, (v,)), (str, (v,)), (operator.getitem, (v, slice(1, 5))), (operator.getitem, (v, 0)), (operator.setitem, (v, 0, q)), (operator.eq, (v, w)), (operator.contains, (v, q)), (memoryview, (v,)), (bytes, (v,)), (getattr, (v, "typecode")),
          (pointless.pyobject_hash, (v,)), (pointless.pointless_cmp, (v, w)), (v.__init__, (t,)), (functools.partial(v.__init__, t, sequence=items), ())]
    f, a = r.choice(fs)
    o = getattr(getattr(f, "func", f), "__self__", None)
    if f is operator.setitem:
        o = v
    return f, a, (o if isinstance(o, V) else None)


def c_bitvec(r, T):
    bits = [r.random() < .5 for _ in range(r.choice([0, 1, 7, 8, 28, 40, 100]))]
    b = PointlessBitvector(sequence=bits)
    c = pointless.Pointless(pointless.serialize_to_bytearray(PointlessBitvector(sequence=[1, 0, 0, 1] * r.choice([1, 20])))).GetRoot()
    B = PointlessBitvector
    n = r.choice([0, 1, 8, 100, 1000])
    fs = [(B, ()), (functools.partial(B, size=n), ()), (functools.partial(B, sequence=bits), ()), (functools.partial(B, sequence=iter(bits)), ()), (b.append, (True,)), (b.append_bulk, (bits,)), (b.append_bulk, (c,)), (b.append_bulk, (b,)), (b.append_bulk, ([True] * 30,)), (b.append_bulk, (iter([1, 0] * 20),)),
          (b.extend_true, (n,)), (b.extend_false, (n,)), (b.pop, ()), (b.copy, ()), (c.copy, ()), (repr, (b,)), (str, (c,)), (list, (b,)), (iter, (c,)), (operator.eq, (b, c)), (operator.lt, (b, c)), (hash, (c,)), (hash, (b,)), (operator.getitem, (b, 0)), (operator.setitem, (b, 0, True)),
          (b.NumZeroPrefix, ()), (c.IsAnySet, ()), (operator.or_, (b, b)), (operator.ior, (b, b)), (pointless.pyobject_hash, (b,)), (pointless.serialize_to_bytearray, (b,)), (b.__sizeof__, ()), (functools.partial(b.__init__, sequence=bits), ())]
    f, a = r.choice(fs)
    o = getattr(getattr(f, "func", f), "__self__", None)
    if f in (operator.setitem, operator.ior):
        o = b
    return f, a, (o if isinstance(o, B) else None)


def c_direct(r, T):
    """comparisons and hashes of ordinary values"""
    x, y = small(r), small(r)
    t = r.choice([(1, "a", (2.5, None)), ("x" * 50, "\u1234"), ((1,), (2, (3,))), "abc", 5, frozenset([1])])
    f, a = r.choice([(pointless.pointless_cmp, (x, y)), (pointless.pointless_is_eq, (x, x)), (pointless.pyobject_hash, (t,)), (pointless.pyobject_hash_32, (t,)), (pointless.pyobject_hash, (t, 0))]
                    if hasattr(pointless, "pyobject_hash_32") else [(pointless.pointless_cmp, (x, y)), (pointless.pyobject_hash, (t,)), (pointless.pyobject_hash, (t, 1))])
    return f, a, None


KINDS = [("store", c_store), ("store", c_store), ("open", c_open), ("read", c_read), ("read", c_read), ("primvec", c_primvec), ("primvec", c_primvec), ("bitvec", c_bitvec), ("read", c_direct)]


def name(f, a):
    f0 = getattr(f, "func", f)
    o = getattr(f0, "__self__", None)
    n = getattr(f0, "__name__", str(f0))
    return "%s%s(%s)" % (type(o).__name__ + "." if o is not None and not isinstance(o, type(os)) else "", n, ", ".join(type(y).__name__ for y in a))


def call(f, a, at, mode, kinds):
    """(result, exception)"""
    try:
        return oom.oom_run(f, a, at, mode, kinds), None
    except Exception as x:
        return NOT, x


def outcome(f, a, ob, at=-1, mode=0, kinds=3):
    res, x = call(f, a, at, mode, kinds)
    n = ctypes.c_long.in_dll(oom, "oom_seen").value
    refused = ctypes.c_long.in_dll(oom, "oom_failed").value
    if x is not None:
        e = type(x).__name__
        msg = str(x)
        x.__traceback__ = None
        return (e, msg), n, refused
    return ("ok", canon(res)), n, refused


def case(i, r, T):
    kind, make = KINDS[i % len(KINDS)]
    seed = r.getrandbits(50)

    def fresh():
        return make(random.Random(seed), T)
    kinds = r.choice([1, 2, 3, 3])
    f, a, ob = fresh()
    nm = name(f, a)
    # warm
    outcome(f, a, ob)
    f, a, ob = fresh()
    s0 = canon(ob)
    good, n, _ = outcome(f, a, ob, -1, 0, kinds)
    s1 = canon(ob)
    T.count(kind)
    ks = list(range(n))
    most = 24 if T.tier == "quick" else 200
    if n > most:
        ks = sorted(set(r.sample(range(n), most - 6)) | {0, 1, n - 1, n - 2, n - 3, n - 4})
    for k in ks:
        mode = int(r.random() < .35)
        f, a, ob = fresh()
        what = "%s, allocation %d of %d%s (%s)" % (nm, k, n, " and all later" if mode else "", {1: "library", 2: "interpreter", 3: "both"}[kinds])
        T.about(what)
        res, _, refused = outcome(f, a, ob, k, mode, kinds)
        now = canon(ob)
        if not refused:
            T.count("not_reached")
            continue
        T.ev()
        T.count("refused")
        T.count("library" if kinds == 1 else "interpreter" if kinds == 2 else "both")
        T.key((nm, k, mode, kinds, res[0]))
        if res[0] == "ok" or res == good:
            check(res == good, "wrong-result", lambda: "%s: %.300s instead of %.300s" % (what, res, good))
            check(now == s1, "wrong-state", lambda: "%s: %.300s instead of %.300s" % (what, now, s1))
            T.count("absorbed")
        else:
            T.count("raised")
            check(res[0] in ("MemoryError", "OSError", "ValueError"), "exception-type:%s" % res[0], lambda: "%s: %s" % (what, res))
            T.count("raised_" + res[0])
            if now != s0:
                # some of the items were added
                ok = isinstance(now, tuple) and isinstance(now[-1], list) and now[-1] == s1[-1][:len(now[-1])] and now[-1][:len(s0[-1])] == s0[-1] and len(now[-1]) < len(s1[-1])
                # what is initialised again may be anything
                ok = ok or "__init__" in nm
                check(ok, "state-changed", lambda: "%s: %.300s, was %.300s" % (what, now, s0))
                T.count("partial")
            else:
                again = outcome(f, a, ob)[0]
                if good[0] == "ok" and not any(hasattr(y, "__next__") for y in a) and "iter" not in nm and not (hasattr(f, "keywords") and any(hasattr(y, "__next__") for y in f.keywords.values())):
                    check(again == good, "broken-afterwards", lambda: "%s: %.300s instead of %.300s" % (what, again, good))
                    check(canon(ob) == s1, "broken-afterwards", lambda: "%s: %.300s instead of %.300s" % (what, canon(ob), s1))
    # leaks
    for k in r.sample(ks, min(len(ks), 4 if T.tier == "quick" else 12)):
        mode = int(r.random() < .35)
        T.about("%s: leak, allocation %d of %d%s (%d)" % (nm, k, n, " and all later" if mode else "", kinds))

        def grows(m):
            t = array.array("q", [0] * (m + 1))
            gc.collect()
            t[0] = allocated()
            for j in range(m):
                f, a, ob = fresh()
                call(f, a, k, mode, kinds)
                del f, a, ob
                gc.collect()
                t[j + 1] = allocated()
            return [t[j + 1] - t[j] for j in range(m)]
        T.count("leak_checked")
        if min(grows(3)) > 0 and min(grows(10)) > 0:
            d = grows(30)
            if min(d) > 0:
                raise Violation("leak", "bytes left behind by each: %s" % d)
