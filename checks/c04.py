"""C04: what can not be stored is refused, and leaves nothing behind."""
import decimal
import os
import sys

import pointless
from c02 import graph
from gen import *
from wk import Violation, check

CASES = {"quick": 4000, "thorough": 120000}
RULE = ("one case = a storable value or object graph with one unstorable part planted at a random place (unsupported types, integers beyond 32 bits, null characters, "
        "excessive depth, keys which are unhashable, NaN, too deep or equal once stored), or an unusable target; it must raise ValueError or OSError, leave an "
        "existing target and its directory as they were, and the reference counts of every object of the source too; the value without the part must still be stored; "
        "distinct by kind of fault, target and place")
MUST_OBSERVE = ("refused_value", "refused_key", "refused_depth", "refused_target", "accepted_after")
MIN_EVAL = 500


class Sub(int):
    pass


def deep(n, f):
    v = 1
    for _ in range(n):
        v = f(v)
    return v


def bad_value(r):
    k = r.randrange(14)
    if k == 0:
        return r.choice([2 ** 32, 2 ** 32 + r.randint(0, 1000), 2 ** 33 - 1, 2 ** 63 - 1, 2 ** 63, 2 ** 64 - 1, 2 ** 64, 2 ** 64 + 1, 2 ** 100, r.randint(2 ** 32, 2 ** 70)])
    if k == 1:
        return r.choice([-2 ** 31 - 1, -2 ** 31 - r.randint(1, 1000), -2 ** 32, -2 ** 63, -2 ** 63 - 1, -2 ** 64, -r.randint(2 ** 32, 2 ** 70)])
    if k == 2:
        s = [chr(r.choice([r.randint(1, 127), r.randint(1, 0xffff), r.randint(1, 0x10ffff)])) for _ in range(r.randint(0, 20))]
        s.insert(r.randint(0, len(s)), "\0")
        return "".join(s)
    if k == 3:
        return Sub(r.choice([2 ** 32, -2 ** 31 - 1, 2 ** 70]))
    return [object(), b"abc", 1j, range(3), iter([1]), memoryview(b"a"), ..., len, int, decimal.Decimal(1), {}.keys(), NotImplemented, object, array.array("i", [1]),
            (x for x in ()), slice(1), type, pointless.Pointless(pointless.serialize_to_buffer(1))][r.randrange(18)]


def bad_key(r):
    k = r.randrange(9)
    if k == 0:
        x = bad_value(r)
        try:
            hash(x)
        except TypeError:
            x = b"a"
        return {x}
    if k == 1:
        return r.choice([{frozenset([1, 2])}, {(1, frozenset())}, {frozenset(): 1}, {((frozenset([3]), 2), "a"): 1}])
    if k == 2:
        return r.choice([{math.nan}, {(math.nan,)}, {(1, ("a", math.nan)): 1}, {prim("f", [1.0, math.nan])}, {float("nan"): 1, float("nan"): 2}])
    if k == 3:
        x = r.uniform(0.1, 1000)
        return {x: 1, f32(x): 2} if f32(x) != x else {math.nan}
    if k == 4:
        x = [r.randint(0, 255) for _ in range(r.randint(0, 5))]
        return {tuple(x): 1, prim(r.choice(["u8", "u16", "i32", "u64"]), x): 2}
    if k == 5:
        x = [r.random() < .5 for _ in range(r.randint(0, 50))]
        return {PointlessBitvector(sequence=x), PointlessBitvector(sequence=x)} if False else {prim("u8", x): 1, prim("i64", x): 2}
    if k == 6:
        return {1e300, math.inf}
    if k == 7:
        return {deep(r.choice([256, 260, 300, 511, 600]), lambda v: (v,)): 1}
    return {16777217.0: 1, 16777216: 2}


def wrap(x, r, depth):
    """x at a random place of a value; the path to it too"""
    path = []
    for _ in range(depth):
        g = G(r)
        g.slack = 8
        k = r.randrange(4)
        path.append(k)
        if k == 0:
            x = [g.value() for _ in range(r.randint(0, 4))] + [x] + [g.value() for _ in range(r.randint(0, 3))]
        elif k == 1:
            x = (x, g.scalar())
        elif k == 2:
            x = {"a": 1, "b": x, "c": "d"}
        else:
            x = [x, x]
    return x, path


def all_objects(x, limit=3000):
    out, stack = {}, [x]
    while stack and len(out) < limit:
        v = stack.pop()
        if id(v) in out:
            continue
        out[id(v)] = v
        if isinstance(v, dict):
            stack.extend(v.values())
            stack.extend(v)
        elif isinstance(v, (list, tuple, set, frozenset)):
            stack.extend(v)
    return list(out.values())


def call(x, r, T, d, existing):
    """serializes to a random target; returns nothing"""
    how = r.randrange(3)
    if how == 0:
        pointless.serialize(x, os.path.join(d, existing))
    elif how == 1:
        pointless.serialize_to_buffer(x)
    else:
        pointless.serialize_to_bytearray(x)


def listing(d):
    out = {}
    for f in sorted(os.listdir(d)):
        p = os.path.join(d, f)
        out[f] = open(p, "rb").read() if os.path.isfile(p) else None
    return out


def case(i, r, T):
    d = os.path.join(T.tmp, "c04-%d" % os.getpid())
    os.makedirs(os.path.join(d, "sub"), exist_ok=True)
    with open(os.path.join(d, "old.map"), "wb") as f:
        f.write(b"previous content")
    good = graph(r)[0] if r.random() < .3 else G(r).value()
    k = r.random()
    if k < .5:
        kind, bad = "refused_value", bad_value(r)
        desc = type(bad).__name__
    elif k < .85:
        kind, bad = "refused_key", bad_key(r)
        desc = "key%.60r" % (bad,)
    elif k < .93:
        kind, bad = "refused_depth", deep(r.choice([512, 513, 600, 1500, 20000]), r.choice([lambda v: [v], lambda v: (v,), lambda v: {"k": v}, lambda v: [1, [v], 2]]))
        if r.random() < .2:
            bad = [[] for _ in range(3000)]
            for a, b in zip(bad, bad[1:]):
                a.append(b)
            bad = bad[0]
        desc = "deep"
    else:
        kind, bad, desc = "refused_target", None, "target"
    if kind == "refused_target":
        before = listing(d)
        t = r.choice([os.path.join(d, "no-such-directory", "x"), os.path.join(d, "sub"), os.path.join(d, "old.map", "x"), "", os.path.join(d, "x" * 300), d])
        T.about("target %r" % (t[-40:],))
        try:
            pointless.serialize(good, t)
        except OSError:
            pass
        else:
            raise Violation("unusable-target-accepted", t)
        check(listing(d) == before, "left-behind", lambda: "%s" % (set(listing(d)) ^ set(before),))
        T.count(kind)
        T.ev()
        T.key((kind, t[-10:]))
        pointless.serialize(good, os.path.join(d, "ok.map"))
        same(good, pointless.Pointless(os.path.join(d, "ok.map")).GetRoot())
        os.unlink(os.path.join(d, "ok.map"))
        T.count("accepted_after")
        return
    bad, path = wrap(bad, r, r.choice([0, 0, 1, 2, 3]))
    x = r.choice([lambda: bad, lambda: [good, bad], lambda: [bad, good], lambda: {"good": good, "bad": bad}])()
    T.about("fault %s at %s" % (desc, path))
    objs = all_objects(x)
    target = r.choice(["old.map", "new.map"])
    before = listing(d)
    rc = [sys.getrefcount(o) for o in objs]
    err = None
    try:
        call(x, r, T, d, target)
    except (ValueError, OSError) as e:
        err = str(e)
    rc2 = [sys.getrefcount(o) for o in objs]
    check(err is not None, "unstorable-accepted", "%s was stored" % desc)
    check(err != "", "no-message", "")
    for o, a, b in zip(objs, rc, rc2):
        # immortal and cached objects are in use elsewhere
        if a != b and type(o) in (list, dict, set, frozenset, tuple, PointlessPrimVector, PointlessBitvector, bytearray) and o != ():
            raise Violation("reference-count", "%.100r: %d then %d" % (o, a, b))
    after = listing(d)
    check(after == before, "left-behind", lambda: "files %s, changed %s" % (sorted(set(after) ^ set(before)), [f for f in before if before[f] != after.get(f)]))
    T.ev()
    T.count(kind)
    T.key((kind, desc[:40], path, target))
    if r.random() < .3:
        try:
            same(good, store(good, r, T).GetRoot())
        except Differ as e:
            raise Violation("differs-after-refusal", str(e))
        T.count("accepted_after")
    if i < 3:
        T.sample("%s %s: %s" % (desc, path, err))
