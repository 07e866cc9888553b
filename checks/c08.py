"""C08: comparisons are one total order on comparable values, the same for values in memory and stored ones."""
import functools
import operator

import fmt
import pointless
from gen import *
from keyed import *
from wk import Violation, check

CASES = {"quick": 9000, "thorough": 300000}
RULE = ("one case = a pair (and a third value) of related keys, each in memory, stored in two files and as a slice of a stored vector; pointless_cmp, pointless_is_eq and "
        "the operators of stored vectors and bitvectors are compared with an independent order (numbers by exact value of the float32/integer, strings by code point, "
        "sequences item by item); pairs which have no order must raise, whatever their form; non-trivial = values which are not identical; distinct by both values")
MUST_OBSERVE = ("cmp_less", "cmp_equal", "cmp_greater", "cmp_refused", "operators", "is_eq")
MIN_EVAL = 500
CMP, EQ = pointless.pointless_cmp, pointless.pointless_is_eq


class Unordered(Exception):
    pass


def kind(v):
    if isinstance(v, (bool, int, float)):
        return "n"
    if isinstance(v, str):
        return "s"
    if v is None:
        return "0"
    if isinstance(v, BITVS):
        return "b"
    if isinstance(v, (tuple, list) + VECS):
        return "v"
    return "?"


def sgn(a, b):
    return (a > b) - (a < b)


def cmp_model(a, b):
    ka, kb = kind(a), kind(b)
    if ka != kb or ka == "?":
        raise Unordered
    if ka == "n":
        x = f32(a) if isinstance(a, float) else int(a)
        y = f32(b) if isinstance(b, float) else int(b)
        return sgn(x, y)
    if ka == "s":
        return sgn([ord(c) for c in a], [ord(c) for c in b])
    if ka == "0":
        return 0
    if ka == "b":
        return sgn(bits_of(a), bits_of(b))
    for x, y in zip(a, b):
        c = cmp_model(x, y)
        if c:
            return c
    return sgn(len(a), len(b))


def relative(k, r, g):
    """a value close to k"""
    c = r.random()
    if c < .1:
        return k
    if c < .25:
        return r.choice(spellings(k, r) or [k])
    if c < .8:
        n = near_misses(k, r, g)
        if isinstance(k, str) and k:
            i = r.randrange(len(k))
            n += [k[:i] + r.choice("\x01az\x7f\x80\xff\u0100\ud800\udfff\uffff\U00010000\U0010ffff") + k[i + 1:] for _ in range(4)]
        if isinstance(k, tuple) and k:
            i = r.randrange(len(k))
            n += [k[:i] + (relative(k[i], r, g),) + k[i + 1:] for _ in range(4)]
        if isinstance(k, PointlessBitvector) and len(k):
            b = list(bits_of(k))
            i = r.randrange(len(b))
            b[i] = not b[i]
            n += [PointlessBitvector(sequence=b)] * 2
            # more than one bit, near each other or not
            for _ in range(2):
                b = list(bits_of(k))
                at = r.randrange(len(b))
                for _ in range(r.choice([2, 2, 3, 8])):
                    i = min(len(b) - 1, max(0, at + r.choice([-9, -8, -7, -1, 0, 1, 7, 8, 63, 64]))) if r.random() < .7 else r.randrange(len(b))
                    b[i] = not b[i]
                n.append(PointlessBitvector(sequence=b))
        if isinstance(k, float) and abs(k) < 1e9:
            n += [int(k), int(k) + 1]
        n = [x for x in n if valid(x)]
        if n:
            return r.choice(n)
    return g.key()


def valid(k):
    if isinstance(k, PointlessPrimVector):
        return False
    if isinstance(k, (tuple, list)):
        return all(map(valid, k))
    if isinstance(k, float):
        return k == k
    if isinstance(k, int):
        return I32_MIN <= k <= U32_MAX
    return True


def to_tuple(k):
    """PrimVectors as tuples, they have no order of their own"""
    if isinstance(k, PointlessPrimVector):
        return tuple(pv_items(k)) if k.typecode not in ("i64", "u64") else tuple(x & 0x7fffffff for x in pv_items(k))
    if isinstance(k, (tuple, list)):
        return tuple(map(to_tuple, k))
    return k


def forms(k, r, T):
    """k in memory, and stored"""
    out = [("memory", k, None)]
    if isinstance(k, tuple):
        out.append(("list", list(k), None))
    p = store([k, 1, "a"], r, T)
    out.append(("stored", p.GetRoot()[0], p))
    if isinstance(k, tuple):
        a, b = r.randint(0, 2), r.randint(0, 2)
        g = G(r, "ints" if k and all(type(x) is int for x in k) else None)
        pad = lambda n: tuple(g.scalar(nan=False) if g.flavour != "ints" else g.int_() for _ in range(n))
        p = store(pad(a) + k + pad(b), r, T)
        out.append(("slice", p.GetRoot()[a:a + len(k)], p))
    return out


def ask(f, *a):
    try:
        return f(*a)
    except (TypeError, ValueError):
        return Unordered


OPS = [(operator.lt, lambda c: c < 0), (operator.le, lambda c: c <= 0), (operator.eq, lambda c: c == 0), (operator.ne, lambda c: c != 0), (operator.gt, lambda c: c > 0),
       (operator.ge, lambda c: c >= 0)]


def case(i, r, T):
    g = G(r)
    a = to_tuple(r.choice([g.key, g.key, g.str_, g.float_, g.int_, lambda: tuple(g.key(2) for _ in range(r.randint(0, 6))), g.bitvector, lambda: PointlessBitvector(sequence=[r.random() < .5 for _ in range(r.choice([63, 64, 65, 128, 200, 1000]))])])())
    b = to_tuple(relative(a, r, g))
    T.about("%.500r and %.500r" % (a, b))
    try:
        want = cmp_model(a, b)
    except Unordered:
        want = Unordered
    T.count({-1: "cmp_less", 0: "cmp_equal", 1: "cmp_greater", Unordered: "cmp_refused"}[want])
    fa, fb = forms(a, r, T), forms(b, r, T)
    for na, xa, _ in fa:
        for nb, xb, _ in fb:
            c = ask(CMP, xa, xb)
            check(c is want, "cmp", lambda: "cmp of %s and %s: %r, expected %r" % (na, nb, c, want))
            c2 = ask(CMP, xb, xa)
            check(c2 is want if want is Unordered else c2 == -want, "cmp-reversed", lambda: "cmp of %s and %s: %r, expected the opposite of %r" % (nb, na, c2, want))
            e = ask(EQ, xa, xb)
            T.count("is_eq")
            check(e is (want if want is Unordered else want == 0), "is_eq", lambda: "is_eq of %s and %s: %r" % (na, nb, e))
    for na, xa, _ in fa:
        check(ask(CMP, xa, xa) == 0, "cmp-self", na)
    for na, xa, pa in fa:
        for nb, xb, pb in fb:
            if kind(xa) == kind(xb) == "b" or type(xa) is type(xb) is PointlessVector:
                # the operators; like those of Python lists, where only the first items which are not equal matter
                for op, f in OPS:
                    try:
                        v = op(xa, xb)
                    except TypeError:
                        v = Unordered
                    w = op(bits_of(a), bits_of(b)) if kind(a) == "b" else py_op(op, a, b)
                    T.count("operators")
                    check(v is w, "operator", lambda: "%s of %s and %s: %r, expected %r" % (op.__name__, na, nb, v, w))
    T.ev()
    if a is not b:
        T.key((a if kind(a) != "b" else bits_of(a), b if kind(b) != "b" else bits_of(b)))
    if i < 2:
        T.sample("%.150r ? %.150r: %s" % (a, b, want))
    # sorting by the comparison gives the model's order
    if i % 9 == 0:
        ks = [k for k in (to_tuple(relative(a, r, g)) for _ in range(20)) if kind(k) == kind(a)]
        try:
            w = sorted(ks, key=functools.cmp_to_key(cmp_model))
        except Unordered:
            return
        s = sorted(store(ks, r, T).GetRoot(), key=functools.cmp_to_key(CMP))
        check(all(cmp_model(x, y) == 0 for x, y in zip(s, w)), "sort", lambda: "%r\n%r" % (s, w))
        T.count("sorts")


def stored_scalars(v):
    if isinstance(v, float):
        return f32(v)
    if isinstance(v, tuple):
        return [stored_scalars(x) for x in v]
    return v


def py_op(op, a, b):
    try:
        return op(stored_scalars(a), stored_scalars(b))
    except TypeError:
        return Unordered
