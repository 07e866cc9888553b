"""C20: texts of values."""
import pointless
from c02 import graph
from gen import *
from wk import check, Violation

CASES = {"quick": 4000, "thorough": 150000}
RULE = ("one case = one stored value (generated, deep, or a graph with sharing and cycles), primitive vector or bitvector, its text, those of values and slices within it, compared with the text made from the "
        "items read one at a time; with printing disallowed, the text says type and address only; non-trivial = a text of 20 characters or more; distinct by the text")
MUST_OBSERVE = ("vectors", "slices", "sets", "maps", "bitvectors", "cycles", "tuples", "primvectors", "own_bitvectors", "disallowed", "floats", "strings", "evaluated", "deep")
MIN_EVAL = 2000
ASSUMPTIONS = ["reading single items is right (C01, C05, C06, C09, C12)", "floats are printed with 6 decimals; the sign of NaN is not considered"]


class Cycle(Exception):
    pass


def text(v, above, tup, T):
    """(text) of a stored value, with the containers around it"""
    t = type(v)
    if v is None or t is bool or t is int:
        return str(v)
    if t is float:
        T.count("floats")
        return "%f" % v
    if t is str:
        T.count("strings")
        return repr(v)
    n = t.__name__
    if "Bitvector" in n:
        T.count("bitvectors")
        return "".join("1" if v[i] else "0" for i in reversed(range(len(v)))) + "b"
    if "Vector" in n:
        c = v.container_id if len(v) else None
        T.count("tuples" if tup else "vectors")
        if ("v", c) in above and c is not None:
            T.count("cycles")
            return "[...]"
        a = above | {("v", c)}
        x = [text(y, a, tup, T) for y in v]
        return ("(%s,)" if len(x) == 1 else "(%s)") % ", ".join(x) if tup else "[%s]" % ", ".join(x)
    if "Set" in n:
        T.count("sets")
        if ("s", v.container_id) in above:
            T.count("cycles")
            return "set([...])"
        a = above | {("s", v.container_id)}
        return "set([%s])" % ", ".join(text(y, a, True, T) for y in v)
    check("Map" in n, "type", "unexpected %r" % t)
    T.count("maps")
    if ("m", v.container_id) in above:
        T.count("cycles")
        return "{...}"
    a = above | {("m", v.container_id)}
    return "{%s}" % ", ".join("%s: %s" % (text(k, a, True, T), text(w, a, False, T)) for k, w in v.items())


def norm(s):
    return s.replace("-nan", "nan")


def differ(got, exp, what):
    if norm(got) == norm(exp):
        return
    i = 0
    got, exp = norm(got), norm(exp)
    while i < min(len(got), len(exp)) and got[i] == exp[i]:
        i += 1
    raise Violation("text", "%s: text differs at %d: %r instead of %r (lengths %d, %d)" % (what, i, got[max(0, i - 30):i + 60], exp[max(0, i - 30):i + 60], len(got), len(exp)))


def plain(v):
    """the value as an ordinary one, or None where it cannot be"""
    t = type(v).__name__
    if "Bitvector" in t:
        raise Cycle()
    if "Vector" in t:
        return [plain(x) for x in v]
    if "Set" in t:
        return {frozen(x) for x in v}
    if "Map" in t:
        return {frozen(k): plain(w) for k, w in v.items()}
    if type(v) is float and v != float("%f" % v):
        raise Cycle()
    return v


def frozen(v):
    x = plain(v)

    def f(x):
        return tuple(f(y) for y in x) if isinstance(x, list) else x
    if isinstance(x, (set, dict)):
        raise Cycle()
    return f(x)


def has_cycle(v, above=frozenset(), n=None):
    n = n or [0]
    n[0] += 1
    if n[0] > 3000:
        return True
    if not hasattr(v, "container_id"):
        return False
    if len(v) == 0:
        return False
    k = ident(v)
    if k in above:
        return True
    a = above | {k}
    it = v if "Map" not in type(v).__name__ else [y for p in v.items() for y in p]
    return any(has_cycle(x, a, n) for x in it)


def one(v, T, r, top):
    if not hasattr(v, "container_id") and "Bitvector" not in type(v).__name__:
        return
    s = str(v)
    check(type(s) is str and repr(v) == s, "repr", "repr() and str() differ")
    exp = text(v, frozenset(), False, T)
    differ(s, exp, top)
    if len(s) >= 20:
        T.key(s)
    if r.random() < .3 and not has_cycle(v):
        try:
            x = plain(v)
        except Cycle:
            return
        try:
            y = eval(s, {"nan": math.nan, "inf": math.inf, "set": set, "__builtins__": {}})
        except (RecursionError, MemoryError, SyntaxError) as e:
            if "nested" in str(e) or not isinstance(e, SyntaxError):
                return
            raise Violation("syntax", "%r is not an expression: %s" % (s[:300], e))
        T.count("evaluated")
        check("nan" in s or x == y, "evaluates", lambda: "%.300r evaluates to something else" % s)


def primvectors(r, g, T):
    T.count("primvectors")
    v = g.primvector() if hasattr(g, "primvector") else None
    if v is None:
        t = r.choice(["i8", "u8", "i16", "u16", "i32", "u32", "i64", "u64", "f"])
        n = r.choice([0, 1, 2, 5, 30])
        if t == "f":
            x = [f32(r.choice([0.0, -0.0, 1.5, r.uniform(-9, 9), r.uniform(-1e9, 1e9), 3e38, 1e-40, math.inf, -math.inf, math.nan])) for _ in range(n)]
        else:
            b = int(t[1:])
            lo, hi = (-2 ** (b - 1), 2 ** (b - 1) - 1) if t[0] == "i" else (0, 2 ** b - 1)
            x = [r.choice([lo, hi, 0, lo + 1, hi - 1, r.randint(lo, hi), r.randint(lo, hi)]) for _ in range(n)]
        v = prim(t, x)
    exp = "[%s]" % ", ".join("%f" % x if type(x) is float else str(x) for x in v)
    for f in (str, repr):
        differ(f(v), exp, "primitive vector")
    w = v[r.randint(0, len(v)):]
    differ(str(w), "[%s]" % ", ".join("%f" % x if type(x) is float else str(x) for x in w), "slice of a primitive vector")
    q = PointlessPrimVector(v.typecode, allow_print=False)
    hidden(q, T)
    T.key(exp)


def hidden(q, T):
    T.count("disallowed")
    for f in (str, repr):
        s = f(q)
        check(s == "<%s object at 0x%x>" % (full(q), id(q)), "disallowed", "%r is the text of a %s which must not be printed" % (s[:200], full(q)))


def full(q):
    t = type(q)
    return "%s.%s" % (t.__module__, t.__name__) if t.__module__ != "builtins" else t.__name__


def own_bits(r, T):
    T.count("own_bitvectors")
    n = r.choice([0, 1, 2, 7, 8, 9, 31, 32, 33, 64, 100, r.randint(0, 500)])
    b = PointlessBitvector(sequence=[r.random() < .5 for _ in range(n)])
    exp = "".join("1" if b[i] else "0" for i in reversed(range(n))) + "b"
    check(str(b) == exp and repr(b) == exp, "bits", "%r is the text of the bits %s" % (str(b), exp))
    for _ in range(r.randint(0, 40)):
        b.append(r.random() < .5)
    exp = "".join("1" if b[i] else "0" for i in reversed(range(len(b)))) + "b"
    check(str(b) == exp, "bits", "%r is the text of the bits %s" % (str(b), exp))
    hidden(PointlessBitvector(n, allow_print=False), T)
    T.key(exp)


def children(v):
    n = type(v).__name__
    if "Map" in n:
        return [y for p in v.items() for y in p]
    if "Bitvector" in n or not hasattr(v, "container_id"):
        return []
    return list(v)


def size(v, depth=0, n=None):
    """of the tree as printed, up to a limit"""
    n = n if n is not None else [0]
    n[0] += 1
    if n[0] > 20000 or depth > 260:
        return 20001
    for x in children(v):
        if size(x, depth + 1, n) > 20000:
            return 20001
    return n[0]


def paths(v, above=frozenset(), n=None):
    """steps needed to print it: containers repeat only within cycles"""
    n = n if n is not None else [0]
    n[0] += 1
    if n[0] > 20000:
        return n[0]
    if hasattr(v, "container_id") and len(v):
        k = ident(v)
        if k in above:
            return n[0]
        above = above | {k}
        for x in children(v):
            if paths(x, above, n) > 20000:
                break
    return n[0]


def case(i, r, T):
    T.ev()
    g = G(r)
    k = i % 10
    if k == 0:
        return primvectors(r, g, T)
    if k == 1:
        return own_bits(r, T)
    if k in (2, 3):
        x = graph(r)
    elif k == 4:
        T.count("deep")
        x = g.scalar()
        for _ in range(r.choice([20, 60, 120])):
            x = r.choice([lambda: [x], lambda: (x,), lambda: {r.choice(["k", 1, ("t",), ((1,), ())]): x}, lambda: [g.scalar(), x, []]])()
    elif k == 5:
        x = {r.choice([g.key, lambda: (g.scalar_key() if hasattr(g, "scalar_key") else 1, ()), lambda: (r.randint(0, 9),), lambda: ((), (r.randint(0, 3),))])(): g.value() for _ in range(r.randint(0, 6))}
        seen = set()
        x = {kk: w for kk, w in x.items() if eqkey(kk) not in seen and not seen.add(eqkey(kk))}
        if r.random() < .5:
            x = [set(x), x]
    elif k == 6:
        x = [r.choice([f32(r.uniform(-99, 99)), 3e38, 1e-7, -0.0, math.inf, -math.inf, math.nan, 2 ** 32 - 1, -2 ** 31, "'", '"', "'\"\\\n\t\x7f\x80\xa0\u2028\ud800\U0001f600", True, None, [], (), {}, set(),
                       PointlessBitvector(r.randint(0, 40)), prim("u64", [2 ** 64 - 1, 0]), prim("i64", [-2 ** 63]), prim("f", [1.5])]) for _ in range(r.randint(0, 9))]
    else:
        x = g.value()
    b = pointless.serialize_to_bytearray(x)
    p = pointless.Pointless(b, validate=r.random() < .5)
    v = p.GetRoot()
    T.about("value: %.500s" % shape(x))
    if paths(v) > 20000:
        T.count("too_large")
        return
    one(v, T, r, "root")
    q = pointless.Pointless(b, allow_print=False).GetRoot()
    if hasattr(q, "container_id") or "Bitvector" in type(q).__name__:
        hidden(q, T)
    for _ in range(4):
        c = children(v)
        if "Vector" in type(v).__name__ and "Bit" not in type(v).__name__ and r.random() < .5:
            a, e = sorted((r.randint(0, len(v)), r.randint(0, len(v))))
            v = v[a:e]
            T.count("slices")
            one(v, T, r, "slice")
            c = children(v)
        if not c:
            break
        v = r.choice(c)
        one(v, T, r, "within")
