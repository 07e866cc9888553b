"""C01: what is read back is what was serialized."""
from gen import *
from wk import Violation

CASES = {"quick": 2600, "thorough": 90000}
RULE = ("one case = one generated value (scalars at type boundaries, strings of every width, containers, primitive vectors, bitvectors, deep/wide/long "
        "shapes), serialized to one of three targets and opened with or without validation, compared item by item with the reference semantics; "
        "non-trivial = at least two values compared; distinct by the sequence of types and sizes")
MUST_OBSERVE = ("opened_file", "opened_bytearray", "opened_buffer", "long", "deep", "wide", "runs")
MIN_EVAL = 500


def special(i, g, r, T):
    k = i % 40
    if k == 0:
        T.count("long")
        n = r.choice([65535, 65536, 70000, 100000])
        return r.choice([lambda: "x" * n, lambda: "é" * n, lambda: [r.randint(0, 3) for _ in range(n)], lambda: [r.choice([1, "a", None]) for _ in range(n)],
                         lambda: prim("u16", [r.randint(0, 65535) for _ in range(n)]), lambda: PointlessBitvector(sequence=[r.random() < .5 for _ in range(n)]),
                         lambda: "\U0001f600" * n, lambda: [str(x) for x in range(n // 4)], lambda: bytearray(r.getrandbits(8) for _ in range(n))])()
    if k == 1:
        T.count("deep")
        n = r.choice([10, 60, 120, 200, 250])
        v = g.scalar()
        # a map counts as two levels: the map, and the vector of its values
        while n > 1:
            f, u = r.choice([(lambda: [v], 1), (lambda: (v, 1), 1), (lambda: {"k": v}, 2), (lambda: [g.scalar(), v], 1)])
            v = f()
            n -= u
        return v
    if k == 2:
        T.count("wide")
        n = r.choice([300, 1000, 3000, 6000])
        ks = [r.choice([x, str(x), x + 0.5, (x, "t")]) for x in range(n)]
        return {k: g.scalar() for k in ks} if r.random() < .5 else set(ks)
    if k == 3:
        # a sequence whose items only just fit, or do not fit, a narrower type
        lo, hi = RANGES[r.choice(["i8", "u8", "i16", "u16", "i32", "u32"])]
        v = [r.randint(max(lo, I32_MIN), min(hi, U32_MAX)) for _ in range(r.randint(0, 20))]
        v += [r.choice([lo, hi, min(hi + 1, U32_MAX), max(lo - 1, I32_MIN)]) for _ in range(r.randint(1, 3))]
        r.shuffle(v)
        return [v, tuple(v), {"k": v}, {tuple(v): v}]
    if k == 5:
        # bitvectors of one or two runs, whose lengths are next to what the compressed forms can hold
        T.count("runs")
        e = [1, 31, 32, 33, 65534, 65535, 65536, 65537, r.randint(1, 70000)]
        out = []
        for _ in range(4):
            b = PointlessBitvector()
            for j in range(r.choice([1, 2, 2, 2, 2, 3])):
                (b.extend_true if (j ^ len(out)) & 1 else b.extend_false)(r.choice(e))
            out.append(b)
        return out
    if k == 4:
        return [g.value() for _ in range(3)] + [g.key() for _ in range(20)]
    return None


def case(i, r, T):
    g = G(r)
    x = special(i, g, r, T)
    if x is None:
        x = g.value() if r.random() < 0.85 else g.scalar()
    T.about("value: %.600s" % shape(x))
    p = store(x, r, T)
    try:
        n = same(x, p.GetRoot())
        if r.random() < 0.3:
            same(x, p.GetRoot())
    except Differ as d:
        raise Violation("differs", str(d))
    T.ev()
    T.count("values_compared", n)
    if n > 1:
        T.key(shape(x))
    if i < 3:
        T.sample(shape(x, 30))


def extra(D):
    D.giant("strings")
