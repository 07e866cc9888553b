"""C19: stored values can be serialized again."""
import os

import fmt
import pointless
from c02 import graph
from c05 import foreign
from gen import *
from keyed import key_set
from wk import Violation, check

CASES = {"quick": 4500, "thorough": 90000}
RULE = ("one case = one to three stored graphs or values (written by the library or by an independent encoder), of which roots, sub-values, slices and keys are put into a new Python value, "
        "together with Python values, some of them more than once; it is serialized with random options, up to three times over; the oracle is the Python source of each stored value, the "
        "identities of its containers included; non-trivial = a stored container went in; distinct by the shapes of what went in")
MUST_OBSERVE = ("wrappers", "slices", "keys", "again", "repeated", "cyclic_or_shared", "foreign", "bitvectors", "prims")
MIN_EVAL = 500


class Slice:
    """the source of a slice: the items a..b of src"""
    def __init__(self, src, a, b):
        self.src, self.a, self.b = src, a, b


def pairs(src, got, r, limit=150):
    """(source, stored) for containers and values within"""
    out, seen, stack = [], set(), [(src, got)]
    while stack and len(out) < limit:
        s, g = stack.pop(r.randrange(len(stack)))
        if isinstance(g, VECS + SETS + MAPS):
            if len(g) and ident(g) in seen:
                continue
            seen.add(ident(g))
        out.append((s, g))
        if isinstance(s, (list, tuple)):
            for i in r.sample(range(len(s)), min(len(s), 6)):
                stack.append((s[i], g[i]))
        elif isinstance(s, dict):
            b = {canon_key(k): (k, v) for k, v in g.items()}
            for k in r.sample(list(s), min(len(s), 6)):
                gk, gv = b[canon_key(k)]
                stack += [(s[k], gv), (k, gk)]
        elif isinstance(s, (set, frozenset)):
            b = {canon_key(k): k for k in g}
            for k in r.sample(list(s), min(len(s), 6)):
                stack.append((k, b[canon_key(k)]))
    return out


def is_key(s):
    """whether a source value can be a key"""
    stack, n = [s], 0
    while stack:
        x = stack.pop()
        n += 1
        if n > 2000 or isinstance(x, (list, dict, set, frozenset, bytearray)):
            return False
        if isinstance(x, tuple):
            stack.extend(x)
        elif isinstance(x, float) and x != x or isinstance(x, PointlessPrimVector) and x.typecode == "f" and any(y != y for y in pv_items(x)):
            return False
    return True


def compare(s, g, shared):
    """the value of source s came back as g; the containers within one stored value keep their identity"""
    if isinstance(s, Slice):
        n = s.b - s.a
        if not isinstance(g, VECS) or len(g) != n:
            raise Differ("slice of %d stored as %.200r" % (n, g))
        if isinstance(s.src, (PointlessPrimVector, bytearray)):
            a = pv_items(s.src)[s.a:s.b] if not isinstance(s.src, bytearray) else list(s.src[s.a:s.b])
            b = pv_items(g)
            if isinstance(s.src, PointlessPrimVector) and s.src.typecode == "f":
                a, b = list(map(fbits, a)), list(map(fbits, b))
            if a != b or n and g.typecode != getattr(s.src, "typecode", "u8"):
                raise Differ("slice %.200r stored as %.200r" % (a, b))
        else:
            for i in range(n):
                same(s.src[s.a + i], g[i], shared)
    else:
        same(s, g, shared)


def case(i, r, T):
    # 1. stored values, with the values which they were made from
    stored, keep = [], []
    for _ in range(r.choice([1, 1, 2, 3])):
        k = r.random()
        g = G(r)
        if k < .5:
            src, _ = graph(r, r.choice([None, 2, 4, 8]))
            T.count("cyclic_or_shared")
        elif k < .8:
            src = g.value()
            if not isinstance(src, (list, tuple, dict)):
                src = [src]
        elif k < .87:
            src = [prim(t, g.prim_items(t, g.n_items())) for t in r.sample(TYPES, 4)] + [g.bitvector() for _ in range(4)] + [bytearray(b"abc")]
        else:
            ks = key_set(r, g)[:120]
            src = set(ks) if r.random() < .5 else {k: g.scalar() if r.random() < .5 else k for k in ks}
            if isinstance(src, dict):
                # the encoder does not share strings
                src = {k: (v if not isinstance(v, (tuple, PointlessPrimVector)) else 1) for k, v in src.items()}
            p = foreign(r, ks, list(src.values()) if isinstance(src, dict) else None)
            T.count("foreign")
            stored.append((src, p.GetRoot()))
            keep.append(p)
            continue
        p = store(src, r, T, normalize_bitvector=r.random() < .7, unwiden_strings=r.random() < .5)
        keep.append(p)
        stored.append((src, p.GetRoot()))
    # 2. what of them is used
    chosen = []      # (source or Slice, stored value)
    for s, g in stored:
        ps = pairs(s, g, r)
        for s1, g1 in [(s, g)] * (r.random() < .5) + r.sample(ps, min(len(ps), r.choice([1, 2, 5, 12]))):
            if isinstance(g1, VECS) and len(g1) and r.random() < .35:
                a, b = sorted([r.randint(0, len(g1)), r.randint(0, len(g1))])
                if r.random() < .2:
                    a, b = 0, len(g1)
                g2, s2 = g1[a:b], Slice(s1, a, b)
                if isinstance(g2, VECS) and len(g2) > 1 and r.random() < .3:
                    c, d = sorted([r.randint(0, b - a), r.randint(0, b - a)])
                    g2, s2 = g2[c:d], Slice(s1, a + c, a + d)
                chosen.append((s2, g2))
                T.count("slices")
            else:
                chosen.append((s1, g1))
            T.count("wrappers" if isinstance(g1, VECS + SETS + MAPS) else "bitvectors" if isinstance(g1, BITVS) else "scalars")
            if isinstance(s1, (PointlessPrimVector, bytearray)):
                T.count("prims")
    if not chosen:
        return
    # 3. a new value of them and of Python values; places: how to find each in the result
    g = G(r, "tiny")
    top, places, seen = [], [], set()
    kd = {}
    for s, w in chosen:
        for _ in range(r.choice([1, 1, 1, 2])):
            k = r.random()
            j = len(top)
            if k < .4:
                top.append(w)
                places.append((s, w, lambda q, j=j: q[j]))
            elif k < .6:
                n = r.randint(0, 3)
                top.append([g.scalar() for _ in range(n)] + [w, w][:r.choice([1, 2])])
                places.append((s, w, lambda q, j=j, n=n: q[j][n]))
                if len(top[-1]) == n + 2:
                    places.append((s, w, lambda q, j=j, n=n: q[j][n + 1]))
                    T.count("repeated")
            elif k < .75:
                top.append({"v": w, 1: (w,)})
                places.append((s, w, lambda q, j=j: q[j]["v"]))
                places.append((s, w, lambda q, j=j: q[j][1][0]))
                T.count("repeated")
            elif not isinstance(s, Slice) and is_key(s) and eqkey(s) not in seen:
                seen.add(eqkey(s))
                # what Python can hash is used as a key, also as a part of one
                try:
                    kd[w] = w if r.random() < .5 else 7
                    T.count("keys")
                except TypeError:
                    continue
            else:
                top.append((w, w))
                places.append((s, w, lambda q, j=j: q[j][0]))
                places.append((s, w, lambda q, j=j: q[j][1]))
                T.count("repeated")
    if r.random() < .3 and top:
        top.append(top)
    top.append(kd)
    if r.random() < .5:
        top.append(frozenset(kd))
    T.about("stored %.300r" % ([type(w).__name__ for s, w in chosen],))
    # 4. serialize, up to three times
    v = top
    for rnd in range(r.choice([1, 1, 2, 3])):
        opts = dict(normalize_bitvector=r.random() < .7, unwiden_strings=r.random() < .5)
        before = bytes(pointless.serialize_to_bytearray(v, **opts))
        p = store(v, r, T, **opts)
        check(bytes(pointless.serialize_to_bytearray(v, **opts)) == before, "not-repeatable", "")
        try:
            f = fmt.File(before)
            decoded = f.decode()
            f.overlaps()
        except fmt.Bad as b:
            raise Violation("malformed", "%s" % (b,))
        keep.append(p)
        if rnd:
            T.count("again")
        for q in (p.GetRoot(), decoded):
            ids = {}       # one correspondence of containers per stored value
            owner = {}
            for s, w, find in places:
                got = find(q)
                try:
                    compare(s, got, ids.setdefault(id(w), ({}, {})))
                except Differ as d:
                    raise Violation("again:" + type(got).__name__, "%s (round %d)" % (d, rnd))
                if isinstance(got, VECS + SETS + MAPS) and (not isinstance(got, VECS) or len(got)):
                    # the same object at several places is one container
                    a = owner.setdefault(id(w), ident(got))
                    check(a == ident(got), "one-object-twice", "%r %r" % (a, ident(got)))
            m = q[len(top) - 1 - (not isinstance(top[-1], dict))]
            check(isinstance(m, MAPS) and len(m) == len(kd), "keys-lost", "")
            a, b = {canon_key(k): canon_key(v) for k, v in kd.items()}, {canon_key(k): canon_key(v) for k, v in m.items()}
            check(a == b, "keys", lambda: "%.500r != %.500r" % (a, b))
            if not isinstance(top[-1], dict):
                check({canon_key(k) for k in q[len(top) - 1]} == set(a), "set-of-keys", "")
            T.ev()
        v = p.GetRoot()
    T.key([(type(w).__name__, len(w) if hasattr(w, "__len__") else 0) for s, w in chosen])
    if i < 2:
        T.sample([type(w).__name__ for s, w in chosen])
