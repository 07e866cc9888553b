"""C02: identity of containers (sharing and cycles) survives."""
import os

import pointless
from gen import *
from wk import Violation

CASES = {"quick": 12000, "thorough": 150000}
RULE = ("one case = one random graph of 1..40 containers (lists, tuples, dicts, sets, primitive vectors, bytearrays) with random, shared and cyclic references; the object "
        "identities of the source must correspond one to one to the container ids of the opened file, reached along every path; "
        "non-trivial = at least one container is referenced twice; distinct by adjacency")
MUST_OBSERVE = ("shared", "cyclic", "containers")
MIN_EVAL = 500


def graph(r, n=None):
    """(root, containers): a random graph, possibly cyclic"""
    g = G(r, "tiny")
    n = n or r.choice([1, 2, 2, 3, 3, 4, 5, 8, 12, 20, 40])
    nodes = []
    for i in range(n):
        k = r.random()
        if k < 0.55:
            nodes.append([])
        elif k < 0.8:
            nodes.append({})
        elif k < 0.87 and nodes:
            nodes.append(tuple(r.choice(nodes) for _ in range(r.randint(1, 3))))
        elif k < 0.92:
            nodes.append(r.choice([set, frozenset])(g.keys(r.randint(0, 4))))
        else:
            nodes.append(r.choice([g.prim_, lambda: bytearray(r.choice([1, 2, 5, 9, 40, 300]) if r.random() < .6 else b"bytes"), lambda: prim(r.choice(["u8", "u64"]), [7])])())
    equal = r.random() < 0.3      # many equal but distinct containers
    for v in nodes:
        for _ in range(r.choice([0, 1, 1, 2, 3]) if not equal else 1):
            t = r.choice(nodes) if r.random() < 0.75 else (7 if equal else g.scalar())
            if isinstance(v, list):
                v.append(t)
            elif isinstance(v, dict):
                v[g.scalar(nan=False) if not equal else "k"] = t
        if isinstance(v, dict):
            # no two keys may become equal once stored
            seen = set()
            for k in list(v):
                e = eqkey(k)
                if e in seen:
                    del v[k]
                seen.add(e)
    if r.random() < 0.2:
        # one key object used by several maps and sets
        key = tuple(g.key() for _ in range(r.randint(1, 3)))
        for v in nodes:
            if isinstance(v, dict) and eqkey(key) not in {eqkey(k) for k in v}:
                v[key] = key
    root = r.choice(nodes) if r.random() < 0.5 else list(nodes) + [r.choice(nodes)]
    return root, nodes


def case(i, r, T):
    root, nodes = graph(r)
    how = r.randrange(3)
    if how == 0:
        p = os.path.join(T.tmp, "c02-%d.map" % os.getpid())
        pointless.serialize(root, p)
        p = pointless.Pointless(p)
    else:
        p = pointless.Pointless((pointless.serialize_to_buffer if how == 1 else pointless.serialize_to_bytearray)(root))
    shared = ({}, {})
    try:
        n = same(root, p.GetRoot(), shared)
        # reached a second time, every container has the identity it had before
        same(root, p.GetRoot(), shared)
    except Differ as d:
        raise Violation("identity", str(d))
    T.ev()
    T.count("containers", len(shared[0]))
    T.count("values", n)
    # count what was exercised, on the source
    indeg, edges, cyc = {}, [], False
    index = {}
    stack, onpath = [(root, iter_children(root))], {id(root)}
    index[id(root)] = 0
    while stack:
        v, it = stack[-1]
        for c in it:
            if isinstance(c, (list, tuple, dict, set, frozenset, bytearray, PointlessPrimVector)):
                indeg[id(c)] = indeg.get(id(c), 0) + 1
                first = id(c) not in index
                index.setdefault(id(c), len(index))
                edges.append((index[id(v)], index[id(c)]))
                if id(c) in onpath:
                    cyc = True
                if first:
                    onpath.add(id(c))
                    stack.append((c, iter_children(c)))
                    break
        else:
            onpath.discard(id(v))
            stack.pop()
    if cyc:
        T.count("cyclic")
    if any(x > 1 for x in indeg.values()):
        T.count("shared")
        T.key(edges)
    if i < 2:
        T.sample("edges %s" % (edges[:20],))


def iter_children(v):
    if isinstance(v, dict):
        return iter([x for kv in v.items() for x in kv])
    if isinstance(v, (PointlessPrimVector, bytearray)):
        return iter(())
    return iter(v)
