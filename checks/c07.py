"""C07: hashes are those of the format, and the same for equal values in every form; only acyclic vectors of hashable values have one."""
import fmt
import pointless
from c02 import graph
from gen import *
from keyed import *
from wk import Violation, check

CASES = {"quick": 6000, "thorough": 200000}
RULE = ("one case = one key in all its forms (Python value, equal spellings, stored by the library in three targets and by an independent writer, slices of stored "
        "vectors) whose hashes must equal that of an independent implementation of the hash function, or one cyclic object graph whose vectors are hashable exactly "
        "when they are not part of a cycle and reach nothing unhashable; non-trivial = more than one form; distinct by hash")
MUST_OBSERVE = ("forms", "stored_forms", "slices", "vectors_in_cycles", "vectors_hashed", "vectors_refused")
MIN_EVAL = 500
PH = pointless.pyobject_hash


def case(i, r, T):
    if i % 4 == 3:
        return graph_case(i, r, T)
    g = G(r)
    k = r.choice([g.key, g.key, lambda: tuple(g.key() for _ in range(r.randint(0, 30))), g.scalar])()
    if isinstance(k, float) and k != k:
        k = 1.5
    T.about("key %.800r" % (k,))
    h = fmt.hash_key(eq_form(k))
    n = 0
    for s in spellings(k, r) + [k]:
        check(PH(s) == h, "hash-of-python-value", lambda: "%r as %r: %d not %d" % (k, s, PH(s), h))
        n += 1
    for v in (2,) if r.random() < .2 else ():
        check(PH(k, v) == h, "hash-version", "")
    objs = [store([k, 0, "x"], r, T, how=r.randrange(3)), store({k: 1}, r, T), store(k, r, T)]
    stored = [objs[0].GetRoot()[0], list(objs[1].GetRoot())[0], objs[2].GetRoot()]
    for s in stored:
        check(PH(s) == h, "hash-of-stored-value", lambda: "%r as %r: %d not %d" % (k, s, PH(s), h))
        n += 1
        T.count("stored_forms")
        if isinstance(s, PointlessVector):
            check(s.is_hashable == 1, "is_hashable", lambda: "%r" % (s,))
            # a vector of it, in Python
            check(PH((s, 1)) == fmt.hash_key((eq_form(k), 1)), "hash-of-tuple-of-stored", lambda: "%r" % (s,))
            a = r.randint(0, len(s))
            b = r.randint(a, len(s))
            e = eq_form(k)
            check(PH(s[a:b]) == fmt.hash_key(tuple(e[a:b])), "hash-of-slice", lambda: "%r[%d:%d]" % (s, a, b))
            T.count("slices")
        if isinstance(s, PointlessBitvector):
            check(hash(s) == hash(k) and s == k, "python-hash-of-bitvector", lambda: "%r" % (s,))
    T.count("forms", n)
    T.ev()
    T.key(h)
    if i < 2:
        T.sample("%.200r: %d" % (k, h))


def sccs(nodes, children):
    """ids of the nodes which are on a cycle"""
    index, low, on, stack, out = {}, {}, set(), [], set()
    for root in nodes:
        if id(root) in index:
            continue
        work = [(root, iter(children(root)))]
        index[id(root)] = low[id(root)] = len(index)
        stack.append(root)
        on.add(id(root))
        while work:
            v, it = work[-1]
            for w in it:
                if id(w) not in index:
                    index[id(w)] = low[id(w)] = len(index)
                    stack.append(w)
                    on.add(id(w))
                    work.append((w, iter(children(w))))
                    break
                if id(w) in on:
                    low[id(v)] = min(low[id(v)], index[id(w)])
                if w is v:
                    out.add(id(v))
            else:
                work.pop()
                if work:
                    u = work[-1][0]
                    low[id(u)] = min(low[id(u)], low[id(v)])
                if low[id(v)] == index[id(v)]:
                    comp = []
                    while True:
                        w = stack.pop()
                        on.discard(id(w))
                        comp.append(w)
                        if w is v:
                            break
                    if len(comp) > 1:
                        out |= {id(w) for w in comp}
    return out


def graph_case(i, r, T):
    root, nodes = graph(r, r.choice([None, None, 2, 3, 4]))
    cont = (list, tuple, dict)

    def children(v):
        it = list(v.values()) + list(v) if isinstance(v, dict) else list(v)
        return [x for x in it if isinstance(x, cont)]
    everything, todo = {}, [root]
    while todo:
        v = todo.pop()
        if isinstance(v, cont) and id(v) not in everything:
            everything[id(v)] = v
            todo.extend(children(v))
    incycle = sccs(list(everything.values()), children)
    memo = {}

    def hash_of(v):
        """None if it is unhashable"""
        if isinstance(v, (list, tuple)):
            if id(v) in incycle:
                return None
            if id(v) not in memo:
                memo[id(v)] = None
                hs = [hash_of(x) for x in v]
                memo[id(v)] = None if None in hs else fmt.hash_vector(hs)
            return memo[id(v)]
        if isinstance(v, (dict, set, frozenset)):
            return None
        if isinstance(v, bytearray):
            return fmt.hash_vector(list(v))
        if isinstance(v, PointlessPrimVector):
            if v.typecode == "f":
                return fmt.hash_key(tuple(pv_items(v)))
            return fmt.hash_vector([x & M32 for x in pv_items(v)])
        return fmt.hash_key(eq_form(v))
    p = store(root, r, T)
    seen, stack = set(), [(root, p.GetRoot())]
    while stack:
        v, s = stack.pop()
        if not isinstance(v, (list, tuple, dict)) or id(v) in seen:
            continue
        seen.add(id(v))
        if isinstance(v, dict):
            m = {canon_key(k): x for k, x in s.items()}
            stack += [(v[k], m[canon_key(k)]) for k in v]
            continue
        stack += list(zip(v, s))
        if id(v) in incycle:
            T.count("vectors_in_cycles")
        check(bool(s.is_hashable) == (id(v) not in incycle), "is_hashable", lambda: "is_hashable %r, in a cycle: %r" % (s.is_hashable, id(v) in incycle))
        h = hash_of(v)
        try:
            got = PH(s)
        except ValueError:
            got = None
        T.count("vectors_refused" if h is None else "vectors_hashed")
        check(got == h, "hash-of-graph-vector", lambda: "%r, expected %r" % (got, h))
    T.ev()
    T.key(("graph", len(everything), len(incycle), sorted(x for x in memo.values() if x is not None)[:3]))
