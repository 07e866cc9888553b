"""C06: a stored set behaves as the set it was made from."""
import fmt
from c05 import UNHASHABLE, foreign, refuses
from gen import *
from keyed import *
from wk import check

CASES = {"quick": 3000, "thorough": 80000}
RULE = ("one case = one set or frozenset of up to 400 items, made as the keys of C05, stored by the library or by an independent writer; membership of every item in "
        "every equal spelling, of stored items, near misses, missing and unhashable ones; the oracle is a Python set; non-trivial = at least two items; "
        "distinct by the hashes of the items in order")
MUST_OBSERVE = ("hits", "misses", "collisions", "foreign", "refused", "deep_keys")
MIN_EVAL = 500


def case(i, r, T):
    g = G(r)
    ks = key_set(r, g)
    if r.random() < .04:
        ks += {eqkey(k): k for k in (deep_key(r) for _ in range(3))}.values()
        T.count("deep_keys")
    T.about("items %.1500r" % (ks,))
    model = {eqkey(k) for k in ks}
    src = r.choice([set, frozenset])(ks)
    if r.random() < .25:
        T.count("foreign")
        p = foreign(r, ks)
        m = p.GetRoot()
    elif r.random() < .3:
        p = store([src, ks], r, T)
        m = p.GetRoot()[0]
        for q in (p, store([0, ks], r, T)):
            for j, k in enumerate(q.GetRoot()[1]):
                check(k in m, "stored-item", lambda: "%r" % (ks[j],))
                T.count("hits")
    else:
        p = store(src, r, T)
        m = p.GetRoot()
    check(len(m) == len(ks), "len", "%d != %d" % (len(m), len(ks)))
    hs = [fmt.hash_key(eq_form(k)) for k in ks]
    T.count("collisions", len(hs) - len(set(hs)))
    for k in ks:
        for s in spellings(k, r):
            check((s in m) is True, "item-not-found", lambda: "%r as %r" % (k, s))
            T.count("hits")
    for k in r.sample(ks, min(len(ks), 12)) + [g.key() for _ in range(6)]:
        for s in [k] + near_misses(k, r, g):
            if usable(s):
                e = eqkey(s) in model
                T.count("hits" if e else "misses")
                check((s in m) is e, "wrong-membership", lambda: "%r: expected %r" % (s, e))
    T.ev()
    a = list(m)
    check(len(a) == len(ks) and {canon_key(x) for x in a} == {canon_key(k) for k in ks}, "iteration", lambda: "%r" % a)
    it = iter(m)
    k = r.randint(0, len(ks))
    for _ in range(k):
        next(it)
    check(len(list(it)) == len(ks) - k, "iterator-resume", "")
    check(next(it, it) is it, "iterator-exhausted", "")
    f = r.choice(UNHASHABLE)()
    refuses(lambda: f in m, "in %r" % (f,))
    T.count("refused")
    if len(ks) > 1:
        T.key(hs)
    if i < 2:
        T.sample("%.300r" % (ks,))
