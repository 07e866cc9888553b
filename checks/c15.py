"""C15: a file stays open exactly as long as something read from it is in use."""
import gc
import os
import sys

import pointless
from gen import *
from wk import Violation, check

CASES = {"quick": 1500, "thorough": 40000}
RULE = ("one case = a history of up to 80 steps over up to three stored values (files, also replaced or unlinked, and buffers, also modified): values, slices, iterators and buffers are "
        "derived from each other and dropped in random order, the opening objects too; after each step GetRefs and the reference count of every opening object must equal "
        "the number of derived objects alive, every object touched must still read as its source, and file and mapping must be released when the last of them goes and not before; "
        "non-trivial = at least ten objects derived; distinct by the history")
MUST_OBSERVE = ("derived", "outlived", "released", "refs_checked", "replaced", "reinit_refused", "reinit_done")
MIN_EVAL = 300
KIND = {PointlessVector: "n_vector_refs", PointlessBitvector: "n_bitvector_refs", PointlessMap: "n_map_refs", PointlessSet: "n_set_refs"}
ALL = ("n_root_refs", "n_vector_refs", "n_bitvector_refs", "n_map_refs", "n_set_refs")


class File:
    """one stored value; p is the opening object while the history holds it"""


class Node:
    """an object derived from a file: what it must read as, and the node it keeps alive"""

    def __init__(self, f, obj, src, holds=None, kind="value"):
        self.f, self.obj, self.src, self.holds, self.kind, self.done = f, obj, src, holds, kind, False


def rich(r, g):
    x = [[1, 2, 3, r.randint(0, 2 ** 32 - 1)], [r.randint(0, 9), "s", None, [g.value(), (1.5, 2.5)]], {"k": [g.scalar() for _ in range(3)], "m": {1: [2, None], "z": {3, 4}}, 3: (1, "y")},
         {1, "two", (3, "x"), (4, 5)}, PointlessBitvector(sequence=[r.random() < .5 for _ in range(r.choice([0, 3, 40, 200]))]), (lambda t: prim(t, [g.float_() if t == "f" else q for q in [1, 2, 3, 4]][:r.randint(0, 4)]))(r.choice(["u8", "i32", "f", "u64"])),
         bytearray(b"abcdef"), g.value(), [], {}, set()]
    r.shuffle(x)
    return x


SIZEOF = []


class History:
    def __init__(self, r, T, i):
        self.r, self.T, self.g, self.i, self.n = r, T, G(r), i, 0
        self.files, self.nodes, self.trace = [], [], []

    # --- opening -----------------------------------------------------------------------------------------------
    def content(self, f):
        f.src = rich(self.r, self.g)
        f.how = self.r.choice(["file", "file", "bytearray", "buffer"])
        if f.how == "file":
            self.n += 1
            f.path = os.path.join(self.T.tmp, "lt-%d-%d.map" % (os.getpid(), self.n))
            pointless.serialize(f.src, f.path)
            return f.path
        b = (pointless.serialize_to_bytearray if f.how == "bytearray" else pointless.serialize_to_buffer)(f.src)
        f.path = None
        return b

    def opened(self, f, data, p):
        f.p = p
        n = os.stat(f.path).st_size if f.path else len(data)
        if not SIZEOF:
            # what the object itself takes
            SIZEOF.append(p.__sizeof__() - n)
        check(p.__sizeof__() - n == SIZEOF[0], "sizeof", lambda: "%d with %d bytes, %d bytes of its own at first" % (p.__sizeof__(), n, SIZEOF[0]))
        if not f.path:
            for get in (p.GetINode, p.GetFileNo):
                try:
                    raise Violation("inode-of-buffer", "%r" % (get(),))
                except (ValueError, OSError, TypeError):
                    pass
        if f.path:
            st = os.stat(f.path)
            fd = p.GetFileNo()
            check(os.fstat(fd).st_ino == st.st_ino == p.GetINode(), "inode", "GetINode() %d, file %d" % (p.GetINode(), st.st_ino))
            if self.r.random() < .5:
                self.T.count("replaced")
                if self.r.random() < .5:
                    os.unlink(f.path)
                else:
                    pointless.serialize(["something else"] * 50, f.path)
                check(p.GetINode() == st.st_ino, "inode-after-replacing", "")
        else:
            # the data is copied, so that it can be changed and resized
            if self.r.random() < .7:
                for j in range(len(data)):
                    data[j] = 0xa5
                if f.how == "bytearray":
                    del data[:]
                else:
                    data.clear()
                self.T.count("replaced")

    def open(self):
        f = File()
        data = self.content(f)
        self.opened(f, data, pointless.Pointless(data, validate=self.r.random() < .5))
        f.base = sys.getrefcount(f.p)
        self.files.append(f)
        self.say("open " + f.how)

    def say(self, s):
        self.trace.append(s)

    # --- the model ---------------------------------------------------------------------------------------------
    def alive(self, f):
        """(least, most) number of objects alive of each kind: an iterator may let go of its container at its end"""
        lo, hi = dict.fromkeys(ALL, 0), dict.fromkeys(ALL, 0)
        sure, may = set(), set()
        for n in self.nodes:
            if n.f is not f:
                continue
            m, s = n, True
            while m is not None:
                (sure if s else may).add(m)
                if m.done:
                    s = False
                m = m.holds
        for m in sure | may:
            k = m.refkind
            if k:
                hi[k] += 1
                if m in sure:
                    lo[k] += 1
        return lo, hi

    def audit(self, f):
        lo, hi = self.alive(f)
        n_lo, n_hi = sum(lo.values()), sum(hi.values())
        if f.p is not None:
            refs = f.p.GetRefs()
            self.T.count("refs_checked")
            check(set(refs) == set(ALL) and all(lo[k] <= refs[k] <= hi[k] for k in ALL), "GetRefs", lambda: "%s, alive: %s\n%s" % (refs, hi, self.trace[-30:]))
            rc = sys.getrefcount(f.p) - f.base
            check(n_lo <= rc <= n_hi, "reference-count", lambda: "the opening object has %d references, %d..%d objects are alive\n%s" % (rc, n_lo, n_hi, self.trace[-30:]))
        elif f.path:
            with open("/proc/self/maps") as m:
                mapped = f.path in m.read()
            if n_lo:
                self.T.count("outlived")
                check(mapped, "unmapped-while-in-use", lambda: "%s" % self.trace[-30:])
            elif not n_hi:
                check(not mapped, "mapping-not-released", lambda: "%s" % self.trace[-30:])
                for d in os.listdir("/proc/self/fd"):
                    try:
                        check(not os.readlink("/proc/self/fd/" + d).startswith(f.path), "descriptor-not-released", lambda: "%s" % self.trace[-30:])
                    except OSError:
                        pass
                self.T.count("released")
        if f.p is None and not n_hi:
            self.files.remove(f)

    # --- steps -------------------------------------------------------------------------------------------------
    def add(self, f, obj, src, holds=None, kind="value"):
        if not isinstance(obj, tuple(KIND)) and kind == "value":
            self.verify_value(src, obj)
            return
        n = Node(f, obj, src, holds, kind)
        n.refkind = KIND[type(obj)] if kind == "value" else None
        self.nodes.append(n)
        self.T.count("derived")
        self.say("%s %s" % (kind, type(obj).__name__))

    def verify_value(self, src, obj):
        try:
            same(src, obj)
        except Differ as d:
            raise Violation("value-changed", "%s\n%s" % (d, self.trace[-30:]))

    def verify(self, n):
        if n.kind == "value":
            self.verify_value(n.src, n.obj)
        elif n.kind == "buffer":
            check(bytes(n.obj) == n.src, "buffer-changed", lambda: "%s" % self.trace[-30:])

    def step(self):
        r = self.r
        k = r.random()
        held = [f for f in self.files if f.p is not None]
        if not self.files or (len(self.files) < 3 and k < .06):
            return self.open()
        if k < .14 and held:
            f = r.choice(held)
            return self.add(f, f.p.GetRoot(), f.src)
        if k < .18 and held and len(self.nodes) > 3:
            f = r.choice(held)
            self.say("drop the opening object")
            f.p = None
            return
        if k < .23 and held:
            return self.reinit(r.choice(held))
        if k < .42 and self.nodes:
            n = self.nodes.pop(r.randrange(len(self.nodes)))
            self.say("drop %s" % n.kind)
            n.obj = None
            return
        if k < .5 and self.nodes:
            return self.verify(r.choice(self.nodes))
        if k < .52:
            gc.collect()
            return
        if self.nodes:
            self.derive(r.choice(self.nodes))

    def reinit(self, f):
        lo, hi = self.alive(f)
        if sum(lo.values()):
            try:
                f.p.__init__(pointless.serialize_to_bytearray([1, 2, 3]))
            except ValueError:
                self.T.count("reinit_refused")
                self.say("reinit refused")
                return
            raise Violation("reinit-while-in-use", "%s" % self.trace[-30:])
        if sum(hi.values()):
            return
        # an object with no values can be opened again
        old = f.path
        data = self.content(f)
        f.p.__init__(data)
        if old:
            with open("/proc/self/maps") as m:
                check(old not in m.read(), "old-mapping-kept", "%s" % self.trace[-30:])
        self.opened(f, data, f.p)
        self.T.count("reinit_done")
        self.say("reinit")

    def derive(self, n):
        r, f, o = self.r, n.f, n.obj
        if n.kind in ("buffer", "any"):
            return self.verify(n)
        if n.kind == "iter":
            return self.advance(n)
        s = n.src
        if isinstance(o, PointlessVector):
            k = r.randrange(6)
            if k == 0:
                return self.add(f, iter(o), [s, 0, 1], n, "iter")
            if k == 1:
                return self.add(f, reversed(o), [s, len(o) - 1, -1], n, "iter")
            if k == 2 and isinstance(s, (bytearray, PointlessPrimVector)):
                return self.add(f, memoryview(o), bytes(s) if isinstance(s, bytearray) else bytes(memoryview(s)), n, "buffer")
            if k == 3:
                a, b = sorted(r.randint(0, len(o)) for _ in range(2))
                if isinstance(s, PointlessPrimVector):
                    t = prim(s.typecode, list(s)[a:b])
                else:
                    t = s[a:b]
                return self.add(f, o[a:b], t)
            if len(o):
                j = r.randrange(len(o))
                return self.add(f, o[j], s[j])
        elif isinstance(o, PointlessMap):
            k = r.randrange(5)
            if k < 3:
                a = {canon_key(q): (q, v) for q, v in s.items()}
                it = (iter(o), o.keys(), o.values(), o.items())[r.randrange(4)]
                return self.add(f, it, [a, type(it).__name__], n, "iter")
            if s:
                q = r.choice([q for q in s])
                try:
                    v = o[q]
                except ValueError:
                    # keys which contain primitive vectors can not be looked up
                    return
                return self.add(f, v, s[q])
        elif isinstance(o, PointlessSet):
            return self.add(f, iter(o), [{canon_key(q): (q, q) for q in s}, "set"], n, "iter")
        elif isinstance(o, PointlessBitvector):
            c = o.copy()
            self.verify_value(s, c)

    def advance(self, n):
        try:
            v = next(n.obj)
        except StopIteration:
            n.done = True
            self.say("exhausted")
            return
        self.say("next")
        if len(n.src) == 3:
            s, j, d = n.src
            n.src[1] += d
            return self.add(n.f, v, s[j])
        a, t = n.src
        if "Item" in t:
            check(type(v) is tuple and len(v) == 2, "item-type", repr(v))
            q = a[canon_key(v[0])]
            self.add(n.f, v[0], q[0])
            self.add(n.f, v[1], q[1])
        elif "Value" in t:
            # which one it is, is not known: keep it, but for its identity only
            if isinstance(v, tuple(KIND)):
                self.add(n.f, v, None, None, "any")
                self.nodes[-1].refkind = KIND[type(v)]
        else:
            self.add(n.f, v, a[canon_key(v)][0])


def case(i, r, T):
    # the pool may hold no cycle, and nothing else may refer to the objects
    h = History(r, T, i)
    for _ in range(r.choice([20, 50, 80])):
        h.step()
        for f in list(h.files):
            if f.p is not None or r.random() < .1:
                h.audit(f)
    for n in h.nodes:
        h.verify(n)
    d = sum(1 for n in h.trace if n.startswith(("value", "iter", "buffer")))
    # all is dropped, in random order
    for f in h.files:
        if r.random() < .5:
            f.p = None
    r.shuffle(h.nodes)
    while h.nodes:
        h.nodes.pop().obj = None
        if r.random() < .1:
            for f in list(h.files):
                h.audit(f)
    n = None
    for f in list(h.files):
        if f.p is not None:
            h.audit(f)
            f.p = None
        h.audit(f)
    check(not h.files, "harness", "files left")
    T.ev()
    if d > 9:
        T.key(h.trace)
    if i < 2:
        T.sample("%s" % h.trace[:15])
