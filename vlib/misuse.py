"""Sessions of calls with arbitrary arguments: every callable of the API, on objects in every state, with values of every kind, hostile ones included.

A hostile value is one whose special methods change the objects of the session (clear lists and vectors while they are read, re-initialise
objects in use, ...), lie, return the wrong type, or raise.
"""
import copy
import gc
import operator
import os
import pickle

import pointless
from gen import *

TYPES_ = (pointless.Pointless, pointless.PointlessVector, pointless.PointlessSet, pointless.PointlessMap, pointless.PointlessBitvector, pointless.PointlessPrimVector)
FUNCS = ("serialize", "serialize_to_buffer", "serialize_to_bytearray", "pyobject_hash", "pyobject_hash_32", "pointless_cmp", "pointless_is_eq")


class Raised(Exception):
    pass


class Broken(BaseException):
    """an error without an exception, or a result with one"""


class Session:
    cur = None

    def __init__(self, r, T):
        self.r, self.T = r, T
        self.pool = []
        self.last = ''
        self.depth = 0
        self.n = 0
        Session.cur = self
        self.target = None

    # --- what hostile values do
    def act(self):
        r = self.r
        if self.depth > 1 or self.n > 400:
            return
        self.depth += 1
        self.n += 1
        self.T.count("callbacks")
        try:
            # most harm is done to what is in use
            x = self.target if self.target is not None and r.random() < .5 else r.choice(self.pool)
            k = r.randrange(9)
            if k == 0:
                gc.collect()
            elif k == 1 and len(self.pool) > 4:
                del self.pool[r.randrange(len(self.pool))]
            elif isinstance(x, (list, bytearray)):
                r.choice([lambda: x.clear(), lambda: x.append(1), lambda: x.pop(), lambda: x.__init__([1] * 50), lambda: x.insert(0, 3)])()
            elif isinstance(x, dict):
                r.choice([x.clear, x.popitem, lambda: x.update({r.random(): 1})])()
            elif isinstance(x, set):
                r.choice([x.clear, x.pop, lambda: x.add(r.random())])()
            elif isinstance(x, PointlessPrimVector):
                r.choice([x.clear, x.pop, lambda: x.append(1), lambda: x.append_bulk([1, 2, 3] * 40), lambda: x.__init__(r.choice(TYPES)), lambda: x.pop_bulk(len(x)), x.sort, lambda: x.__init__("u8", sequence=[1] * 500)])()
            elif isinstance(x, PointlessBitvector):
                r.choice([x.pop, lambda: x.append(True), lambda: x.extend_true(100), lambda: x.__init__(sequence=[1, 0, 1])])()
            elif isinstance(x, pointless.Pointless):
                x.__init__(bytearray(pointless.serialize_to_bytearray([1, 2])))
            elif hasattr(x, "__next__"):
                next(x, None)
        except Exception:
            pass
        finally:
            self.depth -= 1

    def result(self, good):
        """of a special method"""
        self.act()
        r = self.r
        k = r.random()
        if k < .7:
            return good
        if k < .85:
            raise r.choice([Raised, TypeError, ValueError, KeyError, IndexError, StopIteration, MemoryError, OverflowError])("hostile")
        return r.choice([None, 0, -1, "x", 1.5, 2 ** 70, (), [], True, NotImplemented])

    # --- values
    def int_(self):
        r = self.r
        return r.choice([0, 1, -1, 2, 3, 7, 8, 31, 32, 33, 100, 255, 256, -128, -129, 65535, 65536, 2 ** 32 + 1, 2 ** 32, -2 ** 32, 2 ** 33, 2 ** 62, 2 ** 63 - 1, 2 ** 63, -2 ** 63, -2 ** 63 - 1,
                         2 ** 64 - 1, 2 ** 64, 2 ** 70, -2 ** 70, True, False, r.randint(-10, 1000)])

    def filename(self):
        r = self.r
        d = self.T.tmp
        return r.choice([os.path.join(d, "mis-%d-%d" % (os.getpid(), r.randrange(3))), os.path.join(d, "mis-%d-%d" % (os.getpid(), r.randrange(3))), d, os.path.join(d, "none", "x"), "a\0b", "", os.path.join(d, "x" * 300)])

    def value(self, depth=0):
        r = self.r
        k = r.randrange(22)
        if k == 0:
            return self.int_()
        if k == 1:
            return r.choice([0.0, 1.5, -2.0, math.inf, math.nan, 1e300, 3.0])
        if k == 2:
            return r.choice(["", "a", "abc", "\u1234", "\U0001f600", "\ud800", "a\0b", "i8", "u8", "f", "u64", "x" * 300])
        if k == 3:
            return r.choice([None, True, False, ..., NotImplemented, b"", b"abc", b"\0" * 64, 1j, object(), int, len, slice(1), slice(None, None, -1), slice(0, 5, 2), range(5), iter([1, 2]), memoryview(b"abcd")])
        if k == 4 and depth < 3:
            return [self.value(depth + 1) for _ in range(r.choice([0, 1, 3, 6]))]
        if k == 5 and depth < 3:
            return tuple(self.value(depth + 1) for _ in range(r.choice([0, 1, 2, 4])))
        if k == 6 and depth < 3:
            d = {}
            for _ in range(r.choice([0, 1, 3])):
                try:
                    d[self.value(depth + 2)] = self.value(depth + 1)
                except Exception:
                    pass
            return d
        if k == 7:
            s = set()
            for _ in range(r.choice([0, 1, 3])):
                try:
                    s.add(self.value(depth + 2))
                except Exception:
                    pass
            return r.choice([set, frozenset])(s)
        if k == 8:
            return bytearray(r.getrandbits(8) for _ in range(r.choice([0, 1, 8, 40])))
        if k == 9:
            t = r.choice(TYPES)
            return prim(t, [float(x) if t == "f" else x for x in [1, 2, 3, 3, 0][:r.randint(0, 5)]])
        if k == 10:
            return PointlessBitvector(sequence=[r.random() < .5 for _ in range(r.choice([0, 1, 8, 27, 28, 40]))])
        if k <= 12:
            return self.stored()
        if k == 13:
            return r.choice(TYPES_)
        if k == 14:
            # not initialised
            try:
                t = r.choice(TYPES_)
                return t.__new__(t)
            except TypeError:
                return None
        if k <= 16 and self.pool:
            return r.choice(self.pool)
        return self.evil(depth)

    def stored(self):
        r = self.r
        x = r.choice([[1, "a", None, [2.5]], {"a": 1, (1, 2): [1]}, {1, "b", (3, "c")}, [{1: 2}, {3}, PointlessBitvector(sequence=[1] * 30)], prim("u64", [1, 2, 9]), prim("f", [1.5, 2.5]), [[]], {}, set(),
                      PointlessBitvector(sequence=[0] * 5 + [1] * 9), [True] * 40])
        p = pointless.Pointless(pointless.serialize_to_bytearray(x))
        k = r.randrange(4)
        if k == 0:
            return p
        v = p.GetRoot()
        if k == 1:
            try:
                return r.choice([iter(v), reversed(v)] if isinstance(v, PointlessVector) else [iter(v)])
            except TypeError:
                return v
        if k == 2:
            try:
                return r.choice([lambda: v[1:], lambda: memoryview(v), lambda: v.items(), lambda: v.keys(), lambda: v.values()])()
            except (TypeError, ValueError, BufferError, AttributeError, IndexError):
                return v
        return v

    def evil(self, depth=0):
        r = self.r
        k = r.randrange(13)
        inner = self.value(depth + 1) if depth < 3 else 1
        if k == 0:
            return EvilObj()
        if k == 1:
            return EvilInt(r.choice([0, 1, 5, -1, 2 ** 70]))
        if k == 2:
            return EvilFloat(r.choice([0.0, 1.5]))
        if k == 3:
            return EvilStr(r.choice(["", "u8", "f", "abc"]))
        if k == 4:
            return EvilList([1, inner, 2])
        if k == 5:
            return EvilTuple((inner, 1))
        if k == 6:
            s = EvilSet()
            set.update(s, [1, 2, "a"])
            return s
        if k == 7:
            return EvilDict({1: inner, "b": 2})
        if k == 8:
            return EvilIter([1, inner, 3, 4])
        if k == 9:
            return EvilBytearray(b"abc" * r.choice([0, 1, 10]))
        if k == 10:
            s = EvilFrozenset([1, "x"])
            return s
        if k == 11:
            return EvilSeq()
        return (inner for inner in EvilIter([1, 2, inner]))

    # --- calls
    def args(self):
        r = self.r
        return [self.value() for _ in range(r.choice([0, 1, 1, 1, 2, 2, 3]))]

    def likely(self, x, name):
        """arguments which are more to the point"""
        r = self.r
        ev = lambda *a: r.choice(list(a) + [self.evil(), EvilObj()])  # noqa: E731
        if name in ("append",):
            return [ev(1, 1.5, True)]
        if name == "append_bulk":
            return [ev([1, 2], EvilIter([1, 2, 3]), EvilList([1, 2]), self.stored(), x, EvilIter([1.5, 2.5, 1.0]))]
        if name in ("pop_bulk", "extend_false", "extend_true"):
            return [ev(1, 2, 3, self.int_())]
        if name in ("index", "remove", "fast_remove", "__contains__"):
            return [ev(1, 2, 3.0)]
        if name == "bisect_left":
            return [ev(1, 2.5, "a")] + ([self.evil()] if r.random() < .3 else [])
        if name in ("__getitem__", "get"):
            return [ev(0, 1, -1, "a", (1, 2), self.int_())] + ([self.value()] if name == "get" and r.random() < .3 else [])
        if name == "__setitem__":
            return [ev(0, 1, -1), ev(1, 1.5, True)]
        if name == "sort_proj":
            return [ev(prim("u32", [2, 1, 0, 0, 1]), prim("i32", [1, 2, 3, 4, 5]))] + [self.value()]
        if name == "FromRemap":
            return [ev(prim("u32", [4, 5, 6]), x), ev(prim("u8", [0, 1, 2, 2]), prim("i64", [-1, 2]))]
        return self.args()

    def init_args(self, t):
        r = self.r
        if t is pointless.Pointless:
            a = r.choice([lambda: pointless.serialize_to_bytearray([1, {2: 3}]), lambda: pointless.serialize_to_buffer({"a": 1}), self.filename, self.value, self.value])()
            kw = {}
            if r.random() < .3:
                kw[r.choice(["allow_print", "validate", "buffer", "x"])] = self.value()
            return [a], kw
        if t is PointlessPrimVector:
            k = r.randrange(4)
            if k == 0:
                return [r.choice(TYPES)], {"sequence": r.choice([EvilIter([1, 2, 3]), EvilIter([1.5]), EvilList([1, 2]), self.value(), EvilSet([1])])}
            if k == 1:
                return [], {"buffer": r.choice([prim("u16", [1, 2]).serialize(), EvilBytearray(prim("f", [1.0]).serialize()), self.value()])}
            if k == 2:
                return [r.choice([EvilStr("u8"), self.value()])], {"allow_print": self.value()} if r.random() < .5 else {}
            return self.args(), {}
        if t is PointlessBitvector:
            k = r.randrange(4)
            if k == 0:
                return [], {"sequence": r.choice([EvilIter([1, 0, True]), EvilList([1, 0]), self.value(), EvilIter([1, EvilInt(1), 0])])}
            if k == 1:
                return [], {"size": r.choice([5, 100, EvilInt(5), EvilObj(), self.value()])}
            if k == 2:
                return [], {"size": 3, "sequence": [1], "allow_print": EvilObj()}
        return self.args(), {}

    def one(self):
        r = self.r
        k = r.randrange(20)
        if k <= 2:
            self.pool.append(self.value())
            return "new"
        if k <= 6:
            name = r.choice(FUNCS)
            a = self.args() if r.random() < .2 else [self.value()] + ([self.value()] if name.startswith("pointless_") else [self.filename()] if name == "serialize" else [])
            kw = {}
            if name.startswith("serialize") and r.random() < .3:
                kw = {r.choice(["unwiden_strings", "normalize_bitvector", "x"]): self.value()}
            if name == "pyobject_hash" and r.random() < .2:
                a.append(self.int_())
            self.say("%s(*%.300s, **%.100s)", name, a, kw)
            y = getattr(pointless, name)(*a, **kw)
            self.keep(y)
            return name
        if k == 7:
            t = r.choice(TYPES_)
            a, kw = self.init_args(t)
            self.say("%s(*%.300s, **%.100s)", t.__name__, a, kw)
            self.keep(t(*a, **kw))
            return "new " + t.__name__
        xs = [x for x in self.pool if type(x).__module__ in ("pointless", "builtins") and "ointless" in type(x).__name__] or [self.stored()]
        x = self.target = r.choice(xs)
        if k == 8:
            t = type(x)
            a, kw = self.init_args(t)
            self.say("%.100s.__init__(*%.300s, **%.100s)", x, a, kw)
            x.__init__(*a, **kw)
            return "init " + t.__name__
        if k <= 13:
            names = [n for n in dir(x) if not n.startswith("__")] + ["__getitem__", "__setitem__", "__contains__", "__iter__", "__next__", "__len__", "__repr__", "__sizeof__", "__reversed__", "__hash__"]
            name = r.choice(names)
            f = getattr(x, name)
            if callable(f):
                a = self.likely(x, name) if r.random() < .85 else self.args()
                self.say("%.100s.%s(*%.300s)", x, name, a)
                self.keep(f(*a))
            else:
                self.keep(f)
            return type(x).__name__ + "." + name
        if k <= 15:
            y = self.value()
            op = r.choice([operator.eq, operator.ne, operator.lt, operator.le, operator.gt, operator.ge, operator.contains, operator.getitem, operator.add, operator.mul, operator.delitem, operator.concat])
            self.say("%s(%.100s, %.100s)", op.__name__, x, y)
            self.keep(op(x, y))
            return type(x).__name__ + " " + op.__name__
        if k == 16:
            f = r.choice([len, repr, str, hash, bool, iter, reversed, memoryview, bytes, list, sorted, copy.copy, copy.deepcopy, pickle.dumps, dir, vars, gc.get_referents, lambda x: x[r.choice([slice(None), slice(1, 3), slice(-2, 99), slice(EvilObj(), EvilInt(1))])],
                          lambda x: setattr(x, "allow_print", self.value()), lambda x: delattr(x, "allow_print"), lambda x: setattr(x, "foo", 1), lambda x: x.__class__.__new__(x.__class__, 1, 2, a=3),
                          lambda x: operator.setitem(x, r.choice([0, 1, self.evil()]), self.evil()), lambda x: min(x), lambda x: next(x)])
            if f is bytes and not isinstance(x, (PointlessVector, PointlessPrimVector)):
                return "skip"
            self.say("%s(%.100s)", getattr(f, "__name__", f), x)
            self.keep(f(x))
            return type(x).__name__ + " " + f.__name__
        if k == 17:
            self.pool.append(self.stored())
            return "stored"
        if k == 18:
            if len(self.pool) > 6:
                del self.pool[r.randrange(len(self.pool)):]
            else:
                gc.collect()
            return "drop"
        t = type(x)
        if r.random() < .5:
            class Sub(t):
                pass
            self.keep(Sub())
        else:
            self.keep(t.__new__(t))
        return "subclass " + t.__name__

    def say(self, fmt, *a):
        """the last call, for reports; hostile values are not asked for their representation"""
        def show(x, d=0):
            if type(x) in (list, tuple) and d < 3:
                return "[%s]" % ", ".join(show(y, d + 1) for y in x[:6])
            if type(x) is dict and d < 3:
                return "{%s}" % ", ".join("%s: %s" % (show(k, 3), show(v, d + 1)) for k, v in list(dict.items(x))[:4])
            return repr(x)[:40] if type(x) in (int, float, str, bytes, bool, type(None)) else x.__name__ if isinstance(x, type) else "<%s>" % type(x).__name__
        self.last = fmt % tuple(x if isinstance(x, str) else show(x) for x in a)

    def keep(self, y):
        if len(self.pool) < 40:
            self.pool.append(y)

    def run(self, n, ordinary):
        """n calls; returns what was called, with the outcome"""
        done = []
        for _ in range(n):
            self.n = 0
            self.target = None
            for x in self.pool:
                if isinstance(x, (PointlessPrimVector, PointlessBitvector, list)):
                    try:
                        if len(x) > 5000:
                            self.pool.remove(x)
                            break
                    except Exception:
                        pass
            try:
                name = self.one()
                out = "ok"
            except ordinary as e:
                if isinstance(e, SystemError) and ("without setting an exception" in str(e) or "with an exception set" in str(e) or "PyUnicode_New" in str(e)):
                    raise Broken(str(e))
                name, out = "", type(e).__name__
            done.append((name, out))
        Session.cur = self.target = None
        self.pool.clear()
        return done


def _m(good):
    def f(self, *a, **k):
        s = Session.cur
        if s is None:
            return good(self)
        return s.result(good(self))
    return f


SPECIAL = {"__len__": lambda s: 3, "__iter__": lambda s: iter([1, 2, 3]), "__getitem__": lambda s: 1, "__eq__": lambda s: True, "__lt__": lambda s: True, "__gt__": lambda s: False, "__le__": lambda s: True,
           "__hash__": lambda s: 5, "__index__": lambda s: 1, "__int__": lambda s: 1, "__float__": lambda s: 1.5, "__bool__": lambda s: True, "__repr__": lambda s: "evil", "__contains__": lambda s: True,
           "__length_hint__": lambda s: 7, "__next__": lambda s: 1, "keys": lambda s: [1], "items": lambda s: [(1, 2)], "__ge__": lambda s: True, "__ne__": lambda s: False, "__str__": lambda s: "evil", "__fspath__": lambda s: "evil",
           "__bytes__": lambda s: b"evil", "__complex__": lambda s: 1j}


def _evil(name, base, methods):
    d = {m: _m(SPECIAL[m]) for m in methods}
    return type(name, base, d)


COMMON = ("__len__", "__iter__", "__getitem__", "__eq__", "__lt__", "__gt__", "__le__", "__ge__", "__ne__", "__hash__", "__bool__", "__contains__", "__repr__", "__str__")
NUM = ("__eq__", "__lt__", "__gt__", "__le__", "__ge__", "__ne__", "__hash__", "__index__", "__int__", "__float__", "__bool__", "__repr__", "__str__")
EvilObj = _evil("EvilObj", (object,), [m for m in SPECIAL if m not in ("__next__", "__iter__")])
EvilSeq = _evil("EvilSeq", (object,), ["__len__", "__getitem__", "__length_hint__"])
EvilSeq.__getitem__ = lambda s, i: _m(lambda s: i)(s) if i < 6 else [][0]
EvilInt = _evil("EvilInt", (int,), NUM)
EvilFloat = _evil("EvilFloat", (float,), NUM)
EvilStr = _evil("EvilStr", (str,), COMMON)
EvilList = _evil("EvilList", (list,), [m for m in COMMON if m != "__hash__"])
EvilTuple = _evil("EvilTuple", (tuple,), COMMON)
EvilSet = _evil("EvilSet", (set,), COMMON)
EvilFrozenset = _evil("EvilFrozenset", (frozenset,), COMMON)
EvilDict = _evil("EvilDict", (dict,), [m for m in COMMON if m != "__hash__"] + ["keys", "items"])
EvilBytearray = _evil("EvilBytearray", (bytearray,), [m for m in COMMON if m != "__hash__"])


class EvilIter:
    def __init__(self, items):
        self.items = list(items)

    def __iter__(self):
        return self

    def __next__(self):
        s = Session.cur
        if s is not None:
            s.act()
        if not self.items:
            raise StopIteration
        return self.items.pop(0)

    def __length_hint__(self):
        return 1 << 62 if len(self.items) == 1 else 2
