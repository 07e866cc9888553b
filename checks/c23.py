"""C23: the C interface for creating files."""
import os
import struct

import c22
import fmt
import pointless
from capi import *
from strcoll import GROUPS
from gen import *
from wk import check, Violation

VARIANT = "capi"
CASES = {"quick": 6500, "thorough": 250000}
RULE = ("one case = one random program of calls of the C creation API in one or two interleaved contexts (values of every type, strings from every source, vectors grown item by item, handed over or owned by "
        "the caller, value_set, shared and cyclic containers, sets and maps with good and bad keys, wrong handles), ended by output to a buffer, output to a file, or without output, sometimes while the "
        "allocator refuses requests; the outcome and the bytes are compared with a model of the program, the library's live allocations with those before it; "
        "non-trivial = a file with at least one container; distinct by the bytes of the file")
MUST_OBSERVE = ("outputs", "files", "refused_keys", "refused_duplicates", "no_root", "ended", "shared", "cycles", "transfers", "owned", "out_of_memory", "survived_oom", "lookups", "bad_handles", "compressed", "sweeps")
MIN_EVAL = 1500
EDGE = [0, 1, -1, 2, 127, 128, 255, 256, -128, -129, 32767, 32768, 65535, 65536, -32768, -32769, 2 ** 31 - 1, 2 ** 31, 2 ** 32 - 1, -2 ** 31, 1023, 1024, 5, 7, 100,
        9999, 10000, 10001, -9999, -10000, -10001]
WIDTH = {"i8": (-2 ** 7, 2 ** 7 - 1), "u8": (0, 255), "i16": (-2 ** 15, 2 ** 15 - 1), "u16": (0, 65535), "i32": (-2 ** 31, 2 ** 31 - 1), "u32": (0, 2 ** 32 - 1),
         "i64": (-2 ** 63, 2 ** 63 - 1), "u64": (0, 2 ** 64 - 1)}
NAMES = ("i8", "u8", "i16", "u16", "i32", "u32", "i64", "u64", "float")
TYPE = {t: fmt.PRIM_OF["f" if t == "float" else t] for t in NAMES}
FLOATS = [0.0, -0.0, 1.0, 1.5, -2.5, 0.125, 2.0 ** 31, 2.0 ** 90, 2.0 ** -140, math.inf, -math.inf, 255.0, 16777216.0]


class Node:
    def __init__(self, kind, v=None):
        self.kind, self.v = kind, v


class Stop(Exception):
    """an allocation was refused and the program gives up"""


class Program:
    def __init__(self, r, g, T):
        self.r, self.g, self.T = r, g, T
        self.c = ctypes.create_string_buffer(SIZES["pointless_create_t"])
        self.v32 = r.random() < .02
        (L.pointless_create_begin_32 if self.v32 else L.pointless_create_begin_64)(self.c)
        self.nodes, self.root, self.owned, self.taken = {}, None, [], []
        self.containers, self.base = [], [g.str_()[:12] for _ in range(4)] + ["", "a", "ab", "\xff"]

    # --- handles ---
    def add(self, h, kind, v=None, shared=True):
        """a new value, or one the library gave out before for an equal value"""
        if h == FAIL:
            self.failed("create " + kind)
            return h
        n = self.nodes.get(h)
        if n is not None:
            check(shared and n.kind == kind and n.v == v, "handle-reused", lambda: "%d was %s %r, is %s %r" % (h, n.kind, n.v, kind, v))
            self.T.count("shared")
        else:
            self.nodes[h] = n = Node(kind, v)
            if not shared:
                self.containers.append(h)
        return h

    def failed(self, what):
        check(Alloc.fail_at.value >= 0 and Alloc.refused.value, "failed", what)
        if self.r.random() < .5:
            raise Stop

    def any(self):
        r = self.r
        hs = list(self.nodes)
        if not hs or r.random() < .45:
            return self.make()
        if self.containers and r.random() < .4:
            return r.choice(self.containers)
        return r.choice(hs)

    # --- values ---
    def make(self):
        while True:
            n = len(self.nodes)
            try:
                h = self.make_one()
            except OverflowError:
                raise
            if h != FAIL:
                return h

    def make_one(self):
        r, g, c = self.r, self.g, self.c
        k = r.random()
        if k < .3:
            v = r.choice([r.choice(EDGE), r.randint(-2000, 2000), r.randint(-2 ** 31, 2 ** 32 - 1)])
            if v >= 2 ** 31 or v >= 0 and r.random() < .5:
                return self.add(L.pointless_create_u32(c, v), "u32", v)
            return self.add(L.pointless_create_i32(c, v), "i32", v)
        if k < .38:
            v = r.choice(FLOATS + [f32(r.uniform(-9, 9))])
            return self.add(L.pointless_create_float(c, v), "float", struct.pack("<f", v))
        if k < .42:
            return self.add(L.pointless_create_null(c), "null")
        if k < .48:
            v = r.choice([0, 1, 1, 2, -1, 256])
            f = r.random()
            h = L.pointless_create_boolean(c, v) if f < .6 else L.pointless_create_boolean_true(c) if v else L.pointless_create_boolean_false(c)
            return self.add(h, "bool", bool(v))
        if k < .68:
            return self.string()
        if k < .78:
            return self.bits()
        return self.container()

    def string(self):
        r, c = self.r, self.c
        s = r.choice([r.choice(self.base), r.choice(self.base) + r.choice(["x", "\x01", "\x7f", "\u4e00"]), self.g.str_(), r.choice(GROUPS[r.randrange(3)]), "y" * r.choice([1, 2, 3, 4, 5, 100, 3000])])
        s = s.replace("\0", "")
        if r.random() < .1 and s:
            # what follows the terminator is not part of the string
            s, tail = s, "\0" + s
        else:
            tail = ""
        top = max(map(ord, s + tail), default=0)
        ops = ["unicode_ucs4"] + ["unicode_ucs2"] * (top < 65536) + ["unicode_ascii", "string_ascii", "string_ucs2", "string_ucs4"] * (top < 256)
        op = r.choice(ops)
        f = getattr(L, "pointless_create_" + op)
        w = {"ucs4": "<I", "ucs2": "<H"}.get(op[-4:], "<B")
        raw = b"".join(struct.pack(w, ord(x)) for x in s + tail + "\0")
        p = L.capi_memdup(raw, len(raw))
        if not p:
            return FAIL
        a = ctypes.cast(p, f.argtypes[1])
        err = c_char_p()
        h = f(c, a, byref(err)) if op == "unicode_ascii" else f(c, a)
        if h == FAIL and op == "unicode_ascii":
            check(err.value is not None, "no-message", "")
        free(p)
        return self.add(h, op[:6].rstrip("_") if op[0] == "s" else "unicode", s)

    def bits(self):
        r, c = self.r, self.c
        n = r.choice([0, 1, 2, 7, 8, 9, 26, 27, 28, 29, 31, 32, 33, 63, 64, 65, 200, r.randint(0, 100), 1000])
        k = r.random()
        a = r.randint(0, n)
        if k < .15:
            b = [r.random() < .5] * n
        elif k < .4:
            x = r.random() < .5
            b = [x] * a + [not x] * (n - a)
        elif k < .6:
            q = random.Random(r.randint(0, 2))
            b = [q.random() < .5 for _ in range(n)]
        else:
            b = [r.random() < .5 for _ in range(n)]
        if k > .97 and n < 100:
            # long runs do not fit into 16 bits
            n = r.choice([65535, 65536, 65537]) + 40
            a = r.choice([40, 39, 41, n - 40, n - 41])
            x = r.random() < .5
            b = [x] * a + [not x] * (n - a)
        junk = 0 if r.random() < .5 or n % 8 == 0 else r.randrange(256) << (n % 8) & 255
        raw = sum(1 << i for i, x in enumerate(b) if x).to_bytes((n + 7) // 8, "little")
        if raw:
            raw = raw[:-1] + bytes([raw[-1] | junk])
        norm = r.random() < .6
        p = L.capi_memdup(raw, len(raw))
        if not p:
            return FAIL
        f = L.pointless_create_bitvector if norm else L.pointless_create_bitvector_no_normalize
        h = f(c, ctypes.cast(p, c_char_p), n)
        free(p)
        h = self.add(h, "bits", tuple(b), shared=norm) if norm else self.add_bits(h, b)
        if h != FAIL and n <= 27 and r.random() < .2:
            # the stored form of a short one
            t = (fmt.BITS_0, n) if not any(b) else (fmt.BITS_1, n) if all(b) else None
            if t:
                return self.add(L.pointless_create_bitvector_compressed(c, V(*t)), "bits", tuple(b))
        return h

    def add_bits(self, h, b):
        h = self.add(h, "bits", tuple(b))
        return h

    def container(self):
        r, c = self.r, self.c
        k = r.random()
        if k < .3:
            h = self.add(L.pointless_create_vector_value(c), "value", None, shared=False)
            if h == FAIL:
                return h
            self.nodes[h].v = []
            self.fill(h)
        elif k < .55:
            t = r.choice(list(NAMES))
            h = self.add(getattr(L, "pointless_create_vector_" + t)(c), "v:" + t, None, shared=False)
            if h == FAIL:
                return h
            self.nodes[h].v = []
            self.fill(h)
        elif k < .68:
            t = r.choice(list(NAMES))
            xs = self.items(t, r.choice([0, 1, 2, 3, 5, 9, 40]))
            raw = struct.pack("<%d%s" % (len(xs), "f" if t == "float" else FMT[t]), *xs)
            p = L.capi_memdup(raw, len(raw))
            if not p:
                return FAIL
            self.owned.append(p)
            h = getattr(L, "pointless_create_vector_%s_owner" % t)(c, ctypes.cast(p, POINTER(ITEM[t])), len(xs))
            h = self.add(h, "v:" + t, None, shared=False)
            if h == FAIL:
                return h
            self.nodes[h].v = xs
            self.nodes[h].owner = True
            self.T.count("owned")
        elif k < .84:
            h = self.add(L.pointless_create_set(c), "set", None, shared=False)
            if h == FAIL:
                return h
            self.nodes[h].v = []
            self.fill(h)
        else:
            h = self.add(L.pointless_create_map(c), "map", None, shared=False)
            if h == FAIL:
                return h
            self.nodes[h].v = []
            self.fill(h)
        return h

    def items(self, t, n):
        r = self.r
        if t == "float":
            return [r.choice(FLOATS + [f32(r.uniform(-9, 9))]) for _ in range(n)]
        lo, hi = WIDTH[t]
        return [r.choice([lo, hi, 0, 1, r.randint(lo, hi), max(lo, -1)]) for _ in range(n)]

    depth = 0

    def fill(self, h):
        """some more items"""
        r, c, n = self.r, self.c, self.nodes[h]
        if h == FAIL or getattr(n, "owner", 0) or self.depth > 4 or len(self.nodes) > 400:
            return
        self.depth += 1
        try:
            k = r.choice([0, 1, 1, 2, 3, 5]) if r.random() < .95 else r.choice([17, 40, 90])
            if n.kind[:2] == "v:":
                xs = self.items(n.kind[2:], k)
                if n.kind == "v:u32" and r.random() < .3:
                    raw = struct.pack("<%dI" % k, *xs)
                    self.transfer(n, h, L.pointless_create_vector_u32_transfer, raw, xs)
                    return
                f = getattr(L, "pointless_create_vector_%s_append" % n.kind[2:])
                for x in xs:
                    self.done(f(c, h, x), h, lambda: n.v.append(x))
            elif n.kind == "value":
                style = r.random()
                hs = [self.scalar_like(style) for _ in range(k)]
                if r.random() < .2:
                    raw = struct.pack("<%dI" % len(hs), *hs)
                    self.transfer(n, h, L.pointless_create_vector_value_transfer, raw, hs)
                    return
                for x in hs:
                    self.done(L.pointless_create_vector_value_append(c, h, x), h, lambda: n.v.append(x))
                if r.random() < .1:
                    bad = r.choice([FAIL, FAIL - 1, 2 ** 31])
                    check(L.pointless_create_vector_value_append(c, h, bad) == FAIL, "bad-handle", "append %d" % bad)
                    self.T.count("bad_handles")
                if n.v and r.random() < .2:
                    j, x = r.randrange(len(n.v)), self.any()
                    L.pointless_create_vector_value_set(c, h, j, x)
                    n.v[j] = x
            else:
                bad = r.random() < .06
                for _ in range(k):
                    x = self.any() if bad else self.key()
                    y = self.any()
                    if not bad and r.random() < .97:
                        # no duplicates
                        if eqkey(self.py(x)) in [eqkey(self.py(z)) for z in self.keys(n) if self.hashable(z)]:
                            continue
                    if n.kind == "set":
                        self.done(L.pointless_create_set_add(c, h, x), h, lambda: n.v.append(x))
                    else:
                        self.done(L.pointless_create_map_add(c, h, x, y), h, lambda: n.v.append((x, y)))
                if r.random() < .03:
                    f = L.pointless_create_set_add if n.kind == "set" else L.pointless_create_map_add
                    bad = r.choice([FAIL, FAIL - 1, 2 ** 31])
                    a = (bad,) if n.kind == "set" else r.choice([(bad, next(iter(self.nodes))), (next(iter(self.nodes)), bad)])
                    check(f(c, h, *a) == FAIL, "bad-handle", "%r" % (a,))
                    self.T.count("bad_handles")
                if r.random() < .01:
                    self.done((L.pointless_create_set_add if n.kind == "set" else L.pointless_create_map_add)(c, h, *self.empty_slot(n)), h, lambda: n.v.append(self.last))
        finally:
            self.depth -= 1

    def empty_slot(self, n):
        e = self.add(L.pointless_create_empty_slot(self.c), "slot")
        v = next(iter(self.nodes))
        self.last = e if n.kind == "set" else (e, v)
        return (e,) if n.kind == "set" else (e, v)

    def keys(self, n):
        return n.v if n.kind == "set" else [x for x, _ in n.v]

    def transfer(self, n, h, f, raw, xs):
        p = L.capi_memdup(raw, len(raw))
        if not p:
            return self.failed("memory")
        ok = f(self.c, h, ctypes.cast(p, c_void_p), len(xs))
        if n.v:
            check(ok == FAIL, "transfer-to-filled", "")
            free(p)
        elif ok == FAIL:
            free(p)
            self.failed("transfer")
        else:
            check(ok == h, "transfer", "")
            n.v = list(xs)
            self.T.count("transfers")

    def scalar_like(self, style):
        """items of one sort, which may be compressed"""
        r, c = self.r, self.c
        if style < .3:
            lo, hi = WIDTH[r.choice(["i8", "u8", "i16", "u16", "i32", "u32"]) if style < .06 else list(WIDTH)[int(style * 100) % 6]]
            v = r.choice([lo, hi, r.randint(lo, hi), max(lo, -1), 0])
            if v >= 2 ** 31 or v >= 0 and r.random() < .5:
                return self.add(L.pointless_create_u32(c, v), "u32", v) if v is not None else None
            return self.add(L.pointless_create_i32(c, v), "i32", v)
        if style < .4:
            v = r.choice(FLOATS)
            return self.add(L.pointless_create_float(c, v), "float", struct.pack("<f", v))
        return self.any()

    def key(self):
        for _ in range(20):
            h = self.any()
            if h != FAIL and self.hashable(h):
                return h
        return self.string()

    def done(self, ok, h, act):
        if ok == FAIL:
            self.failed("add")
        else:
            check(ok == h, "result-of-add", "%d for %d" % (ok, h))
            act()

    # --- what the program means ---
    def hashable(self, h, path=()):
        n = self.nodes[h]
        if n.kind in ("set", "map", "slot") or h in path or len(path) > 60:
            return False
        if n.kind == "value":
            return all(self.hashable(x, path + (h,)) for x in n.v)
        return True

    def size(self, h, memo):
        if h not in memo:
            n = self.nodes[h]
            memo[h] = 1 + sum(self.size(x, memo) for x in n.v) if n.kind == "value" else 1
        return memo[h]

    def py(self, h):
        n = self.nodes[h]
        if n.kind in ("i32", "u32", "bool", "null") or n.kind in ("string", "unicode"):
            return n.v
        if n.kind == "float":
            return struct.unpack("<f", n.v)[0]
        if n.kind == "bits":
            return FBits(n.v)
        if n.kind == "value":
            return tuple(self.py(x) for x in n.v)
        return tuple(n.v)

    def reachable(self):
        seen, todo = set(), [self.root]
        while todo:
            h = todo.pop()
            if h in seen:
                continue
            seen.add(h)
            n = self.nodes[h]
            if n.kind in ("value", "set"):
                todo += n.v
            elif n.kind == "map":
                todo += [x for kv in n.v for x in kv]
        return seen

    def wrong(self):
        """the reasons for which output must fail, and those for which it may"""
        if self.v32:
            return ["version"], []
        if self.root is None:
            return ["root"], []
        must, may = [], []
        seen = self.reachable()
        for h, n in self.nodes.items():
            if n.kind not in ("set", "map"):
                continue
            ks = self.keys(n)
            w = None
            if not all(self.hashable(k) for k in ks):
                w = "keys"
            elif len({eqkey(self.py(k)) for k in ks}) < len(ks):
                w = "duplicates"
            if w:
                (must if h in seen else may).append(w)
        return must, may

    # --- comparison ---
    def compare(self, b):
        F = fmt.File(b)
        to, back, todo = {}, {}, [(self.root, F.root)]
        n_c = 0

        def bad(what, h, t, d):
            raise Violation("stored:" + what, "%s %r stored as %d %d" % (self.nodes[h].kind, str(self.nodes[h].v)[:200], t, d))
        while todo:
            h, (t, d) = todo.pop()
            n = self.nodes[h]
            if n.kind in ("i32", "u32"):
                if t not in (fmt.I32, fmt.U32) or F.value(t, d, []) != n.v:
                    bad("integer", h, t, d)
                continue
            if n.kind == "float":
                if t != fmt.FLOAT or struct.pack("<I", d) != n.v:
                    bad("float", h, t, d)
                continue
            if n.kind in ("null", "bool"):
                if t != (fmt.NULL if n.kind == "null" else fmt.BOOL) or n.kind == "bool" and d != n.v:
                    bad("constant", h, t, d)
                continue
            if n.kind in ("string", "unicode"):
                if t != (fmt.STRING if n.kind == "string" else fmt.UNICODE) or F.string(d, t == fmt.UNICODE)[0] != n.v:
                    bad("string", h, t, d)
                continue
            if n.kind == "bits":
                if t not in fmt.BITVECTORS or tuple(F.bits(t, d)) != n.v:
                    bad("bits", h, t, d)
                continue
            if n.kind not in ("set", "map") and not n.v:
                if t != fmt.V_EMPTY:
                    bad("empty", h, t, d)
                continue
            n_c += 1
            ref = ("v", d) if n.kind not in ("set", "map") else (t, d)
            if to.setdefault(h, ref) != ref or back.setdefault(ref, h) != h:
                bad("identity", h, t, d)
            if (h, "done") in to:
                self.T.count("cycles")
                continue
            to[h, "done"] = 1
            if n.kind[:2] == "v:":
                name = n.kind[2:]
                if t != TYPE[name]:
                    bad("vector-type", h, t, d)
                p, m = F.raw_vector(t, d)
                if b[p:p + m * ctypes.sizeof(ITEM[name])] != struct.pack("<%d%s" % (len(n.v), "f" if name == "float" else FMT[name]), *n.v):
                    bad("vector", h, t, d)
            elif n.kind == "value":
                if t in (fmt.V_VALUE, fmt.V_HASHABLE):
                    ch = c22.children(F, t, d)
                    if len(ch) != len(n.v):
                        bad("vector", h, t, d)
                    todo += zip(n.v, ch)
                elif t in c22.PRIMS:
                    self.T.count("compressed")
                    p, m = F.raw_vector(t, d)
                    fl = t == fmt.PRIM_OF["f"]
                    kinds = {self.nodes[x].kind for x in n.v}
                    if kinds - ({"float"} if fl else {"i32", "u32"}):
                        bad("vector-compressed", h, t, d)
                    xs = struct.unpack_from("<%d%s" % (m, "I" if fl else FMT[c22.PRIMS[t]]), b, p)
                    if list(xs) != [struct.unpack("<I", self.nodes[x].v)[0] if fl else self.nodes[x].v for x in n.v]:
                        bad("vector", h, t, d)
                else:
                    bad("vector-type", h, t, d)
            else:
                if t != (fmt.SET if n.kind == "set" else fmt.MAP):
                    bad("table-type", h, t, d)
                ks, vs = F.table(t, d)
                got = {eqkey(c22.todo_value(F, *ks[j])): j for j in range(len(ks)) if ks[j][0] != fmt.EMPTY_SLOT}
                if len(got) != len(n.v):
                    bad("table-size", h, t, d)
                for e in n.v:
                    x, y = e if n.kind == "map" else (e, None)
                    j = got.get(eqkey(self.py(x)))
                    if j is None:
                        bad("key", h, t, d)
                    todo.append((x, ks[j]))
                    if y is not None:
                        todo.append((y, vs[j]))
        return F, n_c

    def build(self):
        r, c = self.r, self.c
        for _ in range(r.choice([1, 2, 3, 6, 12, 30])):
            k = r.random()
            if k < .6 or not self.containers:
                self.any()
            else:
                self.fill(r.choice(self.containers))
            if r.random() < .1 and self.nodes:
                self.set_root()
            yield
        if r.random() < .97:
            if self.containers and r.random() < .9:
                self.set_root(self.containers)
            elif self.nodes:
                self.set_root()

    def set_root(self, among=None):
        self.root = self.r.choice(list(among or self.nodes))
        if self.nodes[self.root].kind == "slot":
            self.root = next(h for h in self.nodes)
        L.pointless_create_set_root(self.c, self.root)

    def finish(self, how, fname):
        """ends the context; the bytes, or None and the message"""
        err = c_char_p()
        if how == "end":
            L.pointless_create_end(self.c)
            self.T.count("ended")
            return None, None
        if how == "file":
            ok = L.pointless_create_output_and_end_f(self.c, fname.encode(), byref(err))
            self.T.count("files")
            if ok:
                with open(fname, "rb") as f:
                    b = f.read()
                os.unlink(fname)
                return b, None
            check(not os.path.exists(fname), "file-of-failed-output", "")
        else:
            buf, n = c_void_p(), c_size_t()
            ok = L.pointless_create_output_and_end_b(self.c, byref(buf), byref(n), byref(err))
            if ok:
                b = ctypes.string_at(buf.value, n.value)
                free(buf)
                return b, None
        check(err.value, "no-message", "")
        return None, err.value

    def end(self, how, fname, stopped, T):
        try:
            if stopped:
                how = "end" if self.r.random() < .5 else how
            # what is deep or very large is for C01
            if how != "end" and any(self.nodes[h].kind == "slot" for h in self.reachable()) and not self.wrong()[0] if self.root is not None else False:
                how = "end"
            oom = Alloc.refused.value
            b, err = self.finish(how, fname)
            oom = Alloc.fail_at.value >= 0 and Alloc.refused.value
        finally:
            for p in self.owned:
                free(p)
        if how == "end":
            return
        must, may = self.wrong()
        if b is None:
            T.count("refused_keys" if "keys" in must else "refused_duplicates" if "duplicates" in must else "no_root" if "root" in must else "out_of_memory" if oom else "other")
            check(must or may or oom, "output-failed", lambda: "%r" % err)
            return
        check(not must, "output-accepted", lambda: "%r" % must)
        T.count("outputs")
        if oom:
            T.count("survived_oom")
        F, n = self.compare(b)
        return b, F, n


def sweep(r, T):
    """every integer of a wide range, in one file, from both kinds of calls: equal ones may share a value, others must not"""
    c = ctypes.create_string_buffer(SIZES["pointless_create_t"])
    L.pointless_create_begin_64(c)
    at, width = r.choice([(0, 12000), (0, 12000), (0, 12000), (2 ** 16, 300), (-2 ** 16, 300), (2 ** 31, 300), (2 ** 32, 300), (-2 ** 31, 300)])
    xs = [x for x in range(at - width, at + width) if -2 ** 31 <= x < 2 ** 32]
    calls = [(x, s) for x in xs for s in (0, 1) if (x < 2 ** 31 if s else x >= 0)]
    calls += r.choices(calls, k=500)
    r.shuffle(calls)
    T.about("sweep of the integers around %d" % at)
    v = L.pointless_create_vector_value(c)
    for x, s in calls:
        h = (L.pointless_create_i32 if s else L.pointless_create_u32)(c, x)
        check(h != FAIL and L.pointless_create_vector_value_append(c, v, h) == v, "sweep-failed", "%d" % x)
    plain = at >= 2 ** 31 or r.random() < .5
    if plain:
        h = L.pointless_create_null(c)
        check(L.pointless_create_vector_value_append(c, v, h) == v, "sweep-failed", "null")
    L.pointless_create_set_root(c, v)
    buf, n, err = c_void_p(), c_size_t(), c_char_p()
    check(L.pointless_create_output_and_end_b(c, byref(buf), byref(n), byref(err)), "sweep-failed", lambda: "%r" % err.value)
    b = ctypes.string_at(buf.value, n.value)
    free(buf)
    F = fmt.File(b)
    t, d = F.root
    if plain:
        got = [F.value(*x, []) for x in c22.children(F, t, d)][:-1]
    else:
        p, m = F.raw_vector(t, d)
        got = list(struct.unpack_from("<%d%s" % (m, FMT[c22.PRIMS[t]]), b, p))
    if got != [x for x, _ in calls]:
        j = next((j for j in range(len(calls)) if j >= len(got) or got[j] != calls[j][0]), -1)
        raise Violation("sweep", "%r stored as %r" % (calls[j], got[j:j + 1]))
    T.count("sweeps")
    T.ev()
    T.key(b)


def case(i, r, T):
    if i % 400 == 7:
        return sweep(r, T)
    g = G(r)
    seed = r.getrandbits(60)
    fname = os.path.join(T.tmp, "c23-%d.map" % os.getpid())
    hows = [r.choice(["buffer", "buffer", "buffer", "file", "file", "end"]) for _ in range(2)]
    two = r.random() < .3
    fail = None
    before = Alloc.live.value

    def run(fail):
        q = random.Random(seed)
        ps = [Program(q, G(q), T)]
        if two:
            ps.append(Program(q, G(q), T))
        Alloc.seen.value, Alloc.refused.value = 0, 0
        Alloc.fail_at.value, Alloc.later.value = fail if fail else (-1, 0)
        try:
            live = [(p, p.build()) for p in ps]
            stopped = set()
            while live:
                p, s = q.choice(live)
                try:
                    next(s)
                except StopIteration:
                    live.remove((p, s))
                except Stop:
                    live.remove((p, s))
                    stopped.add(p)
            out = [p.end(h, fname, p in stopped, T) for p, h in zip(ps, hows)]
        finally:
            Alloc.fail_at.value = -1
        return out, Alloc.seen.value
    T.about("seed %d two %s %s" % (seed, two, hows))
    out, n = run(None)
    check(Alloc.live.value == before, "leak", lambda: "%d allocations live" % (Alloc.live.value - before))
    for o in out:
        T.ev()
        if not o:
            continue
        b, F, n_c = o
        if n_c:
            T.key(b)
        if r.random() < .3:
            pointless.Pointless(bytearray(b)).GetRoot()
        f = File(data=b)
        seen, todo, ids, tables, keys = set(), [F.root], {}, [], []
        while todo:
            t, d = todo.pop()
            if (t, d) in seen:
                continue
            seen.add((t, d))
            keys.append((t, d))
            c22.read(F, f.p, t, d, ids)
            if t in (fmt.SET, fmt.MAP):
                tables.append((t, d))
                ks, vs = F.table(t, d)
                todo += [x for x in ks + (vs or []) if x[0] != fmt.EMPTY_SLOT]
            else:
                todo += c22.children(F, t, d)
        for t, d in tables[:6]:
            c22.search(F, f.p, t, d, keys[:100], r, T)
        f.close()
        del f
    if r.random() < .1:
        again, _ = run(None)
        check([o and o[0] for o in out] == [o and o[0] for o in again], "not-deterministic", "")
    for _ in range(r.choice([0, 0, 1, 2])):
        k = r.randrange(n) if r.random() < .6 else max(0, n - 1 - int(r.expovariate(.05)))
        fail = (k, r.random() < .3)
        T.about("seed %d two %s %s, allocation %r of %d refused" % (seed, two, hows, fail, n))
        live = Alloc.live.value
        run(fail)
        check(Alloc.live.value == live, "leak-out-of-memory", lambda: "%d allocations live" % (Alloc.live.value - live))
    if i < 2:
        T.sample("%r, %d allocations" % (hows, n))
