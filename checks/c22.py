"""C22: the C interface for reading."""
import ctypes
import os
import struct

import fmt
import pointless
from c05 import foreign
from capi import *
from gen import *
from keyed import key_set
from wk import check

VARIANT = "capi"
CASES = {"quick": 2600, "thorough": 60000}
RULE = ("one case = one stored value rich in maps (written by the library or by an independent encoder), opened through the C API from a file or a buffer; every value is read with every "
        "accessor which applies, maps and sets are searched with each helper for present, missing and similar keys, paths are evaluated in random spelling, and the value is walked; "
        "the oracle is an independent decoder of the same bytes; non-trivial = at least one map with two keys; distinct by the bytes of the file")
MUST_OBSERVE = ("values", "helper_hits", "helper_misses", "eval_hits", "eval_misses", "walked", "lookups", "refused", "same_keys", "different_keys")
MIN_EVAL = 500
PRIMS = {fmt.PRIM_OF[t]: t for t in TYPES}
NAME = {t: ("float" if t == "f" else t) for t in TYPES}
INTS = (fmt.I32, fmt.U32)
STRS = (fmt.STRING, fmt.UNICODE)
REFS = fmt.VECTORS + (fmt.SET, fmt.MAP)


def source(r, g):
    """a dict with many keys which are strings and integers, and values of all types"""
    base = [g.str_()[:20] for _ in range(4)] + ["", "a", "ab", "abc", "\xe9\xff", "\u4e00", "a b", "]", "['a']", "%s", "0", "k" * 40, "\xff" * 3]
    out = {}
    for _ in range(r.choice([0, 1, 2, 5, 12, 30])):
        k = r.random()
        key = r.choice(base) + r.choice(["", "", "x", "\x01"]) if k < .6 else g.int_() if k < .85 else r.randint(-3, 9) if k < .93 else g.key()
        if eqkey(key) in {eqkey(x) for x in out}:
            continue
        k = r.random()
        if k < .2:
            v = r.choice([r.choice(INT_EDGES), True, 1.5, None, g.float_(), g.int_()])
        elif k < .3:
            v = r.choice(base)
        elif k < .5:
            t = r.choice(TYPES)
            v = prim(t, g.prim_items(t, r.choice([0, 1, 2, 9])))
        elif k < .6:
            v = g.bitvector()
        elif k < .7:
            v = [g.scalar() for _ in range(r.choice([0, 1, 2, 5]))]
        elif k < .8 and out:
            v = set(out) if r.random() < .5 else {k: 1 for k in out}
            if r.random() < .3:
                v = set(list(out)[1:]) | {"other"}
        elif k < .9 and g.slack > 0:
            g.slack -= 10
            v = source(r, g)
        else:
            v = g.value(3)
        out[key] = v
    return out


def children(F, t, d):
    """items of a vector as (type, data) of whatever width"""
    if t in (fmt.V_VALUE, fmt.V_HASHABLE):
        p, n = F.raw_vector(t, d)
        x = struct.unpack_from("<%dI" % (2 * n), F.b, p)
        return list(zip(x[::2], x[1::2]))
    return []


def headers(F, t, d):
    """the vectors of a set or map"""
    p = F.at(3 if t == fmt.SET else 4, d, 24 if t == fmt.SET else 32)
    r = struct.unpack_from("<%dI" % (6 if t == fmt.SET else 8), F.b, p)
    return [(r[j], r[j + 1]) for j in range(2, len(r), 2)]


def val(t, d):
    return byref(V(t, d))


def read(F, p, t, d, ids):
    """one value, through every accessor"""
    v = V(t, d)
    if t in STRS:
        wide = t == fmt.UNICODE
        s = F.string(d, wide)[1]
        n = (L.pointless_reader_unicode_len if wide else L.pointless_reader_string_len)(p, v)
        check(n == len(s), "string-length", "%d != %d" % (n, len(s)))
        q = (L.pointless_reader_unicode_value_ucs4 if wide else L.pointless_reader_string_value_ascii)(p, v)
        check(tuple(q[:n + 1]) == tuple(s) + (0,), "string", lambda: "%r" % (s,))
    elif t in fmt.BITVECTORS:
        bits = F.bits(t, d)
        n = L.pointless_reader_bitvector_n_bits(p, v)
        check(n == len(bits), "bits-length", "%d != %d" % (n, len(bits)))
        got = [L.pointless_reader_bitvector_is_set(p, v, i) for i in range(min(n, 300))]
        check([bool(x) for x in got] == list(bits[:300]), "bits", "")
    elif t in fmt.VECTORS or t == fmt.V_EMPTY:
        n = L.pointless_reader_vector_n_items(p, v)
        cid = L.pointless_container_id(p, v)
        if t == fmt.V_EMPTY:
            check(n == 0 and cid == 0, "empty-vector", "%d %d" % (n, cid))
            return
        pos, m = F.raw_vector(t, d)
        check(n == m, "vector-length", "%d != %d" % (n, m))
        check(ids.setdefault(cid, (0, d)) == (0, d) and 0 < cid < L.pointless_n_containers(p), "container-id", "%d" % cid)
        if t in PRIMS:
            name = PRIMS[t]
            q = getattr(L, "pointless_reader_vector_" + NAME[name])(p, v)
            size = ctypes.sizeof(ITEM[NAME[name]])
            check(ctypes.string_at(q, n * size) == F.b[pos:pos + n * size], "vector:" + name, "")
            for i in {0, 1, n // 2, n - 1} & set(range(n)):
                o = c_uint64()
                ty = L.capi_vector_item(p, v, i, byref(o))
                e, = struct.unpack_from("<I" if name == "f" else "<" + FMT[name], F.b, pos + i * size)
                if name == "f":
                    ok = ty == fmt.FLOAT and o.value == e
                elif name in ("i64", "u64"):
                    ok = ty in (27, 28) and o.value == e & 0xffffffffffffffff and (ty == 28 or -2 ** 63 <= e < 2 ** 63)
                else:
                    ok = ty in INTS and o.value == e & 0xffffffff and (ty == fmt.I32 if e < 0 else ty == fmt.U32 or e < 2 ** 31)
                check(ok, "vector-item:" + name, "%d: type %d value %d for %d" % (i, ty, o.value, e))
        else:
            q = L.pointless_reader_vector_value(p, v)
            check(ctypes.string_at(q, n * 8) == F.b[pos:pos + n * 8], "vector:value", "")
    elif t in (fmt.SET, fmt.MAP):
        kind = "set" if t == fmt.SET else "map"
        cid = L.pointless_container_id(p, v)
        check(ids.setdefault(cid, (t, d)) == (t, d) and 0 < cid < L.pointless_n_containers(p), "container-id", "%d" % cid)
        ks, vs = F.table(t, d)
        full = [j for j in range(len(ks)) if ks[j][0] != fmt.EMPTY_SLOT]
        f = getattr(L, "pointless_reader_%s_n_items" % kind)
        check(f(p, v) == len(full), kind + "-length", "")
        check(getattr(L, "pointless_reader_%s_n_buckets" % kind)(p, v) == len(ks), kind + "-buckets", "")
        st, k, w, got = c_uint32(0), VP(), VP(), []
        while (L.pointless_reader_set_iter(p, v, byref(k), byref(st)) if kind == "set" else L.pointless_reader_map_iter(p, v, byref(k), byref(w), byref(st))):
            got.append((k.contents.td(), w.contents.td() if w else None))
            check(len(got) <= len(full), kind + "-iteration-long", "")
        check(sorted(got, key=repr) == sorted([(ks[j], vs[j] if vs else None) for j in full], key=repr), kind + "-iteration", "")
        hv = headers(F, t, d)
        for name, e in zip(("hash", "key", "value"), hv):
            check(getattr(L, "pointless_%s_%s_vector" % (kind, name))(p, v).contents.td() == e, "%s-%s-vector" % (kind, name), "")


def search(F, p, t, d, foreign_keys, r, T):
    """a set or map by keys which are stored values of the same file"""
    kind = "set" if t == fmt.SET else "map"
    v = V(t, d)
    ks, vs = F.table(t, d)
    full = [j for j in range(len(ks)) if ks[j][0] != fmt.EMPTY_SLOT]
    model = {eqkey(todo_value(F, *ks[j])): j for j in full}
    cand = [ks[j] for j in r.sample(full, min(len(full), 8))] + r.sample(foreign_keys, min(len(foreign_keys), 6))
    for kt, kd in cand:
        k = V(kt, kd)
        ok = hashable(F, kt, kd)
        check(bool(L.pointless_is_hashable_reader(p, k)) == ok, "hashable", "type %d" % kt)
        err, kk, vv = c_char_p(), VP(), VP()
        if kind == "set":
            L.pointless_reader_set_lookup(p, v, k, byref(kk), byref(err))
        else:
            L.pointless_reader_map_lookup(p, v, k, byref(kk), byref(vv), byref(err))
        if not ok:
            check(err.value is not None, "unhashable-accepted", "")
            T.count("refused")
            continue
        check(err.value is None, "lookup-error", lambda: "%r" % (err.value,))
        h = F.hash(kt, kd)
        check(L.pointless_hash_reader_32(p, k) == h, "hash", lambda: "%d != %d" % (L.pointless_hash_reader_32(p, k), h))
        j = model.get(eqkey(todo_value(F, kt, kd)))
        check(bool(kk) == (j is not None) and (j is None or kk.contents.td() == ks[j]), "lookup-key", "")
        if kind == "map":
            check(bool(vv) == (j is not None) and (j is None or vv.contents.td() == vs[j]), "lookup-value", "")
        got = getattr(L, "pointless_is_in_%s_acyclic" % kind)(p, v, k)
        check(bool(got) == (j is not None), "is-in-%s-acyclic" % kind, "")
        # all entries of that hash
        it = ctypes.create_string_buffer(SIZES["pointless_hash_iter_state_t"])
        getattr(L, "pointless_reader_%s_iter_hash_init" % kind)(p, v, h, it)
        found = []
        while (L.pointless_reader_set_iter_hash(p, v, h, byref(kk), it) if kind == "set" else L.pointless_reader_map_iter_hash(p, v, h, byref(kk), byref(vv), it)):
            found.append(kk.contents.td())
            check(len(found) <= 50 * (len(ks) + 64), "iter-hash-long", "")
        # an entry may come up more than once
        e = [ks[x] for x in full if F.hash(*ks[x]) == h]
        check(set(found) == set(e), "iter-hash", lambda: "%r != %r" % (found, e))
        T.count("lookups")


def todo_value(F, t, d):
    """the key as a Python value which eqkey() takes"""
    if t in STRS:
        return F.string(d, t == fmt.UNICODE)[0]
    if t == fmt.V_EMPTY:
        return ()
    if t in PRIMS:
        p, n = F.raw_vector(t, d)
        return tuple(struct.unpack_from("<%d%s" % (n, FMT[PRIMS[t]]), F.b, p))
    if t in (fmt.V_VALUE, fmt.V_HASHABLE):
        return tuple(todo_value(F, *c) for c in children(F, t, d))
    return F.value(t, d, [])


def hashable(F, t, d, depth=0):
    if t in (fmt.SET, fmt.MAP, fmt.V_VALUE):
        return False
    if t == fmt.V_HASHABLE:
        return all(hashable(F, *c) for c in children(F, t, d))
    return True


def helpers(F, p, t, d, r, T, g):
    """every helper with present, missing and similar keys"""
    v = V(t, d)
    ks, vs = F.table(t, d)
    full = [j for j in range(len(ks)) if ks[j][0] != fmt.EMPTY_SLOT]
    by = {}
    for j in full:
        if ks[j][0] in STRS:
            by[F.string(ks[j][1], ks[j][0] == fmt.UNICODE)[0]] = vs[j]
        elif ks[j][0] in INTS:
            by[F.value(*ks[j], [])] = vs[j]
    keys = r.sample(sorted(k for k in by if isinstance(k, str)), min(8, sum(isinstance(k, str) for k in by)))
    cand = set()
    for k in keys:
        cand |= {k, r.choice([k[:-1], k + "x", k.swapcase(), k + "\xff"])}
    cand |= {g.str_()[:10], ""}
    for k in sorted(cand):
        e = by.get(k)
        T.count("helper_hits" if e else "helper_misses")

        def same(name, got, exp):
            check(got == exp, "helper:" + name, lambda: "key %r: %r, expected %r" % (k, got, exp))
        o = V(99, 99)
        u = ucs4(k)
        isint = e is not None and e[0] in INTS
        iv = F.value(*e, []) if isint else None
        same("unicode_to_value", L.pointless_get_mapping_unicode_to_value(p, v, u, byref(o)) and o.td(), e or 0)
        n32 = c_uint32(77)
        same("unicode_to_u32", L.pointless_get_mapping_unicode_to_u32(p, v, u, byref(n32)) and (n32.value,), (iv,) if isint and iv >= 0 else 0)
        if any(ord(c) > 255 for c in k):
            continue
        s = k.encode("latin-1")
        o = V(99, 99)
        same("string_to_value", L.pointless_get_mapping_string_to_value(p, v, s, byref(o)) and o.td(), e or 0)
        o = V(99, 99)
        junk = r.choice([b"", b"x", s, b"\0", b"\xff\xff"])
        same("string_n_to_value", L.pointless_get_mapping_string_n_to_value(p, v, s + junk, len(s), byref(o)) and o.td(), e or 0)
        n32 = c_uint32(77)
        same("string_to_u32", L.pointless_get_mapping_string_to_u32(p, v, s, byref(n32)) and (n32.value,), (iv,) if isint and iv >= 0 else 0)
        n64 = c_int64(77)
        same("string_to_i64", L.pointless_get_mapping_string_to_i64(p, v, s, byref(n64)) and (n64.value,), (iv,) if isint else 0)
        for name, ty in (("set", fmt.SET), ("map", fmt.MAP)):
            o = V(99, 99)
            same("string_to_" + name, getattr(L, "pointless_get_mapping_string_to_" + name)(p, v, s, byref(o)) and o.td(), e if e and e[0] == ty else 0)
        empty = e is not None and e[0] == fmt.V_EMPTY
        for ty, name in PRIMS.items():
            q, n = POINTER(ITEM[NAME[name]])(), c_uint32(77)
            ok = getattr(L, "pointless_get_mapping_string_to_vector_" + NAME[name])(p, v, s, byref(q), byref(n))
            if e and e[0] == ty:
                pos, m = F.raw_vector(*e)
                size = ctypes.sizeof(ITEM[NAME[name]])
                same("vector_" + name, ok and n.value == m and ctypes.string_at(q, m * size), F.b[pos:pos + m * size])
            else:
                same("vector_" + name, (ok, n.value if empty else 0), (int(empty), 0))
        q, n = VP(), c_uint32(77)
        ok = L.pointless_get_mapping_string_to_vector_value(p, v, s, byref(q), byref(n))
        if e and e[0] in (fmt.V_VALUE, fmt.V_HASHABLE):
            pos, m = F.raw_vector(*e)
            same("vector_value", ok and n.value == m and ctypes.string_at(q, m * 8), F.b[pos:pos + m * 8])
        else:
            same("vector_value", (ok, n.value if empty else 0), (int(empty), 0))
            o, n = V(99, 99), c_uint32(77)
            ok = L.pointless_get_mapping_string_to_vector(p, v, s, byref(o), byref(n))
            if e and (e[0] in PRIMS or empty):
                same("string_to_vector", ok and (o.td(), n.value), (e, 0 if empty else F.raw_vector(*e)[1]))
            else:
                same("string_to_vector", ok, 0)
    ints = [k for k in by if isinstance(k, int)]
    for k in r.sample(ints, min(len(ints), 5)) + [g.int_(), r.randint(-3, 9)] + [r.choice(ints or [5]) + r.choice([2 ** 32, -2 ** 32, 1, 2 ** 40, -2 ** 62])]:
        e = by.get(k)
        T.count("helper_hits" if e else "helper_misses")
        o = V(99, 99)
        got = L.pointless_get_mapping_int_to_value(p, v, k, byref(o)) and o.td()
        check(got == (e or 0), "helper:int_to_value", lambda: "key %r: %r, expected %r" % (k, got, e))
        check(bool(L.pointless_is_int_in_map(p, v, k)) == (e is not None), "helper:is_int_in_map", lambda: "key %r" % (k,))


def sets(F, p, tables, r, T):
    """comparison of key sets, integers in sets"""
    keys = {}
    for t, d in tables:
        ks, _ = F.table(t, d)
        ks = [k for k in ks if k[0] != fmt.EMPTY_SLOT]
        keys[t, d] = {eqkey(todo_value(F, *k)) for k in ks}
        if t == fmt.SET:
            have = {F.value(*k, []) for k in ks if k[0] in INTS}
            for x in list(have)[:4] + [0, 5, -1, r.randint(-100, 300)] + [x + 2 ** 32 for x in list(have)[:1]]:
                check(bool(L.pointless_is_int_in_set(p, val(t, d), x)) == (x in have), "is_int_in_set", "%d" % x)
    ms = [x for x in tables if x[0] == fmt.MAP]
    for a in r.sample(tables, min(len(tables), 6)):
        for b in r.sample(ms, min(len(ms), 6)):
            f = L.pointless_has_same_keys_set_map if a[0] == fmt.SET else L.pointless_has_same_keys_map_map
            e = keys[a] == keys[b]
            check(bool(f(p, val(*a), val(*b))) == e, "same-keys", lambda: "%r %r" % (keys[a], keys[b]))
            T.count("same_keys" if e else "different_keys")


def evals(F, p, root, r, T):
    """paths through the value, spelled at random"""
    def sp():
        return r.choice(["", "", "", " ", "\t", "  "])
    for _ in range(8):
        t, d = root
        e, args, dead = sp(), [], False
        steps = r.choice([0, 1, 1, 2, 2, 3, 4])
        for _ in range(steps):
            nxt = None
            bad = r.random() < .08
            idx = None
            if t == fmt.MAP:
                ks, vs = F.table(t, d)
                c = [j for j in range(len(ks)) if ks[j][0] in INTS + STRS]
                if not c:
                    break
                j = r.choice(c)
                k = F.value(*ks[j], [])
                have = {F.value(*ks[j], []) for j in c}
                bad = bad and (k + "\x02nope" if isinstance(k, str) else k + 2 ** 32) not in have
                if isinstance(k, str):
                    if any(ord(x) > 255 for x in k):
                        break
                    if bad:
                        k = k + "\x02nope"
                    idx = k.encode("latin-1")
                else:
                    idx = k + 2 ** 32 if bad else k
                nxt = None if bad else vs[j]
            elif t in fmt.VECTORS or t in fmt.BITVECTORS or t == fmt.V_EMPTY:
                n = 0 if t == fmt.V_EMPTY else F.raw_vector(t, d)[1] if t in fmt.VECTORS else len(F.bits(t, d))
                if n == 0:
                    bad = True
                i = r.choice([n, n + 1, -1, 2 ** 32, 2 ** 32 + max(n - 1, 0), 2 ** 63 - 1, b"0"]) if bad else r.choice([0, n - 1, r.randrange(n)])
                idx = i
                if not bad:
                    if t in fmt.BITVECTORS:
                        nxt = (fmt.BOOL, int(F.bits(t, d)[i]))
                    elif t in PRIMS:
                        name = PRIMS[t]
                        if name in ("i64", "u64"):
                            nxt = None
                        else:
                            pos, _ = F.raw_vector(t, d)
                            x, = struct.unpack_from("<I" if name == "f" else "<" + FMT[name], F.b, pos + i * ctypes.sizeof(ITEM[NAME[name]]))
                            nxt = (fmt.FLOAT, x) if name == "f" else (fmt.I32 if name[0] == "i" else fmt.U32, x & 0xffffffff)
                    else:
                        nxt = children(F, t, d)[i]
            else:
                if r.random() < .7:
                    break
                idx = r.choice([0, b"a"])      # nothing can be indexed but maps, vectors and bitvectors
            if isinstance(idx, bytes):
                if b"'" in idx or r.random() < .5:
                    w = b"%s"
                    args.append(c_char_p(idx))
                else:
                    w = b"'" + idx + b"'"
            else:
                opts = [b"%d" % idx] * 2
                if idx >= 0:
                    opts += [b"+%d" % idx, b"00%d" % idx, b"%u64"] + [b"%u32"] * (idx < 2 ** 32)
                if idx < 2 ** 63:
                    opts += [b"%i64"] + [b"%i32"] * (-2 ** 31 <= idx < 2 ** 31)
                w = r.choice(opts)
                if w.startswith(b"%"):
                    args.append({b"%u64": c_uint64, b"%u32": c_uint32, b"%i64": c_int64, b"%i32": c_int32}[w](idx))
            e += "[" + w.decode("latin-1") + sp() + "]" + sp()
            if nxt is None:
                dead = True
                break
            t, d = nxt
        if not dead and r.random() < .12:
            e = r.choice([e + "[", e + "x", e + "['a'", e + "[%d]", e + "[]", e + "[1 2]", "]" + e, e + "[-]", e + "[+x]", e + "[%u16]", e + "[99999999999999999999999]",
                          e + "[-9223372036854775809]", e + "['a]", e + "[%]"])
            dead = True
            args += [c_uint64(0)]
        T.about("eval %r %r" % (e, [a.value for a in args]))
        s = e.encode("latin-1")
        o = V(99, 99)
        ok = L.pointless_eval_get(ctypes.cast(p, c_void_p), val(*root), byref(o), c_char_p(s), *args)
        T.count("eval_misses" if dead else "eval_hits")
        if dead:
            check(not ok, "eval-accepted", lambda: "%r gave %r" % (s, o.td()))
            t = None
        else:
            good = ok and (o.td() == (t, d) or o.type in INTS and t in INTS and o.data == d and d < 2 ** 31)
            check(good, "eval", lambda: "%r gave %r %r, expected %r" % (s, ok, o.td(), (t, d)))
        # the typed variants agree
        for name, types in (("u32", (fmt.U32,)), ("map", (fmt.MAP,)), ("string", (fmt.STRING,)), ("boolean", (fmt.BOOL,)), ("vector_u8", (fmt.PRIM_OF["u8"],)),
                            ("vector_u16", (fmt.PRIM_OF["u16"],)), ("vector_u32", (fmt.PRIM_OF["u32"],)), ("vector_u64", (fmt.PRIM_OF["u64"],)), ("vector_f", (fmt.PRIM_OF["f"],)),
                            ("vector_value", (fmt.V_VALUE, fmt.V_HASHABLE)), ("bitvector", fmt.BITVECTORS)):
            vec = name.startswith("vector")
            f = getattr(L, "pointless_eval_get_as_" + name)
            n = c_uint32(77)
            out = V(99, 99) if name in ("map", "bitvector") else c_uint32(77) if name in ("u32", "boolean") else c_void_p()
            a = [ctypes.cast(p, c_void_p), val(*root), byref(out)] + ([byref(n)] if vec or name == "bitvector" else []) + [c_char_p(s)] + args
            ok = f(*a)
            exp = t is not None and (t in types or vec and t == fmt.V_EMPTY)
            if t in INTS and name == "u32" and d < 2 ** 31:
                exp = bool(ok)          # small integers have either type
            check(bool(ok) == exp, "eval-as:" + name, lambda: "%r gave %r for type %r" % (s, ok, t))
            if not ok:
                continue
            if name in ("u32", "boolean"):
                check(out.value == d, "eval-as:" + name, "%d != %d" % (out.value, d))
            elif name == "string":
                check(ctypes.string_at(out.value) == bytes(F.string(d, False)[1]), "eval-as:string", "")
            elif name == "map":
                check(out.td() == (t, d), "eval-as:map", "")
            elif name == "bitvector":
                check(out.td() == (t, d) and n.value == len(F.bits(t, d)), "eval-as:bitvector", "%d" % n.value)
            else:
                m = 0 if t == fmt.V_EMPTY else F.raw_vector(t, d)[1]
                check(n.value == m, "eval-as:" + name, "%d != %d" % (n.value, m))
                if m:
                    size = 8 if name == "vector_value" else ctypes.sizeof(ITEM[NAME[name[7:]]])
                    pos = F.raw_vector(t, d)[0]
                    check(ctypes.string_at(out.value, m * size) == F.b[pos:pos + m * size], "eval-as:" + name, "items")


def walks(F, p, root, r, T):
    """pointless_walk visits what a traversal of the decoded file visits"""
    limit = r.choice([1, 5, 50, 400, 400])
    salt = r.randrange(1 << 30)
    prune = r.choice([0, 0, 7])

    def action(n, t, d, depth):
        if n >= limit:
            return 2
        if depth > 12 or prune and (n * 2654435761 + salt) % prune == 0:
            return 1
        return 0
    exp, stack = [], [(root, 0)]
    while stack:
        (t, d), depth = stack.pop()
        exp.append((t, d, depth))
        a = action(len(exp), t, d, depth)
        if a == 2:
            break
        if a == 0:
            c = children(F, t, d) if t in (fmt.V_VALUE, fmt.V_HASHABLE) else headers(F, t, d) if t in (fmt.SET, fmt.MAP) else []
            stack.extend((x, depth + 1) for x in reversed(c))
    got = []

    def cb(_p, v, depth, user):
        got.append((v.contents.type, v.contents.data, depth))
        return action(len(got), *got[-1]) if len(got) < 100000 else 2
    f = WALK(cb)
    L.pointless_walk(p, f, None)
    check(got == exp, "walk", lambda: "%r != %r" % (got[:50], exp[:50]))
    T.count("walked", len(got))


def case(i, r, T):
    g = G(r)
    if r.random() < .2:
        ks = key_set(r, g)[:100]
        b = foreign_bytes(r, ks, [g.scalar() for _ in ks])
    else:
        src = source(r, g)
        if r.random() < .3:
            src = [src, g.value(), set(src), src]
        b = bytes(pointless.serialize_to_bytearray(src, normalize_bitvector=r.random() < .7, unwiden_strings=r.random() < .5))
    F = fmt.File(b)
    live, fds = Alloc.live.value, len(os.listdir("/proc/self/fd"))
    if r.random() < .5:
        fn = os.path.join(T.tmp, "c22-%d.map" % os.getpid())
        with open(fn, "wb") as fd:
            fd.write(b)
        f = File(fname=fn.encode(), validate=r.random() < .7)
    else:
        f = File(data=b, validate=r.random() < .7)
    p = f.p
    root = L.pointless_root(p).contents.td()
    check(root == F.root, "root", "%r %r" % (root, F.root))
    # everything which is reachable
    seen, todo, ids, tables, keys = set(), [root], {}, [], []
    while todo:
        t, d = todo.pop()
        if (t, d) in seen:
            continue
        seen.add((t, d))
        if len(keys) < 200 and t != fmt.EMPTY_SLOT:
            keys.append((t, d))
        read(F, p, t, d, ids)
        T.count("values")
        if t in (fmt.SET, fmt.MAP):
            tables.append((t, d))
            ks, vs = F.table(t, d)
            todo += [x for x in ks + (vs or []) if x[0] != fmt.EMPTY_SLOT]
        else:
            todo += children(F, t, d)
    for t, d in tables[:12]:
        search(F, p, t, d, keys, r, T)
        if t == fmt.MAP:
            helpers(F, p, t, d, r, T, g)
    sets(F, p, tables[:40], r, T)
    evals(F, p, root, r, T)
    walks(F, p, root, r, T)
    # bad files are refused
    if r.random() < .2:
        bad = r.choice([b[:r.randint(0, 40)], b[:28] + struct.pack("<I", r.choice([3, 0, 1, 77])) + b[32:], b[:-4]])
        try:
            h = File(data=bad)
            h.close()
            check(bad in (b, b[:-4]), "bad-file-opened", lambda: "%r" % (bad[:50],))
        except ValueError as x:
            check("None" not in str(x), "refused-without-message", "")
            T.count("refused")
    f.close()
    check(Alloc.live.value <= live and len(os.listdir("/proc/self/fd")) == fds, "leak", lambda: "%d allocations, %d files" % (Alloc.live.value - live, len(os.listdir("/proc/self/fd")) - fds))
    T.ev()
    if any(t == fmt.MAP and sum(k[0] != fmt.EMPTY_SLOT for k in F.table(t, d)[0]) > 1 for t, d in tables):
        T.key(b)
    if i < 2:
        T.sample("%d values, %d tables" % (len(seen), len(tables)))


def foreign_bytes(r, ks, vs):
    keep = []
    real = pointless.Pointless
    try:
        pointless.Pointless = lambda b: keep.append(bytes(b))
        foreign(r, ks, vs)
    finally:
        pointless.Pointless = real
    return keep[0]
