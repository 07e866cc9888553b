"""C24: checked arithmetic and the expressions built on it."""
import sys

from capi import *
from wk import check

VARIANT = "capi"
CASES = {"quick": 3000, "thorough": 120000}
RULE = ("one case = 200 checked additions and multiplications of 32 bit, 64 bit and size_t values around each other's limits, one by one and chained, and 30 expressions, most of them valid, generated from the grammar and "
        "then sometimes damaged; results and refusals are compared with unbounded arithmetic and a reference parser; non-trivial and distinct by expression")
MUST_OBSERVE = ("exact", "overflows", "chained_overflows", "values", "underflow", "division_by_zero", "too_large", "syntax_errors", "long", "variables")
MIN_EVAL = 10000
MAX_TOKENS = 512


sys.setrecursionlimit(20000)


class Bad(Exception):
    pass


def reference(s):
    """the value of an expression (an unbounded integer), or raises Bad"""
    toks, i = [], 0
    while i < len(s):
        c = s[i]
        if c in b" \t":
            i += 1
            continue
        if len(toks) >= MAX_TOKENS:
            raise Bad("long")
        if c in b"0123456789":
            j = i
            while j < len(s) and s[j] in b"0123456789":
                j += 1
            if j - i > 30 or int(s[i:j]) >= 2 ** 64:
                raise Bad("too_large")
            toks.append(int(s[i:j]))
            i = j
        elif c in b"()+-*/x":
            toks.append(chr(c))
            i += 1
        else:
            raise Bad("syntax_errors")
    # blanks after the last possible token are refused as well: both outcomes are accepted by the caller
    pos = 0

    def peek():
        return toks[pos] if pos < len(toks) else None

    def factor():
        nonlocal pos
        t = peek()
        if isinstance(t, int) or t == "x":
            pos += 1
            return t
        if t != "(":
            raise Bad("syntax_errors")
        pos += 1
        e = expr()
        if peek() != ")":
            raise Bad("syntax_errors")
        pos += 1
        return e

    def chain(sub, ops):
        nonlocal pos
        a = sub()
        while peek() in tuple(ops):
            op = toks[pos]
            pos += 1
            a = (op, a, sub())
        return a

    def term():
        return chain(factor, "*/")

    def expr():
        return chain(term, "+-")
    e = expr()
    if pos != len(toks):
        raise Bad("syntax_errors")

    def ev(e):
        if isinstance(e, int):
            return e
        if e == "x":
            raise Bad("variables")
        a, b = ev(e[1]), ev(e[2])
        if e[0] == "+":
            v = a + b
        elif e[0] == "-":
            v = a - b
        elif e[0] == "*":
            v = a * b
        else:
            if b == 0:
                raise Bad("division_by_zero")
            v = a // b
        if v < 0:
            raise Bad("underflow")
        if v >= 2 ** 64:
            raise Bad("overflows")
        return v
    return ev(e)


def number(r):
    k = r.random()
    if k < .5:
        v = r.choice([0, 1, 2, 3, 7, 10, 100])
    elif k < .8:
        v = max(0, 2 ** r.choice([8, 16, 31, 32, 33, 63, 64]) + r.randint(-2, 1))
    elif k < .97:
        v = r.getrandbits(r.randint(1, 64))
    else:
        v = r.choice([2 ** 64, 10 ** 20, 10 ** 29, 10 ** 30, 10 ** 40])
    s = str(v)
    if r.random() < .05:
        s = s.rjust(r.choice([10, 29, 30, 31, 32]), "0")
    return s


def gen(r, n):
    """an expression of about n numbers"""
    def sp():
        return r.choice(["", "", "", " ", "\t", "  "])
    if n <= 1:
        s = number(r) if r.random() < .99 else "x"
    else:
        a = r.choice([1, n - 1, n // 2]) or 1
        s = gen(r, a) + sp() + r.choice("++**--/") + sp() + gen(r, n - a)
    if r.random() < .3:
        s = "(" + sp() + s + sp() + ")"
    return s


def case(i, r, T):
    # single operations
    def op(width, k, a, oa, b, ob):
        o = c_uint64()
        f = bool(L.capi_intop(width, k, a, oa, b, ob, byref(o)))
        return o.value, f
    for _ in range(120):
        width = r.choice([32, 64, 0])
        top = 2 ** (width or 64)
        k = r.randrange(2)
        a = r.choice([0, 1, 2, top - 1, top - 2, top // 2, top // 2 - 1, r.randrange(top), r.getrandbits(r.randint(1, width or 64))])
        if k == 0:
            b = r.choice([0, 1, top - 1, top - a, top - a - 1, top - a + 1, r.randrange(top)])
        else:
            b = r.choice([0, 1, top - 1, top // (a or 1), top // (a or 1) + 1, (top - 1) // (a or 1), r.randrange(top), r.getrandbits(r.randint(1, width or 64))])
        b = max(0, min(b, top - 1))
        if r.random() < .5:
            a, b = b, a
        v = a * b if k else a + b
        got, over = op(width, k, a, 0, b, 0)
        check(over == (v >= top), "overflow:%d" % width, lambda: "%d %s %d: %s" % (a, "+*"[k], b, over))
        check(over or got == v, "value:%d" % width, lambda: "%d %s %d: %d" % (a, "+*"[k], b, got))
        T.count("overflows" if over else "exact")
        # it stays an overflow
        if r.random() < .3:
            x = r.choice([0, 1, r.randrange(top)])
            o2 = r.choice([(1, 0), (0, 1), (1, 1)])
            got, over = op(width, r.randrange(2), a, o2[0], x, o2[1])
            check(over, "overflow-forgotten:%d" % width, lambda: "%d %d %r" % (a, x, o2))
            T.count("chained_overflows")
    c = ctypes.create_string_buffer(SIZES["intop_eval_context_t"])
    for _ in range(30):
        n = r.choice([1, 1, 2, 2, 3, 4, 6, 10])
        if r.random() < .02:
            n = r.choice([100, 200, 255, 256, 257, 300])
        s = gen(r, n)
        if r.random() < .02:
            m = r.choice([100, 255, 256, 300, 511, 512, 513])
            s = r.choice(["(" * m + "1" + ")" * m, "1" + "+1" * m, "(" * m, "1-" * m + "0", "1*(" * m + "1" + ")" * m])
            T.count("long")
        if r.random() < .25:
            for _ in range(r.randint(1, 2)):
                j = r.randint(0, len(s))
                s = r.choice([s[:j] + s[j + 1:], s[:j] + r.choice("()+-*/x19 \t\n.\xff-a%^\x80") + s[j:], s[:j], s[j:] + s[:j], s + r.choice("+-*/()")])
        b = s.encode("latin-1").replace(b"\0", b"")
        T.about("expression %r" % b)
        try:
            e, why = reference(b), None
        except Bad as x:
            e, why = None, str(x)
        err, v = c_char_p(), c_uint64(77)
        p = L.capi_memdup(b + b"\0", len(b) + 1)
        ok = L.intop_eval_compile(ctypes.cast(p, c_char_p), c, byref(err))
        free(p)
        if not ok:
            check(err.value, "no-message", "")
            check(why in ("syntax_errors", "too_large", "long") or b.strip(b" \t") != b and len(b) > 500, "expression-refused", lambda: "%r, %s" % (err.value, why))
            T.count(why or "long")
            # there is nothing to evaluate then
            err = c_char_p()
            check(not L.capi_intop_eval(c, byref(v), byref(err)) and err.value, "refused-but-evaluated", lambda: "%d" % v.value)
        else:
            check(why not in ("syntax_errors", "too_large", "long"), "expression-accepted", lambda: "%s" % why)
            for _ in range(r.choice([1, 1, 2])):
                v = c_uint64(77)
                ok = L.capi_intop_eval(c, byref(v), byref(err))
                if why:
                    check(not ok and err.value, "evaluated", lambda: "%d, not %s" % (v.value, why))
                else:
                    check(ok and v.value == e, "expression-value", lambda: "%r %r, not %d" % (ok, v.value, e))
            T.count(why or "values")
        T.ev()
        T.key(b)
    if i < 3:
        T.sample("%r" % b)
