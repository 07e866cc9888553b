"""C16: a file appears complete or not at all, whatever fails or dies on the way."""
import ctypes
import errno
import os
import re
import shutil
import signal
import subprocess
import sys
import time

import pointless
from gen import *
from wk import Violation, check

VARIANT = "plain"
# most of what is asked for is asked of the kernel
ENV = {"MALLOC_MMAP_THRESHOLD_": "20000", "MALLOC_TOP_PAD_": "0", "MALLOC_TRIM_THRESHOLD_": "0"}
CASES = {"quick": 360, "thorough": 20000}
RULE = ("one evaluation = one call of serialize() in a child process whose system calls are traced, with one fault: an error from one of its system calls, a short write, death before or after one of them, "
        "another writer of the same name running to its end between two of them; afterwards the directory, the file, the file it replaced, descriptors and the outcome are judged, and the order of writes, "
        "syncs and the renaming; in some the name is looked at before each system call; others run several writers and readers at once; non-trivial = the fault was reached; distinct by the sequence of system calls and the fault")
MUST_OBSERVE = ("clean", "error", "killed", "short", "interleaved", "looked", "race_reads", "race_writes", "renames", "syncs", "refused", "memory_error")
MIN_EVAL = 2000
LEVEL = "fault_enumeration"
ASSUMPTIONS = ["a synchronised file survives a power failure; the file system itself is not faulty",
               "faults are injected into one system call (or into it and all later ones of its kind) per run"]

NONE, ERR, KILL_BEFORE, KILL_AFTER, SHORT, ERR_AFTER, ERR_FROM = range(7)
MODES = ["none", "error", "killed before", "killed after", "short", "error after", "error from"]
ERRS = {
    "openat": [errno.EACCES, errno.EMFILE, errno.ENOSPC, errno.EROFS, errno.EINTR], "write": [errno.ENOSPC, errno.EIO, errno.EINTR, errno.EDQUOT, errno.EFBIG, errno.EAGAIN],
    "fsync": [errno.EIO, errno.ENOSPC, errno.EDQUOT, errno.EINTR], "fchmod": [errno.EPERM, errno.EIO], "close": [errno.EIO, errno.EINTR, errno.ENOSPC],
    "rename": [errno.EACCES, errno.EXDEV, errno.ENOSPC, errno.EIO, errno.EBUSY], "unlink": [errno.EACCES, errno.EIO],
}
OTHER = [errno.EIO, errno.ENOMEM, errno.EINVAL]
MEM = ("mmap", "brk", "mremap")
CB = ctypes.CFUNCTYPE(None, ctypes.c_int)


def setup(T):
    global inj, libc, LOG
    here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
    so = os.path.join(T.tmp, "inj-%d.so" % os.getpid())
    subprocess.run(["gcc", "-O1", "-w", "-shared", "-fPIC", "-o", so, os.path.join(here, "harness", "inj.c")], check=True)
    inj = ctypes.CDLL(so)
    libc = ctypes.CDLL(None)
    LOG = ctypes.create_string_buffer(1 << 24)


class Result:
    pass


def child(fn):
    """the traced process: never returns"""
    try:
        libc.ptrace(0, 0, 0, 0)
        os.kill(os.getpid(), signal.SIGSTOP)
        n = len(os.listdir("/proc/self/fd"))
        try:
            os.getsid(0)
            try:
                fn()
            finally:
                os.getsid(0)
            out, rc = "", 0
        except BaseException as x:
            out, rc = "%s: %s" % (type(x).__name__, x), 1
        if len(os.listdir("/proc/self/fd")) != n:
            rc += 2
        os.write(PIPE, out.encode("utf-8", "replace")[:500])
    except BaseException:
        rc = 9
    os._exit(rc)


def traced(fn, at=-1, mode=NONE, arg=0, memory=0, cb=None):
    global PIPE
    r, PIPE = os.pipe()
    sys.stdout.flush()
    pid = os.fork()
    if pid == 0:
        os.close(r)
        child(fn)
    os.close(PIPE)
    st = inj.trace(pid, at, mode, ctypes.c_long(arg), memory, LOG, ctypes.c_size_t(len(LOG)), CB(cb) if cb else None)
    if st < 0:
        os.kill(pid, signal.SIGKILL)
        os.waitpid(pid, 0)
        raise RuntimeError("tracing failed: %d" % st)
    R = Result()
    R.message = os.read(r, 1000).decode("utf-8", "replace")
    os.close(r)
    R.killed = os.WIFSIGNALED(st)
    R.signal = os.WTERMSIG(st) if R.killed else 0
    R.rc = None if R.killed else os.WEXITSTATUS(st)
    R.log = [x.split("\t") for x in LOG.value.decode("utf-8", "replace").split("\n") if x]
    return R


def read(f):
    try:
        with open(f, "rb") as h:
            return h.read()
    except FileNotFoundError:
        return None


def spec(R, target, done):
    """the order of writes, syncs and renames; done says whether the file has the name afterwards"""
    dirty, writes = {}, {}
    named = n_sync = 0
    for rec in R.log:
        name, res, args = rec[1], rec[2], rec[3:]
        if not res.lstrip("-").isdigit():
            continue                     # injected, or killed
        ok = int(res) >= 0
        if name in ("write", "pwrite", "writev", "sendfile", "copy_file_range", "ftruncate", "fallocate") and ok:
            dirty[args[0]] = writes[args[0]] = True
        elif name in ("fsync", "fdatasync", "syncfs") and ok:
            dirty[args[0]] = False
            n_sync += 1
        elif name == "sync":
            dirty = dict.fromkeys(dirty, False)
        elif name in ("rename", "renameat", "renameat2", "link", "linkat") and ok and len(args) >= 2 and os.path.abspath(args[1]) == target:
            src = os.path.abspath(args[0])
            if src not in writes:
                continue
            named += 1
            if dirty.get(src):
                raise Violation("rename-before-sync", "\n".join("\t".join(x) for x in R.log))
            dirty[target] = False
            writes[target] = True
    if dirty.get(target) and named:
        raise Violation("write-after-rename", "\n".join("\t".join(x) for x in R.log))
    return named, n_sync


def value(r, g, few=False):
    """something to write, in few system calls or not"""
    n = r.choice([0, 1, 3, 10, 100] if few else [0, 1, 3, 10, 100, 400, 1100, 4090])
    x = r.choice([lambda: "x" * n, lambda: [r.randrange(100) for _ in range(n)], lambda: prim("u32", [r.getrandbits(32) for _ in range(n * 3)]), lambda: ["%d" % k for k in range(n)],
                  lambda: {k: str(k) for k in range(min(n, 2000))}, lambda: bytearray(r.randbytes(n)), lambda: [g.scalar() for _ in range(min(n, 300))], lambda: PointlessBitvector(size=n)])()
    return [r.getrandbits(30), x]


BAD = [object(), 2 ** 40, b"bytes", 1j, Ellipsis, {1: object()}, [[[object()]]]]


class Place:
    """a directory, with a file of the name to be written in it, or not"""

    def __init__(self, T, r, g, k):
        self.d = os.path.join(T.tmp, "at-%d" % os.getpid())
        shutil.rmtree(self.d, ignore_errors=True)
        os.makedirs(self.d + "/d")
        os.makedirs(self.d + "/keep")
        os.chdir(self.d + "/d")
        base = r.choice(["f", "f.XXXXXX", "a b", "\u00e9\u1234", "x" * r.choice([100, 240]), ".map", "XXXXXX", "%s%n"])
        self.name = r.choice([base, os.path.join(self.d, "d", base), "./" + base, "../d/" + base])
        self.target = os.path.join(self.d, "d", base)
        self.old = None
        self.kind = r.choice(["absent", "file", "file", "file", "symlink"]) if k is None else k
        if self.kind == "dir":
            os.mkdir(self.target)
            return
        if self.kind != "absent":
            old = r.choice([b"", b"something else", r.randbytes(9000), bytes(pointless.serialize_to_bytearray([1, "old" * 2000]))])
            self.old = old
            if self.kind == "symlink":
                os.symlink("../keep/k", self.target)
                with open(self.d + "/keep/k", "wb") as f:
                    f.write(old)
            else:
                with open(self.target, "wb") as f:
                    f.write(old)
                os.chmod(self.target, r.choice([0o644, 0o400]))
        for x in range(r.randrange(3)):
            with open(os.path.join(self.d, "d", "other%d" % x), "wb") as f:
                f.write(b"other")
        self.before = sorted(os.listdir(self.d + "/d"))

    def reset(self):
        for x in os.listdir(self.d + "/d"):
            if x not in self.before:
                os.unlink(os.path.join(self.d, "d", x))
        if self.kind == "symlink":
            if not os.path.islink(self.target):
                os.unlink(self.target)
                os.symlink("../keep/k", self.target)
        elif self.kind == "absent":
            pass
        else:
            if os.path.exists(self.target):
                os.unlink(self.target)
            with open(self.target, "wb") as f:
                f.write(self.old)
            if os.path.exists(self.d + "/keep/k"):
                os.unlink(self.d + "/keep/k")
            os.link(self.target, self.d + "/keep/k")

    def judge(self, R, new, what, may_leave=False, may_both=False):
        text = lambda: "%s: outcome %s %s\n%s" % (what, R.rc if not R.killed else "killed %d" % R.signal, R.message, "\n".join("\t".join(x) for x in R.log)[:4000])  # noqa
        if R.killed:
            check(R.signal == signal.SIGKILL, "died", text)
        else:
            check(R.rc != 9, "harness", text)
            check(R.rc < 2, "descriptor-left", text)
        now = read(self.target)
        extra = set(os.listdir(self.d + "/d")) - set(self.before) - {os.path.basename(self.target)}
        if R.killed:
            check(now in (self.old, new), "torn", text)
        elif R.rc == 0:
            check(now == new, "success-without-value", text)
            check(os.stat(self.target).st_mode & 0o400, "unreadable", text)
        else:
            check(now == self.old or (may_both and now == new), "failure-changed-file", text)
        if not R.killed and not may_leave:
            check(not extra, "left-behind", lambda: "%s %s" % (extra, text()))
        for x in self.before:
            check(os.path.lexists(os.path.join(self.d, "d", x)), "removed", lambda: "%s %s" % (x, text()))
            if x.startswith("other"):
                check(read(os.path.join(self.d, "d", x)) == b"other", "other-file-changed", text)
        if self.old is not None:
            check(read(self.d + "/keep/k") == self.old, "old-file-changed", text)
        return spec(R, self.target, now == new)


def plan(log, r, T, full):
    """the faults to inject: (index, mode, arg)"""
    out = []
    for rec in log:
        i, name = int(rec[0]), rec[1]
        es = ERRS.get(name, OTHER)
        for e in (es if full else [r.choice(es)]):
            out.append((i, ERR_AFTER if name == "close" else ERR, e))
        if name in ("write", "fsync", "fchmod", "openat", "rename", "unlink"):
            out.append((i, ERR_FROM, r.choice(es)))
        if name in ("rename", "fsync"):
            out.append((i, ERR_AFTER, errno.EIO))
        out += [(i, KILL_BEFORE, 0), (i, KILL_AFTER, 0)]
        if name == "write":
            out += [(i, SHORT, k) for k in {0 if r.random() < .2 else 1, r.randint(1, 4095), 5}]
    most = (70, 30) if full and len(log) < 300 else (14, 10) if len(log) < 2000 else (6, 2)
    if len(out) > sum(most):
        first = [x for x in out if log[x[0]][1] not in ("write", "lseek")]
        rest = [x for x in out if x not in first]
        out = r.sample(first, min(most[0], len(first))) + r.sample(rest, min(most[1], len(rest)))
    return out


def faults(i, r, T, g):
    x = value(r, g)
    P = Place(T, r, g, None)
    P.reset()
    opts = r.choice([{}, {}, {"unwiden_strings": True}, {"normalize_bitvector": False}])
    call = lambda: pointless.serialize(x, P.name, **opts)  # noqa
    new = bytes(pointless.serialize_to_bytearray(x, **opts))
    base = traced(call)
    check(base.rc == 0, "refused", "%s %s" % (base.rc, base.message))
    named, n = P.judge(base, new, "no fault")
    T.ev()
    T.count("clean")
    T.count("syncs", n)
    T.count("renames", named)
    T.count("calls", len(base.log))
    sig = "".join(x[1][0] for x in base.log)
    T.key(("clean", sig))
    for at, mode, arg in plan(base.log, r, T, r.random() < .25):
        P.reset()
        R = traced(call, at, mode, arg)
        name = base.log[at][1]
        what = "%s into call %d (%s), argument %d, file %s (%s)" % (MODES[mode], at, name, arg, P.name, P.kind)
        T.about(what)
        # an error which unlinking reports leaves what was to be unlinked; one reported although the call was made leaves both outcomes
        renamed = any(z[1].startswith(("rename", "link")) and z[2] == "0" for z in R.log[:at]) or (mode == ERR_AFTER and name.startswith(("rename", "link")))
        P.judge(R, new, what, may_leave="unlink" in name and mode in (ERR, ERR_FROM), may_both=renamed)
        if mode in (KILL_BEFORE, KILL_AFTER):
            check(R.killed, "harness-kill", what)
            T.count("killed")
            if r.random() < .2:
                # and the next one works
                call()
                check(read(P.target) == new, "after-kill", what)
        else:
            check(not R.killed, "died", lambda: "%s signal %d" % (what, R.signal))
            T.count("short" if mode == SHORT else "error")
            if R.rc == 1:
                T.count("raised")
                check(R.message.split(":")[0] in ("OSError", "IOError", "ValueError", "MemoryError", "BlockingIOError", "RuntimeError", "PermissionError", "FileExistsError", "InterruptedError"), "exception-type", "%s: %s" % (what, R.message))
            if mode == SHORT:
                check(R.rc == 0, "short-write-refused", "%s: %s" % (what, R.message))
        T.ev()
        T.key((MODES[mode], name, arg, sig, R.rc))
    if i < 2:
        T.sample("%s %s: %s" % (P.kind, len(new), " ".join(z[1] for z in base.log)))


def memory(i, r, T, g):
    """the memory it asks the kernel for is not given"""
    x = [r.getrandbits(30), r.choice([lambda: prim("u32", range(200000)), lambda: ["%d" % k for k in range(20000)], lambda: {k: str(k) for k in range(10000)}, lambda: "x" * 1000000])()]
    P = Place(T, r, g, None)
    P.reset()
    call = lambda: pointless.serialize(x, P.name)  # noqa
    new = bytes(pointless.serialize_to_bytearray(x))
    base = traced(call, memory=1)
    P.judge(base, new, "no fault")
    at = [int(z[0]) for z in base.log if z[1] in MEM]
    for k in r.sample(at, min(len(at), 6)):
        P.reset()
        mode = r.choice([ERR, ERR_FROM])
        R = traced(call, k, mode, errno.ENOMEM, memory=1)
        what = "%s: no memory from call %d (%s)" % (MODES[mode], k, base.log[k][1])
        T.about(what)
        check(not R.killed, "died", lambda: "%s signal %d" % (what, R.signal))
        P.judge(R, new, what)
        T.ev()
        T.count("memory_error")
        T.key(("memory", MODES[mode], base.log[k][1], R.rc, R.message[:30]))


def refused(i, r, T, g):
    """what cannot be stored, or where nothing can be"""
    P = Place(T, r, g, None)
    P.reset()
    x = value(r, g)
    x.insert(r.randrange(3), r.choice(BAD))
    R = traced(lambda: pointless.serialize(x, P.name))
    T.about("refused value, %s" % R.message)
    check(R.rc in (1, 3), "accepted", str(R.rc))
    P.judge(R, None, "refused value")
    T.ev()
    P = Place(T, r, g, "dir")
    R = traced(lambda: pointless.serialize([1], P.target))
    check(R.rc == 1, "directory-replaced", "%s %s" % (R.rc, R.message))
    check(os.listdir(P.d + "/d") == [os.path.basename(P.target)], "left-behind", str(os.listdir(P.d + "/d")))
    R = traced(lambda: pointless.serialize([1], P.target + "/no/such"))
    check(R.rc == 1, "no-directory", "%s %s" % (R.rc, R.message))
    T.ev(2)
    T.count("refused", 3)
    T.key(("refused", R.message[:20], len(x)))


def interleaved(i, r, T, g):
    """between two system calls of one writer, another writes the same name; or the name is looked at before each"""
    x, y = value(r, g, True), value(r, g)
    P = Place(T, r, g, r.choice(["absent", "file"]))
    P.reset()
    call = lambda: pointless.serialize(x, P.name)  # noqa
    bx, by = bytes(pointless.serialize_to_bytearray(x)), bytes(pointless.serialize_to_bytearray(y))
    seen = []
    base = traced(call, cb=lambda k: seen.append(read(P.target)))
    P.judge(base, bx, "no fault")
    for k, b in enumerate(seen):
        check(b in (P.old, bx), "incomplete-file-seen", "before call %d: %s of %d bytes\n%s" % (k, b and len(b), len(bx), base.log))
    T.count("looked", len(seen))
    T.ev()
    n = len(base.log)
    for at in (range(n) if n < 10 else r.sample(range(n), 10)):
        P.reset()
        st = []

        def other(k):
            try:
                pointless.serialize(y, P.name)
                st.append(read(P.target))
            except Exception as z:
                st.append(z)
        R = traced(call, at, cb=other)
        what = "another writer before call %d (%s) of %d" % (at, base.log[at][1], n)
        T.about(what)
        check(R.rc == 0, "interleaved-failed", "%s: %s %s" % (what, R.rc, R.message))
        check(st and st[0] == by, "interleaved-other", "%s: %.200s" % (what, st))
        # whichever renamed last; the other one's is done here before the call at
        last = read(P.target)
        check(last in (bx, by), "interleaved-torn", "%s: %s bytes, written %d and %d" % (what, last and len(last), len(bx), len(by)))
        left = set(os.listdir(P.d + "/d")) - set(P.before) - {os.path.basename(P.target)}
        check(not left, "left-behind", "%s: %s" % (what, left))
        T.ev()
        T.count("interleaved")
        T.key(("interleaved", at, base.log[at][1], n, last == bx))


def race(i, r, T, g):
    """writers and readers of one name at once"""
    P = Place(T, r, g, "absent")
    sizes = [r.choice([1, 50, 3000, 20000]) for _ in range(4)]

    def val(w, n):
        return [w, n, "s%d" % (w * 1000 + n), [n] * sizes[w]]
    pids = []
    N = 40
    first = val(0, 0)
    pointless.serialize(first, P.name)
    for w in range(4):
        pid = os.fork()
        if pid == 0:
            rc = 1
            try:
                for n in range(N):
                    pointless.serialize(val(w, n), P.name)
                rc = 0
            except BaseException as x:
                os.write(2, repr(x).encode())
            os._exit(rc)
        pids.append(pid)
    alive, n_read, seen, bad = set(pids), 0, set(), []
    while alive:
        try:
            v = pointless.Pointless(P.name).GetRoot()
            w, n = v[0], v[1]
            if v[2] != "s%d" % (w * 1000 + n) or len(v[3]) != sizes[w] or any(q != n for q in v[3]) or len(v) != 4:
                bad.append("inconsistent value")
            seen.add((w, n))
        except Exception as x:
            bad.append(repr(x))
        n_read += 1
        pid, st = os.waitpid(-1, os.WNOHANG)
        if pid:
            alive.discard(pid)
            if st:
                bad.append("writer: status %d" % st)
    check(not bad, "race", "%d: %s" % (len(bad), bad[:4]))
    check(set(os.listdir(P.d + "/d")) == {os.path.basename(P.target)} | set(P.before), "left-behind", str(os.listdir(P.d + "/d")))
    T.ev(n_read)
    T.count("race_reads", n_read)
    T.count("race_writes", 4 * N)
    T.count("race_distinct_seen", len(seen))
    T.key(("race", tuple(sizes), len(seen)))


def case(i, r, T):
    g = G(r)
    k = i % 24
    try:
        (memory if k in (0, 5) else refused if k in (1, 7) else race if k == 2 else interleaved if k in (3, 9, 14, 20) else faults)(i, r, T, g)
    finally:
        os.chdir("/")
        shutil.rmtree(os.path.join(T.tmp, "at-%d" % os.getpid()), ignore_errors=True)
