"""Out-of-tree builds of /repo's current working tree, in several instrumented variants.

Every check calls ensure(variant, ...): sources are copied from /repo into a private directory
(VERIF_BUILD_DIR or /verif/.build) and compiled there; /repo itself is never written to.
"""
import fcntl
import hashlib
import os
import re
import shutil
import subprocess
import sys
import sysconfig
from concurrent.futures import ThreadPoolExecutor

REPO = os.environ.get("VERIF_REPO", "/repo")
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BUILD = os.environ.get("VERIF_BUILD_DIR", os.path.join(HERE, ".build"))
PY = "/opt/vp/venv/bin/python"
NJ = max(2, os.cpu_count() or 2)

BASE = ["-D_GNU_SOURCE", "-std=c99", "-g", "-fPIC", "-w", "-fno-omit-frame-pointer"]
UB = "undefined,float-cast-overflow"
# alignment: the file format is packed and read in place by design (x86 only), see DESIGN.md
# nonnull-attribute: memcpy(p, 0, 0) has no effect anywhere
NOUB = ["-fno-sanitize=alignment,nonnull-attribute", "-fno-sanitize-recover=all"]

VARIANTS = {
    # production flags of setup.py
    "plain": ["-O2", "-DNDEBUG"],
    # memory + undefined behaviour monitor; production (NDEBUG) semantics
    "asan": ["-O1", "-DNDEBUG", "-fsanitize=address," + UB] + NOUB,
    # as asan, the library's calls of the allocator go through the fault injector (harness/oom_impl.c)
    "oom": ["-O1", "-DNDEBUG", "-fsanitize=address," + UB] + NOUB,
    # as asan, with what is needed to call the C API through ctypes (harness/capi.c)
    "capi": ["-O1", "-DNDEBUG", "-fsanitize=address," + UB] + NOUB,
    # data race monitor
    "tsan": ["-O1", "-DNDEBUG", "-fsanitize=thread"],
}
JUDY_FLAGS = ["-DJU_64BIT", "-O0", "-fPIC", "-fno-strict-aliasing", "-fno-aggressive-loop-optimizations", "-w", "-g"]


class BuildError(Exception):
    pass


def sh(cmd, **kw):
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", **kw)
    if p.returncode:
        raise BuildError("%s\n%s" % (" ".join(cmd) if isinstance(cmd, list) else cmd, p.stdout[-6000:]))
    return p.stdout


def tracked_sources():
    out = []
    for root in ("src", "python", "include", "judy-1.0.5/src"):
        for d, dirs, files in os.walk(os.path.join(REPO, root)):
            for f in files:
                p = os.path.join(d, f)
                if os.path.islink(p) or not f.endswith((".c", ".h")) or f.endswith(("Tables.c",)) and "JudyCommon" not in d:
                    if not f.endswith("sh_build"):
                        continue
                out.append(os.path.relpath(p, REPO))
    out += ["pointless_ext.c", "pointless_ext.h", "setup.py"]
    return sorted(set(out))


def source_hash(extra=()):
    h = hashlib.sha256()
    for f in tracked_sources():
        h.update(f.encode())
        with open(os.path.join(REPO, f), "rb") as fd:
            h.update(fd.read())
    for f in extra:
        with open(f, "rb") as fd:
            h.update(fd.read())
    return h.hexdigest()[:20]


def ext_sources():
    """The extension's C files, as setup.py lists them."""
    with open(os.path.join(REPO, "setup.py")) as f:
        text = f.read()
    return re.findall(r"'([^']+\.c)'", text)


def copy_tree(dst):
    for f in tracked_sources():
        d = os.path.join(dst, f)
        os.makedirs(os.path.dirname(d), exist_ok=True)
        shutil.copyfile(os.path.join(REPO, f), d)
    sb = os.path.join(REPO, "judy-1.0.5/src/sh_build")
    shutil.copyfile(sb, os.path.join(dst, "judy-1.0.5/src/sh_build"))


def build_judy(root, cflags):
    """The steps of judy's sh_build, out of tree and in parallel (the list of units is read from it)."""
    src = os.path.join(root, "judy-1.0.5/src")
    with open(os.path.join(src, "sh_build")) as f:
        lines = [x.strip() for x in f]
    cwd, jobs, pre, objs = src, [], [], []
    for x in lines:
        x = x.split("#")[0].strip()
        if x.startswith("cd "):
            cwd = os.path.normpath(os.path.join(cwd, x[3:].strip()))
        elif x.startswith("ln -sf"):
            _, _, a, b = x.split()
            b = os.path.join(cwd, b)
            if os.path.lexists(b):
                os.unlink(b)
            os.symlink(a, b)
        elif x.startswith("$CC") and " -o " in x and "TablesGen" in x:
            m = re.search(r"-D(JUDY\w)\b.*?(\w+TablesGen)\.c", x)
            pre.append((cwd, m.group(1), m.group(2)))
        elif x.startswith("$CC") and " -c " in x:
            toks = x.split()
            c = [t for t in toks if t.endswith(".c")][0]
            defs = [t for t in toks if t.startswith("-D")]
            jobs.append((cwd, c, defs))
    for d, define, gen in pre:
        sh(["gcc", *JUDY_FLAGS, "-I.", "-I..", "-I../JudyCommon", "-D" + define, gen + ".c", "-o", gen], cwd=d)
        sh(["./" + gen], cwd=d)
    todo = []
    for d, c, defs in jobs:
        o = os.path.join(d, c[:-2] + ".o")
        todo = [t for t in todo if t[2] != o] + [(d, c, o, defs)]

    def one(t):
        d, c, o, defs = t
        sh(["gcc", *cflags, "-I.", "-I..", "-I../JudyCommon", *defs, "-c", c, "-o", o], cwd=d)
        return o
    return one, todo


def ensure(variant, ext=True, harness=(), judy_san=False, defines=()):
    """Builds a variant; returns a dict with 'lib' (directory with pointless*.so), 'bin' (directory of harnesses)."""
    hfiles = [os.path.join(HERE, "harness", h) for h in harness]
    allh = hfiles + [os.path.join(HERE, "harness", x) for x in sorted(os.listdir(os.path.join(HERE, "harness")))
                     if x.endswith(".h") or x in ("oom_impl.c", "capi.c")] + [os.path.abspath(__file__)]
    tag = source_hash(allh)
    name = "%s%s-%s" % (variant, "-j" if judy_san else "", hashlib.sha256(repr((tag, ext, list(harness), list(defines))).encode()).hexdigest()[:16])
    root = os.path.join(BUILD, name)
    os.makedirs(BUILD, exist_ok=True)
    with open(root + ".lock", "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        out = {"root": root, "lib": os.path.join(root, "lib"), "bin": os.path.join(root, "bin"), "variant": variant}
        if os.path.exists(os.path.join(root, "ok")):
            return out
        shutil.rmtree(root, ignore_errors=True)
        os.makedirs(root)
        copy_tree(root)
        flags = BASE + VARIANTS[variant] + list(defines)
        san = [f for f in flags if f.startswith("-fsanitize")]
        jf = list(JUDY_FLAGS)
        if judy_san:
            # Judy shifts and indexes in ways which are undefined but mean what they should with these flags
            jf += ["-fsanitize=" + ("thread" if variant == "tsan" else "address")] if variant != "plain" else []
        wrap = ("malloc", "calloc", "realloc", "strdup") if variant == "oom" else ("malloc", "calloc", "realloc", "strdup", "free") if variant == "capi" else ()
        wrap = ["-Wl," + ",".join("--wrap=" + x for x in wrap)] if wrap else []
        one_j, todo_j = build_judy(root, jf)
        inc = ["-I" + os.path.join(root, "include"), "-I" + os.path.join(root, "judy-1.0.5/src"), "-I" + os.path.join(HERE, "harness")]
        pyinc = ["-I" + sh([PY, "-c", "import sysconfig;print(sysconfig.get_paths()['include'])"]).strip()]
        srcs = ext_sources()
        libs = [s for s in srcs if s.startswith("src/")]
        pys = [s for s in srcs if not s.startswith("src/")]
        if variant == "capi" and "src/pointless_debug.c" not in libs and os.path.exists(os.path.join(root, "src/pointless_debug.c")):
            libs.append("src/pointless_debug.c")
        if harness and "src/pointless_debug.c" not in libs and os.path.exists(os.path.join(root, "src/pointless_debug.c")):
            libs_h = ["src/pointless_debug.c"]
        else:
            libs_h = []
        os.makedirs(out["lib"])
        os.makedirs(out["bin"])

        def cc(s):
            o = os.path.join(root, s[:-2].replace("/", "_") + ".o")
            sh(["gcc", *flags, *inc, *(pyinc if s in pys else []), "-c", s, "-o", o], cwd=root)
            return o

        def cch(h):
            o = os.path.join(root, "h_" + os.path.basename(h)[:-2] + ".o")
            py = ["-DOOM_PYTHON", *pyinc] if ext else []
            sh(["gcc", *[x for x in flags if x != "-std=c99"], "-std=gnu11", *inc, *py, "-c", h, "-o", o], cwd=root)
            return o
        with ThreadPoolExecutor(NJ) as ex:
            fj = [ex.submit(one_j, t) for t in todo_j]
            fl = [ex.submit(cc, s) for s in libs + libs_h]
            fp = [ex.submit(cc, s) for s in (pys if ext else [])]
            support = []
            if variant == "oom":
                support = [ex.submit(cch, os.path.join(HERE, "harness", "oom_impl.c"))]
            if variant == "capi":
                support = [ex.submit(cch, os.path.join(HERE, "harness", "capi.c"))]
            fh = [ex.submit(cch, h) for h in hfiles]
            oj = [f.result() for f in fj]
            ol = [f.result() for f in fl]
            op = [f.result() for f in fp]
            os_ = [f.result() for f in support]
            oh = [f.result() for f in fh]
        jlib = os.path.join(root, "libJudy.a")
        sh(["ar", "rcs", jlib, *oj])
        n = len(libs)
        if ext:
            suffix = sh([PY, "-c", "import sysconfig;print(sysconfig.get_config_var('EXT_SUFFIX'))"]).strip()
            sh(["gcc", "-shared", *san, *wrap, *op, *ol[:n], *os_, jlib, "-lm", "-o", os.path.join(out["lib"], "pointless" + suffix)], cwd=root)
        for h, o in zip(hfiles, oh):
            sh(["gcc", *san, *wrap, o, *ol, *os_, jlib, "-lm", "-lpthread", "-ldl", "-o", os.path.join(out["bin"], os.path.basename(h)[:-2])], cwd=root)
        for f in os.listdir(root):
            if f.endswith(".o"):
                os.unlink(os.path.join(root, f))
        open(os.path.join(root, "ok"), "w").close()
    return out


def san_env(variant, extra_asan="", leaks=False):
    env = dict(os.environ)
    env["PYTHONDONTWRITEBYTECODE"] = "1"
    env["PYTHONHASHSEED"] = "0"
    if variant in ("asan", "oom", "capi"):
        env["LD_PRELOAD"] = sh(["gcc", "-print-file-name=libasan.so"]).strip() + " " + sh(["gcc", "-print-file-name=libubsan.so"]).strip()
        env["PYTHONMALLOC"] = "malloc"
        env["ASAN_OPTIONS"] = ("detect_leaks=%d:abort_on_error=0:exitcode=99:allocator_may_return_null=1:detect_stack_use_after_return=0:"
                               "handle_abort=1:print_summary=1:max_allocation_size_mb=4096%s" % (1 if leaks else 0, (":" + extra_asan) if extra_asan else ""))
        env["UBSAN_OPTIONS"] = "print_stacktrace=1:exitcode=99"
    elif variant == "tsan":
        env["LD_PRELOAD"] = sh(["gcc", "-print-file-name=libtsan.so"]).strip()
        env["PYTHONMALLOC"] = "malloc"
        env["TSAN_OPTIONS"] = "exitcode=99:halt_on_error=1:second_deadlock_stack=1:history_size=4"
    return env


if __name__ == "__main__":
    import time
    t = time.time()
    print(ensure(sys.argv[1], harness=sys.argv[2:]), time.time() - t)
