"""Worker: runs cases lo, lo+step, ... < hi of one check inside the (sanitized) extension."""
import faulthandler
import hashlib
import importlib
import json
import os
import random
import subprocess
import sys
import traceback


class Violation(Exception):
    def __init__(self, key, detail=""):
        Exception.__init__(self, key)
        self.key, self.detail = key, detail


def check(cond, key, detail=""):
    if not cond:
        raise Violation(key, detail() if callable(detail) else str(detail))


class Tally:
    def __init__(self, tmp, tier, seed):
        self.tmp, self.tier, self.seed = tmp, tier, seed
        self.e, self.c, self.s, self.samples, self.note = 0, {}, set(), [], ""

    def ev(self, n=1):
        self.e += n

    def count(self, k, n=1):
        self.c[k] = self.c.get(k, 0) + n

    def key(self, x):
        if not isinstance(x, bytes):
            x = repr(x).encode("utf-8", "surrogatepass")
        self.s.add(hashlib.sha1(x).hexdigest()[:16])

    def sample(self, x):
        if len(self.samples) < 2:
            self.samples.append(str(x)[:400])

    def about(self, x):
        """what the case is doing, shown with a violation"""
        self.note = x


def main():
    prop, tier, seed, lo, hi, step, out, tmp = sys.argv[1:9]
    lo, hi, step, seed = int(lo), int(hi), int(step), int(seed)
    sys.modules["wk"] = sys.modules["__main__"]
    import pointless  # noqa: F401  the extension itself must be the one which was built for this run
    assert os.path.dirname(os.path.abspath(pointless.__file__)) == sys.path[1] or os.environ["PYTHONPATH"].startswith(
        os.path.dirname(os.path.abspath(pointless.__file__))), pointless.__file__
    mod = importlib.import_module(prop.lower())
    T = Tally(tmp, tier, seed)
    fd = os.open(out + ".prog", os.O_CREAT | os.O_RDWR, 0o644)
    rc = 0
    if hasattr(mod, "setup"):
        os.pwrite(fd, b"%-12d" % lo, 0)
        try:
            mod.setup(T)
        except (subprocess.SubprocessError, OSError):
            # a harness which cannot be built says nothing about the library
            traceback.print_exc()
            sys.stderr.flush()
            os.unlink(out + ".prog")
            os._exit(5)
    f = open(out, "w")

    def flush():
        f.write(json.dumps({"ev": T.e, "counts": T.c, "sig": sorted(T.s), "samples": T.samples}) + "\n")
        f.flush()
        T.e, T.c, T.s, T.samples = 0, {}, set(), []

    nv = 0
    for n, i in enumerate(range(lo, hi, step)):
        os.pwrite(fd, b"%-12d" % i, 0)
        T.note = ""
        try:
            mod.case(i, random.Random("%s/%d/%d" % (prop, seed, i)), T)
        except Violation as v:
            f.write(json.dumps({"viol": v.key, "case": i, "detail": "%s\n%s" % (v.detail, T.note)}) + "\n")
            nv += 1
        except AssertionError:
            f.write(json.dumps({"viol": "assert", "case": i, "detail": traceback.format_exc() + "\n" + str(T.note)}) + "\n")
            nv += 1
        except Exception as x:
            # an exception nobody expected: the API failed on an input of the property's domain
            tb = traceback.extract_tb(x.__traceback__)
            where = [t for t in tb if "/checks/" in t.filename or "/vlib/" in t.filename]
            f.write(json.dumps({"viol": "exception:%s:%s" % (type(x).__name__, where[-1].name if where else ""), "case": i,
                                "detail": traceback.format_exc() + "\n" + str(T.note)}) + "\n")
            nv += 1
        if n % 20 == 19:
            flush()
        if nv >= 3:
            rc = 3
            break
    if hasattr(mod, "teardown") and rc == 0:
        mod.teardown(T)
    flush()
    f.close()
    sys.stdout.flush()
    os._exit(rc)


if __name__ == "__main__":
    faulthandler.enable() if os.environ.get("VERIF_FAULTHANDLER") else None
    main()
