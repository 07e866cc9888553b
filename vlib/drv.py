"""Driver of all checks:  python3 vlib/drv.py C01 [--tier quick|thorough] [--seed N] [--replay FILE] [--cases N]

A check is a module checks/<id>.py. Most of them have a function case(i, rng, T), which runs one generated case against
the real extension inside a worker process (vlib/wk.py) under sanitizers, and raises Violation when the oracle disagrees.
Some have a function run(D) instead, which drives C harnesses or processes of its own.

Exit status: 0 held on everything explored, 1 with a line VIOLATION property=<id> replay=<path>. Anything which prevents a
verdict (a build failure, nothing observed) exits with 2.
"""
import argparse
import hashlib
import importlib
import json
import os
import re
import shutil
import signal
import subprocess
import sys
import tempfile
import time
import types
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(HERE, "vlib"))
sys.path.insert(0, os.path.join(HERE, "checks"))
import build  # noqa: E402


class _Stub(types.ModuleType):
    """The driver only reads a check's description; the extension itself is loaded by its workers alone."""
    __path__ = []

    def __getattr__(self, name):
        if name.startswith("__"):
            raise AttributeError(name)
        return type(name, (), {})


sys.modules["pointless"] = _Stub("pointless")
sys.modules["capi"] = _Stub("capi")
sys.modules["chelp"] = _Stub("chelp")
sys.modules["cprint"] = _Stub("cprint")

EVIDENCE = os.environ.get("VERIF_EVIDENCE_DIR", os.path.join(HERE, "evidence"))
NPROC = int(os.environ.get("VERIF_NPROC", 0)) or max(2, os.cpu_count() or 2)
# how many violations end a run
MAXVIOL = int(os.environ.get("VERIF_MAXVIOL", 8))
# per case limit before it is taken aside and re-run alone, and the limit of that second run
CASE_S, CASE_RETRY_S = 90, 200


def log(*a):
    print("[drv]", *a, file=sys.stderr, flush=True)


def san_headline(text):
    """(key, excerpt) of a sanitizer report / crash: the kind and the first frames which are in /repo's code."""
    kind = None
    m = re.search(r"runtime error: (.*)", text)
    if m:
        kind = "ubsan:" + re.sub(r"0x[0-9a-f]+|-?\d[\d.e+]*", "N", m.group(1))[:80]
    m2 = re.search(r"ERROR: AddressSanitizer: ([\w-]+)", text)
    if m2:
        kind = "asan:" + m2.group(1)
    m3 = re.search(r"WARNING: ThreadSanitizer: ([\w -]+)", text)
    if m3:
        kind = "tsan:" + m3.group(1).strip().replace(" ", "-")
    if re.search(r"ERROR: LeakSanitizer", text):
        kind = "lsan:leak"
    if kind is None and "Fatal Python error" in text:
        kind = "python:" + re.search(r"Fatal Python error: (.*)", text).group(1)[:60]
    fr = []
    for x in re.finditer(r"#\d+ (?:0x[0-9a-f]+ in )?(\w+) ([^\n]*)", text):
        if re.search(r"(src|python)/\w+\.[ch]|Judy|pointless", x.group(2)):
            if x.group(1) not in fr:
                fr.append(x.group(1))
        if len(fr) >= 2:
            break
    i = text.find("ERROR: ")
    j = text.find("runtime error")
    st = min([k for k in (i, j) if k >= 0] or [max(0, len(text) - 3000)])
    return ((kind + ":" + ":".join(fr)) if kind else None), text[max(0, st - 200):st + 4000]


class Driver:
    def __init__(self, prop, tier, seed, cases=None, only=None):
        self.prop, self.tier, self.seed, self.only = prop, tier, seed, only
        self.mod = importlib.import_module(prop.lower())
        self.ncases = cases
        self.t0 = time.time()
        self.sig = set()
        self.evals = 0
        self.counts = {}
        self.samples = []
        self.viol = []      # (key, case index or None, detail)
        self.incon = []
        self.pass_ = 0
        self.tmp = tempfile.mkdtemp(prefix="verif-%s-" % prop)
        os.chmod(self.tmp, 0o755)

    # --- results -----------------------------------------------------------------------------------------------
    def count(self, name, n=1):
        self.counts[name] = self.counts.get(name, 0) + n

    def ev(self, n=1):
        self.evals += n

    def key(self, x):
        self.sig.add(hashlib.sha1(repr(x).encode("utf-8", "surrogatepass")).hexdigest()[:16])

    def sample(self, s):
        if len(self.samples) < 12:
            self.samples.append(s)

    def violation(self, key, detail, case=None, replay=None):
        self.viol.append((key, case, detail, replay))

    # --- C harness processes -----------------------------------------------------------------------------------
    def proc(self, cmd, env=None, timeout=300, cwd=None, stdin=None):
        """(rc, stdout, stderr); rc is 'timeout' when the limit passed twice in a row."""
        for attempt in (0, 1):
            p = subprocess.Popen(cmd, env=env, cwd=cwd or self.tmp, stdin=subprocess.PIPE if stdin else subprocess.DEVNULL,
                                 stdout=subprocess.PIPE, stderr=subprocess.PIPE, start_new_session=True)
            try:
                o, e = p.communicate(stdin, timeout=timeout * (1 + attempt))
                return p.returncode, o.decode("utf-8", "replace"), e.decode("utf-8", "replace")
            except subprocess.TimeoutExpired:
                os.killpg(p.pid, signal.SIGKILL)
                p.communicate()
                log("timeout, attempt %d: %s" % (attempt, " ".join(map(str, cmd))[:200]))
        return "timeout", "", ""

    def giant(self, what):
        """harness/giant.py: values at the 32-bit limits of the format, which need gigabytes and minutes"""
        with open("/proc/meminfo") as f:
            free = int(re.search(r"MemAvailable:\s+(\d+)", f.read()).group(1)) >> 20
        if free < 20:
            self.incon.append("giant %s: only %d GB of memory available" % (what, free))
            return
        lib = build.ensure("plain")["lib"]
        rc, o, e = self.proc([build.PY, os.path.join(HERE, "harness", "giant.py"), what], env=dict(os.environ, PYTHONPATH=lib), timeout=2400)
        n = o.count("\nok ")
        self.count("giant_checks", n)
        self.ev(n)
        bad = re.findall(r"^WRONG (\S+) (.*)$", o, re.M)
        for k, d in bad:
            self.violation("giant:" + k, d)
        if rc != 0 and not bad:
            # the kernel or the watchdog of a small machine is no verdict
            if rc in (-9, "timeout"):
                self.incon.append("giant %s: ended by %s" % (what, rc))
            else:
                self.violation("giant:%s" % rc, (o + e)[-3000:])

    # --- worker based checks -----------------------------------------------------------------------------------
    def worker_cmd(self, lo, hi, step, out, one=False):
        return [build.PY, os.path.join(HERE, "vlib", "wk.py"), self.prop, self.tier, str(self.seed), str(lo), str(hi), str(step), out, self.tmp]

    def read_out(self, path):
        try:
            with open(path) as f:
                lines = f.read().split("\n")
        except FileNotFoundError:
            return
        for ln in lines:
            if not ln.strip():
                continue
            try:
                d = json.loads(ln)
            except ValueError:
                continue
            if "viol" in d:
                self.viol.append((d["viol"], d["case"], d["detail"], None))
                continue
            self.evals += d.get("ev", 0)
            self.sig.update(d.get("sig", ()))
            for k, v in d.get("counts", {}).items():
                self.counts[k] = self.counts.get(k, 0) + v
            for s in d.get("samples", ()):
                self.sample(s)

    def run_range(self, w, lo, hi, step, env, case_s):
        """Runs cases lo, lo+step, ... <hi in worker processes; restarts after a crash."""
        crashes = 0
        n = 0
        while lo < hi:
            n += 1
            base = os.path.join(self.tmp, "w%d-%d-%d" % (self.pass_, w, n))
            out, prog, err = base + ".out", base + ".out.prog", base + ".err"
            with open(err, "wb") as ef:
                p = subprocess.Popen(self.worker_cmd(lo, hi, step, out), env=env, cwd=self.tmp, stdin=subprocess.DEVNULL,
                                     stdout=ef, stderr=ef, start_new_session=True)
            last, last_t, hung = None, time.time(), False
            delay = 0.02
            while p.poll() is None:
                time.sleep(delay)
                delay = min(0.25, delay * 1.3)
                try:
                    with open(prog) as f:
                        cur = f.read()
                except FileNotFoundError:
                    cur = None
                if cur != last:
                    last, last_t = cur, time.time()
                elif time.time() - last_t > case_s:
                    hung = True
                    break
                if len(self.viol) >= MAXVIOL:
                    break
            try:
                os.killpg(p.pid, signal.SIGKILL)
            except ProcessLookupError:
                pass
            p.wait()
            rc = p.returncode
            self.read_out(out)
            if len(self.viol) >= MAXVIOL:
                return
            if rc == 0 and not hung:
                return
            try:
                with open(prog) as f:
                    cur = int(f.read().split()[0])
            except (FileNotFoundError, ValueError, IndexError):
                with open(err, errors="replace") as f:
                    text = f.read()
                raise build.BuildError("worker did not start: rc=%s\n%s" % (rc, text[-4000:]))
            with open(err, errors="replace") as f:
                text = f.read()[-200000:]
            if hung or rc == -signal.SIGKILL:
                if not self.retry_alone(cur, env, text, hung):
                    self.incon.append("case %d: %s" % (cur, "slow" if hung else "killed"))
            elif rc == 3:
                pass  # the worker stopped after a violation, already read
            else:
                k, ex = san_headline(text)
                if k is None:
                    k = ("signal:%d" % -rc) if rc < 0 else "exit:%d" % rc
                self.viol.append((k, cur, ex, None))
            crashes += 1
            if crashes >= 3:
                return
            lo = cur + step

    def retry_alone(self, i, env, text, hung):
        base = os.path.join(self.tmp, "retry-%d" % i)
        with open(base + ".err", "wb") as ef:
            p = subprocess.Popen(self.worker_cmd(i, i + 1, 1, base + ".out"), env=env, cwd=self.tmp, stdin=subprocess.DEVNULL,
                                 stdout=ef, stderr=ef, start_new_session=True)
        try:
            rc = p.wait(timeout=CASE_RETRY_S)
        except subprocess.TimeoutExpired:
            os.killpg(p.pid, signal.SIGKILL)
            p.wait()
            self.viol.append(("hang", i, "the case did not finish within %d s, twice" % CASE_S, None))
            return True
        self.read_out(base + ".out")
        if rc == 0:
            return False
        with open(base + ".err", errors="replace") as f:
            k, ex = san_headline(f.read())
        if rc == 3:
            return True
        self.viol.append((k or "exit:%s" % rc, i, ex, None))
        return True

    def run_workers(self, extra_env=None, extra_asan=""):
        m = self.mod
        self.pass_ += 1
        variant = getattr(m, "VARIANT", "asan")
        b = build.ensure(variant, judy_san=getattr(m, "JUDY_SAN", False), harness=getattr(m, "HARNESS", ()))
        env = build.san_env(variant, extra_asan=":".join(filter(None, (getattr(m, "ASAN_EXTRA", ""), extra_asan))))
        env["PYTHONPATH"] = b["lib"] + os.pathsep + os.path.join(HERE, "vlib") + os.pathsep + os.path.join(HERE, "checks")
        env["VERIF_BUILD_ROOT"] = b["root"]
        env.update(getattr(m, "ENV", {}))
        env.update(extra_env or {})
        if self.only is not None:
            self.run_range(0, self.only, self.only + 1, 1, env, CASE_RETRY_S)
            return
        n = self.ncases or m.CASES[self.tier]
        np = min(NPROC, n, getattr(m, "MAXPROC", 99))
        case_s = getattr(m, "CASE_S", CASE_S)
        with ThreadPoolExecutor(np) as ex:
            fs = [ex.submit(self.run_range, w, w, n, np, env, case_s) for w in range(np)]
            for f in fs:
                f.result()

    # --- known findings ----------------------------------------------------------------------------------------
    def known(self):
        out = []
        p = os.path.join(HERE, "known-findings.txt")
        if os.path.exists(p):
            with open(p) as f:
                for ln in f:
                    m = re.match(r"finding: property=(\w+) key=(\S+) (.*)", ln.strip())
                    if m and m.group(1) == self.prop:
                        out.append((m.group(2), m.group(3)))
        return out

    def finish(self):
        m = self.mod
        known = self.known()
        hit = {k: 0 for k, _ in known}
        new = []
        for v in self.viol:
            for k, _ in known:
                if v[0] == k:
                    hit[k] += 1
                    break
            else:
                new.append(v)
        for k, what in known:
            print("KNOWN-FINDING: property=%s %s (key %s, seen %d times in this run)" % (self.prop, what, k, hit[k]))
        cov = {
            "evaluations": self.evals,
            "distinct_nontrivial": len(self.sig),
            "rule": m.RULE,
            "samples": self.samples[:12] or ["(none)"],
        }
        cov.update(self.counts)
        if self.incon:
            cov["inconclusive"] = self.incon
        e = {"property": self.prop, "tier": self.tier, "seed": self.seed, "level": getattr(m, "LEVEL", "exploration"), "coverage": cov,
             "assumptions": getattr(m, "ASSUMPTIONS", []), "wall_s": round(time.time() - self.t0, 2), "violations": len(new)}
        os.makedirs(EVIDENCE, exist_ok=True)
        if self.only is None:
            with open(os.path.join(EVIDENCE, self.prop + ".json"), "w") as f:
                json.dump(e, f, indent=1, sort_keys=True)
                f.write("\n")
        rc = 0
        seen = set()
        for key, case, detail, replay in new:
            if key in seen:
                continue
            seen.add(key)
            rd = os.path.join(EVIDENCE, "replay")
            os.makedirs(rd, exist_ok=True)
            path = os.path.join(rd, "%s-%s.json" % (self.prop, hashlib.sha1(key.encode()).hexdigest()[:10]))
            with open(path, "w") as f:
                json.dump({"property": self.prop, "tier": self.tier, "seed": self.seed, "case": case, "key": key, "replay": replay, "detail": detail}, f, indent=1)
            print("--- %s case %s key %s" % (self.prop, case, key))
            print(detail[:6000])
            print("VIOLATION property=%s replay=%s" % (self.prop, path), flush=True)
            rc = 1
        print("%s %s seed %d: %d evaluations, %d distinct, %s, %.1f s%s" % (
            self.prop, self.tier, self.seed, self.evals, len(self.sig), " ".join("%s=%s" % kv for kv in sorted(self.counts.items())),
            time.time() - self.t0, (" INCONCLUSIVE: %s" % self.incon) if self.incon else ""))
        if rc == 0 and self.only is None:
            need = getattr(m, "MIN_EVAL", 1)
            for k in getattr(m, "MUST_OBSERVE", ()):
                if not self.counts.get(k):
                    print("no verdict: nothing of kind %r was observed" % k)
                    return 2
            if self.evals < need:
                print("no verdict: only %d evaluations" % self.evals)
                return 2
        return rc


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1") or 1))
    ap.add_argument("--cases", type=int)
    ap.add_argument("--case", type=int)
    ap.add_argument("--replay")
    a = ap.parse_args()
    if a.replay:
        with open(a.replay) as f:
            r = json.load(f)
        a.prop, a.tier, a.seed, a.case = r["property"], r["tier"], r["seed"], r["case"]
    D = Driver(a.prop, a.tier, a.seed, cases=a.cases, only=a.case)
    D.replay = json.load(open(a.replay)).get("replay") if a.replay else None
    try:
        if hasattr(D.mod, "run"):
            D.mod.run(D)
        else:
            D.run_workers()
            if a.tier == "thorough" and a.case is None and hasattr(D.mod, "extra"):
                D.mod.extra(D)
        rc = D.finish()
    except build.BuildError as e:
        print("no verdict, build or harness failure:\n%s" % e)
        rc = 2
    except Exception:
        import traceback
        traceback.print_exc(file=sys.stdout)
        print("no verdict, the check itself failed")
        rc = 2
    finally:
        shutil.rmtree(D.tmp, ignore_errors=True)
    sys.stdout.flush()
    sys.exit(rc)


if __name__ == "__main__":
    main()
