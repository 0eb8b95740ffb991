"""Shared pieces of the checks: building the driver, running TLC, evidence, verdicts."""
import json
import os
import re
import shutil
import subprocess
import sys
import time

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SPEC = os.path.join(ROOT, "spec")
DRIVER = os.path.join(ROOT, "driver")
JARS = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"

GOENV = {
    "HOME": "/root", "GOTOOLCHAIN": "local", "GOPROXY": "off", "GOSUMDB": "off", "GOFLAGS": "-mod=mod",
    "GOWORK": "off", "GOCACHE": "/root/.cache/go-build",
    "PATH": "/usr/local/go/bin:/usr/local/bin:/usr/local/sbin:/usr/sbin:/usr/bin:/sbin:/bin",
}


class CheckError(Exception):
    """The check could not decide; never a violation."""


def goenv():
    e = dict(os.environ)
    e.update(GOENV)
    return e


def text(v):
    """Byte lists as text, for people."""
    if isinstance(v, list):
        if v and all(isinstance(x, int) and not isinstance(x, bool) for x in v):
            return bytes(v).decode("utf8", "backslashreplace")
        return [text(x) for x in v]
    if isinstance(v, dict):
        return {k: text(x) for k, x in v.items() if k != "via" or x}
    return v


class Run:
    def __init__(self, pid, tier, seed):
        self.pid, self.tier, self.seed = pid, tier, seed
        self.quick = tier == "quick"
        self.t0 = time.time()
        self.dir = os.path.join(ROOT, "out", pid)
        shutil.rmtree(self.dir, ignore_errors=True)
        os.makedirs(os.path.join(self.dir, "tmp"))
        self.cov = {}
        self.samples = []
        self.violations = []
        self.known = []
        self.assumptions = []

    def path(self, name):
        return os.path.join(self.dir, name)

    def log(self, *a):
        print("[%s %6.1fs]" % (self.pid, time.time() - self.t0), *a, flush=True)

    def count(self, key, n):
        self.cov[key] = self.cov.get(key, 0) + n

    # ---- the driver ----
    def build(self, race=False):
        out = self.path("driver-race" if race else "driver")
        cmd = ["go", "build", "-o", out] + (["-race"] if race else []) + ["."]
        env = goenv()
        if race:
            env["CGO_ENABLED"] = "1"
        p = subprocess.run(cmd, cwd=DRIVER, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if p.returncode != 0:
            raise CheckError("the driver does not build against /repo:\n" + p.stdout)
        return out

    def drive(self, binary, args, timeout=600, env=None):
        e = dict(os.environ)
        if env:
            e.update(env)
        try:
            return subprocess.run([binary] + args, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, timeout=timeout, env=e)
        except subprocess.TimeoutExpired:
            raise CheckError("driver timed out: " + " ".join(args))

    # ---- TLC ----
    def tlc_start(self, module, env, workers, cfg=None, heap="6g", tag=None):
        tag = tag or module
        log = open(self.path(tag + ".log"), "w")
        e = dict(os.environ)
        e.update(env)
        meta = self.path("meta-" + tag)
        cmd = ["java", "-XX:+UseParallelGC", "-Xss64m", "-Xmx" + heap, "-Djava.io.tmpdir=" + self.path("tmp"), "-cp", JARS,
               "tlc2.TLC", "-workers", str(workers), "-metadir", meta, "-cleanup", "-noGenerateSpecTE",
               "-config", (cfg or module) + ".cfg", module + ".tla"]
        p = subprocess.Popen(cmd, cwd=SPEC, env=e, stdout=log, stderr=subprocess.STDOUT)
        return p, tag, log

    def tlc_wait(self, started, timeout):
        p, tag, log = started
        try:
            rc = p.wait(timeout=timeout)
        except subprocess.TimeoutExpired:
            p.kill()
            p.wait()
            raise CheckError("TLC timed out on " + tag)
        finally:
            log.close()
        printed, rest = [], []
        with open(self.path(tag + ".log"), errors="replace") as f:
            for line in f:
                if line.startswith('"{'):
                    printed.append(json.loads(line))
                elif not line.startswith(("Parsing file", "Semantic processing", "Linting")):
                    rest.append(line)
        if rc != 0:
            raise CheckError("TLC failed on %s (exit %d):\n%s" % (tag, rc, "".join(rest[-60:])))
        m = re.search(r"(\d+) states generated, (\d+) distinct states found, 0 states left", "".join(rest))
        if not m:
            raise CheckError("TLC did not finish on %s:\n%s" % (tag, "".join(rest[-40:])))
        return printed, int(m.group(1)), int(m.group(2))

    # ---- verdicts ----
    def violation(self, kind, info):
        n = len(self.violations) + 1
        rel = os.path.join("out", self.pid, "replay-%d.json" % n)
        rec = {"property": self.pid, "kind": kind, "seed": self.seed, "tier": self.tier}
        rec.update(info)
        rec["readable"] = text({k: v for k, v in info.items()})
        with open(os.path.join(ROOT, rel), "w") as f:
            json.dump(rec, f, indent=1)
        self.violations.append(rel)
        if n <= 10:
            self.log("mismatch:", json.dumps(rec["readable"], ensure_ascii=True)[:1500])
        return rel

    def finish(self, level):
        ev = {"property": self.pid, "tier": self.tier, "seed": self.seed, "level": level,
              "coverage": dict(self.cov, samples=self.samples[:5]),
              "assumptions": self.assumptions, "wall_s": round(time.time() - self.t0, 2), "violations": len(self.violations)}
        os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
        with open(os.path.join(ROOT, "evidence", self.pid + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
        shutil.rmtree(self.path("tmp"), ignore_errors=True)
        for k in self.known:
            print("KNOWN-FINDING: property=%s %s" % (self.pid, k))
        if self.violations:
            for v in self.violations[:20]:
                print("VIOLATION property=%s replay=%s" % (self.pid, v))
            sys.exit(1)
        self.log("held:", json.dumps({k: v for k, v in self.cov.items()}))
        sys.exit(0)
