"""Shared machinery: building dredd from /repo, running things in scratch
directories with limits, verdicts, known findings and evidence."""
import concurrent.futures as cf
import fcntl
import hashlib
import json
import os
import random
import shutil
import signal
import subprocess
import sys
import tempfile
import threading
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("DREDD_REPO", "/repo")
CC = "/usr/bin/clang-17"
CXX = "/usr/bin/clang++-17"
LLVM_DIR = "/usr/lib/llvm-17"
NCPU = max(2, min(8, os.cpu_count() or 4))
SEED = int(os.environ.get("VERIF_SEED", "1") or "1")
TIER = os.environ.get("VERIF_TIER", "quick") or "quick"
THOROUGH = TIER == "thorough"

_scratch_root = None


class HarnessError(Exception):
    pass


def scratch_root():
    global _scratch_root
    if _scratch_root is None:
        _scratch_root = tempfile.mkdtemp(prefix="dreddv.")
        import atexit
        pid = os.getpid()

        def _clean():
            if os.getpid() == pid:
                shutil.rmtree(_scratch_root, ignore_errors=True)
        atexit.register(_clean)
    return _scratch_root


_counter = 0
_counter_lock = threading.Lock()


def scratch(name="d"):
    global _counter
    with _counter_lock:
        _counter += 1
        n = _counter
    d = os.path.join(scratch_root(), "%s%d" % (name, n))
    os.makedirs(d)
    return d


def unique():
    global _counter
    with _counter_lock:
        _counter += 1
        return _counter


class Res:
    """Result of one command."""
    __slots__ = ("rc", "out", "err", "timeout", "wall")

    def __init__(self, rc, out, err, timeout, wall):
        self.rc, self.out, self.err, self.timeout, self.wall = rc, out, err, timeout, wall

    def key(self):
        return (self.rc, self.out)


_launcher = None
_launcher_lock = threading.Lock()


def launcher():
    """A small program that sets limits: keeps subprocess on its vfork path."""
    global _launcher
    with _launcher_lock:
        if _launcher is None:
            p = os.path.join(scratch_root(), "launch")
            subprocess.run([CC, "-O1", "-w", os.path.join(VERIF, "support/launch.c"), "-o", p], check=True)
            _launcher = p
    return _launcher


def base_env(extra=None):
    e = {"PATH": "/usr/local/bin:/usr/bin:/bin", "LANG": "C.UTF-8", "HOME": "/nonexistent",
         "TMPDIR": scratch_root(), "PYTHONDONTWRITEBYTECODE": "1"}
    if extra:
        e.update(extra)
    return e


def run(cmd, cwd=None, env=None, timeout=60, cpu=None, mem_mb=None, fsize_mb=256, stdin=b""):
    t0 = time.time()
    full = base_env(env)
    cmd = [launcher(), str(cpu or 0), str(mem_mb or 0), str(fsize_mb or 0)] + list(cmd)
    p = subprocess.Popen(cmd, cwd=cwd, env=full, stdin=subprocess.PIPE,
                         stdout=subprocess.PIPE, stderr=subprocess.PIPE,
                         start_new_session=True, close_fds=False)
    to = False
    try:
        out, err = p.communicate(stdin, timeout=timeout)
    except subprocess.TimeoutExpired:
        to = True
        try:
            os.killpg(p.pid, signal.SIGKILL)
        except OSError:
            pass
        out, err = p.communicate()
    if p.returncode in (-signal.SIGXCPU,):
        to = True
    return Res(p.returncode, out, err, to, time.time() - t0)


def pmap(fn, items, workers=None):
    """Ordered parallel map in threads (the work is in subprocesses)."""
    items = list(items)
    if not items:
        return []
    with cf.ThreadPoolExecutor(max_workers=workers or NCPU) as ex:
        return list(ex.map(fn, items))


# ---------------------------------------------------------------- build

SRC_DIRS = ["CMakeLists.txt", "src", "third_party"]


def _tree_hash():
    h = hashlib.sha256()
    for top in SRC_DIRS:
        p = os.path.join(REPO, top)
        if os.path.isfile(p):
            files = [p]
        else:
            files = []
            for dp, dn, fn in os.walk(p):
                dn.sort()
                if ".git" in dn:
                    dn.remove(".git")
                for f in sorted(fn):
                    files.append(os.path.join(dp, f))
        for f in files:
            try:
                with open(f, "rb") as fh:
                    data = fh.read()
            except OSError:
                continue
            h.update(os.path.relpath(f, REPO).encode() + b"\0" + str(len(data)).encode() + b"\0" + data)
    return h.hexdigest()[:20]


VARIANTS = {
    "plain": ("-O0 -g0 -w", ""),
    "asan": ("-O1 -g1 -w -fno-omit-frame-pointer -fsanitize=address,undefined -fno-sanitize=vptr,function "
             "-fno-sanitize-recover=all", "-fsanitize=address,undefined"),
}


def build_dredd(variant="plain"):
    """Builds the dredd executable from /repo's working tree; returns its path.
    The product is cached by a hash of the sources, in /verif/.build (ignored by git)."""
    cflags, ldflags = VARIANTS[variant]
    key = _tree_hash()
    hv = hashlib.sha256((cflags + ldflags + REPO).encode()).hexdigest()[:8]
    bdir = os.path.join(VERIF, ".build", "%s-%s" % (variant, hv))
    os.makedirs(bdir, exist_ok=True)
    lock = open(os.path.join(bdir, ".lock"), "w")
    fcntl.flock(lock, fcntl.LOCK_EX)
    try:
        exe = os.path.join(bdir, "src/dredd/dredd")
        stamp = os.path.join(bdir, ".stamp")
        if os.path.exists(exe) and os.path.exists(stamp) and open(stamp).read() == key:
            return exe
        if os.path.exists(stamp):
            os.remove(stamp)
        env = {"CCACHE_DISABLE": "1"}
        if not os.path.exists(os.path.join(bdir, "build.ninja")):
            r = run(["cmake", "-S", REPO, "-B", bdir, "-G", "Ninja",
                     "-DCMAKE_BUILD_TYPE=None",
                     "-DCMAKE_C_COMPILER=" + CC, "-DCMAKE_CXX_COMPILER=" + CXX,
                     "-DCMAKE_CXX_FLAGS=" + cflags, "-DCMAKE_C_FLAGS=" + cflags,
                     "-DCMAKE_EXE_LINKER_FLAGS=-fuse-ld=lld " + ldflags,
                     "-DDREDD_CLANG_LLVM_DIR=" + LLVM_DIR,
                     "-DDREDD_BUILD_TESTING=OFF",
                     "-DCMAKE_PROJECT_dredd_INCLUDE=" + os.path.join(VERIF, "vlib/deps.cmake"),
                     "-DDREDD_WARNINGS_AS_ERRORS=OFF"], env=env, timeout=300, fsize_mb=None)
            if r.rc != 0:
                raise HarnessError("cmake failed:\n" + (r.out + r.err).decode("utf8", "replace")[-3000:])
        r = run(["ninja", "-C", bdir, "dredd"], env=env, timeout=800, fsize_mb=None)
        if r.rc != 0 or not os.path.exists(exe):
            raise HarnessError("build of /repo failed:\n" + (r.out + r.err).decode("utf8", "replace")[-4000:])
        with open(stamp, "w") as f:
            f.write(key)
        return exe
    finally:
        fcntl.flock(lock, fcntl.LOCK_UN)
        lock.close()


# ---------------------------------------------------------------- verdicts

class Check:
    """Collects observations, violations and inconclusive cases of one property."""

    def __init__(self, prop, level="exploration"):
        self.prop = prop
        self.level = level
        self.t0 = time.time()
        self.violations = []      # (key, description, files)
        self.known_hit = {}
        self.counts = {}
        self.samples = []
        self.inconclusive = {}
        self.distinct = set()
        self.evaluations = 0
        self.lock = threading.Lock()
        self.assumptions = []
        self.known = load_known(prop)
        self.rng = random.Random("%s/%d" % (prop, SEED))

    def count(self, name, n=1):
        with self.lock:
            self.counts[name] = self.counts.get(name, 0) + n

    def evaluate(self, n=1, distinct=None):
        with self.lock:
            self.evaluations += n
            if distinct is not None:
                self.distinct.add(distinct)

    def skip(self, why, n=1):
        with self.lock:
            self.inconclusive[why] = self.inconclusive.get(why, 0) + n

    def sample(self, s, limit=12):
        with self.lock:
            if len(self.samples) < limit:
                self.samples.append(s)

    def violation(self, key, desc, files=None):
        """key identifies the failing input / site; known findings are matched on it."""
        with self.lock:
            for k in self.known:
                if k["match"] == key or (k.get("prefix") and key.startswith(k["match"])):
                    self.known_hit.setdefault(k["match"], (k, desc))
                    return
            self.violations.append((key, desc, files or {}))

    def unusable(self, name, why, files=None):
        """The original compiles and runs, yet no instrumented program comes of it: the property fails for it."""
        self.violation("%s/unusable" % name, "%s: no instrumented program to run: %s" % (name, why), files)

    def finish(self, rule, min_eval=1, extra=None):
        ev_dir = os.path.join(VERIF, "evidence")
        os.makedirs(ev_dir, exist_ok=True)
        for k, (entry, desc) in sorted(self.known_hit.items()):
            print("KNOWN-FINDING: property=%s %s" % (self.prop, entry["what"]))
        cov = {"evaluations": self.evaluations, "distinct_nontrivial": len(self.distinct),
               "rule": rule, "samples": self.samples or ["(none)"],
               "observed": dict(sorted(self.counts.items())),
               "inconclusive": dict(sorted(self.inconclusive.items()))}
        if extra:
            cov.update(extra)
        n = 0
        if self.violations:
            rdir = os.path.join(ev_dir, "replay", self.prop)
            shutil.rmtree(rdir, ignore_errors=True)
            for key, desc, files in self.violations:
                n += 1
                if n > 8:
                    continue
                d = os.path.join(rdir, "%02d" % n)
                os.makedirs(d, exist_ok=True)
                with open(os.path.join(d, "README.txt"), "w") as f:
                    f.write("property: %s\nkey: %s\nseed: %d tier: %s\n\n%s\n" % (self.prop, key, SEED, TIER, desc))
                for name, content in files.items():
                    fp = os.path.join(d, name.replace("/", "_"))
                    with open(fp, "wb") as f:
                        f.write(content if isinstance(content, bytes) else str(content).encode())
                print("violation [%s] %s" % (key, desc.strip().split("\n")[0][:400]))
                print("VIOLATION property=%s replay=%s" % (self.prop, d))
        nothing = self.evaluations < min_eval or not self.distinct
        ev = {"property": self.prop, "tier": TIER if TIER in ("quick", "thorough") else "quick",
              "seed": SEED, "level": self.level, "coverage": cov,
              "assumptions": self.assumptions, "wall_s": round(time.time() - self.t0, 2),
              "violations": len(self.violations)}
        tmp = os.path.join(ev_dir, self.prop + ".json.tmp")
        with open(tmp, "w") as f:
            json.dump(ev, f, indent=1, default=str)
        os.replace(tmp, os.path.join(ev_dir, self.prop + ".json"))
        print("%s %s: %d evaluations, %d distinct, %d violations, inconclusive=%s, %.1fs" % (
            self.prop, TIER, self.evaluations, len(self.distinct), len(self.violations),
            sum(self.inconclusive.values()), time.time() - self.t0))
        if self.violations:
            return 1
        if nothing:
            print("error: the monitors observed too little (%d evaluations)" % self.evaluations)
            return 2
        return 0


def load_known(prop):
    path = os.path.join(VERIF, "known_findings.json")
    try:
        with open(path) as f:
            data = json.load(f)
    except FileNotFoundError:
        return []
    return [k for k in data.get("findings", []) if k["property"] == prop and k.get("status", "known") == "known"]


def text(b, n=2000):
    if isinstance(b, bytes):
        b = b.decode("utf8", "replace")
    return b if len(b) <= n else b[:n // 2] + "\n...\n" + b[-n // 2:]


def guarded(main):
    try:
        return main()
    except HarnessError as e:
        print("harness error: %s" % e)
        return 2
