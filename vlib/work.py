"""Workload: generated and handwritten programs with a validated baseline."""
import glob
import os
import re

from . import core, dr, gen
from .core import run, CC, CXX

SAN = ["-fsanitize=address,undefined,float-cast-overflow", "-fno-sanitize=vptr,function", "-fno-sanitize-recover=all"]
BASE = ["-fwrapv", "-O0"]
SAN_ENV = {"ASAN_OPTIONS": "detect_leaks=1:abort_on_error=0:exitcode=99:detect_stack_use_after_return=1",
           "UBSAN_OPTIONS": "halt_on_error=1:exitcode=98:print_stacktrace=0"}


class Prog:
    def __init__(self, name, files, flags=(), inputs=(1, 2), tags=(), order=None):
        self.name = name
        self.files = {n: (t if isinstance(t, bytes) else t.encode()) for n, t in files.items()}
        self.flags = list(flags)
        self.inputs = inputs
        self.tags = set(tags)
        self.base = None
        self.order = order or list(self.files)

    @property
    def cpp(self):
        return any(not n.endswith(".c") for n in self.files)

    def write(self, d):
        for n, t in self.files.items():
            p = os.path.join(d, n)
            os.makedirs(os.path.dirname(p), exist_ok=True)
            with open(p, "wb") as f:
                f.write(t)


def prepare(p, san=True):
    """Compiles and runs the original. Returns None if it cannot serve as workload."""
    d = core.scratch("o")
    p.write(d)
    if san:
        r = dr.build(d, p.order, os.path.join(d, "san"), BASE + SAN + p.flags, supflags=())
        if r.rc:
            return "does not compile"
        for i in p.inputs:
            x = dr.execute(os.path.join(d, "san"), env=SAN_ENV, args=[str(i)], cwd=d, cpu=20, timeout=60)
            if x.rc not in (0, 77) or x.timeout:
                return "not clean under sanitizers"
    r = dr.build(d, p.order, os.path.join(d, "a"), BASE + p.flags)
    if r.rc:
        return "does not compile"
    p.exe = os.path.join(d, "a")
    p.dir = d
    p.base = {}
    for i in p.inputs:
        x = dr.execute(p.exe, args=[str(i)], cwd=d)
        if x.rc != 0 or x.timeout or not x.out.endswith(b"END\n"):
            return "does not run to its end"
        p.base[i] = x.key()
    return None


def generated(n, langs=("c", "cpp"), nfiles=1, size=1.0, start=0, seed=None, exotic=True, inputs=(1, 2)):
    seed = core.SEED if seed is None else seed
    out = []
    for i in range(n):
        for lang in langs:
            s = "%d/%d" % (seed, start + i)
            out.append(Prog("gen:%s:%d:%s" % (lang, nfiles, s), gen.program(s, lang, nfiles, size, exotic), inputs=inputs, tags=("gen",)))
    return out


def matrices(full=None):
    """Programs that enumerate operators over types and operand shapes."""
    full = core.THOROUGH if full is None else full
    out = []
    for lang in ("c", "cpp"):
        for name, files in gen.matrix(lang, core.SEED, full):
            out.append(Prog("matrix:%s:%s" % (lang, name), files, inputs=(1,), tags=("matrix",)))
    return out


def corpus(sub=None, tag=None):
    """Handwritten programs. A directory is one program of several files."""
    out = []
    root = os.path.join(core.VERIF, "corpus")
    for p in sorted(glob.glob(os.path.join(root, "*"))):
        b = os.path.basename(p)
        if os.path.isdir(p):
            files = {os.path.basename(q): open(q, "rb").read() for q in sorted(glob.glob(p + "/*.c") + glob.glob(p + "/*.cc"))}
            files = {k: files[k] for k in files}
        elif p.endswith((".c", ".cc")):
            files = {b: open(p, "rb").read()}
        else:
            continue
        head = b"\n".join(t[:600] for t in files.values()).decode("utf8", "replace")
        m = re.search(r"//\s*flags:\s*(.*)", head)
        flags = m.group(1).split() if m else []
        m = re.search(r"//\s*tags:\s*(.*)", head)
        tags = set(m.group(1).split()) if m else set()
        if sub and not b.startswith(sub):
            continue
        if tag and tag not in tags:
            continue
        out.append(Prog("corpus:" + b, files, flags, tags=tags | {"corpus"}))
    return out


def ready(check, progs):
    """Prepares programs in parallel; returns those fit to serve, counting the rest."""
    res = core.pmap(prepare, progs)
    ok = []
    for p, r in zip(progs, res):
        if r is None:
            ok.append(p)
        else:
            if check:
                check.skip("workload: " + r)
            if "corpus" in p.tags:
                raise core.HarnessError("corpus program %s: %s" % (p.name, r))
    if check:
        check.count("programs", len(ok))
    return ok


def mutate(exe, p, opts=(), d=None):
    o = dr.dredd(exe, p.files, opts=opts, flags=[f for f in dr_flags(p)], d=d, order=p.order)
    return o


def dr_flags(p):
    fl = list(p.flags) + ["-fwrapv", "-I" + dr.SUP]
    if not any(f.startswith("-std=") for f in fl):
        fl.append("-std=c++17" if p.cpp else "-std=c17")
    return fl


def _cases(path):
    out, cur = [], None
    with open(path, "rb") as f:
        for l in f.read().splitlines(keepends=True):
            m = re.match(rb"^//// (\S+)\s*(.*)$", l.rstrip(b"\n"))
            if m:
                cur = [m.group(1).decode(), m.group(2).decode().split(), b""]
                out.append(cur)
            elif cur:
                cur[2] += l
    return [tuple(c) for c in out]


def cases():
    """Small single-file programs: (name, flags, bytes)."""
    out = []
    for p in sorted(glob.glob(os.path.join(core.VERIF, "cases", "*.txt"))):
        out += _cases(p)
    return out


def findings(prop):
    """Inputs on which known findings show: (name, flags, bytes)."""
    p = os.path.join(core.VERIF, "findings", prop.lower() + ".txt")
    return _cases(p) if os.path.exists(p) else []


def repo_inputs():
    """The repository's own single-file test inputs, as workload: (name, flags, bytes)."""
    out = []
    for p in sorted(glob.glob(os.path.join(core.REPO, "test/single_file", "*"))):
        if p.endswith((".c", ".cc")):
            with open(p, "rb") as f:
                out.append(("repo_" + os.path.basename(p), ["-std=c++20"] if p.endswith(".cc") else [], f.read()))
    return out
