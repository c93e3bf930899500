"""Running dredd, reading its report, and splicing source text."""
import json
import os
import bisect

from . import core
from .core import run, CC, CXX

SUP = os.path.join(core.VERIF, "support")


class DreddRun:
    def __init__(self):
        self.rc = None
        self.err = b""
        self.info = None          # raw JSON
        self.files = {}           # name -> bytes after
        self.muts = []            # flattened mutants
        self.dir = None


class Src:
    """Bytes of a source file with line/column -> offset conversion."""
    strict = False      # whether columns past the end of their line are refused

    def __init__(self, data):
        self.data = data
        self.starts = [0]
        i = data.find(b"\n")
        while i >= 0:
            self.starts.append(i + 1)
            i = data.find(b"\n", i + 1)

    def off(self, lc):
        line, col = lc["line"], lc["column"]
        if line < 1 or line > len(self.starts) or col < 1:
            raise ValueError("position %r outside the file" % (lc,))
        o = self.starts[line - 1] + col - 1
        if o > len(self.data) or (self.strict and line < len(self.starts) and o >= self.starts[line]):
            raise ValueError("position %r outside the file or its line" % (lc,))
        return o

    def line(self, off):
        return bisect.bisect_right(self.starts, off)


class Mut:
    """One mutant of the report."""
    __slots__ = ("id", "file", "kind", "action", "range", "lhs", "rhs", "operand", "operator",
                 "node", "gid", "snippet", "snips")

    def key(self):
        return (self.file, self.kind, self.range, self.lhs, self.rhs, self.operand, self.operator, self.action)

    def __repr__(self):
        return "<%d %s %s %s %s>" % (self.id, self.kind, self.action, self.range, self.operator)


def _rng(src, m, a, b):
    return (src.off(m[a]), src.off(m[b]))


def flatten(info, sources):
    """List of Mut from the JSON; sources: basename or absolute name -> Src."""
    muts = []
    gid = 0
    for f in info.get("infoForFiles", []):
        name = f["filename"]
        src = sources[name] if name in sources else sources[os.path.basename(name)]
        for ni, node in enumerate(f["mutationTree"]):
            for g in node.get("mutationGroups", []):
                kinds = list(g)
                k = kinds[0]
                m = g[k]
                gid += 1
                base = dict(file=os.path.basename(name), node=ni, gid=gid, lhs=None, rhs=None, operand=None,
                            operator=None, action=None, snips={})
                if k == "removeStmt":
                    base.update(kind="remove", action="RemoveStmt", range=_rng(src, m, "start", "end"),
                                snips={"snippet": m["snippet"]})
                    insts = [{"mutationId": m.get("mutationId", 0), "action": "RemoveStmt"}]
                elif k == "replaceExpr":
                    base.update(kind="expr", range=_rng(src, m, "start", "end"), snips={"snippet": m["snippet"]})
                    insts = m.get("instances", [])
                elif k == "replaceUnaryOperator":
                    base.update(kind="unary", range=_rng(src, m, "exprStart", "exprEnd"),
                                operand=_rng(src, m, "operandStart", "operandEnd"), operator=m["operator"],
                                snips={"exprSnippet": m["exprSnippet"], "operandSnippet": m["operandSnippet"]})
                    insts = m.get("instances", [])
                elif k == "replaceBinaryOperator":
                    base.update(kind="binary", range=_rng(src, m, "exprStart", "exprEnd"),
                                lhs=_rng(src, m, "lhsStart", "lhsEnd"), rhs=_rng(src, m, "rhsStart", "rhsEnd"),
                                operator=m["operator"],
                                snips={x: m[x] for x in ("exprSnippet", "lhsSnippet", "rhsSnippet")})
                    insts = m.get("instances", [])
                else:
                    raise ValueError("unknown mutation group " + k)
                for ins in insts:
                    x = Mut()
                    for a, v in base.items():
                        setattr(x, a, v)
                    x.snippet = None
                    x.id = ins["mutationId"]
                    x.action = ins["action"]
                    muts.append(x)
    return muts


def comp_of(name):
    return CC if name.endswith(".c") else CXX


def std_of(name):
    return "-std=c17" if name.endswith(".c") else "-std=c++17"


def dredd(exe, files, opts=(), flags=(), info=True, d=None, env=None, extra_files=None, order=None, timeout=120, sources=None):
    """Runs dredd on copies of files ({name: bytes}) in a fresh directory."""
    d = d or core.scratch("m")
    for n, t in list(files.items()) + list((extra_files or {}).items()):
        p = os.path.join(d, n)
        os.makedirs(os.path.dirname(p), exist_ok=True)
        with open(p, "wb") as f:
            f.write(t if isinstance(t, bytes) else t.encode())
    names = order or list(files)
    cmd = [exe] + list(opts)
    ij = os.path.join(d, "info.json")
    if info:
        cmd += ["--mutation-info-file", ij]
    cmd += [os.path.join(d, n) for n in names] + ["--"] + list(flags)
    r = run(cmd, cwd=d, timeout=timeout, env=env)
    o = DreddRun()
    o.rc, o.err, o.dir, o.out, o.timeout = r.rc, r.err, d, r.out, r.timeout
    for n in list(files) + list(extra_files or {}):
        with open(os.path.join(d, n), "rb") as f:
            o.files[n] = f.read()
    if info and os.path.exists(ij):
        with open(ij, "rb") as f:
            raw = f.read()
        o.raw = raw
        try:
            o.info = json.loads(raw.decode("utf8"))
        except ValueError as e:
            o.info = None
            o.info_error = str(e)
    return o


def sources_of(files):
    return {n: Src(t if isinstance(t, bytes) else t.encode()) for n, t in files.items()}


def splice(data, edits):
    """edits: list of (start, end, replacement bytes); must not overlap."""
    out = []
    pos = 0
    for s, e, t in sorted(edits, key=lambda x: (x[0], x[1])):
        if s < pos:
            raise ValueError("overlapping edits")
        out.append(data[pos:s])
        out.append(t if isinstance(t, bytes) else t.encode())
        pos = e
    out.append(data[pos:])
    return b"".join(out)


_sup_lock = __import__("threading").Lock()
_sup = {}


def support_obj(flags=()):
    """support.c compiled with the given flags."""
    k = tuple(flags)
    with _sup_lock:
        if k not in _sup:
            o = os.path.join(core.scratch("sup"), "support.o")
            r = run([CC, "-O1", "-w", *flags, "-c", os.path.join(SUP, "support.c"), "-o", o])
            if r.rc:
                raise core.HarnessError("support.c: " + r.err.decode())
            _sup[k] = o
        return _sup[k]


def build(d, names, out, flags=(), sup=True, supflags=(), link=()):
    """Compiles and links names (in d). Returns Res."""
    objs = []
    allc = all(n.endswith(".c") for n in names)
    first = None
    for n in names:
        o = os.path.join(d, n.replace("/", "_") + "." + os.path.basename(out) + ".o")
        r = run([comp_of(n), "-w", *flags_for(n, flags), "-I", SUP, "-c", os.path.join(d, n), "-o", o], timeout=180)
        if r.rc:
            return r
        objs.append(o)
    r = run([CC if allc else CXX, "-fuse-ld=lld", *[f for f in flags if f.startswith("-fsanitize") or f.startswith("-fno-sanitize") or f == "-pthread"],
             *objs, *([support_obj(supflags)] if sup else []), "-o", out, *link], timeout=120)
    return r


def flags_for(name, flags):
    """Drops nothing, but adds the default standard unless one is given."""
    if any(f.startswith("-std=") for f in flags):
        return list(flags)
    return [std_of(name)] + list(flags)


def execute(exe, env=None, cpu=4, timeout=30, args=(), cwd=None):
    env = dict(env or {})
    # what fresh memory holds must not depend on chance
    env.setdefault("MALLOC_PERTURB_", "165")
    env.setdefault("GLIBC_TUNABLES", "glibc.malloc.tcache_count=0")
    return run([exe, *args], env=env, cpu=cpu, timeout=timeout, cwd=cwd, fsize_mb=64)
