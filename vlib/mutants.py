"""Observing mutants: the instrumented program with ids enabled against reference
programs in which the documented change was made to the original source."""
import os
import re

from . import core, dr, work, astj, ref

REF_FLAGS = ["-fstrict-flex-arrays=3", "-fwrapv", "-O0", "-ftrivial-auto-var-init=zero", "-fsanitize=undefined,float-cast-overflow", "-fno-sanitize=vptr,function,object-size,alignment,null",
             "-fsanitize-trap=all", "-Wno-everything", "-Werror=return-type", "-Werror=unsequenced", "-Wno-c++11-narrowing"]
MUT_FLAGS = ["-fwrapv", "-O0", "-ftrivial-auto-var-init=zero"]


class Bench:
    """A program, its instrumented build, and its references."""

    def __init__(self, p, exe, opts=()):
        self.p = p
        self.opts = tuple(opts)
        self.o = work.mutate(exe, p, opts)
        self.src = dr.sources_of(p.files)
        self.ok = self.o.rc == 0 and self.o.info is not None
        self.muts = []
        self.refs = {}
        if self.ok:
            self.muts = dr.flatten(self.o.info, self.src)

    def build(self):
        self.bin = os.path.join(self.o.dir, "mut")
        r = dr.build(self.o.dir, self.p.order, self.bin, MUT_FLAGS + self.p.flags)
        return r

    def asts(self):
        for n in self.p.order:
            a = astj.Ast(os.path.join(self.p.dir, n), ["-fwrapv"] + self.p.flags)
            self.refs[n] = ref.Refs(a, [m for m in self.muts if m.file == n])

    def run(self, ids, i):
        return dr.execute(self.bin, env={"DREDD_ENABLED_MUTATION": ",".join(map(str, ids))}, args=[str(i)], cwd=self.o.dir, cpu=2, timeout=20)

    def reference(self, edits_by_file, extra=()):
        """Compiles the original with edits; returns exe or None."""
        d = core.scratch("r")
        objs = []
        import shutil
        try:
            for n in self.p.order:
                data = self.p.files[n]
                if n in edits_by_file:
                    data = dr.splice(data, edits_by_file[n])
                with open(os.path.join(d, n), "wb") as f:
                    f.write(data)
            exe = os.path.join(d, "ref")
            r = build_ref(d, self.p.order, exe, REF_FLAGS + list(extra) + self.p.flags)
            if r.rc:
                return None, r.err, d
            return exe, b"", d
        except Exception:
            shutil.rmtree(d, ignore_errors=True)
            raise


def build_ref(d, names, out, flags):
    allc = all(n.endswith(".c") for n in names)
    if len(names) == 1:
        n = names[0]
        return core.run([dr.comp_of(n), *dr.flags_for(n, flags), "-I", dr.SUP, os.path.join(d, n), dr.support_obj(),
                         "-fuse-ld=lld", "-o", out], timeout=120)
    objs = []
    for n in names:
        o = os.path.join(d, n + ".o")
        r = core.run([dr.comp_of(n), *dr.flags_for(n, flags), "-I", dr.SUP, "-c", os.path.join(d, n), "-o", o], timeout=120)
        if r.rc:
            return r
        objs.append(o)
    return core.run([core.CC if allc else core.CXX, "-fuse-ld=lld", *[f for f in flags if f.startswith(("-fsanitize", "-fno-sanitize"))], *objs, dr.support_obj(), "-o", out])


def compare(bench, ids, alts_by_mut, inputs, chk=None):
    """Runs mutants ids together. alts: list of edits-by-file dictionaries, any of which
    may explain the run. Returns ('same'|'diff'|'inconclusive', detail, killed)."""
    import shutil
    got = {}
    for i in inputs:
        x = bench.run(ids, i)
        got[i] = x
    killed = any(got[i].key() != bench.p.base[i] for i in inputs)
    detail = ""
    reasons = []
    for alt in alts_by_mut:
        exe, err, d = bench.reference(alt)
        try:
            if exe is None:
                reasons.append("reference does not compile")
                detail += core.text(err, 600)
                continue
            verdict = "same"
            for i in inputs:
                g = got[i]
                r = dr.execute(exe, args=[str(i)], cwd=d, cpu=2, timeout=20)
                if r.timeout:
                    verdict = "inconclusive: reference does not end"
                    break
                if r.rc < 0 or r.rc not in (0, 77):
                    verdict = "inconclusive: reference has undefined behaviour or crashes"
                    break
                if g.timeout:
                    verdict = "diff"
                    detail += "input %s: mutant does not end, reference rc=%d\n" % (i, r.rc)
                    break
                if g.key() != r.key():
                    verdict = "diff"
                    detail += "input %s: mutant rc=%s reference rc=%s\n%s\n" % (i, g.rc, r.rc, first_diff(g.out, r.out))
                    break
            if verdict == "same":
                return "same", "", killed
            if verdict == "diff" and unstable(bench, alt, exe, inputs):
                verdict = "inconclusive: reference reads uninitialised memory"
            if verdict == "diff" and unsafe(bench, alt, inputs):
                verdict = "inconclusive: reference has memory errors"
            reasons.append(verdict)
        finally:
            shutil.rmtree(d, ignore_errors=True)
    for r in reasons:
        if r.startswith("inconclusive"):
            return "inconclusive", r[14:], killed
    if all(r != "diff" for r in reasons):
        return "inconclusive", reasons[0] if reasons else "no reference", killed
    return "diff", detail, killed


def unstable(bench, alt, exe, inputs):
    """Whether the reference's behaviour depends on the contents of uninitialised memory."""
    import shutil
    exe2, _, d2 = bench.reference(alt, ["-ftrivial-auto-var-init=pattern"])
    try:
        if exe2 is None:
            return False
        for i in inputs:
            a = dr.execute(exe, args=[str(i)], cpu=2, timeout=20)
            b = dr.execute(exe2, args=[str(i)], cpu=2, timeout=20, env={"MALLOC_PERTURB_": "17"})
            if a.key() != b.key():
                return True
        return False
    finally:
        shutil.rmtree(d2, ignore_errors=True)


def unsafe(bench, alt, inputs):
    """Whether the reference itself has memory errors."""
    import shutil
    exe, _, d = bench.reference(alt, ["-fsanitize=address", "-fno-sanitize-trap=address"])
    try:
        if exe is None:
            return False
        for i in inputs:
            a = dr.execute(exe, args=[str(i)], cpu=10, timeout=60, env=work.SAN_ENV)
            if a.rc not in (0, 77):
                return True
        return False
    finally:
        shutil.rmtree(d, ignore_errors=True)


def const_init(bench, m):
    """Whether the mutant lies in the initialiser of a C++ constant of integral type: uses of it that
    must be compile-time constants keep the original value."""
    if not bench.p.cpp:
        return False
    a = bench.refs[m.file].ast
    for n in a.nodes:
        if n.kind == "VarDecl" and n.main and n.b is not None and n.b <= m.range[0] and m.range[1] <= n.e and "const" in n.quals and n.type in astj.ARITH:
            return True
    return False


def first_diff(a, b):
    al, bl = a.split(b"\n"), b.split(b"\n")
    for i, (x, y) in enumerate(zip(al, bl)):
        if x != y:
            return "line %d: mutant %r reference %r (before: %r)" % (i + 1, x, y, al[max(0, i - 2):i])
    return "lengths %d %d: mutant tail %r reference tail %r" % (len(al), len(bl), al[-3:], bl[-3:])


INCDEC = {"InsertPreInc", "InsertPreDec", "ReplaceWithPreInc", "ReplaceWithPreDec", "ReplaceWithPostInc", "ReplaceWithPostDec"}


def statement_text(src, rng):
    """Text of the smallest piece of source between ; { } around the range."""
    d = src.data
    s = rng[0]
    while s > 0 and d[s - 1:s] not in (b";", b"{", b"}"):
        s -= 1
    e = rng[1]
    while e < len(d) and d[e:e + 1] not in (b";", b"{", b"}"):
        e += 1
    return d[s:e]


def unsequenced_risk(bench, m):
    """An inserted side effect on an operand that the same full expression also uses elsewhere."""
    src = bench.src[m.file]
    if m.kind == "remove":
        return False
    lv = None
    if m.action in INCDEC:
        lv = m.operand or m.range
    elif m.kind == "binary" and m.action.endswith("Assign"):
        lv = m.lhs
    if lv is None:
        return False
    t = src.data[lv[0]:lv[1]].strip().strip(b"()").strip()
    full = statement_text(src, m.range)
    names = re.findall(rb"[A-Za-z_]\w*", t)
    if not names:
        return True
    return len(re.findall(rb"\b" + re.escape(names[0]) + rb"\b", full)) > 1


def steady(b, ids, inp):
    """Whether the canonical list gives one behaviour whatever the size of the environment and the
    contents of fresh memory, and is clean under ASan and UBSan (the mutated program may well read
    memory it must not: then nothing can be said)."""
    seen = set()
    c = ",".join(map(str, sorted(ids)))
    for pad in (0, 1, 16, 100, 1000, 3000):
        for pert in ("165", "17"):
            x = dr.execute(b.bin, env={"DREDD_ENABLED_MUTATION": c, "PADDING": "x" * pad, "MALLOC_PERTURB_": pert}, args=[str(inp)], cwd=b.o.dir, cpu=2, timeout=20)
            seen.add(None if x.timeout else x.key())
    if len(seen) != 1:
        return False
    for extra in (["-fsanitize=address,undefined", "-fno-sanitize=vptr,function", "-fno-sanitize-recover=all"], ["-ftrivial-auto-var-init=pattern"]):
        e = os.path.join(b.o.dir, "st%d_%d" % (os.getpid(), core.unique()))
        if dr.build(b.o.dir, b.p.order, e, MUT_FLAGS + extra + b.p.flags).rc:
            return False
        x = dr.execute(e, env=dict(work.SAN_ENV, DREDD_ENABLED_MUTATION=c), args=[str(inp)], cwd=b.o.dir, cpu=20, timeout=60)
        os.remove(e)
        if x.timeout or x.key() not in seen:
            return False
    return True
