"""C15: dredd itself never crashes or misbehaves on any source file."""
import sys, os, random, shutil, json
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vlib import core, dr, work, fuzzsrc
from vlib.core import run

MODES = [(), ("--no-mutation-opts",), ("--only-track-mutant-coverage",), ("--dump-asts",), ("--show-ast-node-types",), ("--only-track-mutant-coverage", "--show-ast-node-types", "--no-mutation-opts")]
ENV = {"ASAN_OPTIONS": "detect_leaks=0:abort_on_error=0:exitcode=99:detect_stack_use_after_return=1:allocator_may_return_null=1", "UBSAN_OPTIONS": "halt_on_error=1:exitcode=98:print_stacktrace=1"}
MARKS = (b"AddressSanitizer", b"runtime error:", b"Assertion", b"LLVM ERROR", b"PLEASE submit", b"Stack dump", b"UndefinedBehaviorSanitizer", b"terminate called")


def main():
    chk = core.Check("C15")
    exe = core.build_dredd("asan")
    T = core.THOROUGH
    CSTD, CXXSTD = "-std=gnu2x", "-std=gnu++20"

    seeds = {"c": [], "cc": []}
    for n, fl, t in work.cases() + work.repo_inputs() + work.findings("C02"):
        seeds["c" if n.endswith(".c") else "cc"].append((n, t))
    for p in work.corpus():
        for n, t in p.files.items():
            seeds["c" if n.endswith(".c") else "cc"].append((n, t))
    gens = work.generated(20 if T else 3, size=0.6)
    for p in gens:
        for n, t in p.files.items():
            seeds["c" if n.endswith(".c") else "cc"].append((p.name, t))

    # ---- files
    files = {"c": [], "cc": []}       # (label, bytes)
    for ext in files:
        for n, t in seeds[ext]:
            files[ext].append(("seed " + n, t))
        for i, t in enumerate(fuzzsrc.wide("c" if ext == "c" else "cpp")):
            files[ext].append(("constant %d" % i, t))
        rng = random.Random("C15/%d/%s" % (core.SEED, ext))
        small = [(n, t) for n, t in seeds[ext] if len(t) < 6000]
        pool = [t for _, t in small]
        for i in range(40000 if T else 1000):
            n, t = rng.choice(small)
            files[ext].append(("mutated %d %s" % (i, n), fuzzsrc.mutate(rng, t, pool)))

    jobs = []
    for ext in files:
        rng = random.Random("C15/modes/%d/%s" % (core.SEED, ext))
        fs = files[ext]
        for k in range(0, len(fs), 24):
            part = fs[k:k + 24]
            modes = [rng.choice(MODES[:3])]
            if not part[0][0].startswith("mutated"):
                modes = MODES
            elif rng.random() < 0.1:
                modes.append(rng.choice(MODES[3:]))
            for m in modes:
                jobs.append((ext, m, part))

    def accepts(path, flags):
        """What the compiler itself says: True, False, or None if it gives no answer."""
        r = run([dr.comp_of(path), "-fsyntax-only", "-w", *flags, path], timeout=60, cpu=50, mem_mb=6000)
        if r.timeout or r.rc < 0 or any(m in r.err for m in (b"PLEASE submit", b"Stack dump", b"LLVM ERROR")) or r.rc not in (0, 1):
            return None
        return r.rc == 0

    def dredd(ps, mode, flags, d):
        return run([exe, *mode, "--mutation-info-file", os.path.join(d, "i.json"), *ps, "--", *flags], env=ENV, timeout=60 + 10 * len(ps), cpu=50 + 5 * len(ps), cwd=d)

    def sick(r):
        if r.timeout:
            return "does not end"
        if r.rc < 0 or r.rc in (98, 99) or r.rc > 2:
            return "ends with status %s" % r.rc
        for m in MARKS[:1] + MARKS[2:]:
            if m in r.err:
                return "reports " + m.decode()
        return None

    def one(job):
        ext, mode, part = job
        d = core.scratch("f")
        flags = [CSTD if ext == "c" else CXXSTD, "-w", "-I" + dr.SUP]
        ps = []
        for i, (n, t) in enumerate(part):
            p = os.path.join(d, "f%d.%s" % (i, ext))
            with open(p, "wb") as f:
                f.write(t)
            ps.append(p)
        verdicts = {p: accepts(p, flags) for p in ps}
        use = [p for p in ps if verdicts[p] is not None]
        src = {p: t for p, (n, t) in zip(ps, part)}
        label = {p: n for p, (n, t) in zip(ps, part)}
        bad = []
        seen = {"accepted": 0, "rejected": 0, "rewritten": 0, "no answer from the compiler": len(ps) - len(use)}

        def judge(ps2, alone):
            """Problems of one command on these files."""
            for p in ps2:
                with open(p, "wb") as f:
                    f.write(src[p])
            r = dredd(ps2, mode, flags, d)
            out = []
            s = sick(r)
            if s:
                out.append((s, ps2, core.text(r.err[-3000:], 3000)))
                return out, r
            broken = [p for p in ps2 if not verdicts[p]]
            if broken and r.rc == 0:
                out.append(("exit status 0 for a file that does not compile", broken, ""))
            if not broken and r.rc != 0:
                out.append(("exit status %d for files that compile" % r.rc, ps2, core.text(r.err[-1500:], 1500)))
            for p in broken:
                with open(p, "rb") as f:
                    if f.read() != src[p]:
                        out.append(("a file that does not compile is changed", [p], ""))
            return out, r
        todo = [use]
        while todo:
            ps2 = todo.pop()
            if not ps2:
                continue
            out, r = judge(ps2, len(ps2) == 1)
            if out and len(ps2) > 1:
                h = len(ps2) // 2
                todo += [ps2[:h], ps2[h:]]
                continue
            for what, who, detail in out:
                bad.append((what, label[who[0]], src[who[0]], detail))
            if not out:
                for p in ps2:
                    seen["accepted" if verdicts[p] else "rejected"] += 1
                    with open(p, "rb") as f:
                        seen["rewritten"] += f.read() != src[p]
        shutil.rmtree(d, ignore_errors=True)
        return (job, bad, seen)

    for (ext, mode, part), bad, seen in core.pmap(one, jobs):
        n = seen["accepted"] + seen["rejected"]
        chk.evaluate(n)
        for i in range(seen["rewritten"]):
            chk.evaluate(0, (ext, mode, part[0][0], i))
        chk.count("files dredd accepted under ASan+UBSan", seen["accepted"])
        chk.count("files rewritten", seen["rewritten"])
        chk.count("files that do not compile, left alone", seen["rejected"])
        if seen["no answer from the compiler"]:
            chk.skip("the compiler itself crashes or does not end", seen["no answer from the compiler"])
        if part[0][0].startswith("mutated") and seen["rewritten"]:
            chk.sample({"mode": " ".join(mode), "file": part[0][0], "start": part[0][1][:120].decode("utf8", "replace")})
        for what, n, t, detail in bad:
            chk.violation("%s/%s/%s" % (n, " ".join(mode), what), "dredd %s on %s (%s): %s\n%s" % (" ".join(mode), n, ext, what, detail), {"input." + ext: t})
    return chk.finish("one evaluation = one source file given to dredd built with ASan, UBSan and assertions: it ends by itself, and leaves the file alone if the compiler rejects it; distinct = files it rewrote", min_eval=500)


if __name__ == "__main__":
    sys.exit(core.guarded(main))
