"""C03: instrumentation adds no memory error or undefined behaviour (ASan, LSan and UBSan as monitors)."""
import sys, os, random, re, shutil
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vlib import core, dr, work, mutants, ref, sized

SAN = ["-fwrapv", "-O0", "-fsanitize=address,undefined,float-cast-overflow", "-fno-sanitize=vptr,function", "-fno-sanitize-recover=all", "-fsanitize-address-use-after-return=always", "-gline-tables-only"]
MODES = [(), ("--no-mutation-opts",), ("--only-track-mutant-coverage",), ("--only-track-mutant-coverage", "--no-mutation-opts")]


def report_of(err):
    t = err.decode("utf8", "replace")
    m = re.search(r"(ERROR: \w+: .*|runtime error: .*)", t)
    return m.group(1)[:200] if m else None


def main():
    chk = core.Check("C03")
    exe = core.build_dredd()
    T = core.THOROUGH
    progs = work.corpus() + work.generated(60 if T else 5, size=0.8) + work.generated(20 if T else 2, nfiles=3, size=0.5) + (work.matrices() if T else [])
    progs = work.ready(chk, progs)
    sizes = sized.SIZES_ALL if T else [[1], [64], [65], [129], [65, 65], [3, 64, 1]]
    for lang in ("c", "cpp"):
        for s in sizes:
            p = sized.program(lang, s)
            if work.prepare(p, san=False) is None:
                progs.append(p)

    def one(a):
        p, opts = a
        b = mutants.Bench(p, exe, opts)
        if not b.ok:
            return (a, None, "dredd failed", None)
        b.bin = os.path.join(b.o.dir, "san")
        r = dr.build(b.o.dir, p.order, b.bin, SAN + p.flags, link=())
        if r.rc:
            return (a, None, "rewritten program does not build (see C02)", None)
        n = len(b.muts)
        track = opts and opts[0].startswith("--only")
        envs = [("nothing set", {}), ("foreign id enabled", {"DREDD_ENABLED_MUTATION": "%d,%d,9999999" % (n, n + 64)})] if not track else \
            [("no tracking file", {}), ("tracking file", {"DREDD_MUTANT_TRACKING_FILE": os.path.join(b.o.dir, "track")})]
        bad = []
        runs = 0
        for what, env in envs:
            if "strtok" in p.tags and env:
                continue
            for i in p.inputs:
                x = dr.execute(b.bin, env=dict(work.SAN_ENV, **env), args=[str(i)], cwd=b.o.dir, cpu=30, timeout=90)
                runs += 1
                rep = report_of(x.err)
                if rep:
                    bad.append("%s, input %s: %s" % (what, i, core.text(x.err, 1500)))
                elif x.rc in (98, 99) or x.rc < 0:
                    bad.append("%s, input %s: ended with %s %s" % (what, i, x.rc, core.text(x.err, 500)))
        return (a, b, bad, runs)

    live = []
    for (p, opts), b, bad, runs in core.pmap(one, [(p, o) for p in progs for o in MODES]):
        if b is None:
            chk.skip(bad)
            continue
        chk.evaluate(runs, (p.name, opts))
        chk.count("sanitized runs with no mutant enabled", runs)
        chk.sample({"program": p.name, "mode": list(opts), "mutants": len(b.muts)}, 6)
        if bad:
            chk.violation("%s/%s/dormant" % (p.name, ",".join(opts)), "%s %s: %s" % (p.name, opts, bad[0]),
                          dict(p.files, **{"mutated_" + k: t for k, t in b.o.files.items()}))
        elif not (opts and opts[0].startswith("--only")):
            live.append(b)

    # ---- mutants enabled: an error counts when the same change made to the source is clean
    jobs = []
    for b in live:
        rng = random.Random("C03/%d/%s/%s" % (core.SEED, b.p.name, b.opts))
        k = 200 if T else (40 if "gen" not in b.p.tags else 20)
        if "heavy" in b.p.tags:
            k = 60 if T else 12
        pick = rng.sample(b.muts, min(k, len(b.muts)))
        if "sized" in b.p.tags:
            pick = [b.muts[0], b.muts[-1]]
        jobs += [(b, [m]) for m in pick]
        for _ in range(20 if T else 3):
            jobs.append((b, rng.sample(b.muts, min(len(b.muts), rng.choice([2, 5, 30])))))
        for m in b.muts[-1:]:
            jobs.append((b, [m]))
    for b in live:
        b.lock = core.threading.Lock()

    def refs(b):
        with b.lock:
            if not b.refs:
                b.asts()

    def enabled(job):
        b, ms = job
        p = b.p
        i = p.inputs[0]
        x = dr.execute(b.bin, env=dict(work.SAN_ENV, DREDD_ENABLED_MUTATION=",".join(str(m.id) for m in ms)), args=[str(i)], cwd=b.o.dir, cpu=20, timeout=60)
        rep = report_of(x.err)
        if x.timeout:
            return (job, "timeout", None)
        if rep is None:
            return (job, "clean", None)
        # an error in the code dredd added, by its stack, needs no reference
        if len(ms) > 1:
            return (job, "a set of mutants has errors, its members are judged alone", None)
        m = ms[0]
        refs(b)
        try:
            alts = b.refs[m.file].alternatives(m)
        except ref.NoRef:
            return (job, "no reference", None)
        if mutants.unsequenced_risk(b, m):
            return (job, "unsequenced", None)
        clean = None
        for alt in alts:
            d = core.scratch("r")
            try:
                for n in p.order:
                    data = p.files[n]
                    if n == m.file:
                        data = dr.splice(data, alt)
                    with open(os.path.join(d, n), "wb") as f:
                        f.write(data)
                e = os.path.join(d, "ref")
                if dr.build(d, p.order, e, SAN + ["-Wno-everything"] + p.flags).rc:
                    continue
                y = dr.execute(e, env=work.SAN_ENV, args=[str(i)], cwd=d, cpu=20, timeout=60)
                if y.timeout or report_of(y.err) or y.rc not in (0, 77):
                    return (job, "the changed source has the error too", None)
                # may depend on what fresh memory holds
                y2 = dr.execute(e, env=dict(work.SAN_ENV, ASAN_OPTIONS=work.SAN_ENV["ASAN_OPTIONS"] + ":max_malloc_fill_size=4096:malloc_fill_byte=90"), args=[str(i)], cwd=d, cpu=20, timeout=60)
                if y2.key() != y.key():
                    return (job, "the changed source reads uninitialised memory", None)
                clean = True
            finally:
                shutil.rmtree(d, ignore_errors=True)
        if clean is None:
            return (job, "reference does not compile", None)
        return (job, "bad", core.text(x.err, 2500))

    for (b, ms), v, d in core.pmap(enabled, jobs):
        if v == "clean":
            chk.evaluate(1, (b.p.name, b.opts, ms[0].kind, ms[0].action))
            chk.count("sanitized runs with mutants enabled, no report")
        elif v == "the changed source has the error too":
            chk.evaluate(1)
            chk.count("sanitizer reports that the changed source gives too")
        elif v == "bad":
            chk.violation("%s/%s/%s" % (b.p.name, ",".join(b.opts), ms[0].key()), "%s %s mutant %s: error that the changed source does not have: %s" % (b.p.name, b.opts, ms[0], d),
                          dict(b.p.files, **{"mutated_" + k: t for k, t in b.o.files.items()}))
        else:
            chk.skip(v)
    return chk.finish("one evaluation = one run of an instrumented program under ASan, LSan and UBSan; distinct = program, mode and kind of mutant enabled", min_eval=100)


if __name__ == "__main__":
    sys.exit(core.guarded(main))
