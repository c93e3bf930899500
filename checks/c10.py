"""C10: instrumented programs are as thread-safe as the original."""
import sys, os, random, re, shutil
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vlib import core, dr, work, mutants, sized

TSAN = ["-fsanitize=thread"]
TENV = {"TSAN_OPTIONS": "halt_on_error=0:exitcode=66:report_signal_unsafe=0"}
MODES = [(), ("--no-mutation-opts",)]


def sup(flags, src="tsup.c"):
    key = ("tsup", src) + tuple(flags)
    with dr._sup_lock:
        if key not in dr._sup:
            o = os.path.join(core.scratch("sup"), "t.o")
            r = core.run([core.CC, "-O1", "-w", *flags, "-c", os.path.join(dr.SUP, src), "-o", o])
            if r.rc:
                raise core.HarnessError(r.err.decode())
            dr._sup[key] = o
        return dr._sup[key]


def build(d, names, out, flags, extra=(), objs=()):
    """objs: what is linked besides"""
    return dr.build(d, names, out, [*flags, "-pthread", *extra], sup=False, link=list(objs))


def split(out):
    """thread number -> its trace"""
    parts = re.split(rb"(?m)^T(\d+)\n", out)
    return {int(parts[i]): parts[i + 1] for i in range(1, len(parts), 2)}


def tracked(path):
    if not os.path.exists(path):
        return [], None
    t = open(path, "rb").read()
    ids = []
    for l in t.split(b"\n")[:-1] if t.endswith(b"\n") else t.split(b"\n"):
        if not re.fullmatch(rb"\d+", l):
            return [], "line %r is not an id" % l[:60]
        ids.append(int(l))
    if t and not t.endswith(b"\n"):
        return [], "the last line is not complete"
    return ids, None


def main():
    chk = core.Check("C10")
    exe = core.build_dredd()
    T = core.THOROUGH
    tdir = os.path.join(core.VERIF, "threads")

    # does TSan run here?
    d = core.scratch("probe")
    open(d + "/x.c", "w").write("int main(void) { return 0; }\n")
    core.run([core.CC, *TSAN, d + "/x.c", "-o", d + "/x"])
    tsan = core.run([d + "/x"], env=TENV).rc == 0
    if not tsan:
        chk.skip("ThreadSanitizer does not run in this environment")
    flagsets = [("tsan", TSAN + ["-O1", "-g1", "-fwrapv", "-ftrivial-auto-var-init=zero"])] if tsan else []
    flagsets.append(("plain", ["-O1", "-fwrapv", "-ftrivial-auto-var-init=zero"]))

    progs = []
    for lang in ("c", "cpp"):
        for s in ([[1], [65], [129, 64, 3], [300, 65], [1100, 70]] if not T else sized.SIZES_ALL):
            progs.append(sized.program(lang, s))
        n = "pure." + ("c" if lang == "c" else "cc")
        with open(os.path.join(tdir, n), "rb") as f:
            progs.append(work.Prog("threads:" + n, {n: f.read()}, inputs=(1,)))

    orders = set()

    def check(p, opts):
        """All observations of one program: list of (what, complaint), stats"""
        bad, st = [], {}

        def add(k, n=1):
            st[k] = st.get(k, 0) + n
        rng = random.Random("C10/%s/%s/%d" % (p.name, opts, core.SEED))
        m = work.mutate(exe, p, opts)
        t = work.mutate(exe, p, opts + ("--only-track-mutant-coverage",))
        if m.rc or m.info is None or t.rc or t.info is None:
            return None, "dredd failed"
        muts = dr.flatten(m.info, dr.sources_of(p.files))
        n = len(muts)
        ids = [x.id for x in muts]
        for fname, fl in flagsets:
            lim = dict(env=TENV, cpu=60, timeout=120)
            sob = sup(fl)
            o = core.scratch("o")
            p.write(o)
            if build(o, p.order, o + "/orig", fl, p.flags, [sob]).rc:
                return None, "original does not compile"
            x = core.run([o + "/orig", "jab", "4", "1"], cwd=o, **lim)
            if x.rc:
                return None, "original races or fails"
            one = split(x.out)[0]
            if any(v != one for v in split(x.out).values()):
                return None, "threads of the original differ"
            if build(m.dir, p.order, m.dir + "/mut" + fname, fl, p.flags, [sob]).rc or build(t.dir, p.order, t.dir + "/trk" + fname, fl, p.flags, [sob]).rc:
                return None, "rewritten program does not build (see C02)"

            def go(b, sc, th, seed, env=None, limit=None):
                return core.run([b, sc, str(th), str(seed)], cwd=m.dir, cpu=limit or 60, timeout=120, env=dict(TENV, **(env or {})))

            def judge(what, r, want, total):
                if r.timeout:
                    add("slow runs")
                    return
                if r.rc == 66 or b"WARNING: ThreadSanitizer" in r.err:
                    bad.append(("race", "%s %s: %s" % (fname, what, core.text(r.err, 1500))))
                    return
                if r.rc:
                    bad.append(("status", "%s %s: exit status %s %s" % (fname, what, r.rc, core.text(r.err, 300))))
                    return
                s = split(r.out)
                if len(s) != total:
                    bad.append(("threads", "%s %s: %d threads reported, %d expected" % (fname, what, len(s), total)))
                for k, v in s.items():
                    add("threads compared")
                    if v != want:
                        bad.append(("thread result", "%s %s: thread %d: %s" % (fname, what, k, mutants.first_diff(v, want))))
                        break

            SC = [("j", 0), ("ja", 2), ("jb", 1), ("jab", 2)]
            # dormant
            for k in range(3 if not T else 12):
                sc, more = SC[k % 4]
                th = rng.choice([2, 5, 8])
                judge("dormant, %d threads" % th, go(m.dir + "/mut" + fname, sc, th, rng.randint(1, 10 ** 6)), one, th + more)
                add("dormant runs")
            # enabled sets: what one thread alone does
            sets = [[i] for i in rng.sample(ids, min(n, 4 if not T else 30))] + [rng.sample(ids, rng.randint(1, n)) for _ in range(2 if not T else 10)] + [ids[-1:], ids[:1]]
            for k, s in enumerate(sets):
                env = {"DREDD_ENABLED_MUTATION": ",".join(map(str, s))}
                alone = go(m.dir + "/mut" + fname, "", 1, 1, env, limit=2)
                if alone.rc or alone.timeout:
                    add("mutants that fail or do not end alone")
                    continue
                want = split(alone.out)[0]
                if "sized" in p.tags:
                    ev = sized.events(p, muts)
                    if ev is not None and sized.expected(p, ev, s) != want:
                        bad.append(("one thread", "%s enabled %s: a single thread does not do what the set says" % (fname, s[:8])))
                        continue
                sc, more = SC[k % 4]
                if not p.cpp:
                    sc += "s"       # see the finding about strtok
                th = rng.choice([2, 5, 8])
                judge("enabled %s, %d threads, scenario %s" % (s[:6], th, sc), go(m.dir + "/mut" + fname, sc, th, rng.randint(1, 10 ** 6), env), want, th + more)
                add("enabled runs")
                if want != one:
                    add("enabled runs in which the mutants change every thread's result")
            # tracking
            for k in range(4 if not T else 30):
                tf = os.path.join(t.dir, "t%s%d" % (fname, k))
                th = rng.choice([3, 8, 16])
                sc, more = SC[k % 4]
                r = go(t.dir + "/trk" + fname, sc, th, rng.randint(1, 10 ** 6), {"DREDD_MUTANT_TRACKING_FILE": tf})
                judge("tracking, %d threads" % th, r, one, th + more)
                got, why = tracked(tf)
                add("tracked runs")
                if not r.timeout and not why:
                    add("ids recorded under contention", len(got))
                    orders.add((p.name, fname, tuple(got[:200])))
                    rep = sorted({g for g in got if got.count(g) > 1}) if len(got) != len(set(got)) else []
                    if rep:
                        why = "recorded more than once: %s" % rep[:5]
                    elif "sized" in p.tags and sorted(got) != sorted(ids):
                        why = "missing %s, unexpected %s" % (sorted(set(ids) - set(got))[:5], sorted(set(got) - set(ids))[:5])
                    elif "sized" not in p.tags:
                        key = ("cov", fname)
                        if st.setdefault(key, sorted(got)) != sorted(got):
                            why = "runs with the same work record different ids"
                if why and not r.timeout:
                    bad.append(("tracking file", "%s tracking, %d threads: %s" % (fname, th, why)))
            shutil.rmtree(o, ignore_errors=True)
        return bad, st

    for (p, opts), (bad, st) in [(a, r) for a, r in zip([(p, o) for p in progs for o in MODES if not (o and "sized" in p.tags)],
                                 core.pmap(lambda a: check(*a), [(p, o) for p in progs for o in MODES if not (o and "sized" in p.tags)], workers=4))]:
        if bad is None:
            chk.skip(st) if "original" in st else chk.unusable(p.name, "%s: %s" % (opts, st), p.files)
            continue
        for k, v in st.items():
            if isinstance(k, str):
                chk.count(k, v)
        runs = sum(st.get(k, 0) for k in ("dormant runs", "enabled runs", "tracked runs"))
        chk.evaluate(runs, (p.name, opts))
        chk.sample({"program": p.name, "mode": list(opts), "runs": runs, "threads": st.get("threads compared")})
        seen = set()
        for k, b in bad:
            if k not in seen:
                seen.add(k)
                chk.violation("%s/%s/%s" % (p.name, ",".join(opts), k), "%s %s: %s" % (p.name, opts, b), p.files)

    # ---- programs with threads, locks and atomics of their own
    def own(a):
        n, opts, trk = a
        with open(os.path.join(tdir, n), "rb") as f:
            p = work.Prog("threads:" + n, {n: f.read()}, inputs=(1,))
        o = work.mutate(exe, p, opts + (("--only-track-mutant-coverage",) if trk else ()))
        d = core.scratch("o")
        p.write(d)
        bad, runs = [], 0
        for fname, fl in flagsets:
            s = sup(fl, "support.c")
            if build(d, p.order, d + "/a" + fname, fl, (), [s]).rc:
                return a, None, "original does not compile", p
            x = core.run([d + "/a" + fname, "1"], env=TENV, cpu=60, timeout=120)
            if x.rc:
                return a, None, "original races or fails", p
            if o.rc or o.info is None or build(o.dir, p.order, o.dir + "/m" + fname, fl, (), [s]).rc:
                return a, None, "rewritten program does not build (see C02)", p
            for k in range(4 if not T else 30):
                tf = os.path.join(o.dir, "t%s%d" % (fname, k))
                y = core.run([o.dir + "/m" + fname, "1"], env=dict(TENV, **({"DREDD_MUTANT_TRACKING_FILE": tf} if trk and k % 2 == 0 else {})), cpu=60, timeout=120)
                runs += 1
                if y.timeout:
                    continue
                if y.rc == 66 or b"WARNING: ThreadSanitizer" in y.err:
                    bad.append("%s: %s" % (fname, core.text(y.err, 1500)))
                elif y.key() != x.key():
                    bad.append("%s: differs from the original: %s" % (fname, mutants.first_diff(y.out, x.out)))
                got, why = tracked(tf)
                if why or len(got) != len(set(got)):
                    bad.append("%s: tracking file: %s" % (fname, why or "ids recorded more than once"))
        return a, bad, runs, p

    for (n, opts, trk), bad, runs, p in core.pmap(own, [(n, o, t) for n in ("own.c", "own.cc") for o in MODES for t in (False, True)], workers=4):
        if bad is None:
            chk.skip(runs) if "original" in runs else chk.unusable(p.name, "%s tracking=%s: %s" % (opts, trk, runs), p.files)
            continue
        chk.evaluate(runs, (n, opts, trk))
        chk.count("runs of programs with their own locks and atomics", runs)
        for b in bad[:1]:
            chk.violation("%s/%s/%s" % (n, ",".join(opts), trk), "%s %s tracking=%s: %s" % (n, opts, trk, b), p.files)

    # ---- the known finding: first use in several C threads at once, with the enabling variable set
    p = sized.program("c", [40])
    m = work.mutate(exe, p)
    slow = sup(["-O1"], "slowtok.c")
    if m.rc == 0 and m.info is not None and build(m.dir, p.order, m.dir + "/slow", ["-O1"], (), [sup(["-O1"]), slow]).rc == 0:
        muts = dr.flatten(m.info, dr.sources_of(p.files))
        ev = sized.events(p, muts)
        s = [x.id for x in muts][::3]
        want = sized.expected(p, ev, s)
        r = core.run([m.dir + "/slow", "", "6", "1"], env={"DREDD_ENABLED_MUTATION": ",".join(map(str, s))}, timeout=60, cpu=30)
        chk.evaluate(1, "strtok")
        if r.rc or any(v != want for v in split(r.out).values()):
            chk.violation("finding:strtok", "C threads that first use the code at the same time, with several ids enabled: not every thread has all of them (strtok is shared)", p.files)
    chk.count("distinct recording orders seen", len(orders))
    return chk.finish("one evaluation = one run of a threaded instrumented program, watched by ThreadSanitizer or under plain stress, with every thread's trace compared with a single thread's and the tracking file checked for exactly-once lines; "
                      "distinct = (program, mode)", min_eval=60)


if __name__ == "__main__":
    sys.exit(core.guarded(main))
