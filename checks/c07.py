"""C07: the enabled set selects exactly the named mutants."""
import sys, os, random, itertools, shutil
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vlib import core, dr, work, mutants, ref, report, sized


def disjoint(ms, pick):
    return all(m.file != pick.file or m.range[1] <= pick.range[0] or pick.range[1] <= m.range[0] for m in ms)


def spellings(rng, ids, n, full):
    """Ways to write the same set."""
    c = list(ids)
    out = []
    s = c[:]
    rng.shuffle(s)
    out.append(("shuffled", ",".join(map(str, s))))
    out.append(("repeated", ",".join(map(str, s + [rng.choice(s)] + s[:1]))))
    out.append(("trailing comma", ",".join(map(str, sorted(c))) + ","))
    f = s + [n, n + 1, n + 63, n + 64, 2000000, n * 2 + 5]
    rng.shuffle(f)
    out.append(("foreign ids", ",".join(map(str, f))))
    out.append(("foreign first", ",".join(map(str, [n + rng.randint(0, 200)] + sorted(c, reverse=True)))))
    if full:
        out.append(("long", ",".join(map(str, s * 40))))
        out.append(("foreign, repeated, trailing", ",".join(map(str, (f + s) * 3)) + ","))
    return out


def main():
    chk = core.Check("C07")
    exe = core.build_dredd()
    T = core.THOROUGH
    progs = [p for p in work.corpus() if "heavy" not in p.tags] + work.generated(40 if T else 3, size=0.7) + work.generated(40 if T else 4, nfiles=3, size=0.5)
    progs = work.ready(chk, progs)
    modes = [(), ("--no-mutation-opts",)]

    def prep(a):
        p, opts = a
        b = mutants.Bench(p, exe, opts)
        if not b.ok:
            return (a, None, "dredd failed")
        if b.build().rc:
            return (a, None, "rewritten program does not build (see C02)")
        b.asts()
        # hooked build
        d = core.scratch("h")
        b.hooked = None
        ok = True
        for i, n in enumerate(p.order):
            t = b.o.files[n]
            if t != p.files[n]:
                t = report.hook(t, i)
                if t is None:
                    ok = False
                    break
            with open(os.path.join(d, n), "wb") as f:
                f.write(t)
        if ok and dr.build(d, p.order, os.path.join(d, "x"), mutants.MUT_FLAGS + p.flags).rc == 0:
            b.hooked = os.path.join(d, "x")
        else:
            chk.skip("query function not recognised, hooks off")
        return (a, b, None)

    jobs = []
    for (p, opts), b, why in core.pmap(prep, [(p, o) for p in progs for o in modes]):
        if b is None:
            chk.unusable(p.name, "%s: %s" % (opts, why), p.files)
            continue
        rng = random.Random("C07/%d/%s/%s" % (core.SEED, p.name, opts))
        n = len(b.muts)
        byid = {m.id: m for m in b.muts}
        sets = []
        want = (40 if T else 7) + (4 if len(p.order) > 1 else 0)
        # mutants that do something on their own are worth composing; found by running them
        cand = rng.sample(b.muts, min(len(b.muts), 60 if not T else 300))
        lively = [m for m in cand if b.run([m.id], p.inputs[0]).key() != p.base[p.inputs[0]]]
        b.lively = len(lively)
        for k in range(want):
            ms = []
            pool = lively if lively and k % 3 else list(b.muts)
            size = rng.choice([2, 2, 3, 4, 6])
            tries = 0
            if k == 0:
                # around word boundaries of the first and last file
                for i in (63, 64, 0, 127, 128, n - 1):
                    if i in byid and disjoint(ms, byid[i]):
                        ms.append(byid[i])
            while len(ms) < size and tries < 60:
                tries += 1
                m = rng.choice(pool)
                if len(p.order) > 1 and k % 2 and ms and m.file == ms[-1].file and tries < 30:
                    continue
                if disjoint(ms, m):
                    ms.append(m)
            if len(ms) >= 2:
                sets.append(("compose", ms))
        for k in range(4 if not T else 20):
            sets.append(("any", rng.sample(b.muts, min(n, rng.choice([1, 2, 5, 20])))))
        jobs += [(b, kind, ms, random.Random("%s/%d" % (p.name, i))) for i, (kind, ms) in enumerate(sets)]

    def one(job):
        b, kind, ms, rng = job
        p = b.p
        ids = [m.id for m in ms]
        n = len(b.muts)
        bad = []
        inp = p.inputs[0]
        canon = b.run(sorted(ids), inp)
        spelled = 0
        for what, s in spellings(rng, ids, n, T):
            x = dr.execute(b.bin, env={"DREDD_ENABLED_MUTATION": s}, args=[str(inp)], cwd=b.o.dir, cpu=2, timeout=20)
            spelled += 1
            if x.timeout or canon.timeout:
                if x.timeout != canon.timeout and not (canon.wall > 1 and x.wall > 1):
                    bad.append(("spelling", "%s list %r: ends %s, canonical list ends %s" % (what, s[:80], not x.timeout, not canon.timeout)))
                continue
            if x.key() != canon.key():
                bad.append(("spelling", "%s list %r: rc %s, canonical list rc %s; %s" % (what, s[:80], x.rc, canon.rc, mutants.first_diff(x.out, canon.out))))
        if bad and not mutants.steady(b, ids, inp):
            chk.skip("the set's behaviour depends on memory it should not read")
            bad = []
        # the monitor on the queries: nothing but the named mutants answers
        hits = None
        if b.hooked:
            starts = {}
            for name, i2 in report.ids_by_file(b.o.info):
                starts[p.order.index(os.path.basename(name))] = (min(i2), max(i2))
            h = os.path.join(core.scratch("hit"), "h")
            dr.execute(b.hooked, env={"DREDD_ENABLED_MUTATION": ",".join(map(str, ids)), "VT_HITS": h}, args=[str(inp)], cwd=b.o.dir, cpu=2, timeout=20)
            hits = [tuple(map(int, l.split())) for l in open(h)] if os.path.exists(h) else []
            got = set()
            for f, l in hits:
                got.add(starts[f][0] + l if f in starts else None)
            extra = got - set(ids)
            if extra:
                bad.append(("extra", "enabling %s makes the mutants %s answer too" % (sorted(ids), sorted(x for x in extra if x is not None)[:5])))
        verdict = None
        killed = canon.key() != p.base[inp]
        if kind == "compose":
            try:
                alts = [b.refs[m.file].alternatives(m) for m in ms]
            except ref.NoRef:
                return (job, bad, spelled, hits, "no reference (see C06)", killed)
            combos = []
            for c in itertools.islice(itertools.product(*alts), 6 if not T else 24):
                by = {}
                for m, e in zip(ms, c):
                    by.setdefault(m.file, []).extend(e)
                combos.append(by)
            total = 1
            for a in alts:
                total *= len(a)
            v, detail, killed = mutants.compare(b, sorted(ids), combos, p.inputs[:1])
            if v == "diff" and (total > len(combos) or any(mutants.unsequenced_risk(b, m) or mutants.const_init(b, m) for m in ms)):
                v, detail = "inconclusive", "unsequenced, constant or too many readings"
            if v == "diff":
                # blame composition only if each member alone agrees with its own reference
                for m in ms:
                    v1, _, _ = mutants.compare(b, [m.id], [{m.file: e} for e in b.refs[m.file].alternatives(m)], p.inputs[:1])
                    if v1 != "same":
                        v, detail = "inconclusive", "a member alone is not settled (see C04)"
                        break
            verdict = v if v != "inconclusive" else detail
            if v == "diff":
                bad.append(("compose", "mutants %s together do not behave like the source with all their changes:\n%s" % (ms, detail)))
        return (job, bad, spelled, hits, verdict, killed)

    for (b, kind, ms, rng), bad, spelled, hits, verdict, killed in core.pmap(one, jobs):
        chk.evaluate(spelled + (1 if verdict == "same" else 0), (b.p.name, b.opts, tuple(sorted(m.id for m in ms))) if killed else None)
        chk.count("lists compared with their canonical spelling", spelled)
        if hits is not None:
            chk.count("sets enabled under the query monitor")
            chk.count("distinct mutants that answered", len(set(hits)))
        if verdict == "same":
            chk.count("sets equal to their composed reference" + (", behaviour changed" if killed else ""))
            if len({m.file for m in ms}) > 1:
                chk.count("sets across files equal to their composed reference")
            chk.sample({"program": b.p.name, "ids": [m.id for m in ms], "files": sorted({m.file for m in ms})})
        elif verdict not in (None, "diff"):
            chk.skip(verdict[:60])
        for k, d in bad:
            chk.violation("%s/%s/%s/%s" % (b.p.name, ",".join(b.opts), k, "-".join(str(m.id) for m in ms[:6])), "%s %s: %s" % (b.p.name, b.opts, d),
                          dict(b.p.files, **{"mutated_" + n: t for n, t in b.o.files.items()}))

    # ---- files with exact numbers of mutants around the words of the bit set: any set of ids, its effect known
    def exact(a):
        lang, sizes, opts = a
        p = sized.program(lang, sizes)
        if work.prepare(p, san=False):
            return (a, p, None, "does not run", 0)
        b = mutants.Bench(p, exe, opts)
        if not b.ok or b.build().rc:
            return (a, p, None, "dredd failed or result does not build", 0)
        ev = sized.events(p, b.muts)
        if ev is None or sorted(ev) != list(range(sum(sizes))):
            return (a, p, None, "report not as expected (see C05, C16)", 0)
        n = len(ev)
        rng = random.Random("C07/exact/%d/%s/%s" % (core.SEED, p.name, opts))
        sets = [[], [0], [n - 1], list(range(n)), list(range(n - 1)), list(range(1, n)), [i for i in range(n) if i % 2], [i for i in range(n) if i % 64 in (0, 63)]]
        edge = sorted({i for w in range(0, n + 64, 64) for i in (w - 1, w, w + 1) if 0 <= i < n})
        starts = list(itertools.accumulate(sizes))
        edge += [i for e in starts for i in (e - 1, e) if 0 <= i < n]
        sets += [[i] for i in (edge if T else rng.sample(edge, min(len(edge), 12)))]
        sets += [rng.sample(range(n), rng.randint(1, n)) for _ in range(30 if T else 6)]
        sets += [[i] for i in rng.sample(range(n), min(n, 100 if T else 8))]
        bad = []
        runs = 0
        for s in sets:
            lists = [",".join(map(str, sorted(s)))]
            if s:
                lists += [t for _, t in (rng.sample(spellings(rng, s, n, len(s) < 400), 2))]
            want = sized.expected(p, ev, s)
            for t in lists:
                x = dr.execute(b.bin, env={"DREDD_ENABLED_MUTATION": t}, args=["1"], cwd=b.o.dir)
                runs += 1
                if x.rc != 0 or x.out != want:
                    bad.append("list %r: rc %s; %s" % (t[:100], x.rc, mutants.first_diff(x.out, want)))
        return (a, p, b, bad, runs)

    for (lang, sizes, opts), p, b, bad, runs in core.pmap(exact, [(lang, s, o) for lang in ("c", "cpp") for s in (sized.SIZES_ALL if T else sized.SIZES_QUICK) for o in (modes if T else modes[:1])]):
        if b is None:
            if bad.startswith("dredd"):
                chk.unusable(p.name, "%s: %s" % (opts, bad), p.files)
            else:
                chk.skip(bad)
            continue
        chk.evaluate(runs, (p.name, opts))
        chk.count("sets of ids with exactly known effect", runs)
        if bad:
            chk.violation("%s/%s" % (p.name, ",".join(opts)), "%s %s: %s" % (p.name, opts, "; ".join(bad[:3])), dict(p.files, **{"mutated_" + k: t for k, t in b.o.files.items()}))
    return chk.finish("one evaluation = one spelling of a set compared with the canonical one, or one set of independent mutants equal to the source with all changes made; distinct = sets that change behaviour", min_eval=100)


if __name__ == "__main__":
    sys.exit(core.guarded(main))
