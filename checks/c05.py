"""C05: mutant ids are unique, contiguous and shared by code and report."""
import sys, os, random
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vlib import core, dr, work, report

MODES = [(), ("--no-mutation-opts",), ("--only-track-mutant-coverage",), ("--only-track-mutant-coverage", "--no-mutation-opts")]
NOTHING = {"nothing.c": b"struct q_nothing;\nextern int q_ext;\n", "empty.cc": b""}


def main():
    chk = core.Check("C05")
    exe = core.build_dredd()
    T = core.THOROUGH
    rng = chk.rng

    # ---- the report's structure, over single files and groups of files in various orders
    singles = [(p.name, p.files, p.flags, p.order) for p in work.corpus() + work.generated(40 if T else 4, size=0.7)]
    singles += [(n, {n: b}, fl, [n]) for n, fl, b in work.cases() + (work.repo_inputs() if T else work.repo_inputs()[core.SEED % 3::3])]
    groups = []
    smalls = [("u%d_%s" % (i, n.replace(":", "_").replace("/", "_")), b) for i, (n, fl, b) in enumerate(work.cases()) if not fl and len(b) < 3000]
    for g in range(40 if T else 8):
        k = rng.randint(2, 6)
        pick = dict(rng.sample(smalls, k))
        if g % 2:
            pick.update(NOTHING)
        order = list(pick)
        rng.shuffle(order)
        groups.append(("group%d" % g, pick, [], order))
    for k in (2, 3):
        for lang in ("c", "cpp"):
            files = {}
            for i in range(k):
                for n, t in work.gen.program("c05/%d/%d/%d" % (core.SEED, k, i), lang, 1, 0.5, True).items():
                    files["g%d_%s" % (i, n)] = t
            o = list(files)
            groups.append(("gen:%s:%d" % (lang, k), files, [], o))
            groups.append(("gen:%s:%d:r" % (lang, k), files, [], o[::-1]))

    def structural(job):
        (name, files, flags, order), mode = job
        fl = list(flags) + ["-fwrapv", "-I" + dr.SUP]
        o = dr.dredd(exe, files, opts=mode, flags=fl, order=order)
        if o.info is None:
            return (job, None, "dredd rc %s" % o.rc, o)
        proc = report.processed(o.err)
        bad = report.structure(o.info, proc)
        byf = report.ids_by_file(o.info)
        # a file is in the report exactly when it was rewritten
        changed = {n for n in files if o.files[n] != (files[n] if isinstance(files[n], bytes) else files[n].encode())}
        listed = {os.path.basename(n) for n, _ in byf}
        if changed != listed:
            bad.append("rewritten files %s, files with mutants in the report %s" % (sorted(changed), sorted(listed)))
        return (job, bad, (len(byf), sum(len(i) for _, i in byf)), o)

    jobs = []
    for s in singles:
        ms = MODES if T or not s[0].startswith("repo_") else [MODES[1]]
        if not T and not s[0].startswith("repo_"):
            ms = [MODES[0], MODES[1], MODES[2 + len(s[0]) % 2]]
        jobs += [(s, m) for m in ms]
    jobs += [(s, m) for s in groups for m in MODES]
    for (s, mode), bad, d, o in core.pmap(structural, jobs):
        if bad is None:
            chk.skip("dredd gave no report (see C02, C11, C15)")
            continue
        chk.evaluate(1, ("report", s[0], mode) if d[1] else None)
        chk.count("reports checked")
        chk.count("ids in those reports", d[1])
        if d[0] > 1:
            chk.count("reports over several files")
        if bad:
            chk.violation("report/%s/%s" % (s[0], ",".join(mode)), "%s %s: %s" % (s[0], mode, "; ".join(bad)),
                          dict(s[1], **{"info.json": getattr(o, "raw", b"")}))

    # ---- ids in the report against the ids the running code asks for and records
    progs = [p for p in work.corpus() if "heavy" not in p.tags] + work.generated(30 if T else 3, size=0.7) + work.generated(20 if T else 2, nfiles=3, size=0.5)
    progs = work.ready(chk, progs)

    def prep(a):
        p, opts = a
        o = work.mutate(exe, p, opts)
        t = work.mutate(exe, p, opts + ("--only-track-mutant-coverage",))
        if o.info is None or t.info is None:
            return (a, "dredd gave no report", None)
        hooked = {}
        for i, n in enumerate(p.order):
            if o.files[n] == p.files[n]:
                hooked[n] = p.files[n]
                continue
            h = report.hook(o.files[n], i)
            if h is None:
                return (a, "query function not recognised, hooks off", None)
            hooked[n] = h
        d = core.scratch("h")
        for n, x in hooked.items():
            with open(os.path.join(d, n), "wb") as f:
                f.write(x)
        r = dr.build(d, p.order, os.path.join(d, "x"), work.BASE + p.flags)
        r2 = dr.build(t.dir, p.order, os.path.join(t.dir, "x"), work.BASE + p.flags)
        if r.rc or r2.rc:
            return (a, "rewritten program does not build (see C02)", None)
        trk = os.path.join(t.dir, "track")
        x = dr.execute(os.path.join(t.dir, "x"), env={"DREDD_MUTANT_TRACKING_FILE": trk}, args=["1"], cwd=t.dir)
        rec = []
        if os.path.exists(trk):
            rec = [int(z) for z in open(trk).read().split()]
        return (a, None, (o, d, set(rec)))

    runs = []
    for (p, opts), why, got in core.pmap(prep, [(p, o) for p in progs for o in ((), ("--no-mutation-opts",))]):
        if got is None:
            chk.skip(why)
            continue
        o, d, rec = got
        byf = report.ids_by_file(o.info)
        allids = {i: p.order.index(os.path.basename(n)) for n, ids in byf for i in ids}
        extra = rec - set(allids)
        if extra:
            chk.violation("recorded/%s" % p.name, "ids recorded at run time that the report does not have: %s" % sorted(extra)[:10], dict(p.files))
        ids = sorted(allids)
        cap = 100000 if T else 90
        pick = ids if len(ids) <= cap else sorted(set(rng.sample(ids, cap)) | {ids[0], ids[-1]} | {i for i in (63, 64, 127, 128) if i < len(ids)} |
                                                  {e for _, x in byf for e in (min(x), max(x))})
        pick += [len(ids), len(ids) + 1, len(ids) + 64]
        runs += [(p, opts, d, rec, allids, i) for i in pick]

    def one(a):
        p, opts, d, rec, allids, i = a
        h = os.path.join(d, "hits.%d" % i)
        dr.execute(os.path.join(d, "x"), env={"DREDD_ENABLED_MUTATION": str(i), "VT_HITS": h}, args=["1"], cwd=d, cpu=2, timeout=20)
        hits = []
        if os.path.exists(h):
            hits = [tuple(map(int, l.split())) for l in open(h)]
            os.remove(h)
        return (a, hits)

    local = {}
    for (p, opts, d, rec, allids, i), hits in core.pmap(one, runs):
        key = "%s/%s/%d" % (p.name, ",".join(opts), i)
        chk.evaluate(1, ("id", p.name, opts, i) if hits else None)
        chk.count("ids enabled under the monitor")
        if i not in allids:
            if hits:
                chk.violation("foreign/" + key, "id %d is not in the report, yet the code has a mutant that it enables: %s" % (i, hits[:3]), dict(p.files))
            chk.count("ids outside the report, no mutant answered")
            continue
        if len(set(hits)) > 1:
            chk.violation("many/" + key, "enabling id %d enables several mutants of the code: %s" % (i, hits[:5]), dict(p.files))
        if hits and any(f != allids[i] for f, _ in hits):
            chk.violation("file/" + key, "enabling id %d of %s acts in file number %s" % (i, p.order[allids[i]], hits[0][0]), dict(p.files))
        if bool(hits) != (i in rec):
            chk.violation("reach/" + key, "id %d: %s by the tracking build, but its mutant was %s in the mutated program" % (
                i, "recorded" if i in rec else "not recorded", "asked for" if hits else "never asked for"), dict(p.files))
        for x in set(hits):
            prev = local.setdefault((p.name, opts, x), i)
            if prev != i:
                chk.violation("shared/" + key, "ids %d and %d enable the same mutant of the code" % (prev, i), dict(p.files))
        if hits:
            chk.count("ids whose mutant answered, once and in its file")
            chk.sample({"program": p.name, "id": i, "file": hits[0][0], "local": hits[0][1]})
    return chk.finish("one evaluation = one report whose ids and trees were checked, or one id enabled under the hook on the code's id queries and compared with report and tracking log; distinct = reports with mutants, ids whose mutant answered", min_eval=100)


if __name__ == "__main__":
    sys.exit(core.guarded(main))
