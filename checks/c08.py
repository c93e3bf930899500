"""C08: coverage tracking records exactly the mutants that were reached."""
import sys, os, random, re
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vlib import core, dr, work, mutants, probe, report, sized

ABRUPT = re.compile(rb"\b(throw|longjmp|exit|_Exit|abort|co_\w+|catch|pthread_exit|goto)\b")
MODES = [(), ("--no-mutation-opts",)]


def lines(path):
    """(ids, complaint)"""
    if not os.path.exists(path):
        return [], None
    t = open(path, "rb").read()
    if t and not t.endswith(b"\n"):
        return [], "the file does not end with a complete line: %r" % t[-30:]
    ids = []
    for l in t.split(b"\n")[:-1]:
        if not re.fullmatch(rb"\d+", l):
            return [], "line %r is not an id" % l[:60]
        ids.append(int(l))
    return ids, None


def main():
    chk = core.Check("C08")
    exe = core.build_dredd()
    T = core.THOROUGH
    progs = work.corpus() + work.generated(100 if T else 8, size=0.8, inputs=(1, 2, 3)) + work.generated(40 if T else 4, nfiles=3, size=0.5)
    progs = work.ready(chk, progs)

    def one(a):
        p, opts = a
        o = work.mutate(exe, p, opts + ("--only-track-mutant-coverage",))
        if o.rc or o.info is None:
            return (a, None, "dredd failed")
        muts = dr.flatten(o.info, dr.sources_of(p.files))
        b = os.path.join(o.dir, "trk")
        if dr.build(o.dir, p.order, b, mutants.MUT_FLAGS + p.flags).rc:
            return (a, None, "rewritten program does not build (see C02)")
        # the probes
        d = core.scratch("p")
        num = {}
        for n in p.order:
            t, k = probe.instrument(p.files[n], [m for m in muts if m.file == n], len(num))
            num.update(k)
            with open(os.path.join(d, n), "wb") as f:
                f.write(b'#include "vt.h"\n#line 1\n' + t if b'"vt.h"' not in t else t)
        pe = os.path.join(d, "probe")
        r = dr.build(d, p.order, pe, ["-Wno-c++11-narrowing", "-Wno-everything"] + mutants.MUT_FLAGS + p.flags)
        probing = r.rc == 0
        if not probing and os.environ.get("VDEBUG"):
            print("probe build", p.name, opts, core.text(r.err, 1500))
        abrupt = any(ABRUPT.search(t) for t in p.files.values())
        bad, stats = [], dict(runs=0, recorded=0, unreached=0, exact=0, dormant=0)
        alll = {m.id for m in muts}
        seen_by_input = {}
        for i in p.inputs:
            tf = os.path.join(o.dir, "t%s" % i)
            x = dr.execute(b, env={"DREDD_MUTANT_TRACKING_FILE": tf}, args=[str(i)], cwd=o.dir)
            stats["runs"] += 1
            got, why = lines(tf)
            if why:
                bad.append("input %s: %s" % (i, why))
                continue
            if len(set(got)) != len(got):
                bad.append("input %s: recorded more than once: %s" % (i, sorted({g for g in got if got.count(g) > 1})[:5]))
            got = set(got)
            seen_by_input[i] = got
            stats["recorded"] += len(got)
            if not got <= alll:
                bad.append("input %s: ids of no mutant recorded: %s" % (i, sorted(got - alll)[:5]))
            if probing:
                h = os.path.join(d, "h%s" % i)
                y = dr.execute(pe, env={"VT_HITS": h}, args=[str(i)], cwd=d)
                if y.key() != p.base[i]:
                    stats["probe differs"] = stats.get("probe differs", 0) + 1
                    continue
                hits = {int(l.split()[1]) for l in open(h)} if os.path.exists(h) else set()
                want = {j for k in hits for j in num[k]}
                stats["unreached"] += len(alll - want)
                stats["exact"] += 1
                if got - want:
                    bad.append("input %s: recorded although not reached: %s" % (i, [m for m in muts if m.id in got - want][:4]))
                if want - got:
                    if abrupt:
                        stats["abrupt"] = stats.get("abrupt", 0) + len(want - got)
                    else:
                        bad.append("input %s: reached but not recorded: %s" % (i, [m for m in muts if m.id in want - got][:4]))
        # successive runs append; what was in the file stays
        tf = os.path.join(o.dir, "app")
        with open(tf, "w") as f:
            f.write("123456789\n")
        for i in p.inputs:
            dr.execute(b, env={"DREDD_MUTANT_TRACKING_FILE": tf}, args=[str(i)], cwd=o.dir)
        got, why = lines(tf)
        if why or not got or got[0] != 123456789:
            bad.append("appending: %s" % (why or "earlier contents lost"))
        elif all(i in seen_by_input for i in p.inputs):
            rest = sorted(got[1:])
            want = sorted(j for i in p.inputs for j in seen_by_input[i])
            if rest != want:
                bad.append("successive runs appended %d ids, single runs recorded %d" % (len(rest), len(want)))
        # mutants that are not recorded cannot matter
        mb = work.mutate(exe, p, opts)
        if mb.rc == 0 and mb.info is not None and "strtok" not in p.tags:
            mexe = os.path.join(mb.dir, "mut")
            if dr.build(mb.dir, p.order, mexe, mutants.MUT_FLAGS + p.flags).rc == 0:
                for i, got in seen_by_input.items():
                    idle = sorted(alll - got)
                    if not idle or len(idle) > 12000:
                        continue
                    x = dr.execute(mexe, env={"DREDD_ENABLED_MUTATION": ",".join(map(str, idle))}, args=[str(i)], cwd=mb.dir)
                    stats["dormant"] += len(idle)
                    if x.key() != p.base[i]:
                        # which one?
                        lo = idle
                        while len(lo) > 1:
                            h = lo[:len(lo) // 2]
                            y = dr.execute(mexe, env={"DREDD_ENABLED_MUTATION": ",".join(map(str, h))}, args=[str(i)], cwd=mb.dir)
                            lo = h if y.key() != p.base[i] else lo[len(lo) // 2:]
                        bad.append("input %s: mutants that were not recorded change the run when enabled, such as %s" % (i, [m for m in muts if m.id == lo[0]]))
        return (a, (o, bad, stats, probing), None)

    for (p, opts), res, why in core.pmap(one, [(p, o) for p in progs for o in MODES]):
        if res is None:
            chk.unusable(p.name, "%s: %s" % (opts, why), p.files)
            continue
        o, bad, st, probing = res
        if not probing:
            chk.skip("probed program does not compile")
        if st.get("probe differs"):
            chk.skip("probed program behaves differently", st["probe differs"])
        if st.get("abrupt"):
            chk.skip("mutants entered but maybe not completed (exceptions, jumps)", st["abrupt"])
        chk.evaluate(st["runs"] + st["exact"], (p.name, opts))
        chk.count("tracked runs", st["runs"])
        chk.count("ids recorded", st["recorded"])
        chk.count("runs compared id by id with reach probes", st["exact"])
        chk.count("mutants that those runs did not reach", st["unreached"])
        chk.count("unrecorded mutants enabled without effect", st["dormant"])
        chk.sample({"program": p.name, "mode": list(opts), "recorded": st["recorded"], "unreached": st["unreached"]})
        for b in bad[:3]:
            chk.violation("%s/%s" % (p.name, ",".join(opts)), "%s %s: %s" % (p.name, opts, b), dict(p.files, **{"tracking_" + k: t for k, t in o.files.items()}))

    # ---- exact numbers of mutants and offsets of later files
    def exact(a):
        lang, sizes = a
        p = sized.program(lang, sizes)
        if work.prepare(p, san=False):
            return (p, None, "does not run")
        o = work.mutate(exe, p, ("--only-track-mutant-coverage",))
        if o.rc or o.info is None:
            return (p, None, "dredd failed")
        n = len(dr.flatten(o.info, dr.sources_of(p.files)))
        b = os.path.join(o.dir, "trk")
        if dr.build(o.dir, p.order, b, mutants.MUT_FLAGS).rc:
            return (p, None, "rewritten program does not build (see C02)")
        tf = os.path.join(o.dir, "t")
        dr.execute(b, env={"DREDD_MUTANT_TRACKING_FILE": tf}, args=["1"], cwd=o.dir)
        got, why = lines(tf)
        if not why and sorted(got) != list(range(n)):
            why = "all %d mutants are reached, recorded: %d ids, missing %s, unexpected or repeated %s" % (
                n, len(got), sorted(set(range(n)) - set(got))[:5], sorted(set(g for g in got if g >= n or got.count(g) > 1))[:5] if len(got) < 4000 else "")
        return (p, why or "", None)

    for p, bad, why in core.pmap(exact, [(lang, s) for lang in ("c", "cpp") for s in (sized.SIZES_ALL if T else sized.SIZES_QUICK)]):
        if bad is None:
            if why == "does not run":
                chk.skip(why)
            else:
                chk.unusable(p.name, why, p.files)
            continue
        chk.evaluate(1, p.name)
        chk.count("programs with exact numbers of mutants, all recorded")
        if bad:
            chk.violation(p.name, "%s: %s" % (p.name, bad), p.files)
    return chk.finish("one evaluation = one tracked run checked for well-formed, unrepeated ids, or compared id by id with reach probes in the original source; distinct = programs and modes", min_eval=100)


if __name__ == "__main__":
    sys.exit(core.guarded(main))
