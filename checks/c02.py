"""C02: mutated source always compiles and links."""
import sys, os, re, glob
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vlib import core, dr, work, consts
from vlib.core import run

MODES = {"opt": (), "noopt": ("--no-mutation-opts",), "track": ("--only-track-mutant-coverage",),
         "track-noopt": ("--only-track-mutant-coverage", "--no-mutation-opts"),
         "ast": ("--show-ast-node-types",), "ast-noopt": ("--show-ast-node-types", "--no-mutation-opts"),
         "ast-track": ("--show-ast-node-types", "--only-track-mutant-coverage")}


def sets(T):
    """(name, files, flags, order, link)"""
    out = []
    for p in work.corpus() + work.matrices() + work.generated(200 if T else 8, size=1.2) + work.generated(40 if T else 3, nfiles=3, size=0.6):
        out.append((p.name, p.files, p.flags, p.order, True, p.tags))
    for f in work.cases():
        out.append(("case:" + f[0], {f[0]: f[2]}, f[1], [f[0]], False, {"case"}))
    for f in work.repo_inputs():
        out.append((f[0], {f[0]: f[2]}, f[1], [f[0]], False, {"repo"}))
    for f in consts.clash("c") + consts.clash("cpp"):
        out.append(("clash:" + f[0], {f[0]: f[2]}, f[1], [f[0]], False, {"clash"}))
    for f in work.findings("C02"):
        out.append(("finding:" + f[0], {f[0]: f[2]}, f[1], [f[0]], False, {"finding"}))
    return out


def main():
    chk = core.Check("C02")
    exe = core.build_dredd()
    T = core.THOROUGH
    S = sets(T)

    def orig(s):
        name, files, flags, order, link, tags = s
        d = core.scratch("o")
        for n, t in files.items():
            with open(os.path.join(d, n), "wb") as f:
                f.write(t)
        for n in order:
            r = run([dr.comp_of(n), "-w", *dr.flags_for(n, flags), "-I", dr.SUP, "-fsyntax-only", os.path.join(d, n)], timeout=120)
            if r.rc:
                return False
        return True

    good = []
    for s, ok in zip(S, core.pmap(orig, S)):
        if ok:
            good.append(s)
        else:
            chk.skip("original does not compile")
    jobs = []
    import zlib
    for s in good:
        names = list(MODES)
        k = zlib.crc32(s[0].encode())
        if not T and "corpus" not in s[5]:
            # the two ends of the spectrum, and one of the other modes, rotating
            names = ["opt", "noopt", ["track", "track-noopt", "ast", "ast-noopt", "ast-track"][k % 5]]
            if "clash" in s[5]:
                names = ["opt", ["noopt", "track", "ast"][k % 3]]
            if "repo" in s[5]:
                names = ["noopt", ["opt", "track", "track-noopt", "ast"][k % 4]]
        jobs += [(s, m) for m in names]

    def one(j):
        (name, files, flags, order, link, tags), mode = j
        fl = list(flags) + ["-fwrapv", "-I" + dr.SUP]
        if not any(f.startswith("-std=") for f in fl):
            fl.append(dr.std_of(order[0]))
        o = dr.dredd(exe, files, opts=MODES[mode], flags=fl, order=order)
        if o.rc or o.info is None:
            return (j, "dredd", core.text(o.err, 700), o)
        changed = [n for n in files if o.files[n] != files[n]]
        if not changed:
            return (j, "same", "", o)
        for n in changed:
            b = [dr.comp_of(n), "-w", *dr.flags_for(n, flags), "-I", dr.SUP]
            if not link and not T and "asm" not in name:
                r = run(b + ["-fsyntax-only", os.path.join(o.dir, n)], timeout=180)
                if r.rc:
                    return (j, "compile", core.text(r.err, 900), o)
                continue
            r = run(b + ["-c", os.path.join(o.dir, n), "-o", os.path.join(o.dir, n + ".o")], timeout=180)
            if r.rc:
                return (j, "compile", core.text(r.err, 900), o)
        if link:
            # all mutated; and, for several files, mutated mixed with unmutated
            mixes = [set(order)] if len(order) == 1 else [set(order)] + [{n} for n in order]
            for mix in mixes:
                objs = []
                for n in order:
                    if n in mix and n in changed:
                        objs.append(os.path.join(o.dir, n + ".o"))
                    else:
                        q = os.path.join(o.dir, "orig_" + n)
                        if not os.path.exists(q + ".o"):
                            with open(q, "wb") as f:
                                f.write(files[n])
                            r = run([dr.comp_of(n), "-w", *dr.flags_for(n, flags), "-I", dr.SUP, "-c", q, "-o", q + ".o"])
                            if r.rc:
                                raise core.HarnessError(core.text(r.err))
                        objs.append(q + ".o")
                allc = all(n.endswith(".c") for n in order)
                r = run([core.CC if allc else core.CXX, "-fuse-ld=lld", *objs, dr.support_obj(), "-o", os.path.join(o.dir, "x")])
                if r.rc:
                    return (j, "link", "mutated: %s\n%s" % (sorted(mix), core.text(r.err, 900)), o)
        return (j, "ok", (len(changed), len(order) > 1), o)

    for (s, mode), v, d, o in core.pmap(one, jobs):
        name, files = s[0], s[1]
        key = "%s/%s" % (name, mode)
        fs = dict(files)
        fs.update({"mutated_" + k: t for k, t in o.files.items()})
        if v in ("ok", "same"):
            chk.evaluate(1, key if v == "ok" else None)
            chk.count("mutated programs that compile%s" % (" and link in every mix" if v == "ok" and d[1] else "") if v == "ok" else "files with nothing to mutate")
            chk.count("mode " + mode)
            if v == "ok":
                chk.sample({"program": name, "mode": mode, "bytes_before": sum(map(len, files.values())), "bytes_after": sum(map(len, o.files.values()))})
        else:
            chk.violation(key, "%s in mode %s: %s failure\n%s" % (name, mode, v, d), fs)
    return chk.finish("one evaluation = one program rewritten in one mode and compiled (and linked, alone and mixed with unmutated files); distinct = (program, mode) pairs that were changed", min_eval=50)


if __name__ == "__main__":
    sys.exit(core.guarded(main))
