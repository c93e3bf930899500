"""C01: dormant mutants leave program behaviour unchanged."""
import sys, os
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vlib import core, dr, work, gen

MODES = [(), ("--no-mutation-opts",)]
BUILDS = [("O0", ["-fwrapv", "-O0"]), ("O2", ["-fwrapv", "-O2"])]


def main():
    chk = core.Check("C01")
    exe = core.build_dredd()
    T = core.THOROUGH
    progs = work.corpus() + work.matrices() + work.generated(250 if T else 14, size=1.0, inputs=(1, 2, 3)) + \
        work.generated(60 if T else 4, nfiles=3, size=0.7)
    progs = work.ready(chk, progs)

    def one(job):
        p, mode = job
        o = work.mutate(exe, p, mode)
        if o.rc != 0 or o.info is None:
            return ("fail", p, mode, "dredd failed rc=%s: %s" % (o.rc, core.text(o.err, 800)), o)
        n = sum(len(x.get("instances", [1])) for f in o.info.get("infoForFiles", []) for nd in f["mutationTree"]
                for g in nd.get("mutationGroups", []) for x in g.values())
        bad = []
        runs = 0
        for bn, fl in BUILDS:
            if bn == "O2" and not T and ("gen" in p.tags and hash_pick(p, mode) % 3):
                continue
            b = os.path.join(o.dir, "m_" + bn)
            r = dr.build(o.dir, p.order, b, fl + p.flags)
            if r.rc:
                return ("nobuild", p, mode, core.text(r.err, 800), o)
            for what, env in (("unset", {}), ("empty", {"DREDD_ENABLED_MUTATION": ""}), ("foreign", {"DREDD_ENABLED_MUTATION": "%d,%d,4000000" % (n, n + 63)}),
                              ("foreign1", {"DREDD_ENABLED_MUTATION": str(n)})):
                if what != "unset" and "strtok" in p.tags:
                    continue
                for i in p.inputs if what == "unset" else p.inputs[:1]:
                    x = dr.execute(b, env=env, args=[str(i)], cwd=o.dir, cpu=10)
                    runs += 1
                    if x.key() != p.base[i]:
                        from vlib.mutants import first_diff
                        bad.append("build -%s, enabling variable %s, input %s: rc %s (original %s); %s %s" % (
                            bn, what, i, x.rc, p.base[i][0], first_diff(x.out, p.base[i][1]), core.text(x.err, 200)))
        return ("ok" if not bad else "diff", p, mode, "\n".join(bad) or (n, runs), o)

    for v, p, mode, d, o in core.pmap(one, [(p, m) for p in progs for m in MODES]):
        files = dict(p.files)
        files.update({"mutated_" + k: t for k, t in o.files.items()})
        if v == "ok":
            chk.evaluate(d[1], (p.name, mode))
            chk.count("runs compared with the original", d[1])
            chk.count("mutants lying dormant in those programs", d[0])
            chk.sample({"program": p.name, "mode": list(mode), "mutants": d[0], "trace_lines": p.base[p.inputs[0]][1].count(b"\n")})
        elif v == "diff":
            chk.violation("%s/%s" % (p.name, "noopt" if mode else "opt"), "%s %s: %s" % (p.name, mode, d), files)
        elif v == "nobuild":
            chk.unusable(p.name, "%s: the rewritten program does not build: %s" % (mode, d), files)
        else:
            chk.unusable(p.name, "%s: %s" % (mode, d), files)
    return chk.finish("one evaluation = one run of a rebuilt mutated program with no mutant enabled, compared (trace of values and events, exit status) with the original; "
                      "distinct = (program, mode) pairs whose trace has at least one line", min_eval=50)


def hash_pick(p, mode):
    import zlib
    return zlib.crc32((p.name + str(mode)).encode())


if __name__ == "__main__":
    sys.exit(core.guarded(main))
