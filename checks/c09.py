"""C09: coverage-tracking builds behave like the original and use the same ids."""
import sys, os, json, zlib
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vlib import core, dr, work, report
from vlib.mutants import first_diff

MODES = [(), ("--no-mutation-opts",)]


def norm(o):
    return json.loads(o.raw.decode("utf8").replace(o.dir, "@"))


def targets(d, k):
    """(what, value of the tracking variable or None)"""
    os.makedirs(os.path.join(d, "dir%s" % k), exist_ok=True)
    ro = os.path.join(d, "old%s" % k)
    with open(ro, "w") as f:
        f.write("7\n" * 3)
    return [("unset", None), ("fresh file", os.path.join(d, "new%s" % k)), ("existing file", ro), ("empty name", ""),
            ("no such directory", os.path.join(d, "absent/x")), ("a directory", os.path.join(d, "dir%s" % k)), ("full device", "/dev/full")]


def main():
    chk = core.Check("C09")
    exe = core.build_dredd()
    T = core.THOROUGH
    progs = work.corpus() + work.matrices() + work.generated(200 if T else 8, size=1.0, inputs=(1, 2, 3)) + work.generated(60 if T else 3, nfiles=3, size=0.7)
    progs = work.ready(chk, progs)

    def one(a):
        p, opts = a
        t = work.mutate(exe, p, opts + ("--only-track-mutant-coverage",))
        m = work.mutate(exe, p, opts)
        bad, st = [], dict(runs=0, ids=0, nobuild=0)
        if t.rc or t.info is None or m.rc or m.info is None:
            return (a, t, None, None)
        ids = [i for _, v in report.ids_by_file(m.info) for i in v]
        st["ids"] = len(ids)
        if norm(t) != norm(m):
            bad.append(("report", "mutation information of the tracking run differs from that of real mutation: %s" % where(norm(t), norm(m))))
        pick = zlib.crc32((p.name + str(opts)).encode())
        for k, fl in enumerate((["-fwrapv", "-O0"], ["-fwrapv", "-O2"])):
            if k and not T and pick % 3:
                continue
            b = os.path.join(t.dir, "trk%d" % k)
            if dr.build(t.dir, p.order, b, fl + p.flags).rc:
                st["nobuild"] += 1
                continue
            some = str(ids[pick % len(ids)]) if ids else "0"
            enabling = [None, some, ",".join(map(str, ids[:4000])) or "0", "garbage,,-1,99999999999999999999"]
            for j, (what, v) in enumerate(targets(t.dir, k)):
                e = enabling[(j + pick) % 4] if what != "unset" else None
                for i in p.inputs if what in ("unset", "fresh file") else p.inputs[:1]:
                    env = {} if v is None else {"DREDD_MUTANT_TRACKING_FILE": v}
                    if e is not None:
                        env["DREDD_ENABLED_MUTATION"] = e
                    x = dr.execute(b, env=env, args=[str(i)], cwd=t.dir, cpu=10)
                    st["runs"] += 1
                    if x.key() != p.base[i]:
                        bad.append(("behaviour", "-O%d tracking file: %s, enabling variable %s, input %s: rc %s (original %s); %s %s" % (
                            2 * k, what, (e or "unset")[:30], i, x.rc, p.base[i][0], first_diff(x.out, p.base[i][1]), core.text(x.err, 200))))
            for n, e in enumerate(enabling[1:]):
                x = dr.execute(b, env={"DREDD_ENABLED_MUTATION": e}, args=[str(p.inputs[0])], cwd=t.dir, cpu=10)
                st["runs"] += 1
                if x.key() != p.base[p.inputs[0]]:
                    bad.append(("enabling", "-O%d enabling variable %s has an effect: %s" % (2 * k, e[:30], first_diff(x.out, p.base[p.inputs[0]][1]))))
        return (a, t, bad, st)

    for (p, opts), t, bad, st in core.pmap(one, [(p, o) for p in progs for o in MODES]):
        if bad is None:
            chk.unusable(p.name, "%s: dredd failed" % (opts,), p.files)
            continue
        if st["nobuild"]:
            chk.unusable(p.name, "%s: the tracking build does not compile" % (opts,), p.files)
        chk.evaluate(st["runs"] + 1, (p.name, opts))
        chk.count("runs of tracking builds compared with the original", st["runs"])
        chk.count("reports compared with real mutation")
        chk.count("ids in those reports", st["ids"])
        chk.sample({"program": p.name, "mode": list(opts), "ids": st["ids"], "runs": st["runs"]})
        for k, b in bad[:2]:
            chk.violation("%s/%s/%s" % (p.name, ",".join(opts), k), "%s %s: %s" % (p.name, opts, b), dict(p.files, **{"tracking_" + n: x for n, x in t.files.items()}))

    # ---- reports of many small sources, in both modes
    def rep(a):
        (name, flags, data), opts = a
        fn = name if name.endswith((".c", ".cc")) else "case.cc"
        fl = [f for f in flags if f.startswith("-")] + ["-I" + dr.SUP]
        t = dr.dredd(exe, {fn: data}, opts=opts + ("--only-track-mutant-coverage",), flags=fl)
        m = dr.dredd(exe, {fn: data}, opts=opts, flags=fl)
        if t.rc or m.rc or t.info is None or m.info is None:
            return (a, None, t.rc == m.rc)
        return (a, where(norm(t), norm(m)) if norm(t) != norm(m) else "", True)

    small = [(c, o) for c in work.cases() + work.repo_inputs() for o in MODES]
    for ((name, flags, data), opts), d, same in core.pmap(rep, small):
        if d is None:
            if same:
                chk.skip("source that dredd refuses")
            else:
                chk.violation("%s/%s/rc" % (name, ",".join(opts)), "%s %s: real mutation and tracking end with different exit status" % (name, opts), {name: data})
            continue
        chk.evaluate(1, (name, opts))
        chk.count("reports compared with real mutation")
        if d:
            chk.violation("%s/%s/report" % (name, ",".join(opts)), "%s %s: mutation information of the tracking run differs: %s" % (name, opts, d), {name: data})
    return chk.finish("one evaluation = one run of a coverage-tracking build (tracking file unset, writable, existing, unwritable; enabling variable unset, one id, all ids, malformed) compared with the original, or one report compared with real mutation's; "
                      "distinct = (program, mode)", min_eval=300)


def where(a, b, path=""):
    if type(a) != type(b):
        return "%s: %r / %r" % (path, a, b)
    if isinstance(a, dict):
        for k in sorted(set(a) | set(b)):
            if a.get(k) != b.get(k):
                return where(a.get(k), b.get(k), path + "/" + k)
    if isinstance(a, list):
        if len(a) != len(b):
            return "%s: %d / %d entries" % (path, len(a), len(b))
        for i, (x, y) in enumerate(zip(a, b)):
            if x != y:
                return where(x, y, path + "/%d" % i)
    return "%s: %r / %r" % (path, a, b)


if __name__ == "__main__":
    sys.exit(core.guarded(main))
