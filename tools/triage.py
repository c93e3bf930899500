"""Development helper: runs corpus programs through every mode and prints anything odd."""
import sys, os
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vlib import core, dr, work
D = core.build_dredd()
MODES = {"opt": [], "noopt": ["--no-mutation-opts"], "trk": ["--only-track-mutant-coverage"], "trkno": ["--only-track-mutant-coverage", "--no-mutation-opts"]}
def one(p):
    out = []
    r = work.prepare(p)
    if r:
        d = core.scratch(); p.write(d)
        x = dr.build(d, p.order, d + "/a", work.BASE + work.SAN + p.flags)
        if x.rc == 0:
            x = dr.execute(d + "/a", env=work.SAN_ENV, args=["1"])
        return p.name + ": UNFIT " + r + "\n" + core.text(x.err + x.out[-200:], 1200)
    for m, o in MODES.items():
        b = work.mutate(D, p, o)
        if b.rc:
            out.append("%s: dredd rc=%s %s" % (m, b.rc, core.text(b.err, 500))); continue
        for fl in (["-O0"], ["-O2"]):
            r = dr.build(b.dir, p.order, b.dir + "/x", ["-fwrapv", *fl] + p.flags)
            if r.rc:
                out.append("%s %s: COMPILE %s" % (m, fl, core.text(r.err, 900))); break
            for i in p.inputs:
                x = dr.execute(b.dir + "/x", args=[str(i)], cwd=b.dir)
                if x.key() != p.base[i]:
                    out.append("%s %s: DIFF rc=%s %r" % (m, fl, x.rc, x.err[:200]))
                    a, c = p.base[i][1].split(b"\n"), x.out.split(b"\n")
                    for k, (u, v) in enumerate(zip(a, c)):
                        if u != v:
                            out.append("   line %d orig %r got %r after %r" % (k, u, v, a[max(0,k-2):k])); break
                    break
    return p.name + ": " + ("ok" if not out else "\n  " + "\n  ".join(out))
pat = sys.argv[1] if len(sys.argv) > 1 else ""
for l in core.pmap(one, [p for p in work.corpus() if pat in p.name]):
    print(l)
