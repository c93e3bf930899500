"""C04: enabling one mutant performs exactly its documented change."""
import sys, os, shutil
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vlib import core, dr, work, mutants, ref

def main():
    chk = core.Check("C04")
    exe = core.build_dredd()
    T = core.THOROUGH
    progs = work.ready(chk, work.corpus() + work.generated(60 if T else 5, size=0.8))
    jobs = []
    def prep(a):
        p, opts = a
        b = mutants.Bench(p, exe, opts)
        if not b.ok:
            return (p, opts, None, "dredd failed rc=%s %s" % (b.o.rc, core.text(b.o.err, 400)))
        r = b.build()
        if r.rc:
            return (p, opts, None, "mutated program does not build (see C02)")
        b.asts()
        return (p, opts, b, None)
    modes = [(), ("--no-mutation-opts",)]
    for p, opts, b, why in core.pmap(prep, [(p, o) for p in progs for o in modes]):
        if b is None:
            chk.unusable(p.name, "%s: %s" % (opts, why), p.files)
            continue
        ms = b.muts
        cap = 100000 if T else 20 if "heavy" in p.tags else 56
        if len(ms) > cap:
            # a random sample, stratified by (kind, action)
            rng = __import__("random").Random("C04/%s/%s/%d" % (p.name, opts, core.SEED))
            ms = list(ms); rng.shuffle(ms)
            seen = {}
            ms.sort(key=lambda m: seen.setdefault((m.kind, m.operator, m.action), []).append(1) or len(seen[(m.kind, m.operator, m.action)]))
            ms = ms[:cap]
        jobs += [(b, m) for m in ms]
    def one(a):
        b, m = a
        try:
            alts = [{m.file: e} for e in b.refs[m.file].alternatives(m)]
        except ref.NoRef as e:
            return (b, m, "noref", str(e), False)
        v, detail, killed = mutants.compare(b, [m.id], alts, b.p.inputs)
        if v == "diff" and mutants.unsequenced_risk(b, m):
            v, detail = "inconclusive", "unsequenced"
        if v == "diff" and mutants.const_init(b, m):
            v, detail = "inconclusive", "constant used in constant expressions"
        return (b, m, v, detail, killed)
    for b, m, v, detail, killed in core.pmap(one, jobs):
        tag = (m.kind, m.operator, m.action)
        if v == "same":
            chk.evaluate(1, (tag, killed) if killed else None)
            chk.count("mutants equal to their reference" + (", behaviour changed" if killed else ", behaviour unchanged"))
            if killed:
                chk.sample({"program": b.p.name, "id": m.id, "kind": m.kind, "operator": m.operator, "action": m.action})
        elif v in ("inconclusive",):
            chk.skip(detail[:60])
            if os.environ.get("VDEBUG"): print(b.p.name, m, b.src[m.file].data[m.range[0]:m.range[1]], detail)
        elif v == "noref":
            chk.violation("noref/%s/%s/%s" % (b.p.name, m.kind, m.action), "no such expression in the source: %s\n%s\n%s" % (detail, m, b.src[m.file].data[m.range[0]:m.range[1]]),
                          {m.file: b.p.files[m.file], "mutated_" + m.file: b.o.files[m.file]})
        else:
            chk.violation("%s/%s/%s/%d" % (b.p.name, m.kind, m.action, m.id),
                          "%s opts=%s mutant %s text=%r\n%s" % (b.p.name, b.opts, m, b.src[m.file].data[m.range[0]:m.range[1]], detail),
                          {m.file: b.p.files[m.file], "mutated_" + m.file: b.o.files[m.file]})
    return chk.finish("a mutant counts when enabling it gave exactly the trace and exit status of the reference program; distinct = (kind, operator, action) with changed behaviour", min_eval=100)

if __name__ == "__main__":
    sys.exit(core.guarded(main))
