"""C13: mutation optimisations only drop redundant mutants."""
import sys, os, re, random, collections
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vlib import core, dr, work, mutants, onefn, consts

NOOPT = ("--no-mutation-opts",)
RELATIONAL = {"LT", "LE", "GT", "GE", "EQ", "NE", "LAnd", "LOr"}
LITERAL = {"int": r"\d+", "unsigned int": r"\d+u", "long": r"(\d+|0x[0-9a-f]+)L", "unsigned long": r"(\d+|0x[0-9a-f]+)UL", "long long": r"\d+LL", "unsigned long long": r"\d+ULL",
           "float": r"[\d.]+f", "double": r"[\d.]+(e\d+)?", "long double": r"[\d.]+L"}


def equal(a, b):
    """Same results wherever neither run traps."""
    return all(x == y or "trap" in (x, y) for x, y in zip(a, b))


def main():
    chk = core.Check("C13")
    exe = core.build_dredd()
    T = core.THOROUGH

    # ---- small functions over a grid of inputs: what was dropped is redundant
    def table(a):
        lang, full = a
        files, drv, fs = onefn.program(lang, full)
        fn = list(files)[0]
        src = dr.sources_of(files)
        o, q = dr.dredd(exe, files, opts=NOOPT), dr.dredd(exe, files)
        if o.rc or q.rc or o.info is None or q.info is None:
            return (a, "dredd failed", None)
        ex = {}
        for k, x in (("o", o), ("q", q)):
            ex[k] = x.dir + "/x"
            if onefn.build(x.dir, files, drv, ex[k]).rc:
                return (a, "rewritten program does not build (see C02)", None)
        mo, mq = dr.flatten(o.info, src), dr.flatten(q.info, src)
        base = onefn.results(core.run([ex["o"]]).out)
        # without any mutant both builds must agree, else C03 has the word
        if base != onefn.results(core.run([ex["q"]]).out):
            return (a, "baselines differ (see C03)", None)
        fo, fq = onefn.by_function(mo, files[fn]), onefn.by_function(mq, files[fn])
        ro = onefn.observe(ex["o"], {fs[k][0]: [m.id for m in v] for k, v in fo.items()})
        rq = onefn.observe(ex["q"], {fs[k][0]: [m.id for m in v] for k, v in fq.items()})
        bad = []
        n = collections.Counter()
        shown = set()
        for k, v in fo.items():
            name, ret, ps, body, fam = fs[k]
            keyed = collections.defaultdict(list)
            for m in fq.get(k, []):
                keyed[m.key()].append(m)
            kept, dropped = [], []
            for m in v:
                if keyed.get(m.key()):
                    twin = keyed[m.key()].pop(0)
                    kept.append(m)
                    if m.kind != "remove" and m.id in ro and twin.id in rq:
                        n["mutants with the same behaviour in both modes"] += 1
                        if ro[m.id] != base[name]:
                            shown.add((lang, m.kind, m.operator, m.action))
                        if ro[m.id] != rq[twin.id]:
                            bad.append((("behaviour", m.kind, m.operator, m.action), "%s %s { %s }: %s gives %s with optimisations off and %s with them on" % (
                                ret, ps, body, m, ro[m.id][:12], rq[twin.id][:12])))
                else:
                    dropped.append(m)
            ops = {m.range for m in v if m.kind == "binary" and m.operator in RELATIONAL}
            kept = [m for m in kept if m.kind != "remove" and m.id in ro]
            B = base[name]
            for d in dropped:
                if d.kind == "remove":
                    continue
                if d.id not in ro:
                    n["dropped mutants that ended the run"] += 1
                    continue
                R = ro[d.id]
                strict = fam in ("rel", "log") and d.range in ops and (d.kind == "expr" and d.action != "InsertNot" and d.action != "InsertMinus" or d.kind == "binary" and d.action not in ("ReplaceWithLHS", "ReplaceWithRHS"))
                by = [m for m in kept if not strict or m.range == d.range]
                miss = [j for j, (x, y) in enumerate(zip(R, B)) if x != y and x != "trap" and not any(ro[m.id][j] != y for m in by)]
                n["dropped mutants dominated by retained ones" + (" of the same operator" if strict else "")] += not miss
                if any(x != y for x, y in zip(R, B)):
                    shown.add((lang, "dropped", d.kind, d.operator, d.action))
                if miss:
                    bad.append((("dominated", fam, d.kind, d.operator, d.action), "%s %s { %s }: %s was dropped; on input %d it gives %s instead of %s, and no retained mutant%s changes that result" % (
                        ret, ps, body, d, miss[0], R[miss[0]], B[miss[0]], " of the same expression" if strict else "")))
                inner = [m for m in kept if d.range[0] <= m.range[0] and m.range[1] <= d.range[1]]
                lit = re.fullmatch(r"return (\S+);", body)
                exact = lit and not ps and ret in LITERAL and re.fullmatch(LITERAL[ret], lit.group(1))
                if (d.kind == "binary" and d.operator not in RELATIONAL and "128" not in ret + body) or (exact and d.kind == "expr"):
                    ok = equal(R, B) or any(equal(R, ro[m.id]) for m in inner)
                    n["dropped mutants equal to the original or a retained one"] += ok
                    if not ok:
                        bad.append((("equal", fam, d.kind, d.operator, d.action), "%s %s { %s }: %s was dropped; it gives %s, the original %s, and no retained mutant of the expression equals it" % (
                            ret, ps, body, d, R[:9], B[:9])))
        return (a, None, (n, bad, shown, files, fn))

    for (lang, full), why, x in core.pmap(table, [("c", T), ("cpp", T)], workers=2):
        if x is None:
            chk.skip(why)
            continue
        n, bad, shown, files, fn = x
        for k, c in n.items():
            chk.count(k, c)
        chk.evaluate(sum(n.values()))
        chk.sample({"functions": lang, "kinds of dropped mutants that change behaviour": sorted("%s %s %s" % s[2:] for s in shown if s[1] == "dropped")[:20]})
        for s in shown:
            chk.evaluate(0, s)
        seen = set()
        for key, d in bad:
            if key in seen:
                continue
            seen.add(key)
            chk.violation("onefn/%s/%s" % (lang, "/".join(str(k) for k in key)), d, {fn: files[fn]})

    # ---- whole programs: retained mutants exist in both modes, and behave the same
    progs = work.ready(chk, [p for p in work.corpus() if "heavy" not in p.tags] + work.generated(60 if T else 6, size=0.8) + work.generated(20 if T else 2, nfiles=3, size=0.5))

    def whole(p):
        bo, bq = mutants.Bench(p, exe, NOOPT), mutants.Bench(p, exe, ())
        if not bo.ok or not bq.ok:
            return (p, "dredd failed", None)
        pool = collections.defaultdict(list)
        for m in bo.muts:
            pool[m.key()].append(m)
        bad, pairs = [], []
        for m in bq.muts:
            if not pool.get(m.key()):
                bad.append(("only", "%s exists only with optimisations on" % m))
            else:
                pairs.append((m, pool[m.key()].pop(0)))
        if bo.build().rc or bq.build().rc:
            return (p, None, (bo, bq, bad, pairs, 0, set(), "does not build (see C02)"))
        rng = random.Random("C13/%d/%s" % (core.SEED, p.name))
        # the same text can hold several nodes with equal keys: their order is the same in both modes
        some = rng.sample(pairs, min(len(pairs), 400 if T else 45))
        killed = set()
        same = 0
        i = p.inputs[0]
        for m, t in some:
            x, y = bq.run([m.id], i), bo.run([t.id], i)
            if x.timeout or y.timeout:
                continue
            if x.key() == y.key():
                same += 1
                if x.key() != p.base[i]:
                    killed.add(m.id)
                continue
            if not mutants.steady(bq, [m.id], i) or not mutants.steady(bo, [t.id], i):
                chk.skip("behaviour depends on memory the mutant should not read")
                continue
            bad.append(("behaviour", "%s: id %d with optimisations and id %d without differ: rc %s and %s; %s" % (m, m.id, t.id, x.rc, y.rc, mutants.first_diff(x.out, y.out))))
        return (p, None, (bo, bq, bad, pairs, same, killed, None))

    for p, why, x in core.pmap(whole, progs):
        if x is None:
            chk.skip(why)
            continue
        bo, bq, bad, pairs, same, killed, why = x
        if why:
            chk.skip(why)
        chk.count("mutants of whole programs found in both modes", len(pairs))
        chk.count("mutants dropped in whole programs", len(bo.muts) - len(pairs))
        chk.count("mutants of whole programs run in both modes, equal", same)
        chk.evaluate(len(pairs) + same)
        for k in killed:
            chk.evaluate(0, (p.name, k))
        for k, d in bad[:3]:
            chk.violation("%s/%s" % (p.name, k), "%s: %s" % (p.name, d), p.files)

    # ---- inclusion only: small files, operator tables
    singles = []
    for n, fl, t in work.repo_inputs():
        singles.append((n, fl, {n: t}))
    for n, fl, t in work.cases():
        singles.append((n, fl, {n if n.endswith((".c", ".cc")) else n + ".cc": t}))
    for n, fl, t in consts.clash("c") + consts.clash("cpp"):
        singles.append((n, fl, {n: t}))
    for p in work.matrices():
        singles.append((p.name, work.dr_flags(p), p.files))

    def incl(a):
        n, fl, files = a
        src = dr.sources_of(files)
        fl = list(fl) + ["-I" + dr.SUP]
        o, q = dr.dredd(exe, files, opts=NOOPT, flags=fl), dr.dredd(exe, files, flags=fl)
        if o.rc or q.rc:
            return (n, files, None, 0)
        mo = collections.Counter(m.key() for m in dr.flatten(o.info, src))
        mq = collections.Counter(m.key() for m in dr.flatten(q.info, src))
        return (n, files, [k for k in mq if mq[k] > mo[k]], sum(mq.values()))

    for n, files, extra, k in core.pmap(incl, singles):
        if extra is None:
            chk.skip("dredd failed")
            continue
        chk.count("files compared by their reports")
        chk.count("mutants of small files found in both modes", k - len(extra))
        chk.evaluate(1)
        if extra:
            chk.violation("inclusion/" + n, "%s: %d mutants exist only with optimisations on, such as %s" % (n, len(extra), extra[0]), files)
    return chk.finish("one evaluation = one mutant related across modes: found in both, equal in behaviour, or dropped and shown redundant on a grid of inputs; distinct = mutants and kinds of dropped mutants whose behaviour differs from the original", min_eval=1000)


if __name__ == "__main__":
    sys.exit(core.guarded(main))
