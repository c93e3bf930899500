"""C16: every eligible construct gets the full set of mutants."""
import sys, os, collections
from concurrent.futures import ProcessPoolExecutor
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vlib import core, dr, work, astj, model, onefn, consts

MODES = [("--no-mutation-opts",), ()]


def heavy(data):
    return b"#include <" in data


def one(a):
    """Runs in a process of its own: reading clang's dump is slow in Python."""
    exe, root, (name, files, flags, order) = a
    os.makedirs(root)
    src = dr.sources_of(files)
    d0 = os.path.join(root, "orig")
    os.makedirs(d0)
    asts = {}
    for n, t in files.items():
        with open(os.path.join(d0, n), "wb") as f:
            f.write(t)
    fl = [f for f in flags] + ["-I" + dr.SUP]
    if not any(f.startswith("-std=") for f in fl):
        fl.append(dr.std_of(order[0]))
    res = []
    try:
        for n in order:
            asts[n] = astj.Ast(os.path.join(d0, n), fl)
    except core.HarnessError as e:
        return name, None, str(e)[:200]
    for i, mode in enumerate(MODES):
        d = os.path.join(root, str(i))
        os.makedirs(d)
        o = dr.dredd(exe, files, opts=mode, flags=fl, order=order, d=d)
        if o.rc or o.info is None:
            return name, None, "dredd failed"
        muts = dr.flatten(o.info, src)
        for n in order:
            m = model.Model(asts[n], not mode)
            ms = [x for x in muts if x.file == n]
            bad = []
            t = files[n]
            for what, k, h, w in model.compare(m, ms):
                text = core.text(t[k[1][0]:k[1][1]], 80)
                line = t.count(b"\n", 0, k[1][0]) + 1
                if what == "none":
                    d2 = "line %d, %r: mutated although it is in a %s" % (line, text, k[0]) if k[0] != "outside functions" else "line %d, %r: mutated although it is outside functions" % (line, text)
                else:
                    d2 = "line %d, %r: %s %s%s appears %d times in the report, the documented set has %d" % (line, text, k[0], k[3], " (operator %s)" % k[2] if k[2] else "", h, w)
                bad.append((what, k[0], k[2], k[3], d2))
            res.append((mode, n, bad, len(ms), sum(m.want.values()), sum(1 for r in m.none if r not in m.clear and r not in m.unclear), dict(m.seen)))
    return name, res, None


def main():
    chk = core.Check("C16")
    exe = core.build_dredd()
    T = core.THOROUGH
    sets = [(p.name, p.files, p.flags, p.order) for p in work.corpus() + work.matrices() + work.generated(400 if T else 40, size=0.9) + work.generated(60 if T else 6, nfiles=3)
           ]
    sets += [("case:" + n, {n: b}, fl, [n]) for n, fl, b in work.cases()]
    sets += [(n, {n: b}, fl, [n]) for n, fl, b in work.repo_inputs()]
    for lang in ("c", "cpp"):
        sets += [("clash:" + n, {n: b}, fl, [n]) for n, fl, b in consts.clash(lang)]
        files, drv, fs = onefn.program(lang, T)
        sets.append(("onefn:" + lang, {n: t if isinstance(t, bytes) else t.encode() for n, t in files.items()}, [], list(files)))
    core.run(["true"])      # builds the launcher before processes share it
    root = core.scratch("c16")
    judged = collections.Counter()
    with ProcessPoolExecutor(max_workers=8) as ex:
        for name, res, why in ex.map(one, [(exe, os.path.join(root, str(i)), s) for i, s in enumerate(sets)], chunksize=1):
            if res is None:
                chk.skip("dredd failed" if why == "dredd failed" else "clang gives no dump of the file")
                continue
            files = next(s[1] for s in sets if s[0] == name)
            seen_bad = set()
            for mode, n, bad, have, want, none, seen in res:
                mn = "off" if mode else "on"
                judged.update({(mn, k): v for k, v in seen.items()})
                chk.count("mutants the model demands, found (optimisations %s)" % mn, want - sum(1 for b in bad if b[0] == "missing"))
                chk.count("mutants in the reports (optimisations %s)" % mn, have)
                chk.count("places that must not be mutated", none)
                chk.evaluate(want + none)
                for k in seen:
                    chk.evaluate(0, (mn, "c" if n.endswith(".c") else "cpp", k))
                if not mode and want:
                    chk.sample({"file": n, "program": name, "mutants demanded and found": want, "in the report": have})
                for what, kind, op, act, d in bad:
                    key = (what, kind, op, act)
                    if key in seen_bad or len(seen_bad) > 5:
                        continue
                    seen_bad.add(key)
                    chk.violation("%s/%s/%s/%s/%s/%s" % (name, mn, what, kind, op, act), "%s %s, optimisations %s: %s" % (name, n, mn, d), files)
    chk.count("kinds of constructs judged", len(judged))
    chk.count("branches of if constexpr judged", sum(v for k, v in judged.items() if "if constexpr" in k[1]))
    return chk.finish("one evaluation = one mutant that the model of the documented set demands (or one place that must have none), looked up in the report; distinct = kinds of constructs judged (operator and types, expression kind and type, statement kind; language; mode)", min_eval=20000)


if __name__ == "__main__":
    sys.exit(core.guarded(main))
