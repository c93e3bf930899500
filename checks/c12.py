"""C12: output is deterministic and independent of reporting options."""
import sys, os, re, json
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vlib import core, dr, work, report
from vlib.core import run

BASES = [(), ("--no-mutation-opts",), ("--only-track-mutant-coverage",), ("--only-track-mutant-coverage", "--no-mutation-opts")]


def tokens(data, cpp):
    """Tokens of C/C++ text with comments dropped (a small lexer: strings, raw strings, characters)."""
    out = []
    i, n = 0, len(data)
    pat = re.compile(rb'R"([^()\\ ]{0,16})\(.*?\)\1"|"(?:\\.|[^"\\\n])*"|\'(?:\\.|[^\'\\\n])*\'|//(?:\\\r?\n|[^\n])*|/\*.*?\*/|\s+|\.?[0-9](?:\'[0-9A-Za-z_]|[eEpP][+-]|[0-9A-Za-z_.])*|[A-Za-z_0-9\x80-\xff$]+|.', re.S)
    for m in pat.finditer(data):
        t = m.group(0)
        if t.startswith((b"//", b"/*")) or t.isspace():
            continue
        out.append(t)
    return out


def shifted(info, delta):
    """The report with every id moved by delta."""
    s = json.loads(json.dumps(info))
    for f in s.get("infoForFiles", []):
        f["filename"] = os.path.basename(f["filename"])
        for node in f["mutationTree"]:
            for g in node.get("mutationGroups", []):
                k = list(g)[0]
                m = g[k]
                if k == "removeStmt":
                    m["mutationId"] = m.get("mutationId", 0) + delta
                else:
                    for x in m.get("instances", []):
                        x["mutationId"] = x.get("mutationId", 0) + delta
    return s


def main():
    chk = core.Check("C12")
    exe = core.build_dredd()
    T = core.THOROUGH
    sets = [(p.name, p.files, p.flags, p.order) for p in work.corpus() + work.generated(40 if T else 3, size=0.8) + work.generated(10 if T else 1, nfiles=3)]
    sets += [("case:" + n, {n: b}, fl, [n]) for n, fl, b in (work.cases() if T else work.cases()[core.SEED % 2::2])]
    sets += [(n, {n: b}, fl, [n]) for n, fl, b in (work.repo_inputs() if T else work.repo_inputs()[core.SEED % 5::5])]

    def flags_of(s):
        fl = list(s[2]) + ["-fwrapv", "-I" + dr.SUP]
        if not any(x.startswith("-std=") for x in fl):
            fl.append(dr.std_of(s[3][0]))
        return fl

    def go(s, opts, info=True, files=None, order=None, d=None, env=None, ast_info=False):
        return dr.dredd(exe, files or s[1], opts=opts, flags=flags_of(s), info=info, order=order or s[3], d=d, env=env)

    def one(job):
        s, base = job
        name, files, flags, order = s
        bad, n = [], 0
        d = core.scratch("det")
        a = go(s, base, d=d)
        if a.rc or a.info is None:
            return (s, base, None, "dredd failed (see C02, C15)", None)
        # again, in the same place: identical bytes of code and report
        envs = [{"MALLOC_PERTURB_": "77", "MALLOC_ARENA_TEST": "1"}, {"GLIBC_TUNABLES": "glibc.malloc.tcache_count=0"}, {"X_PAD": "y" * 3000}]
        for e in envs[:3 if T else 2]:
            b = go(s, base, d=d, env=e)
            n += 1
            for f in files:
                if b.files[f] != a.files[f]:
                    bad.append("a second run rewrites %s differently" % f)
            if getattr(b, "raw", None) != a.raw:
                bad.append("a second run gives another report")
        # without the report
        b = go(s, base, info=False)
        n += 1
        if b.rc or any(b.files[f] != a.files[f] for f in files):
            bad.append("the code depends on whether the report is asked for")
        # AST dump
        b = go(s, base + ("--dump-asts",))
        n += 1
        if b.rc or any(b.files[f] != a.files[f] for f in files):
            bad.append("dumping the AST changes the code")
        elif shifted(b.info, 0) != shifted(a.info, 0):
            bad.append("dumping the AST changes the report")
        # AST-node comments
        b = go(s, base + ("--show-ast-node-types",))
        n += 1
        if b.rc or b.info is None:
            bad.append("AST-node comments make dredd fail")
        else:
            for f in files:
                if tokens(b.files[f], None) != tokens(a.files[f], None):
                    x, y = tokens(b.files[f], None), tokens(a.files[f], None)
                    k = next((k for k in range(min(len(x), len(y))) if x[k] != y[k]), min(len(x), len(y)))
                    bad.append("AST-node comments change more than comments in %s: %r instead of %r" % (f, x[max(0, k - 3):k + 4], y[max(0, k - 3):k + 4]))
            if shifted(b.info, 0) != shifted(a.info, 0):
                bad.append("AST-node comments change the report")
        # the order and grouping of options
        return (s, base, bad, n, a)

    jobs = [(s, b) for i, s in enumerate(sets) for j, b in enumerate(BASES) if T or (i + j) % 2 == 0]
    for s, base, bad, n, a in core.pmap(one, jobs):
        if bad is None:
            chk.skip(n)
            continue
        chk.evaluate(n, (s[0], base) if a.info.get("infoForFiles") else None)
        chk.count("repeated or differently reported runs compared byte for byte", n)
        for b in bad:
            chk.violation("%s/%s/%s" % (s[0], ",".join(base), b.split(":")[0][:60]), "%s %s: %s" % (s[0], base, b), dict(s[1]))

    # ---- together or alone
    rng = chk.rng
    pool = [("u%d_%s" % (i, n), b) for i, (n, fl, b) in enumerate(work.cases()) if not fl and len(b) < 4000]
    pool += [("v%d_%s" % (i, n), b) for i, (n, fl, b) in enumerate(work.repo_inputs()) if len(b) < 4000 and n.endswith(".c")]
    groups = []
    for g in range(60 if T else 10):
        lang = (".c", ".cc")[g % 2]
        cand = [x for x in pool if x[0].endswith(lang)]
        if g % 5 == 4:
            cand = pool
        pick = rng.sample(cand, rng.randint(2, 5))
        groups.append(("group%d" % g, dict(pick), [], [n for n, _ in pick]))
    for p in work.corpus():
        if len(p.order) > 1:
            groups.append((p.name, p.files, p.flags, p.order))
            groups.append((p.name + ":r", p.files, p.flags, p.order[::-1]))

    def together(job):
        s, base = job
        name, files, flags, order = s
        fl = list(flags) + ["-fwrapv", "-I" + dr.SUP]
        d = core.scratch("tog")
        tog = dr.dredd(exe, files, opts=base, flags=fl, order=order, d=d)
        if tog.rc or tog.info is None:
            return (s, base, None, "dredd failed", None)
        bad, n = [], 0
        off = 0
        byname = {os.path.basename(f["filename"]): f for f in tog.info.get("infoForFiles", [])}
        for f in order:
            # the same place, so that __FILE__ and the like agree
            al = dr.dredd(exe, files, opts=base, flags=fl, order=[f], d=d)
            if al.rc or al.info is None:
                return (s, base, None, "dredd failed on one file", None)
            n += 1
            ai = al.info.get("infoForFiles", [])
            if bool(ai) != (f in byname):
                bad.append("%s has mutants only %s others" % (f, "without" if ai else "with"))
                continue
            if not ai:
                if tog.files[f] != files[f] and tog.files[f] != core_bytes(files[f]):
                    bad.append("%s has nothing to mutate but changes with others" % f)
                continue
            want = shifted(al.info, off)["infoForFiles"][0]
            got = shifted({"infoForFiles": [byname[f]]}, 0)["infoForFiles"][0]
            if want != got:
                bad.append("%s: report differs by more than the offset %d" % (f, off))
            # the code: tokens agree except for numbers that grow by the offset
            x, y = tokens(al.files[f], None), tokens(tog.files[f], None)
            if len(x) != len(y):
                bad.append("%s: code differs by more than numbers when mutated with others" % f)
            else:
                diffs = {(p, q) for p, q in zip(x, y) if p != q}
                for p, q in diffs:
                    if not (p.isdigit() and q.isdigit() and int(q) - int(p) == off):
                        bad.append("%s: %r becomes %r when mutated with others (offset %d)" % (f, p, q, off))
                        break
                if off and not diffs:
                    bad.append("%s: no id offset in the code although its ids start at %d" % (f, off))
                if off == 0 and al.files[f] != tog.files[f]:
                    bad.append("%s: code differs although the offset is 0" % f)
            off += sum(len(i) for _, i in report.ids_by_file(al.info))
        return (s, base, bad, n, tog)

    for s, base, bad, n, o in core.pmap(together, [(s, b) for i, s in enumerate(groups) for j, b in enumerate(BASES) if T or (i // 2 + j) % 2 == 0]):
        if bad is None:
            chk.skip(n)
            continue
        chk.evaluate(n, ("together", s[0], base))
        chk.count("files mutated alone and together", n)
        chk.sample({"group": s[0], "files": len(s[3]), "mode": list(base)})
        for b in bad:
            chk.violation("together/%s/%s/%s" % (s[0], ",".join(base), b[:60]), "%s %s: %s" % (s[0], base, b), dict(s[1]))
    return chk.finish("one evaluation = one pair of runs compared byte for byte (repetition, report on/off, AST dump, AST comments modulo comments, alone/together modulo id offset); distinct = (program, mode) with mutants", min_eval=100)


def core_bytes(x):
    return x if isinstance(x, bytes) else x.encode()


if __name__ == "__main__":
    sys.exit(core.guarded(main))
