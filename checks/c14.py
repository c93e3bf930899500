"""C14: the query tool explains every mutant correctly."""
import sys, os, re, json, random, shutil
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vlib import core, dr, work, mutants, ref, astj, gen

SCRIPT = os.path.join(core.REPO, "scripts/query_mutant_info.py")
CONST = {"ReplaceWithZeroFloat": "0.0", "ReplaceWithOneFloat": "1.0", "ReplaceWithMinusOneFloat": "-1.0",
         "ReplaceWithZeroInt": "0", "ReplaceWithOneInt": "1", "ReplaceWithMinusOneInt": "-1",
         "ReplaceWithTrue": "true", "ReplaceWithFalse": "false"}
INS = {"InsertPreInc": "++", "InsertPreDec": "--", "InsertLNot": "!", "InsertNot": "~", "InsertMinus": "-"}
SIMPLE = re.compile(r"[A-Za-z_]\w*|\d[\w.]*")


def text(src, r):
    return src.data[r[0]:r[1]].decode("utf8", "replace").replace("\r\n", "\n")


def forms(src, m):
    """(pieces): the canonical replacement as a list of operator strings and operand texts."""
    a = m.action
    if m.kind == "expr":
        if a in CONST:
            return [CONST[a]]
        return [INS[a], (text(src, m.range),)]
    if m.kind == "unary":
        t = (text(src, m.operand),)
        if a == "ReplaceWithOperand":
            return [t]
        if a.startswith("ReplaceWithPost"):
            return [t, "++" if a.endswith("Inc") else "--"]
        return [{"ReplaceWithMinus": "-", "ReplaceWithNot": "~", "ReplaceWithPreDec": "--", "ReplaceWithPreInc": "++", "ReplaceWithLNot": "!"}[a], t]
    if a == "ReplaceWithLHS":
        return [(text(src, m.lhs),)]
    if a == "ReplaceWithRHS":
        return [(text(src, m.rhs),)]
    return [(text(src, m.lhs),), ref.BINNAME[a[11:]], (text(src, m.rhs),)]


def nows(s):
    return re.sub(r"\s+", "", s)


def canonical(pieces, got):
    """Whether got is the canonical text, give or take white space and needless brackets."""
    alone = len(pieces) == 1
    opts = [""]
    for p in pieces:
        if isinstance(p, tuple):
            t = nows(p[0])
            o = ["(" + t + ")"]
            if alone or SIMPLE.fullmatch(p[0].strip()):
                o.append(t)
        else:
            o = [p]
        opts = [x + y for x in opts for y in o]
    g = nows(got)
    return g in opts or g in ["(" + x + ")" for x in opts]


def model_text(pieces):
    return " ".join("(" + p[0] + "\n)" if isinstance(p, tuple) else p for p in pieces)


def explain(out):
    """(kind heading, range description, original, replacement) from the script's output"""
    m = re.match(r"(Replace expression|Replace unary operator expression|Replace binary operator expression) at ([^\n]*)\n\nOriginal [^\n]*:\n\n(.*)\n\nReplacement expression:\n\n(.*)\n\n\Z", out, re.S)
    if m:
        return m.group(1), m.group(2), m.group(3), m.group(4)
    m = re.match(r"(Remove statement) at ([^\n]*)\n\nThis is the removed statement:\n\n(.*)\n\Z", out, re.S)
    if m:
        return m.group(1), m.group(2), m.group(3), None
    return None


HEAD = {"expr": "Replace expression", "unary": "Replace unary operator expression", "binary": "Replace binary operator expression", "remove": "Remove statement"}


def where(src, r):
    def lc(o):
        l = src.line(o)
        return "%d:%d" % (l, o - src.starts[l - 1] + 1)
    return lc(r[0]) + "--" + lc(r[1])


def query(info, a, b, ids, cwd=None):
    """{id: (rc, out)}; many runs of the script in one process"""
    res = {}
    ids = list(ids)
    for k in range(0, len(ids), 400):
        r = core.run([sys.executable, os.path.join(dr.SUP, "qdrv.py"), SCRIPT, info, a, b] + [str(i) for i in ids[k:k + 400]], timeout=300, cwd=cwd)
        for l in r.out.decode("utf8", "replace").splitlines():
            j = json.loads(l)
            res[j["id"]] = (j["rc"], j["out"])
    return res


def cli(args, cwd=None):
    return core.run([sys.executable, SCRIPT] + list(args), timeout=60, cwd=cwd)


def layout(p, d):
    """Writes the original and the to-be-mutated tree; returns names relative to the roots."""
    subs = ["", "sub/", "sub/deeper dir/", "sub/"]
    rel = {n: (subs[k % 4] if len(p.order) > 1 else "") + n for k, n in enumerate(p.order)}
    for root in ("original tree", "mutated"):
        for n in p.order:
            f = os.path.join(d, root, rel[n])
            os.makedirs(os.path.dirname(f), exist_ok=True)
            with open(f, "wb") as fh:
                fh.write(p.files[n])
    return rel


def main():
    chk = core.Check("C14")
    exe = core.build_dredd()
    T = core.THOROUGH
    progs = work.ready(chk, work.corpus() + work.generated(60 if T else 4, size=0.8) + work.generated(10 if T else 1, nfiles=3, size=0.5))
    small = []
    for name, flags, data in work.cases() + work.repo_inputs():
        fn = "case.c" if (name.endswith(".c") or "c" in flags[:1]) else "case.cc"
        p = work.Prog("case:" + name, {fn: data}, [f for f in flags if f.startswith("-")])
        p.runs = False
        small.append(p)
    for p in progs:
        p.runs = True

    def one(a):
        p, opts = a
        d = core.scratch("q")
        rel = layout(p, d)
        A, B, info = os.path.join(d, "mutated"), os.path.join(d, "original tree"), os.path.join(d, "info.json")
        r = core.run([exe, *opts, "--mutation-info-file", info] + [os.path.join(A, rel[n]) for n in p.order] + ["--"] + work.dr_flags(p), cwd=d, timeout=120)
        if r.rc or not os.path.exists(info):
            return (a, None, [], "dredd failed", None)
        src = dr.sources_of(p.files)
        muts = dr.flatten(json.load(open(info)), src)
        bad = []
        want = max([m.id for m in muts], default=-1)
        ms = list(muts)
        cap = 100000 if T else 220 if p.runs else 40
        if len(ms) > cap:
            rng = random.Random("C14/%s/%s/%d" % (p.name, opts, core.SEED))
            ms = sorted(rng.sample(ms, cap - 2) + [muts[0], muts[-1]], key=lambda m: m.id)
        unknown = [want + 1, -5, 10 ** 9]
        got = query(info, A, B, [m.id for m in ms] + unknown + ["largest"])
        rc, out = got.get("largest", (None, ""))
        if rc or out.strip() != str(want):
            bad.append(("largest", "largest id is %d, the script says %r (exit %s)" % (want, out[:60], rc), None))
        odd = []
        done = 0
        for m in ms:
            rc, out = got.get(m.id, (None, "no answer"))
            s = src[m.file]
            e = explain(out)
            if rc != 0 or e is None:
                bad.append(("answer/%s" % m.action, "id %d (%s): exit %s, output %r" % (m.id, m, rc, out[:300]), None))
                continue
            head, rng_, orig, repl = e
            done += 1
            if head != HEAD[m.kind] or rng_ != "%s, %s" % (rel[m.file], where(s, m.range)):
                bad.append(("heading/%s" % m.kind, "id %d (%s at %s %s): the script says %r at %r" % (m.id, m, rel[m.file], where(s, m.range), head, rng_), None))
            if orig.lstrip(" ") != text(s, m.range).lstrip(" ") or not orig.endswith(text(s, m.range)):
                bad.append(("original/%s" % m.kind, "id %d (%s): the original text is %r, the script shows %r" % (m.id, m, text(s, m.range)[:200], orig[:200]), None))
            if m.kind == "remove":
                continue
            if not canonical(forms(s, m), repl):
                odd.append((m, repl))
        for i in unknown:
            rc, out = got.get(i, (None, ""))
            if not rc:
                bad.append(("unknown id", "unknown id %d: exit %s, output %r" % (i, rc, out[:100]), None))
        return (a, (muts, ms, got, src, done, odd, d), bad, None, rel)

    MODES = [(), ("--no-mutation-opts",)]
    jobs = [(p, o) for p in progs for o in MODES] + [(p, ()) for p in small]
    ground = []
    for (p, opts), res, bad, why, rel in core.pmap(one, jobs):
        if res is None:
            chk.skip(why)
            continue
        muts, ms, got, src, done, odd, d = res
        chk.evaluate(done)
        chk.count("ids explained by the script", done)
        chk.count("reports queried")
        for m in ms:
            chk.distinct.add((m.kind, m.operator, m.action))
        for k, desc, _ in bad[:3]:
            chk.violation("%s/%s/%s" % (p.name, ",".join(opts), k), "%s %s: %s" % (p.name, opts, desc), p.files)
        # a replacement that reads differently must at least do the same
        for m, repl in odd[:40]:
            v, detail = same_code(p, src, m, repl)
            chk.count("replacements compared as code")
            if v == "diff":
                chk.violation("%s/%s/text/%s" % (p.name, ",".join(opts), m.action), "%s %s id %d %s text %r: the script's replacement is %r, the mutant is %r: %s" % (
                    p.name, opts, m.id, m, text(src[m.file], m.range)[:200], repl[:200], model_text(forms(src[m.file], m))[:200], detail), p.files)
            elif v != "same":
                chk.skip(v)
        if p.runs:
            rng = random.Random("C14g/%s/%s/%d" % (p.name, opts, core.SEED))
            pick = [m for m in ms if m.kind != "remove" and got[m.id][0] == 0 and explain(got[m.id][1])]
            rng.shuffle(pick)
            seen = {}
            pick.sort(key=lambda m: seen.setdefault((m.kind, m.operator, m.action), []).append(1) or len(seen[(m.kind, m.operator, m.action)]))
            ground.append((p, opts, [(m, explain(got[m.id][1])[3]) for m in pick[:400 if T else 4 if "heavy" in p.tags else 9 if p.cpp else 12]]))
            ground[-1] += ([m for m in ms if m.kind == "remove"][:400 if T else 3],)
        shutil.rmtree(d, ignore_errors=True)

    # ---- the printed replacement, compiled in place, against the enabled mutant
    def prep(g):
        p, opts, ms, rem = g
        b = mutants.Bench(p, exe, opts)
        if not b.ok or b.build().rc:
            return None
        b.asts()
        return b

    runs = []
    for g, b in zip(ground, core.pmap(prep, ground)):
        if b is None:
            chk.skip("mutated program does not build (see C02)")
            continue
        runs += [(b, m, r) for m, r in g[2]] + [(b, m, "") for m in g[3]]

    def behave(a):
        b, m, repl = a
        s, e = m.range
        alts = []
        if m.kind == "remove":
            alts = [{m.file: [(s, e, "{}")]}]
        else:
            alts = [{m.file: [(s, e, "(" + repl + ")")]}]
            if m.action not in ("InsertPreInc", "InsertPreDec"):
                try:
                    refs = b.refs[m.file].alternatives(m)
                except ref.NoRef:
                    refs = []
                for t in sorted({n.type for n in b.refs[m.file].ast.exprs_at(m.range) if n.type in astj.ARITH}):
                    alts.append({m.file: [(s, e, "((%s)(%s))" % (t, repl))]})
                    if m.kind == "expr" and m.action in INS:
                        alts.append({m.file: [(s, e, "((%s)(%s((%s)(%s))))" % (t, INS[m.action], t, text(b.src[m.file], m.range)))]} if repl.replace(" ", "").startswith(INS[m.action]) else alts[0])
                alts = [x for k, x in enumerate(alts) if x not in alts[:k]]
        v, detail, killed = mutants.compare(b, [m.id], alts, b.p.inputs)
        if v == "diff":
            # is the documented change itself what the mutant does here (C04)?
            try:
                v2, _, _ = mutants.compare(b, [m.id], [{m.file: x} for x in b.refs[m.file].alternatives(m)], b.p.inputs)
            except ref.NoRef:
                v2 = "no reference"
            if v2 != "same" or mutants.unsequenced_risk(b, m) or mutants.const_init(b, m):
                v, detail = "inconclusive", "the mutant itself has no sure reference"
            elif m.kind != "remove" and canonical(forms(b.src[m.file], m), repl):
                v, detail = "inconclusive", "differs only by implicit conversions of the operands"
        return (b, m, repl, v, detail, killed)

    for b, m, repl, v, detail, killed in core.pmap(behave, runs):
        if v == "same":
            chk.evaluate(1, ("run", m.kind, m.operator, m.action))
            chk.count("replacements compiled in place behaving like the enabled mutant")
            if killed:
                chk.sample({"program": b.p.name, "id": m.id, "action": m.action, "original": text(b.src[m.file], m.range)[:60], "replacement": repl[:60]})
        elif v == "inconclusive":
            chk.skip(detail[:70])
        else:
            chk.violation("%s/run/%s" % (b.p.name, m.action), "%s %s: the script's replacement %r for %r (id %d %s) does not behave like the mutant: %s" % (
                b.p.name, b.opts, repl[:200], text(b.src[m.file], m.range)[:200], m.id, m, detail), b.p.files)

    # ---- the command line
    d = core.scratch("cli")
    os.makedirs(d + "/m/s"); os.makedirs(d + "/o/s")
    for root in "mo":
        open(d + "/%s/s/a.c" % root, "w").write("int f(int a, int b) {\n  return a + b;\n}\n")
        open(d + "/%s/e.c" % root, "w").write("int x;\n")
    core.run([exe, "--mutation-info-file", d + "/i.json", d + "/m/s/a.c", "--"], cwd=d)
    core.run([exe, "--mutation-info-file", d + "/none.json", d + "/m/e.c", "--"], cwd=d)
    n = len(dr.flatten(json.load(open(d + "/i.json")), {"a.c": dr.Src(open(d + "/o/s/a.c", "rb").read())}))
    pre = ["--path-prefix-replacement", d + "/m", d + "/o"]
    EXP = [([d + "/none.json", "--largest-mutant-id"], 0, b"-1\n"),
           ([d + "/i.json", "--largest-mutant-id"], 0, b"%d\n" % (n - 1)),
           ([d + "/i.json", "--show-info-for-mutant", "0"], None, None),
           ([d + "/i.json"], None, None),
           ([d + "/i.json"] + pre, None, None),
           ([], None, None),
           ([d + "/absent.json", "--largest-mutant-id"], None, None),
           ([d + "/i.json", "--show-info-for-mutant"] + pre, None, None),
           ([d + "/i.json", "--show-info-for-mutant", "zero"] + pre, None, None),
           ([d + "/i.json", "--show-info-for-mutant", str(n)] + pre, None, None),
           ([d + "/i.json", "--show-info-for-mutant", "-1"] + pre, None, None),
           ([d + "/none.json", "--show-info-for-mutant", "0"] + pre, None, None),
           ([d + "/i.json", "--path-prefix-replacement", d + "/m", "--show-info-for-mutant", "0"], None, None),
           ([d + "/i.json", "--show-info-for-mutant", "0"] + pre, 0, b"a"),
           ([d + "/i.json", "--show-info-for-mutant", str(n - 1)] + pre, 0, b"a + b"),
           ([d + "/i.json", "--path-prefix-replacement", d + "/m/", d + "/o/", "--show-info-for-mutant", "0"], 0, b"s/a.c, 2"),
           ([d + "/i.json", "--path-prefix-replacement", d + "/m/s", d + "/o/s", "--show-info-for-mutant", "0"], 0, b"at a.c, 2"),
           ]
    for args, rc, needle in EXP:
        x = cli(args, cwd=d)
        chk.evaluate(1, ("cli", tuple(a.replace(d, "") for a in args)))
        chk.count("command lines tried")
        if rc is None:
            if x.rc == 0:
                chk.violation("cli", "query_mutant_info.py %s should fail but exits 0: %r" % (" ".join(args), x.out[:200]))
        elif x.rc != rc or needle not in x.out:
            chk.violation("cli", "query_mutant_info.py %s: exit %s, output %r, expected %r" % (" ".join(args), x.rc, (x.out + x.err)[-300:], needle))
    return chk.finish("one evaluation = one id whose explanation (kind, place, original text, replacement) was compared with the report and the source, or whose printed replacement was compiled in place and run against the enabled mutant; "
                      "distinct = (kind, operator, action) explained or run", min_eval=500)


def same_code(p, src, m, repl):
    """Compares the printed replacement with the documented one, both compiled in place."""
    objs = []
    for t in (repl, model_text(forms(src[m.file], m))):
        d = core.scratch("t")
        data = dr.splice(p.files[m.file], [(m.range[0], m.range[1], "(" + t + ")")])
        if m.file.endswith(".c"):
            data = b"#include <stdbool.h>\n#line 1\n" + data
        with open(os.path.join(d, m.file), "wb") as f:
            f.write(data)
        r = core.run([dr.comp_of(m.file), "-w", "-O0", "-g0", "-fwrapv", "-Wno-c++11-narrowing", *dr.flags_for(m.file, p.flags), "-I", dr.SUP, "-S", "-emit-llvm", "-fno-discard-value-names",
                      os.path.join(d, m.file), "-o", "-"], cwd=d)
        ir = re.sub(rb"(?m)^(; ModuleID|source_filename|!).*$", b"", r.out)
        objs.append((r.rc, ir, r.err))
        shutil.rmtree(d, ignore_errors=True)
    (a, ia, ea), (b, ib, eb) = objs
    if b:
        return "the documented replacement does not compile in place", ""
    if a:
        return "diff", "it does not compile: " + core.text(ea, 400)
    if ia == ib:
        return "same", ""
    if not getattr(p, "runs", False):
        return "code differs in a program that is not run", ""
    outs = []
    bench = mutants.Bench.__new__(mutants.Bench)
    bench.p = p
    for t in (repl, model_text(forms(src[m.file], m))):
        e, err, d = bench.reference({m.file: [(m.range[0], m.range[1], "(" + t + ")")]})
        if e is None:
            return "reference does not compile", ""
        outs.append([dr.execute(e, args=[str(i)], cwd=d, cpu=3, timeout=20).key() for i in p.inputs])
        shutil.rmtree(d, ignore_errors=True)
    if outs[0] != outs[1]:
        return "diff", "the two behave differently on inputs %s" % (p.inputs,)
    return "code differs but not the behaviour", ""


if __name__ == "__main__":
    sys.exit(core.guarded(main))
